package main

import (
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("S04", ruleS04)
}

const invCheck = `modelchecker\.CheckInvariants(WithProber)?\(`

// isInvCheck: a call that checks the state assertions of a process.
func isInvCheck(in ssa.Instruction) bool {
	c, ok := in.(ssa.CallInstruction)
	return ok && reMatch(`^modelchecker\.CheckInvariants(WithProber)?$`, calleeName(c))
}

// sameState: does process expression p denote the process of node expression n?
func sameState(p, n string) bool {
	if p == n+".Process" || p == n {
		return true
	}
	return strings.Contains(n, "ForkForAlternatePaths(") && strings.Contains(n, ","+p+",") || strings.Contains(n, "NewNode("+p+")")
}

// elemIndex: the index value with which an element was fetched (x[i] → i).
func elemIndex(v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok {
		if ia, ok := u.X.(*ssa.IndexAddr); ok {
			return ia.Index
		}
	}
	if ix, ok := v.(*ssa.Index); ok {
		return ix.Index
	}
	return nil
}

func qm(s string) string { return regexp.QuoteMeta(s) }

func ruleS04(c *Ctx, r *Rep) {
	w := c.World
	r.Rule("no state is published for exploration before its assertions were evaluated (path query from the enclosing function's entry to every publishYieldPoint call)")
	r.Rule("the result of every assertion evaluation is recorded on the state when it is not empty, and then ends the path as a reported failure unless the run is configured to continue")
	r.Rule("the evaluation visits every assertion, records failures and witnesses exactly when the evaluated value says so, and returns the evaluated truth value")
	r.Rule("every driver loop turns a reported failure into the run's failed node")

	// 1. checked before published
	sites := w.callSites("modelchecker.Processor.publishYieldPoint")
	n := 0
	for _, cs := range sites {
		fn := cs.Parent()
		node := w.render(callArgs(cs)[1])
		n++
		w.must(r, step{Key: "checked-before-explored/" + shortFn(fn), Why: "a yield point is published without evaluating its assertions", Fn: fn,
			NoEnter: w.onlyHelpers(fn, "modelchecker.Processor.crashThread", "modelchecker.Processor.crashProcess"),
			Through: func(in ssa.Instruction) bool {
				return isInvCheck(in) && sameState(w.render(callArgs(in.(ssa.CallInstruction))[0]), node)
			},
			Goal: func(in ssa.Instruction) bool { return in == cs.(ssa.Instruction) }})
	}
	r.Floor("published yield points", n, 3)

	// 2. results recorded
	n = 0
	for _, name := range []string{"modelchecker.CheckInvariants", "modelchecker.CheckInvariantsWithProber"} {
		for _, cs := range w.callSites(name) {
			fn := cs.Parent()
			if shortFn(fn) == "CheckInvariants" {
				continue
			}
			n++
			key := "failure-recorded/" + shortFn(fn)
			proc := w.render(callArgs(cs)[0])
			v, ok := cs.(*ssa.Call)
			if !ok || v.Referrers() == nil || len(*v.Referrers()) == 0 {
				r.Check(key, w.ipos(cs.(ssa.Instruction)), false, "the result of the assertion check is dropped")
				continue
			}
			noFail := w.cutRel(`^len\(.*`+invCheck+`.*\[0\]\)$|^len\(.*`+invCheck+`.*\)$`, "<=", "^0$")
			noFail2 := w.cutRel(`^len\(.*`+invCheck+`.*\[0\]\)$|^len\(.*`+invCheck+`.*\)$`, "==", "^0$")
			store := func(in ssa.Instruction) bool {
				st, ok := in.(*ssa.Store)
				if !ok {
					return false
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				return ok && fieldName(fa.X.Type(), fa.Field) == "FailedInvariants" && strings.Contains(w.render(st.Val), "CheckInvariants")
			}
			w.must(r, step{Key: key, Why: "a failed assertion is not recorded on the state", After: cs.(ssa.Instruction), Cut: anyCut(noFail, noFail2),
				Through: store, NoEnter: w.onlyHelpers(fn),
				Goal: func(in ssa.Instruction) bool { _, ok := in.(*ssa.Return); return ok && in.Parent() == fn }})
			// recorded on the state that was checked
			instrs(fn, func(in ssa.Instruction) {
				if !store(in) {
					return
				}
				st := in.(*ssa.Store)
				owner := w.render(st.Addr.(*ssa.FieldAddr).X)
				if namedName(st.Addr.(*ssa.FieldAddr).X.Type()) == "Process" || namedName(st.Addr.(*ssa.FieldAddr).X.Type()) == "Node" {
					// main.go's composed nodes are created from the checked process
					same := owner == proc || sameState(owner, proc) || sameState(proc, strings.TrimSuffix(owner, ".Process")) || strings.HasSuffix(owner, ".Init.Process")
					r.Check(key+"/same-state", w.ipos(in), same, ifBad(!same, "the failure of "+proc+" is recorded on "+owner))
				}
			})
		}
	}
	r.Floor("assertion evaluations", n, 5)

	// 3. the path ends as a failure
	pn := w.Func("modelchecker.Processor.processNode")
	cont := w.isTrue(`ContinuePathOnInvariantFailures$`)
	if pn != nil {
		for _, st := range w.storesIn(pn, "FailedInvariants") {
			label := "state"
			if namedName(st.Addr.(*ssa.FieldAddr).X.Type()) == "Link" {
				continue // transition assertions: S05
			}
			w.must(r, step{Key: "failure-ends-path/processNode/" + label, Why: "exploration continues after a failed assertion", After: st, Cut: cont,
				NoEnter: w.onlyHelpers(pn),
				Goal:    anyOf(isCall("modelchecker.Processor.publishYieldPoint"), w.callTo(`lib\.LinearCollection\.Add`), w.callTo(`modelchecker\.Processor\.crashThread`)),
				GoalEnv: mayReturn(pn, 0, false)})
			w.must(r, step{Key: "failure-drops-pending/processNode/" + label, Why: "pending branches of the same step run on after the failure and hide it", After: st, Cut: cont,
				NoEnter: w.onlyHelpers(pn),
				Through: w.callTo(`lib\.(LinearCollection|Queue|Stack|RandomQueue)\.ClearAll$`, `intermediateStates`),
				Goal:    func(in ssa.Instruction) bool { _, ok := in.(*ssa.Return); return ok && in.Parent() == pn }})
		}
		// no invented failures
		w.must(r, step{Key: "no-false-failure/processNode", Why: "a failure is reported although no check failed", Fn: pn,
			NoEnter: w.onlyHelpers(pn),
			Cut:     anyCut(w.cutRel(`^len\(.*Check(Invariants|TransitionInvariants)`, ">", "^0$"), w.cutRel(`^len\(.*Check(Invariants|TransitionInvariants)`, "!=", "^0$"), w.isFalse(`^modelchecker\.CheckRefinement\(`)),
			GoalEnv: mayReturn(pn, 0, true)})
	} else {
		r.Undecided("processNode", "-", "function not found")
	}
	if cr := w.Func("modelchecker.Processor.crashRole"); cr != nil {
		for _, st := range w.storesIn(cr, "FailedInvariants") {
			w.must(r, step{Key: "failure-ends-path/crashRole", Why: "exploration continues after a failed assertion", After: st, Cut: cont,
				NoEnter: w.onlyHelpers(cr),
				Goal:    isCall("modelchecker.Processor.publishYieldPoint"),
				GoalEnv: returnsNil(cr, 1)})
		}
		for _, fnm := range []string{"modelchecker.Processor.crashRoles", "modelchecker.Processor.crashProcess"} {
			fn := w.Func(fnm)
			if fn == nil {
				r.Undecided("failure-propagated/"+fnm, "-", "function not found")
				continue
			}
			for _, cs := range calls(fn, "modelchecker.Processor.crashRole", "modelchecker.Processor.crashRoles") {
				callee := strings.TrimPrefix(calleeName(cs), "modelchecker.Processor.")
				suffix := `\)$`
				if callee == "crashRole" {
					suffix = `\)#1$`
				}
				w.must(r, step{Key: "failure-propagated/" + shortFn(fn) + "/" + callee, Why: "a crash state that violates an assertion is not reported", After: cs.(ssa.Instruction),
					NoEnter: w.onlyHelpers(fn),
					Cut:     w.cutRel(`^modelchecker\.Processor\.`+callee+`\(.*`+suffix, "==", "^nil$"),
					GoalEnv: returnsNilOrOther(w, fn, 0, `crashRole`)})
			}
		}
	}
	if ct := w.Func("modelchecker.Processor.crashThread"); ct != nil {
		for _, st := range w.storesIn(ct, "FailedInvariants") {
			w.must(r, step{Key: "failure-ends-path/crashThread", Why: "exploration continues after a failed assertion", After: st, Cut: cont,
				NoEnter: w.onlyHelpers(ct),
				Goal:    isCall("modelchecker.Processor.publishYieldPoint")})
			w.must(r, step{Key: "failure-reported/crashThread", Why: "the failed crash state is not handed to the driver", After: st,
				NoEnter: w.onlyHelpers(ct),
				Cut:     w.cutRel(`threadCrashFailure$`, "!=", "^nil$"),
				Through: w.storeTo("Processor", "threadCrashFailure", `ForkForAlternatePaths`),
				Goal:    func(in ssa.Instruction) bool { _, ok := in.(*ssa.Return); return ok && in.Parent() == ct }})
		}
	}
	if in := w.Func("modelchecker.Processor.InitializeNode"); in != nil {
		w.must(r, step{Key: "checked-before-explored/InitializeNode", Why: "the initial state of a specification without an Init action is not checked", Fn: in,
			NoEnter: w.onlyHelpers(in),
			Cut:     anyCut(w.cutRel(`Actions\[0\]\.Name$`, "==", `^"Init"$`), w.cutRel(`#1$`, "!=", "^nil$")),
			Through: isInvCheck,
			Goal:    func(x ssa.Instruction) bool { _, ok := x.(*ssa.Return); return ok && x.Parent() == in }})
		for _, st := range w.storesIn(in, "FailedInvariants") {
			w.must(r, step{Key: "failure-ends-path/InitializeNode", Why: "a failing initial state is not returned as the failed node", After: st, Cut: cont,
				NoEnter: w.onlyHelpers(in), GoalEnv: returnsNil(in, 1)})
		}
	}

	w.assertionLoop(r)
	w.drivers(r)
}

// storesIn: the stores to a field of that name in fn and its private helpers.
func (w *World) storesIn(fn *ssa.Function, field string) []*ssa.Store {
	var out []*ssa.Store
	for _, f := range w.withHelpers(fn) {
		instrs(f, func(in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == field {
					out = append(out, st)
				}
			}
		})
	}
	return out
}

// returnsNil matches a return of fn whose i-th result is nil on the path.
func returnsNil(fn *ssa.Function, i int) func(ssa.Instruction, func(ssa.Value) ssa.Value) bool {
	return func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
		rt, ok := in.(*ssa.Return)
		return ok && rt.Parent() == fn && i < len(rt.Results) && isNilConst(res(retVal(rt, i)))
	}
}

// returnsNilOrOther: the i-th result is, on the path, nil or something that does not come from a call named `from`.
func returnsNilOrOther(w *World, fn *ssa.Function, i int, from string) func(ssa.Instruction, func(ssa.Value) ssa.Value) bool {
	return func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
		rt, ok := in.(*ssa.Return)
		if !ok || rt.Parent() != fn || i >= len(rt.Results) {
			return false
		}
		v := res(retVal(rt, i))
		return isNilConst(v) || !strings.Contains(w.render(v), from)
	}
}

func (w *World) assertionLoop(r *Rep) {
	fn := w.Func("modelchecker.CheckInvariantsWithProber")
	if fn == nil {
		r.Undecided("assertion-loop", "-", "function not found")
		return
	}
	eval := anyOf(isCall("modelchecker.CheckInvariant"), isCall("modelchecker.CheckAssertion"))
	transition := w.isTrue(`^slices\.Contains\(.*TemporalOperators,"transition"\)$`)
	w.everyElement(r, "every-assertion", fn, `\.Invariants$`, eval, transition, nil)
	hs := w.withHelpers(fn)
	w.everyElement(r, "every-file", fn, `\.Files$`, func(in ssa.Instruction) bool { return true }, nil, nil)
	ops := func(op, val string) func(Edge) bool {
		return w.cutRel(`^slices\.Contains\(.*TemporalOperators,"`+op+`"\)$`, "==", "^"+val+"$")
	}
	isEnd := func(in ssa.Instruction) bool { // the end of the iteration or of the function
		if _, ok := in.(*ssa.Return); ok && in.Parent() == fn {
			return true
		}
		for _, f := range hs {
			if in.Parent() != f {
				continue
			}
			for _, l := range w.loopsOf(f) {
				if l.Over != nil && re(`\.Invariants$`).MatchString(w.render(l.Over)) && in == firstNonPhi(l.Head) {
					return true
				}
			}
		}
		return false
	}
	var appends []ssa.Instruction
	var witness []ssa.Instruction
	for _, f := range hs {
		instrs(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Store:
				if strings.Contains(w.render(x.Addr), ".Witness[") {
					witness = append(witness, in)
				}
			case *ssa.Call:
				if calleeName(x) == "builtin.append" && isIntSlice(x.Type()) {
					appends = append(appends, in)
				}
			}
		})
	}
	isAppend := func(in ssa.Instruction) bool { return contains(appends, in) }
	isWitness := func(in ssa.Instruction) bool { return contains(witness, in) }
	n := 0
	for _, f := range hs {
		for _, cs := range calls(f, "modelchecker.CheckInvariant", "modelchecker.CheckAssertion") {
			n++
			nm := strings.TrimPrefix(calleeName(cs), "modelchecker.")
			passT, passF := w.isTrue(`^modelchecker\.`+nm+`\(`), w.isFalse(`^modelchecker\.`+nm+`\(`)
			live := anyCut(ops("eventually", "true"), ops("exists", "true"))
			if nm == "CheckInvariant" {
				live = w.isTrue(`\.Eventually$`)
			}
			noE := func(g *ssa.Function) bool { return true }
			w.must(r, step{Key: "failing-recorded/" + nm, Why: "a safety assertion that fails is not among the failures", After: cs.(ssa.Instruction), Through: isAppend, NoEnter: noE,
				Cut: anyCut(passT, live), Goal: isEnd})
			liveNot := []func(Edge) bool{ops("exists", "false"), ops("eventually", "false")}
			if nm == "CheckInvariant" {
				liveNot = []func(Edge) bool{w.isFalse(`\.Eventually$`)}
			}
			for i, ln := range liveNot {
				kind := []string{"exists", "eventually"}[i]
				w.must(r, step{Key: "witness-recorded/" + nm + "/" + kind, Why: "a state that satisfies a liveness or exists assertion is not recorded as a witness", After: cs.(ssa.Instruction), Through: isWitness, NoEnter: noE,
					Cut: anyCut(passF, ln), Goal: isEnd})
				w.must(r, step{Key: "failing-only-safety/" + nm + "/" + kind, Why: "a liveness or exists assertion that does not hold yet is reported as a failure", After: cs.(ssa.Instruction), NoEnter: noE,
					Through: isEnd, Cut: ln, Goal: isAppend})
			}
			w.must(r, step{Key: "passing-not-failed/" + nm, Why: "an assertion that holds is reported as a failure", After: cs.(ssa.Instruction), NoEnter: noE, Through: isEnd, Cut: passF, Goal: isAppend})
			w.must(r, step{Key: "failing-no-witness/" + nm, Why: "a state that does not satisfy the assertion is recorded as a witness", After: cs.(ssa.Instruction), NoEnter: noE, Through: isEnd, Cut: passT, Goal: isWitness})
			a := callArgs(cs)
			if nm == "CheckAssertion" && len(a) >= 3 {
				if ix := elemIndex(a[1]); ix != nil {
					r.Check("assertion-index/"+nm, w.ipos(cs.(ssa.Instruction)), ix == a[2], ifBad(ix != a[2], "the assertion is evaluated with the position of another one"))
				}
			}
			// results are filed under the assertion's own position
			if ix := elemIndex(a[1]); ix != nil {
				for _, ap := range appends {
					for _, el := range appendedElems(ap.(*ssa.Call)) {
						r.Check("failure-position/"+nm, w.ipos(ap), el == ix || !sameFn(el, ix), ifBad(el != ix, "the failure is filed under the position of another assertion"))
					}
				}
				for _, wi := range witness {
					ia, ok := wi.(*ssa.Store).Addr.(*ssa.IndexAddr)
					if ok {
						r.Check("witness-position/"+nm, w.ipos(wi), ia.Index == ix || !sameFn(ia.Index, ix), ifBad(ia.Index != ix, "the witness is filed under the position of another assertion"))
					}
				}
			}
		}
	}
	r.Floor("assertion evaluation calls", n, 2)

	// the evaluated value is what is returned
	for _, s := range []struct{ fn, pat string }{
		{"modelchecker.CheckInvariant", `^starlark\.Value\.Truth\(modelchecker\.Evaluator\.EvalPyExpr`},
		{"modelchecker.execAssertionFunction", `^starlark\.Value\.Truth\(modelchecker\.execFunctionBlock\(`},
		{"modelchecker.CheckAssertion", `^modelchecker\.execAssertionFunction\(|^starlark\.Value\.Truth\(`},
	} {
		w.returnsOnly(r, "evaluated-value/"+s.fn[len("modelchecker."):], w.Func(s.fn), 0, s.pat)
	}
	if f := w.Func("modelchecker.execFunctionBlock"); f != nil {
		w.returnsOnly(r, "evaluated-value/execFunctionBlock", f, 0, `\.Returns\[`)
		w.must(r, step{Key: "evaluated-to-the-end/execFunctionBlock", Why: "the assertion's value is read before its code ran to the end", Fn: f, NoEnter: func(*ssa.Function) bool { return true },
			Cut:  anyCut(w.cutRel(`GetThreadsCount\(|^len\(.*Threads\)$`, "<=", `GetThreadsCount\(|^len\(.*Threads\)$`), w.cutRel(`GetThreadsCount\(|^len\(.*Threads\)$`, "==", `GetThreadsCount\(|^len\(.*Threads\)$`)),
			Goal: func(in ssa.Instruction) bool { _, ok := in.(*ssa.Return); return ok }})
	}
	if f := w.Func("modelchecker.execAssertionFunction"); f != nil {
		for _, cs := range calls(f, "modelchecker.execFunctionBlock") {
			pc := w.render(callArgs(cs)[2])
			ok := strings.Contains(pc, `"Invariants[%d]"`)
			r.Check("assertion-body/execAssertionFunction", w.ipos(cs.(ssa.Instruction)), ok, ifBad(!ok, "the code that is run is not the assertion's own: "+pc))
		}
	}
}

// returnsOnly: every return of fn yields, as its i-th result, a value that renders as pat.
func (w *World) returnsOnly(r *Rep, key string, fn *ssa.Function, i int, pat string) {
	if fn == nil {
		r.Undecided(key, "-", "function not found")
		return
	}
	n := 0
	instrs(fn, func(in ssa.Instruction) {
		rt, ok := in.(*ssa.Return)
		if !ok || i >= len(rt.Results) {
			return
		}
		for _, v := range phiLeaves(retVal(rt, i)) {
			n++
			s := w.render(v)
			good := re(pat).MatchString(s)
			r.Check(key, w.ipos(in), good, ifBad(!good, "it can return "+s))
		}
	})
	if n == 0 {
		r.Undecided(key, w.Pos(fn.Pos()), "no return")
	}
}

func phiLeaves(v ssa.Value) []ssa.Value {
	seen := map[ssa.Value]bool{}
	var out []ssa.Value
	var rec func(ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		if p, ok := v.(*ssa.Phi); ok {
			for _, e := range p.Edges {
				rec(e)
			}
			return
		}
		out = append(out, v)
	}
	rec(v)
	return out
}

func sameFn(a, b ssa.Value) bool {
	f := func(v ssa.Value) *ssa.Function {
		if in, ok := v.(ssa.Instruction); ok {
			return in.Parent()
		}
		return nil
	}
	return f(a) == nil || f(b) == nil || f(a) == f(b)
}

func contains(l []ssa.Instruction, in ssa.Instruction) bool {
	for _, x := range l {
		if x == in {
			return true
		}
	}
	return false
}

func isIntSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// appendedElems: the values appended by append(x, a, b…).
func appendedElems(c *ssa.Call) []ssa.Value {
	if len(c.Call.Args) != 2 {
		return nil
	}
	sl, ok := c.Call.Args[1].(*ssa.Slice)
	if !ok {
		return nil
	}
	return sliceElems(sl)
}

// sliceElems: the elements of a list literal (or of the variadic arguments of a call).
func sliceElems(sl *ssa.Slice) []ssa.Value {
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []ssa.Value
	for _, ref := range *al.Referrers() {
		if ia, ok := ref.(*ssa.IndexAddr); ok {
			for _, r2 := range *ia.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ia {
					out = append(out, st.Val)
				}
			}
		}
	}
	return out
}

// drivers: every loop that runs steps turns a reported failure into the run's failed node.
func (w *World) drivers(r *Rep) {
	opaque := func(fn *ssa.Function) func(*ssa.Function) bool { return w.onlyHelpers(fn) }
	resultIs := func(fn *ssa.Function, i int, want string) func(ssa.Instruction, func(ssa.Value) ssa.Value) bool {
		return func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
			rt, ok := in.(*ssa.Return)
			if !ok || rt.Parent() != fn || i >= len(rt.Results) {
				return false
			}
			v := res(retVal(rt, i))
			if c, ok := v.(*ssa.Const); ok && c.Value != nil && want == "processNode" {
				b, known := constBool(c)
				return !(known && b)
			}
			return isNilConst(v) || !strings.Contains(w.render(v), want)
		}
	}
	callers := func(name string) map[*ssa.Function][]ssa.CallInstruction {
		m := map[*ssa.Function][]ssa.CallInstruction{}
		for _, cs := range w.callSites(name) {
			m[cs.Parent()] = append(m[cs.Parent()], cs)
		}
		return m
	}
	nilNode := w.cutRel(`.*`, "!=", "^nil$")
	n := 0
	for fn, sites := range callers("modelchecker.Processor.processNode") {
		for _, cs := range sites {
			n++
			failed := w.isFalse(`^modelchecker\.Processor\.processNode\(.*\)#0$`)
			pruned := w.isTrue(`^modelchecker\.Processor\.processNode\(.*\)#1$`)
			if fn.Signature.Results().Len() > 0 && isBool0(fn) {
				w.must(r, step{Key: "failure-kept/" + shortFn(fn), Why: "the failure of a step is not passed on", After: cs.(ssa.Instruction), NoEnter: opaque(fn), Cut: failed,
					Through: isCall("modelchecker.Processor.processNode"), GoalEnv: resultIs(fn, 0, "processNode")})
			} else {
				w.must(r, step{Key: "failure-kept/" + shortFn(fn), Why: "the failure of a step does not become the run's failed node", After: cs.(ssa.Instruction), NoEnter: opaque(fn), Cut: anyCut(failed, pruned, nilNode),
					GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
						rt, ok := in.(*ssa.Return)
						if !ok || rt.Parent() != fn || len(rt.Results) < 2 {
							return false
						}
						v := res(retVal(rt, 1))
						return isNilConst(v) || re(`^modelchecker\.Processor\.InitializeNode\(`).MatchString(w.render(v))
					}})
			}
		}
	}
	r.Floor("drivers of processNode", n, 2)
	n = 0
	for _, name := range []string{"crashProcess", "takeThreadCrashFailure"} {
		for fn, sites := range callers("modelchecker.Processor." + name) {
			if fn.Signature.Results().Len() < 3 || !isBool0(fn) {
				continue
			}
			for _, cs := range sites {
				n++
				w.must(r, step{Key: "crash-failure-kept/" + shortFn(fn) + "/" + name, Why: "a crash state that violates an assertion is not passed on", After: cs.(ssa.Instruction), NoEnter: opaque(fn),
					Cut:     anyCut(w.cutRel(`^modelchecker\.Processor\.`+name+`\(`, "==", "^nil$"), w.cutRel(`^phi\(`, "!=", "^nil$")),
					Through: isCall("modelchecker.Processor.processNode"),
					GoalEnv: resultIs(fn, 2, name)})
			}
		}
	}
	r.Floor("crash drivers", n, 2)
	n = 0
	for fn, sites := range callers("modelchecker.Processor.expandToYield") {
		for _, cs := range sites {
			n++
			e := `^modelchecker\.Processor\.expandToYield\(.*\)`
			notFailed, pruned := w.isFalse(e+"#0$"), w.isTrue(e+"#1$")
			k := "failure-kept/" + shortFn(fn)
			w.must(r, step{Key: k, Why: "the failure of an expansion does not become the run's failed node", After: cs.(ssa.Instruction), NoEnter: opaque(fn), Cut: anyCut(notFailed, pruned, nilNode),
				Through: isCall("modelchecker.Processor.drainAndFlush"), GoalEnv: resultIs(fn, 1, "expandToYield")})
			w.must(r, step{Key: k + "/crash", Why: "a crash failure does not become the run's failed node", After: cs.(ssa.Instruction), NoEnter: opaque(fn),
				Cut:     anyCut(w.cutRel(e+"#2$", "==", "^nil$"), w.cutRel(`^phi\(|InitializeNode\(.*#1$|^modelchecker\.Node$`, "!=", "^nil$"), w.cutRel(`^Node$|^failedNode$`, "!=", "^nil$")),
				Through: isCall("modelchecker.Processor.drainAndFlush"), GoalEnv: resultIs(fn, 1, "expandToYield")})
			w.must(r, step{Key: "failure-stops/" + shortFn(fn), Why: "the search goes on after a failure although it is not configured to", After: cs.(ssa.Instruction), NoEnter: opaque(fn),
				Cut:  anyCut(notFailed, pruned, w.isTrue(`ContinueOnInvariantFailures$`)),
				Goal: anyOf(isCall("modelchecker.Processor.expandToYield", "modelchecker.Processor.drainAndFlush"), w.callTo(`lib\.(LinearCollection|Queue|Stack|RandomQueue)\.Remove$`))})
		}
	}
	r.Floor("drivers of expandToYield", n, 3)
	n = 0
	for fn, sites := range callers("modelchecker.Processor.drainAndFlush") {
		for _, cs := range sites {
			n++
			d := `^modelchecker\.Processor\.drainAndFlush\(.*\)`
			w.must(r, step{Key: "failure-kept/" + shortFn(fn) + "/drain", Why: "the failed node found while draining is lost", After: cs.(ssa.Instruction), NoEnter: opaque(fn),
				Through: isCall("modelchecker.Processor.drainAndFlush"), GoalEnv: resultIs(fn, 1, "drainAndFlush")})
			w.must(r, step{Key: "failure-stops/" + shortFn(fn) + "/drain", Why: "the search goes on after a failure although it is not configured to", After: cs.(ssa.Instruction), NoEnter: opaque(fn),
				Cut: w.isFalse(d + "#0$"), Goal: isCall("modelchecker.Processor.expandToYield", "modelchecker.Processor.drainAndFlush")})
		}
	}
	r.Floor("drivers of drainAndFlush", n, 2)
	// the failed node found earlier is never forgotten
	for _, name := range []string{"modelchecker.Processor.Start", "modelchecker.Processor.startProcessedQueue", "modelchecker.Processor.drainAndFlush"} {
		fn := w.Func(name)
		if fn == nil {
			r.Undecided("failure-not-forgotten/"+name, "-", "function not found")
			continue
		}
		instrs(fn, func(in ssa.Instruction) {
			rt, ok := in.(*ssa.Return)
			if !ok || len(rt.Results) < 2 {
				return
			}
			bad := ""
			for _, v := range phiLeaves(retVal(rt, 1)) {
				if isNilConst(v) {
					bad = "a found failure can be replaced by none"
				}
			}
			r.Check("failure-not-forgotten/"+shortFn(fn), w.ipos(in), bad == "", bad)
		})
	}
}

func isBool0(fn *ssa.Function) bool {
	res := fn.Signature.Results()
	return res.Len() > 0 && isBoolType(res.At(0).Type())
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}
