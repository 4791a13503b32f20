package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("S05", ruleS05)
	register("S06", ruleS06)
}

func retOf(fn *ssa.Function) func(ssa.Instruction) bool { return isReturnOf(fn) }

func callAt(cs ssa.CallInstruction) ssa.Instruction { return cs.(ssa.Instruction) }

// callArgsOf lists the calls to the named functions in fn, its closures and private helpers.
func (w *World) callsIn(fn *ssa.Function, names ...string) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	if fn == nil {
		return nil
	}
	for _, f := range w.withHelpers(fn) {
		out = append(out, calls(f, names...)...)
	}
	return out
}

// sumParts flattens a string concatenation, looking into helpers that only build it.
func (w *World) sumParts(v ssa.Value) []ssa.Value {
	if b, ok := v.(*ssa.BinOp); ok && b.Op.String() == "+" {
		return append(w.sumParts(b.X), w.sumParts(b.Y)...)
	}
	if c, ok := v.(*ssa.ChangeType); ok {
		return w.sumParts(c.X)
	}
	if c, ok := v.(*ssa.Call); ok {
		if f := c.Call.StaticCallee(); f != nil && w.owns(f) && len(f.Blocks) == 1 {
			if rt, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return); ok && len(rt.Results) == 1 {
				var out []ssa.Value
				for _, p := range w.sumParts(retVal(rt, 0)) {
					for i, q := range f.Params {
						if p == ssa.Value(q) {
							p = callArgs(c)[i]
						}
					}
					out = append(out, p)
				}
				if len(out) > 1 {
					return out
				}
			}
		}
	}
	return []ssa.Value{v}
}

// origins: where a value comes from, looking into phis and into functions of the module that are not constructors.
func (w *World) origins(v ssa.Value) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	var rec func(ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				rec(e)
			}
			return
		case *ssa.Parameter:
			if cs := w.callers[x.Parent()]; len(cs) == 1 {
				for i, p := range x.Parent().Params {
					if p == x && i < len(callArgs(cs[0])) {
						rec(callArgs(cs[0])[i])
						return
					}
				}
			}
		case *ssa.Call, *ssa.Extract:
			ix := 0
			if ex, ok := v.(*ssa.Extract); ok {
				v, ix = ex.Tuple, ex.Index
			}
			c, ok := v.(*ssa.Call)
			if !ok {
				v = x
				break
			}
			f := c.Call.StaticCallee()
			if f != nil && w.owns(f) && len(f.Blocks) > 0 && !freshByName(calleeName(c)) {
				n := len(out)
				instrs(f, func(in ssa.Instruction) {
					if rt, ok := in.(*ssa.Return); ok && len(rt.Results) > ix {
						rec(retVal(rt, ix))
					}
				})
				if len(out) > n {
					return
				}
			}
			v = x
		}
		out = append(out, v)
	}
	rec(v)
	return out
}

func ruleS05(c *Ctx, r *Rep) {
	w := c.World
	r.Rule("transition assertions and refinement are evaluated on every step of an action before its target state can be dropped as known (path query)")
	r.Rule("their result is recorded and ends the path as a failure; the evaluation visits every transition assertion with the states before and after the step")
	r.Rule("composition evaluates the composed assertions for every matched combination of steps that changes anything, and the table of steps pairs every yield state with its successors")

	// processNode
	pn := w.Func("modelchecker.Processor.processNode")
	if pn == nil {
		r.Undecided("processNode", "-", "function not found")
	} else {
		shallow := w.cutRel(`\.actionDepth$`, "<=", "^0$")
		shallow2 := w.cutRel(`\.actionDepth$`, "==", "^0$")
		execs := w.callsIn(pn, "modelchecker.Thread.Execute")
		r.Floor("executions in processNode", len(execs), 1)
		noRef := anyCut(w.isEmpty(`.*\.Refinements`), w.cutRel(`\.Refinements$`, "==", "^nil$"))
		for _, cs := range execs {
			goal := isCall("modelchecker.Processor.findVisitedSymmetric", "modelchecker.Processor.publishYieldPoint")
			w.must(r, step{Key: "transition-checked/processNode", Why: "a step is accepted or dropped as known without evaluating its transition assertions", Fn: pn, NoEnter: w.onlyHelpers(pn),
				Cut: anyCut(shallow, shallow2), Through: w.callTo(`modelchecker\.CheckTransitionInvariants`, `^Node\.Process$`), Goal: goal})
			w.must(r, step{Key: "refinement-checked/processNode", Why: "a step is accepted or dropped as known without checking that the refined specification allows it", Fn: pn, NoEnter: w.onlyHelpers(pn),
				Cut: anyCut(shallow, shallow2, noRef), Through: w.callTo(`modelchecker\.CheckRefinement`, `^Node\.Process$`, `\.Refinements\[0\]$`, `\.hashes$`), Goal: goal})
			w.must(r, step{Key: "executed-first/processNode", Why: "the transition assertions are evaluated before the step is executed", Fn: pn, NoEnter: w.onlyHelpers(pn),
				Through: func(in ssa.Instruction) bool { return in == callAt(cs) }, Goal: isCall("modelchecker.CheckTransitionInvariants", "modelchecker.CheckRefinement")})
		}
		cont := w.isTrue(`ContinuePathOnInvariantFailures$`)
		for _, cs := range w.callsIn(pn, "modelchecker.CheckTransitionInvariants") {
			ti := `.*CheckTransitionInvariants\(.*\)(\[0\])?`
			stored := func(in ssa.Instruction) bool {
				st, ok := in.(*ssa.Store)
				if !ok {
					return false
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				return ok && fieldName(fa.X.Type(), fa.Field) == "FailedInvariants" && strings.Contains(w.render(st.Val), "CheckTransitionInvariants(")
			}
			w.must(r, step{Key: "transition-failure-recorded/processNode", Why: "a failed transition assertion is not recorded on the step", After: callAt(cs), NoEnter: w.onlyHelpers(pn),
				Cut: w.isEmpty(ti), Through: stored, Goal: retOf(pn)})
			n := 0
			for _, st := range w.storesIn(pn, "FailedInvariants") {
				if !stored(st) {
					continue
				}
				n++
				w.must(r, step{Key: "transition-failure-ends/processNode", Why: "exploration goes on after a failed transition assertion", After: st, NoEnter: w.onlyHelpers(pn), Cut: cont,
					Goal: isCall("modelchecker.Processor.findVisitedSymmetric", "modelchecker.Processor.publishYieldPoint"), GoalEnv: mayReturn(pn, 0, false)})
				w.must(r, step{Key: "transition-failure-kept/processNode", Why: "the failing step is not part of the graph", After: st, NoEnter: w.onlyHelpers(pn),
					Cut: cont, Through: isCall("modelchecker.Node.Attach"), Goal: retOf(pn)})
				w.must(r, step{Key: "transition-failure-drops-pending/processNode", Why: "pending branches run on after the failure and hide it", After: st, NoEnter: w.onlyHelpers(pn), Cut: cont,
					Through: w.callTo(`lib\..*\.ClearAll$`, `intermediateStates`), Goal: retOf(pn)})
				owner := w.render(st.Addr.(*ssa.FieldAddr).X)
				ok := re(`^Node\.Inbound\[0\]$`).MatchString(owner)
				r.Check("transition-failure-place/processNode", w.ipos(st), ok, ifBad(!ok, "the failure is recorded on "+owner))
			}
			r.Floor("recorded transition failures", n, 1)
		}
		for _, cs := range w.callsIn(pn, "modelchecker.CheckRefinement") {
			pass := w.isTrue(`^modelchecker\.CheckRefinement\(`)
			w.must(r, step{Key: "refinement-failure-ends/processNode", Why: "exploration goes on after a step the refined specification does not allow", After: callAt(cs), NoEnter: w.onlyHelpers(pn), Cut: pass,
				Goal: isCall("modelchecker.Processor.findVisitedSymmetric", "modelchecker.Processor.publishYieldPoint"), GoalEnv: mayReturn(pn, 0, false)})
			w.must(r, step{Key: "refinement-failure-kept/processNode", Why: "the step is not part of the graph", After: callAt(cs), NoEnter: w.onlyHelpers(pn), Cut: pass,
				Through: isCall("modelchecker.Node.Attach"), Goal: retOf(pn)})
			w.must(r, step{Key: "refinement-failure-drops-pending/processNode", Why: "pending branches run on after the failure and hide it", After: callAt(cs), NoEnter: w.onlyHelpers(pn), Cut: pass,
				Through: w.callTo(`lib\..*\.ClearAll$`, `intermediateStates`), Goal: retOf(pn)})
		}
	}

	same := w.cutRel(`\.Heap\.CachedHashCode$`, "==", `\.Heap\.CachedHashCode$`)
	noParent := w.cutRel(`^Process\.Parent$`, "==", "^nil$")
	hashed := anyCut(w.cutRel(`^Process(\.Parent)?\.Heap\.CachedHashCode$`, "!=", `^""$`), w.cutRel(`^len\(Process(\.Parent)?\.Heap\.CachedHashCode\)$`, ">", "^0$"))

	// CheckTransitionInvariants
	if fn := w.Func("modelchecker.CheckTransitionInvariants"); fn != nil {
		isFilesLoop := func(in ssa.Instruction) bool {
			for _, f := range w.withHelpers(fn) {
				for _, l := range w.loopsOf(f) {
					if l.Over != nil && re(`\.Files$`).MatchString(w.render(l.Over)) && in == firstNonPhi(l.Head) {
						return true
					}
				}
			}
			return false
		}
		for i, cut := range []func(Edge) bool{same, hashed} {
			w.must(r, step{Key: "transition-evaluated/" + []string{"same", "known"}[i], Why: "the assertions are skipped although the step may have changed the state", Fn: fn, NoEnter: w.onlyHelpers(fn),
				Cut: anyCut(noParent, cut), Through: isFilesLoop, Goal: retOf(fn)})
		}
		eval := isCall("modelchecker.CheckTransitionAssertion")
		w.everyElement(r, "every-transition-assertion", fn, `\.Invariants$`, eval, anyCut(w.cutRel(`\.Block$`, "==", "^nil$"), w.isFalse(`^slices\.Contains\(.*TemporalOperators,"transition"\)$`)), nil)
		w.everyElement(r, "every-file", fn, `\.Files$`, func(in ssa.Instruction) bool { return true }, nil, nil)
		for _, cs := range w.callsIn(fn, "modelchecker.CheckTransitionAssertion") {
			f := cs.Parent()
			pass, fail := w.isTrue(`^modelchecker\.CheckTransitionAssertion\(`), w.isFalse(`^modelchecker\.CheckTransitionAssertion\(`)
			isEnd := func(in ssa.Instruction) bool {
				if _, ok := in.(*ssa.Return); ok {
					return true
				}
				for _, g := range w.withHelpers(fn) {
					for _, l := range w.loopsOf(g) {
						if l.Over != nil && re(`\.Invariants$`).MatchString(w.render(l.Over)) && in == firstNonPhi(l.Head) {
							return true
						}
					}
				}
				return false
			}
			a := callArgs(cs)
			ix := elemIndex(a[1])
			isApp := func(in ssa.Instruction) bool {
				cc, ok := in.(*ssa.Call)
				if !ok || calleeName(cc) != "builtin.append" || !isIntSlice(cc.Type()) {
					return false
				}
				for _, e := range appendedElems(cc) {
					if ix == nil || e == ix || !sameFn(e, ix) {
						return true
					}
				}
				return false
			}
			all := func(*ssa.Function) bool { return true }
			w.must(r, step{Key: "transition-failing-recorded", Why: "a transition assertion that fails is not among the failures (under its own position)", After: callAt(cs), NoEnter: all, Cut: pass, Through: isApp, Goal: isEnd})
			w.must(r, step{Key: "transition-passing-not-failed", Why: "a transition assertion that holds is reported as a failure", After: callAt(cs), NoEnter: all, Cut: fail, Through: isEnd,
				Goal: func(in ssa.Instruction) bool {
					cc, ok := in.(*ssa.Call)
					return ok && calleeName(cc) == "builtin.append" && isIntSlice(cc.Type()) && in.Parent() == f
				}})
			if ix != nil {
				r.Check("transition-index", w.ipos(callAt(cs)), a[2] == ix || !sameFn(a[2], ix), ifBad(a[2] != ix, "the assertion is evaluated with the position of another one"))
			}
		}
	} else {
		r.Undecided("transition-evaluated", "-", "CheckTransitionInvariants not found")
	}

	// CheckTransitionAssertion
	if fn := w.Func("modelchecker.CheckTransitionAssertion"); fn != nil {
		w.must(r, step{Key: "transition-value/CheckTransitionAssertion", Why: "the assertion counts as holding without being evaluated", Fn: fn, NoEnter: w.onlyHelpers(fn), Cut: noParent,
			GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
				rt, ok := in.(*ssa.Return)
				return ok && rt.Parent() == fn && !re(`^modelchecker\.execAssertionFunction\(|^starlark\.Value\.Truth\(`).MatchString(w.render(res(retVal(rt, 0))))
			}})
		n := map[string]int{}
		for _, f := range w.withHelpers(fn) {
			instrs(f, func(in ssa.Instruction) {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok {
					return
				}
				key, val := w.plainSlice(mu.Key), w.render(mu.Value)
				kind := ""
				for _, k := range []string{`"before"`, `"after"`} {
					for cst := range key.Consts {
						if strings.HasPrefix(cst, k) {
							kind += strings.Trim(k, `"`)
						}
					}
				}
				if kind != "before" && kind != "after" {
					return
				}
				n[kind]++
				parent := re(`Process\.Parent[.),]`).MatchString(val)
				copied := re(`(Clone|CloneForAssert|CloneDict|CloneWithRefs)\(`).MatchString(val)
				good := copied && parent == (kind == "before")
				r.Check("transition-state/"+kind, w.ipos(in), good, ifBad(!good, `"`+kind+`" is bound to `+val))
				idx := map[string]string{"before": "Params[0]", "after": "Params[1]"}[kind]
				ks := w.render(mu.Key)
				other := map[string]string{"before": "Params[1]", "after": "Params[0]"}[kind]
				r.Check("transition-param/"+kind, w.ipos(in), strings.Contains(ks, idx) || !strings.Contains(ks, other), ifBad(strings.Contains(ks, other), `"`+kind+`" uses the name of the other parameter: `+ks))
			})
		}
		r.Check("transition-state/bound", w.Pos(fn.Pos()), n["before"] > 0 && n["after"] > 0, ifBad(n["before"] == 0 || n["after"] == 0, "the states before and after the step are not both bound"))
	} else {
		r.Undecided("transition-value", "-", "CheckTransitionAssertion not found")
	}

	// refinement: the key of a step
	type keySite struct {
		fn       *ssa.Function
		from, to string
	}
	var sep []string
	if fn := w.Func("modelchecker.CheckRefinement"); fn != nil {
		inTable := w.cutRel(`hashes\[.*\]#1$`, "==", "^true$")
		for i, cut := range []func(Edge) bool{same, hashed} {
			w.must(r, step{Key: "refinement-looked-up/" + []string{"same", "known"}[i], Why: "a step counts as allowed without being in the table of the refined specification's steps", Fn: fn, NoEnter: w.onlyHelpers(fn),
				Cut: anyCut(noParent, inTable, cut), GoalEnv: mayReturn(fn, 0, true)})
		}
		w.must(r, step{Key: "refinement-no-false-failure", Why: "a step that is in the table counts as not allowed", Fn: fn, NoEnter: w.onlyHelpers(fn),
			Cut: w.cutRel(`hashes\[.*\]#1$`, "==", "^false$"), GoalEnv: mayReturn(fn, 0, false)})
		for _, f := range w.withHelpers(fn) {
			instrs(f, func(in ssa.Instruction) {
				lk, ok := in.(*ssa.Lookup)
				if !ok || !re(`hashes$|JoinHashes$`).MatchString(w.render(lk.X)) {
					return
				}
				ps := w.sumParts(lk.Index)
				good := len(ps) == 3
				if good {
					a, b := w.render(ps[0]), w.render(ps[2])
					good = strings.Contains(a, "Process.Parent,") && !strings.Contains(b, "Process.Parent,") && re(`Clone\w*\(Process,`).MatchString(b) && strings.Contains(a, "Clone")
					sep = append(sep, w.render(ps[1]))
				}
				r.Check("refinement-key/CheckRefinement", w.ipos(in), good, ifBad(!good, "the step is looked up under "+w.render(lk.Index)))
			})
		}
	} else {
		r.Undecided("refinement-looked-up", "-", "CheckRefinement not found")
	}
	if fn := w.Func("main.addToJoinHashes"); fn != nil {
		isParam := func(v ssa.Value, i int) bool { // value derived from the i-th node parameter only
			s := w.sliceWith(v, sliceOpt{shallow: true})
			var nodes []*ssa.Parameter
			for _, p := range fn.Params {
				if namedName(p.Type()) == "Node" {
					nodes = append(nodes, p)
				}
			}
			return len(nodes) == 2 && s.Params[nodes[i]] && !s.Params[nodes[1-i]]
		}
		n := 0
		instrs(fn, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if re(`JoinHashes$`).MatchString(w.render(x.Map)) {
					n++
					ps := w.sumParts(x.Key)
					good := len(ps) == 3 && isParam(ps[0], 0) && isParam(ps[2], 1)
					if good {
						sep = append(sep, w.render(ps[1]))
					}
					r.Check("refinement-key/addToJoinHashes", w.ipos(in), good, ifBad(!good, "the step is filed under "+w.render(x.Key)))
				}
			case *ssa.Call:
				if calleeName(x) == "lib.NewPair" {
					a := callArgs(x)
					good := isParam(a[0], 0) && isParam(a[1], 1)
					r.Check("step-pair/addToJoinHashes", w.ipos(in), good, ifBad(!good, "the step is filed as another one"))
				}
			}
		})
		r.Floor("filed steps", n, 1)
		for _, s := range sep {
			r.Check("refinement-key/separator", w.Pos(fn.Pos()), s == sep[0] && s != `""`, ifBad(s != sep[0] || s == `""`, "steps are filed and looked up under different keys"))
		}
		set := func(in ssa.Instruction) bool {
			mu, ok := in.(*ssa.MapUpdate)
			return ok && strings.Contains(w.render(mu.Key), "NewPair(")
		}
		w.must(r, step{Key: "step-filed/addToJoinHashes", Why: "a step is not filed", Fn: fn, NoEnter: w.onlyHelpers(fn), Through: set, Goal: retOf(fn)})
	} else {
		r.Undecided("refinement-key", "-", "addToJoinHashes not found")
	}
	w.stepTable(r)
	w.composition(r)
}

// selfCall: a call of the closure itself or a helper closure with these parameters (dynamic call through a variable).
func (w *World) selfCall(fn *ssa.Function) func(ssa.Instruction) bool {
	return func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok || in.Parent() == nil {
			return false
		}
		for _, t := range w.callees(c) {
			if t == fn {
				return true
			}
		}
		return false
	}
}

// stepTable: populateJoinHashes files every step between yield states.
func (w *World) stepTable(r *Rep) {
	top := w.Func("main.populateJoinHashes")
	if top == nil {
		r.Undecided("step-table", "-", "populateJoinHashes not found")
		return
	}
	var fn *ssa.Function
	for _, f := range w.withHelpers(top) {
		if len(calls(f, "main.addToJoinHashes")) > 0 {
			fn = f
		}
	}
	if fn == nil {
		r.Undecided("step-table", w.Pos(top.Pos()), "the traversal that files the steps was not found")
		return
	}
	var nodes []*ssa.Parameter
	for _, p := range fn.Params {
		if namedName(p.Type()) == "Node" {
			nodes = append(nodes, p)
		}
	}
	if len(nodes) != 2 {
		r.Undecided("step-table", w.Pos(fn.Pos()), "the traversal does not have a source and a current node")
		return
	}
	from, cur := nodes[0], nodes[1]
	add := func(a, b ssa.Value) func(ssa.Instruction) bool {
		return func(in ssa.Instruction) bool {
			c, ok := in.(ssa.CallInstruction)
			if !ok || calleeName(c) != "main.addToJoinHashes" {
				return false
			}
			x := callArgs(c)
			return x[2] == a && x[3] == b
		}
	}
	yieldOf := func(want string) func(Edge) bool {
		return w.cutRel(`^modelchecker\.(Node|Process)\.IsYieldNode\(|\.IsYield$`, "==", "^"+want+"$")
	}
	isFromNil := func(e Edge) bool {
		b, ok := e.Cond.(*ssa.BinOp)
		if !ok || !(b.X == from && isNilConst(b.Y) || b.Y == from && isNilConst(b.X)) {
			return false
		}
		return (b.Op.String() == "==") == e.Taken
	}
	visitedHit := w.cutRel(`^.*map\[.*\]bool\[.*\](#1)?$`, "==", "^true$")
	rec := w.selfCall(fn)
	no := func(g *ssa.Function) bool { return true }
	end := anyOf(retOf(fn), rec)
	w.must(r, step{Key: "step-table/step", Why: "a step into a yield state is not filed", Fn: fn, NoEnter: no, Cut: anyCut(isFromNil, yieldOf("false")), Through: add(from, cur), Goal: end})
	w.must(r, step{Key: "step-table/stutter", Why: "the stuttering step of a yield state is not filed", Fn: fn, NoEnter: no, Cut: anyCut(visitedHit, yieldOf("false")), Through: add(cur, cur), Goal: end})
	w.everyElement(r, "step-table/children", fn, `\.Outbound$`, rec, w.cutRel(`\.Node$`, "==", "^nil$"), nil)
	argIs := func(v ssa.Value) func(ssa.Instruction, func(ssa.Value) ssa.Value) bool {
		return func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
			return rec(in) && res(callArgs(in.(ssa.CallInstruction))[len(callArgs(in.(ssa.CallInstruction)))-2]) == v
		}
	}
	w.must(r, step{Key: "step-table/source-of-yield", Why: "the steps that leave a yield state are filed as steps of an earlier one", Fn: fn, NoEnter: no, Cut: yieldOf("false"), GoalEnv: argIs(from)})
	w.must(r, step{Key: "step-table/source-of-intermediate", Why: "the step through an intermediate state is filed as starting there", Fn: fn, NoEnter: no, Cut: yieldOf("true"), GoalEnv: argIs(cur)})
	// an intermediate node is traversed once per source
	keyed, cleared := false, false
	instrs(fn, func(in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		if st.Val == ssa.Value(from) {
			if _, ok := st.Addr.(*ssa.FieldAddr); ok {
				keyed = true
			}
		}
		if fa, ok := st.Addr.(*ssa.FieldAddr); ok && isNilConst(st.Val) && namedName(st.Val.Type()) == "Node" && namedName(fa.X.Type()) != "Node" {
			cleared = true
			w.must(r, step{Key: "step-table/visited-by-source", Why: "an intermediate state is traversed for one source only", Fn: fn, NoEnter: no, Cut: yieldOf("true"),
				Goal: func(x ssa.Instruction) bool { return x == in }})
		}
	})
	_ = cleared
	r.Check("step-table/visited-key", w.Pos(fn.Pos()), keyed, ifBad(!keyed, "the table of traversed nodes does not distinguish the yield state a path comes from"))
	for _, cs := range w.callSites("main.populateJoinHashes") {
		f := cs.Parent()
		runs := calls(f, "main.modelCheckSingleSpec")
		w.everyElement(r, "step-table/every-spec/"+shortFn(f), f, `(GetSpecs\(.*\)|\.Specs)$`, isCall("main.populateJoinHashes"), w.cutRel(`\.Name$`, "==", `^"_"$`),
			anyCut(w.cutRel(`.*`, "==", "^nil$"), func(e Edge) bool { return errNonNil(w, e) }, w.cutRel(`ParseFunctionRef\(.*\)#0$|\.Name$`, "!=", `.*`), w.cutRel(`.*`, "!=", `ParseFunctionRef\(.*\)#0$|\.Name$`)))
		for _, m := range runs {
			w.must(r, step{Key: "step-table/failed-spec-stops/" + shortFn(f), Why: "the result of a specification that failed is used", After: callAt(m), NoEnter: w.onlyHelpers(f),
				Cut:  w.cutRel(`modelCheckSingleSpec\(.*\)$`, "!=", "^nil$"),
				Goal: isCall("main.populateJoinHashes", "main.ComposeTransitions")})
		}
		if fname(f) == "main.runRefinementModelChecking" {
			good := false
			for _, m := range runs {
				a := callArgs(m)
				good = good || !isNilConst(a[len(a)-1])
			}
			r.Check("step-table/used/"+shortFn(f), w.Pos(f.Pos()), good, ifBad(!good, "the implementation is checked without the table of the refined specification's steps"))
		} else {
			w.must(r, step{Key: "step-table/used/" + shortFn(f), Why: "the steps are never composed", After: callAt(cs), NoEnter: w.onlyHelpers(f), LoopAll: true,
				Cut:     anyCut(w.cutRel(`.*`, "==", "^nil$"), func(e Edge) bool { return errNonNil(w, e) }, w.cutRel(`ParseFunctionRef\(.*\)#0$|\.Name$`, "!=", `.*`)),
				Through: isCall("main.ComposeTransitions"), Goal: retOf(f)})
		}
	}
	// the table reaches the search
	if mc := w.Func("main.modelCheckSingleSpec"); mc != nil {
		p := mc.Params[len(mc.Params)-1]
		n := 0
		for _, cs := range w.callsIn(mc, "modelchecker.NewProcessor") {
			n++
			a := callArgs(cs)
			ok := false
			for _, x := range a {
				ok = ok || x == ssa.Value(p) || w.sliceWith(x, sliceOpt{shallow: true, up: true}).Params[p]
			}
			r.Check("step-table/passed", w.ipos(callAt(cs)), ok, ifBad(!ok, "the search does not get the table of the refined specification's steps"))
		}
		r.Floor("processors created", n, 1)
	}
	n := 0
	for _, f := range w.Funcs {
		for _, s := range w.storesIn(f, "hashes") {
			fa := s.Addr.(*ssa.FieldAddr)
			if namedName(fa.X.Type()) != "Processor" {
				continue
			}
			n++
			_, isP := s.Val.(*ssa.Parameter)
			r.Check("step-table/stored", w.ipos(s), isP, ifBad(!isP, "the table that the processor stores is "+w.render(s.Val)))
			if isP { // every wrapper hands it on
				w.handedOn(r, "step-table/handed-on", s.Val.(*ssa.Parameter))
			}
		}
	}
	r.Floor("tables stored in a processor", n, 1)
}

func (w *World) composition(r *Rep) {
	ct := w.Func("main.ComposeTransitions")
	if ct == nil {
		r.Undecided("composition", "-", "ComposeTransitions not found")
		return
	}
	var h *ssa.Function
	for _, f := range w.withHelpers(ct) {
		if pkgOf(f) != "modelchecker" && len(calls(f, "modelchecker.CheckInvariants", "modelchecker.CheckInvariantsWithProber")) > 0 {
			h = f
		}
	}
	if h == nil {
		r.Check("composition/checked", w.Pos(ct.Pos()), false, "the composed states are not checked against the assertions")
		return
	}
	// the closure that decides about one combination
	outer := h
	for outer.Parent() == nil && outer != ct && len(w.callers[outer]) == 1 {
		outer = w.callers[outer][0].Parent()
	}
	st := w.isTrue(`isStuttering\(`)
	sameHash := w.cutRel(`HashCode\(`, "==", `HashCode\(`)
	n := 0
	for _, f := range w.withHelpers(outer) {
		instrs(f, func(in ssa.Instruction) {
			cl, ok := in.(*ssa.Call)
			if !ok || calleeName(cl) != "main.isStuttering" {
				return
			}
			n++
			w.must(r, step{Key: "composition/changed-combination-checked", Why: "a combination with a step that changes something is accepted without checking the composed assertions", After: cl, NoEnter: w.onlyHelpers(outer),
				Cut: anyCut(st, sameHash), Through: isInvCheck, Goal: retOf(outer)})
		})
	}
	if n == 0 {
		for _, f := range w.withHelpers(outer) {
			instrs(f, func(in ssa.Instruction) {
				if cl, ok := in.(*ssa.Call); ok && calleeName(cl) == "modelchecker.Process.HashCode" {
					n++
				}
			})
		}
		w.must(r, step{Key: "composition/changed-combination-checked", Why: "a combination with a step that changes something is accepted without checking the composed assertions", Fn: outer, NoEnter: w.onlyHelpers(outer),
			Cut: anyCut(st, sameHash), Through: isInvCheck, Goal: retOf(outer), LoopAll: true})
	}
	if sf := w.Func("main.isStuttering"); sf != nil {
		w.must(r, step{Key: "stuttering/heap", Why: "a step that changes a variable counts as stuttering", Fn: sf, NoEnter: w.onlyHelpers(sf), Cut: sameHash, GoalEnv: mayReturn(sf, 0, true)})
		w.everyElement(r, "stuttering/roles", sf, `\.Roles$`, isCall("bytes.Equal", "bytes.Compare", "lib.Role.MarshalJSON"), nil, func(e Edge) bool {
			return matchRel(w.rels(e.Cond, e.Taken), `^bytes\.Equal\(`, "==", "^false$") || matchRel(w.rels(e.Cond, e.Taken), `MarshalJSON\(`, "!=", `MarshalJSON\(`)
		})
		w.must(r, step{Key: "stuttering/role-change", Why: "a step that changes a role counts as stuttering", Fn: sf, NoEnter: w.onlyHelpers(sf),
			Through: w.callTo(`lib\.Role\.MarshalJSON`), LoopAll: true, GoalEnv: mayReturn(sf, 0, true)})
		for _, cs := range calls(sf, "bytes.Equal") {
			w.must(r, step{Key: "stuttering/role-change-seen", Why: "a step that changes a role counts as stuttering", After: callAt(cs), NoEnter: w.onlyHelpers(sf), Cut: w.isTrue(`^bytes\.Equal\(`), GoalEnv: mayReturn(sf, 0, true)})
		}
	}
	hasTrans := func(e Edge) bool {
		return matchRel(w.rels(e.Cond, e.Taken), `\*bool|hasTransition|^slices\.ContainsFunc\(`, "==", "^false$")
	}
	inv := `.*CheckInvariants(WithProber)?\(.*\)(\[0\])?`
	tr := `.*CheckTransitionInvariants\(.*\)(\[0\])?`
	for _, cs := range calls(h, "modelchecker.CheckInvariants", "modelchecker.CheckInvariantsWithProber") {
		w.must(r, step{Key: "composition/failure-returned", Why: "a composed state that violates an assertion is accepted", After: callAt(cs), NoEnter: w.onlyHelpers(outer), Cut: w.isEmpty(inv), GoalEnv: returnsNil(outer, 0)})
		w.must(r, step{Key: "composition/no-false-failure", Why: "a composed state that violates nothing is reported", After: callAt(cs), NoEnter: w.onlyHelpers(outer), Cut: anyCut(w.nonEmpty(inv), w.nonEmpty(tr)),
			GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
				rt, ok := in.(*ssa.Return)
				return ok && rt.Parent() == outer && !isNilConst(res(retVal(rt, 0)))
			}})
		w.must(r, step{Key: "composition/transition-checked", Why: "the composed transition assertions are not evaluated", After: callAt(cs), NoEnter: w.onlyHelpers(outer), Cut: anyCut(hasTrans, w.nonEmpty(inv)),
			Through: isCall("modelchecker.CheckTransitionInvariants"), Goal: retOf(outer)})
		proc := callArgs(cs)[0]
		w.composedHeap(r, h, "to", proc, "Second", "First")
	}
	for _, cs := range w.callsIn(outer, "modelchecker.CheckTransitionInvariants") {
		w.must(r, step{Key: "composition/transition-failure-returned", Why: "a composed step that violates a transition assertion is accepted", After: callAt(cs), NoEnter: w.onlyHelpers(outer), Cut: w.isEmpty(tr), GoalEnv: returnsNil(outer, 1)})
		w.must(r, step{Key: "composition/transition-source", Why: "the composed transition assertions do not see the state before the step", Fn: outer, NoEnter: w.onlyHelpers(outer),
			Through: w.storeTo("Process", "Parent", ""), Goal: func(in ssa.Instruction) bool { return in == callAt(cs) }})
		for _, s := range w.storesIn(outer, "Parent") {
			w.composedHeap(r, s.Parent(), "from", s.Val, "First", "Second")
		}
	}
	// any transition assertion switches the evaluation on
	isTransition := isCall("slices.Contains")
	anyFn := 0
	for _, cs := range w.callsIn(ct, "slices.ContainsFunc") { // the same loop in the library
		if !re(`\.Invariants$`).MatchString(w.render(callArgs(cs)[0])) {
			continue
		}
		anyFn++
		var pred *ssa.Function
		switch x := callArgs(cs)[1].(type) {
		case *ssa.Function:
			pred = x
		case *ssa.MakeClosure:
			pred, _ = x.Fn.(*ssa.Function)
		}
		if pred == nil {
			r.Undecided("composition/has-transition", w.ipos(callAt(cs)), "the predicate is not known")
			continue
		}
		w.must(r, step{Key: "composition/has-transition/predicate", Why: "a transition assertion does not switch the evaluation on", Fn: pred, NoEnter: func(*ssa.Function) bool { return true },
			Cut: anyCut(w.cutRel(`\.Block$`, "==", "^nil$"), w.isFalse(`^slices\.Contains\(.*"transition"\)$`)), GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
				rt, ok := in.(*ssa.Return)
				if !ok || rt.Parent() != pred {
					return false
				}
				v := res(retVal(rt, 0))
				b, k := constBool(v)
				return !(k && b) && !re(`^slices\.Contains\(.*"transition"\)$`).MatchString(w.render(v))
			}})
	}
	if anyFn == 0 {
		w.everyElement(r, "composition/has-transition", ct, `\.Invariants$`, isTransition, w.cutRel(`\.Block$`, "==", "^nil$"), w.isTrue(`^slices\.Contains\(.*"transition"\)$`))
		for _, f := range w.withHelpers(ct) {
			for _, cs := range calls(f, "slices.Contains") {
				if !strings.Contains(w.render(callArgs(cs)[1]), "transition") {
					continue
				}
				w.must(r, step{Key: "composition/has-transition/noted", Why: "a transition assertion does not switch the evaluation on", After: callAt(cs), NoEnter: func(*ssa.Function) bool { return true },
					Cut: w.isFalse(`^slices\.Contains\(.*"transition"\)$`), Through: func(in ssa.Instruction) bool {
						switch x := in.(type) {
						case *ssa.Store:
							b, k := constBool(x.Val)
							return k && b
						case *ssa.Return:
							b, k := constBool(retVal(x, 0))
							return k && b
						}
						return false
					}, Goal: anyOf(isCall("main.cartesianProduct"), retOf(f))})
			}
		}
	}

	prod := `cartesianProduct\(.*\)`
	for _, cs := range w.callsIn(ct, "main.cartesianProduct") {
		for i := 0; i < 2; i++ {
			s := []string{"#0$", "#1$"}[i]
			w.must(r, step{Key: "composition/failure-reported/" + []string{"state", "step"}[i], Why: "a failed combination does not fail the composition", After: callAt(cs), NoEnter: w.onlyHelpers(ct),
				Cut: w.cutRel(prod+s, "==", "^nil$"), Goal: isCall("main.cartesianProduct"), GoalEnv: returnsNil(ct, 0)})
		}
	}
	w.everyElement(r, "composition/every-key", ct, `JoinHashes$`, isCall("main.cartesianProduct"), nil,
		anyCut(w.cutRel(prod+`#[01]$`, "!=", "^nil$"), w.cutRel(`^len\(.*\)$`, "<", "^2$")))
	cp := w.Func("main.cartesianProduct")
	if cp == nil {
		r.Undecided("composition/product", "-", "cartesianProduct not found")
		return
	}
	var rec *ssa.Function
	for _, f := range w.withHelpers(cp) {
		self := w.selfCall(f)
		instrs(f, func(in ssa.Instruction) {
			if self(in) {
				rec = f
			}
		})
	}
	if rec == nil {
		return // another way to enumerate: nothing to add
	}
	self := w.selfCall(rec)
	w.everyElement(r, "composition/every-step", rec, `\[.*\]$|TransitionSet`, self, nil, w.cutRel(`.*`, "!=", "^nil$"))
	w.must(r, step{Key: "composition/complete-combination", Why: "a complete combination is not handed to the check", Fn: rec, NoEnter: func(*ssa.Function) bool { return true },
		Cut: anyCut(w.cutRel(`.*`, "!=", `^len\(.*\)$`), w.cutRel(`.*`, "<", `^len\(.*\)$`)),
		Through: func(in ssa.Instruction) bool {
			c, ok := in.(*ssa.Call)
			return ok && calleeName(c) == "dynamic" && !self(in)
		}, Goal: retOf(rec)})
	instrs(rec, func(in ssa.Instruction) {
		if !self(in) {
			return
		}
		a := callArgs(in.(ssa.CallInstruction))
		for _, x := range a {
			if b, ok := x.Type().Underlying().(interface{ Kind() int }); ok {
				_ = b
			}
		}
		d := w.render(a[0])
		r.Check("composition/next-spec", w.ipos(in), strings.Contains(d, "+ 1") || strings.Contains(d, "1 +"), ifBad(!strings.Contains(d, "+ 1"), "the recursion continues with "+d))
	})
}

// composedHeap: the heap of the composed process holds the states of the right side of the steps, each under its own name.
func (w *World) composedHeap(r *Rep, fn *ssa.Function, what string, proc ssa.Value, want, not string) {
	var heap *ssa.Store
	var args []ssa.Value
	find := func(f *ssa.Function, proc ssa.Value) {
		instrs(f, func(in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "Heap" && (fa.X == proc || w.render(fa.X) == w.render(proc) && sameOrigin(fa.X, proc)) {
					heap = st
				}
			}
		})
	}
	for _, f := range w.withHelpers(topOf(fn)) {
		find(f, proc)
	}
	if c, ok := proc.(*ssa.Call); ok && heap == nil && c.Call.StaticCallee() != nil {
		f := c.Call.StaticCallee()
		instrs(f, func(in ssa.Instruction) {
			if rt, ok := in.(*ssa.Return); ok && len(rt.Results) == 1 {
				find(f, retVal(rt, 0))
			}
		})
		if heap != nil {
			hs := w.sliceWith(heap.Val, sliceOpt{shallow: true})
			for i, p := range f.Params {
				if hs.Params[p] {
					args = append(args, callArgs(c)[i])
				}
			}
		}
	}
	if heap == nil {
		r.Check("composition/state/"+what, "-", false, "the composed process gets no state")
		return
	}
	s := w.slice(heap.Val)
	if args != nil {
		s = w.slice(args[0])
		for _, a := range args[1:] {
			for f := range w.slice(a).Fields {
				s.Fields[f] = true
			}
		}
	}
	good := s.Fields["Pair."+want] && !s.Fields["Pair."+not]
	if !s.Fields["Pair.First"] && !s.Fields["Pair.Second"] { // instantiated generic type names
		good = false
		for f := range s.Fields {
			if strings.HasSuffix(f, "."+want) {
				good = true
			}
		}
		for f := range s.Fields {
			if strings.HasSuffix(f, "."+not) {
				good = false
			}
		}
	}
	r.Check("composition/state/"+what, w.ipos(heap), good, ifBad(!good, "the composed state is built from "+s.list()))
}

func sameOrigin(a, b ssa.Value) bool { return a == b }

func topOf(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

func ruleS06(c *Ctx, r *Rep) {
	w := c.World
	r.Rule("every evaluation of an assertion or view function runs on a copy of the state (origin of the process argument)")
	r.Rule("the evaluation code writes to no storage but what it created itself and the witness table (effect analysis)")
	r.Rule("the look-ahead restores the global counters, leaves the search's tables alone, and follows every pending thread, message and action")

	copyRe := `^modelchecker\.Process\.(CloneForAssert|CloneWithRefs|Fork)\(`
	n := 0
	for _, name := range []string{"modelchecker.execFunctionBlock", "modelchecker.execAssertionFunction", "modelchecker.ExecFunction"} {
		for _, cs := range w.callSites(name) {
			a := callArgs(cs)[0]
			if p, ok := a.(*ssa.Parameter); ok {
				f := fname(p.Parent())
				if f == "modelchecker.execAssertionFunction" || f == "modelchecker.ExecFunction" || f == "modelchecker.execFunctionBlock" {
					continue
				}
			}
			n++
			good := true
			for _, v := range w.origins(a) {
				good = good && re(copyRe).MatchString(w.render(v))
			}
			r.Check("on-a-copy/"+shortFn(cs.Parent()), w.ipos(callAt(cs)), good, ifBad(!good, "the code runs on "+w.render(a)))
		}
	}
	r.Floor("evaluations on copies", n, 6)
	if fn := w.Func("modelchecker.CheckInvariant"); fn != nil {
		k := 0
		for _, f := range w.withHelpers(fn) {
			for _, cs := range calls(f, "modelchecker.Evaluator.EvalPyExprWithContext", "modelchecker.Evaluator.EvalPyExpr") {
				k++
				v, good := "", true
				for _, o := range w.origins(callArgs(cs)[3]) {
					v = w.render(o)
					good = good && re(`^modelchecker\.CloneDict\(|\.Clone\(`).MatchString(v)
				}
				r.Check("on-a-copy/CheckInvariant", w.ipos(callAt(cs)), good, ifBad(!good, "the expression is evaluated on "+v))
			}
		}
		r.Floor("expression assertions", k, 1)
	}
	// effects
	witness := func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		return ok && strings.Contains(w.render(st.Addr), ".Witness[")
	}
	nf := 0
	for _, name := range []string{"CheckInvariants", "CheckInvariantsWithProber", "CheckInvariant", "CheckAssertion", "CheckTransitionInvariants", "CheckTransitionAssertion", "CheckRefinement", "Processor.probeNextStates", "Processor.makeProber"} {
		fn := w.Func("modelchecker." + name)
		if fn == nil {
			r.Undecided("effects/"+name, "-", "function not found")
			continue
		}
		for _, f := range w.withHelpers(fn) {
			if f != fn && f.Parent() == nil && (f.Signature.Recv() != nil && !strings.HasPrefix(fname(f), "modelchecker.Processor.")) {
				continue // methods of the copied structures change the receiver they are given
			}
			if n := f.Name(); n == "execFunctionBlock" || n == "execAssertionFunction" || pkgOf(f) == "lib" && strings.HasPrefix(n, "Restore") {
				continue
			}
			nf++
			bad := w.foreignWrites(f, freshByName, witness)
			r.Check("effects/"+shortFn(f), w.Pos(f.Pos()), len(bad) == 0, strings.Join(bad, "; "))
		}
	}
	r.Floor("functions without foreign effects", nf, 9)
	w.boundValues(r)

	fn := w.Func("modelchecker.Processor.probeNextStates")
	if fn == nil {
		r.Undecided("look-ahead", "-", "probeNextStates not found")
		return
	}
	helpers := w.onlyHelpers(fn)
	work := isCall("modelchecker.Thread.Execute", "modelchecker.Process.Fork", "modelchecker.Node.ForkForAction", "modelchecker.Node.ForkForAlternatePaths", "modelchecker.Process.NewThread")
	w.must(r, step{Key: "look-ahead/counters-saved", Why: "the look-ahead allocates from the global counters before saving them", Fn: fn, NoEnter: helpers, Through: isCall("lib.SnapshotGlobalRefs"), Goal: work})
	w.must(r, step{Key: "look-ahead/counters-restored", Why: "the look-ahead leaves the global counters changed", Fn: fn, NoEnter: helpers, Through: w.callTo(`lib\.RestoreGlobalRefs`, `^lib\.SnapshotGlobalRefs\(`), Goal: retOf(fn)})
	// explicit (not deferred) restores come after the work
	for _, f := range w.withHelpers(fn) {
		for _, cs := range calls(f, "lib.RestoreGlobalRefs") {
			if _, ok := cs.(*ssa.Defer); ok {
				continue
			}
			if f.Parent() != nil {
				continue
			}
			w.must(r, step{Key: "look-ahead/restored-last", Why: "the look-ahead works on after the counters were restored", After: callAt(cs), NoEnter: helpers, Goal: work})
		}
	}
	if sn, rs := w.Func("lib.SnapshotGlobalRefs"), w.Func("lib.RestoreGlobalRefs"); sn != nil && rs != nil {
		globals := func(f *ssa.Function, write bool) map[string]bool {
			m := map[string]bool{}
			for g := range w.reachable(f) {
				instrs(g, func(in ssa.Instruction) {
					if st, ok := in.(*ssa.Store); ok && write {
						if gl, ok := st.Addr.(*ssa.Global); ok {
							m[gl.Name()] = true
						}
					}
					if u, ok := in.(*ssa.UnOp); ok && !write {
						if gl, ok := u.X.(*ssa.Global); ok {
							m[gl.Name()] = true
						}
					}
				})
			}
			return m
		}
		saved, restored := globals(sn, false), globals(rs, true)
		// every package variable that role and channel creation changes is saved and restored
		k := 0
		for _, f := range w.Funcs {
			if pkgOf(f) != "lib" || f.Name() == "init" || f == rs || strings.HasPrefix(f.Name(), "Clear") || strings.HasPrefix(f.Name(), "Reset") {
				continue
			}
			for in, a := range writes(f) {
				for _, ro := range w.roots(a, freshByName) {
					gl, ok := ro.(*ssa.Global)
					if !ok {
						continue
					}
					if !counterType(gl) {
						continue
					}
					k++
					g := saved[gl.Name()] && restored[gl.Name()]
					r.Check("look-ahead/counter/"+gl.Name(), w.ipos(in), g, ifBad(!g, "the counter "+gl.Name()+" is not saved and restored"))
				}
			}
		}
		r.Floor("global counters", k, 2)
		instrs(sn, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok && strings.HasPrefix(st.Val.Type().Underlying().String(), "map[") {
				good := true
				for _, ro := range w.roots(st.Val, func(n string) bool { return freshByName(n) || strings.HasSuffix(n, ".Clone") }) {
					if _, ok := ro.(*ssa.Global); ok {
						good = false
					}
				}
				r.Check("look-ahead/snapshot-is-a-copy/"+fieldName(fa.X.Type(), fa.Field), w.ipos(in), good, ifBad(!good, "the snapshot shares the table it is meant to preserve"))
			}
		})
		for _, f := range []*ssa.Function{sn} {
			w.everyElement(r, "look-ahead/snapshot-complete", f, `roleRefs`, func(in ssa.Instruction) bool { _, ok := in.(*ssa.MapUpdate); return ok }, nil, nil)
		}
	}
	// the search's own tables are not touched
	reach := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if reach[f] {
			return
		}
		reach[f] = true
		deepInstrs(f, func(in ssa.Instruction) {
			if cc, ok := in.(ssa.CallInstruction); ok {
				for _, t := range w.callees(cc) {
					if w.owns(t) && len(t.Blocks) > 0 && fname(t) != "modelchecker.Thread.Execute" {
						walk(t)
					}
				}
			}
		})
	}
	walk(fn)
	for f := range reach {
		instrs(f, func(in ssa.Instruction) {
			bad := ""
			switch x := in.(type) {
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && namedName(fa.X.Type()) == "Processor" {
					bad = "Processor." + fieldName(fa.X.Type(), fa.Field)
				}
			case *ssa.MapUpdate:
				if strings.HasPrefix(w.render(x.Map), "modelchecker.Processor.") || strings.HasPrefix(w.render(x.Map), "Processor.") {
					bad = w.render(x.Map)
				}
			case ssa.CallInstruction:
				if reMatch(`modelchecker\.(Node\.(Attach|Duplicate)|Processor\.(publishYieldPoint|crash\w+|enqueue\w+))|lib\.LinearCollection\.Add`, calleeName(x)) {
					bad = calleeName(x)
				}
			}
			if bad != "" {
				r.Check("look-ahead/search-untouched/"+shortFn(f), w.ipos(in), false, "the look-ahead changes the search: "+bad)
			}
		})
	}
	r.Check("look-ahead/search-untouched", w.Pos(fn.Pos()), len(reach) > 5, "")
	// completeness
	fork := isCall("modelchecker.Node.ForkForAlternatePaths", "modelchecker.Node.ForkForAction")
	started := func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		_, ok = st.Addr.(*ssa.IndexAddr)
		return ok && strings.HasSuffix(st.Val.Type().String(), "probeStart")
	}
	_ = fork
	w.everyElement(r, "look-ahead/threads", fn, `Process\.Threads$`, started, anyCut(w.cutRel(`Threads\[.*\]$`, "==", "^nil$"), w.cutRel(`currentPc\(`, "==", `^""$`), w.isEmpty(`.*currentPc\(.*\)`)), nil)
	w.everyElement(r, "look-ahead/messages", fn, `ChannelMessages\)#2$|ChannelMessages\[.*\]$`, started, nil, nil)
	isInit := w.cutRel(`Actions\[.*\]\.Name$`, "==", `^"Init"$`)
	w.everyElement(r, "look-ahead/actions", fn, `Files\[0\]\.Actions$`, started, isInit, nil)
	w.everyElement(r, "look-ahead/role-actions", fn, `Roles\[.*\]\.Actions$`, started, anyCut(isInit, w.cutRel(`\.obj$`, "==", "^nil$")), nil)
	w.everyElement(r, "look-ahead/roles", fn, `(^|\.)Process\.Roles$`, func(in ssa.Instruction) bool { // the loop over its actions is entered
		for _, f := range w.withHelpers(fn) {
			for _, l := range w.loopsOf(f) {
				if l.Over != nil && re(`Roles\[.*\]\.Actions$`).MatchString(w.render(l.Over)) && in == firstNonPhi(l.Head) {
					return true
				}
			}
		}
		return false
	}, anyCut(w.cutRel(`Roles\[.*\]$`, "==", "^nil$"), w.isFalse(`\[.*\]#1$`)), nil)
	nfork := 0
	for _, cs := range w.callsIn(fn, "modelchecker.Node.ForkForAlternatePaths") {
		nfork++
		for _, o := range w.origins(callArgs(cs)[1]) {
			v := w.render(o)
			good := re(`^modelchecker\.Process\.(Fork|Clone\w*)\(|Execute\(.*\)#0\[`).MatchString(v)
			r.Check("look-ahead/forked", w.ipos(callAt(cs)), good, ifBad(!good, "the look-ahead runs on "+v))
		}
	}
	r.Floor("look-ahead forks", nfork, 3)
	for _, cs := range w.callsIn(fn, "modelchecker.Thread.Execute") {
		pushed := func(in ssa.Instruction) bool {
			c, ok := in.(*ssa.Call)
			return ok && calleeName(c) == "builtin.append" && strings.HasSuffix(c.Type().String(), "Node")
		}
		recorded := func(in ssa.Instruction) bool {
			c, ok := in.(*ssa.Call)
			return ok && calleeName(c) == "builtin.append" && strings.HasSuffix(c.Type().String(), "NextTransition")
		}
		disabled := func(names ...string) func(Edge) bool {
			var cs []func(Edge) bool
			for _, n := range names {
				cs = append(cs, w.isTrue(`\.`+n+`$`))
			}
			return anyCut(cs...)
		}
		seen := w.isTrue(`^map\[string\]bool\[`)
		y := func(v string) func(Edge) bool { return w.cutRel(`Execute\(.*\)#1$`, "==", "^"+v+"$") }
		next := func(in ssa.Instruction) bool { return in == callAt(cs) }
		end := anyOf(retOf(fn), next)
		w.must(r, step{Key: "look-ahead/successor-recorded", Why: "a successor state is left out although the step was enabled", After: callAt(cs), NoEnter: helpers,
			Cut: anyCut(seen, y("false"), w.isFalse(`\.(Enabled|ThreadProgress)$`)), Through: recorded, Goal: end})
		w.must(r, step{Key: "look-ahead/disabled-left-out", Why: "a disabled step is offered as a successor", After: callAt(cs), NoEnter: helpers,
			Cut: anyCut(disabled("Enabled", "ThreadProgress"), w.nonEmpty(`.*Execute\(.*\)#0`)), Through: next, Goal: recorded})
		w.must(r, step{Key: "look-ahead/choices-followed", Why: "the alternatives of a choice are not followed", After: callAt(cs), NoEnter: helpers, LoopAll: true,
			Cut: anyCut(seen, y("true"), w.isFalse(`\.(Enabled|ThreadProgress)$`)), Through: pushed, Goal: end})
		w.everyElement(r, "look-ahead/every-choice", fn, `Execute\(.*\)#0$`, isCall("modelchecker.Node.ForkForAlternatePaths"), nil, nil)
	}
}

// counterType: integers and tables of integers.
func counterType(g *ssa.Global) bool {
	t := deref(g.Type()).Underlying().String()
	return strings.HasPrefix(t, "int") || strings.HasPrefix(t, "map[string]int")
}

// handedOn: every caller that has a parameter of the same type passes it on.
func (w *World) handedOn(r *Rep, key string, p *ssa.Parameter) {
	fn := p.Parent()
	ix := -1
	for i, q := range fn.Params {
		if q == p {
			ix = i
		}
	}
	for _, cs := range w.callers[fn] {
		for _, q := range cs.Parent().Params {
			if q.Type() != p.Type() || len(w.callers[cs.Parent()]) == 0 {
				continue
			}
			a := callArgs(cs)
			ok := ix < len(a) && (a[ix] == ssa.Value(q) || w.sliceWith(a[ix], sliceOpt{shallow: true}).Params[q])
			r.Check(key+"/"+shortFn(cs.Parent()), w.ipos(callAt(cs)), ok, ifBad(!ok, "the call passes "+w.render(a[ix])))
		}
	}
}

// boundValues: the values that become visible to an assertion belong to copies.
func (w *World) boundValues(r *Rep) {
	n := 0
	for _, name := range []string{"CheckInvariant", "CheckAssertion", "CheckTransitionAssertion"} {
		fn := w.Func("modelchecker." + name)
		if fn == nil {
			continue
		}
		for _, f := range w.withHelpers(fn) {
			if pkgOf(f) != "modelchecker" || f.Signature.Recv() != nil {
				continue
			}
			instrs(f, func(in ssa.Instruction) {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok || !strings.HasSuffix(mu.Value.Type().String(), "starlark.Value") {
					return
				}
				for _, o := range w.starlarkParts(mu.Value, 0) {
					n++
					why := ""
					for _, ro := range w.roots(o, freshByName) {
						switch x := ro.(type) {
						case *ssa.Parameter:
							if len(w.callers[x.Parent()]) == 1 && w.inlinedFresh(x) {
								continue
							}
							why = w.render(ro)
						case *ssa.Global:
							why = w.render(ro)
						case *ssa.FreeVar:
							if !w.freeVarFresh(x, freshByName) {
								why = w.render(ro)
							}
						case *ssa.Call:
							if calleeName(x) == "dynamic" { // the shared result of the look-ahead
								why = w.render(o)
							}
						}
					}
					r.Check("bound-values-copied/"+shortFn(f), w.ipos(in), why == "", ifBad(why != "", "the assertion sees "+w.render(o)+" itself, not a copy"))
				}
			})
		}
	}
	r.Floor("values bound for assertions", n, 4)
}

func (w *World) inlinedFresh(p *ssa.Parameter) bool {
	cs := w.callers[p.Parent()][0]
	for i, q := range p.Parent().Params {
		if q != p || i >= len(callArgs(cs)) {
			continue
		}
		for _, ro := range w.roots(callArgs(cs)[i], freshByName) {
			switch ro.(type) {
			case *ssa.Parameter, *ssa.Global, *ssa.FreeVar:
				return false
			}
		}
		return true
	}
	return false
}

// starlarkParts: the containers that a value shows: the arguments of the constructors of structs and dictionaries.
func (w *World) starlarkParts(v ssa.Value, d int) []ssa.Value {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		if _, basic := x.X.Type().Underlying().(*types.Basic); basic {
			return nil
		}
		return w.starlarkParts(x.X, d)
	case *ssa.ChangeInterface:
		return w.starlarkParts(x.X, d)
	case *ssa.Phi:
		if d > 4 {
			return nil
		}
		var out []ssa.Value
		for _, e := range x.Edges {
			out = append(out, w.starlarkParts(e, d+1)...)
		}
		return out
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && strings.HasSuffix(strings.ToLower(fieldName(fa.X.Type(), fa.Field)), "id") {
			return nil // identities are immutable
		}
		if _, ok := x.X.(*ssa.Global); ok {
			return nil // None, True
		}
	case *ssa.Call:
		n := calleeName(x)
		var out []ssa.Value
		if strings.HasSuffix(n, ".NewBuiltin") {
			return nil
		}
		if strings.HasSuffix(n, "FromStringDict") || strings.HasSuffix(n, ".NewList") {
			for _, a := range callArgs(x) {
				if isRefType(a.Type()) {
					out = append(out, w.starlarkParts(a, d)...)
				}
			}
			return out
		}
	case *ssa.Const:
		return nil
	}
	return []ssa.Value{v}
}
