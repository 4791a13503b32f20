package main

import (
	"go/constant"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// operators: branches that contradict that an assertion with a body has exactly these temporal operators.
func (w *World) operators(ops ...string) func(Edge) bool {
	has := func(s string) bool {
		for _, o := range ops {
			if o == s {
				return true
			}
		}
		return false
	}
	isOps := func(v ssa.Value) bool { return strings.HasSuffix(w.plain(v), ".TemporalOperators") }
	return func(e Edge) bool {
		if c, ok := e.Cond.(*ssa.Call); ok && calleeName(c) == "slices.Contains" && isOps(c.Call.Args[0]) {
			k, ok := c.Call.Args[1].(*ssa.Const)
			return ok && e.Taken != has(constant.StringVal(k.Value))
		}
		a, op, b, ok := relOf(e)
		if !ok {
			return false
		}
		for i := 0; i < 2; i++ {
			k, isK := b.(*ssa.Const)
			if isK && k.Value != nil && k.Value.Kind() == constant.String && (op == token.EQL || op == token.NEQ) {
				if u, ok := a.(*ssa.UnOp); ok && u.Op == token.MUL {
					if ia, ok := u.X.(*ssa.IndexAddr); ok && isOps(ia.X) {
						if n, ok := ia.Index.(*ssa.Const); ok {
							if int(n.Int64()) >= len(ops) {
								return true // not there
							}
							return (ops[n.Int64()] == constant.StringVal(k.Value)) != (op == token.EQL)
						}
					}
				}
			}
			if isK && k.Value != nil && k.Value.Kind() == constant.Int && lenOf(isOps)(a) {
				return !constant.Compare(constant.MakeInt64(int64(len(ops))), op, k.Value)
			}
			a, b, op = b, a, mirrored[op]
		}
		return false
	}
}

// fieldIs: branches that contradict that a boolean field is val.
func (w *World) fieldIs(rx string, val bool) func(Edge) bool {
	return func(e Edge) bool { return reMatch(rx, w.plain(e.Cond)) && e.Taken != val }
}

// livenessDispatch: every assertion of the file is judged as its operators say, and the outcome is handed on.
func (w *World) livenessDispatch(r *Rep) {
	bodyNil := func(v ssa.Value) bool { return strings.HasSuffix(w.plain(v), ".Block") }
	for _, mode := range []string{"Strict", "Fast"} {
		f := w.Func("modelchecker.Check" + mode + "Liveness")
		if f == nil {
			r.Undecided("liveness/"+mode, "-", "the liveness check is missing")
			continue
		}
		suffix := map[string]string{"Strict": "Final", "Fast": "Fast"}[mode]
		ea, ae := "modelchecker.EventuallyAlways"+suffix, "modelchecker.AlwaysEventually"+suffix
		judge := isCall(ea, ae)
		var group []*ssa.Function
		for _, g := range w.domGroup(f) {
			if !inFuncs(w.domGroups(ea, ae), g) {
				group = append(group, g)
			}
		}
		var loops []*LoopInfo
		for _, l := range w.loopsIn(group, func(v ssa.Value) bool { return strings.HasSuffix(w.plain(v), ".Invariants") }, judge) {
			loops = append(loops, l)
		}
		r.Floor("loops over the assertions ("+mode+")", len(loops), 1)
		found := func(e Edge) bool { return true } // leaving the loop is judged below
		for _, l := range loops {
			body, none := says(bodyNil, isNil, token.EQL), says(bodyNil, isNil, token.NEQ)
			cases := []struct {
				key    string
				assume func(Edge) bool
				want   string
			}{
				{"always-eventually", anyCut(body, w.operators("always", "eventually")), ae},
				{"eventually-always", anyCut(body, w.operators("eventually", "always")), ea},
				{"nested-always-eventually", anyCut(none, w.fieldIs(`.*\.Always`, true), w.fieldIs(`.*\.Eventually`, true)), ae},
				{"nested-eventually-always", anyCut(none, w.fieldIs(`.*\.Nested\.Always`, true), func(e Edge) bool {
					return !strings.HasSuffix(w.plain(e.Cond), ".Nested.Always") && w.fieldIs(`.*\.Always`, false)(e)
				}, w.fieldIs(`.*\.Eventually`, true)), ea},
				{"always", anyCut(body, w.operators("always")), ""},
				{"exists", anyCut(body, w.operators("exists")), ""},
				{"transition", anyCut(body, w.operators("transition")), ""},
			}
			for _, c := range cases {
				key := "liveness/" + mode + "/" + c.key
				if c.want != "" {
					w.wholeLoop(r, key, l, isCall(c.want), c.assume, found)
				}
				other := map[string]string{ea: ae, ae: ea}[c.want]
				wrong := isCall(other)
				if c.want == "" {
					wrong = judge
				}
				w.must(r, step{Key: key + "/only", Why: "an assertion is judged by the rule for other operators", After: firstNonPhi(l.entry()), Cut: c.assume, Goal: wrong, Through: func(in ssa.Instruction) bool { return in.Block() == l.Head },
					NoEnter: outside(group)})
			}
		}
		files := w.loopsIn(group, func(v ssa.Value) bool { return strings.HasSuffix(w.plain(v), ".Files") }, nil)
		r.Floor("loops over the files ("+mode+")", len(files), 1)
		// the outcome
		n := 0
		for _, g := range group {
			instrs(g, func(in ssa.Instruction) {
				c, ok := in.(*ssa.Call)
				if !ok || !judge(c) {
					return
				}
				n++
				live := func(val bool) func(Edge) bool {
					return func(e Edge) bool {
						x, ok := e.Cond.(*ssa.Extract)
						return ok && x.Tuple == ssa.Value(c) && x.Index == 1 && e.Taken == val
					}
				}
				key := "liveness/" + mode + "/" + calleeShort(c)
				next := func(in ssa.Instruction) bool {
					return judge(in) || w.inLoopHead(loops, in)
				}
				w.must(r, step{Key: key + "/failure-answered", Why: "an assertion that fails is not the answer", After: c, Cut: live(true), NoEnter: outside(group), GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
					if next(in) {
						return true
					}
					rt, ok := in.(*ssa.Return)
					if !ok || rt.Parent() != f {
						return false
					}
					p := peelMI(res(retVal(rt, 1)))
					return !w.positionOf(p, loops, group) || !w.mayBe(res(retVal(rt, 0)), func(v ssa.Value) bool {
						x, ok := v.(*ssa.Extract)
						return ok && x.Tuple == ssa.Value(c) && x.Index == 0
					})
				}})
				w.must(r, step{Key: key + "/success-goes-on", Why: "after an assertion that holds the next ones are not judged", After: c, Cut: live(false), NoEnter: outside(group), Through: next, Goal: isReturnOf(f)})
				// the predicate
				ok = false
				for _, a := range c.Call.Args {
					for _, p := range w.funcValues(a, 0) {
						if p.Signature.Results().Len() == 2 {
							ok = w.witnessPredicate(p)
						}
					}
				}
				r.Check(key+"/predicate", w.ipos(c), ok, ifBad(!ok, "the assertion is not judged by its own witness"))
			})
		}
		r.Floor("judgements of liveness assertions ("+mode+")", n, 2)
	}
}

func (w *World) inLoopHead(loops []*LoopInfo, in ssa.Instruction) bool {
	for _, l := range loops {
		if in.Block() == l.Head && in == firstNonPhi(l.Head) {
			return true
		}
	}
	return false
}

// positionOf: a new position made of the indexes of the file and of the assertion.
func (w *World) positionOf(v ssa.Value, loops []*LoopInfo, group []*ssa.Function) bool {
	c, ok := v.(*ssa.Call)
	if !ok || calleeName(c) != "modelchecker.NewInvariantPosition" || len(c.Call.Args) != 2 {
		return false
	}
	file, inv := false, false
	for _, a := range w.cellArgs(c.Call.Args[1], group) {
		for _, l := range loops {
			inv = inv || l.isIndex(a)
		}
	}
	for _, a := range w.cellArgs(c.Call.Args[0], group) {
		for _, g := range group {
			for _, l := range w.loopsOf(g) {
				file = file || l.isIndex(a) && strings.HasSuffix(w.plain(l.Over), ".Files")
			}
		}
	}
	return file && inv
}

// cellArgs: the values a value has, through parameters of helpers and captured variables.
func (w *World) cellArgs(v ssa.Value, group []*ssa.Function) []ssa.Value {
	var out []ssa.Value
	for _, a := range w.argsIn(v, group, 0) {
		for _, b := range w.captured(a) {
			if b != a {
				out = append(out, w.argsIn(b, group, 0)...)
				continue
			}
			out = append(out, b)
		}
	}
	return out
}

// domGroups: the named functions and what they call.
func (w *World) domGroups(names ...string) []*ssa.Function {
	var out []*ssa.Function
	for _, n := range names {
		if f := w.Func(n); f != nil {
			out = append(out, w.domGroup(f)...)
		}
	}
	return out
}

// witnessPredicate: the second answer of the function is the witness at two captured (or given) positions: file, assertion.
func (w *World) witnessPredicate(p *ssa.Function) bool {
	ok := len(p.Blocks) > 0
	instrs(p, func(in ssa.Instruction) {
		rt, is := in.(*ssa.Return)
		if !is {
			return
		}
		v := peelConv(retVal(rt, 1))
		u, is := v.(*ssa.UnOp)
		if !is || u.Op != token.MUL {
			ok = false
			return
		}
		inv, is := u.X.(*ssa.IndexAddr)
		if !is {
			ok = false
			return
		}
		row, is := inv.X.(*ssa.UnOp)
		if !is {
			ok = false
			return
		}
		file, is := row.X.(*ssa.IndexAddr)
		if !is || !strings.HasSuffix(w.plain(file.X), ".Witness") {
			ok = false
			return
		}
		over := func(i ssa.Value) string {
			out := ""
			for _, a := range w.captured(i) {
				for _, l := range w.loopsOf(a.Parent()) {
					if l.isIndex(a) {
						out = w.plain(l.Over)
					}
				}
			}
			return out
		}
		ok = ok && strings.HasSuffix(over(file.Index), ".Files") && strings.HasSuffix(over(inv.Index), ".Invariants")
	})
	return ok
}

// captured: the values a variable of an enclosing function is given.
func (w *World) captured(v ssa.Value) []ssa.Value {
	v = peelConv(v)
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		v = u.X
	}
	fv, ok := v.(*ssa.FreeVar)
	if !ok {
		if a, ok := v.(*ssa.Alloc); ok {
			var out []ssa.Value
			for _, r := range *a.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
					out = append(out, peelConv(st.Val))
				}
			}
			return out
		}
		return []ssa.Value{v}
	}
	var out []ssa.Value
	for i, x := range fv.Parent().FreeVars {
		if x != fv || fv.Parent().Parent() == nil {
			continue
		}
		instrs(fv.Parent().Parent(), func(in ssa.Instruction) {
			if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == ssa.Value(fv.Parent()) {
				out = append(out, w.captured(m.Bindings[i])...)
			}
		})
	}
	return out
}

// nodeName: branches that contradict that the nodes whose names are looked at have this name.
func (w *World) nodeName(name string) func(Edge) bool {
	return func(e Edge) bool {
		a, op, b, ok := relOf(e)
		if !ok || op != token.EQL && op != token.NEQ {
			return false
		}
		for i := 0; i < 2; i++ {
			if k, ok := b.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
				if u, ok := a.(*ssa.UnOp); ok && u.Op == token.MUL {
					if fa, ok := u.X.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "Name" && namedName(deref(fa.X.Type())) == "Process" {
						return (constant.StringVal(k.Value) == name) != (op == token.EQL)
					}
				}
			}
			a, b = b, a
		}
		return false
	}
}

func (w *World) deadlockRules(r *Rep) {
	w.earlyDeadlock(r)
	w.graphDeadlock(r)
}

// earlyDeadlock: the search over processed states stops at a state whose expansion leads nowhere.
func (w *World) earlyDeadlock(r *Rep) {
	f := w.Func("modelchecker.Processor.startProcessedQueue")
	if f == nil {
		r.Undecided("early", "-", "startProcessedQueue not found")
		return
	}
	group := w.domGroup(f)
	in := func(names ...string) func(*ssa.Function) bool {
		o := outside(group)
		return func(g *ssa.Function) bool {
			if o(g) {
				return true
			}
			for _, n := range names {
				if fname(g) == n || shortFn(g) == n {
					return true
				}
			}
			return false
		}
	}
	var pops, drains []*ssa.Call
	instrs(f, func(in ssa.Instruction) {
		if c, ok := in.(*ssa.Call); ok && reMatch(`.*(Queue|LinearCollection)(\[.*\])?\.Remove`, calleeName(c)) {
			pops = append(pops, c)
		}
	})
	record := func(in ssa.Instruction) bool {
		st, _ := fieldStore(in, "Processor", "earlyDeadlock")
		return st != nil && !isNilConst(st.Val)
	}
	r.Floor("states taken from the queue of processed states", len(pops), 1)
	isLen := func(v ssa.Value) bool {
		for _, a := range w.argsIn(v, group, 0) {
			c, ok := peelConv(a).(*ssa.Call)
			if !ok || !reMatch(`.*(Queue|LinearCollection)(\[.*\])?\.(Len|Count)`, calleeName(c)) {
				return false
			}
		}
		return true
	}
	depth := func(v ssa.Value) bool { return strings.HasSuffix(w.plain(peelConv(v)), ".actionDepth") }
	max := func(v ssa.Value) bool { return strings.HasSuffix(w.plain(peelConv(v)), ".MaxActions") }
	hits := func(v ssa.Value) bool { return strings.HasSuffix(w.plain(peelConv(v)), ".dedupHitsInExpansion") }
	seen := func(v ssa.Value) bool { return strings.HasSuffix(w.plain(peelConv(v)), ".earlyDeadlock") }
	detect := func(val bool) func(Edge) bool {
		return func(e Edge) bool { return e.Taken == val && strings.HasSuffix(w.plain(e.Cond), ".DeadlockDetection") }
	}
	isDrain := isCall("modelchecker.Processor.drainAndFlush")
	for _, pop := range pops {
		again := func(in ssa.Instruction) bool { return in == ssa.Instruction(pop) }
		ends := anyOf(again, isReturnOf(f))
		failing := func(e Edge) bool { // the expansion found a failure
			x, ok := e.Cond.(*ssa.Extract)
			if !ok || !e.Taken {
				return false
			}
			c, ok := x.Tuple.(*ssa.Call)
			return ok && isDrain(c) && x.Index == 0
		}
		grown := says(isLen, isLen, token.NEQ, token.GTR, token.LSS)
		same := says(isLen, isLen, token.EQL, token.LEQ, token.GEQ)
		w.must(r, step{Key: "early/recorded", Why: "a state whose expansion leads nowhere is not recorded as a deadlock", After: pop, Through: record, Goal: ends, NoEnter: in("modelchecker.Processor.drainAndFlush"),
			Cut: anyCut(failing, detect(false), grown, says(hits, isZero, token.NEQ, token.GTR), says(depth, max, token.GEQ, token.GTR), says(seen, isNil, token.NEQ), func(e Edge) bool { // the queue gave nothing
				x, ok := e.Cond.(*ssa.Extract)
				return ok && x.Tuple == ssa.Value(pop) && !e.Taken
			})})
		for _, t := range []struct {
			key, why string
			cut      func(Edge) bool
		}{
			{"detection-off", "a deadlock is recorded although the detection is off", detect(true)},
			{"grown", "a deadlock is recorded although the expansion led to new states", same},
			{"known", "a deadlock is recorded although the expansion led to known states", says(hits, isZero, token.EQL, token.LEQ)},
			{"limit", "a deadlock is recorded at the limit of the actions", says(depth, max, token.LSS, token.NEQ)},
		} {
			w.must(r, step{Key: "early/" + t.key, Why: t.why, After: pop, Cut: t.cut, Goal: record, Through: again, NoEnter: in("modelchecker.Processor.drainAndFlush")})
		}
		// the measure is taken for this expansion
		reset := func(in ssa.Instruction) bool {
			st, _ := fieldStore(in, "Processor", "dedupHitsInExpansion")
			return st != nil && isConstInt(0)(st.Val)
		}
		w.must(r, step{Key: "early/hits-from-zero", Why: "the known states of earlier expansions are counted", After: pop, Through: anyOf(reset, again), Goal: isDrain, NoEnter: in()})
		lens := func(in ssa.Instruction) bool { v, ok := in.(ssa.Value); return ok && isLen(v) }
		w.must(r, step{Key: "early/length-before", Why: "the length of the queue before the expansion is not known", After: pop, Through: anyOf(lens, again), Goal: isDrain, NoEnter: in()})
		instrs(f, func(in ssa.Instruction) {
			if c, ok := in.(*ssa.Call); ok && isDrain(c) {
				drains = append(drains, c)
			}
		})
		instrs(f, func(in ssa.Instruction) {
			if st, _ := fieldStore(in, "Processor", "earlyDeadlock"); st != nil && !isNilConst(st.Val) {
				ok := w.everyValue(st.Val, func(v ssa.Value) bool {
					x, ok := v.(*ssa.Extract)
					return ok && x.Tuple == ssa.Value(pop) && x.Index == 0
				}, 0)
				r.Check("early/which", w.ipos(st), ok, ifBad(!ok, "the deadlock is not the state that was expanded"))
				w.must(r, step{Key: "early/stops", Why: "the search goes on after a deadlock", After: in, Goal: again, Through: isReturnOf(f), NoEnter: outside(group)})
			}
		})
	}
	r.Floor("expansions", len(drains), 1)
	// known states are counted
	pn := w.Func("modelchecker.Processor.processNode")
	count := func(in ssa.Instruction) bool {
		st, _ := fieldStore(in, "Processor", "dedupHitsInExpansion")
		if st == nil {
			return false
		}
		b, ok := st.Val.(*ssa.BinOp)
		return ok && b.Op == token.ADD && isConstInt(1)(b.Y) && hits(b.X)
	}
	n := 0
	if pn != nil {
		pg := w.withHelpers(pn)
		for _, g := range pg {
			instrs(g, func(in ssa.Instruction) {
				c, ok := in.(*ssa.Call)
				if !ok || calleeName(c) != "modelchecker.Processor.findVisitedSymmetric" {
					return
				}
				n++
				w.must(r, step{Key: "early/known-counted", Why: "a step to a known state is not counted", After: c, Cut: func(e Edge) bool {
					x, ok := e.Cond.(*ssa.Extract)
					return ok && x.Tuple == ssa.Value(c) && x.Index == 1 && !e.Taken
				}, Through: anyOf(count, isCall("modelchecker.Node.Attach")), Goal: isReturnOf(pn), NoEnter: outside(pg)})
			})
		}
	}
	r.Floor("searches for known states", n, 1)
	if g := w.Func("modelchecker.Processor.GetEarlyDeadlock"); g != nil {
		ok := true
		instrs(g, func(in ssa.Instruction) {
			if rt, is := in.(*ssa.Return); is {
				ok = ok && seen(retVal(rt, 0))
			}
		})
		r.Check("early/told", w.Pos(g.Pos()), ok, ifBad(!ok, "the deadlock that was recorded is not told"))
	} else {
		r.Undecided("early/told", "-", "GetEarlyDeadlock not found")
	}
}

// graphDeadlock: the walk over the graph tells the first state between actions, below the limit, from which no step completes.
func (w *World) graphDeadlock(r *Rep) {
	f := w.Func("modelchecker.GetAllNodes")
	if f == nil {
		r.Undecided("graph", "-", "GetAllNodes not found")
		return
	}
	all := w.domGroup(f)
	var walk *ssa.Function // the function that collects the nodes
	for _, g := range all {
		if hasInstr(g, func(in ssa.Instruction) bool {
			st, _ := fieldStore(in, "Node", "Outbound")
			return st != nil
		}) {
			walk = g
		}
	}
	if walk == nil {
		r.Undecided("graph", w.Pos(f.Pos()), "the walk over the graph was not found")
		return
	}
	var judge *ssa.Function // the function that judges one node
	for _, g := range all {
		if g != walk && g.Signature.Results().Len() == 1 && g.Signature.Results().At(0).Type().String() == "bool" && len(g.Params) > 0 && shortType(g.Params[0].Type()) == "*modelchecker.Node" && len(w.loopsIn([]*ssa.Function{g}, func(v ssa.Value) bool { return strings.HasSuffix(w.plain(v), ".Outbound") }, nil)) > 0 {
			judge = g
		}
	}
	if judge == nil {
		r.Undecided("graph/judge", w.Pos(walk.Pos()), "the function that judges whether a state is a deadlock was not found")
		return
	}
	judged := func(val bool) func(Edge) bool {
		return func(e Edge) bool {
			c, ok := e.Cond.(*ssa.Call)
			return ok && c.Call.StaticCallee() == judge && e.Taken == val
		}
	}
	names := []string{"yield", "init", "crash"}
	acts := func(v ssa.Value) bool { return strings.HasSuffix(w.plain(peelConv(v)), ".TotalActions") }
	limit := func(v ssa.Value) bool {
		_, ok := peelConv(v).(*ssa.Parameter)
		return ok
	}
	noJudge := func(g *ssa.Function) bool { return !inFuncs(all, g) || g == judge }
	dead := func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
		rt, ok := in.(*ssa.Return)
		return ok && rt.Parent() == walk && !isNilConst(res(retVal(rt, 2)))
	}
	// only a state that was judged a deadlock, below the limit, is told
	root := func(e Edge) bool { // the first state counts as one between actions
		a, op, b, ok := relOf(e)
		return ok && op == token.EQL && shortType(a.Type()) == "*modelchecker.Node" && (isParam(a) || isParam(b))
	}
	procNil := says(func(v ssa.Value) bool {
		return strings.HasSuffix(w.plain(v), ".Process") && shortType(v.Type()) == "*modelchecker.Process"
	}, isNil, token.EQL)
	// and the first one is told
	isJudge := func(in ssa.Instruction) bool { c, ok := in.(*ssa.Call); return ok && c.Call.StaticCallee() == judge }
	loops := 0
	var collected ssa.Value
	for _, l := range w.natLoops([]*ssa.Function{walk}, isJudge) {
		loops++
		collected = l.Over
		w.must(r, step{Key: "graph/only-judged", Why: "a state that is no deadlock is told as one", After: firstNonPhi(l.entry()), Cut: judged(true), GoalEnv: dead, NoEnter: noJudge})
		w.must(r, step{Key: "graph/only-below-limit", Why: "a state at the limit of the actions is told as a deadlock", After: firstNonPhi(l.entry()), Cut: anyCut(says(acts, limit, token.LSS, token.NEQ), procNil), GoalEnv: dead, NoEnter: noJudge})
		w.must(r, step{Key: "graph/only-between", Why: "a state in the middle of an action is told as a deadlock", After: firstNonPhi(l.entry()), Cut: anyCut(w.nodeName("any other name"), root), GoalEnv: dead, NoEnter: noJudge})
		for _, n := range names {
			w.must(r, step{Key: "graph/told/" + n, Why: "a deadlock is passed over", After: firstNonPhi(l.entry()), NoEnter: noJudge,
				Cut: anyCut(judged(false), w.nodeName(n), procNil, says(acts, limit, token.GEQ, token.GTR), says(func(v ssa.Value) bool { return strings.HasSuffix(w.plain(v), ".Stats") }, isNil, token.EQL)),
				GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
					if in.Block() == l.Head {
						return true
					}
					rt, ok := in.(*ssa.Return)
					return ok && rt.Parent() == walk && isNilConst(res(retVal(rt, 2)))
				}})
		}
		p := w.partial(l)
		r.Check("graph/all-judged", w.ipos(firstNonPhi(l.Head)), p == "", p)
	}
	r.Floor("loops that judge the states", loops, 1)
	instrs(walk, func(in ssa.Instruction) {
		if c, ok := in.(*ssa.Call); ok && isJudge(c) && collected != nil {
			ok := shortType(c.Call.Args[0].Type()) == "*modelchecker.Node" && w.mayBe(c.Call.Args[0], func(v ssa.Value) bool { return isElemOf(v, collected) })
			r.Check("graph/which", w.ipos(c), ok, ifBad(!ok, "another state is judged"))
		}
	})
	// the answer of GetAllNodes is that of the walk
	w.judgeRules(r, judge, names)
	w.walkRules(r, walk, all, collected)
}

func isParam(v ssa.Value) bool { _, ok := v.(*ssa.Parameter); return ok }

// isElemOf: an element of the collection.
func isElemOf(v, coll ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	return ok && ia.X == coll
}

// judgeRules: a state is a deadlock when a way on from it ends in the middle of an action and none completes.
func (w *World) judgeRules(r *Rep, judge *ssa.Function, names []string) {
	group := w.domGroup(judge)
	crash := func(val bool) func(Edge) bool {
		return func(e Edge) bool {
			c, ok := e.Cond.(*ssa.Call)
			return ok && reMatch(`modelchecker\.(Link\.IsCrashLink|isCrashLinkName)`, calleeName(c)) && e.Taken == val
		}
	}
	noEnter := func(g *ssa.Function) bool {
		return !inFuncs(group, g) || strings.Contains(strings.ToLower(g.Name()), "iscrashlink")
	}
	answers := func(val bool) func(ssa.Instruction, func(ssa.Value) ssa.Value) bool {
		return func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
			rt, ok := in.(*ssa.Return)
			if !ok || rt.Parent() != judge {
				return false
			}
			v, known := constBool(res(retVal(rt, 0)))
			return !known || v == val
		}
	}
	over := func(v ssa.Value) bool { return strings.HasSuffix(w.plain(v), ".Outbound") }
	loops := w.loopsIn(group, over, nil)
	r.Floor("loops over the steps of a state", len(loops), 1)
	for _, l := range loops {
		head := func(in ssa.Instruction) bool { return in.Block() == l.Head }
		for _, n := range names {
			w.must(r, step{Key: "judge/completes/" + n, Why: "a step that completes an action does not save the state from being a deadlock", After: firstNonPhi(l.entry()), Cut: anyCut(crash(true), w.nodeName(n)), NoEnter: noEnter, GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
				return head(in) || answers(true)(in, res)
			}})
			w.must(r, step{Key: "judge/crash/" + n, Why: "a crash saves the state from being a deadlock", After: firstNonPhi(l.entry()), Cut: anyCut(crash(false), w.nodeName(n)), NoEnter: noEnter, Through: head, GoalEnv: answers(false)})
		}
		follow := func(in ssa.Instruction) bool {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			n := calleeName(c)
			if n != "builtin.append" && !reMatch(`.*\.(Enqueue|Push|Add)`, n) && c.Common().StaticCallee() != judge {
				return false
			}
			for _, a := range c.Common().Args {
				for _, x := range append(sliceElems2(a), a) {
					if reMatch(`.*\.Outbound\[.*\]\.Node|.*range.*\.Node`, w.plain(x)) || l.Elems[baseOfField(x)] {
						return true
					}
				}
			}
			return false
		}
		middle := anyCut(crash(true), w.nodeName("any other name"))
		known := func(e Edge) bool { // seen before
			lk, ok := e.Cond.(*ssa.Lookup)
			if !ok {
				if x, is := e.Cond.(*ssa.Extract); is {
					lk, ok = x.Tuple.(*ssa.Lookup)
				}
			}
			return ok && lk != nil && e.Taken
		}
		bad, tr := w.iterationSkips(l, follow, anyCut(middle, known))
		r.Check("judge/followed", w.ipos(firstNonPhi(l.Head)), !bad, ifBad(bad, "a step in the middle of an action is not followed: "+strings.Join(tr, " → ")))
		bad, tr = w.leavesEarly(l, anyCut(middle, crash(false)))
		_ = tr
		p := w.partial(l)
		r.Check("judge/all-steps", w.ipos(firstNonPhi(l.Head)), p == "" && !bad, p+ifBad(bad, "the steps after a crash are not looked at: "+strings.Join(tr, " → ")))
		// without a step (but crashes) the way ends
		ends := step{Key: "judge/ends", Why: "a way that ends in the middle of an action does not make the state a deadlock", Fn: judge, Cut: crash(false), NoEnter: noEnter, GoalEnv: answers(false)}
		for _, o := range w.natLoops([]*ssa.Function{l.Fn}, func(ssa.Instruction) bool { return true }) {
			if o.Head != l.Head && o.Body[l.Head] {
				ends.Fn, ends.After = nil, firstNonPhi(o.entry())
			}
		}
		w.must(r, ends)
		// with one it goes on
		for _, b := range l.Head.Instrs {
			ph, ok := b.(*ssa.Phi)
			if !ok || ph == indexPhi(l) {
				continue
			}
			if !isInt(ph.Type()) {
				continue
			}
			step := func(in ssa.Instruction) bool {
				bo, ok := in.(*ssa.BinOp)
				return ok && bo.Op == token.ADD && bo.X == ssa.Value(ph) && isConstInt(1)(bo.Y)
			}
			bad, tr := w.iterationSkips(l, step, middle)
			r.Check("judge/counts", w.ipos(firstNonPhi(l.Head)), !bad, ifBad(bad, "a step is not counted: "+strings.Join(tr, " → ")))
			for _, ref := range *ph.Referrers() {
				if bo, ok := ref.(*ssa.BinOp); ok && bo.Op != token.ADD {
					good := bo.Op == token.EQL && isZero(bo.Y) || bo.Op == token.NEQ && isZero(bo.Y) || bo.Op == token.GTR && isZero(bo.Y) || bo.Op == token.LSS && isConstInt(1)(bo.Y) || bo.Op == token.LEQ && isZero(bo.Y)
					r.Check("judge/none", w.ipos(bo), good, ifBad(!good, "a way that goes on is taken for one that ends"))
				}
			}
		}
	}
}

// indexPhi: the phi the loop counts with.
func indexPhi(l *LoopInfo) *ssa.Phi {
	for _, in := range l.Head.Instrs {
		if bo, ok := in.(*ssa.BinOp); ok && l.isIndex(bo) {
			ph, _ := bo.X.(*ssa.Phi)
			return ph
		}
	}
	iff, ok := l.Head.Instrs[len(l.Head.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	if bo, ok := iff.Cond.(*ssa.BinOp); ok {
		if ph, ok := bo.X.(*ssa.Phi); ok {
			return ph
		}
	}
	return nil
}

func sliceElems2(v ssa.Value) []ssa.Value {
	if sl, ok := v.(*ssa.Slice); ok {
		return sliceElems(sl)
	}
	return nil
}

// baseOfField: x of x.f.
func baseOfField(v ssa.Value) ssa.Value {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return nil
	}
	return fa.X
}

// walkRules: the walk visits every state an enabled step leads to.
func (w *World) walkRules(r *Rep, walk *ssa.Function, all []*ssa.Function, collected ssa.Value) {
	over := func(v ssa.Value) bool { return strings.HasSuffix(w.plain(v), ".Outbound") }
	enabled := func(val bool) func(Edge) bool {
		return func(e Edge) bool { return e.Taken == val && strings.HasSuffix(w.plain(e.Cond), ".Enabled") }
	}
	queued := func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok || !reMatch(`.*\.(Enqueue|Push|Add)`, calleeName(c)) {
			return false
		}
		return true
	}
	n := 0
	for _, l := range w.loopsIn([]*ssa.Function{walk}, over, queued) {
		n++
		w.wholeLoop(r, "walk/steps", l, queued, nil, nil)
	}
	r.Floor("loops that follow the steps", n, 1)
	n = 0
	for _, l := range w.loopsIn(all, over, func(in ssa.Instruction) bool {
		u, ok := in.(*ssa.UnOp)
		return ok && strings.HasSuffix(w.plain(u), ".Enabled")
	}) {
		n++
		keep := func(in ssa.Instruction) bool {
			c, ok := in.(*ssa.Call)
			return ok && calleeName(c) == "builtin.append" && shortType(c.Type()) == "[]*modelchecker.Link"
		}
		w.wholeLoop(r, "walk/enabled", l, keep, enabled(false), nil)
		w.must(r, step{Key: "walk/disabled", Why: "a step to a disabled state is kept", After: firstNonPhi(l.entry()), Cut: enabled(true), Through: func(in ssa.Instruction) bool { return in.Block() == l.Head }, Goal: keep, NoEnter: func(*ssa.Function) bool { return true }})
	}
	r.Floor("loops that keep the enabled steps", n, 1)
	// every state that is taken up is collected
	var takes []ssa.Instruction
	instrs(walk, func(in ssa.Instruction) {
		if c, ok := in.(*ssa.Call); ok && reMatch(`.*\.(Dequeue|Pop|Remove)`, calleeName(c)) {
			takes = append(takes, in)
		}
	})
	if len(takes) == 0 {
		r.Undecided("walk/collected", w.Pos(walk.Pos()), "the walk takes no state from a queue")
		return
	}
	first := takes[0]
	collect := func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		return ok && calleeName(c) == "builtin.append" && shortType(c.Type()) == "[]*modelchecker.Node" && c.Block().Parent() == walk
	}
	seen := func(e Edge) bool {
		v := e.Cond
		if x, ok := v.(*ssa.Extract); ok {
			v = x.Tuple
		}
		_, ok := v.(*ssa.Lookup)
		return ok && e.Taken
	}
	w.must(r, step{Key: "walk/collected", Why: "a state is not among the states that are judged", After: first, Cut: anyCut(seen, enabled(false)), Through: collect, Goal: func(in ssa.Instruction) bool { return in == first || isReturnOf(walk)(in) }, NoEnter: func(*ssa.Function) bool { return true }})
}

// existsRules: exists assertions are struck off by witnesses, and only by them.
func (w *World) existsRules(r *Rep) {
	f := w.Func("modelchecker.CheckSimpleExistsWitness")
	if f == nil {
		r.Undecided("exists", "-", "CheckSimpleExistsWitness not found")
		return
	}
	group := w.domGroup(f)
	bodyNil := func(v ssa.Value) bool { return strings.HasSuffix(w.plain(v), ".Block") }
	isPos := func(t string) bool { return strings.HasSuffix(t, "InvariantPosition") }
	collect := func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		if !ok || calleeName(c) != "builtin.append" || !isPos(shortType(c.Type())) {
			return false
		}
		for _, e := range sliceElems2(c.Call.Args[1]) {
			if p, ok := peelMI(e).(*ssa.Call); ok && calleeName(p) == "modelchecker.NewInvariantPosition" {
				return true
			}
		}
		return false
	}
	body := says(bodyNil, isNil, token.EQL)
	loops := w.loopsIn(group, func(v ssa.Value) bool { return strings.HasSuffix(w.plain(v), ".Invariants") }, collect)
	r.Floor("loops that collect the exists assertions", len(loops), 1)
	for _, l := range loops {
		w.wholeLoop(r, "exists/collected", l, collect, anyCut(body, w.operators("exists")), nil)
		for _, ops := range [][]string{{"always"}, {"always", "eventually"}, {"eventually", "always"}, {"transition"}} {
			w.must(r, step{Key: "exists/only/" + strings.Join(ops, "-"), Why: "an assertion of another kind is treated as an exists assertion", After: firstNonPhi(l.entry()), Cut: anyCut(body, w.operators(ops...)), Goal: collect, Through: func(in ssa.Instruction) bool { return in.Block() == l.Head }, NoEnter: outside(group)})
		}
	}
	for _, g := range group {
		instrs(g, func(in ssa.Instruction) {
			if c, ok := in.(*ssa.Call); ok && calleeName(c) == "modelchecker.NewInvariantPosition" {
				r.Check("exists/position", w.ipos(c), w.positionOf(c, loops, group), ifBad(!w.positionOf(c, loops, group), "the position is not that of the assertion"))
			}
		})
	}
	// the witness
	witness := func(v ssa.Value) bool {
		return reMatch(`.*\.Witness\[.*\.FileIndex\]\[.*\.InvariantIndex\]`, w.plain(v))
	}
	seen := func(val bool) func(Edge) bool { return func(e Edge) bool { return e.Taken == val && witness(e.Cond) } }
	var mentions []ssa.Instruction
	for _, g := range group {
		instrs(g, func(in ssa.Instruction) {
			if u, ok := in.(*ssa.UnOp); ok && witness(u) {
				mentions = append(mentions, u)
			}
		})
	}
	r.Floor("looks at the witness of an exists assertion", len(mentions), 1)
	isLook := func(in ssa.Instruction) bool {
		for _, m := range mentions {
			if m == in {
				return true
			}
		}
		return false
	}
	// in every state between actions, for every assertion that is left
	yield := func(e Edge) bool { // not between actions
		c, ok := e.Cond.(*ssa.Call)
		return ok && strings.HasSuffix(calleeName(c), ".IsYieldNode") && !e.Taken
	}
	left := says(lenOf(func(v ssa.Value) bool { return isPos(shortType(v.Type())) }), isZero, token.EQL, token.LEQ)
	isNodes := func(v ssa.Value) bool { return shortType(v.Type()) == "[]*modelchecker.Node" }
	outer := w.loopsIn(group, isNodes, isLook)
	if len(outer) == 0 {
		outer = w.loopsIn(group, isNodes, nil)
	}
	r.Floor("loops over the states", len(outer), 1)
	for _, l := range outer {
		w.wholeLoop(r, "exists/states", l, isLook, anyCut(yield, left), left)
		ok := false
		for _, a := range w.argsIn(l.Over, group, 0) {
			ok = ok || isParam(a)
		}
		r.Check("exists/states/given", w.ipos(firstNonPhi(l.Head)), ok, ifBad(!ok, "not all states are looked at"))
	}
	positions := func(v ssa.Value) bool { return isPos(shortType(v.Type())) && !isNodes(v) }
	inner := w.loopsIn(group, positions, isLook)
	r.Floor("loops over the assertions that are left", len(inner), 1)
	for _, l := range inner {
		w.wholeLoop(r, "exists/each-left", l, isLook, nil, nil)
		mark := func(in ssa.Instruction) bool { // noted for removal
			c, ok := in.(*ssa.Call)
			if !ok {
				return false
			}
			if calleeName(c) == "slices.Delete" {
				return true
			}
			if calleeName(c) != "builtin.append" {
				return false
			}
			for _, e := range sliceElems2(c.Call.Args[1]) {
				if l.isIndex(e) {
					return true
				}
			}
			return false
		}
		keep := func(in ssa.Instruction) bool { // noted to be kept
			c, ok := in.(*ssa.Call)
			if !ok || calleeName(c) != "builtin.append" {
				return false
			}
			for _, e := range sliceElems2(c.Call.Args[1]) {
				if l.Elems[e] {
					return true
				}
			}
			return false
		}
		head := func(in ssa.Instruction) bool { return in.Block() == l.Head }
		switch {
		case hasInstr(l.Fn, func(in ssa.Instruction) bool { return keep(in) && l.Body[in.Block()] }):
			bad, tr := w.iterationSkips(l, keep, seen(true))
			r.Check("exists/struck-only-by-witness", w.ipos(firstNonPhi(l.Head)), !bad, ifBad(bad, "an assertion without a witness is struck off: "+strings.Join(tr, " → ")))
			w.must(r, step{Key: "exists/struck-by-witness", Why: "an assertion with a witness is left", After: firstNonPhi(l.entry()), Cut: seen(false), Through: head, Goal: keep, NoEnter: outside(group)})
		default:
			w.must(r, step{Key: "exists/struck-only-by-witness", Why: "an assertion without a witness is struck off", After: firstNonPhi(l.entry()), Cut: seen(true), Through: head, Goal: mark, NoEnter: outside(group)})
			bad, tr := w.iterationSkips(l, mark, seen(false))
			r.Check("exists/struck-by-witness", w.ipos(firstNonPhi(l.Head)), !bad, ifBad(bad, "an assertion with a witness is left: "+strings.Join(tr, " → ")))
		}
	}
	for _, g := range group {
		instrs(g, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok || calleeName(c) != "slices.Delete" {
				return
			}
			bo, ok := c.Call.Args[2].(*ssa.BinOp)
			one := ok && bo.Op == token.ADD && bo.X == c.Call.Args[1] && isConstInt(1)(bo.Y)
			r.Check("exists/struck-one", w.ipos(c), one, ifBad(!one, "more than the assertion with the witness is struck off"))
			// the positions shift: the removal goes from the last to the first
			down := w.countsDown(c.Call.Args[1])
			r.Check("exists/struck-from-the-end", w.ipos(c), down, ifBad(!down, "the positions that are struck off shift while they are"))
		})
	}
	// in no-graph mode the states with a witness are remembered
	rec, get := w.Func("modelchecker.Processor.recordWitness"), w.Func("modelchecker.Processor.GetWitnessNodes")
	if rec == nil || get == nil {
		r.Undecided("exists/remembered", "-", "the witnesses are not remembered in no-graph mode")
		return
	}
	rg := w.domGroup(rec)
	remember := func(in ssa.Instruction) bool {
		st, _ := fieldStore(in, "Processor", "witnessNodes")
		return st != nil
	}
	inGraph := func(e Edge) bool { return strings.HasSuffix(w.plain(e.Cond), ".experimentalNoGraph") && !e.Taken }
	knownW := func(e Edge) bool {
		c, ok := e.Cond.(*ssa.Call)
		return ok && reMatch(`slices\.ContainsFunc.*`, calleeName(c)) && e.Taken
	}
	isWit := func(v ssa.Value) bool { return strings.Contains(w.plain(v), ".Witness") }
	no := func(e Edge) bool { return isWit(e.Cond) && !e.Taken && !knownW(e) }
	ls := w.loopsIn(rg, isWit, remember)
	r.Floor("loops over the witnesses of a state", len(ls), 2)
	for _, l := range ls {
		nested := false
		for _, m := range ls {
			nested = nested || m != l && l.Fn == m.Fn && l.Body[m.Head]
		}
		if nested {
			p := w.partial(l)
			bad, tr := w.leavesEarly(l, nil)
			r.Check("exists/remembered/all", w.ipos(firstNonPhi(l.Head)), p == "" && !bad, p+ifBad(bad, strings.Join(tr, " → ")))
			continue
		}
		w.wholeLoop(r, "exists/remembered", l, remember, anyCut(inGraph, knownW, no), nil)
	}
	got := false
	instrs(get, func(in ssa.Instruction) {
		if rt, ok := in.(*ssa.Return); ok {
			s := w.slice(retVal(rt, 0))
			got = s.hasField(`.*Processor\.witnessNodes`)
		}
	})
	r.Check("exists/remembered/told", w.Pos(get.Pos()), got, ifBad(!got, "the states with a witness are not told"))
	if pn := w.Func("modelchecker.Processor.processNode"); pn != nil {
		pg := w.withHelpers(pn)
		n := 0
		for _, g := range pg {
			instrs(g, func(in ssa.Instruction) {
				if c, ok := in.(*ssa.Call); ok && strings.HasPrefix(calleeName(c), "modelchecker.CheckInvariants") {
					n++
					w.must(r, step{Key: "exists/remembered/each", Why: "the witnesses of a state are not remembered", After: c, Through: isCall("modelchecker.Processor.recordWitness"), Goal: isReturnOf(pn), NoEnter: outside(pg)})
				}
			})
		}
		r.Floor("states whose assertions are checked", n, 1)
	}
}

// countsDown: an element picked by an index that is counted down (or the list is sorted so).
func (w *World) countsDown(v ssa.Value) bool {
	u, ok := peelConv(v).(*ssa.UnOp)
	if ok {
		ia, ok := u.X.(*ssa.IndexAddr)
		if !ok {
			return false
		}
		v = ia.Index
	}
	ph, ok := v.(*ssa.Phi)
	if !ok {
		if bo, is := v.(*ssa.BinOp); is && bo.Op == token.SUB { // for i := n; i > 0; i-- … [i-1]
			ph, ok = bo.X.(*ssa.Phi)
		}
		if !ok {
			return false
		}
	}
	for _, e := range ph.Edges {
		if bo, ok := e.(*ssa.BinOp); ok && bo.X == ssa.Value(ph) {
			return bo.Op == token.SUB && isConstInt(1)(bo.Y) || bo.Op == token.ADD && isConstInt(-1)(bo.Y)
		}
	}
	return false
}
