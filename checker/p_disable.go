package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("S11", ruleS11) }

const isDisable = "lib.IsDisableTransitionError"

func isErrType(t types.Type) bool { return types.TypeString(t, nil) == "error" }

// errOf: the error results of a call, by result index.
func errOf(c *ssa.Call) (idx []int) {
	rs := c.Call.Signature().Results()
	for i := 0; i < rs.Len(); i++ {
		if isErrType(rs.At(i).Type()) {
			idx = append(idx, i)
		}
	}
	return
}

// resultOf: the value of result i of a call (nil: the program drops it).
func resultOf(c *ssa.Call, i int) ssa.Value {
	if c.Call.Signature().Results().Len() == 1 {
		if len(*c.Referrers()) == 0 {
			return nil
		}
		return c
	}
	for _, u := range *c.Referrers() {
		if ex, ok := u.(*ssa.Extract); ok && ex.Index == i {
			return ex
		}
	}
	return nil
}

// is: v is the error e, an error parameter of a helper it is handed to, or e wrapped so that errors.As still finds it.
func (w *World) isError(v, e ssa.Value, d int) bool {
	if v == e {
		return true
	}
	if d > 4 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		return isErrType(x.Type()) && x.Parent() != e.Parent()
	case *ssa.ChangeInterface:
		return w.isError(x.X, e, d+1)
	case *ssa.MakeInterface:
		return w.isError(x.X, e, d+1)
	case *ssa.Phi:
		for _, l := range phiLeaves(x) {
			if l != ssa.Value(x) && w.isError(l, e, d+1) {
				return true
			}
		}
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			for _, u := range *a.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == a && w.isError(st.Val, e, d+1) {
					return true
				}
			}
		}
	case *ssa.Call:
		if calleeName(x) == "fmt.Errorf" {
			c, ok := x.Call.Args[0].(*ssa.Const)
			if ok && strings.Contains(c.Value.ExactString(), "%w") && len(x.Call.Args) > 1 {
				if sl, ok := x.Call.Args[1].(*ssa.Slice); ok {
					for _, el := range sliceElems(sl) {
						if w.isError(el, e, d+1) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// errNil: branches on which the error is nil.
func (w *World) errNil(e ssa.Value) func(Edge) bool {
	return func(g Edge) bool {
		bo, ok := g.Cond.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
			return false
		}
		x, y := bo.X, bo.Y
		if isNilConst(x) {
			x, y = y, x
		}
		return isNilConst(y) && w.isError(x, e, 0) && g.Taken == (bo.Op == token.EQL)
	}
}

// disabling: branches on which the error is (is not) the one that disables a transition.
func (w *World) disabling(e ssa.Value, is bool) func(Edge) bool {
	return func(g Edge) bool {
		c, ok := g.Cond.(*ssa.Call)
		if !ok || len(c.Call.Args) == 0 {
			return false
		}
		return calleeName(c) == isDisable && w.isError(c.Call.Args[0], e, 0) && g.Taken == is
	}
}

type evalSite struct {
	c     *ssa.Call
	e     ssa.Value // the error it returns (nil: none, the outcome is told by other results)
	i     int       // index of that error
	cut   func(Edge) bool
	chain string
}

type disableCheck struct {
	w        *World
	r        *Rep
	panicker map[*ssa.Function]int // function → index of the error parameter on which it panics when that is not nil
	live     map[*ssa.Function]bool
	seen     map[string]bool
	names    map[string]int
	sites    int
	aborting map[*ssa.Function]bool
}

func (w *World) panickers() map[*ssa.Function]int {
	out := map[*ssa.Function]int{}
	for _, f := range w.Funcs {
		if len(f.Blocks) == 0 || f.Signature.Results().Len() > 0 {
			continue
		}
		for i, p := range f.Params {
			if !isErrType(p.Type()) {
				continue
			}
			q := &Q{W: w, Cut: func(g Edge) bool {
				bo, ok := g.Cond.(*ssa.BinOp)
				return ok && (bo.X == p && isNilConst(bo.Y) || bo.Y == p && isNilConst(bo.X)) && g.Taken == (bo.Op == token.EQL)
			}}
			if !q.CanReturn(f) {
				out[f] = i
			}
		}
	}
	return out
}

// raises: the instruction panics with the error.
func (d *disableCheck) raises(e ssa.Value) func(ssa.Instruction, func(ssa.Value) ssa.Value) bool {
	return func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		f := c.Common().StaticCallee()
		i, ok := d.panicker[f]
		return ok && f != nil && i < len(c.Common().Args) && d.w.isError(res(c.Common().Args[i]), e, 0)
	}
}

func (d *disableCheck) raises2(e ssa.Value) func(ssa.Instruction, func(ssa.Value) ssa.Value) bool {
	if e == nil {
		return nil
	}
	return d.raises(e)
}

// onlyGroup: look into the helpers of the step functions only.
func (d *disableCheck) onlyGroup(f *ssa.Function) func(*ssa.Function) bool {
	in := onlyIn(d.w.stepGroup(f))
	return func(g *ssa.Function) bool { return d.noEnter(g) || in(g) }
}

func (d *disableCheck) noEnter(f *ssa.Function) bool {
	_, p := d.panicker[f]
	return p || d.w.flowFns[f]
}

// carries: the return hands the error on.
func (d *disableCheck) carries(rt *ssa.Return, e ssa.Value) bool {
	for k := range rt.Results {
		if isErrType(rt.Results[k].Type()) {
			if v := retVal(rt, k); v != nil && d.w.isError(v, e, 0) && v.Parent() == e.Parent() {
				return true
			}
		}
	}
	return false
}

func (d *disableCheck) key(s evalSite) string {
	k := shortFn(s.c.Parent()) + ": " + d.w.what(s.c)
	d.names[k]++
	if n := d.names[k]; n > 1 {
		k += fmt.Sprintf(" #%d", n)
	}
	return k
}

// what: the expression or statement that a call evaluates, for people.
func (w *World) what(c *ssa.Call) string {
	a := callArgs(c)
	best := ""
	for _, v := range a {
		s := w.plain(v)
		if len(s) > 60 {
			s = "…" + s[len(s)-45:]
		}
		if strings.Contains(s, "Expr") || strings.Contains(s, "Stmt") || strings.Contains(s, "Condition") {
			best = s
		}
	}
	return strings.TrimPrefix(calleeName(c), "modelchecker.") + "(" + best + ")"
}

// work: what a transition that has been abandoned must not do any more.
func (d *disableCheck) work(in ssa.Instruction) bool {
	c, ok := in.(ssa.CallInstruction)
	if keepsFork(in) {
		return true
	}
	if st, _ := fieldStore(in, "Process", "Enabled"); st != nil {
		b, known := constBool(st.Val)
		return !known || b
	}
	if !ok {
		return false
	}
	n := calleeName(c)
	switch n {
	case "modelchecker.Thread.pushFrame", "modelchecker.Thread.executeEndOfStatement", "modelchecker.Thread.executeBlock",
		"modelchecker.Thread.endOfBlock", "modelchecker.Process.Enable", "modelchecker.Process.addChannelMessage", "modelchecker.Process.RecordCall":
		return true
	}
	return strings.HasPrefix(n, "modelchecker.Evaluator.")
}

func (d *disableCheck) site(s evalSite) {
	w, f := d.w, s.c.Parent()
	id := fmt.Sprintf("%p/%d/%v", s.c, s.i, s.e == nil)
	if d.seen[id] {
		return
	}
	d.seen[id] = true
	key := d.key(s)
	pos := w.ipos(s.c)
	isRet := retOf(f)
	again := func(in ssa.Instruction) bool { return in == ssa.Instruction(s.c) }
	var errIdx []int // results of f through which the error is handed on
	if s.e != nil {
		d.sites++
		lost := func(in ssa.Instruction) bool {
			if again(in) {
				return true
			}
			rt, ok := in.(*ssa.Return)
			return ok && isRet(in) && !d.carries(rt, s.e)
		}
		w.must(d.r, step{Key: "error stops the run/" + key, Why: "an error other than a disabled transition is ignored", Fn: f, After: s.c,
			ThroughEnv: d.raises(s.e), Goal: lost, Cut: anyCut(w.errNil(s.e), w.disabling(s.e, true)), NoEnter: d.noEnter})
		instrs(f, func(in ssa.Instruction) {
			if rt, ok := in.(*ssa.Return); ok && isRet(in) {
				for k := range rt.Results {
					if v := retVal(rt, k); v != nil && isErrType(rt.Results[k].Type()) && w.isError(v, s.e, 0) && v.Parent() == f {
						errIdx = append(errIdx, k)
					}
				}
			}
		})
	}
	anyCond := false
	for _, a := range callArgs(s.c) {
		anyCond = anyCond || re(`AnyStmt\.Condition(Expr)?\b`).MatchString(w.render(a))
	}
	if anyCond {
		w.must(d.r, step{Key: "element without a value for the condition is no choice/" + key, Why: "the alternative stays although its condition disables it", Fn: f, After: s.c,
			Through: again, ThroughEnv: d.raises2(s.e), Goal: keepsFork, Cut: anyCut(s.cut, w.cutRel(`AnyStmt\.Condition(Expr)?(\.PyExpr)?$`, "==", `^""$|^nil$`)), NoEnter: d.onlyGroup(f)})
		return
	}
	// The transition is disabled: nothing else runs, and whoever gets to know marks the process.
	w.must(d.r, step{Key: "nothing runs after a disabled transition/" + key, Why: "the transition goes on although it is disabled", Fn: f, After: s.c,
		ThroughEnv: d.raises2(s.e), Goal: d.work, Cut: s.cut, NoEnter: d.noEnter})
	silent := map[*ssa.Return]bool{} // returns that neither hand the error on nor have it all marked
	told := map[int]ssa.Value{}      // constant results on those and the other returns
	first := true
	note := func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
		rt, ok := in.(*ssa.Return)
		if !ok || !isRet(in) || s.e != nil && d.carries(rt, s.e) {
			return false
		}
		for k := range rt.Results {
			v := res(retVal(rt, k))
			c, isC := v.(*ssa.Const)
			if isC && (isBoolType(c.Type()) || isNilConst(c)) && (first || told[k] != nil && sameConst(told[k], c)) {
				told[k] = c
			} else {
				delete(told, k)
				told[k] = nil
			}
		}
		first = false
		return false
	}
	(&Q{W: w, ThroughEnv: d.raises2(s.e), GoalEnv: note, Cut: s.cut, NoEnter: d.noEnter}).After(s.c)
	missing := ""
	for _, m := range []struct{ typ, field, val string }{{"Process", "Enabled", "^false$"}, {"Process", "ThreadProgress", "^false$"}, {"Thread", "Aborted", "^true$"}} {
		q := &Q{W: w, Through: w.storeTo(m.typ, m.field, m.val), ThroughEnv: d.raises2(s.e), Cut: s.cut, NoEnter: d.noEnter, GoalEnv: func(in ssa.Instruction, _ func(ssa.Value) ssa.Value) bool {
			rt, ok := in.(*ssa.Return)
			if ok && isRet(in) && !(s.e != nil && d.carries(rt, s.e)) {
				silent[rt] = true
				missing = m.typ + "." + m.field
			}
			return false
		}}
		q.After(s.c)
	}
	if w.flowFns[f] || !d.live[f] {
		d.aborting[f] = true
		d.r.Check("disabled transition is marked as abandoned/"+key, pos, len(silent) == 0, ifBad(len(silent) > 0, "returns without setting "+missing+" although the transition is disabled"))
		return
	}
	consts := map[int]ssa.Value{}
	for k, v := range told {
		if v != nil {
			consts[k] = v
		}
	}
	if len(silent) > 0 && len(consts) == 0 {
		d.r.Check("disabled transition is marked as abandoned/"+key, pos, false, "returns normally although the transition is disabled, and no result tells it")
		return
	}
	for _, u := range w.callers[f] {
		c, ok := u.(*ssa.Call)
		if !ok {
			d.r.Undecided("caller of "+shortFn(f), w.ipos(u), "the outcome of the evaluation is dropped")
			continue
		}
		if !d.live[c.Parent()] {
			continue
		}
		if len(errIdx) > 0 {
			for _, k := range errIdx {
				e := resultOf(c, k)
				if e == nil {
					d.r.Check("error stops the run/"+shortFn(c.Parent())+": "+w.what(c), w.ipos(c), false, "the error of the evaluation is dropped")
					continue
				}
				d.site(evalSite{c: c, e: e, i: k, cut: anyCut(w.errNil(e), w.disabling(e, false))})
			}
		}
		if !first && len(silent) > 0 {
			d.site(evalSite{c: c, i: -1, cut: anyCut(w.constCut(c, consts), w.isFalse(`Aborted$`))})
		} else if !first {
			w.must(d.r, step{Key: "nothing runs after a disabled transition/" + shortFn(c.Parent()) + ": after " + shortFn(f) + fmt.Sprintf(" at %d", len(d.seen)), Why: "the transition goes on although it is disabled", Fn: c.Parent(), After: c,
				Goal: d.work, Cut: anyCut(w.constCut(c, consts), w.isFalse(`Aborted$`)), NoEnter: d.noEnter})
		}
	}
}

// constCut: branches that contradict the given results of the call.
func (w *World) constCut(c *ssa.Call, consts map[int]ssa.Value) func(Edge) bool {
	val := func(v ssa.Value) ssa.Value {
		if v == ssa.Value(c) {
			return consts[0]
		}
		if ex, ok := v.(*ssa.Extract); ok && ex.Tuple == c {
			return consts[ex.Index]
		}
		return nil
	}
	return func(g Edge) bool {
		if k := val(g.Cond); k != nil {
			b, known := constBool(k)
			return known && b != g.Taken
		}
		bo, ok := g.Cond.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
			return false
		}
		x, y := bo.X, bo.Y
		if val(x) == nil {
			x, y = y, x
		}
		k := val(x)
		if k == nil {
			return false
		}
		if isNilConst(k) && isNilConst(y) {
			return g.Taken == (bo.Op == token.NEQ)
		}
		return false
	}
}

func ruleS11(c *Ctx, r *Rep) {
	w := c.World
	r.Rule("a require that does not hold, a choice without elements and an exhausted symmetry domain abandon the transition, and every other evaluation error stops the run")
	if !w.stepFns() {
		r.Undecided("step functions", "-", "the step functions of a thread were not found")
		return
	}
	defer func() { w.flowFns = nil }()
	d := &disableCheck{w: w, r: r, panicker: w.panickers(), seen: map[string]bool{}, names: map[string]int{}, aborting: map[*ssa.Function]bool{}}
	main := w.Func("main.main")
	if main == nil {
		r.Undecided("entry point", "-", "main.main not found")
		return
	}
	d.live = w.reachable(main)
	for _, n := range []string{"modelchecker.Process.PanicOnError", "modelchecker.PanicOnError"} {
		f := w.Func(n)
		if f == nil {
			continue
		}
		_, ok := d.panicker[f]
		r.Check("an error panics/"+shortFn(f), w.Pos(f.Pos()), ok, ifBad(!ok, "returns although the error is not nil"))
	}
	var base []*ssa.Call
	for _, f := range sortedFns(d.live) {
		if !w.owns(f) {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			x, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			n := calleeName(x)
			if reMatch(`starlark\.(Eval\w*|ExecREPLChunk|Call)|(starlark\.|syntax\.)?FileOptions\.Parse\w*|syntax\.Parse\w*`, n) && len(errOf(x)) > 0 {
				base = append(base, x)
			}
		})
	}
	sort.SliceStable(base, func(i, j int) bool { return base[i].Pos() < base[j].Pos() })
	for _, x := range base {
		for _, k := range errOf(x) {
			e := resultOf(x, k)
			if e == nil {
				r.Check("error stops the run/"+shortFn(x.Parent())+": "+w.what(x), w.ipos(x), false, "the error of the evaluation is dropped")
				continue
			}
			d.site(evalSite{c: x, e: e, i: k, cut: anyCut(w.errNil(e), w.disabling(e, false))})
		}
	}
	r.Floor("evaluations whose error is followed", d.sites, 15)
	w.requireRules(r, d)
	w.abandonRules(r, d)
	w.domainRules(r, d)
}

// abandoned: the three marks of an abandoned transition.
func (w *World) abandoned() map[string]func(ssa.Instruction) bool {
	return map[string]func(ssa.Instruction) bool{
		"not enabled": w.storeTo("Process", "Enabled", "^false$"),
		"no progress": w.storeTo("Process", "ThreadProgress", "^false$"),
		"aborted":     w.storeTo("Thread", "Aborted", "^true$"),
	}
}

// requireRules: a requirement that does not hold and a choice without elements are abandoned transitions.
func (w *World) requireRules(r *Rep, d *disableCheck) {
	es := w.Func("modelchecker.Thread.executeStatement")
	no := w.onlyStep(es)
	pan := func(f *ssa.Function) bool { return no(f) || d.noEnter(f) }
	T := "modelchecker.Thread."
	req := anyCut(w.stmtKind("RequireStmt"), w.isTrue(`Truth\(.*\.RequireStmt\.ConditionExpr`))
	anyBare := anyCut(w.stmtKind("AnyStmt"), w.cutRel(`\.AnyStmt\.Block$`, "!=", "^nil$"), w.nonEmpty(`.*\*?\[\]?.*Process.*`))
	for _, k := range []struct {
		key, why string
		cut      func(Edge) bool
	}{{"require that does not hold", "the transition goes on although the requirement does not hold", req},
		{"choice without elements", "the transition goes on although no element can be chosen", anyBare}} {
		for _, m := range []string{"not enabled", "no progress", "aborted"} {
			w.must(r, step{Key: k.key + "/" + m, Why: k.why, Fn: es, NoEnter: pan, Cut: anyCut(k.cut, w.isTrue(`\.?Aborted$`)), Through: w.abandoned()[m], Goal: retOf(es)})
		}
		w.must(r, step{Key: k.key + "/nothing runs", Why: k.why, Fn: es, NoEnter: pan, Cut: k.cut,
			Goal: anyOf(isCall(T+"pushFrame", T+"executeEndOfStatement", T+"executeBlock", "modelchecker.Process.Enable"))})
		w.must(r, step{Key: k.key + "/no branch", Why: "branches or a yield are reported for an abandoned transition", Fn: es, NoEnter: pan, Cut: k.cut,
			GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
				rt, ok := in.(*ssa.Return)
				if !ok || rt.Parent() != es {
					return false
				}
				return !w.noForks(res(retVal(rt, 0))) || !w.noYield(res(retVal(rt, 1)))
			}})
	}
	// Execute stops with the first abandoned step
	ex := w.Func("modelchecker.Thread.Execute")
	exNo := w.onlyStep(ex)
	n := 0
	for _, f := range w.stepGroup(ex) {
		for _, in := range allInstrs(f) {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			t := c.Common().StaticCallee()
			if t == nil || !d.aborting[t] || !w.flowFns[t] {
				continue
			}
			n++
			key := "an abandoned step ends the execution/" + shortFn(t)
			cut := w.isFalse(`\.?Aborted$`)
			w.must(r, step{Key: key, Why: "the thread executes on although the transition is abandoned", Fn: f, After: in, NoEnter: exNo, Cut: cut,
				Goal: anyOf(isCall(T+"endOfBlock", T+"executeStatement", T+"executeForStatement", T+"executeWhileStatement", T+"executeBlock", T+"executeAction", "modelchecker.Process.removeCurrentThread", "modelchecker.Process.Enable"), isFork)})
			if f == ex {
				w.must(r, step{Key: key + "/result", Why: "branches or a yield are reported for an abandoned transition", Fn: f, After: in, NoEnter: exNo, Cut: cut,
					GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
						rt, ok := in.(*ssa.Return)
						if !ok || rt.Parent() != ex {
							return false
						}
						y, known := constBool(res(retVal(rt, 1)))
						return !isNilConst(res(retVal(rt, 0))) || !known || y
					}})
			}
		}
	}
	r.Floor("steps of a thread that may be abandoned", n, 2)
}

// noForks: the value is nil, or what a step that abandons the transition returns.
func (w *World) noForks(v ssa.Value) bool {
	if isNilConst(v) {
		return true
	}
	if ex, ok := v.(*ssa.Extract); ok {
		if c, ok := ex.Tuple.(*ssa.Call); ok {
			f := c.Call.StaticCallee()
			if f == nil || !w.owns(f) || w.flowFns[f] {
				return false
			}
			ok = true
			instrs(f, func(in ssa.Instruction) {
				if rt, is := in.(*ssa.Return); is && rt.Parent() == f {
					ok = ok && isNilConst(retVal(rt, ex.Index))
				}
			})
			return ok
		}
	}
	return false
}

func (w *World) noYield(v ssa.Value) bool {
	if b, known := constBool(v); known {
		return !b
	}
	if ex, ok := v.(*ssa.Extract); ok {
		if c, ok := ex.Tuple.(*ssa.Call); ok {
			f := c.Call.StaticCallee()
			if f == nil || !w.owns(f) || w.flowFns[f] {
				return false
			}
			ok = true
			instrs(f, func(in ssa.Instruction) {
				if rt, is := in.(*ssa.Return); is && rt.Parent() == f {
					b, known := constBool(retVal(rt, ex.Index))
					ok = ok && known && !b
				}
			})
			return ok
		}
	}
	return false
}

// abandonRules: whoever lets a thread execute takes nothing from an abandoned transition.
func (w *World) abandonRules(r *Rep, d *disableCheck) {
	ex := w.Func("modelchecker.Thread.Execute")
	if ex == nil {
		r.Undecided("drivers", "-", "Thread.Execute not found")
		return
	}
	uses := isCall("modelchecker.Node.Attach", "modelchecker.Node.Duplicate", "modelchecker.Node.ForkForAlternatePaths", "modelchecker.Node.ForkForAction",
		"modelchecker.Processor.publishYieldPoint", "modelchecker.CheckInvariants", "modelchecker.CheckInvariantsWithProber",
		"modelchecker.CheckTransitionInvariants", "modelchecker.CheckRefinement", "modelchecker.Processor.recordWitness", "modelchecker.Processor.crashThread",
		"modelchecker.Processor.crashProcess", "modelchecker.Processor.crashRole", "modelchecker.Process.Enable", "modelchecker.Processor.extendPath",
		"lib.LinearCollection.Add", "lib.LinearCollection.ClearAll")
	takes := func(in ssa.Instruction) bool {
		if uses(in) {
			return true
		}
		switch x := in.(type) {
		case *ssa.MapUpdate:
			return namedName(x.Value.Type()) == "Node" || re(`\.visited$|seen`).MatchString(w.render(x.Map))
		case *ssa.Call:
			if calleeName(x) == "builtin.append" {
				for _, e := range appendedElems(x) {
					switch namedName(e.Type()) {
					case "NextTransition", "Node", "Process":
						return true
					}
				}
			}
		}
		return false
	}
	n := 0
	for _, f := range sortedFns(d.live) {
		for _, c := range calls(f, "modelchecker.Thread.Execute") {
			in := callAt(c)
			n++
			call, ok := in.(*ssa.Call)
			if !ok {
				r.Check("driver/"+shortFn(f), w.ipos(in), false, "the outcome of a step is dropped")
				continue
			}
			if len(w.evalAssert(f)) > 0 {
				w.must(r, step{Key: "driver/" + shortFn(f) + "/assertion", Why: "an assertion that is abandoned goes on as if it were not", Fn: f, After: in, Cut: w.isFalse(`\.?Aborted$`), Goal: anyOf(retOf(f), isCall("modelchecker.Thread.Execute"))})
				continue
			}
			abandoned := anyCut(w.nonEmpty(`modelchecker\.Thread\.Execute\(.*\)#0`), w.isTrue(`\.Enabled$`), w.isTrue(`\.ThreadProgress$`), w.isTrue(`Thread\.Execute\(.*\)#1$`))
			again := func(x ssa.Instruction) bool { return x == ssa.Instruction(call) }
			w.must(r, step{Key: "driver/" + shortFn(f) + "/takes nothing", Why: "something is taken from an abandoned transition", Fn: f, After: in, Through: again, Cut: abandoned, Goal: takes,
				NoEnter: func(g *ssa.Function) bool { return w.flowFns[g] }})
			if rs := f.Signature.Results(); rs.Len() > 0 && isBoolType(rs.At(0).Type()) {
				for i := 0; i < rs.Len(); i++ {
					if isBoolType(rs.At(i).Type()) {
						w.must(r, step{Key: fmt.Sprintf("driver/%s/result %d", shortFn(f), i), Why: "an abandoned transition is reported as a failure", Fn: f, After: in, Through: again, Cut: abandoned, GoalEnv: mayReturn(f, i, true),
							NoEnter: func(g *ssa.Function) bool { return w.flowFns[g] }})
					}
				}
			}
		}
	}
	r.Floor("places that let a thread execute", n, 3)
	// a duplicate that executed nothing adds no link
	if dup := w.Func("modelchecker.Node.Duplicate"); dup != nil {
		w.must(r, step{Key: "duplicate that executed nothing", Why: "a step that executed nothing adds a transition", Fn: dup,
			Cut:  anyCut(w.isTrue(`\.Enabled$`), w.boolParam(dup, false)),
			Goal: anyOf(w.storeTo("Node", "Inbound", "append"), w.storeTo("Node", "Outbound", "append"))})
	} else {
		r.Undecided("duplicate that executed nothing", "-", "Node.Duplicate not found")
	}
}

// boolParam: branches on which the (only) bool parameter has the value.
func (w *World) boolParam(f *ssa.Function, val bool) func(Edge) bool {
	return func(e Edge) bool {
		p, ok := e.Cond.(*ssa.Parameter)
		return ok && p.Parent() == f && isBoolType(p.Type()) && e.Taken == val
	}
}

// evalAssert: functions that execute the body of an assertion: what the process returned under the name is their result.
func (w *World) evalAssert(f *ssa.Function) (out []ssa.Instruction) {
	instrs(f, func(in ssa.Instruction) {
		if rt, ok := in.(*ssa.Return); ok && rt.Parent() == f && len(rt.Results) == 1 && re(`\.Returns\[`).MatchString(w.render(retVal(rt, 0))) {
			out = append(out, in)
		}
	})
	return
}

// domainRules: an exhausted symmetry domain gives the error that disables, and hands out no value beyond its limit.
func (w *World) domainRules(r *Rep, d *disableCheck) {
	id := w.Func(isDisable)
	if id == nil {
		r.Undecided("the disabling error", "-", isDisable+" not found")
		return
	}
	// recognised through wrapping: errors.As with a *DisableTransitionError
	asOK := false
	instrs(id, func(in ssa.Instruction) {
		if c, ok := in.(*ssa.Call); ok && calleeName(c) == "errors.As" {
			tgt := c.Call.Args[1]
			if mi, ok := tgt.(*ssa.MakeInterface); ok {
				tgt = mi.X
			}
			if pp, ok := tgt.Type().Underlying().(*types.Pointer); ok {
				if p, ok := pp.Elem().(*types.Pointer); ok && namedName(p.Elem()) == "DisableTransitionError" {
					asOK = true
				}
			}
		}
	})
	rets := 0
	instrs(id, func(in ssa.Instruction) {
		if rt, ok := in.(*ssa.Return); ok {
			rets++
			v := retVal(rt, 0)
			c, isC := v.(*ssa.Call)
			b, known := constBool(v)
			asOK = asOK && (isC && calleeName(c) == "errors.As" || known && !b)
		}
	})
	r.Check("the disabling error is recognised when wrapped", w.Pos(id.Pos()), asOK, ifBad(!asOK, "not decided by errors.As on *DisableTransitionError"))

	full := anyCut(w.cutRel(`^len\(.*\.Cache\[.*\]\)$`, "<", `\.Limit$`))
	n := 0
	for _, f := range w.Funcs {
		if f.Name() != "fresh" || f.Signature.Recv() == nil || f.Package() == nil || f.Package().Pkg.Name() != "lib" {
			continue
		}
		n++
		key := "exhausted domain/" + shortFn(f)
		add := func(in ssa.Instruction) bool {
			mu, ok := in.(*ssa.MapUpdate)
			return ok && re(`\.Cache\[.*\]$`).MatchString(w.render(mu.Map))
		}
		w.must(r, step{Key: key + "/no value", Why: "a value is handed out although the domain is exhausted", Fn: f, Cut: full, Goal: add, NoEnter: w.onlyHelpers(f)})
		// from the comparison with the limit on
		m := 0
		for _, g := range w.withHelpers(f) {
			instrs(g, func(in ssa.Instruction) {
				iff, ok := in.(*ssa.If)
				if !ok {
					return
				}
				for k, succ := range iff.Block().Succs {
					if !matchRel(w.rels(iff.Cond, k == 0), `^len\(.*\.Cache\[.*\]\)$`, ">=", `\.Limit$`) {
						continue
					}
					m++
					q := &Q{W: w, NoEnter: w.onlyHelpers(f), GoalEnv: w.notDisabled(g)}
					bad, tr := q.from(g, point{succ, 0, iff.Block()})
					r.Check(key+"/disables", w.ipos(iff), !bad, ifBad(bad, "an exhausted domain does not disable the transition: "+strings.Join(tr, " → ")))
					if g != f {
						w.must(r, step{Key: key + "/handed on", Why: "an exhausted domain does not disable the transition", Fn: f, Cut: full, NoEnter: w.onlyHelpers(f), GoalEnv: w.notErr(f)})
					}
				}
			})
		}
		r.Check(key+"/compared", w.Pos(f.Pos()), m > 0, ifBad(m == 0, "the number of values is not compared with the limit"))
		w.must(r, step{Key: key + "/recorded", Why: "a value is handed out that the domain does not count", Fn: f, Through: add, NoEnter: w.onlyHelpers(f),
			GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
				rt, ok := in.(*ssa.Return)
				return ok && rt.Parent() == f && len(rt.Results) == 2 && isNilConst(res(retVal(rt, 1)))
			}})
	}
	r.Floor("operations that take a value from a symmetry domain", n, 2)
}

// disableErr: a *DisableTransitionError.
func (w *World) disableErr(v ssa.Value) bool {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		return namedName(deref(mi.X.Type())) == "DisableTransitionError"
	}
	if c, ok := v.(*ssa.Call); ok {
		f := c.Call.StaticCallee()
		if f == nil || !w.owns(f) || f.Signature.Results().Len() != 1 {
			return false
		}
		ok := true
		instrs(f, func(in ssa.Instruction) {
			if rt, is := in.(*ssa.Return); is {
				for _, l := range phiLeaves(retVal(rt, 0)) {
					mi, isM := l.(*ssa.MakeInterface)
					ok = ok && isM && namedName(deref(mi.X.Type())) == "DisableTransitionError"
				}
			}
		})
		return ok
	}
	return false
}

// notDisabled: a return of f whose error is not the one that disables the transition.
func (w *World) notDisabled(f *ssa.Function) func(ssa.Instruction, func(ssa.Value) ssa.Value) bool {
	return func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
		rt, ok := in.(*ssa.Return)
		if !ok || rt.Parent() != f {
			return false
		}
		for k := range rt.Results {
			if isErrType(rt.Results[k].Type()) {
				return !w.disableErr(res(retVal(rt, k)))
			}
		}
		return false // a comparison in a predicate: the branch of its caller decides
	}
}

// notErr: a return of f that may give no error.
func (w *World) notErr(f *ssa.Function) func(ssa.Instruction, func(ssa.Value) ssa.Value) bool {
	return func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
		rt, ok := in.(*ssa.Return)
		if !ok || rt.Parent() != f {
			return false
		}
		for k := range rt.Results {
			if isErrType(rt.Results[k].Type()) {
				v := res(retVal(rt, k))
				return !w.disableErr(v) && !w.otherErr(v)
			}
		}
		return false
	}
}

// otherErr: an error that stops the run: made on the spot, or what a failed call returned.
func (w *World) otherErr(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Call:
		return calleeName(x) == "fmt.Errorf" || calleeName(x) == "errors.New" || calleeName(x) == "starlark.UnpackArgs"
	}
	return false
}
