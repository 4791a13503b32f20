package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// guards: no state is scheduled without the decision.
func (x *guided) guards() {
	w := x.w
	should := "modelchecker.Processor.ShouldScheduleNode"
	anchors := []string{"processNode", "processInit", "YieldNode", "YieldFork", "scheduleChannelMessages", "scheduleAction", "crashRole", "crashThread"}
	isAnchor := map[string]bool{}
	for _, a := range anchors {
		isAnchor["modelchecker.Processor."+a] = true
	}
	yes := func(e Edge) bool {
		c, ok := e.Cond.(*ssa.Call)
		return ok && calleeName(c) == should && e.Taken
	}
	mid := x.field("Processor", "intermediateStates")
	adds := func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		if !ok {
			return false
		}
		if c.Call.IsInvoke() {
			return c.Call.Method.Name() == "Add" && mid(c.Call.Value)
		}
		return calleeName(c) == "modelchecker.Processor.enqueueScheduled"
	}
	n := 0
	for _, a := range anchors {
		f := x.fn("modelchecker.Processor." + a)
		if f == nil {
			continue
		}
		stay := func(g *ssa.Function) bool {
			return isAnchor[fname(g)] || g != f && fname(g) == should || packageOf(g) != packageOf(f) || g.Signature.Recv() == nil || namedName(g.Signature.Recv().Type()) != "Processor" ||
				fname(g) == "modelchecker.Processor.enqueueScheduled" || fname(g) == "modelchecker.Processor.publishYieldPoint"
		}
		goal := adds
		if a == "crashRole" || a == "crashThread" {
			goal = anyOf(adds, isCall("modelchecker.Processor.publishYieldPoint"), isCall("modelchecker.Node.Attach"))
		}
		found, _ := (&Q{W: w, NoEnter: stay, Goal: goal}).Entry(f)
		if found {
			n++
		}
		bad, tr := (&Q{W: w, NoEnter: stay, Cut: yes, Goal: goal}).Entry(f)
		x.check("guard/"+a, w.Pos(f.Pos()), !bad, "a state is scheduled though the trace was not asked", tr)
		// the state that is asked about is the one that is scheduled, and it is asked for once
		for _, g := range x.helpers(f) {
			var asked []ssa.Value
			for _, c := range calls(g, should) {
				arg := c.Common().Args[1]
				asked = append(asked, arg)
				in := c.(ssa.Instruction)
				bad, tr := (&Q{W: w, NoEnter: func(*ssa.Function) bool { return true }, Through: func(i ssa.Instruction) bool { v, ok := i.(ssa.Value); return ok && v == arg }, Goal: func(i ssa.Instruction) bool {
					cc, ok := i.(*ssa.Call)
					return ok && calleeName(cc) == should && cc.Call.Args[1] == arg
				}}).After(in)
				x.check("guard/once", w.ipos(in), !bad, "a state is asked for twice, and so passes two links", tr)
			}
			instrs(g, func(in ssa.Instruction) {
				if !adds(in) || len(asked) == 0 {
					return
				}
				as := in.(*ssa.Call).Call.Args
				ok := false
				for _, v := range asked {
					ok = ok || v == as[len(as)-1]
				}
				x.check("guard/same", w.ipos(in), ok, "the state that is scheduled is not the one that the trace was asked about", nil)
			})
		}
	}
	x.r.Floor("places that schedule states", n, 8)
}

// progress: how far the trace has come, and that known states do not end it.
func (x *guided) progress() {
	w := x.w
	f, ex := x.fn("modelchecker.Processor.processNode"), x.fn("modelchecker.Processor.expandToYield")
	if f == nil || ex == nil {
		return
	}
	pos := w.Pos(f.Pos())
	fns := x.helpers(f)
	idx := x.field("GuidedTrace", "currentIndex")
	global := x.field("Processor", "guidedTrace")
	base := func(v ssa.Value) ssa.Value { // whose position
		if u, ok := v.(*ssa.UnOp); ok {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				return fa.X
			}
		}
		return nil
	}
	isAll := func(v ssa.Value) bool { return idx(v) && base(v) != nil && global(base(v)) }
	isOwn := func(v ssa.Value) bool {
		if c, ok := v.(*ssa.Call); ok && calleeName(c) == "modelchecker.GuidedTrace.GetCurrentIndex" {
			return !global(c.Call.Args[0])
		}
		return idx(v) && base(v) != nil && !global(base(v))
	}
	isAll2 := func(v ssa.Value) bool {
		if c, ok := v.(*ssa.Call); ok && calleeName(c) == "modelchecker.GuidedTrace.GetCurrentIndex" {
			return global(c.Call.Args[0])
		}
		return isAll(v)
	}
	told := func(in ssa.Instruction) bool {
		st, b := fieldStore(in, "GuidedTrace", "currentIndex")
		return st != nil && global(b)
	}
	further, behind := says(isOwn, isAll2, token.GTR), says(isOwn, isAll2, token.LEQ, token.LSS, token.EQL)
	n := 0
	for _, g := range fns {
		instrs(g, func(in ssa.Instruction) {
			st, b := fieldStore(in, "GuidedTrace", "currentIndex")
			if st == nil {
				return
			}
			n++
			ok := global(b)
			c, isC := st.Val.(*ssa.Call)
			switch {
			case isC && calleeName(c) == "builtin.max" && len(c.Call.Args) == 2:
				ok = ok && (isAll2(c.Call.Args[0]) && isOwn(c.Call.Args[1]) || isAll2(c.Call.Args[1]) && isOwn(c.Call.Args[0]))
			case isOwn(st.Val):
				bad, _ := (&Q{W: w, NoEnter: only(fns), Cut: further, Goal: func(i ssa.Instruction) bool { return i == in }}).Entry(f)
				ok = ok && !bad
			default:
				ok = false
			}
			x.check("progress/furthest", w.ipos(in), ok, "the trace is not as far as the state that followed it furthest", nil)
		})
	}
	x.check("progress/found", pos, n > 0, "how far the trace is followed is not noted", nil)
	forksOf := func(v ssa.Value) bool {
		ex, ok := v.(*ssa.Extract)
		if !ok || ex.Index != 0 {
			return false
		}
		c, ok := ex.Tuple.(*ssa.Call)
		return ok && calleeName(c) == "modelchecker.Thread.Execute"
	}
	flag := func(n string, want bool) func(Edge) bool {
		p := x.field("Process", n)
		q := x.field("Node", n)
		return func(e Edge) bool { return e.Taken == want && (p(e.Cond) || q(e.Cond)) }
	}
	forked, unforked := says(lenOf(forksOf), isZero, token.NEQ, token.GTR), says(lenOf(forksOf), isZero, token.EQL, token.LEQ)
	inactive := says(global, isNil, token.EQL)
	// a state that cannot take the link
	bad, tr := (&Q{W: w, NoEnter: only(fns), Cut: anyCut(forked, flag("Enabled", true), flag("ThreadProgress", true)), Goal: told}).Entry(f)
	x.check("progress/disabled", pos, !bad, "a link counts as followed by a state that cannot take it", tr)
	for k, cut := range map[string]func(Edge) bool{"forks": unforked, "enabled": flag("Enabled", false), "thread": flag("ThreadProgress", false)} {
		bad, tr := (&Q{W: w, NoEnter: only(fns), Cut: anyCut(cut, inactive, behind), Through: anyOf(told, isCall("modelchecker.Processor.processInit")), Goal: realReturn(f)}).Entry(f)
		x.check("progress/"+k, pos, !bad, "a link that a state followed does not count", tr)
	}
	// known states
	es := x.helpers(ex, "modelchecker.Processor.processNode")
	cleared := func(in ssa.Instruction) bool {
		if st, _ := fieldStore(in, "Processor", "visited"); st != nil {
			_, ok := st.Val.(*ssa.MakeMap)
			return ok
		}
		c, ok := in.(*ssa.Call)
		return ok && calleeName(c) == "builtin.clear" && x.field("Processor", "visited")(c.Call.Args[0])
	}
	steps := callsTo(es, "modelchecker.Processor.processNode")
	x.check("known/found", w.Pos(ex.Pos()), len(steps) > 0, "no state is processed", nil)
	for _, c := range steps {
		bad, tr := (&Q{W: w, NoEnter: only(es), Cut: inactive, Through: cleared, Goal: anyOf(isCall("modelchecker.Processor.processNode"), isReturnOf(c.Parent()))}).After(c)
		x.check("known/forgotten", w.ipos(c), !bad, "a trace that comes back to a known state ends there", tr)
	}
	sim := x.ownOf("modelchecker.Processor.StartSimulation") // without a trace
	for _, g := range w.Funcs {
		instrs(g, func(in ssa.Instruction) {
			if !cleared(in) || packageOf(g) != packageOf(f) || memberOf(sim, g) {
				return
			}
			if st, b := fieldStore(in, "Processor", "visited"); st != nil {
				if _, isNew := b.(*ssa.Alloc); isNew {
					return // a new search
				}
			}
			ok := memberOf(es, g)
			if ok {
				bad, _ := (&Q{W: w, NoEnter: only(es), Cut: says(global, isNil, token.NEQ), Goal: func(i ssa.Instruction) bool { return i == in }}).Entry(ex)
				ok = !bad
			}
			x.check("known/kept", w.ipos(in), ok, "known states are forgotten without a trace", nil)
		})
	}
}

// paths: what no-graph mode keeps of the way to a state is a trace.
func (x *guided) paths() {
	w := x.w
	n := 0
	for _, c := range w.callSites("modelchecker.Processor.extendPath") {
		f := c.Parent()
		in := c.(ssa.Instruction)
		args := c.Common().Args
		n++
		key := "path/" + shortFn(f)
		fns := x.helpers(f)
		ls := w.leavesIn(args[2], fns)
		if len(ls) != 1 {
			x.check(key+"/node", w.ipos(in), false, "the state that gets the name is unknown", nil)
			continue
		}
		mk, ok := ls[0].(*ssa.Call)
		if !ok {
			x.check(key+"/node", w.ipos(in), false, "the state that gets the name is unknown", nil)
			continue
		}
		if nm := w.leavesIn(args[3], fns); len(nm) == 1 && x.nameOfLink(nm[0], mk, fns) {
			ps, from := w.leavesIn(args[1], fns), w.leavesIn(mk.Call.Args[0], fns)
			x.check(key+"/parent", w.ipos(in), sameLeaves(ps, from), "the name is added to the way of another state", nil)
			continue
		}
		switch calleeName(mk) {
		case "modelchecker.Node.ForkForAlternatePaths":
			a, b := mk.Call.Args[2], args[3]
			ok := a == b || sameLeaves(w.leavesIn(a, fns), w.leavesIn(b, fns)) || w.render(a) == w.render(b)
			x.check(key+"/name", w.ipos(in), ok, "the name that is kept is not the one of the link", nil)
		case "modelchecker.Node.ForkForAction":
			role, action := mk.Call.Args[2], mk.Call.Args[3]
			x.actionName(key, in, args[3], role, action, f, fns)
		default:
			x.check(key+"/node", w.ipos(in), false, "the state that gets the name is unknown", nil)
		}
		ps := w.leavesIn(args[1], fns)
		from := w.leavesIn(mk.Call.Args[0], fns)
		x.check(key+"/parent", w.ipos(in), sameLeaves(ps, from), "the name is added to the way of another state", nil)
	}
	x.r.Floor("names of links that are kept", n, 4)
	if f := x.fn("modelchecker.Node.ForkForAction"); f != nil {
		fns := x.helpers(f)
		for _, g := range fns {
			for _, st := range w.fieldStores("Link", "Name", g) {
				x.actionName("path/link", st, st.Val, f.Params[2], f.Params[3], f, fns)
			}
		}
	}
	for _, c := range w.callSites("modelchecker.Processor.inheritPath") {
		f := c.Parent()
		in := c.(ssa.Instruction)
		ok := false
		for _, l := range x.givers(c.Common().Args[2], x.helpers(f), 0) {
			mk, is := l.(*ssa.Call)
			ok = is && calleeName(mk) == "modelchecker.Node.ForkForAlternatePaths" && x.threadName(mk.Call.Args[2])
			if !ok {
				break
			}
		}
		x.check("path/thread", w.ipos(in), ok, "a link is not kept though it is not the continuation of a thread", nil)
	}
	noGraph := x.field("Processor", "experimentalNoGraph")
	off := func(e Edge) bool { return noGraph(e.Cond) && !e.Taken }
	if f := x.fn("modelchecker.Processor.extendPath"); f != nil {
		named := func(in ssa.Instruction) bool {
			st, b := fieldStore(in, "Node", "pathTail")
			if st == nil || b != ssa.Value(f.Params[2]) {
				return false
			}
			return allOf(phiLeaves(st.Val), func(v ssa.Value) bool {
				al, ok := v.(*ssa.Alloc)
				if !ok {
					return false
				}
				name := false
				for _, st := range w.fieldStores("pathNode", "name", f) {
					if st.Addr.(*ssa.FieldAddr).X == ssa.Value(al) {
						name = st.Val == ssa.Value(f.Params[3])
					}
				}
				return name
			})
		}
		bad, tr := (&Q{W: w, NoEnter: only([]*ssa.Function{f}), Cut: off, Through: named, Goal: isReturnOf(f)}).Entry(f)
		x.check("path/extend/name", w.Pos(f.Pos()), !bad, "the name of a link is not kept", tr)
		tail := func(in ssa.Instruction) bool {
			st, _ := fieldStore(in, "pathNode", "parent")
			return st != nil && x.field("Node", "pathTail")(st.Val)
		}
		isPar := func(v ssa.Value) bool { return v == ssa.Value(f.Params[1]) }
		bad, tr = (&Q{W: w, NoEnter: only([]*ssa.Function{f}), Cut: anyCut(off, says(isPar, isNil, token.EQL)), Through: tail, Goal: isReturnOf(f)}).Entry(f)
		x.check("path/extend/tail", w.Pos(f.Pos()), !bad, "the way to the parent is lost", tr)
	}
	if f := x.fn("modelchecker.Processor.inheritPath"); f != nil {
		isPar := func(v ssa.Value) bool { return v == ssa.Value(f.Params[1]) }
		taken := func(in ssa.Instruction) bool {
			st, b := fieldStore(in, "Node", "pathTail")
			return st != nil && b == ssa.Value(f.Params[2]) && x.field("Node", "pathTail")(st.Val)
		}
		bad, tr := (&Q{W: w, NoEnter: only([]*ssa.Function{f}), Cut: anyCut(off, says(isPar, isNil, token.EQL)), Through: taken, Goal: isReturnOf(f)}).Entry(f)
		x.check("path/inherit", w.Pos(f.Pos()), !bad, "the way to the parent is lost", tr)
	}
	// the replay has the trace and the hook
	f := x.fn("main.replayTraceWithFullState")
	if f == nil {
		return
	}
	fns := x.own(f)
	start := isCall("exec.Command")
	for flag, g := range map[string]string{"--preinit-hook-file": "preinitHookFile", "--preinit-hook": "preinitHook"} {
		flag, g := flag, g
		added := func(in ssa.Instruction) bool {
			c, ok := in.(*ssa.Call)
			if !ok || calleeName(c) != "builtin.append" || len(c.Call.Args) != 2 {
				return false
			}
			es := sliceElems2(c.Call.Args[1])
			for i := 0; i+1 < len(es); i++ {
				if isConstString(flag)(es[i]) && x.through(fns, isGlobal(g))(es[i+1]) {
					return true
				}
			}
			return false
		}
		bad, tr := (&Q{W: w, NoEnter: only(fns), Cut: x.setString(fns, isGlobal(g), false), Through: added, Goal: start}).Entry(f)
		x.check("path/replay/"+flag, w.Pos(f.Pos()), !bad, "the path is replayed without the hook", tr)
	}
}

// nameOfLink: the name of the link by which the new state was reached.
func (x *guided) nameOfLink(v ssa.Value, mk *ssa.Call, fns []*ssa.Function) bool {
	if !x.firstLinkName(v) {
		return false
	}
	for i := 0; i < 8; i++ {
		if l := x.w.leavesIn(v, fns); len(l) == 1 {
			v = l[0]
		}
		switch y := v.(type) {
		case *ssa.UnOp:
			v = y.X
		case *ssa.FieldAddr:
			v = y.X
		case *ssa.IndexAddr:
			v = y.X
		case *ssa.Call:
			if y == mk {
				return true
			}
			if len(y.Call.Args) == 0 {
				return false
			}
			v = y.Call.Args[0]
		default:
			return false
		}
	}
	return false
}

// givers: where the value comes from, also through a helper that several functions share.
func (x *guided) givers(v ssa.Value, fns []*ssa.Function, d int) []ssa.Value {
	var out []ssa.Value
	for _, l := range x.w.leavesIn(v, fns) {
		p, ok := l.(*ssa.Parameter)
		if !ok || d > 3 {
			out = append(out, l)
			continue
		}
		g := p.Parent()
		for _, c := range x.w.callSites(fname(g)) {
			for i, q := range g.Params {
				if q == p && i < len(c.Common().Args) {
					out = append(out, x.givers(c.Common().Args[i], x.helpers(c.Parent()), d+1)...)
				}
			}
		}
	}
	return out
}

// threadName: the name of the continuation of a thread.
func (x *guided) threadName(v ssa.Value) bool {
	return x.w.mentionsConst(v, "thread-%d", 0) || x.w.mentionsConst(v, "thread-", 0)
}

// actionName: the name of an action, with its role if it has one.
func (x *guided) actionName(key string, in ssa.Instruction, v, role, action ssa.Value, f *ssa.Function, fns []*ssa.Function) {
	w := x.w
	isAction := func(v ssa.Value) bool {
		if c, ok := v.(*ssa.Call); ok {
			return len(c.Call.Args) == 1 && calleeBase(c) != "" && x.field("Action", "Name")(v) && c.Call.Args[0] == action
		}
		u, ok := v.(*ssa.UnOp)
		if !ok || !x.field("Action", "Name")(v) {
			return false
		}
		return u.X.(*ssa.FieldAddr).X == action
	}
	isRole := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Call)
		return ok && calleeName(c) == "lib.Role.RefStringShort" && c.Call.Args[0] == role
	}
	isFull := func(v ssa.Value) bool {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.ADD {
			return false
		}
		if c, ok := b.X.(*ssa.BinOp); ok && c.Op == token.ADD {
			return isRole(c.X) && isConstString(".")(c.Y) && isAction(b.Y)
		}
		c, ok := b.Y.(*ssa.BinOp)
		return ok && c.Op == token.ADD && isRole(b.X) && isConstString(".")(c.X) && isAction(c.Y)
	}
	leaves := func(v ssa.Value) []ssa.Value {
		if _, ok := v.(*ssa.Phi); ok {
			return phiLeaves(v)
		}
		return []ssa.Value{v}
	}
	if isNilConst(role) {
		x.check(key+"/name", w.ipos(in), allOf(leaves(v), isAction), "the name is not the one of the action", nil)
		return
	}
	isR := func(v ssa.Value) bool { return v == role }
	for k, cs := range map[string]struct {
		cut func(Edge) bool
		ok  func(ssa.Value) bool
	}{"plain": {says(isR, isNil, token.NEQ), isAction}, "role": {says(isR, isNil, token.EQL), isFull}} {
		cs := cs
		bad, tr := (&Q{W: w, NoEnter: func(*ssa.Function) bool { return true }, Cut: cs.cut, Track: func(p *ssa.Phi) bool { return types.Identical(p.Type(), types.Typ[types.String]) }, GoalEnv: func(i ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
			return i == in && !cs.ok(resolved(res, v))
		}}).Entry(in.Parent())
		x.check(key+"/"+k, w.ipos(in), !bad, "the name is not the one of the action and its role", tr)
	}
}

// hook: what runs between the top-level statements and the search.
func (x *guided) hook() {
	w := x.w
	f, init := x.fn("modelchecker.processPreInit"), x.fn("modelchecker.Processor.InitializeNode")
	if f == nil || init == nil || len(f.Params) != 3 {
		return
	}
	pos := w.Pos(f.Pos())
	fns := x.helpers(f)
	stay := only(fns)
	n := 0
	for _, c := range w.callSites("modelchecker.processPreInit") {
		n++
		x.check("hook/given", w.ipos(c.(ssa.Instruction)), x.field("Processor", "preinitHookContent")(c.Common().Args[2]), "the hook is not the one that was given", nil)
	}
	x.r.Floor("initializations", n, 1)
	content := func(v ssa.Value) bool { return v == ssa.Value(f.Params[2]) }
	runs := callsTo(fns, "modelchecker.Evaluator.ExecPyStmt")
	x.check("hook/found", pos, len(runs) == 1, "the hook does not run once", nil)
	if len(runs) != 1 {
		return
	}
	run := runs[0]
	isRun := func(in ssa.Instruction) bool { return in == ssa.Instruction(run) }
	stmts := isCall("modelchecker.Thread.executeStatement")
	// the variables that the specification gets
	var vars []ssa.Value
	for _, g := range fns {
		for _, st := range w.fieldStores("Heap", "globals", g) {
			vars = append(vars, w.leavesIn(st.Val, fns)...)
		}
	}
	isVars := func(v ssa.Value) bool {
		ls := w.leavesIn(v, fns)
		return len(vars) > 0 && allOf(ls, func(l ssa.Value) bool {
			for _, v := range vars {
				if v == l {
					return true
				}
			}
			return false
		})
	}
	dict := run.Call.Args[len(run.Call.Args)-1]
	isDict := func(v ssa.Value) bool { return sameLeaves(w.leavesIn(v, fns), w.leavesIn(dict, fns)) }
	frozen := func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		return ok && calleeBase(c) == "starlark.StringDict.Freeze" && isVars(c.Call.Args[0])
	}
	isStored := func(in ssa.Instruction) bool { st, _ := fieldStore(in, "Heap", "globals"); return st != nil }
	bad, tr := (&Q{W: w, NoEnter: stay, Cut: x.setString(fns, content, false), Through: isRun, Goal: anyOf(frozen, isStored, isReturnOf(f))}).Entry(f)
	x.check("hook/runs", pos, !bad, "the hook that is given does not run before the variables are frozen", tr)
	bad, tr = (&Q{W: w, NoEnter: stay, Goal: anyOf(stmts, isRun)}).After(run)
	if run.Parent() != f {
		for _, c := range callsTo(fns, fname(run.Parent())) {
			bad, tr = (&Q{W: w, NoEnter: stay, Goal: anyOf(stmts, isRun)}).After(c)
		}
	}
	x.check("hook/after", w.ipos(run), !bad, "statements run after the hook", tr)
	bad, tr = (&Q{W: w, NoEnter: stay, Through: frozen, Goal: realReturn(f)}).Entry(f)
	x.check("hook/frozen", pos, !bad, "the top-level variables stay changeable", tr)
	bad, tr = (&Q{W: w, NoEnter: stay, Through: isStored, Goal: realReturn(f)}).Entry(f)
	x.check("hook/stored", pos, !bad, "the top-level variables are lost", tr)
	bad, tr = (&Q{W: w, NoEnter: stay, Cut: x.errIs(fns, run, false), Through: exits, Goal: anyOf(isReturnOf(run.Parent()), frozen)}).After(run)
	if run.Parent() != f {
		bad, tr = x.errEnds(run, f, fns, anyOf(frozen, isStored), 0)
	}
	x.check("hook/error", w.ipos(run), !bad, "the search starts although the hook failed", tr)
	// what it runs and sees
	x.check("hook/code", w.ipos(run), x.codeIs(run, fns, content), "it is not the hook that runs", nil)
	isSrc := map[string]func(ssa.Value) bool{
		"variables": isVars,
		"builtins":  isGlobal("Builtins"),
		"modules":   x.field("Process", "Modules"),
	}
	for k, p := range isSrc {
		p := p
		copied := func(in ssa.Instruction) bool {
			switch c := in.(type) {
			case *ssa.Call:
				return calleeBase(c) == "maps.Copy" && isDict(c.Call.Args[0]) && x.anyLeaf(c.Call.Args[1], fns, p)
			case *ssa.Range:
				return x.anyLeaf(c.X, fns, p)
			}
			return false
		}
		bad, tr := (&Q{W: w, NoEnter: stay, Cut: x.setString(fns, content, false), Through: copied, Goal: isRun}).Entry(f)
		x.check("hook/sees/"+k, w.ipos(run), !bad, "the hook does not see the "+k, tr)
	}
	// what it changes
	names := x.field("Process", "topLevelVars")
	isTop := func(v ssa.Value) bool { // an element of the names
		for _, l := range w.leavesIn(v, fns) {
			li, _ := indexOf(l)
			if li == nil {
				if u, ok := l.(*ssa.UnOp); ok && u.Op == token.MUL {
					if ia, ok := u.X.(*ssa.IndexAddr); ok {
						li = ia.X
					}
				}
			}
			if li == nil || !x.anyLeaf(li, fns, names) {
				return false
			}
		}
		return true
	}
	back := false
	for _, g := range fns {
		instrs(g, func(in ssa.Instruction) {
			switch u := in.(type) {
			case *ssa.MapUpdate:
				if !isVars(u.Map) || isDict(u.Map) {
					return
				}
				ok := isTop(u.Key)
				if !ok {
					in2 := in
					bad, _ := (&Q{W: w, NoEnter: stay, Cut: func(e Edge) bool {
						c, is := e.Cond.(*ssa.Call)
						return is && e.Taken && calleeBase(c) == "slices.Contains" && x.anyLeaf(c.Call.Args[0], fns, names) && c.Call.Args[1] == u.Key
					}, Goal: func(i ssa.Instruction) bool { return i == in2 }}).Entry(f)
					ok = !bad
				}
				x.check("hook/top", w.ipos(in), ok, "a variable that is not of the top level becomes one", nil)
				if v := lookupIn(u.Value); v != nil && isDict(v.X) {
					ok := v.Index == u.Key || w.render(v.Index) == w.render(u.Key)
					x.check("hook/value", w.ipos(in), ok, "a variable gets the value of another one", nil)
					back = back || ok
				}
			case *ssa.Call:
				if calleeBase(u) == "maps.Copy" && isVars(u.Call.Args[0]) && !isDict(u.Call.Args[0]) {
					x.check("hook/top", w.ipos(in), false, "all variables of the hook become variables of the top level", nil)
				}
			}
		})
	}
	// the copying goes over all names, for all that have a value
	full := false
	for _, g := range fns {
		for _, l := range w.loopsOf(g) {
			l := l
			upd := func(in ssa.Instruction) bool {
				u, ok := in.(*ssa.MapUpdate)
				if !ok || !isVars(u.Map) {
					return false
				}
				v := lookupIn(u.Value)
				return v != nil && isDict(v.X)
			}
			has := false
			for b := range l.Body {
				for _, in := range b.Instrs {
					has = has || upd(in)
				}
			}
			if !has {
				continue
			}
			missing := func(e Edge) bool { // the hook has removed it
				ex, ok := e.Cond.(*ssa.Extract)
				if !ok || ex.Index != 1 || e.Taken {
					return false
				}
				lk, ok := ex.Tuple.(*ssa.Lookup)
				return ok && isDict(lk.X)
			}
			skips, _ := w.iterationSkips(l, upd, missing)
			leaves, _ := w.leavesEarly(l, nil)
			full = !skips && !leaves
		}
	}
	x.check("hook/back", w.ipos(run), back && full, "what the hook changes can be lost", nil)
	for _, g := range fns {
		instrs(g, func(in ssa.Instruction) {
			if frozen(in) {
				bad, tr := (&Q{W: w, NoEnter: stay, Goal: func(i ssa.Instruction) bool { u, ok := i.(*ssa.MapUpdate); return ok && isVars(u.Map) }}).After(in)
				x.check("hook/final", w.ipos(in), !bad, "a variable changes after the freezing", tr)
			}
		})
	}
}

// lookupIn: the lookup whose value it is.
func lookupIn(v ssa.Value) *ssa.Lookup {
	if ex, ok := v.(*ssa.Extract); ok && ex.Index == 0 {
		v = ex.Tuple
	}
	l, _ := v.(*ssa.Lookup)
	return l
}

func (x *guided) anyLeaf(v ssa.Value, fns []*ssa.Function, p func(ssa.Value) bool) bool {
	if p(v) {
		return true
	}
	for _, l := range x.w.leavesIn(v, fns) {
		if p(l) {
			return true
		}
	}
	return false
}

// codeIs: the statement that runs has the code.
func (x *guided) codeIs(run *ssa.Call, fns []*ssa.Function, content func(ssa.Value) bool) bool {
	for _, a := range run.Call.Args {
		for _, l := range x.w.leavesIn(a, fns) {
			if namedName(l.Type()) != "PyStmt" {
				continue
			}
			for _, g := range fns {
				for _, st := range x.w.fieldStores("PyStmt", "Code", g) {
					if st.Addr.(*ssa.FieldAddr).X == l && allOf(x.w.leavesIn(st.Val, fns), content) {
						return true
					}
				}
			}
		}
	}
	return false
}
