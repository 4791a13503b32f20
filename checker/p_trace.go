package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("S19", ruleS19) }

// guided: runs that follow a trace, and what a hook may change.
type guided struct {
	*conf
}

func ruleS19(c *Ctx, r *Rep) {
	r.Rule("every line of a trace that is neither blank nor a comment is one link of it, in order; a trace that is empty, cannot be read or comes with a simulation ends the run")
	r.Rule("for each kind of state (initial, continued thread, next link, other link, end of the trace, extension) the decision whether it is explored is the one of the trace, and only the next link advances it")
	r.Rule("each state has its own position, inherited from its parent; no state is scheduled without the decision, and none is asked for twice; known states do not end a trace")
	r.Rule("the path that is kept without a graph consists of the names of the links, and is replayed with the same hook")
	r.Rule("a hook runs after the top-level statements and before they are frozen, and what it changes is copied back for top-level variables only")
	x := &guided{&conf{&graphs{c.World, r}}}
	x.parse()
	x.given()
	x.positions()
	x.decisions()
	x.guards()
	x.progress()
	x.paths()
	x.hook()
}

// helpers: the function with those that only it uses, other than the named ones.
func (x *guided) helpers(f *ssa.Function, but ...string) []*ssa.Function {
	var out []*ssa.Function
	for _, g := range x.w.group(f) {
		ok := g == f || packageOf(g) == packageOf(f)
		for _, b := range but {
			ok = ok && (g == f || fname(g) != b)
		}
		if ok {
			out = append(out, g)
		}
	}
	return out
}

func only(fns []*ssa.Function) func(*ssa.Function) bool {
	return func(g *ssa.Function) bool { return !memberOf(fns, g) }
}

func tracked(*ssa.Phi) bool { return true }

// nilError: a return of the function that reports no error.
func nilError(f *ssa.Function) func(ssa.Instruction, func(ssa.Value) ssa.Value) bool {
	return func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
		rt, ok := in.(*ssa.Return)
		if !ok || rt.Parent() != f || in.Block() == f.Recover {
			return false
		}
		for i := range rt.Results {
			if v := retVal(rt, i); isErrType(v.Type()) {
				return isNil(resolved(res, v))
			}
		}
		return true
	}
}

func (x *guided) parse() {
	w := x.w
	f := x.fn("modelchecker.parseTrace")
	if f == nil {
		return
	}
	pos := w.Pos(f.Pos())
	fns := x.helpers(f)
	scans, errs := callsTo(fns, "bufio.Scanner.Scan"), callsTo(fns, "bufio.Scanner.Err")
	isText := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Call)
		return ok && (calleeName(c) == "bufio.Scanner.Text")
	}
	isLine := x.through(fns, func(v ssa.Value) bool {
		return allOf(w.leavesIn(v, fns), func(v ssa.Value) bool {
			c, ok := v.(*ssa.Call)
			return ok && calleeName(c) == "strings.TrimSpace" && allOf(w.leavesIn(c.Call.Args[0], fns), isText)
		})
	})
	isAdd := func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		if !ok || calleeName(c) != "builtin.append" || len(c.Call.Args) != 2 {
			return false
		}
		es := sliceElems2(c.Call.Args[1])
		return len(es) == 1 && isLine(es[0])
	}
	x.check("parse/found", pos, len(scans) == 1, "not one loop over the lines", nil)
	if len(scans) != 1 {
		return
	}
	scan := scans[0]
	isScan := func(in ssa.Instruction) bool { return in == ssa.Instruction(scan) }
	stopped := func(e Edge) bool { return e.Cond == ssa.Value(scan) && !e.Taken }
	blank := func(want bool) func(Edge) bool {
		op := token.EQL
		ops := []token.Token{token.EQL, token.LEQ}
		if !want {
			op, ops = token.NEQ, []token.Token{token.NEQ, token.GTR}
		}
		return anyCut(says(isLine, isEmptyString, op), says(lenOf(isLine), isZero, ops...))
	}
	comment := func(want bool) func(Edge) bool {
		return func(e Edge) bool {
			c, ok := e.Cond.(*ssa.Call)
			return ok && calleeName(c) == "strings.HasPrefix" && isLine(c.Call.Args[0]) && isConstString("#")(c.Call.Args[1]) && e.Taken == want
		}
	}
	stay := only(fns)
	bad, tr := (&Q{W: w, NoEnter: stay, Cut: anyCut(stopped, blank(true), comment(true)), Through: isAdd, Goal: anyOf(isScan, isReturnOf(f))}).After(scan)
	x.check("parse/every", w.ipos(scan), !bad, "a line can be left out of the trace", tr)
	bad, tr = (&Q{W: w, NoEnter: stay, Cut: anyCut(stopped, blank(false)), Through: isScan, Goal: isAdd}).After(scan)
	x.check("parse/blank", w.ipos(scan), !bad, "a blank line becomes a link", tr)
	bad, tr = (&Q{W: w, NoEnter: stay, Cut: anyCut(stopped, comment(false)), Through: isScan, Goal: isAdd}).After(scan)
	x.check("parse/comment", w.ipos(scan), !bad, "a comment becomes a link", tr)
	bad, tr = (&Q{W: w, NoEnter: stay, Cut: stopped, Through: isScan, Track: tracked, GoalEnv: nilError(scan.Parent())}).After(scan)
	x.check("parse/all", w.ipos(scan), !bad, "the lines behind some line are left out of the trace", tr)
	for _, g := range fns {
		instrs(g, func(in ssa.Instruction) {
			if c, ok := in.(*ssa.Call); ok && calleeName(c) == "builtin.append" && types.Identical(c.Type(), types.NewSlice(types.Typ[types.String])) {
				x.check("parse/line", w.ipos(in), isAdd(in), "what becomes a link is not the line without its surrounding blanks", nil)
			}
		})
	}
	x.check("parse/errors", pos, len(errs) == 1, "an error in reading is not asked for", nil)
	if len(errs) == 1 {
		bad, tr = (&Q{W: w, NoEnter: stay, Cut: x.errIs(fns, errs[0], false), Track: tracked, GoalEnv: nilError(f)}).Entry(f)
		x.check("parse/error", pos, !bad, "a trace that cannot be read is used", tr)
	}
	isList := func(v ssa.Value) bool { return types.Identical(v.Type(), types.NewSlice(types.Typ[types.String])) }
	bad, tr = (&Q{W: w, NoEnter: stay, Cut: says(lenOf(isList), isZero, token.NEQ, token.GTR), Track: tracked, GoalEnv: nilError(f)}).Entry(f)
	x.check("parse/empty", pos, !bad, "a trace without links is used", tr)
	// what is handed out is what was collected
	isColl := func(v ssa.Value) bool {
		if in, ok := v.(ssa.Instruction); ok && isAdd(in) {
			return true
		}
		if c, ok := v.(*ssa.Const); ok {
			return c.Value == nil
		}
		_, mk := v.(*ssa.MakeSlice)
		al, isAl := v.(*ssa.Slice)
		return mk || isAl && strings.HasPrefix(w.render(al), "make")
	}
	instrs(f, func(in ssa.Instruction) {
		if rt, ok := in.(*ssa.Return); ok && len(rt.Results) == 2 && isNil(retVal(rt, 1)) {
			x.check("parse/result", w.ipos(rt), allOf(w.leavesIn(retVal(rt, 0), fns), isColl), "what is handed out is not the list of the lines", nil)
		}
	})
	// files and texts
	for _, n := range []string{"ParseTraceFile", "ParseTraceString"} {
		g := x.fn("modelchecker." + n)
		if g == nil {
			continue
		}
		gs := x.helpers(g, "modelchecker.parseTrace")
		ps := callsTo(gs, "modelchecker.parseTrace")
		x.check("parse/"+n+"/once", w.Pos(g.Pos()), len(ps) == 1, "the trace is not parsed once", nil)
		if len(ps) != 1 {
			continue
		}
		p := ps[0]
		sl := w.slice(p.Call.Args[0])
		x.check("parse/"+n+"/source", w.ipos(p), sl.Params[g.Params[0]], "what is parsed is not what is given", nil)
		bad, tr := x.errGoesOn2(p, g, gs)
		x.check("parse/"+n+"/error", w.ipos(p), !bad, "a trace that cannot be read is used", tr)
		if n == "ParseTraceFile" {
			for _, o := range append(callsTo(gs, "os.Open"), callsTo(gs, "os.ReadFile")...) {
				bad, tr := x.errGoesOn2(o, g, gs)
				x.check("parse/"+n+"/open", w.ipos(o), !bad, "a file that cannot be opened is used", tr)
			}
		}
		isRes := func(v ssa.Value) bool { ex, ok := v.(*ssa.Extract); return ok && ex.Tuple == p && ex.Index == 0 }
		stored := func(in ssa.Instruction) bool {
			st, _ := fieldStore(in, "GuidedTrace", "LinkNames")
			return st != nil && allOf(w.leavesIn(st.Val, gs), isRes)
		}
		bad, tr = (&Q{W: w, NoEnter: only(gs), Cut: x.errIs(gs, p, true), Through: stored, GoalEnv: nilError(g), Track: tracked}).After(p)
		x.check("parse/"+n+"/kept", w.ipos(p), !bad, "the trace does not have the links that were read", tr)
	}
}

// errGoesOn2: the function can report success after the call has failed.
func (x *guided) errGoesOn2(c *ssa.Call, f *ssa.Function, fns []*ssa.Function) (bool, []string) {
	return (&Q{W: x.w, NoEnter: only(fns), Cut: x.errIs(fns, c, false), Track: tracked, GoalEnv: nilError(c.Parent())}).After(c)
}

// given: the trace and the hook that the search gets.
func (x *guided) given() {
	w := x.w
	f := x.fn("main.modelCheckSingleSpec")
	if f == nil {
		return
	}
	fns := x.own(f)
	stay := only(fns)
	pos := w.Pos(f.Pos())
	isNew := func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		return ok && (calleeName(c) == "modelchecker.NewProcessor" || calleeName(c) == "modelchecker.NewProcessorWithVisitedTracking")
	}
	file, text, ext := isGlobal("traceFile"), isGlobal("trace"), isGlobal("traceExtend")
	hfile, htext := isGlobal("preinitHookFile"), isGlobal("preinitHook")
	unextended := says(x.through(fns, ext), isZero, token.EQL, token.LEQ)
	extended := anyCut(says(x.through(fns, ext), isZero, token.NEQ, token.GTR))
	resultOf := func(name string, arg func(ssa.Value) bool) func(ssa.Value) bool {
		return func(v ssa.Value) bool {
			ex, ok := v.(*ssa.Extract)
			if !ok || ex.Index != 0 {
				return false
			}
			c, ok := ex.Tuple.(*ssa.Call)
			return ok && calleeName(c) == name && arg(c.Call.Args[0])
		}
	}
	isNone := func(v ssa.Value) bool {
		al, ok := v.(*ssa.Alloc)
		if !ok || namedName(al.Type()) != "GuidedTrace" {
			return false
		}
		for _, g := range fns {
			for _, st := range w.fieldStores("GuidedTrace", "LinkNames", g) {
				if fa := st.Addr.(*ssa.FieldAddr); fa.X == ssa.Value(al) {
					return false
				}
			}
		}
		return true
	}
	fileTrace, textTrace := resultOf("modelchecker.ParseTraceFile", file), resultOf("modelchecker.ParseTraceString", text)
	isText := func(v ssa.Value) bool {
		v = peelConv(v)
		if c, ok := v.(*ssa.Convert); ok {
			v = c.X
		}
		return resultOf("os.ReadFile", hfile)(v)
	}
	for _, cs := range []struct {
		key string
		arg int
		cut func(Edge) bool
		ok  func(ssa.Value) bool
		why string
	}{
		{"file", 8, x.setString(fns, file, false), fileTrace, "the trace of the file is not followed"},
		{"text", 8, anyCut(x.setString(fns, text, false), x.setString(fns, file, true)), textTrace, "the given trace is not followed"},
		{"extend", 8, anyCut(unextended, x.setString(fns, text, true), x.setString(fns, file, true)), isNone, "an extension without a trace is not one of an empty trace"},
		{"none", 8, anyCut(extended, x.setString(fns, text, true), x.setString(fns, file, true)), isNil, "a run without a trace gets one"},
		{"hook/file", 9, x.setString(fns, hfile, false), isText, "the hook is not the whole file"},
		{"hook/text", 9, anyCut(x.setString(fns, htext, false), x.setString(fns, hfile, true)), htext, "the given hook is not used"},
		{"hook/none", 9, anyCut(x.setString(fns, htext, true), x.setString(fns, hfile, true)), func(v ssa.Value) bool { return isEmptyString(v) || htext(v) }, "a run without a hook gets one"},
	} {
		cs := cs
		bad, tr := (&Q{W: w, NoEnter: stay, Cut: cs.cut, Track: tracked, GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
			if !isNew(in) {
				return false
			}
			v := resolved(res, in.(*ssa.Call).Call.Args[cs.arg])
			if cs.ok(v) {
				return false
			}
			// a value that is set in several places, or by a helper
			ls := w.leavesIn(v, fns)
			if len(ls) == 1 {
				return !cs.ok(ls[0])
			}
			for _, l := range ls {
				if cs.ok(l) {
					return x.chosen(v, fns, cs.cut, cs.ok)
				}
			}
			return true
		}}).Entry(f)
		x.check("given/"+cs.key, pos, !bad, cs.why, tr)
	}
	// problems
	for _, n := range []string{"modelchecker.ParseTraceFile", "modelchecker.ParseTraceString", "os.ReadFile"} {
		for _, c := range callsTo(fns, n) {
			bad, tr := (&Q{W: w, NoEnter: stay, Cut: x.errIs(fns, c, false), Through: exits, Goal: isNew}).After(c)
			if c.Parent() != f {
				bad, tr = x.errEnds(c, f, fns, isNew, 0)
			}
			x.check("given/error/"+n, w.ipos(c), !bad, "the search starts although the trace or hook cannot be read", tr)
		}
	}
	sim := x.through(fns, isGlobal("simulation"))
	for k, cut := range map[string]func(Edge) bool{"file": x.setString(fns, file, false), "text": x.setString(fns, text, false), "extend": unextended} {
		bad, tr := (&Q{W: w, NoEnter: stay, Cut: anyCut(cut, func(e Edge) bool { return sim(e.Cond) && !e.Taken }), Through: exits, Goal: isNew}).Entry(f)
		x.check("given/simulation/"+k, pos, !bad, "a simulation runs with a trace", tr)
	}
	// the extension
	isTrace := func(v ssa.Value) bool { return namedName(v.Type()) == "GuidedTrace" }
	set := func(in ssa.Instruction) bool {
		st, _ := fieldStore(in, "GuidedTrace", "ExtendDepth")
		return st != nil && x.through(fns, ext)(st.Val)
	}
	bad, tr := (&Q{W: w, NoEnter: stay, Cut: anyCut(unextended, says(isTrace, isNil, token.EQL)), Through: set, Goal: isNew}).Entry(f)
	x.check("given/extension", pos, !bad, "a trace is not extended as far as asked for", tr)
}

// chosen: a helper's result is not the one that is wanted under the assumption.
func (x *guided) chosen(v ssa.Value, fns []*ssa.Function, cut func(Edge) bool, ok func(ssa.Value) bool) bool {
	c, i := v, 0
	if ex, is := v.(*ssa.Extract); is {
		c, i = ex.Tuple, ex.Index
	}
	cc, is := c.(*ssa.Call)
	if !is || cc.Call.StaticCallee() == nil || !memberOf(fns, cc.Call.StaticCallee()) {
		return true
	}
	h := cc.Call.StaticCallee()
	bad, _ := (&Q{W: x.w, NoEnter: only(fns), Cut: cut, Track: tracked, GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
		rt, is := in.(*ssa.Return)
		if !is || rt.Parent() != h || i >= len(rt.Results) {
			return false
		}
		for j := range rt.Results { // an answer that is not used
			if b, isB := constBool(resolved(res, retVal(rt, j))); isB && !b {
				return false
			}
			if e := retVal(rt, j); j != i && isErrType(e.Type()) && !isNil(resolved(res, e)) {
				return false
			}
		}
		return !ok(resolved(res, retVal(rt, i)))
	}}).Entry(h)
	return bad
}

// errEnds: the goal is reachable after the call failed in a helper.
func (x *guided) errEnds(c *ssa.Call, f *ssa.Function, fns []*ssa.Function, goal func(ssa.Instruction) bool, d int) (bool, []string) {
	w := x.w
	h := c.Parent()
	if h == f || d > 4 {
		return (&Q{W: w, NoEnter: only(fns), Cut: x.errIs(fns, c, false), Through: exits, Goal: goal}).After(c)
	}
	// the helper says that it failed: by an error or a false
	told := h.Signature.Results().Len() > 0
	bad, tr := (&Q{W: w, NoEnter: only(fns), Cut: x.errIs(fns, c, false), Through: exits, Track: tracked, GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
		rt, ok := in.(*ssa.Return)
		if !ok || rt.Parent() != h {
			return goal(in)
		}
		for i := range rt.Results {
			v := resolved(res, retVal(rt, i))
			if isErrType(v.Type()) && !isNil(v) {
				return false
			}
			if b, ok := constBool(v); ok && !b {
				return false
			}
		}
		return true
	}}).After(c)
	if bad || !told {
		return bad, tr
	}
	for _, cc := range callsTo(fns, fname(h)) {
		cc := cc
		yes := func(e Edge) bool { // the helper said that it succeeded
			ex, ok := e.Cond.(*ssa.Extract)
			return ok && ex.Tuple == ssa.Value(cc) && e.Taken || e.Cond == ssa.Value(cc) && e.Taken
		}
		if bad, tr := (&Q{W: w, NoEnter: only(fns), Cut: anyCut(yes, x.errIs(fns, cc, false)), Through: exits, Goal: goal}).After(cc); bad && cc.Parent() == f {
			return bad, tr
		}
	}
	return false, nil
}

// positions: who has a position in the trace, and who moves it.
func (x *guided) positions() {
	w := x.w
	fork, init := x.fn("modelchecker.Process.Fork"), x.fn("modelchecker.Processor.InitializeNode")
	should, pn, ms := x.fn("modelchecker.Processor.ShouldScheduleNode"), x.fn("modelchecker.Processor.processNode"), x.fn("main.modelCheckSingleSpec")
	if fork == nil || init == nil || should == nil || pn == nil || ms == nil {
		return
	}
	// a position of its own
	if st, ok := deref(fork.Params[0].Type()).Underlying().(*types.Struct); ok {
		own := false
		for i := 0; i < st.NumFields(); i++ {
			if namedName(st.Field(i).Type()) == "GuidedTrace" {
				_, own = st.Field(i).Type().Underlying().(*types.Struct)
			}
		}
		x.check("position/own", w.Pos(fork.Pos()), own, "the states share one position in the trace", nil)
	}
	copied := func(in ssa.Instruction) bool {
		st, _ := fieldStore(in, "Process", "guidedTrace")
		return st != nil && x.field("Process", "guidedTrace")(st.Val) && x.ofReceiver(st.Val, fork, 0)
	}
	bad, tr := (&Q{W: w, NoEnter: func(g *ssa.Function) bool { return packageOf(g) != packageOf(fork) || g == fork }, Through: copied, Goal: realReturn(fork)}).Entry(fork)
	x.check("position/inherited", w.Pos(fork.Pos()), !bad, "a successor does not start where its parent is in the trace", tr)
	global := x.field("Processor", "guidedTrace")
	hasTrace := func(in ssa.Instruction) bool {
		st, _ := fieldStore(in, "Process", "guidedTrace")
		if st == nil {
			return false
		}
		u, ok := st.Val.(*ssa.UnOp)
		return ok && u.Op == token.MUL && global(u.X)
	}
	bad, tr = (&Q{W: w, NoEnter: only(x.helpers(init)), Cut: says(global, isNil, token.EQL), Through: hasTrace, Goal: realReturn(init)}).Entry(init)
	x.check("position/initial", w.Pos(init.Pos()), !bad, "the initial state does not have the trace", tr)
	// writers
	allowed := map[string][]*ssa.Function{
		"LinkNames":     append(x.ownOf("modelchecker.ParseTraceFile"), x.ownOf("modelchecker.ParseTraceString")...),
		"ExtendDepth":   x.own(ms),
		"currentIndex":  append(x.ownOf("modelchecker.GuidedTrace.Advance"), x.helpers(pn)...),
		"extendedCount": x.helpers(should),
	}
	n := 0
	for _, g := range w.Funcs {
		instrs(g, func(in ssa.Instruction) {
			for fld, fns := range allowed {
				if st, _ := fieldStore(in, "GuidedTrace", fld); st != nil {
					n++
					x.check("position/writers/"+fld, w.ipos(in), memberOf(fns, g), fld+" of a trace is changed in "+shortFn(g), nil)
				}
			}
		})
	}
	x.r.Floor("writes to traces", n, 5)
	// what the accessors say
	idx, links := x.field("GuidedTrace", "currentIndex"), x.field("GuidedTrace", "LinkNames")
	atEnd := says(idx, lenOf(links), token.GEQ, token.EQL)
	before := says(idx, lenOf(links), token.LSS, token.NEQ)
	if g := x.fn("modelchecker.GuidedTrace.GetNextLinkName"); g != nil {
		isNext := func(v ssa.Value) bool { l, i := indexOf(v); return l != nil && links(l) && idx(peelConv(i)) }
		bad, tr := (&Q{W: w, Cut: anyCut(atEnd, x.exhausted(true)), GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
			rt, ok := in.(*ssa.Return)
			return ok && rt.Parent() == g && len(rt.Results) == 2 && !(isNext(resolved(res, retVal(rt, 0))) && isNil(resolved(res, retVal(rt, 1))))
		}, Track: tracked}).Entry(g)
		x.check("position/next", w.Pos(g.Pos()), !bad, "the next link is not the one at the position", tr)
		bad, tr = (&Q{W: w, Cut: anyCut(before, x.exhausted(false)), GoalEnv: nilError(g), Track: tracked}).Entry(g)
		x.check("position/over", w.Pos(g.Pos()), !bad, "there is a next link after the last one", tr)
	}
	if g := x.fn("modelchecker.GuidedTrace.IsExhausted"); g != nil {
		ok := false
		instrs(g, func(in ssa.Instruction) {
			if rt, is := in.(*ssa.Return); is {
				b, isB := retVal(rt, 0).(*ssa.BinOp)
				ok = isB && (b.Op == token.GEQ && idx(b.X) && lenOf(links)(b.Y) || b.Op == token.LEQ && idx(b.Y) && lenOf(links)(b.X))
			}
		})
		if !ok { // written as a choice
			ret := func(want bool, cut func(Edge) bool) bool {
				bad, _ := (&Q{W: w, Cut: cut, Track: tracked, GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
					rt, is := in.(*ssa.Return)
					if !is || rt.Parent() != g {
						return false
					}
					b, isC := constBool(resolved(res, retVal(rt, 0)))
					return !isC || b != want
				}}).Entry(g)
				return !bad
			}
			ok = ret(true, before) && ret(false, atEnd)
		}
		x.check("position/exhausted", w.Pos(g.Pos()), ok, "a trace is not exhausted exactly after its last link", nil)
	}
	if g := x.fn("modelchecker.GuidedTrace.Advance"); g != nil {
		step := func(in ssa.Instruction) bool {
			st, _ := fieldStore(in, "GuidedTrace", "currentIndex")
			return st != nil && isNextOf(st.Val, idx)
		}
		bad, tr := (&Q{W: w, Through: step, Goal: isReturnOf(g)}).Entry(g)
		for _, st := range w.fieldStores("GuidedTrace", "currentIndex", g) {
			bad = bad || !step(st)
			bad2, _ := (&Q{W: w, Goal: step}).After(st)
			bad = bad || bad2
		}
		x.check("position/advance", w.Pos(g.Pos()), !bad, "advancing does not pass one link", tr)
	}
}

func isNextOf(v ssa.Value, p func(ssa.Value) bool) bool {
	b, ok := v.(*ssa.BinOp)
	return ok && b.Op == token.ADD && (p(b.X) && isConstInt(1)(b.Y) || p(b.Y) && isConstInt(1)(b.X))
}

// ofReceiver: the field is one of the receiver, also through a helper that the function calls on it.
func (x *guided) ofReceiver(v ssa.Value, f *ssa.Function, d int) bool {
	for i := 0; i < 6; i++ {
		switch y := v.(type) {
		case *ssa.UnOp:
			v = y.X
		case *ssa.FieldAddr:
			v = y.X
		case *ssa.Parameter:
			g := y.Parent()
			if g == f {
				return y == f.Params[0]
			}
			for _, c := range calls(f, fname(g)) {
				for j, p := range g.Params {
					if p == y && j < len(c.Common().Args) && d < 3 {
						return x.ofReceiver(c.Common().Args[j], f, d+1)
					}
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

func (x *guided) ownOf(name string) []*ssa.Function {
	if f := x.fn(name); f != nil {
		return x.helpers(f)
	}
	return nil
}

// exhausted: the edge on which the trace is at its end, or not.
func (x *guided) exhausted(want bool) func(Edge) bool {
	idx, links := x.field("GuidedTrace", "currentIndex"), x.field("GuidedTrace", "LinkNames")
	rel := says(idx, lenOf(links), token.LSS, token.NEQ)
	if want {
		rel = says(idx, lenOf(links), token.GEQ, token.EQL)
	}
	isErr := func(v ssa.Value) bool {
		ex, ok := v.(*ssa.Extract)
		if !ok {
			return false
		}
		c, ok := ex.Tuple.(*ssa.Call)
		return ok && ex.Index == 1 && calleeName(c) == "modelchecker.GuidedTrace.GetNextLinkName"
	}
	op := token.EQL
	if want {
		op = token.NEQ
	}
	return anyCut(rel, says(isErr, isNil, op), func(e Edge) bool {
		c, ok := e.Cond.(*ssa.Call)
		return ok && calleeName(c) == "modelchecker.GuidedTrace.IsExhausted" && e.Taken == want
	})
}

// decisions: for every kind of state, whether it is explored.
func (x *guided) decisions() {
	w := x.w
	f := x.fn("modelchecker.Processor.ShouldScheduleNode")
	if f == nil {
		return
	}
	fns := x.helpers(f, "modelchecker.GuidedTrace.IsExhausted", "modelchecker.GuidedTrace.GetNextLinkName", "modelchecker.GuidedTrace.Advance", "modelchecker.GuidedTrace.GetCurrentIndex", "modelchecker.Process.IsYieldNode", "modelchecker.Node.IsYieldNode")
	stay := only(fns)
	pos := w.Pos(f.Pos())
	links, depth, count := x.field("GuidedTrace", "LinkNames"), x.field("GuidedTrace", "ExtendDepth"), x.field("GuidedTrace", "extendedCount")
	inbound := x.field("Node", "Inbound")
	linkZero, linkSome := says(lenOf(links), isZero, token.EQL, token.LEQ), says(lenOf(links), isZero, token.NEQ, token.GTR)
	extZero, extSome := says(depth, isZero, token.EQL, token.LEQ), says(depth, isZero, token.NEQ, token.GTR)
	rootless, rooted := says(lenOf(inbound), isZero, token.EQL, token.LEQ), says(lenOf(inbound), isZero, token.NEQ, token.GTR)
	isName := x.through(fns, func(v ssa.Value) bool { return allOf(w.leavesIn(v, fns), x.firstLinkName) })
	isThread := func(want bool) func(Edge) bool {
		return func(e Edge) bool {
			c, ok := e.Cond.(*ssa.Call)
			return ok && calleeName(c) == "strings.HasPrefix" && isName(c.Call.Args[0]) && isConstString("thread-")(c.Call.Args[1]) && e.Taken == want
		}
	}
	idx := x.field("GuidedTrace", "currentIndex")
	isNext := x.through(fns, func(v ssa.Value) bool {
		return allOf(w.leavesIn(v, fns), func(v ssa.Value) bool {
			if ex, ok := v.(*ssa.Extract); ok && ex.Index == 0 {
				c, ok := ex.Tuple.(*ssa.Call)
				return ok && calleeName(c) == "modelchecker.GuidedTrace.GetNextLinkName"
			}
			l, i := indexOf(v)
			return l != nil && links(l) && idx(peelConv(i))
		})
	})
	same, other := says(isName, isNext, token.EQL), says(isName, isNext, token.NEQ)
	spent, left := says(count, depth, token.GEQ), says(count, depth, token.LSS)
	yieldIs := func(want bool) func(Edge) bool {
		return func(e Edge) bool {
			c, ok := e.Cond.(*ssa.Call)
			return ok && strings.HasSuffix(calleeName(c), ".IsYieldNode") && e.Taken == want && x.parentOf(c.Call.Args[0])
		}
	}
	noParent := says(func(v ssa.Value) bool { n := namedName(v.Type()); return n == "Node" || n == "Process" }, isNil, token.EQL)
	advance := isCall("modelchecker.GuidedTrace.Advance")
	counted := func(in ssa.Instruction) bool {
		st, _ := fieldStore(in, "GuidedTrace", "extendedCount")
		return st != nil && isNextOf(st.Val, count)
	}
	not := func(want bool) func(ssa.Instruction, func(ssa.Value) ssa.Value) bool {
		return func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
			rt, ok := in.(*ssa.Return)
			if !ok || rt.Parent() != f || in.Block() == f.Recover {
				return false
			}
			b, isC := constBool(resolved(res, retVal(rt, 0)))
			return !isC || b != want
		}
	}
	end, mid := x.exhausted(true), x.exhausted(false)
	for _, cs := range []struct {
		key  string
		cut  func(Edge) bool
		want bool
		adv  int // 1: advances, -1: does not
		cnt  int
		why  string
	}{
		{"untraced", anyCut(linkSome, extSome), true, -1, 0, "a state is left out though there is no trace"},
		{"initial", anyCut(rooted), true, -1, -1, "the initial state is left out"},
		{"thread", anyCut(rootless, isThread(false)), true, -1, -1, "the continuation of a thread is left out, or counts as a link of the trace"},
		{"next", anyCut(rootless, linkZero, isThread(true), end, other), true, 1, -1, "a state whose link is the next one of the trace is left out, or the trace does not go on behind it"},
		{"other", anyCut(rootless, linkZero, isThread(true), end, same), false, -1, -1, "a state whose link is not the next one of the trace is explored, or moves the trace"},
		{"end", anyCut(rootless, linkZero, isThread(true), mid, extSome), false, -1, -1, "the search goes on after the last link of the trace"},
		{"extended", anyCut(rootless, isThread(true), mid, extZero, spent), true, -1, 1, "a state of the extension is left out, or does not count"},
		{"extended/over", anyCut(rootless, isThread(true), mid, extZero, left, yieldIs(false), noParent), false, -1, 0, "the search goes on after the end of the extension"},
		{"extended/between", anyCut(rootless, isThread(true), mid, extZero, left, yieldIs(true)), true, -1, 0, "the extension ends within an action"},
	} {
		bad, tr := (&Q{W: w, NoEnter: stay, Cut: cs.cut, Track: tracked, GoalEnv: not(cs.want)}).Entry(f)
		x.check("decide/"+cs.key, pos, !bad, cs.why, tr)
		for _, s := range []struct {
			n  int
			p  func(ssa.Instruction) bool
			id string
		}{{cs.adv, advance, "advance"}, {cs.cnt, counted, "count"}} {
			switch s.n {
			case 1:
				bad, tr = (&Q{W: w, NoEnter: stay, Cut: cs.cut, Track: tracked, Through: s.p, Goal: isReturnOf(f)}).Entry(f)
			case -1:
				bad, tr = (&Q{W: w, NoEnter: stay, Cut: cs.cut, Track: tracked, Goal: s.p}).Entry(f)
			default:
				continue
			}
			x.check("decide/"+cs.key+"/"+s.id, pos, !bad, cs.why, tr)
		}
	}
	for _, g := range fns {
		for _, c := range calls(g, "modelchecker.GuidedTrace.Advance") {
			bad, tr := (&Q{W: w, NoEnter: stay, Goal: advance}).After(c.(ssa.Instruction))
			x.check("decide/once", w.ipos(c.(ssa.Instruction)), !bad, "a state passes two links of the trace", tr)
			x.check("decide/own", w.ipos(c.(ssa.Instruction)), x.ofNode(c.Common().Args[0], f, fns), "it is not the position of the state that moves", nil)
		}
		for _, st := range w.fieldStores("GuidedTrace", "extendedCount", g) {
			fa := st.Addr.(*ssa.FieldAddr)
			x.check("decide/count/own", w.ipos(st), counted(st) && x.ofNode(fa.X, f, fns), "it is not the count of the state that grows by one", nil)
		}
	}
}

// firstLinkName: the name of the link by which a state was reached.
func (x *guided) firstLinkName(v ssa.Value) bool {
	if !x.field("Link", "Name")(v) {
		return false
	}
	var base ssa.Value
	switch v := v.(type) {
	case *ssa.UnOp:
		base = v.X.(*ssa.FieldAddr).X
	case *ssa.Call:
		base = v.Call.Args[0]
	}
	l, i := indexOf(base)
	return l != nil && x.field("Node", "Inbound")(l) && isZero(i)
}

// parentOf: the state, or its process, from which the link comes.
func (x *guided) parentOf(v ssa.Value) bool {
	for i := 0; i < 6; i++ {
		for _, p := range phiLeaves(v) {
			v = p
		}
		if as := x.w.leavesIn(v, []*ssa.Function{x.w.Func("modelchecker.Processor.ShouldScheduleNode")}); len(as) == 1 {
			v = as[0]
		}
		u, ok := v.(*ssa.UnOp)
		if !ok {
			return false
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		t, n := namedName(fa.X.Type()), fieldName(fa.X.Type(), fa.Field)
		if t == "Link" && n == "Node" {
			return true
		}
		if t != "Node" || n != "Process" {
			return false
		}
		v = fa.X
	}
	return false
}

// ofNode: an address within the state that is asked about.
func (x *guided) ofNode(v ssa.Value, f *ssa.Function, fns []*ssa.Function) bool {
	for i := 0; i < 8; i++ {
		if as := x.w.leavesIn(v, fns); len(as) == 1 {
			v = as[0]
		}
		switch y := v.(type) {
		case *ssa.FieldAddr:
			v = y.X
		case *ssa.UnOp:
			v = y.X
		case *ssa.Parameter:
			return y == f.Params[1]
		default:
			return false
		}
	}
	return false
}
