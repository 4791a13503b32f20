package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// linkKey: by what name and with which fairness a link counts.
func (x *live) linkKey(r *Rep) {
	w := x.w
	f := w.Func("modelchecker.fairnessLinkName")
	if f == nil {
		r.Undecided("key", "", "fairnessLinkName not found")
		return
	}
	no := w.onlyHelpers(f)
	ret := func(i int, ok func(ssa.Value) bool) func(ssa.Instruction, func(ssa.Value) ssa.Value) bool {
		return func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
			rt, is := in.(*ssa.Return)
			return is && rt.Parent() == f && !ok(res(retVal(rt, i)))
		}
	}
	own := func(v ssa.Value) bool {
		u, ok := peelConv(v).(*ssa.UnOp)
		if !ok {
			return false
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		return ok && namedName(deref(fa.X.Type())) == "Link" && fieldName(fa.X.Type(), fa.Field) == "Fairness"
	}
	track := func(p *ssa.Phi) bool { return isFairLevel(p.Type()) || isString(p.Type()) }
	level := -1
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if isFairLevel(f.Signature.Results().At(i).Type()) {
			level = i
		}
	}
	if level < 0 {
		r.Undecided("key", w.Pos(f.Pos()), "the function that names a link gives no fairness")
		return
	}
	q := func(key, why string, goal func(ssa.Instruction, func(ssa.Value) ssa.Value) bool, cut func(Edge) bool) {
		bad, tr := (&Q{W: w, GoalEnv: goal, Cut: cut, NoEnter: no, Track: track}).Entry(f)
		x.check(r, key, w.Pos(f.Pos()), !bad, why, tr)
	}
	q("key/action/level", "the link of an action does not count with its own fairness", ret(level, own), anyCut(x.prefixed("Any:", true), x.prefixed("thread-", true)))
	for _, p := range []string{"Any:", "thread-"} {
		q("key/"+p+"/level", "the "+p+" links, by which an action goes on, do not count as strongly fair", ret(level, isConstInt(3)), x.prefixed(p, false))
		w.must(r, step{Key: "key/" + p + "/where", Why: "the options of different statements count as the same", Fn: f, Cut: x.prefixed(p, false), NoEnter: no,
			Through: w.callTo(`.*Thread\.currentPc`), Goal: isReturnOf(f)})
		q("key/"+p+"/where-used", "the options of different statements count as the same", ret(0, func(v ssa.Value) bool {
			return strings.Contains(w.render(v), "currentPc") || x.mentions(v, "currentPc", 0)
		}), x.prefixed(p, false))
	}
	for _, p := range []string{"Any:", "thread-"} {
		q("key/"+p+"/owner", "the options of different roles count as the same", ret(0, func(v ssa.Value) bool {
			return x.parts(v, func(p ssa.Value) bool {
				c, ok := p.(*ssa.Call)
				return ok && len(callArgs(c)) > 0 && strings.HasSuffix(w.plain(callArgs(c)[0]), ".obj")
			}, 0)
		}), anyCut(x.prefixed(p, false), w.cutRel(`.*\.obj$`, "==", "^nil$")))
	}
	q("key/name", "the name by which a link counts is not made from its name", ret(0, func(v ssa.Value) bool { return x.mentionsName(v, 0) }), func(Edge) bool { return false })
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// mentions: a composed string has the result of the call among its parts on every way.
func (x *live) mentions(v ssa.Value, call string, d int) bool {
	return x.parts(v, func(p ssa.Value) bool {
		c, ok := p.(*ssa.Call)
		return ok && strings.HasSuffix(calleeName(c), call)
	}, d)
}

func (x *live) mentionsName(v ssa.Value, d int) bool {
	return x.parts(v, isLinkName, d)
}

func (x *live) parts(v ssa.Value, ok func(ssa.Value) bool, d int) bool {
	v = peelMI(peelConv(v))
	if ok(v) {
		return true
	}
	if d > 12 {
		return false
	}
	switch y := v.(type) {
	case *ssa.BinOp:
		return y.Op == token.ADD && (x.parts(y.X, ok, d+1) || x.parts(y.Y, ok, d+1))
	case *ssa.Phi:
		for _, e := range y.Edges {
			if !x.parts(e, ok, d+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		for _, a := range y.Call.Args {
			if sl, is := a.(*ssa.Slice); is {
				for _, e := range sliceElems(sl) {
					if x.parts(e, ok, d+1) {
						return true
					}
				}
			}
			if isString(a.Type()) && x.parts(a, ok, d+1) {
				return true
			}
		}
		if f := y.Call.StaticCallee(); f != nil && x.w.owns(f) && len(f.Blocks) > 0 {
			all, n := true, 0
			instrs(f, func(in ssa.Instruction) {
				if rt, is := in.(*ssa.Return); is && len(rt.Results) == 1 {
					n++
					all = all && x.parts(retVal(rt, 0), ok, d+1)
				}
			})
			return all && n > 0
		}
	}
	return false
}

// sigCall: a call of a function value of the given result types.
func sigCall(in ssa.Instruction, results ...string) *ssa.Call {
	c, ok := in.(*ssa.Call)
	if !ok || c.Call.StaticCallee() != nil || c.Call.IsInvoke() {
		return nil
	}
	sig, ok := c.Call.Value.Type().Underlying().(*types.Signature)
	if !ok || sig.Results().Len() != len(results) {
		return nil
	}
	for i, t := range results {
		if shortType(sig.Results().At(i).Type()) != t {
			return nil
		}
	}
	return c
}

func judges(in ssa.Instruction) *ssa.Call {
	c := sigCall(in, "bool", "bool")
	if c == nil || len(c.Call.Args) != 1 || namedName(deref(c.Call.Args[0].Type())) != "Node" {
		return nil
	}
	return c
}

func callsBack(in ssa.Instruction) *ssa.Call {
	return sigCall(in, "bool", "*modelchecker.CycleCallbackResult")
}

// resultIs: edges that state that the k-th result of a call is want.
func resultIs(p func(ssa.Instruction) bool, k int, want bool) func(Edge) bool {
	return func(e Edge) bool {
		v, t := e.Cond, e.Taken
		for {
			u, ok := v.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			v, t = u.X, !t
		}
		if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
			if c, known := constBool(b.Y); known {
				v, t = b.X, t == (c == (b.Op == token.EQL))
			}
		}
		ex, ok := v.(*ssa.Extract)
		if !ok || ex.Index != k || t != want {
			return false
		}
		c, ok := ex.Tuple.(*ssa.Call)
		return ok && p(c)
	}
}

// resultsAre: the results of the call, as known from here on.
func resultsAre(c *ssa.Call, want ...bool) env {
	e := env{}
	for _, u := range *c.Referrers() {
		if ex, ok := u.(*ssa.Extract); ok && ex.Index < len(want) {
			e[ex] = ssa.NewConst(constant.MakeBool(want[ex.Index]), ex.Type())
		}
	}
	return e
}

// callback: the verdict on a closed path.
func (x *live) callback(r *Rep, name string, ae bool) {
	w := x.w
	kind := "eventually-always"
	if ae {
		kind = "always-eventually"
	}
	fn := w.Func(name)
	if fn == nil {
		r.Undecided(kind, "", name+" not found")
		return
	}
	var cb *ssa.Function
	for _, g := range w.withHelpers(fn) {
		instrs(g, func(in ssa.Instruction) {
			if c, ok := in.(*ssa.Call); ok && calleeName(c) == "modelchecker.CycleFinderFinal" {
				for _, a := range c.Call.Args {
					for _, l := range phiLeaves(a) {
						if ct, ok := l.(*ssa.ChangeType); ok {
							l = ct.X
						}
						switch y := l.(type) {
						case *ssa.MakeClosure:
							cb, _ = y.Fn.(*ssa.Function)
						case *ssa.Function:
							cb = y
						}
					}
				}
			}
		})
	}
	if cb == nil {
		r.Undecided(kind, w.Pos(fn.Pos()), "the function that judges the cycles is not found")
		return
	}
	fns := w.withHelpers(cb)
	no := outside(fns)
	isJudge := func(in ssa.Instruction) bool { return judges(in) != nil }
	isFair := isCall("modelchecker.isFairCycle")
	pos := w.Pos(cb.Pos())
	w.must(r, step{Key: kind + "/only-fair", Why: "a cycle that is not fair is a counterexample", Fn: cb, Cut: resultIs(isFair, 0, true), GoalEnv: mayReturn(cb, 0, false), NoEnter: no})
	noMerge := func(e Edge) bool {
		a, op, b, ok := relOf(e)
		if !ok {
			return false
		}
		if isConstInt(-1)(a) {
			a, b, op = b, a, mirrored[op]
		}
		return isConstInt(-1)(b) && op == token.EQL || isZero(b) && op == token.LSS
	}
	n := 0
	var jc []*ssa.Call
	var fc []*ssa.Call
	for _, g := range fns {
		instrs(g, func(in ssa.Instruction) {
			if c := judges(in); c != nil {
				jc = append(jc, c)
			}
			if isFair(in) {
				fc = append(fc, in.(*ssa.Call))
			}
		})
	}
	for _, c := range jc {
		n++
		// what decides
		if ae {
			bad, tr := (&Q{W: w, GoalEnv: mayReturn(cb, 0, false), With: resultsAre(c, true, true), NoEnter: no}).After(c)
			x.check(r, kind+"/good-state", w.ipos(c), !bad, "a cycle on which the assertion holds is a counterexample", tr)
			bad, tr = (&Q{W: w, GoalEnv: mayReturn(cb, 0, true), Cut: anyCut(resultIs(isJudge, 1, true), resultIs(isFair, 0, false), noMerge), NoEnter: no}).After(c)
			x.check(r, kind+"/bad-cycle", w.ipos(c), !bad, "a fair cycle on which the assertion holds nowhere is dismissed", tr)
			bad, tr = (&Q{W: w, GoalEnv: mayReturn(cb, 0, true), Cut: anyCut(resultIs(isJudge, 0, true), resultIs(isFair, 0, false), noMerge), NoEnter: no}).After(c)
			x.check(r, kind+"/between", w.ipos(c), !bad, "a state in the middle of an action saves the cycle", tr)
		} else {
			bad, tr := (&Q{W: w, GoalEnv: mayReturn(cb, 0, true), With: resultsAre(c, true, false), Cut: resultIs(isFair, 0, false), NoEnter: no}).After(c)
			x.check(r, kind+"/bad-state", w.ipos(c), !bad, "a fair cycle on which the assertion fails is dismissed", tr)
		}
	}
	r.Floor("judgements of the states of a cycle ("+kind+")", n, 1)
	if ae {
		w.must(r, step{Key: kind + "/fair-told", Why: "a fair cycle on which the assertion holds nowhere is dismissed", Fn: cb,
			Cut: anyCut(resultIs(isJudge, 1, true), resultIs(isFair, 0, false), noMerge), GoalEnv: mayReturn(cb, 0, true), NoEnter: no})
	} else {
		w.must(r, step{Key: kind + "/only-bad", Why: "a cycle on which the assertion fails nowhere is a counterexample", Fn: cb, Cut: resultIs(isJudge, 1, false), GoalEnv: mayReturn(cb, 0, false), NoEnter: no})
		w.must(r, step{Key: kind + "/only-relevant", Why: "a state in the middle of an action makes the cycle a counterexample", Fn: cb, Cut: resultIs(isJudge, 0, true), GoalEnv: mayReturn(cb, 0, false), NoEnter: no})
	}
	// which states: those after the first visit of the state in which the path closes
	closes := func(e Edge) bool {
		a, op, b, ok := relOf(e)
		return ok && op == token.EQL && x.lastNode(a, fns) != x.lastNode(b, fns) && (x.pathNode(a) && x.lastNode(b, fns) || x.pathNode(b) && x.lastNode(a, fns))
	}
	ls := w.natLoops(fns, isJudge)
	var judge, find *LoopInfo
	for _, l := range ls {
		if judge == nil || len(l.Body) < len(judge.Body) {
			judge = l
		}
	}
	for _, l := range w.natLoops(fns, func(in ssa.Instruction) bool {
		iff, ok := in.(*ssa.If)
		return ok && (closes(Edge{If: iff, Cond: iff.Cond, Taken: true}) || closes(Edge{If: iff, Cond: iff.Cond, Taken: false}))
	}) {
		if l != judge && (judge == nil || l.Head != judge.Head) && (find == nil || len(l.Body) < len(find.Body)) {
			find = l
		}
	}
	if judge == nil || find == nil {
		r.Undecided(kind+"/cycle", pos, "the states of the cycle are not found by comparing the states of the path with its last one")
		return
	}
	leave := anyCut(resultIs(isJudge, 1, true), resultIs(isJudge, 1, false))
	w.wholeLoop(r, kind+"/states", &LoopInfo{Fn: judge.Fn, Head: judge.Head, Body: judge.Body, Elems: judge.Elems, Over: judge.Over}, isJudge, nil, leave)
	for _, c := range jc {
		node := c.Call.Args[0]
		r.Check(kind+"/state", w.ipos(c), x.pathNode(node), ifBad(!x.pathNode(node), "another state than those of the cycle is judged"))
	}
	startsAfter := x.startAfter(judge, find)
	r.Check(kind+"/from", w.ipos(firstNonPhi(judge.Head)), startsAfter, ifBad(!startsAfter, "the states before the cycle are judged, or some of it are not"))
	for _, c := range fc {
		ok := x.cyclePart(c.Call.Args[0], find)
		r.Check(kind+"/part", w.ipos(c), ok, ifBad(!ok, "the fairness of another part of the path is judged"))
	}
	r.Floor("judgements of the fairness of a cycle ("+kind+")", len(fc), 1)
	if p := indexPhi(find); p != nil {
		z := find.startsAt() == 0
		r.Check(kind+"/earliest", w.ipos(firstNonPhi(find.Head)), z, ifBad(!z, "the search for the start of the cycle does not begin at the start of the path"))
	}
	bad := false
	var tr []string
	for b := range find.Body {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for k, s := range b.Succs {
			if closes(Edge{If: iff, Cond: iff.Cond, Taken: k == 0}) {
				if ok, t := (&Q{W: w, Goal: func(in ssa.Instruction) bool { return in == firstNonPhi(find.Head) }, NoEnter: no}).from(find.Fn, point{s, 0, b}); ok {
					bad, tr = true, t
				}
			}
		}
	}
	x.check(r, kind+"/largest", w.ipos(firstNonPhi(find.Head)), !bad, "the search for the start of the cycle goes on after it was found", tr)
}

// pathNode: v is the state of an element of a list of links.
func (x *live) pathNode(v ssa.Value) bool {
	l := linkOfNode(v)
	if l == nil {
		return false
	}
	list, _ := indexOf(l)
	return list != nil && !strings.HasSuffix(x.w.plain(list), ".Outbound")
}

// lastNode: v is the state of the last link of the path.
func (x *live) lastNode(v ssa.Value, fns []*ssa.Function) bool {
	for _, a := range x.w.argsIn(v, fns, 0) {
		l := linkOfNode(a)
		if l == nil {
			return false
		}
		list, idx := indexOf(l)
		if list == nil || !reMatch(`\(len\(.*\) - 1\)`, x.w.plain(idx)) {
			return false
		}
	}
	return true
}

// startAfter: the loop starts with the element after the one at which the other loop stands.
func (x *live) startAfter(l, find *LoopInfo) bool {
	for _, in := range l.Head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !l.counts(p) {
			continue
		}
		for i, e := range p.Edges {
			if l.Body[p.Block().Preds[i]] {
				continue
			}
			if x.afterIndex(e, find) {
				return true
			}
		}
		// a range over the rest of the path
		if l.Over != nil {
			if sl, ok := l.Over.(*ssa.Slice); ok && sl.High == nil && sl.Low != nil && x.afterIndex(sl.Low, find) {
				return true
			}
		}
	}
	return false
}

// afterIndex: v is one more than the index of the other loop.
func (x *live) afterIndex(v ssa.Value, find *LoopInfo) bool {
	b, ok := peelConv(v).(*ssa.BinOp)
	return ok && b.Op == token.ADD && isConstInt(1)(b.Y) && x.indexIn(b.X, find)
}

// indexIn: v is the index of the loop, or a variable that was set to it in the loop.
func (x *live) indexIn(v ssa.Value, find *LoopInfo) bool {
	v = peelConv(v)
	if find.counts(v) {
		return true
	}
	p, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	seen := map[ssa.Value]bool{}
	n := 0
	var all func(v ssa.Value) bool
	all = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		if _, ok := v.(*ssa.Const); ok {
			return true
		}
		if find.counts(v) {
			n++
			return true
		}
		q, ok := v.(*ssa.Phi)
		if !ok {
			return false
		}
		for _, e := range q.Edges {
			if !all(e) {
				return false
			}
		}
		return true
	}
	return all(p) && n > 0
}

// cyclePart: the part of the path from the start of the cycle on.
func (x *live) cyclePart(v ssa.Value, find *LoopInfo) bool {
	sl, ok := v.(*ssa.Slice)
	return ok && sl.High == nil && sl.Low != nil && x.indexIn(sl.Low, find)
}

// search: the depth-first search for closed paths.
func (x *live) search(r *Rep) {
	w := x.w
	f := w.Func("modelchecker.cycleFinderHelper")
	if f == nil {
		r.Undecided("search", "", "cycleFinderHelper not found")
		return
	}
	fns := w.withHelpers(f)
	no := func(g *ssa.Function) bool { return g == f || outside(fns)(g) }
	isRec := func(in ssa.Instruction) bool { c, ok := in.(*ssa.Call); return ok && c.Call.StaticCallee() == f }
	isCb := func(in ssa.Instruction) bool { return callsBack(in) != nil }
	var recs, cbs []*ssa.Call
	for _, g := range fns {
		instrs(g, func(in ssa.Instruction) {
			if isRec(in) {
				recs = append(recs, in.(*ssa.Call))
			}
			if c := callsBack(in); c != nil {
				cbs = append(cbs, c)
			}
		})
	}
	pos := w.Pos(f.Pos())
	param := func(t string) *ssa.Parameter {
		for _, p := range f.Params {
			if shortType(p.Type()) == t {
				return p
			}
		}
		return nil
	}
	pathP, nodeP := param("[]*modelchecker.Link"), param("*modelchecker.Node")
	isP := func(v ssa.Value, p *ssa.Parameter) bool {
		return allOf(w.argsIn(v, fns, 0), func(a ssa.Value) bool { return a == ssa.Value(p) })
	}
	if pathP == nil || nodeP == nil || len(recs) == 0 || len(cbs) == 0 {
		r.Undecided("search", pos, "the search for cycles has no path and state, or does not call itself and the judge")
		return
	}
	// the set of the states on the path: the one that every way on gets a copy of
	fresh := func(v ssa.Value) (*ssa.Parameter, bool) {
		for _, a := range w.argsIn(v, fns, 0) {
			c, ok := peelConv(a).(*ssa.Call)
			if !ok || !strings.HasPrefix(calleeName(c), "maps.Clone") {
				continue
			}
			for _, b := range w.argsIn(c.Call.Args[0], fns, 0) {
				if p, ok := b.(*ssa.Parameter); ok && p.Parent() == f {
					return p, true
				}
			}
		}
		return nil, false
	}
	var onPath *ssa.Parameter
	for _, c := range recs {
		for _, a := range c.Call.Args {
			if p, ok := fresh(a); ok {
				onPath = p
			}
		}
	}
	r.Check("search/own-path", pos, onPath != nil, ifBad(onPath == nil, "the ways on from a state share the set of the states that were visited on the way"))
	if onPath == nil {
		return
	}
	idx := func(p *ssa.Parameter) int {
		for i, q := range f.Params {
			if q == p {
				return i
			}
		}
		return -1
	}
	for _, c := range recs {
		p, ok := fresh(c.Call.Args[idx(onPath)])
		r.Check("search/own-path", w.ipos(c), ok && p == onPath, ifBad(!ok || p != onPath, "the ways on from a state share the set of the states that were visited on the way"))
	}
	lookup := func(e Edge, p *ssa.Parameter, want bool) bool {
		v, t := e.Cond, e.Taken
		for {
			u, ok := v.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			v, t = u.X, !t
		}
		if ex, ok := v.(*ssa.Extract); ok {
			v = ex.Tuple
		}
		lk, ok := v.(*ssa.Lookup)
		return ok && t == want && isP(lk.X, p) && isP(lk.Index, nodeP)
	}
	again := func(want bool) func(Edge) bool { return func(e Edge) bool { return lookup(e, onPath, want) } }
	known := func(e Edge) bool { // seen on any way
		for _, p := range f.Params {
			if p != onPath && lookup(e, p, true) {
				return true
			}
		}
		return false
	}
	isClosed := func(in ssa.Instruction) bool { c := callsBack(in); return c != nil && isP(c.Call.Args[0], pathP) }
	isStutter := func(in ssa.Instruction) bool { c := callsBack(in); return c != nil && !isP(c.Call.Args[0], pathP) }
	nClosed := 0
	for _, c := range cbs {
		if isClosed(c) {
			nClosed++
			bad, tr := (&Q{W: w, Goal: func(in ssa.Instruction) bool { return in == ssa.Instruction(c) }, Cut: again(true), NoEnter: no}).Entry(f)
			x.check(r, "search/closed-only", w.ipos(c), !bad, "a path that has not come back to one of its states is judged as a cycle", tr)
		}
		bad, tr := (&Q{W: w, Goal: isRec, GoalEnv: mayReturn(f, 1, true), Cut: resultIs(isCb, 0, true), NoEnter: no}).After(c)
		x.check(r, "search/told", w.ipos(c), !bad, "a counterexample is found and not told", tr)
		bad, tr = (&Q{W: w, GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
			rt, ok := in.(*ssa.Return)
			return ok && rt.Parent() == f && res(retVal(rt, 0)) != res(c.Call.Args[0])
		}, Cut: resultIs(isCb, 0, true), NoEnter: no}).After(c)
		x.check(r, "search/told-path", w.ipos(c), !bad, "the path that is told is not the one that was judged", tr)
	}
	r.Floor("judgements of closed paths", nClosed, 1)
	w.must(r, step{Key: "search/closed-judged", Why: "a closed path is not judged", Fn: f, Cut: again(false), Through: isClosed, Goal: anyOf(isRec, isReturnOf(f)), NoEnter: no})
	w.must(r, step{Key: "search/failure-judged", Why: "a failure is told that was not judged", Fn: f, Cut: anyCut(resultIs(isCb, 0, false), resultIs(isRec, 1, false)), GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
		rt, ok := in.(*ssa.Return)
		if !ok || rt.Parent() != f {
			return false
		}
		v := res(retVal(rt, 1))
		if ex, ok := v.(*ssa.Extract); ok {
			if c, ok := ex.Tuple.(*ssa.Call); ok && (isCb(c) && ex.Index == 0 || isRec(c) && ex.Index == 1) {
				return false
			}
		}
		b, known := constBool(v)
		return !known || !b
	}, NoEnter: no})
	for _, c := range recs {
		bad, tr := (&Q{W: w, Goal: isRec, GoalEnv: mayReturn(f, 1, true), Cut: resultIs(isRec, 1, true), NoEnter: no}).After(c)
		x.check(r, "search/handed-on", w.ipos(c), !bad, "a counterexample that was found further on is not told", tr)
		bad, tr = (&Q{W: w, GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
			rt, ok := in.(*ssa.Return)
			if !ok || rt.Parent() != f {
				return false
			}
			ex, ok := res(retVal(rt, 0)).(*ssa.Extract)
			return !ok || ex.Tuple != ssa.Value(c) || ex.Index != 0
		}, Cut: resultIs(isRec, 1, true), NoEnter: no}).After(c)
		x.check(r, "search/handed-on-path", w.ipos(c), !bad, "the path that is told is not the one that was judged", tr)
	}
	x.stutter(r, f, fns, no, isStutter, anyOf(isRec, isReturnOf(f)), anyCut(again(true), known), nodeP)
	x.steps(r, f, fns, no, recs, isRec, pathP, nodeP, anyCut(again(true), known))
	// every state on the path is known to be on it
	w.must(r, step{Key: "search/marks", Why: "the way goes on without the state being known to be on it", Fn: f, Cut: again(true), NoEnter: no, Goal: isRec,
		Through: func(in ssa.Instruction) bool {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok || !isP(mu.Map, onPath) || !isP(mu.Key, nodeP) {
				return false
			}
			b, k := constBool(mu.Value)
			return k && b
		}})
}

// stutter: staying in a state for ever is a behaviour only where nothing fair can happen.
func (x *live) stutter(r *Rep, f *ssa.Function, fns []*ssa.Function, no func(*ssa.Function) bool, isStutter, goesOn func(ssa.Instruction) bool, closed func(Edge) bool, nodeP *ssa.Parameter) {
	w := x.w
	n := 0
	for _, g := range fns {
		instrs(g, func(in ssa.Instruction) {
			if !isStutter(in) {
				return
			}
			n++
			c := in.(*ssa.Call)
			app, ok := peelConv(c.Call.Args[0]).(*ssa.Call)
			ok = ok && calleeName(app) == "builtin.append"
			if ok {
				ok = false
				for _, e := range sliceElems2(app.Call.Args[1]) {
					if al, is := e.(*ssa.Alloc); is {
						for _, u := range *al.Referrers() {
							fa, is := u.(*ssa.FieldAddr)
							if !is || fieldName(fa.X.Type(), fa.Field) != "Node" {
								continue
							}
							for _, s := range storesTo(fa) {
								ok = ok || allOf(w.argsIn(s.Val, fns, 0), func(a ssa.Value) bool { return a == ssa.Value(nodeP) })
							}
						}
					}
				}
			}
			r.Check("search/stutter/same", w.ipos(c), ok, ifBad(!ok, "the path that ends with staying in a state does not stay in it"))
		})
	}
	r.Floor("judgements of staying in a state", n, 1)
	between := anyCut(x.notNamed("yield"), x.notNamed("init"), x.notNamed("crash"))
	w.must(r, step{Key: "search/stutter/where", Why: "a behaviour is taken to end in the middle of an action", Fn: f, Cut: between, Goal: isStutter, NoEnter: no})
	level := func(k string, want bool) func(Edge) bool {
		return func(e Edge) bool {
			a, op, b, ok := relOf(e)
			if !ok || !isConstIntOf(b, k) && !isConstIntOf(a, k) {
				return false
			}
			if isConstIntOf(a, k) {
				a = b
			}
			return x.fair(a) && (want && op == token.EQL || !want && op == token.NEQ)
		}
	}
	thread := x.prefixed("thread-", true)
	after := func(key, why string, is func(Edge) bool) {
		n := 0
		for _, g := range fns {
			for _, b := range g.Blocks {
				iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
				if !ok {
					continue
				}
				for k, s := range b.Succs {
					if !is(Edge{If: iff, Cond: iff.Cond, Taken: k == 0}) {
						continue
					}
					n++
					if g != f {
						// in a helper that answers a question: decided there
						bad := !answersTrue(g)
						r.Check(key, w.ipos(iff), !bad, ifBad(bad, why))
						continue
					}
					bad, tr := (&Q{W: w, Goal: isStutter, NoEnter: no, prune: true}).from(g, point{s, 0, b})
					x.check(r, key, w.ipos(iff), !bad, why, tr)
				}
			}
		}
		r.Floor("tests for "+key, n, 1)
	}
	after("search/stutter/strong", "a behaviour is taken to end where a strongly fair action is enabled", level("3", true))
	after("search/stutter/weak", "a behaviour is taken to end where a weakly fair action is enabled", level("2", true))
	after("search/stutter/pending", "a behaviour is taken to end where an action has not finished", thread)
	none := anyCut(level("3", true), level("2", true), thread, closed)
	for _, name := range []string{"yield", "init", "crash"} {
		w.must(r, step{Key: "search/stutter/judged/" + name, Why: "staying in a state in which nothing fair can happen is not judged", Fn: f, Cut: anyCut(none, x.named(name)), Through: isStutter, Goal: goesOn, NoEnter: no})
	}
	// every link of the state counts
	over := func(v ssa.Value) bool { return strings.HasSuffix(w.plain(v), ".Outbound") }
	tests := func(is ...func(Edge) bool) func(ssa.Instruction) bool {
		return func(in ssa.Instruction) bool {
			iff, ok := in.(*ssa.If)
			if !ok {
				return false
			}
			for _, p := range is {
				if p(Edge{If: iff, Cond: iff.Cond, Taken: true}) || p(Edge{If: iff, Cond: iff.Cond, Taken: false}) {
					return true
				}
			}
			return false
		}
	}
	m := 0
	for k, is := range map[string]func(Edge) bool{"strong": level("3", true), "weak": level("2", true), "pending": thread} {
		for _, l := range w.loopsIn(fns, over, tests(is)) {
			direct := false
			for b := range l.Body {
				direct = direct || tests(is)(b.Instrs[len(b.Instrs)-1])
			}
			if l.Fn == f && !direct {
				continue // the loop that searches on
			}
			m++
			w.wholeLoop(r, "search/stutter/links/"+k, l, tests(is), anyCut(level("3", true), level("2", true), thread), anyCut(level("3", true), level("2", true), thread))
		}
	}
	r.Floor("loops over the links of a state that may be the last", m, 3)
}

func isConstIntOf(v ssa.Value, k string) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.ExactString() == k
}

// answersTrue: a helper whose only result is a boolean.
func answersTrue(g *ssa.Function) bool {
	return g.Signature.Results().Len() == 1 && g.Signature.Results().At(0).Type().String() == "bool"
}

// steps: the search goes on along the links of the state, with the path made longer by the link.
func (x *live) steps(r *Rep, f *ssa.Function, fns []*ssa.Function, no func(*ssa.Function) bool, recs []*ssa.Call, isRec func(ssa.Instruction) bool, pathP, nodeP *ssa.Parameter, closed func(Edge) bool) {
	w := x.w
	pi, ni := -1, -1
	for i, p := range f.Params {
		if p == pathP {
			pi = i
		}
		if p == nodeP {
			ni = i
		}
	}
	over := func(v ssa.Value) bool { return strings.HasSuffix(w.plain(v), ".Outbound") }
	crash := w.isTrue(`Link\.IsCrashLink\(|isCrashLinkName\(`)
	crashNot := w.isFalse(`Link\.IsCrashLink\(|isCrashLinkName\(`)
	own := map[*ssa.Call]bool{}
	for _, l := range w.loopsIn(fns, over, isRec) {
		w.wholeLoop(r, "search/steps", l, isRec, crash, resultIs(isRec, 1, false))
		bad, tr := w.reachableIn(l, isRec, crashNot)
		x.check(r, "search/no-crash", w.ipos(firstNonPhi(l.Head)), !bad, "a crash, that nothing makes happen, counts as a step that a behaviour takes again and again", tr)
		for b := range l.Body {
			for _, in := range b.Instrs {
				if isRec(in) {
					own[in.(*ssa.Call)] = true
				}
			}
		}
	}
	r.Floor("searches along the links of a state", len(own), 1)
	for _, c := range recs {
		link := linkOfNode(c.Call.Args[ni])
		app, ok := peelConv(c.Call.Args[pi]).(*ssa.Call)
		ok = ok && link != nil && calleeName(app) == "builtin.append"
		if ok {
			es := sliceElems2(app.Call.Args[1])
			ok = len(es) == 1 && es[0] == link
		}
		r.Check("search/step", w.ipos(c), ok, ifBad(!ok, "the path that leads to the next state does not end with the link to it"))
		if !ok {
			continue
		}
		base := app.Call.Args[0]
		if own[c] {
			k := x.copyOf(base, pathP, fns)
			r.Check("search/step-path", w.ipos(c), k, ifBad(!k, "the path is not a copy of the one to this state, made longer by the link"))
			continue
		}
		// a longer cycle: once more along the cycle up to the state that has the missing link
		var extra []*ssa.Call
		k := true
		for _, l := range phiLeaves(base) {
			if a, is := l.(*ssa.Call); is && calleeName(a) == "builtin.append" {
				extra = append(extra, a)
				continue
			}
			k = k && x.copyOf(l, pathP, fns)
		}
		r.Check("search/step-path", w.ipos(c), k, ifBad(!k, "the path is not a copy of the one to this state, made longer by the link"))
		stops := func(e Edge) bool {
			a, op, b, ok := relOf(e)
			return ok && op == token.EQL && (x.pathNode(a) && strings.HasSuffix(w.plain(b), ".First") || x.pathNode(b) && strings.HasSuffix(w.plain(a), ".First"))
		}
		found := 0
		isExtra := func(in ssa.Instruction) bool {
			a, ok := in.(*ssa.Call)
			return ok && a.Parent() == c.Parent() && isOneOfCalls(a, extra)
		}
		for _, b := range c.Parent().Blocks {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			for k, s := range b.Succs {
				if stops(Edge{If: iff, Cond: iff.Cond, Taken: k == 0}) {
					found++
					bad, tr := (&Q{W: w, Goal: isExtra, Through: func(in ssa.Instruction) bool { return in == ssa.Instruction(c) }, NoEnter: no}).from(c.Parent(), point{s, 0, b})
					x.check(r, "search/detour-ends", w.ipos(iff), !bad, "the path goes on beyond the state from which the missing link is to be taken", tr)
				}
			}
		}
		r.Check("search/detour", w.ipos(c), found > 0 && len(extra) > 0, ifBad(found == 0 || len(extra) == 0, "the path does not lead to the state from which the missing link is to be taken"))
		for _, a := range extra {
			ok := false
			for _, e := range sliceElems2(a.Call.Args[1]) {
				list, _ := indexOf(e)
				sl, is := list.(*ssa.Slice)
				ok = is && sl.High == nil && allOf(w.argsIn(sl.X, fns, 0), func(v ssa.Value) bool { return v == ssa.Value(pathP) }) && reMatch(`\(.* \+ 1\)`, w.plain(sl.Low))
			}
			r.Check("search/detour-links", w.ipos(a), ok, ifBad(!ok, "the path is made longer by something else than the links of the cycle"))
		}
		// the missing link leaves the state it is listed with
		pl := w.plain(link)
		ok = strings.Contains(pl, "missingLinks[") && strings.Contains(pl, ".Second[")
		r.Check("search/missing", w.ipos(c), ok, ifBad(!ok, "the path is made longer by something else than a link that the cycle misses"))
	}
	x.missing(r)
}

func isOneOfCalls(c *ssa.Call, l []*ssa.Call) bool {
	for _, y := range l {
		if y == c {
			return true
		}
	}
	return false
}

// copyOf: a copy of the list.
func (x *live) copyOf(v ssa.Value, p *ssa.Parameter, fns []*ssa.Function) bool {
	for _, a := range x.w.argsIn(v, fns, 0) {
		c, ok := peelConv(a).(*ssa.Call)
		if !ok {
			return false
		}
		var src ssa.Value
		switch n := calleeName(c); {
		case strings.HasPrefix(n, "slices.Clone"):
			src = c.Call.Args[0]
		case n == "builtin.append" && (isNilConst(c.Call.Args[0]) || isFreshSlice(c.Call.Args[0])):
			src = c.Call.Args[1]
		default:
			return false
		}
		if !allOf(x.w.argsIn(src, fns, 0), func(b ssa.Value) bool { return b == ssa.Value(p) }) {
			return false
		}
	}
	return true
}

func isFreshSlice(v ssa.Value) bool {
	switch y := v.(type) {
	case *ssa.MakeSlice:
		return isZero(y.Len)
	case *ssa.Slice:
		_, ok := y.X.(*ssa.Alloc)
		return ok
	}
	return false
}

// missing: what is reported as missing from a cycle are links of its states, listed with the state that they leave.
func (x *live) missing(r *Rep) {
	w := x.w
	f := w.Func("modelchecker.findMissingLinks")
	if f == nil {
		r.Undecided("missing", "", "findMissingLinks not found")
		return
	}
	fns := w.withHelpers(f)
	n := 0
	for _, g := range fns {
		instrs(g, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok || !strings.HasPrefix(calleeName(c), "lib.NewPair") {
				return
			}
			n++
			node := c.Call.Args[0]
			ok = x.pathNode(node)
			r.Check("missing/state", w.ipos(c), ok, ifBad(!ok, "the links that a cycle misses are listed with another state"))
			for _, l := range phiLeaves(c.Call.Args[1]) {
				a, is := l.(*ssa.Call)
				if !is || calleeName(a) != "builtin.append" {
					continue
				}
				fresh := x.freshIn(a, node)
				r.Check("missing/own", w.ipos(a), fresh, ifBad(!fresh, "links of other states are listed with the state"))
				for _, e := range sliceElems2(a.Call.Args[1]) {
					list, _ := indexOf(e)
					own := list != nil && baseOfField(list) == node
					r.Check("missing/link", w.ipos(a), own, ifBad(!own, "a link is listed that does not leave the state"))
				}
			}
		})
	}
	r.Floor("lists of missing links", n, 1)
}

// finder: the search starts in every state that was not reached, and the counterexample begins with the way there.
func (x *live) finder(r *Rep) {
	w := x.w
	f := w.Func("modelchecker.CycleFinderFinal")
	if f == nil {
		r.Undecided("finder", "", "CycleFinderFinal not found")
		return
	}
	fns := w.withHelpers(f)
	helper := isCall("modelchecker.cycleFinderHelper")
	n := 0
	for _, g := range fns {
		instrs(g, func(in ssa.Instruction) {
			if !helper(in) {
				return
			}
			n++
			c := in.(*ssa.Call)
			node := c.Call.Args[0]
			// the path starts with a link to the state
			for _, l := range phiLeaves(c.Call.Args[4]) {
				es := sliceElems2(l)
				ok := len(es) == 1 && allOf(phiLeaves(es[0]), func(v ssa.Value) bool {
					k, is := v.(*ssa.Call)
					return is && calleeName(k) == "modelchecker.InitNodeToLink" && (k.Call.Args[0] == node || isRootEdge(k.Call.Args[0], f))
				})
				r.Check("finder/start", w.ipos(c), ok, ifBad(!ok, "the path does not begin with the state that is searched from"))
			}
			no := func(h *ssa.Function) bool { return outside(fns)(h) }
			bad, tr := (&Q{W: w, Goal: helper, GoalEnv: func(i ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
				rt, ok := i.(*ssa.Return)
				if !ok || rt.Parent() != f {
					return false
				}
				v, k := constBool(res(retVal(rt, 1)))
				ex, isEx := res(retVal(rt, 1)).(*ssa.Extract)
				if k && v || !k && !(isEx && ex.Tuple == ssa.Value(c) && ex.Index == 1) {
					return true
				}
				a, ok := res(retVal(rt, 0)).(*ssa.Call)
				if !ok || calleeName(a) != "builtin.append" {
					return true
				}
				pre, ok := a.Call.Args[0].(*ssa.Call)
				if !ok || calleeName(pre) != "modelchecker.ExtractFailurePath" || pre.Call.Args[0] != node {
					return true
				}
				rest, ok := a.Call.Args[1].(*ssa.Slice)
				if !ok || rest.High != nil || rest.Low == nil || !isConstInt(1)(rest.Low) {
					return true
				}
				e, ok := rest.X.(*ssa.Extract)
				return !ok || e.Tuple != ssa.Value(c) || e.Index != 0
			}, Cut: resultIs(helper, 1, true), NoEnter: no}).After(c)
			x.check(r, "finder/told", w.ipos(c), !bad, "a counterexample is not told as the way to its first state followed by its links", tr)
		})
	}
	r.Floor("searches from the states", n, 1)
	w.must(r, step{Key: "finder/only", Why: "a failure is told that was not found", Fn: f, Cut: resultIs(helper, 1, false), NoEnter: outside(fns), GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
		rt, ok := in.(*ssa.Return)
		if !ok || rt.Parent() != f {
			return false
		}
		v, k := constBool(res(retVal(rt, 1)))
		return !k || !v
	}})
	over := func(v ssa.Value) bool {
		t := sliceElem(v.Type())
		return t != nil && namedName(t) == "Node"
	}
	m := 0
	for _, l := range w.loopsIn(fns, over, helper) {
		m++
		seen := func(e Edge) bool {
			v, t := e.Cond, e.Taken
			for {
				u, ok := v.(*ssa.UnOp)
				if !ok || u.Op != token.NOT {
					break
				}
				v, t = u.X, !t
			}
			if ex, ok := v.(*ssa.Extract); ok {
				v = ex.Tuple
			}
			_, ok := v.(*ssa.Lookup)
			return ok && t
		}
		w.wholeLoop(r, "finder/states", l, helper, seen, resultIs(helper, 1, false))
	}
	r.Floor("loops over the states that are searched from", m, 1)
}

// isRootEdge: the root of the graph (the state compared with it is the same).
func isRootEdge(v ssa.Value, f *ssa.Function) bool {
	p, ok := v.(*ssa.Parameter)
	return ok && p.Parent() == f && namedName(deref(p.Type())) == "Node"
}

// backPath: the way to a state is found by following the links backwards to an initial state.
func (x *live) backPath(r *Rep) {
	w := x.w
	f := w.Func("modelchecker.ExtractFailurePath")
	rev := w.Func("modelchecker.ReverseLink")
	ini := w.Func("modelchecker.InitNodeToLink")
	if f == nil || rev == nil || ini == nil {
		r.Undecided("way", "", "ExtractFailurePath, ReverseLink or InitNodeToLink not found")
		return
	}
	fns := w.withHelpers(f)
	isRev := isCall("modelchecker.ReverseLink")
	n := 0
	for _, g := range fns {
		instrs(g, func(in ssa.Instruction) {
			if !isRev(in) {
				return
			}
			n++
			c := in.(*ssa.Call)
			cur := c.Call.Args[0]
			list, idx := indexOf(c.Call.Args[1])
			ok := list != nil && isZero(idx) && baseOfField(list) == cur && strings.HasSuffix(w.plain(list), ".Inbound")
			r.Check("way/link", w.ipos(c), ok, ifBad(!ok, "the step that is shown does not lead to the state"))
			// the next state is the one that this link comes from
			p, isPhi := cur.(*ssa.Phi)
			ok = isPhi
			m := 0
			if isPhi {
				for i, e := range p.Edges {
					if !p.Block().Dominates(p.Block().Preds[i]) {
						continue
					}
					for _, l := range []ssa.Value{e} {
						m++
						from := linkOfNode(l)
						li, ix := indexOf2(from)
						ok = ok && li != nil && isZero(ix) && baseOfField(li) == cur
					}
				}
			}
			r.Check("way/next", w.ipos(c), ok && m > 0, ifBad(!ok || m == 0, "the way back leaves the links that are shown"))
			// it is kept
			kept := false
			for _, u := range *c.Referrers() {
				if _, ok := u.(*ssa.Store); ok {
					kept = true
				}
			}
			r.Check("way/kept", w.ipos(c), kept, ifBad(!kept, "a step of the way is left out"))
		})
	}
	r.Floor("steps back along the links", n, 1)
	w.must(r, step{Key: "way/order", Why: "the way is told backwards", Fn: f, Cut: func(Edge) bool { return false }, Through: w.callTo(`slices\.Reverse.*`), Goal: isReturnOf(f), NoEnter: outside(fns)})
	isInit := isCall("modelchecker.InitNodeToLink")
	root := func(e Edge) bool {
		a, op, b, ok := relOf(e)
		return ok && op == token.EQL && (isRootEdge(a, f) || isRootEdge(b, f))
	}
	starts := anyCut(root, x.notNamed("init"), emptyEdge(func(v ssa.Value) bool { return strings.HasSuffix(w.plain(v), ".Inbound") }))
	w.must(r, step{Key: "way/start", Why: "the way does not begin at an initial state", Fn: f, Cut: starts, Goal: isInit, NoEnter: outside(fns)})
	for _, g := range []*ssa.Function{rev, ini} {
		k := "way/reversed"
		if g == ini {
			k = "way/initial"
		}
		bad, tr := (&Q{W: w, Through: func(in ssa.Instruction) bool {
			st, base := fieldStore(in, "Link", "Node")
			return st != nil && base != nil && st.Val == ssa.Value(g.Params[0])
		}, Goal: isReturnOf(g), NoEnter: w.onlyHelpers(g)}).Entry(g)
		x.check(r, k, w.Pos(g.Pos()), !bad, "the link does not lead to the state", tr)
	}
}

func indexOf2(v ssa.Value) (ssa.Value, ssa.Value) {
	if v == nil {
		return nil, nil
	}
	return indexOf(v)
}

// rootedAt: the chain of fields that gives the value starts at the parameter.
func (x *live) rootedAt(v ssa.Value, p *ssa.Parameter, fns []*ssa.Function) bool {
	for i := 0; i < 20; i++ {
		switch y := peelConv(v).(type) {
		case *ssa.UnOp:
			v = y.X
		case *ssa.FieldAddr:
			v = y.X
		case *ssa.Field:
			v = y.X
		case *ssa.IndexAddr:
			v = y.X
		case *ssa.Alloc:
			ss := storesTo(y)
			if len(ss) != 1 {
				return false
			}
			v = ss[0].Val
		case *ssa.Call:
			if len(y.Call.Args) != 1 {
				return false
			}
			v = y.Call.Args[0] // a getter
		case *ssa.Parameter:
			return y == p || allOf(x.w.argsIn(y, fns, 0), func(a ssa.Value) bool { return a != ssa.Value(y) && x.rootedAt(a, p, fns) })
		default:
			return false
		}
	}
	return false
}

// freshIn: the list that is added to starts empty for the state.
func (x *live) freshIn(a *ssa.Call, node ssa.Value) bool {
	nb, ok := node.(ssa.Instruction)
	if !ok {
		return true
	}
	seen := map[ssa.Value]bool{}
	var ok2 func(v ssa.Value) bool
	ok2 = func(v ssa.Value) bool {
		v = peelConv(v)
		if seen[v] {
			return true
		}
		seen[v] = true
		switch y := v.(type) {
		case *ssa.Phi:
			// joins after the state was chosen
			if !nb.Block().Dominates(y.Block()) {
				return false
			}
			for _, e := range y.Edges {
				if !ok2(e) {
					return false
				}
			}
			return true
		case *ssa.Call:
			return calleeName(y) == "builtin.append" && ok2(y.Call.Args[0])
		case *ssa.Const:
			return y.Value == nil
		case *ssa.MakeSlice:
			return isZero(y.Len)
		case *ssa.Slice:
			_, ok := y.X.(*ssa.Alloc)
			return ok && (y.High == nil || isZero(y.High))
		}
		return false
	}
	return ok2(a)
}

// linkFairness: where the fairness of a link comes from.
func (x *live) linkFairness(r *Rep) {
	w := x.w
	pn := w.Func("modelchecker.Processor.processNode")
	if pn != nil {
		ends := anyOf(isCall("modelchecker.Node.Attach"), isCall("modelchecker.Node.Duplicate"))
		w.must(r, step{Key: "fairness/link", Why: "the link to a state does not get the fairness of the action", Fn: pn, NoEnter: outside(w.withHelpers(pn)),
			Cut:     anyCut(w.isTrue(`Processor\.processInit\(`), emptyEdge(func(v ssa.Value) bool { return strings.HasSuffix(w.plain(v), ".Inbound") })),
			Through: w.storeTo("Link", "Fairness", `.*Process\.Fairness`), Goal: ends})
	} else {
		r.Undecided("fairness/link", "", "processNode not found")
	}
	for _, m := range []string{"Attach", "Duplicate"} {
		f := w.Func("modelchecker.Node." + m)
		if f == nil {
			r.Undecided("fairness/"+m, "", "Node."+m+" not found")
			continue
		}
		for _, fld := range []string{"Fairness", "ChoiceFairness", "Name"} {
			n := 0
			for _, g := range w.group(f) {
				instrs(g, func(in ssa.Instruction) {
					st, base := fieldStore(in, "Link", fld)
					if st == nil || base == nil || !(g == f || w.isHelperOf(g, fname(f))) {
						return
					}
					n++
					ok := w.everyValue(st.Val, func(v ssa.Value) bool {
						return reMatch(`.*Inbound\[0\]\.`+fld, w.plain(v)) && x.rootedAt(v, f.Params[0], w.group(f))
					}, 0)
					r.Check("fairness/"+m+"/"+fld, w.ipos(st), ok, ifBad(!ok, "the link does not keep its "+fld))
				})
			}
			r.Floor("links made by "+m+" with "+fld, n, 1)
		}
	}
	put := func(key, why, fn, typ, fld, val string, of ...int) {
		f := w.Func(fn)
		if f == nil {
			r.Undecided(key, "", fn+" not found")
			return
		}
		n := 0
		for _, g := range w.withHelpers(f) {
			for _, st := range directStores(g, typ, fld) {
				n++
				ok := w.everyValue(st.Val, func(v ssa.Value) bool {
					return reMatch(val, w.plain(v)) && (len(of) == 0 || x.rootedAt(v, f.Params[of[0]], w.withHelpers(f)))
				}, 0)
				r.Check(key, w.ipos(st), ok, ifBad(!ok, why))
			}
		}
		r.Floor("stores of "+typ+"."+fld+" in "+fn, n, 1)
	}
	put("fairness/action/process", "the action runs with another fairness than it declares", "modelchecker.Processor.scheduleAction", "Process", "Fairness", `.*\.Fairness\.Level`)
	put("fairness/action/thread", "the action runs with another fairness than it declares", "modelchecker.Processor.scheduleAction", "Thread", "Fairness", `.*\.Fairness\.Level`)
	put("fairness/choice", "an option has another fairness than its statement declares", "modelchecker.Thread.executeStatement", "Process", "ChoiceFairness", `.*AnyStmt\.Fairness\.Level`)
	put("fairness/choice/link", "the link of an option has another fairness than the option", "modelchecker.Node.ForkForAlternatePaths", "Link", "ChoiceFairness", `.*Process\.ChoiceFairness`, 1)
	put("fairness/resumed", "an action that goes on runs with another fairness", "modelchecker.Thread.executeStatement", "Process", "Fairness", `.*Thread\.Fairness`)
	if f := w.Func("modelchecker.Processor.scheduleAction"); f != nil {
		w.must(r, step{Key: "fairness/action/set", Why: "the action is queued without its fairness", Fn: f, Through: w.storeTo("Process", "Fairness", `.*\.Fairness\.Level`), Goal: w.callTo(`.*LinearCollection.*\.Add|.*\.Add`), NoEnter: w.onlyHelpers(f)})
	}
}
