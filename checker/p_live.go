package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("S15", ruleS15) }

// live: what the rules about liveness counterexamples share.
type live struct {
	w *World
}

func ruleS15(c *Ctx, r *Rep) {
	w := c.World
	x := &live{w: w}
	r.Rule("a cycle is a counterexample only when every strongly fair action or choice that it enables, and every weakly fair action enabled at all its yield points, occurs in it")
	x.fairCycle(r)
	x.linkKey(r)
	r.Rule("a closed cycle refutes 'always eventually' when the assertion holds nowhere on it, 'eventually always' when it fails somewhere on it")
	x.callback(r, "modelchecker.AlwaysEventuallyFinal", true)
	x.callback(r, "modelchecker.EventuallyAlwaysFinal", false)
	r.Rule("the paths that are searched follow the links of the explored graph, and a counterexample is given from an initial state on")
	x.search(r)
	x.finder(r)
	x.backPath(r)
	r.Rule("links carry the fairness of the action or choice that they stand for")
	x.linkFairness(r)
}

// mapIds: what maps v can be: allocations, or fields of locals, through joins, helpers and variables.
func (x *live) mapIds(v ssa.Value, fns []*ssa.Function) map[string]bool {
	out := map[string]bool{}
	seen := map[ssa.Value]bool{}
	var add func(v ssa.Value)
	add = func(v ssa.Value) {
		v = peelConv(v)
		if seen[v] {
			return
		}
		seen[v] = true
		switch y := v.(type) {
		case *ssa.MakeMap:
			out[fmt.Sprintf("%s:%s", fname(y.Parent()), y.Name())] = true
		case *ssa.Phi:
			for _, e := range y.Edges {
				add(e)
			}
		case *ssa.Parameter:
			for _, a := range x.w.argsIn(y, fns, 0) {
				if a != ssa.Value(y) {
					add(a)
				}
			}
		case *ssa.UnOp:
			if y.Op != token.MUL {
				return
			}
			switch a := y.X.(type) {
			case *ssa.FieldAddr:
				out["field "+fieldName(a.X.Type(), a.Field)] = true
			case *ssa.Alloc:
				for _, s := range storesTo(a) {
					add(s.Val)
				}
			case *ssa.FreeVar:
				for _, c := range x.w.captured(a) {
					add(c)
				}
			}
		case *ssa.Extract:
			if c, ok := y.Tuple.(*ssa.Call); ok {
				x.results(c, y.Index, add)
			}
		case *ssa.Call:
			if f := y.Call.StaticCallee(); f != nil && strings.HasPrefix(calleeName(y), "maps.Clone") {
				out[fmt.Sprintf("%s:%s", fname(y.Parent()), y.Name())] = true
				return
			}
			x.results(y, 0, add)
		}
	}
	add(v)
	return out
}

func (x *live) results(c *ssa.Call, i int, add func(ssa.Value)) {
	f := c.Call.StaticCallee()
	if f == nil || !x.w.owns(f) {
		return
	}
	instrs(f, func(in ssa.Instruction) {
		if rt, ok := in.(*ssa.Return); ok && i < len(rt.Results) {
			add(retVal(rt, i))
		}
	})
}

func storesTo(v ssa.Value) []*ssa.Store {
	var out []*ssa.Store
	if v == nil || v.Referrers() == nil {
		return nil
	}
	for _, u := range *v.Referrers() {
		if s, ok := u.(*ssa.Store); ok && s.Addr == v {
			out = append(out, s)
		}
	}
	return out
}

func overlap(a, b map[string]bool) bool {
	for k := range a {
		if b[k] {
			return true
		}
	}
	return false
}

// check: an obligation with the path that refutes it.
func (x *live) check(r *Rep, key, pos string, ok bool, note string, tr []string) {
	if len(tr) > 0 {
		note += ": " + strings.Join(tr, " → ")
	}
	r.Check(key, pos, ok, ifBad(!ok, note))
}

const weakLvl, strong = "2", "3"

// named: branches that contradict that the node's name is n.
func (x *live) named(n string) func(Edge) bool {
	return func(e Edge) bool {
		l, op, rr, ok := relOf(e)
		if !ok {
			return false
		}
		cst := func(v ssa.Value) (string, bool) {
			c, ok := v.(*ssa.Const)
			if !ok || c.Value == nil || !strings.HasPrefix(c.Value.ExactString(), `"`) {
				return "", false
			}
			return strings.Trim(c.Value.ExactString(), `"`), true
		}
		k, okk := cst(rr)
		nm := l
		if !okk {
			k, okk = cst(l)
			nm = rr
		}
		if !okk || !reMatch(`.*\.Name`, x.w.plain(nm)) || isLinkName(nm) {
			return false
		}
		return op == token.EQL && k != n || op == token.NEQ && k == n
	}
}

// isLinkName: the value is the name of a link (not of a node).
func isLinkName(v ssa.Value) bool {
	u, ok := peelConv(v).(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	return ok && namedName(deref(fa.X.Type())) == "Link"
}

// fairness of a link, as the key function gives it.
func (x *live) fair(v ssa.Value) bool {
	return isFairLevel(v.Type()) && !strings.Contains(x.w.plain(v), "ChoiceFairness")
}

func isFairLevel(t types.Type) bool { return namedName(t) == "FairnessLevel" }

// level: branches that contradict that the fairness is k.
func (x *live) level(k string) func(Edge) bool {
	return func(e Edge) bool {
		l, op, rr, ok := relOf(e)
		if !ok {
			return false
		}
		c, isC := rr.(*ssa.Const)
		v := l
		if !isC {
			c, isC = l.(*ssa.Const)
			v = rr
		}
		if !isC || c.Value == nil || !x.fair(v) {
			return false
		}
		s := c.Value.ExactString()
		return op == token.EQL && s != k || op == token.NEQ && s == k
	}
}

// onPath: v is the link of the path that follows the index (modulo its length).
func (x *live) nextLink(v ssa.Value) bool {
	if namedName(deref(v.Type())) != "Link" {
		return false
	}
	ls := phiLeaves(v)
	for _, l := range ls {
		list, idx := indexOf(l)
		if list == nil || idx == nil {
			return false
		}
		s := x.w.plain(idx)
		if !reMatch(`.*\+ 1\)( % len\(.*\)\))?|0`, s) || strings.Contains(x.w.plain(list), "Outbound") || reMatch(`\(-1 \+ 1\)`, s) {
			return false
		}
	}
	return len(ls) > 0
}

// taken: edges that state that the link is (or, want false, is not) the one the cycle takes next.
func (x *live) taken(want bool, fns []*ssa.Function) func(Edge) bool {
	return func(e Edge) bool {
		if p, ok := e.Cond.(*ssa.Parameter); ok && p.Parent() != fns[0] {
			// the caller compares
			return allOf(x.w.argsIn(p, fns, 0), func(a ssa.Value) bool {
				return a != ssa.Value(p) && x.taken(want, fns)(Edge{If: e.If, Cond: a, Taken: e.Taken})
			})
		}
		l, op, rr, ok := relOf(e)
		if !ok || op != token.EQL && op != token.NEQ {
			return false
		}
		if (op == token.EQL) != want {
			return false
		}
		p := x.pathElem(fns)
		if a, b := linkOfNode(l), linkOfNode(rr); !want && a != nil && b != nil {
			l, rr = a, b
		}
		return p(l) && x.outLink(rr, fns) || p(rr) && x.outLink(l, fns)
	}
}

// linkOfNode: the link whose Node v is.
func linkOfNode(v ssa.Value) ssa.Value {
	u, ok := peelConv(v).(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok || fieldName(fa.X.Type(), fa.Field) != "Node" || namedName(deref(fa.X.Type())) != "Link" {
		return nil
	}
	return fa.X
}

func (x *live) pathElem(fns []*ssa.Function) func(ssa.Value) bool {
	return func(v ssa.Value) bool {
		for _, a := range x.w.argsIn(v, fns, 0) {
			if !x.nextLink(a) {
				return false
			}
		}
		return true
	}
}

func (x *live) outLink(v ssa.Value, fns []*ssa.Function) bool {
	if namedName(deref(v.Type())) != "Link" {
		return false
	}
	for _, a := range x.w.argsIn(v, fns, 0) {
		list, _ := indexOf(a)
		if list == nil || !strings.HasSuffix(x.w.plain(list), ".Outbound") {
			return false
		}
	}
	return true
}

// fairCycle: the verdict about one cycle.
func (x *live) fairCycle(r *Rep) {
	w := x.w
	f := w.Func("modelchecker.isFairCycle")
	if f == nil {
		r.Undecided("fair", "", "isFairCycle not found")
		return
	}
	fns := w.withHelpers(f)
	no := outside(fns)
	isKey := func(v ssa.Value) bool {
		return allOf(w.argsIn(v, fns, 0), func(a ssa.Value) bool {
			ex, ok := a.(*ssa.Extract)
			if !ok || ex.Index != 0 {
				return false
			}
			c, ok := ex.Tuple.(*ssa.Call)
			return ok && calleeName(c) == "modelchecker.fairnessLinkName"
		})
	}
	var sOut, sIn, wOut, wIn = map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	reach := func(in ssa.Instruction, cuts ...func(Edge) bool) bool {
		ok, _ := (&Q{W: w, Goal: func(i ssa.Instruction) bool { return i == in }, Cut: anyCut(cuts...), NoEnter: no}).Entry(f)
		return ok
	}
	n := 0
	// Which map is which: by the cases in which links are entered.
	for _, g := range fns {
		instrs(g, func(in ssa.Instruction) {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok || !isKey(mu.Key) {
				return
			}
			n++
			isS, isW := reach(in, x.level(strong)), reach(in, x.level(weakLvl))
			isIn, isOut := reach(in, x.taken(false, fns)), reach(in, x.taken(true, fns))
			for id := range x.mapIds(mu.Map, fns) {
				if isS && isIn && !isOut {
					sIn[id] = true
				}
				if isS && isOut && !isIn {
					sOut[id] = true
				}
				if isW && isIn && !isOut {
					wIn[id] = true
				}
				if isW && isOut && !isIn {
					wOut[id] = true
				}
			}
		})
	}
	x.check(r, "fair/sets", w.Pos(f.Pos()), len(sOut) > 0 && len(sIn) > 0 && len(wOut) > 0, "the fair links that a cycle takes, and those that it passes by, are not told apart", nil)
	if len(sOut) == 0 || len(sIn) == 0 || len(wOut) == 0 {
		return
	}
	r.Floor("entries of links in the sets of a cycle", n, 3)
	entered := func(ids map[string]bool) func(ssa.Instruction) bool {
		return func(in ssa.Instruction) bool {
			mu, ok := in.(*ssa.MapUpdate)
			return ok && isKey(mu.Key) && overlap(x.mapIds(mu.Map, fns), ids)
		}
	}
	removed := func(ids map[string]bool) func(ssa.Instruction) bool {
		return func(in ssa.Instruction) bool {
			c, ok := in.(*ssa.Call)
			return ok && calleeName(c) == "builtin.delete" && isKey(c.Call.Args[1]) && overlap(x.mapIds(c.Call.Args[0], fns), ids)
		}
	}
	knows := func(ids map[string]bool, want bool) func(Edge) bool {
		return func(e Edge) bool {
			v, t := e.Cond, e.Taken
			for {
				u, ok := v.(*ssa.UnOp)
				if !ok || u.Op != token.NOT {
					break
				}
				v, t = u.X, !t
			}
			var lk *ssa.Lookup
			switch y := v.(type) {
			case *ssa.Extract:
				lk, _ = y.Tuple.(*ssa.Lookup)
			case *ssa.Lookup:
				lk = y
			}
			return lk != nil && t == want && isKey(lk.Index) && overlap(x.mapIds(lk.X, fns), ids)
		}
	}
	over := func(v ssa.Value) bool { return strings.HasSuffix(w.plain(v), ".Outbound") }
	inner := w.loopsIn(fns, over, func(in ssa.Instruction) bool { return entered(sOut)(in) || w.reachesInstr(in, entered(sOut)) })
	x.check(r, "fair/links", w.Pos(f.Pos()), len(inner) == 1, "the links that leave a state of the cycle are not looked at in one loop", nil)
	if len(inner) != 1 {
		return
	}
	l := inner[0]
	w.wholeLoop(r, "fair/strong-missed", l, entered(sOut), anyCut(x.level(strong), knows(sIn, true), x.taken(true, fns)), nil)
	again, atr := w.reachableIn(l, entered(sOut), knows(sIn, false))
	x.check(r, "fair/strong-again", w.ipos(firstNonPhi(l.Head)), !again, "a strongly fair action that happens on the cycle counts as passed by", atr)
	w.wholeLoop(r, "fair/strong-taken", l, entered(sIn), anyCut(x.level(strong), x.taken(false, fns)), nil)
	w.wholeLoop(r, "fair/strong-done", l, removed(sOut), anyCut(x.level(strong), x.taken(false, fns)), nil)
	w.wholeLoop(r, "fair/weak-missed", l, entered(wOut), anyCut(x.level(weakLvl), knows(wIn, true), x.taken(true, fns)), nil)
	// The weakly fair ones: only those that are passed by at every yield point count.
	w.wholeLoop(r, "fair/weak-done", l, func(in ssa.Instruction) bool { return removed(wOut)(in) }, anyCut(x.level(weakLvl), x.taken(false, fns)), nil)

	// which states of the cycle count
	outer := w.natLoops(fns, func(in ssa.Instruction) bool { return in == firstNonPhi(l.Head) || w.reachesInstr(in, entered(sOut)) })
	outer = outermost(outer)
	x.check(r, "fair/states", w.Pos(f.Pos()), len(outer) == 1, "the states of the cycle are not looked at in one loop", nil)
	if len(outer) != 1 {
		return
	}
	o := outer[0]
	looked := func(in ssa.Instruction) bool {
		return in == firstNonPhi(l.Head)
	}
	for _, name := range []string{"init", "yield", "crash"} {
		ok, tr := w.iterationSkips(o, looked, anyCut(x.named(name)))
		x.check(r, "fair/counts/"+name, w.ipos(firstNonPhi(o.Head)), !ok, "the links that leave a "+name+" state of the cycle are not looked at", tr)
	}
	prefix := func(want bool) func(Edge) bool { return x.prefixed("Any:", want) }
	choice := func(levels ...string) func(Edge) bool {
		return func(e Edge) bool {
			a, op, b, ok := relOf(e)
			if !ok {
				return false
			}
			c, isC := b.(*ssa.Const)
			v := a
			if !isC {
				c, isC = a.(*ssa.Const)
				v = b
			}
			if !isC || c.Value == nil || !strings.HasSuffix(w.plain(v), ".ChoiceFairness") {
				return false
			}
			k, in := c.Value.ExactString(), false
			for _, s := range levels {
				in = in || s == k
			}
			return op == token.EQL && in && len(levels) > 1 || op == token.NEQ && in && len(levels) == 1 || op == token.EQL && !in && len(levels) == 1
		}
	}
	mid := x.named("a fork")
	hasOut := emptyEdge(over)
	for k, lv := range map[string]string{"weak": "2", "strong": "3"} {
		ok, tr := w.iterationSkips(o, looked, anyCut(mid, hasOut, prefix(false), choice(lv)))
		x.check(r, "fair/counts/choice-"+k, w.ipos(firstNonPhi(o.Head)), !ok, "the options of a "+k+"ly fair choice on the cycle are not looked at", tr)
	}
	entry := func(in ssa.Instruction) bool {
		return entered(sOut)(in) || entered(wOut)(in) || entered(sIn)(in) && len(sIn) > 0
	}
	for k, cut := range map[string]func(Edge) bool{"unfair": anyCut(mid, choice("1")), "unknown": anyCut(mid, choice("0")), "other": anyCut(mid, prefix(true))} {
		ok, tr := w.reachableIn(o, entry, cut)
		x.check(r, "fair/ignores/"+k, w.ipos(firstNonPhi(o.Head)), !ok, "the links of a state within an action that is no fair choice count as if they were actions that the cycle offers", tr)
	}

	// the intersection over the yield points
	x.intersection(r, f, fns, o, wOut)

	// the verdict
	among := func(ids map[string]bool) func(ssa.Value) bool {
		return func(v ssa.Value) bool { return overlap(x.mapIds(v, fns), ids) }
	}
	w.must(r, step{Key: "fair/verdict/strong", Why: "a cycle that passes by a strongly fair action is called fair", Fn: f, Cut: emptyEdge(among(sOut)), GoalEnv: mayReturn(f, 0, true), NoEnter: no})
	w.must(r, step{Key: "fair/verdict/weak", Why: "a cycle that passes by a weakly fair action that is enabled all along is called fair", Fn: f, Cut: emptyEdge(among(wOut)), GoalEnv: mayReturn(f, 0, true), NoEnter: no})
	w.must(r, step{Key: "fair/verdict/fair", Why: "a cycle that passes by no fair action is not called fair", Fn: f, Cut: anyCut(filledEdge(among(sOut)), filledEdge(among(wOut)), w.isTrue(`isCrashLinkName\(`)), GoalEnv: mayReturn(f, 0, false), NoEnter: no})
}

// prefixed: edges that state that a link's name has (has not) the prefix.
func (x *live) prefixed(p string, want bool) func(Edge) bool {
	s := "^false$"
	if want {
		s = "^true$"
	}
	return x.w.cutRel(`strings\.HasPrefix\(.*"`+p+`"\)$`, "==", s)
}

// intersection: a weakly fair link counts only if it is passed by at every yield point.
func (x *live) intersection(r *Rep, f *ssa.Function, fns []*ssa.Function, o *LoopInfo, wOut map[string]bool) {
	w := x.w
	// removals from the set, for the names found in it
	var loops []*LoopInfo
	isDel := func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		return ok && calleeName(c) == "builtin.delete" && overlap(x.mapIds(c.Call.Args[0], fns), wOut) && strings.HasPrefix(w.plain(c.Call.Args[1]), "range(")
	}
	loops = w.natLoops(fns, isDel)
	var in []*LoopInfo
	for _, l := range loops {
		if l.Head != o.Head && (l.Fn != o.Fn || o.Body[l.Head]) {
			in = append(in, l)
		}
	}
	x.check(r, "fair/weak-all", w.Pos(f.Pos()), len(in) == 1, "weakly fair actions that are not enabled at every yield point of the cycle are kept", nil)
	if len(in) == 1 {
		l := in[0]
		known := func(e Edge) bool {
			v, t := e.Cond, e.Taken
			for {
				u, ok := v.(*ssa.UnOp)
				if !ok || u.Op != token.NOT {
					break
				}
				v, t = u.X, !t
			}
			ex, ok := v.(*ssa.Extract)
			if !ok || !t {
				return false
			}
			lk, ok := ex.Tuple.(*ssa.Lookup)
			return ok && overlap(x.mapIds(lk.X, fns), wOut)
		}
		w.wholeLoop(r, "fair/weak-each", l, isDel, anyCut(known, x.otherKind(fns)), nil)
		unknown := func(e Edge) bool {
			return known(Edge{If: e.If, Cond: e.Cond, Taken: !e.Taken})
		}
		ok, tr := w.reachableIn(l, isDel, unknown)
		x.check(r, "fair/weak-kept", w.ipos(firstNonPhi(l.Head)), !ok, "a weakly fair action that is passed by at this yield point, too, is forgotten", tr)
	}
	// the first of them starts the set
	n := 0
	for _, g := range fns {
		instrs(g, func(in ssa.Instruction) {
			p, ok := in.(*ssa.Phi)
			if !ok || !overlap(x.mapIds(p, fns), wOut) {
				return
			}
			for i, e := range p.Edges {
				mk, ok := e.(*ssa.MakeMap)
				if !ok || !o.Body[mk.Block()] {
					continue
				}
				n++
				pred := p.Block().Preds[i]
				any := anyCut(x.notNamed("init"), x.notNamed("yield"), x.notNamed("crash"))
				ok2, tr := x.edgeReached(o, pred, p.Block(), any)
				if ok2 {
					// compared with the index of the first yield point
					ok2, tr = x.firstIndex(pred, p.Block(), o, any)
				}
				x.check(r, "fair/weak-first", w.ipos(pred.Instrs[len(pred.Instrs)-1]), !ok2, "the weakly fair actions to look for are taken from a state that is no yield point", tr)
			}
		})
	}
	r.Floor("starts of the set of weakly fair actions", n, 1)
}

// notNamed: edges that state that the node's name is n.
func (x *live) notNamed(n string) func(Edge) bool {
	f := x.named(n)
	return func(e Edge) bool {
		l, op, rr, ok := relOf(e)
		if !ok {
			return false
		}
		k := fmt.Sprintf("%q", n)
		isN := func(v ssa.Value) bool {
			c, ok := v.(*ssa.Const)
			return ok && c.Value != nil && c.Value.ExactString() == k
		}
		if !isN(l) && !isN(rr) {
			return false
		}
		return (op == token.EQL || op == token.NEQ) && f(Edge{If: e.If, Cond: e.Cond, Taken: !e.Taken})
	}
}

// edgeReached: can the branch from one block to the other be taken in an iteration of the loop?
func (x *live) edgeReached(o *LoopInfo, from, to *ssa.BasicBlock, cut func(Edge) bool) (bool, []string) {
	last := from.Instrs[len(from.Instrs)-1]
	if iff, ok := last.(*ssa.If); ok {
		e := Edge{If: iff, Cond: iff.Cond, Taken: from.Succs[0] == to}
		if cut(e) {
			return false, nil
		}
		return x.w.reachableIn(o, func(q ssa.Instruction) bool { return q == firstNonPhi(to) }, anyCut(cut, func(f Edge) bool { return f.If == iff && f.Taken != e.Taken }))
	}
	return x.w.reachableIn(o, func(q ssa.Instruction) bool { return q == last }, cut)
}

// counts: v is the number of the round.
func (l *LoopInfo) counts(v ssa.Value) bool {
	v = peelConv(v)
	step := func(v ssa.Value) *ssa.Phi {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || !isConstInt(1)(b.Y) {
			return nil
		}
		p, _ := b.X.(*ssa.Phi)
		return p
	}
	p, ok := v.(*ssa.Phi)
	if !ok {
		p = step(v)
	}
	if p == nil || p.Block() != l.Head {
		return false
	}
	for i, e := range p.Edges {
		if l.Body[p.Block().Preds[i]] && step(e) != p {
			return false
		}
	}
	return true
}

// firstIndex: the branch is taken when the index equals a variable; can that have been set at a state that is cut?
func (x *live) firstIndex(from, to *ssa.BasicBlock, o *LoopInfo, cut func(Edge) bool) (bool, []string) {
	type br struct{ from, to *ssa.BasicBlock }
	brs := []br{{from, to}}
	for _, p := range from.Preds {
		brs = append(brs, br{p, from})
	}
	for _, b := range brs {
		iff, ok := b.from.Instrs[len(b.from.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		l, op, rr, ok := relOf(Edge{If: iff, Cond: iff.Cond, Taken: b.from.Succs[0] == b.to})
		if !ok || op != token.EQL {
			continue
		}
		for _, pair := range [][2]ssa.Value{{l, rr}, {rr, l}} {
			first, ok := pair[1].(*ssa.Phi)
			if !ok || !o.counts(pair[0]) {
				continue
			}
			seen := map[*ssa.Phi]bool{}
			var bad []string
			found := false
			var scan func(ph *ssa.Phi)
			scan = func(ph *ssa.Phi) {
				if seen[ph] {
					return
				}
				seen[ph] = true
				for i, e := range ph.Edges {
					if q, ok := e.(*ssa.Phi); ok && !o.counts(q) {
						scan(q)
						continue
					}
					if !o.counts(e) {
						continue
					}
					found = true
					pred := ph.Block().Preds[i]
					if ok, tr := x.edgeReached(o, pred, ph.Block(), cut); ok {
						bad = append(tr, x.w.ipos(pred.Instrs[len(pred.Instrs)-1]))
					}
				}
			}
			scan(first)
			if found {
				return bad != nil, bad
			}
		}
	}
	return true, nil
}

// otherKind: edges that state that the name belongs to a choice while the state is none, or the other way round.
func (x *live) otherKind(fns []*ssa.Function) func(Edge) bool {
	return func(e Edge) bool {
		l, op, rr, ok := relOf(e)
		if !ok || op != token.NEQ {
			return false
		}
		p := func(v ssa.Value) bool {
			return strings.Contains(x.w.plain(v), `strings.HasPrefix(range(`) && strings.Contains(x.w.plain(v), `"Any:"`)
		}
		return p(l) || p(rr)
	}
}
