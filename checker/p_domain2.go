package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// cellOf: the variable that UnpackArgs fills for the named argument.
func (w *World) cellOf(f *ssa.Function, arg string) *ssa.Alloc {
	var out *ssa.Alloc
	for _, c := range calls(f, "starlark.UnpackArgs") {
		a := c.Common().Args
		sl, ok := a[len(a)-1].(*ssa.Slice)
		if !ok {
			continue
		}
		byIdx := map[int64]ssa.Value{}
		at := int64(-1)
		for _, rf := range *sl.X.Referrers() {
			ia, ok := rf.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			k, ok := ia.Index.(*ssa.Const)
			if !ok {
				continue
			}
			for _, r2 := range *ia.Referrers() {
				if st, ok := r2.(*ssa.Store); ok {
					byIdx[k.Int64()] = peelMI(st.Val)
				}
			}
		}
		for i, v := range byIdx {
			if k, ok := v.(*ssa.Const); ok && k.Value != nil && strings.TrimRight(strings.Trim(k.Value.ExactString(), `"`), "?") == arg {
				at = i
			}
		}
		if v, ok := byIdx[at+1].(*ssa.Alloc); ok && at >= 0 {
			out = v
		}
	}
	return out
}

// argNames: the names of the arguments that UnpackArgs knows.
func (w *World) argNames(f *ssa.Function) []string {
	var out []string
	for _, n := range []string{"name", "limit", "divergence", "start", "reflection", "materialize", "after", "before"} {
		if w.cellOf(f, n) != nil {
			out = append(out, n)
		}
	}
	return out
}

// from: v is (computed from) the content of the variable.
func (w *World) fromCell(v ssa.Value, cell *ssa.Alloc) bool {
	if cell == nil {
		return false
	}
	if v == ssa.Value(cell) {
		return true
	}
	for x := range w.slice(v).vals {
		if x == ssa.Value(cell) {
			return true
		}
		if u, ok := x.(*ssa.UnOp); ok && u.X == ssa.Value(cell) {
			return true
		}
	}
	return false
}

// segParts: what a segment literal is given.
type segParts struct {
	at          *ssa.Alloc
	left, right ssa.Value
	head, tail  bool
}

func (w *World) segmentsOf(group []*ssa.Function) []*segParts {
	var out []*segParts
	for _, g := range group {
		instrs(g, func(in ssa.Instruction) {
			a, ok := in.(*ssa.Alloc)
			if !ok || namedName(deref(a.Type())) != "Segment" {
				return
			}
			p := &segParts{at: a}
			for _, rf := range *a.Referrers() {
				fa, ok := rf.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				for _, r2 := range *fa.Referrers() {
					st, ok := r2.(*ssa.Store)
					if !ok || st.Addr != ssa.Value(fa) {
						continue
					}
					b, known := constBool(st.Val)
					switch fieldName(fa.X.Type(), fa.Field) {
					case "Left":
						p.left = st.Val
					case "Right":
						p.right = st.Val
					case "IsHead":
						p.head = known && b
					case "IsTail":
						p.tail = known && b
					}
				}
			}
			out = append(out, p)
		})
	}
	return out
}

// indexOf: v is an element of a list; the list and the index.
func indexOf(v ssa.Value) (list, idx ssa.Value) {
	v = peelConv(v)
	switch x := v.(type) {
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
			return ia.X, ia.Index
		}
	case *ssa.Index:
		return x.X, x.Index
	}
	return nil, nil
}

// sortedIds: every id of the domain is collected into a list, which is sorted before it is used.
func (w *World) sortedIds(r *Rep, key string, f *ssa.Function, use func(ssa.Instruction) bool) {
	group := w.withHelpers(f)
	add := func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		if !ok || calleeName(c) != "builtin.append" {
			return false
		}
		sl := sliceElem(c.Type())
		return sl != nil && shortType(sl) == "int64"
	}
	n := 0
	for _, l := range w.natLoops(group, add) {
		if l.Over == nil || !w.isCacheMap(l.Over) {
			continue
		}
		n++
		own := func(in ssa.Instruction) bool {
			c, ok := in.(*ssa.Call)
			return ok && add(in) && w.dependsOn(c.Call.Args[1], l.Elems)
		}
		w.wholeLoop(r, key+"/every", l, own, nil, nil)
	}
	alt := w.callTo(`(slices\.(Sorted|Collect)|maps\.Keys)(\[.*)?`)
	for _, g := range group {
		instrs(g, func(in ssa.Instruction) {
			if alt(in) {
				n++
			}
		})
	}
	r.Check(key+"/collected", w.Pos(f.Pos()), n > 0, ifBad(n == 0, "the used ids are not collected"))
	sorted := w.callTo(`slices\.(Sort|Sorted|SortFunc)(\[.*)?|sort\.Slice`)
	w.must(r, step{Key: key + "/sorted", Why: "the ids are used in the order of a map", Fn: f, Through: sorted, Goal: use, NoEnter: w.onlyHelpers(f)})
}

// segmentRules: the gaps between the used ids.
func (w *World) segmentRules(r *Rep) {
	f := w.Func("lib.SymmetryDomain.segments")
	if f == nil {
		r.Undecided("segments", "-", "SymmetryDomain.segments not found")
		return
	}
	group := w.withHelpers(f)
	after, before := w.cellOf(f, "after"), w.cellOf(f, "before")
	if after == nil || before == nil {
		r.Check("segments/arguments", w.Pos(f.Pos()), false, "the arguments after and before were not found")
		return
	}
	segs := w.segmentsOf(group)
	isSeg := func(in ssa.Instruction) bool {
		a, ok := in.(*ssa.Alloc)
		return ok && namedName(deref(a.Type())) == "Segment"
	}
	w.sortedIds(r, "segments/ids", f, isSeg)
	ids := func(v ssa.Value) bool { return w.idsOfCache(v) }
	load := func(cell *ssa.Alloc) func(ssa.Value) bool {
		return func(v ssa.Value) bool {
			v = w.bound.of(v)
			u, ok := v.(*ssa.UnOp)
			return ok && u.X == ssa.Value(cell)
		}
	}
	nothing := func(v ssa.Value) bool {
		v = peelMI(v)
		if c, ok := v.(*ssa.Const); ok {
			return c.Value == nil || w.render(v) == "0"
		}
		return w.render(v) == "0" || re(`None`).MatchString(w.render(v))
	}
	isNone := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Const)
		return nothing(v) && !(ok && c.Value == nil && types.IsInterface(c.Type()))
	}
	no := map[string]func(Edge) bool{"after": says(load(after), nothing, token.EQL), "before": says(load(before), nothing, token.EQL)}
	has := map[string]func(Edge) bool{"after": says(load(after), isNone, token.NEQ), "before": says(load(before), isNone, token.NEQ)}
	bound := func(cell *ssa.Alloc) func(ssa.Value) bool {
		return func(v ssa.Value) bool { return w.fromCell(v, cell) }
	}
	// a value from the list of ids: the end of a segment
	ends := func(v ssa.Value) func(ssa.Value) bool {
		return func(x ssa.Value) bool { return v != nil && (x == v || w.render(x) == w.render(v)) }
	}
	one := func(p *segParts) func(ssa.Instruction) bool {
		return func(in ssa.Instruction) bool { return in == ssa.Instruction(p.at) }
	}
	kinds := map[string][]*segParts{}
	for _, p := range segs {
		k := "body"
		switch {
		case p.head && p.tail:
			k = "whole"
		case p.head:
			k = "head"
		case p.tail:
			k = "tail"
		}
		kinds[k] = append(kinds[k], p)
	}
	for _, k := range []string{"whole", "head", "body", "tail"} {
		r.Check("segments/"+k, w.Pos(f.Pos()), len(kinds[k]) > 0, ifBad(len(kinds[k]) == 0, "this kind of gap is not listed"))
	}
	err := func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool { // a list is returned
		rt, ok := in.(*ssa.Return)
		return ok && rt.Parent() == f && isNilConst(res(retVal(rt, 1)))
	}
	only := w.onlyHelpers(f)
	list := `.*append\(.*`
	empty, some := w.isEmpty(list), w.nonEmpty(list)
	for _, p := range kinds["whole"] {
		w.must(r, step{Key: "segments/whole/only", Why: "the whole range is listed although there are values", Fn: f, Goal: one(p), Cut: empty, NoEnter: only})
		w.must(r, step{Key: "segments/whole/listed", Why: "a domain without values has no segment", Fn: f, Through: isSeg, GoalEnv: err, Cut: some, NoEnter: only})
	}
	for _, p := range kinds["head"] {
		l, i := indexOf(p.right)
		good := p.right != nil && l != nil && ids(l) && isConstInt(0)(i)
		r.Check("segments/head/ends", w.ipos(p.at), good, ifBad(!good, "the first gap does not end at the smallest value"))
		w.must(r, step{Key: "segments/head/after", Why: "the first gap is listed although it is not after the given value", Fn: f, Goal: one(p), Cut: no["after"], NoEnter: only})
		within := says(ends(p.right), bound(before), token.LEQ)
		w.must(r, step{Key: "segments/head/before", Why: "the first gap is listed although it is not before the given value", Fn: f, Goal: one(p), Cut: anyCut(no["before"], within), NoEnter: only})
		w.must(r, step{Key: "segments/head/listed", Why: "the first gap is not listed", Fn: f, Through: one(p), GoalEnv: err, NoEnter: only,
			Cut: anyCut(has["after"], empty, says(ends(p.right), bound(before), token.GTR))})
	}
	for _, p := range kinds["tail"] {
		l, i := indexOf(p.left)
		good := p.left != nil && l != nil && ids(l) && w.render(i) == "(len("+w.render(l)+") - 1)"
		r.Check("segments/tail/starts", w.ipos(p.at), good, ifBad(!good, "the last gap does not start at the largest value"))
		w.must(r, step{Key: "segments/tail/before", Why: "the last gap is listed although it is not before the given value", Fn: f, Goal: one(p), Cut: no["before"], NoEnter: only})
		within := says(ends(p.left), bound(after), token.GEQ)
		w.must(r, step{Key: "segments/tail/after", Why: "the last gap is listed although it is not after the given value", Fn: f, Goal: one(p), Cut: anyCut(no["after"], within), NoEnter: only})
		w.must(r, step{Key: "segments/tail/listed", Why: "the last gap is not listed", Fn: f, Through: one(p), GoalEnv: err, NoEnter: only,
			Cut: anyCut(has["before"], empty, says(ends(p.left), bound(after), token.LSS))})
	}
	for _, p := range kinds["body"] {
		l1, i1 := indexOf(p.left)
		l2, i2 := indexOf(p.right)
		good := l1 != nil && l2 != nil && ids(l1) && ids(l2)
		if good {
			t := map[string]int64{}
			k := w.sum(i2, 1, t, 0) + w.sum(i1, -1, t, 0)
			for _, c := range t {
				good = good && c == 0
			}
			good = good && k == 1
		}
		r.Check("segments/body/neighbours", w.ipos(p.at), good, ifBad(!good, "a gap does not lie between two neighbouring values"))
		w.must(r, step{Key: "segments/body/after", Why: "a gap is listed although it is not after the given value", Fn: f, Goal: one(p), Cut: anyCut(no["after"], says(ends(p.left), bound(after), token.GEQ)), NoEnter: only})
		w.must(r, step{Key: "segments/body/before", Why: "a gap is listed although it is not before the given value", Fn: f, Goal: one(p), Cut: anyCut(no["before"], says(ends(p.right), bound(before), token.LEQ)), NoEnter: only})
		// every neighbouring pair
		var lp *LoopInfo
		for _, l := range w.natLoops(group, one(p)) {
			lp = l
		}
		if lp == nil {
			r.Check("segments/body/pairs", w.ipos(p.at), false, "the gaps between values are not listed one by one")
			continue
		}
		bad, tr := w.iterationSkips(lp, one(p), anyCut(says(ends(p.left), bound(after), token.LSS), says(ends(p.right), bound(before), token.GTR)))
		r.Check("segments/body/each", w.ipos(p.at), !bad, ifBad(bad, "a gap is left out: "+strings.Join(tr, " → ")))
		bad, tr = w.leavesEarly(lp, says(ends(p.right), bound(before), token.GTR, token.GEQ))
		r.Check("segments/body/all", w.ipos(p.at), !bad, ifBad(bad, "the gaps after this one are left out: "+strings.Join(tr, " → ")))
		if good {
			ok := w.coversPairs(lp, i1, i2)
			r.Check("segments/body/pairs", w.ipos(p.at), ok, ifBad(!ok, "not every pair of neighbouring values is looked at"))
		}
	}
	// what is listed is what is returned
	for _, p := range segs {
		kept := false
		for _, rf := range *p.at.Referrers() {
			mi, ok := rf.(*ssa.MakeInterface)
			if !ok {
				continue
			}
			for _, r2 := range *mi.Referrers() {
				_, st := r2.(*ssa.Store)
				_, ret := r2.(*ssa.Return)
				_, cl := r2.(*ssa.Call)
				kept = kept || st || ret || cl
			}
		}
		for _, rf := range *p.at.Referrers() {
			_, ret := rf.(*ssa.Return)
			_, cl := rf.(*ssa.Call)
			_, st := rf.(*ssa.Store)
			kept = kept || ret || cl || st
		}
		r.Check("segments/kept", w.ipos(p.at), kept, ifBad(!kept, "a gap is not part of the result"))
	}
	// after and before must be values of the domain
	for n, cell := range map[string]*ssa.Alloc{"after": after, "before": before} {
		n, cell := n, cell
		w.must(r, step{Key: "segments/" + n + "/own", Why: "a value of another domain is accepted", Fn: f, GoalEnv: err, NoEnter: func(g *ssa.Function) bool { return !inFuncs(group, g) },
			Cut: anyCut(no[n], func(e Edge) bool {
				ex, ok := e.Cond.(*ssa.Extract)
				return ok && e.Taken && isBool(ex) && w.fromCell(ex, cell)
			}, func(e Edge) bool { // the prefix is the name of the domain
				x, op, y, ok := relOf(e)
				return ok && op == token.EQL && (w.fromCell(x, cell) && re(`\.Name$`).MatchString(w.render(y)) || w.fromCell(y, cell) && re(`\.Name$`).MatchString(w.render(x)))
			})})
	}
	// the test that decides it compares the name
	n := 0
	for _, g := range group {
		instrs(g, func(in ssa.Instruction) {
			bo, ok := in.(*ssa.BinOp)
			if ok && (bo.Op == token.EQL || bo.Op == token.NEQ) && (re(`\.prefix$|GetPrefix\(`).MatchString(w.render(bo.X)) && re(`Domain\.Name$`).MatchString(w.render(bo.Y)) || re(`\.prefix$|GetPrefix\(`).MatchString(w.render(bo.Y)) && re(`Domain\.Name$`).MatchString(w.render(bo.X))) {
				n++
				// ids are only given when it holds
				for _, b := range g.Blocks {
					rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
					if !ok || len(rt.Results) != 2 || g == f {
						continue
					}
					v, known := constBool(rt.Results[1])
					if known && !v {
						continue
					}
					w.must(r, step{Key: "segments/own", Why: "a value of another domain is accepted", Fn: g, Goal: func(x ssa.Instruction) bool { return x == ssa.Instruction(rt) },
						Cut: func(e Edge) bool {
							x, op, y, ok := relOf(e)
							return ok && op == token.EQL && x == bo.X && y == bo.Y || ok && op == token.EQL && x == bo.Y && y == bo.X
						}})
				}
			}
		})
	}
	r.Check("segments/own/compared", w.Pos(f.Pos()), n > 0, ifBad(n == 0, "the domain of after and before is not looked at"))
}

// coversPairs: the loop runs over every pair of neighbours of the list.
func (w *World) coversPairs(l *LoopInfo, left, right ssa.Value) bool {
	iff, ok := l.Head.Instrs[len(l.Head.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	// the first left index
	t := map[string]int64{}
	k := w.sum(left, 1, t, 0)
	var ph *ssa.Phi
	for _, v := range w.sumLeaves(left) {
		if p, ok := v.(*ssa.Phi); ok && p.Block() == l.Head {
			ph = p
		}
	}
	if ph == nil || len(t) != 1 {
		return false
	}
	for i, e := range ph.Edges {
		c, isC := e.(*ssa.Const)
		if l.Body[l.Head.Preds[i]] {
			b, ok := e.(*ssa.BinOp)
			if !ok || b.Op != token.ADD || b.X != ssa.Value(ph) || !isConstInt(1)(b.Y) {
				return false
			}
		} else if !isC || c.Int64()+k != 0 {
			return false
		}
	}
	// runs while right < len
	d := map[string]int64{}
	kk := w.sum(bo.X, 1, d, 0) + w.sum(bo.Y, -1, d, 0) + w.sum(right, -1, d, 0)
	lens := 0
	for n, c := range d {
		if c == 0 {
			continue
		}
		if !strings.HasPrefix(n, "len(") || c != -1 {
			return false
		}
		lens++
	}
	return lens == 1 && (bo.Op == token.LSS && kk == 0 || bo.Op == token.LEQ && kk == 1 || bo.Op == token.NEQ && kk == 0)
}

// selectionRules: values, choices, choose, min and max.
func (w *World) selectionRules(r *Rep) {
	vals, choices := w.Func("lib.SymmetryDomain.values"), w.Func("lib.SymmetryDomain.choices")
	ext := w.Func("lib.SymmetryDomain.getExtremeOrFresh")
	mat := w.Func("lib.SymmetryDomain.ensureMaterialized")
	fresh := isCall("lib.SymmetryDomain.fresh")
	for n, f := range map[string]*ssa.Function{"values": vals, "choices": choices, "getExtremeOrFresh": ext, "ensureMaterialized": mat} {
		if f == nil {
			r.Undecided("selection/"+n, "-", "function not found")
			return
		}
	}
	made := func(in ssa.Instruction) bool { c, _ := makesValue(in); return c != nil }
	ok0 := func(f *ssa.Function) func(ssa.Instruction, func(ssa.Value) ssa.Value) bool {
		return func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
			rt, ok := in.(*ssa.Return)
			return ok && rt.Parent() == f && isNilConst(res(retVal(rt, 1)))
		}
	}
	// values: all of them, sorted, each once
	matCall := isCall("lib.SymmetryDomain.ensureMaterialized")
	w.must(r, step{Key: "values/materialized", Why: "the values of a materialized domain are not all there", Fn: vals, Through: matCall, Goal: made, NoEnter: outside(w.domGroup(vals)), Cut: w.isFalse(`\.Materialize$`)})
	w.sortedIds(r, "values/ids", vals, func(in ssa.Instruction) bool { return made(in) })
	ls := w.natLoops(w.withHelpers(vals), made)
	r.Check("values/loop", w.Pos(vals.Pos()), len(ls) > 0, ifBad(len(ls) == 0, "the values are not listed"))
	for _, l := range ls {
		if l.Over != nil && !w.idsOfCache(l.Over) {
			continue
		}
		w.wholeLoop(r, "values", l, made, nil, nil)
	}
	for _, f := range []*ssa.Function{vals, ext} {
		name := shortFn(f)
		grp := w.domGroup(f)
		for _, g := range grp {
			instrs(g, func(in ssa.Instruction) {
				c, id := makesValue(in)
				if c == nil || w.fnOfKey(g) == "lib.SymmetryDomain.fresh" {
					return
				}
				ok := re(`SymmetryDomain\.Name$`).MatchString(w.render(c.Call.Args[0]))
				r.Check(name+"/domain", w.ipos(in), ok, ifBad(!ok, "the value belongs to another domain"))
				w.kindOfValue(r, name+"/kind", c, f, grp)
				if f == vals {
					ok = allOf(w.argsIn(id, grp, 0), func(id ssa.Value) bool {
						l, i := indexOf(id)
						return l != nil && w.idsOfCache(l) && i != nil || w.mayBe(id, func(x ssa.Value) bool { l, _ := indexOf(x); return l != nil && w.idsOfCache(l) })
					})
					r.Check(name+"/id", w.ipos(in), ok, ifBad(!ok, "the value is not one of the used ids"))
				}
			})
		}
	}
	w.must(r, step{Key: "values/listed", Why: "the values are not returned", Fn: vals, Through: headOf(ls), GoalEnv: ok0(vals), NoEnter: w.onlyHelpers(vals)})
	// choices: the values and a fresh one
	w.must(r, step{Key: "choices/fresh", Why: "no fresh value is offered", Fn: choices, Through: fresh, Goal: isCall("lib.SymmetryDomain.values"), Cut: w.isTrue(`\.Materialize$`), NoEnter: func(*ssa.Function) bool { return true }})
	instrs(choices, func(in ssa.Instruction) {
		rt, ok := in.(*ssa.Return)
		if !ok || isNilConst(retVal(rt, 0)) {
			return
		}
		good := w.everyValue(retVal(rt, 0), func(x ssa.Value) bool {
			c, _ := x.(*ssa.Call)
			if ex, ok := x.(*ssa.Extract); ok {
				c, _ = ex.Tuple.(*ssa.Call)
			}
			return c != nil && calleeName(c) == "lib.SymmetryDomain.values" || isNilConst(x)
		}, 0)
		r.Check("choices/values", w.ipos(in), good, ifBad(!good, "the choices are not the values of the domain"))
	})
	w.must(r, step{Key: "choices/materialized", Why: "a materialized domain is asked for a fresh value", Fn: choices, Goal: fresh, Cut: w.isFalse(`\.Materialize$`), NoEnter: func(*ssa.Function) bool { return true }})
	w.must(r, step{Key: "choices/full", Why: "without room for a fresh value the others cannot be chosen either", Fn: choices, Goal: func(in ssa.Instruction) bool {
		rt, ok := in.(*ssa.Return)
		return ok && rt.Parent() == choices && isNilConst(retVal(rt, 0))
	}, Cut: anyCut(w.isFalse(`IsDisableTransitionError\(`), w.cutRel(`UnpackArgs\(`, "!=", "^nil$")), NoEnter: func(*ssa.Function) bool { return true }})
	w.must(r, step{Key: "choices/error", Why: "an error of the fresh value is swallowed", Fn: choices, Goal: isCall("lib.SymmetryDomain.values"),
		Cut: anyCut(w.isTrue(`IsDisableTransitionError\(`), w.cutRel(`SymmetryDomain\.fresh\(.*#1$`, "==", "^nil$"), w.isTrue(`\.Materialize$`)), NoEnter: func(*ssa.Function) bool { return true }})
	// min, max and choose
	w.must(r, step{Key: "extreme/materialized", Why: "the values of a materialized domain are not all there", Fn: ext, Through: matCall, Goal: anyOf(made, fresh), NoEnter: func(*ssa.Function) bool { return true }, Cut: w.isFalse(`\.Materialize$`)})
	extGroup0 := w.domGroup(ext)
	cacheLen := `.*\.Cache\[.*\]`
	w.must(r, step{Key: "extreme/fresh", Why: "a fresh value is taken although there are values", Fn: ext, Goal: fresh, Cut: w.isEmpty(cacheLen), NoEnter: func(*ssa.Function) bool { return true }})
	w.must(r, step{Key: "extreme/empty", Why: "a value is named although there is none", Fn: ext, Goal: made, Cut: w.nonEmpty(cacheLen), NoEnter: outside(extGroup0)})
	var flag *ssa.Parameter
	for _, p := range ext.Params {
		if isBool(p) {
			flag = p
		}
	}
	if flag == nil {
		r.Undecided("extreme/which", w.Pos(ext.Pos()), "no parameter says whether the largest or the smallest is wanted")
		return
	}
	param := func(want bool) func(Edge) bool { // contradicts flag == want
		return func(e Edge) bool { return e.Cond == ssa.Value(flag) && e.Taken != want }
	}
	n := 0
	extGroup := w.domGroup(ext)
	judge := func(in ssa.Instruction, id ssa.Value) {
		n++
		all := func(v ssa.Value) bool { return w.isCacheMap(v) || w.idsOfCache(v) }
		for _, want := range []bool{true, false} {
			dir, name := -1, "min"
			if want {
				dir, name = 1, "max"
			}
			ok := false
			for _, v := range w.underFlag(id, flag, want) {
				ok = w.extremum(v, dir, all, param(want), 0)
				if !ok {
					break
				}
			}
			r.Check("extreme/"+name, w.ipos(in), ok, ifBad(!ok, "not the extreme value"))
		}
	}
	for _, g := range extGroup {
		instrs(g, func(in ssa.Instruction) {
			if c, id := makesValue(in); c != nil {
				for _, v := range w.argsIn(id, extGroup, 0) {
					judge(in, v)
				}
			}
		})
	}
	r.Floor("values that min and max name", n, 1)
	for name, want := range map[string]bool{"max": true, "min": false, "choose": false} {
		f := w.Func("lib.SymmetryDomain." + name)
		if f == nil {
			r.Undecided("extreme/"+name+"/calls", "-", "function not found")
			continue
		}
		k := 0
		for _, g := range w.withHelpers(f) {
			for _, cs := range calls(g, "lib.SymmetryDomain.getExtremeOrFresh") {
				k++
				a := cs.Common().Args
				b, known := constBool(w.bound.of(a[len(a)-1]))
				r.Check("extreme/"+name+"/which", w.ipos(cs), known && b == want, ifBad(!known || b != want, "the other end is asked for"))
			}
		}
		r.Check("extreme/"+name+"/calls", w.Pos(f.Pos()), k > 0, ifBad(k == 0, "the extreme value is not asked for"))
	}
	// materialized domains: exactly the values 0 … limit-1, or start … start+limit-1
	rec := func(in ssa.Instruction) bool { return w.recorded(in) != nil }
	var loops []*LoopInfo
	for _, g := range w.withHelpers(mat) {
		if fname(g) == "lib.SymmetryContext.ensureLoaded" {
			continue
		}
		for _, l := range w.natLoops([]*ssa.Function{g}, func(in ssa.Instruction) bool { return rec(in) && in.Parent() == g }) {
			loops = append(loops, l)
		}
	}
	for _, k := range []string{"nominal", "ordinal", "rotational", "interval"} {
		w.must(r, step{Key: "materialized/" + k, Why: "the values of a materialized domain are not created", Fn: mat, Through: headOf(loops), Goal: retOf(mat), NoEnter: noEnter("lib.SymmetryContext.EnsureDomainInit"),
			Cut: anyCut(w.domKind(k), w.isFalse(`\.Materialize$`), w.cutRel(`^len\(.*\.Cache\[.*\]\)$`, ">=", `\.Limit$`))})
		k := k
		q := &Q{W: w, Track: isInt64, Cut: w.domKind(k), NoEnter: noEnter("lib.SymmetryContext.EnsureDomainInit"), GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
			id := w.recorded(in)
			if id == nil {
				return false
			}
			t := map[string]int64{}
			c := w.sumOn(id, 1, t, res, 0)
			start, idx := int64(0), 0
			for n, x := range t {
				if re(`SymmetryDomain\.Start$`).MatchString(n) {
					start = x
				} else if strings.Contains(n, "↺") && x == 1 {
					idx++
				} else {
					return true
				}
			}
			want := int64(0)
			if k == "interval" {
				want = 1
			}
			return c != 0 || start != want || idx != 1
		}}
		bad, tr := q.Entry(mat)
		r.Check("materialized/"+k+"/which", w.Pos(mat.Pos()), !bad, ifBad(bad, "a materialized domain has other values than it should: "+strings.Join(tr, " → ")))
	}
	for _, l := range loops {
		w.countsTo(r, "materialized/all", l, `SymmetryDomain\.Limit$`, rec)
	}
	w.must(r, step{Key: "materialized/only", Why: "values are created in a domain that is not materialized", Fn: mat, Goal: func(in ssa.Instruction) bool { return rec(in) }, Cut: w.isTrue(`\.Materialize$`), NoEnter: noEnter("lib.SymmetryContext.EnsureDomainInit")})
}

func (w *World) fnOfKey(f *ssa.Function) string { return fname(f) }

func (w *World) onlyHelpersBut(f *ssa.Function, names ...string) func(*ssa.Function) bool {
	a, b := w.onlyHelpers(f), noEnter(names...)
	return func(g *ssa.Function) bool { return a(g) || b(g) }
}

// underFlag: the values that v can have when the boolean parameter is want.
func (w *World) underFlag(v ssa.Value, flag *ssa.Parameter, want bool) []ssa.Value {
	ph, ok := peelConv(v).(*ssa.Phi)
	if !ok || naturalLoop(ph.Block()) != nil {
		return []ssa.Value{v}
	}
	var out []ssa.Value
	for i, e := range ph.Edges {
		from := ph.Block().Preds[i]
		if iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If); ok && iff.Cond == ssa.Value(flag) && (from.Succs[0] == ph.Block()) != want {
			continue
		}
		q := &Q{W: w, Cut: func(e Edge) bool { return e.Cond == ssa.Value(flag) && e.Taken != want }, NoEnter: func(*ssa.Function) bool { return true },
			Goal: func(in ssa.Instruction) bool { return in == from.Instrs[len(from.Instrs)-1] }}
		if hit, _ := q.Entry(ph.Parent()); hit {
			out = append(out, w.underFlag(e, flag, want)...)
		}
	}
	return out
}

// countsTo: the loop counts 0, 1, … up to (not including) the bound, and acts in every round.
func (w *World) countsTo(r *Rep, key string, l *LoopInfo, bound string, act func(ssa.Instruction) bool) {
	pos := w.ipos(firstNonPhi(l.Head))
	bad, tr := w.iterationSkips(l, act, nil)
	r.Check(key+"/each", pos, !bad, ifBad(bad, "a value is left out: "+strings.Join(tr, " → ")))
	bad, tr = w.leavesEarly(l, nil)
	r.Check(key+"/all", pos, !bad, ifBad(bad, "the rest is left out: "+strings.Join(tr, " → ")))
	good := false
	for _, in := range l.Head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok || ph.Type().String() == "bool" {
			continue
		}
		start, step := false, true
		for i, e := range ph.Edges {
			if l.Body[l.Head.Preds[i]] {
				b, ok := e.(*ssa.BinOp)
				step = step && ok && b.Op == token.ADD && b.X == ssa.Value(ph) && isConstInt(1)(b.Y)
			} else {
				start = isConstInt(0)(e) || isConstInt(-1)(e)
			}
		}
		iff, ok := l.Head.Instrs[len(l.Head.Instrs)-1].(*ssa.If)
		good = good || ok && start && step && matchRel(w.rels(iff.Cond, l.Body[iff.Block().Succs[0]]), `.*`, "<", bound)
	}
	r.Check(key+"/count", pos, good, ifBad(!good, "the loop does not create as many values as the limit says"))
}

// sumOn: sum, with the meaning of values on the path (those of loops excepted).
func (w *World) sumOn(v ssa.Value, sign int64, terms map[string]int64, res func(ssa.Value) ssa.Value, d int) int64 {
	v = peelConv(v)
	if ph, ok := v.(*ssa.Phi); ok && naturalLoop(ph.Block()) == nil {
		if x := peelConv(res(ph)); x != v && d < 8 {
			return w.sumOn(x, sign, terms, res, d+1)
		}
	}
	if bo, ok := v.(*ssa.BinOp); ok && d < 8 && (bo.Op == token.ADD || bo.Op == token.SUB) {
		s := sign
		if bo.Op == token.SUB {
			s = -s
		}
		return w.sumOn(bo.X, sign, terms, res, d+1) + w.sumOn(bo.Y, s, terms, res, d+1)
	}
	return w.sum(v, sign, terms, d)
}
