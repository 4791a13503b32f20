package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("S16", ruleS16) }

// coll: what the rules about the collections share.
type coll struct {
	w *World
	r *Rep
}

func ruleS16(c *Ctx, r *Rep) {
	x := &coll{w: c.World, r: r}
	r.Rule("an entry is looked up, added, replaced and removed where the key (the element) equals the argument, and nowhere else")
	x.mapEntries()
	x.bagEntries()
	r.Rule("the operations on sets compute what their names say, and leave their operands as they are")
	x.setOperations()
	x.comparisons()
	r.Rule("the methods that specifications call do what their names say, and hand out what they found")
	x.methods()
	r.Rule("an iteration sees every element once, even when the collection changes meanwhile")
	x.iterators()
	r.Rule("the itertools functions enumerate completely, and every result is a tuple of its own")
	x.itertools()
	r.Rule("a record has one value per field")
	x.records()
}

func (x *coll) check(key, pos string, ok bool, why string, tr []string) {
	if len(tr) > 0 {
		why += ": " + strings.Join(tr, " → ")
	}
	x.r.Check(key, pos, ok, ifBad(!ok, why))
}

// fn finds a function that the rules are about.
func (x *coll) fn(name string) *ssa.Function {
	f := x.w.Func(name)
	if f == nil {
		x.r.Undecided(name, "-", "function not found")
	}
	return f
}

func isEq(in ssa.Instruction) bool {
	c, ok := in.(*ssa.Call)
	return ok && (calleeName(c) == "starlark.Equal" || calleeName(c) == "starlark.EqualDepth")
}

// failed: edges that state that an error occurred.
func (x *coll) failed(e Edge) bool {
	l, op, r, ok := relOf(e)
	if !ok || op != token.NEQ {
		return false
	}
	return isErrType(l.Type()) && isNilConst(r) || isErrType(r.Type()) && isNilConst(l)
}

// works: edges that state that no error occurred.
func (x *coll) works(e Edge) bool {
	return x.failed(Edge{If: e.If, Cond: e.Cond, Taken: !e.Taken}) && isCompare(e)
}

func isCompare(e Edge) bool { _, _, _, ok := relOf(e); return ok }

func resultTrue(p func(ssa.Instruction) bool, k int) func(Edge) bool  { return resultIs(p, k, true) }
func resultFalse(p func(ssa.Instruction) bool, k int) func(Edge) bool { return resultIs(p, k, false) }

// part: the i-th part of an entry (0 the key, 1 the value), and the entry's list and index.
func part(v ssa.Value, i int64) (list, idx ssa.Value) {
	e, k := indexOf(v)
	if e == nil || !isConstInt(i)(k) {
		return nil, nil
	}
	return indexOf(e)
}

// ofField: the list is the field of the value (directly, not a part of it).
func (x *coll) ofField(list ssa.Value, field string) (base ssa.Value) {
	if list == nil {
		return nil
	}
	u, ok := peelConv(list).(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok || fieldName(fa.X.Type(), fa.Field) != field {
		return nil
	}
	return fa.X
}

// search describes a function that looks for an element of its receiver's list.
type search struct {
	f     *ssa.Function
	fns   []*ssa.Function
	no    func(*ssa.Function) bool
	eqs   []*ssa.Call
	loops []*LoopInfo
	list  ssa.Value
	idx   ssa.Value
}

// search: f compares every element (or its key) with the argument until it finds an equal one.
func (x *coll) search(key string, f *ssa.Function, field string, keyed bool, arg *ssa.Parameter) *search {
	w := x.w
	s := &search{f: f, fns: w.withHelpers(f)}
	s.no = outside(s.fns)
	isKey := func(v ssa.Value) bool {
		return allOf(w.argsIn(v, s.fns, 0), func(a ssa.Value) bool { return a == ssa.Value(arg) })
	}
	elem := func(v ssa.Value) (ssa.Value, ssa.Value) {
		if keyed {
			return part(v, 0)
		}
		return indexOf(v)
	}
	for _, g := range s.fns {
		instrs(g, func(in ssa.Instruction) {
			if !isEq(in) {
				return
			}
			c := in.(*ssa.Call)
			ok := false
			for _, p := range [][2]int{{0, 1}, {1, 0}} {
				l, i := elem(c.Call.Args[p[0]])
				if l != nil && isKey(c.Call.Args[p[1]]) && x.isOwn(l, f, s.fns, field) {
					ok, s.list, s.idx = true, l, i
				}
			}
			if ok {
				s.eqs = append(s.eqs, c)
			}
			x.check(key+"/compared", w.ipos(in), ok, "something else than the elements is compared with what is looked for", nil)
		})
	}
	x.check(key+"/compares", w.Pos(f.Pos()), len(s.eqs) > 0, "the elements are not compared with what is looked for", nil)
	if len(s.eqs) == 0 {
		return nil
	}
	s.loops = w.loopsIn(s.fns, func(v ssa.Value) bool { return v == s.list }, s.isEq)
	x.check(key+"/loop", w.Pos(f.Pos()), len(s.loops) == 1, "the elements are not compared in one loop over all of them", nil)
	for _, l := range s.loops {
		w.wholeLoop(x.r, key, l, s.isEq, nil, anyCut(resultTrue(s.isEq, 0), x.failed))
	}
	return s
}

func (s *search) isEq(in ssa.Instruction) bool {
	c, ok := in.(*ssa.Call)
	return ok && isOneOfCalls(c, s.eqs)
}

// isOwn: the list is the field of the receiver.
func (x *coll) isOwn(l ssa.Value, f *ssa.Function, fns []*ssa.Function, field string) bool {
	for _, a := range x.w.argsIn(l, fns, 0) {
		base := x.ofField(a, field)
		if base == nil || !allOf(x.w.argsIn(base, fns, 0), func(b ssa.Value) bool { return b == ssa.Value(f.Params[0]) }) {
			return false
		}
	}
	return true
}

// returns a query goal: a return of f whose results do not satisfy ok (given their meaning on the path).
func badReturn(f *ssa.Function, ok func(res []ssa.Value) bool) func(ssa.Instruction, func(ssa.Value) ssa.Value) bool {
	return func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
		rt, is := in.(*ssa.Return)
		if !is || rt.Parent() != f {
			return false
		}
		var vs []ssa.Value
		for i := range rt.Results {
			vs = append(vs, res(retVal(rt, i)))
		}
		return !ok(vs)
	}
}

// fails: the last result is an error.
func fails(res []ssa.Value) bool {
	return len(res) > 0 && isErrType(res[len(res)-1].Type()) && !isNilConst(res[len(res)-1])
}

// found: with an equal element the results satisfy yes, without one no.
func (x *coll) found(key string, s *search, yes, no func(res []ssa.Value) bool) {
	for _, c := range s.eqs {
		with := resultsAre(c, true)
		for _, u := range *c.Referrers() {
			if ex, ok := u.(*ssa.Extract); ok && ex.Index == 1 {
				with[ex] = ssa.NewConst(nil, ex.Type())
			}
		}
		if yes != nil && c.Parent() == s.f {
			bad, tr := (&Q{W: x.w, With: with, GoalEnv: badReturn(s.f, yes), NoEnter: s.no}).After(c)
			x.check(key+"/found", x.w.ipos(c), !bad, "an equal element is there, but not the one that is dealt with", tr)
		}
	}
	if no != nil {
		bad, tr := (&Q{W: x.w, Cut: anyCut(resultTrue(s.isEq, 0), x.failed), GoalEnv: badReturn(s.f, no), NoEnter: s.no}).Entry(s.f)
		x.check(key+"/missing", x.w.Pos(s.f.Pos()), !bad, "no equal element is there, but one is dealt with", tr)
	}
}

// same element: v is the part of the element that was compared.
func (s *search) partOf(v ssa.Value, i int64) bool {
	l, k := part(v, i)
	return l != nil && sameList(l, s.list) && k == s.idx
}

func (s *search) elemIs(v ssa.Value) bool {
	l, k := indexOf(v)
	return l != nil && sameList(l, s.list) && k == s.idx
}

// sameList: the same place, read twice.
func sameList(a, b ssa.Value) bool {
	a, b = peelConv(a), peelConv(b)
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == token.MUL && y.Op == token.MUL && sameList(x.X, y.X)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameList(x.X, y.X)
	case *ssa.TypeAssert:
		y, ok := b.(*ssa.TypeAssert)
		return ok && sameList(x.X, y.X)
	case *ssa.Call:
		y, ok := b.(*ssa.Call)
		return ok && strings.HasSuffix(calleeName(x), "Builtin.Receiver") && calleeName(y) == calleeName(x) && x.Call.Args[0] == y.Call.Args[0]
	}
	return false
}

func isTrueConst(v ssa.Value) bool  { b, k := constBool(v); return k && b }
func isFalseConst(v ssa.Value) bool { b, k := constBool(v); return k && !b }

// removal: the list without the element at the index (append(l[:i], l[i+1:]...) or slices.Delete(l, i, i+1)).
func removal(v ssa.Value) (list, idx ssa.Value) {
	c, ok := peelConv(v).(*ssa.Call)
	if !ok {
		return nil, nil
	}
	plus1 := func(v, i ssa.Value) bool {
		b, ok := v.(*ssa.BinOp)
		return ok && b.Op == token.ADD && b.X == i && isConstInt(1)(b.Y)
	}
	switch n := calleeName(c); {
	case n == "builtin.append" && len(c.Call.Args) == 2:
		a, ok1 := peelConv(c.Call.Args[0]).(*ssa.Slice)
		b, ok2 := peelConv(c.Call.Args[1]).(*ssa.Slice)
		if !ok1 || !ok2 || a.Low != nil && !isZero(a.Low) || a.High == nil || b.High != nil || b.Low == nil || !sameList(a.X, b.X) || !plus1(b.Low, a.High) {
			return nil, nil
		}
		return a.X, a.High
	case strings.HasPrefix(n, "slices.Delete"):
		a := c.Call.Args
		if len(a) != 3 || !plus1(a[2], a[1]) {
			return nil, nil
		}
		return a[0], a[1]
	}
	return nil, nil
}

// shortened: the list without its last element.
func shortened(v ssa.Value) (list ssa.Value) {
	s, ok := peelConv(v).(*ssa.Slice)
	if !ok || s.Low != nil && !isZero(s.Low) || s.High == nil || !isLastOf(s.High, s.X) {
		return nil
	}
	return s.X
}

// isLastOf: v is len(list)-1.
func isLastOf(v, list ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op != token.SUB || !isConstInt(1)(b.Y) {
		return false
	}
	c, ok := b.X.(*ssa.Call)
	if !ok {
		return false
	}
	if calleeName(c) == "builtin.len" {
		return sameList(c.Call.Args[0], list)
	}
	return strings.HasSuffix(calleeName(c), ".Len")
}

// writesList: stores to the field, with the stored value.
func (x *coll) writesList(typ, field string) func(ssa.Instruction) ssa.Value {
	return func(in ssa.Instruction) ssa.Value {
		st, base := fieldStore(in, typ, field)
		if st == nil || base == nil {
			return nil
		}
		return st.Val
	}
}

// mapEntries: the entries of a GenericMap.
func (x *coll) mapEntries() {
	w := x.w
	get, set, del := x.fn("lib.GenericMap.Get"), x.fn("lib.GenericMap.SetKey"), x.fn("lib.GenericMap.Delete")
	if get == nil || set == nil || del == nil {
		return
	}
	ok3 := func(p func(v, found ssa.Value) bool) func([]ssa.Value) bool {
		return func(res []ssa.Value) bool {
			return len(res) == 3 && (isNilConst(res[2]) && p(res[0], res[1]) || fails(res) && !isErrFree(res[2]))
		}
	}
	missing := func(res []ssa.Value) bool { return len(res) == 3 && isNilConst(res[2]) && isFalseConst(res[1]) }
	if s := x.search("map/get", get, "entries", true, get.Params[1]); s != nil {
		x.found("map/get", s, ok3(func(v, f ssa.Value) bool { return isTrueConst(f) && s.partOf(v, 1) }), missing)
	}
	if s := x.search("map/delete", del, "entries", true, del.Params[1]); s != nil {
		x.found("map/delete", s, ok3(func(v, f ssa.Value) bool { return isTrueConst(f) && s.partOf(v, 1) }), missing)
		x.removes("map/delete", s, "GenericMap", "entries")
	}
	if s := x.search("map/set", set, "entries", true, set.Params[1]); s != nil {
		val, key := set.Params[2], set.Params[1]
		tuple := func(v ssa.Value) bool {
			es := sliceElems2(v)
			return len(es) == 2 && (es[0] == ssa.Value(key) || s.partOf(es[0], 0)) && es[1] == ssa.Value(val)
		}
		adds := func(in ssa.Instruction) bool {
			v := x.writesList("GenericMap", "entries")(in)
			if v == nil {
				return false
			}
			c, ok := peelConv(v).(*ssa.Call)
			if !ok || calleeName(c) != "builtin.append" || len(c.Call.Args) != 2 {
				return false
			}
			es := sliceElems2(c.Call.Args[1])
			return len(es) == 1 && tuple(es[0]) && x.isOwn(c.Call.Args[0], set, s.fns, "entries")
		}
		replaces := func(in ssa.Instruction) bool {
			st, ok := in.(*ssa.Store)
			if !ok {
				return false
			}
			ia, ok := st.Addr.(*ssa.IndexAddr)
			return ok && ia.Index == s.idx && sameList(ia.X, s.list) && tuple(st.Val)
		}
		for _, c := range s.eqs {
			with := resultsAre(c, true)
			x.setErr(c, 1, with)
			bad, tr := (&Q{W: w, With: with, Through: replaces, Goal: isReturnOf(set), NoEnter: s.no}).After(c)
			x.check("map/set/replaces", w.ipos(c), !bad, "an equal key is there, but its value is not replaced", tr)
			bad, tr = (&Q{W: w, With: with, Goal: adds, NoEnter: s.no}).After(c)
			x.check("map/set/once", w.ipos(c), !bad, "an equal key is there, but the key is added again", tr)
		}
		bad, tr := (&Q{W: w, Cut: anyCut(resultTrue(s.isEq, 0), x.failed), Through: adds, Goal: isReturnOf(set), NoEnter: s.no}).Entry(set)
		x.check("map/set/adds", w.Pos(set.Pos()), !bad, "no equal key is there, but the entry is not added", tr)
	}
	x.ownWriters()
	x.lists()
}

func isErrFree(v ssa.Value) bool { return isNilConst(v) }

func (x *coll) setErr(c *ssa.Call, k int, with env) {
	for _, u := range *c.Referrers() {
		if ex, ok := u.(*ssa.Extract); ok && ex.Index == k {
			with[ex] = ssa.NewConst(nil, ex.Type())
		}
	}
}

// removes: exactly the element that was found is removed.
func (x *coll) removes(key string, s *search, typ, field string) {
	w := x.w
	stores := func(in ssa.Instruction) bool { return x.writesList(typ, field)(in) != nil }
	right := func(in ssa.Instruction) bool {
		v := x.writesList(typ, field)(in)
		if v == nil {
			return false
		}
		l, i := removal(v)
		return l != nil && allOf(w.argsIn(i, s.fns, 0), func(a ssa.Value) bool { return a == s.idx }) && x.isOwn(l, s.f, s.fns, field)
	}
	for _, g := range s.fns {
		instrs(g, func(in ssa.Instruction) {
			if stores(in) {
				x.check(key+"/removes", w.ipos(in), right(in), "something else than the element that was found is removed", nil)
			}
		})
	}
	for _, c := range s.eqs {
		if c.Parent() != s.f {
			continue
		}
		with := resultsAre(c, true)
		x.setErr(c, 1, with)
		bad, tr := (&Q{W: w, With: with, Through: right, Goal: isReturnOf(s.f), NoEnter: s.no}).After(c)
		x.check(key+"/removed", w.ipos(c), !bad, "the element that was found is not removed", tr)
	}
	bad, tr := (&Q{W: w, Cut: resultTrue(s.isEq, 0), Goal: stores, NoEnter: s.no}).Entry(s.f)
	x.check(key+"/only", w.Pos(s.f.Pos()), !bad, "something is removed although no equal element was found", tr)
}

// ownWriters: entries get into a map by SetKey only, and an entry that was handed out does not change.
func (x *coll) ownWriters() {
	w := x.w
	set := w.Func("lib.GenericMap.SetKey")
	own := w.withHelpers(set)
	n := 0
	for _, f := range w.Funcs {
		if f.Package() == nil || len(f.Blocks) == 0 || f.Package() != set.Package() {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			if v := x.writesList("GenericMap", "entries")(in); v != nil {
				n++
				l, _ := removal(v)
				ok := inFuncs(own, f) || l != nil || shortened(v) != nil || isNilConst(v) || x.emptyList(v)
				x.check("map/unique", w.ipos(in), ok, "entries are added without looking whether there is one with the key", nil)
			}
			// writing into an entry
			if st, ok := in.(*ssa.Store); ok {
				if ia, ok := st.Addr.(*ssa.IndexAddr); ok && namedName(ia.X.Type()) == "Tuple" {
					_, made := ia.X.(*ssa.MakeSlice)
					if !made {
						sl, ok := ia.X.(*ssa.Slice)
						if ok {
							_, made = sl.X.(*ssa.Alloc)
						}
					}
					x.check("map/entry", w.ipos(in), made, "an entry, which may have been handed out as an item, is changed", nil)
				}
			}
		})
	}
	x.r.Floor("writers of the entries of a map", n, 3)
}

func (x *coll) emptyList(v ssa.Value) bool {
	switch y := peelConv(v).(type) {
	case *ssa.MakeSlice:
		return isZero(y.Len)
	case *ssa.Slice:
		a, ok := y.X.(*ssa.Alloc)
		return ok && a.Parent() != nil && (isZero(y.High) || strings.Contains(a.Type().String(), "[0]")) || y.High != nil && isZero(y.High)
	}
	return false
}

// lists: Items, Keys and the number of entries.
func (x *coll) lists() {
	w := x.w
	if f := x.fn("lib.GenericMap.Keys"); f != nil {
		x.collects("map/keys", f, "entries", 0)
	}
	if f := x.fn("lib.GenericMap.Items"); f != nil {
		// a copy of the list: the list itself changes
		ok := true
		instrs(f, func(in ssa.Instruction) {
			if rt, is := in.(*ssa.Return); is {
				ok = ok && x.copied(retVal(rt, 0), f)
			}
		})
		x.check("map/items/copy", w.Pos(f.Pos()), ok, "the items are not a copy of all entries", nil)
	}
	for _, t := range []string{"GenericMap", "Bag"} {
		f := x.fn("lib." + t + ".Len")
		if f == nil {
			continue
		}
		fld := map[string]string{"GenericMap": "entries", "Bag": "elems"}[t]
		instrs(f, func(in ssa.Instruction) {
			if rt, is := in.(*ssa.Return); is {
				c, ok := retVal(rt, 0).(*ssa.Call)
				ok = ok && calleeName(c) == "builtin.len" && x.ofField(c.Call.Args[0], fld) == ssa.Value(f.Params[0])
				x.check("len/"+t, w.ipos(in), ok, "the length is not the number of elements", nil)
			}
		})
	}
}

// copied: a copy of the whole list of the receiver.
func (x *coll) copied(v ssa.Value, f *ssa.Function) bool {
	own := func(l ssa.Value) bool {
		u, ok := peelConv(l).(*ssa.UnOp)
		if !ok {
			return false
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		return ok && fa.X == ssa.Value(f.Params[0])
	}
	switch y := peelConv(v).(type) {
	case *ssa.Call:
		switch n := calleeName(y); {
		case strings.HasPrefix(n, "slices.Clone"):
			return own(y.Call.Args[0])
		case n == "builtin.append":
			return (isNilConst(y.Call.Args[0]) || x.emptyList(y.Call.Args[0])) && own(y.Call.Args[1])
		case strings.HasSuffix(n, "GenericMap.Items"):
			return y.Call.Args[0] == ssa.Value(f.Params[0])
		}
	case *ssa.MakeSlice:
		l, ok := y.Len.(*ssa.Call)
		if !ok || calleeName(l) != "builtin.len" || !own(l.Call.Args[0]) {
			return false
		}
		for _, u := range *y.Referrers() {
			if c, ok := u.(*ssa.Call); ok && calleeName(c) == "builtin.copy" && c.Call.Args[0] == ssa.Value(y) && own(c.Call.Args[1]) {
				return true
			}
		}
	}
	return false
}

// collects: the result has, for every entry, its i-th part at the entry's place.
func (x *coll) collects(key string, f *ssa.Function, field string, i int64) {
	w := x.w
	fns := w.withHelpers(f)
	n := 0
	puts := func(in ssa.Instruction) bool {
		var v ssa.Value
		switch y := in.(type) {
		case *ssa.Store:
			ia, ok := y.Addr.(*ssa.IndexAddr)
			if !ok {
				return false
			}
			l, k := part(y.Val, i)
			_ = l
			if k == nil || k != ia.Index {
				return false
			}
			v = y.Val
		case *ssa.Call:
			if calleeName(y) != "builtin.append" || len(y.Call.Args) != 2 {
				return false
			}
			es := sliceElems2(y.Call.Args[1])
			if len(es) != 1 {
				return false
			}
			v = es[0]
		default:
			return false
		}
		l, k := part(v, i)
		return l != nil && k != nil
	}
	for _, l := range w.loopsIn(fns, func(v ssa.Value) bool { return x.ofField(v, field) != nil || sliceElem(v.Type()) != nil }, puts) {
		n++
		w.wholeLoop(x.r, key, l, puts, nil, nil)
	}
	x.check(key+"/all", w.Pos(f.Pos()), n == 1, "not every entry is listed", nil)
}

// bagEntries: the elements of a Bag.
func (x *coll) bagEntries() {
	w := x.w
	find := x.fn("lib.Bag.Find")
	ins := x.fn("lib.Bag.Insert")
	del := x.fn("lib.Bag.Delete")
	if find == nil || ins == nil || del == nil {
		return
	}
	if s := x.search("bag/find", find, "elems", false, find.Params[1]); s != nil {
		x.found("bag/find", s, func(res []ssa.Value) bool { return len(res) == 2 && res[0] == s.idx && isNilConst(res[1]) },
			func(res []ssa.Value) bool { return len(res) == 2 && isConstInt(-1)(res[0]) && isNilConst(res[1]) })
	}
	isFind := isCall("lib.Bag.Find")
	none := func(e Edge) bool { // no element was found
		l, op, rr, ok := relOf(e)
		if !ok {
			return false
		}
		ex, isEx := l.(*ssa.Extract)
		if !isEx || ex.Index != 0 || !isFind(ex.Tuple.(ssa.Instruction)) {
			return false
		}
		return op == token.LSS && isZero(rr) || op == token.EQL && isConstInt(-1)(rr) || op == token.LEQ && isConstInt(-1)(rr)
	}
	some := func(e Edge) bool { return isCompare(e) && none(Edge{If: e.If, Cond: e.Cond, Taken: !e.Taken}) }
	bool1 := func(v ssa.Value, want bool, cut func(Edge) bool) bool { // v can only be want
		if b, k := constBool(v); k {
			return b == want
		}
		return cut(Edge{Cond: v, Taken: !want})
	}
	for _, m := range []string{"Delete", "Has", "Get"} {
		f := x.fn("lib.Bag." + m)
		if f == nil {
			continue
		}
		fns := w.withHelpers(f)
		no := outside(fns)
		k := "bag/" + strings.ToLower(m)
		n := 0
		for _, g := range fns {
			instrs(g, func(in ssa.Instruction) {
				if isFind(in) {
					n++
					c := in.(*ssa.Call)
					ok := c.Call.Args[0] == ssa.Value(f.Params[0]) && c.Call.Args[1] == ssa.Value(f.Params[1])
					x.check(k+"/find", w.ipos(in), ok, "something else is looked for", nil)
				}
			})
		}
		x.check(k+"/finds", w.Pos(f.Pos()), n > 0, "the element is not looked for", nil)
		fi := map[string]int{"Delete": 0, "Has": 0, "Get": 1}[m]
		bad, tr := (&Q{W: w, Cut: anyCut(none, x.failed), NoEnter: no, GoalEnv: badReturn(f, func(res []ssa.Value) bool {
			return bool1(res[fi], true, none) || !isNilConst(res[len(res)-1]) && m != "Delete" && m != "Get"
		})}).Entry(f)
		x.check(k+"/found", w.Pos(f.Pos()), !bad, "an equal element is there, but it is said that there is none", tr)
		bad, tr = (&Q{W: w, Cut: anyCut(some, x.failed), NoEnter: no, GoalEnv: badReturn(f, func(res []ssa.Value) bool { return bool1(res[fi], false, some) })}).Entry(f)
		x.check(k+"/missing", w.Pos(f.Pos()), !bad, "no equal element is there, but it is said that there is one", tr)
		switch m {
		case "Delete":
			right := func(in ssa.Instruction) bool {
				v := x.writesList("Bag", "elems")(in)
				if v == nil {
					return false
				}
				l, i := removal(v)
				ex, ok := i.(*ssa.Extract)
				return l != nil && ok && ex.Index == 0 && isFind(ex.Tuple.(ssa.Instruction)) && x.isOwn(l, f, fns, "elems")
			}
			bad, tr := (&Q{W: w, Cut: anyCut(none, x.failed), Through: right, Goal: isReturnOf(f), NoEnter: no}).Entry(f)
			x.check(k+"/removed", w.Pos(f.Pos()), !bad, "the element that was found is not removed", tr)
			bad, tr = (&Q{W: w, Cut: some, Goal: func(in ssa.Instruction) bool { return x.writesList("Bag", "elems")(in) != nil }, NoEnter: no}).Entry(f)
			x.check(k+"/only", w.Pos(f.Pos()), !bad, "something is removed although no equal element was found", tr)
		case "Get":
			bad, tr := (&Q{W: w, Cut: anyCut(none, x.failed), NoEnter: no, GoalEnv: badReturn(f, func(res []ssa.Value) bool {
				l, i := indexOf(res[0])
				ex, ok := i.(*ssa.Extract)
				return l != nil && ok && ex.Index == 0 && isFind(ex.Tuple.(ssa.Instruction)) && x.isOwn(l, f, fns, "elems")
			})}).Entry(f)
			x.check(k+"/value", w.Pos(f.Pos()), !bad, "another element is given", tr)
		}
	}
	// Insert: the element is added once, the others stay
	fns := w.withHelpers(ins)
	adds := func(in ssa.Instruction) bool {
		v := x.writesList("Bag", "elems")(in)
		if v == nil {
			return false
		}
		c, ok := peelConv(v).(*ssa.Call)
		if !ok {
			return false
		}
		n := calleeName(c)
		if strings.HasPrefix(n, "slices.Insert") && len(c.Call.Args) == 3 {
			es := sliceElems2(c.Call.Args[2])
			return len(es) == 1 && es[0] == ssa.Value(ins.Params[1]) && x.isOwn(c.Call.Args[0], ins, fns, "elems")
		}
		if n == "builtin.append" && len(c.Call.Args) == 2 {
			es := sliceElems2(c.Call.Args[1])
			return len(es) == 1 && es[0] == ssa.Value(ins.Params[1]) && x.isOwn(c.Call.Args[0], ins, fns, "elems")
		}
		return false
	}
	w.must(x.r, step{Key: "bag/insert", Why: "the element is not added", Fn: ins, Through: adds, Goal: isReturnOf(ins), NoEnter: outside(fns)})
	n := 0
	for _, g := range fns {
		instrs(g, func(in ssa.Instruction) {
			if x.writesList("Bag", "elems")(in) == nil {
				return
			}
			n++
			bad, tr := (&Q{W: w, Goal: func(o ssa.Instruction) bool { return x.writesList("Bag", "elems")(o) != nil }, NoEnter: outside(fns)}).After(in)
			x.check("bag/insert/once", w.ipos(in), !bad, "the element is added twice", tr)
		})
	}
	x.r.Floor("additions of elements to a bag", n, 1)
}
