package main

import (
	"go/constant"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// elementLoop: the loop over the iterator (or list) that satisfies over, with at least one instruction of has.
func (x *coll) elementLoop(key string, f *ssa.Function, fns []*ssa.Function, over func(ssa.Value) bool, has func(ssa.Instruction) bool) *LoopInfo {
	ls := x.w.loopsIn(fns, over, has)
	x.check(key+"/loop", x.w.Pos(f.Pos()), len(ls) == 1, "the elements are not gone through in one loop", nil)
	if len(ls) != 1 {
		return nil
	}
	return ls[0]
}

// inCell: v is the element of the loop (read from the cell that the iterator fills, or an element of the list).
func (l *LoopInfo) has(v ssa.Value) bool {
	v = peelConv(v)
	if l.Elems[v] {
		return true
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL && l.Elems[u.X] {
		return true
	}
	return false
}

// setCall: a call of a method of GenericSet or GenericMap on a set.
func setCall(in ssa.Instruction, names ...string) (recv, arg ssa.Value) {
	c, ok := in.(*ssa.Call)
	if !ok {
		return nil, nil
	}
	n := calleeName(c)
	for _, m := range names {
		if n == "lib.GenericSet."+m && len(c.Call.Args) > 0 {
			if len(c.Call.Args) > 1 {
				return c.Call.Args[0], c.Call.Args[1]
			}
			return c.Call.Args[0], nil
		}
	}
	return nil, nil
}

// emptySet: a new set without elements.
func emptySet(v ssa.Value) bool {
	switch y := v.(type) {
	case *ssa.Call:
		return calleeName(y) == "lib.NewGenericSet"
	case *ssa.Alloc:
		return y.Heap && namedName(y.Type()) == "GenericSet"
	}
	return false
}

func (x *coll) setOperations() {
	w := x.w
	// what the others are made of
	for _, d := range [][2]string{{"Has", "Get"}, {"Get", "Get"}, {"Insert", "SetKey"}, {"Delete", "Delete"}, {"Clear", "Clear"}, {"Len", "Len"}, {"Iterate", "Iterate"}} {
		f := x.fn("lib.GenericSet." + d[0])
		if f == nil {
			continue
		}
		is := func(in ssa.Instruction) bool {
			c, ok := in.(*ssa.Call)
			if !ok || calleeName(c) != "lib.GenericMap."+d[1] {
				return false
			}
			ok = x.ofField(c.Call.Args[0], "dict") == ssa.Value(f.Params[0])
			for i := 1; i < len(f.Params); i++ {
				ok = ok && c.Call.Args[i] == ssa.Value(f.Params[i])
			}
			return ok
		}
		k := "set/" + strings.ToLower(d[0])
		w.must(x.r, step{Key: k, Why: "the elements of the set are not asked (or changed)", Fn: f, Through: is, Goal: isReturnOf(f), NoEnter: outside(w.withHelpers(f))})
		instrs(f, func(in ssa.Instruction) {
			rt, ok := in.(*ssa.Return)
			if !ok {
				return
			}
			for i := range rt.Results {
				v := retVal(rt, i)
				c, isC := v.(*ssa.Call)
				if ex, isEx := v.(*ssa.Extract); isEx {
					c, isC = ex.Tuple.(*ssa.Call)
					isC = isC && types2(ex.Type(), rt.Results[i].Type()) && ex.Type().String() == c.Call.Signature().Results().At(ex.Index).Type().String() && (ex.Index == i || i+1 == ex.Index && len(rt.Results) == 2)
				}
				x.check(k+"/result", w.ipos(in), isC && is(c), "the answer is not handed on", nil)
			}
		})
	}
	clone := x.fn("lib.GenericSet.clone")
	if clone != nil {
		fns := w.withHelpers(clone)
		var fresh ssa.Value
		puts := func(in ssa.Instruction) bool {
			r, a := setCall(in, "Insert")
			if r == nil {
				return false
			}
			l, _ := part(a, 0)
			fresh = r
			u := x.ofField(l, "entries")
			return u != nil && x.ofField(u, "dict") == ssa.Value(clone.Params[0]) && emptySet(r)
		}
		if l := x.elementLoop("set/clone", clone, fns, func(v ssa.Value) bool { return x.ofField(v, "entries") != nil || isIter(v) }, puts); l != nil {
			w.wholeLoop(x.r, "set/clone", l, puts, nil, nil)
		}
		x.check("set/clone/result", w.Pos(clone.Pos()), allReturns(clone, 0, func(v ssa.Value) bool { return v == fresh }), "the copy is not what is given", nil)
	}
	type op struct {
		name      string
		copy      bool   // starts with a copy of s (otherwise empty)
		in, notIn string // what is done with an element that is (not) in s: Insert, Delete, "" nothing, "*" does not matter
	}
	for _, o := range []op{
		{"Union", true, "*", "Insert"},
		{"Difference", true, "Delete", "*"},
		{"Intersection", false, "Insert", ""},
		{"SymmetricDifference", true, "Delete", "Insert"},
	} {
		f := x.fn("lib.GenericSet." + o.name)
		if f == nil {
			continue
		}
		x.operation("set/"+strings.ToLower(o.name), f, o.copy, o.in, o.notIn)
	}
	if f := x.fn("lib.GenericSet.IsSuperset"); f != nil {
		x.contains("set/issuperset", f, f.Params[0], func(v ssa.Value) bool { return v == ssa.Value(f.Params[1]) })
	}
	if f := x.fn("lib.GenericSet.IsSubset"); f != nil {
		x.contains("set/issubset", f, f.Params[1], func(v ssa.Value) bool { return x.iterOf(v) == ssa.Value(f.Params[0]) })
	}
}

func types2(a, b interface{ String() string }) bool { return a.String() == b.String() }

func isIter(v ssa.Value) bool { return namedName(v.Type()) == "Iterator" }

// iterOf: the iterator is of this value.
func (x *coll) iterOf(v ssa.Value) ssa.Value {
	c, ok := peelMI(v).(*ssa.Call)
	if !ok {
		return nil
	}
	if c.Call.IsInvoke() {
		if c.Call.Method.Name() == "Iterate" {
			return c.Call.Value
		}
		return nil
	}
	if strings.HasSuffix(calleeName(c), ".Iterate") {
		return c.Call.Args[0]
	}
	return nil
}

func allReturns(f *ssa.Function, i int, ok func(ssa.Value) bool) bool {
	all := true
	instrs(f, func(in ssa.Instruction) {
		if rt, is := in.(*ssa.Return); is && len(rt.Results) > i {
			all = all && ok(retVal(rt, i))
		}
	})
	return all
}

// operation: a new set from s and the elements of the other.
func (x *coll) operation(key string, f *ssa.Function, copied bool, in, notIn string) {
	w := x.w
	fns := w.withHelpers(f)
	no := outside(fns)
	s := f.Params[0]
	isS := func(v ssa.Value) bool {
		return allOf(w.argsIn(v, fns, 0), func(a ssa.Value) bool { return a == ssa.Value(s) })
	}
	base := func(v ssa.Value) bool {
		return allOf(w.argsIn(v, fns, 0), func(a ssa.Value) bool {
			if copied {
				c, ok := a.(*ssa.Call)
				return ok && calleeName(c) == "lib.GenericSet.clone" && isS(c.Call.Args[0])
			}
			return emptySet(a)
		})
	}
	loops := w.loopsIn(fns, isIter, nil)
	x.check(key+"/loop", w.Pos(f.Pos()), len(loops) == 1, "the elements of the other are not gone through once", nil)
	if len(loops) != 1 {
		return
	}
	l := loops[0]
	does := func(what string) func(ssa.Instruction) bool {
		return func(i ssa.Instruction) bool {
			r, a := setCall(i, what)
			return r != nil && base(r) && l.has(a)
		}
	}
	has := func(i ssa.Instruction) bool {
		r, a := setCall(i, "Has")
		return r != nil && a != nil && isS(r) && l.has(a)
	}
	inS, notInS := resultTrue(has, 0), resultFalse(has, 0)
	never := func(Edge) bool { return false }
	for _, c := range []struct {
		k, do string
		other func(Edge) bool
	}{{"in", in, notInS}, {"notin", notIn, inS}} {
		if c.do == "*" {
			continue
		}
		if c.do != "" {
			bad, tr := w.iterationSkips(l, does(c.do), anyCut(c.other, x.failed))
			x.check(key+"/"+c.k, w.Pos(f.Pos()), !bad, "an element that belongs (not) to the result is not "+strings.ToLower(c.do)+"ed", tr)
		}
		for _, d := range []string{"Insert", "Delete"} {
			if d == c.do {
				continue
			}
			if wrong := map[string]string{"in": in, "notin": notIn}; (c.do == "Insert" || c.do == "") && d == "Delete" && !copied {
				_ = wrong // nothing to delete
				continue
			}
			// the wrong thing, for an element of this kind
			e := l.entry()
			bad, tr := (&Q{W: w, Cut: anyCut(c.other, never), Goal: does(d), Through: func(i ssa.Instruction) bool { return i.Block() == l.Head }, NoEnter: no}).from(l.Fn, point{e, 0, l.Head})
			x.check(key+"/"+c.k+"/"+d, w.Pos(f.Pos()), !bad, "an element is "+strings.ToLower(d)+"ed that should not be", tr)
		}
	}
	bad, tr := w.leavesEarly(l, x.failed)
	x.check(key+"/all", w.Pos(f.Pos()), !bad, "the elements of the other are not all considered", tr)
	for _, g := range fns {
		instrs(g, func(i ssa.Instruction) {
			if r, a := setCall(i, "Insert", "Delete", "Clear"); r != nil {
				x.check(key+"/operand", w.ipos(i), base(r) && a != nil && l.has(a), "an operand is changed, or something else than the element is put into the result", nil)
			}
			if c, ok := i.(*ssa.Call); ok && strings.HasPrefix(calleeName(c), "lib.GenericMap.") {
				x.check(key+"/direct", w.ipos(i), false, "the entries of a set are changed directly", nil)
			}
		})
	}
	bad, tr = (&Q{W: w, NoEnter: no, GoalEnv: badReturn(f, func(res []ssa.Value) bool {
		return fails(res) || base(peelMI(res[0]))
	})}).Entry(f)
	x.check(key+"/result", w.Pos(f.Pos()), !bad, "the result is not the new set", tr)
}

// contains: the answer says whether the set has every element of the iterator.
func (x *coll) contains(key string, f *ssa.Function, set *ssa.Parameter, over func(ssa.Value) bool) {
	w := x.w
	fns := w.withHelpers(f)
	no := outside(fns)
	ls := w.loopsIn(fns, isIter, nil)
	x.check(key+"/loop", w.Pos(f.Pos()), len(ls) == 1 && allOf(w.argsIn(ls[0].Over, fns, 0), over), "the elements are not gone through once", nil)
	if len(ls) != 1 {
		return
	}
	l := ls[0]
	has := func(i ssa.Instruction) bool {
		r, a := setCall(i, "Has")
		return r != nil && a != nil && l.has(a) && allOf(w.argsIn(r, fns, 0), func(v ssa.Value) bool { return v == ssa.Value(set) })
	}
	w.wholeLoop(x.r, key, l, has, nil, anyCut(resultFalse(has, 0), x.failed))
	bad, tr := (&Q{W: w, Cut: anyCut(resultFalse(has, 0), x.failed), NoEnter: no, GoalEnv: badReturn(f, func(res []ssa.Value) bool { return isTrueConst(res[0]) && isNilConst(res[1]) })}).Entry(f)
	x.check(key+"/yes", w.Pos(f.Pos()), !bad, "no element is missing, but the answer is not yes", tr)
	for _, g := range fns {
		instrs(g, func(in ssa.Instruction) {
			if !has(in) {
				return
			}
			with := resultsAre(in.(*ssa.Call), false)
			bad, tr := (&Q{W: w, With: with, NoEnter: no, Goal: func(o ssa.Instruction) bool { return o.Block() == l.Head || isTrueReturn(o, f) }}).After(in)
			x.check(key+"/no", w.ipos(in), !bad, "an element is missing, but the answer may be yes", tr)
		})
	}
}

func isTrueReturn(in ssa.Instruction, f *ssa.Function) bool {
	rt, ok := in.(*ssa.Return)
	return ok && rt.Parent() == f && isTrueConst(retVal(rt, 0))
}

// comparisons: what ==, !=, <, <=, > and >= of collections compute.
func (x *coll) comparisons() {
	w := x.w
	for _, t := range []string{"GenericMap", "GenericSet", "Bag", "Struct"} {
		f := x.fn("lib." + t + ".CompareSameType")
		if f == nil {
			continue
		}
		fns := w.withHelpers(f)
		isX := func(v ssa.Value) bool { return x.derived(v, f.Params[0]) }
		isY := func(v ssa.Value) bool { return x.derived(v, f.Params[2]) }
		eq := ""
		equal := func(v ssa.Value) bool {
			ex, ok := v.(*ssa.Extract)
			if !ok || ex.Index != 0 {
				return false
			}
			c, ok := ex.Tuple.(*ssa.Call)
			if !ok || len(c.Call.Args) < 2 || !strings.HasSuffix(calleeName(c), "qual") {
				return false
			}
			eq = calleeName(c)
			a, b := c.Call.Args[0], c.Call.Args[1]
			return isX(a) && isY(b) || isX(b) && isY(a)
		}
		no := func(g *ssa.Function) bool { return !inFuncs(fns, g) || g == f || strings.HasSuffix(g.Name(), "qual") }
		for _, k := range []int{tokEQL, tokNEQ} {
			name := map[int]string{tokEQL: "==", tokNEQ: "!="}[k]
			bad, tr := (&Q{W: w, Cut: tokenCase(fns, w, k), NoEnter: no, GoalEnv: badReturn(f, func(res []ssa.Value) bool {
				v, neg := res[0], false
				for {
					u, ok := v.(*ssa.UnOp)
					if !ok || u.Op != token.NOT {
						break
					}
					v, neg = u.X, !neg
				}
				return fails(res) && isFalseConst(v) || equal(v) && neg == (k == tokNEQ)
			})}).Entry(f)
			x.check("compare/"+t+"/"+name, w.Pos(f.Pos()), !bad, "the operator does not say whether the two have the same elements", tr)
		}
		x.check("compare/"+t+"/equal", w.Pos(f.Pos()), eq != "", "no function says whether two are equal", nil)
		if eq != "" {
			x.equality(t, eq)
		}
		if t == "GenericSet" {
			x.subsets(f, fns, isX, isY)
		}
	}
}

// derived: the parameter, or a part of it.
func (x *coll) derived(v ssa.Value, p *ssa.Parameter) bool {
	for i := 0; i < 10; i++ {
		switch y := peelMI(v).(type) {
		case *ssa.UnOp:
			v = y.X
		case *ssa.FieldAddr:
			v = y.X
		case *ssa.Extract:
			ta, ok := y.Tuple.(*ssa.TypeAssert)
			if !ok {
				return false
			}
			v = ta.X
		case *ssa.TypeAssert:
			v = y.X
		default:
			return y == ssa.Value(p)
		}
	}
	return false
}

// subsets: x >= y means that x has every element of y; x > y that it has more; and the other way round.
func (x *coll) subsets(f *ssa.Function, fns []*ssa.Function, isX, isY func(ssa.Value) bool) {
	w := x.w
	no := func(g *ssa.Function) bool { return !inFuncs(fns, g) || g == f || strings.HasPrefix(g.Name(), "IsSu") }
	length := func(p func(ssa.Value) bool) func(ssa.Value) bool {
		return func(v ssa.Value) bool {
			c, ok := v.(*ssa.Call)
			return ok && strings.HasSuffix(calleeName(c), ".Len") && p(c.Call.Args[0])
		}
	}
	for _, k := range []int{tokGE, tokGT, tokLE, tokLT} {
		big, small := isX, isY
		if k == tokLE || k == tokLT {
			big, small = isY, isX
		}
		strict := k == tokGT || k == tokLT
		direct := func(v ssa.Value) bool { // "big has all of small"
			ex, ok := v.(*ssa.Extract)
			if !ok || ex.Index != 0 {
				return false
			}
			c, ok := ex.Tuple.(*ssa.Call)
			if !ok {
				return false
			}
			switch calleeName(c) {
			case "lib.GenericSet.IsSuperset":
				i := x.iterOf(c.Call.Args[1])
				return big(c.Call.Args[0]) && i != nil && small(i)
			case "lib.GenericSet.IsSubset":
				return small(c.Call.Args[0]) && big(c.Call.Args[1])
			}
			return false
		}
		recursive := func(v ssa.Value) bool {
			ex, ok := v.(*ssa.Extract)
			if !ok || ex.Index != 0 {
				return false
			}
			c, ok := ex.Tuple.(*ssa.Call)
			if !ok || calleeName(c) != "lib.GenericSet.CompareSameType" {
				return false
			}
			op, ok := c.Call.Args[1].(*ssa.Const)
			if !ok {
				return false
			}
			a, b := c.Call.Args[0], peelMI(c.Call.Args[2])
			switch n := int(op.Int64()); {
			case strict && n == tokGT, !strict && n == tokGE:
				return big(a) && small(b) && n != k
			case strict && n == tokLT, !strict && n == tokLE:
				return small(a) && big(b) && n != k
			}
			return false
		}
		name := map[int]string{tokGE: ">=", tokGT: ">", tokLE: "<=", tokLT: "<"}[k]
		key := "compare/subset/" + name
		only := tokenCase(fns, w, k)
		bad, tr := (&Q{W: w, Cut: only, NoEnter: no, GoalEnv: badReturn(f, func(res []ssa.Value) bool {
			return isFalseConst(res[0]) || direct(res[0]) || recursive(res[0])
		})}).Entry(f)
		x.check(key, w.Pos(f.Pos()), !bad, "the operator does not say whether one set has the elements of the other", tr)
		contra := says(length(big), length(small), token.LSS)
		if strict {
			contra = says(length(big), length(small), token.LSS, token.LEQ)
		}
		bad, tr = (&Q{W: w, Cut: anyCut(only, contra), NoEnter: no, GoalEnv: badReturn(f, func(res []ssa.Value) bool {
			return !isFalseConst(res[0]) || fails(res)
		})}).Entry(f)
		x.check(key+"/false", w.Pos(f.Pos()), !bad, "the answer is no although the sizes do not exclude it", tr)
		if strict {
			bad, tr = (&Q{W: w, Cut: anyCut(only, says(length(big), length(small), token.GTR)), NoEnter: no, GoalEnv: badReturn(f, func(res []ssa.Value) bool {
				return !direct(res[0])
			})}).Entry(f)
			x.check(key+"/strict", w.Pos(f.Pos()), !bad, "equal sets are said to be proper subsets of each other", tr)
		}
	}
}

// equality: two collections are equal when they have as many elements and each of the one is in the other.
func (x *coll) equality(t, name string) {
	w := x.w
	f := x.fn(name)
	if f == nil {
		return
	}
	fns := w.withHelpers(f)
	no := outside(fns)
	key := "equal/" + t
	a, b := f.Params[0], f.Params[1]
	side := func(v ssa.Value) int {
		for _, y := range w.argsIn(v, fns, 0) {
			switch {
			case x.derived(y, a):
				return 1
			case x.derived(y, b):
				return 2
			}
		}
		return 0
	}
	size := func(v ssa.Value) int {
		c, ok := peelConv(v).(*ssa.Call)
		if !ok || len(c.Call.Args) != 1 {
			return 0
		}
		if n := calleeName(c); n == "builtin.len" || strings.HasSuffix(strings.ToLower(n), ".len") {
			return side(c.Call.Args[0])
		}
		return 0
	}
	sizes := func(op token.Token) func(Edge) bool {
		return func(e Edge) bool {
			l, o, r, ok := relOf(e)
			return ok && o == op && size(l)*size(r) == 2
		}
	}
	var compared []*ssa.Call
	isCmp := func(in ssa.Instruction) bool { return isEq(in) && isOneOfCalls(in.(*ssa.Call), compared) }
	isLook := func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		return ok && (calleeName(c) == "lib.GenericMap.Get" || calleeName(c) == "lib.GenericSet.Has")
	}
	names := func(e Edge) bool { // the names of two fields differ
		l, o, r, ok := relOf(e)
		return ok && o == token.NEQ && strings.HasSuffix(w.plain(l), ".name") && strings.HasSuffix(w.plain(r), ".name")
	}
	for _, g := range fns {
		instrs(g, func(in ssa.Instruction) {
			if !isEq(in) {
				return
			}
			c := in.(*ssa.Call)
			compared = append(compared, c)
			p, q := x.elemSide(c.Call.Args[0], side), x.elemSide(c.Call.Args[1], side)
			x.check(key+"/sides", w.ipos(in), p*q == 2, "the values of the one are not compared with those of the other", nil)
		})
	}
	found := map[string]int{"GenericMap": 1, "GenericSet": 0}[t]
	differ := anyCut(resultFalse(isCmp, 0), resultFalse(isLook, found), names, sizes(token.NEQ), x.failed)
	if t == "Bag" {
		x.bagEqual(key, f, fns, compared, isCmp)
	} else {
		last := isLook
		if t != "GenericSet" {
			last = func(in ssa.Instruction) bool {
				return isCmp(in) && in.Parent() != nil && inLoop(in)
			}
		}
		ls := w.loopsIn(fns, func(ssa.Value) bool { return true }, last)
		if len(ls) == 0 {
			ls = countedLoops(w, fns, last)
		}
		x.check(key+"/loop", w.Pos(f.Pos()), len(ls) == 1, "the elements are not compared in one loop", nil)
		for _, l := range ls {
			w.wholeLoop(x.r, key, l, last, anyCut(differ), differ)
		}
	}
	// yes only with equal sizes, and no difference seen
	bad, tr := (&Q{W: w, Cut: sizes(token.EQL), NoEnter: no, Goal: func(in ssa.Instruction) bool { return isTrueReturn(in, f) }}).Entry(f)
	x.check(key+"/sizes", w.Pos(f.Pos()), !bad, "two of different sizes can be equal", tr)
	if t != "Bag" {
		bad, tr = (&Q{W: w, Cut: differ, NoEnter: no, GoalEnv: badReturn(f, func(res []ssa.Value) bool { return isTrueConst(res[0]) && isNilConst(res[1]) })}).Entry(f)
		x.check(key+"/yes", w.Pos(f.Pos()), !bad, "there is no difference, but the answer is not yes", tr)
		for _, g := range fns {
			instrs(g, func(in ssa.Instruction) {
				var with env
				switch {
				case isCmp(in):
					with = resultsAre(in.(*ssa.Call), false)
				case isLook(in) && found == 1:
					with = env{}
					for _, u := range *in.(*ssa.Call).Referrers() {
						if ex, ok := u.(*ssa.Extract); ok && ex.Index == 1 {
							with[ex] = ssa.NewConst(constant.MakeBool(false), ex.Type())
						}
					}
				case isLook(in):
					with = resultsAre(in.(*ssa.Call), false)
				default:
					return
				}
				bad, tr := (&Q{W: w, With: with, NoEnter: no, Goal: func(o ssa.Instruction) bool { return isTrueReturn(o, f) || o == in }}).After(in)
				x.check(key+"/no", w.ipos(in), !bad, "there is a difference, but the answer may be yes", tr)
			})
		}
		if t == "Struct" {
			// fields with different names
			n := 0
			for _, g := range fns {
				for _, b := range g.Blocks {
					iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
					if !ok || !names(Edge{If: iff, Cond: iff.Cond, Taken: true}) && !names(Edge{If: iff, Cond: iff.Cond, Taken: false}) {
						continue
					}
					n++
				}
			}
			x.check(key+"/names", w.Pos(f.Pos()), n > 0, "the names of the fields are not compared", nil)
			same := func(e Edge) bool {
				return isCompare(e) && names(Edge{If: e.If, Cond: e.Cond, Taken: !e.Taken})
			}
			bad, tr := (&Q{W: w, Cut: same, NoEnter: no, Goal: func(in ssa.Instruction) bool { return isCmp(in) && inLoop(in) }}).Entry(f)
			x.check(key+"/fields", w.Pos(f.Pos()), !bad, "values of fields with different names are compared", tr)
		}
	}
}

func inLoop(in ssa.Instruction) bool {
	for _, h := range in.Parent().Blocks {
		if b := naturalLoop(h); b != nil && b[in.Block()] {
			return true
		}
	}
	return false
}

// countedLoops: loops without a recognised collection.
func countedLoops(w *World, fns []*ssa.Function, has func(ssa.Instruction) bool) (out []*LoopInfo) {
	for _, f := range fns {
		for _, l := range w.loopsOf(f) {
			for b := range l.Body {
				for _, in := range b.Instrs {
					if has(in) {
						out = append(out, l)
					}
				}
			}
		}
	}
	return
}

// elemSide: the operand (1 or 2) that the value is an element of.
func (x *coll) elemSide(v ssa.Value, side func(ssa.Value) int) int {
	return x.elemSideOf(v, side, map[ssa.Value]bool{})
}

func (x *coll) elemSideOf(v ssa.Value, side func(ssa.Value) int, seen map[ssa.Value]bool) int {
	for i := 0; i < 12; i++ {
		if seen[v] {
			return 0
		}
		seen[v] = true
		if s := side(v); s != 0 {
			return s
		}
		switch y := peelMI(v).(type) {
		case *ssa.UnOp:
			v = y.X
		case *ssa.IndexAddr:
			v = y.X
		case *ssa.Index:
			v = y.X
		case *ssa.FieldAddr:
			v = y.X
		case *ssa.Field:
			v = y.X
		case *ssa.Slice:
			v = y.X
		case *ssa.Extract:
			v = y.Tuple
		case *ssa.Call:
			for _, a := range y.Call.Args {
				if s := x.elemSideOf(a, side, seen); s != 0 {
					return s
				}
			}
			return 0
		case *ssa.Phi:
			for _, l := range phiLeaves(y) {
				if s := x.elemSideOf(l, side, seen); s != 0 {
					return s
				}
			}
			return 0
		case *ssa.Alloc:
			for _, u := range *y.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(y) {
					return x.elemSideOf(st.Val, side, seen)
				}
			}
			return 0
		default:
			return 0
		}
	}
	return 0
}

// bagEqual: every element of the one has a partner of its own among those of the other.
func (x *coll) bagEqual(key string, f *ssa.Function, fns []*ssa.Function, compared []*ssa.Call, isCmp func(ssa.Instruction) bool) {
	w := x.w
	no := outside(fns)
	for _, c := range compared {
		var rest, idx ssa.Value
		for _, a := range c.Call.Args[:2] {
			if l, i := indexOf(a); l != nil {
				if _, ok := l.(*ssa.Phi); ok {
					rest, idx = l, i
				}
			}
		}
		pos := w.ipos(c)
		x.check(key+"/partners", pos, rest != nil, "the elements are compared by their places, or a partner is used twice", nil)
		if rest == nil {
			continue
		}
		isRemoval := func(v ssa.Value) bool {
			l, i := removal(v)
			return l != nil && l == rest && i == idx
		}
		ok := true
		for _, l := range phiLeaves(rest) {
			ok = ok && (isRemoval(l) || x.cloneOf(l, f))
		}
		x.check(key+"/rest", pos, ok, "the partners that are left are not those of a copy", nil)
		with := resultsAre(c, true)
		x.setErr(c, 1, with)
		removes := func(in ssa.Instruction) bool {
			v, ok := in.(ssa.Value)
			return ok && isRemoval(v)
		}
		bad, tr := (&Q{W: w, With: with, Through: removes, Goal: func(in ssa.Instruction) bool { return isCmp(in) || isTrueReturn(in, f) }, NoEnter: no}).After(c)
		x.check(key+"/once", pos, !bad, "a partner is used for several elements", tr)
		for _, l := range w.loopsOf(c.Parent()) {
			if !l.Body[c.Block()] {
				continue
			}
			if l.Over == rest {
				w.wholeLoop(x.r, key+"/inner", l, isCmp, nil, anyCut(resultTrue(isCmp, 0), x.failed))
			} else {
				bad, tr := w.leavesEarly(l, anyCut(resultFalse(isCmp, 0), x.failed))
				_ = bad
				// an element without a partner decides; otherwise all are looked at
				x.check(key+"/outer", pos, l.Over != nil && w.partial(l) == "", "not all elements are looked at", tr)
				e := l.entry()
				bad, tr = (&Q{W: w, Cut: anyCut(resultTrue(isCmp, 0), x.failed), NoEnter: no, Goal: func(in ssa.Instruction) bool {
					return in.Block() == l.Head || isTrueReturn(in, f)
				}}).from(l.Fn, point{e, 0, l.Head})
				x.check(key+"/no", pos, !bad, "an element has no partner, but the answer may be yes", tr)
				bad, tr = (&Q{W: w, Cut: anyCut(resultFalse(isCmp, 0), x.failed, lastOf(rest)), NoEnter: no, Through: func(in ssa.Instruction) bool { return in.Block() == l.Head },
					GoalEnv: badReturn(f, func(res []ssa.Value) bool { return fails(res) || isTrueConst(res[0]) })}).from(l.Fn, point{e, 0, l.Head})
				x.check(key+"/yes", pos, !bad, "an element has a partner, but the answer is no", tr)
			}
		}
	}
}

// lastOf: the edge on which the loop over the list ends.
func lastOf(list ssa.Value) func(Edge) bool {
	return says(func(ssa.Value) bool { return true }, lenOf(func(v ssa.Value) bool { return v == list }), token.GEQ)
}

// cloneOf: a copy of a parameter's list.
func (x *coll) cloneOf(v ssa.Value, f *ssa.Function) bool {
	src := func(l ssa.Value) bool { return x.derived(l, f.Params[0]) || x.derived(l, f.Params[1]) }
	switch y := peelConv(v).(type) {
	case *ssa.Call:
		switch n := calleeName(y); {
		case strings.HasPrefix(n, "slices.Clone"):
			return src(y.Call.Args[0])
		case n == "builtin.append":
			return (isNilConst(y.Call.Args[0]) || x.emptyList(y.Call.Args[0])) && src(y.Call.Args[1])
		}
	case *ssa.MakeSlice:
		for _, u := range *y.Referrers() {
			if c, ok := u.(*ssa.Call); ok && calleeName(c) == "builtin.copy" && c.Call.Args[0] == ssa.Value(y) && src(c.Call.Args[1]) {
				return true
			}
		}
	}
	return false
}

// table: the functions of the methods of a type, by name.
func (x *coll) table(global string) map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	for _, f := range x.w.Funcs {
		if f.Name() != "init" || f.Package() == nil || f.Package().Pkg.Name() != "lib" {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok {
				return
			}
			in2 := false
			for _, u := range *mu.Map.Referrers() {
				st, ok := u.(*ssa.Store)
				if ok {
					g, isG := st.Addr.(*ssa.Global)
					in2 = in2 || isG && g.Name() == global
				}
			}
			if !in2 {
				return
			}
			k, ok := mu.Key.(*ssa.Const)
			if !ok || k.Value == nil {
				return
			}
			name := constant.StringVal(k.Value)
			c, ok := peelMI(mu.Value).(*ssa.Call)
			if !ok || calleeName(c) != "starlark.NewBuiltin" {
				if strings.HasSuffix(global, "Methods") {
					x.check("method/"+global+"/"+name, x.w.ipos(in), false, "not a builtin function", nil)
				}
				return
			}
			n, isC := c.Call.Args[0].(*ssa.Const)
			x.check("method/"+global+"/"+name+"/name", x.w.ipos(in), isC && constant.StringVal(n.Value) == name, "the method has another name", nil)
			for _, g := range x.w.funcValues(c.Call.Args[1], 0) {
				out[name] = g
			}
		})
	}
	return out
}

// sorted names.
func names(m map[string]*ssa.Function) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}
