package main

import (
	"go/constant"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// builtin describes a Go function that specifications call.
type builtinFn struct {
	x     *coll
	f     *ssa.Function
	fns   []*ssa.Function
	cells []ssa.Value
	key   string
}

func (x *coll) builtin(key string, f *ssa.Function) *builtinFn {
	b := &builtinFn{x: x, f: f, key: key}
	for _, g := range x.w.withHelpers(f) {
		if rv := g.Signature.Recv(); g != f && rv != nil {
			switch namedName(rv.Type()) {
			case "GenericMap", "GenericSet", "Bag":
				continue // judged by itself
			}
		}
		b.fns = append(b.fns, g)
	}
	for _, g := range b.fns {
		instrs(g, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok || b.cells != nil {
				return
			}
			switch calleeName(c) {
			case "starlark.UnpackPositionalArgs":
				for _, e := range sliceElems2(c.Call.Args[4]) {
					b.cells = append(b.cells, peelMI(e))
				}
			case "starlark.UnpackArgs":
				for i, e := range sliceElems2(c.Call.Args[3]) {
					if i%2 == 1 {
						b.cells = append(b.cells, peelMI(e))
					}
				}
			}
		})
	}
	return b
}

func (b *builtinFn) no(g *ssa.Function) bool { return !inFuncs(b.fns, g) }

// arg: the i-th argument of the specification's call.
func (b *builtinFn) arg(i int) func(ssa.Value) bool {
	return func(v ssa.Value) bool {
		return allOf(b.x.w.argsIn(v, b.fns, 0), func(a ssa.Value) bool {
			u, ok := peelMI(a).(*ssa.UnOp)
			return ok && i < len(b.cells) && u.X == b.cells[i]
		})
	}
}

func (b *builtinFn) iterArg(i int) func(ssa.Value) bool {
	return func(v ssa.Value) bool {
		r := b.x.iterOf(v)
		return r != nil && b.arg(i)(r)
	}
}

// own: the collection that the method is called on.
func (b *builtinFn) own(v ssa.Value) bool {
	return allOf(b.x.w.argsIn(v, b.fns, 0), func(a ssa.Value) bool {
		if ex, ok := a.(*ssa.Extract); ok && ex.Index == 0 {
			a = ex.Tuple
		}
		ta, ok := a.(*ssa.TypeAssert)
		if !ok {
			return false
		}
		c, ok := ta.X.(*ssa.Call)
		return ok && calleeName(c) == "starlark.Builtin.Receiver"
	})
}

// call: a call of a method on the own collection with these arguments.
func (b *builtinFn) call(name string, args ...func(ssa.Value) bool) func(ssa.Instruction) bool {
	return func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		if !ok || calleeName(c) != "lib."+name || len(c.Call.Args) != len(args)+1 || !b.own(c.Call.Args[0]) {
			return false
		}
		for i, a := range args {
			if !a(c.Call.Args[i+1]) {
				return false
			}
		}
		return true
	}
}

func (b *builtinFn) pos() string { return b.x.w.Pos(b.f.Pos()) }

func succeeds(res []ssa.Value) bool { return len(res) > 0 && isNilConst(res[len(res)-1]) }

// does: a success goes through one of these, except along cut.
func (b *builtinFn) does(k, why string, is func(ssa.Instruction) bool, cut func(Edge) bool) {
	bad, tr := (&Q{W: b.x.w, Through: is, Cut: cut, NoEnter: b.no, GoalEnv: badReturn(b.f, fails)}).Entry(b.f)
	b.x.check(b.key+"/"+k, b.pos(), !bad, why, tr)
}

// gives: the results are right on every path with these branches cut.
func (b *builtinFn) gives(k, why string, ok func(res []ssa.Value) bool, cut func(Edge) bool) {
	bad, tr := (&Q{W: b.x.w, Cut: cut, NoEnter: b.no, GoalEnv: badReturn(b.f, ok)}).Entry(b.f)
	b.x.check(b.key+"/"+k, b.pos(), !bad, why, tr)
}

// after: after the call with this answer (result k is want), and no error, the results are right.
func (b *builtinFn) after(key, why string, is func(ssa.Instruction) bool, k int, want bool, cut func(Edge) bool, ok func(c *ssa.Call, res []ssa.Value) bool) {
	for _, g := range b.fns {
		instrs(g, func(in ssa.Instruction) {
			if !is(in) {
				return
			}
			c := in.(*ssa.Call)
			with := env{}
			for _, u := range *c.Referrers() {
				ex, isEx := u.(*ssa.Extract)
				if !isEx {
					continue
				}
				if ex.Index == k {
					with[ex] = ssa.NewConst(constant.MakeBool(want), ex.Type())
				} else if isErrType(ex.Type()) {
					with[ex] = ssa.NewConst(nil, ex.Type())
				}
			}
			bad, tr := (&Q{W: b.x.w, With: with, Cut: cut, NoEnter: b.no, GoalEnv: badReturn(b.f, func(res []ssa.Value) bool { return ok(c, res) })}).After(c)
			b.x.check(b.key+"/"+key, b.x.w.ipos(in), !bad, why, tr)
		})
	}
}

// errors: what a callee reports is not taken for a success.
func (b *builtinFn) errors() {
	w := b.x.w
	for _, g := range b.fns {
		instrs(g, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok || len(errOf(c)) != 1 {
				return
			}
			n := calleeName(c)
			if !strings.HasPrefix(n, "lib.") && !strings.HasPrefix(n, "starlark.") || strings.HasSuffix(n, "nameErr") {
				return
			}
			v := resultOf(c, errOf(c)[0])
			last := in.Parent().Signature.Results().Len() - 1
			if last < 0 || !isErrType(in.Parent().Signature.Results().At(last).Type()) {
				return
			}
			with := env{}
			if v != nil {
				with[v] = b.f // anything but nil
			}
			bad, tr := (&Q{W: w, With: with, NoEnter: b.no, GoalEnv: badReturn(in.Parent(), func(res []ssa.Value) bool { return !succeeds(res) })}).After(c)
			b.x.check(b.key+"/error/"+n[strings.LastIndex(n, ".")+1:], w.ipos(in), !bad, "an error is not reported", tr)
		})
	}
}

func extractOf(c *ssa.Call, i int) func(ssa.Value) bool {
	return func(v ssa.Value) bool {
		if i == 0 && c.Call.Signature().Results().Len() == 1 {
			return peelMI(peelConv(peelMI(v))) == ssa.Value(c)
		}
		ex, ok := peelMI(peelConv(peelMI(v))).(*ssa.Extract)
		return ok && ex.Tuple == ssa.Value(c) && ex.Index == i
	}
}

func isNone(w *World, v ssa.Value) bool {
	return v != nil && !isNilConst(v) && (w.render(v) == "0" || strings.HasSuffix(w.render(v), "None"))
}

// lenOwn: the length of the own collection.
func (b *builtinFn) lenOwn(v ssa.Value) bool {
	c, ok := peelConv(v).(*ssa.Call)
	if !ok || len(c.Call.Args) != 1 {
		return false
	}
	if calleeName(c) == "builtin.len" {
		return b.ownList(c.Call.Args[0])
	}
	return strings.HasSuffix(calleeName(c), ".Len") && b.own(c.Call.Args[0])
}

// ownList: the list of elements of the own collection.
func (b *builtinFn) ownList(v ssa.Value) bool {
	for i := 0; i < 4; i++ {
		u, ok := peelConv(v).(*ssa.UnOp)
		if !ok {
			return false
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		if b.own(fa.X) {
			return true
		}
		v = fa.X
	}
	return false
}

func (b *builtinFn) empty(e Edge) bool {
	l, op, r, ok := relOf(e)
	if !ok {
		return false
	}
	if !b.lenOwn(l) {
		l, r, op = r, l, mirrored[op]
	}
	return b.lenOwn(l) && isZero(r) && (op == token.EQL || op == token.LEQ) || b.lenOwn(l) && isConstInt(1)(r) && op == token.LSS
}

func (b *builtinFn) filled(e Edge) bool {
	return isCompare(e) && b.empty(Edge{If: e.If, Cond: e.Cond, Taken: !e.Taken})
}

// given: whether the optional argument is given.
func (b *builtinFn) given(i int, want bool) func(Edge) bool {
	return func(e Edge) bool {
		l, op, r, ok := relOf(e)
		if !ok {
			return false
		}
		if isNilConst(l) {
			l, r = r, l
		}
		return b.arg(i)(l) && isNilConst(r) && (op == token.NEQ) == want && (op == token.NEQ || op == token.EQL)
	}
}

func (x *coll) methods() {
	type tab struct{ global, prefix, typ string }
	n := 0
	for _, t := range []tab{{"mapMethods", "map", "GenericMap"}, {"setMethods", "set", "GenericSet"}, {"bagMethods", "bag", "Bag"}} {
		fs := x.table(t.global)
		want := map[string]string{
			"map": "clear get items keys pop popitem setdefault update values",
			"set": "add clear difference discard intersection issubset issuperset pop remove symmetric_difference union",
			"bag": "add add_all clear discard pop remove"}[t.prefix]
		for _, m := range strings.Fields(want) {
			f := fs[m]
			if f == nil {
				x.check("method/"+t.prefix+"/"+m, "-", false, "there is no such method", nil)
				continue
			}
			n++
			b := x.builtin("method/"+t.prefix+"/"+m, f)
			b.errors()
			x.method(b, t.prefix, m, t.typ)
		}
	}
	x.r.Floor("methods of maps, sets and bags", n, 26)
	// by which function the methods are found
	for _, t := range []tab{{"mapMethods", "", "GenericMap"}, {"setMethods", "", "GenericSet"}, {"bagMethods", "", "Bag"}} {
		f := x.fn("lib." + t.typ + ".Attr")
		if f == nil {
			continue
		}
		n := 0
		instrs(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok || calleeName(c) != "lib.BuiltinAttr" {
				return
			}
			n++
			u, _ := c.Call.Args[2].(*ssa.UnOp)
			ok = u != nil && c.Call.Args[1] == ssa.Value(f.Params[1]) && peelMI(c.Call.Args[0]) == ssa.Value(f.Params[0])
			if ok {
				g, isG := u.X.(*ssa.Global)
				ok = isG && g.Name() == t.global
			}
			x.check("method/"+t.typ+"/lookup", x.w.ipos(in), ok, "another method, or a method of another value, is found", nil)
		})
		x.check("method/"+t.typ+"/found", x.w.Pos(f.Pos()), n == 1, "the methods are not found", nil)
	}
	x.constructors()
}

func (x *coll) method(b *builtinFn, kind, m, typ string) {
	w := x.w
	a0, a1 := b.arg(0), b.arg(1)
	isNoneRes := func(res []ssa.Value) bool { return fails(res) || len(res) == 2 && isNone(w, res[0]) }
	switch kind + "." + m {
	case "map.get":
		get := b.call("GenericMap.Get", a0)
		b.does("looks", "the key is not looked up", get, nil)
		b.after("found", "the key is there, but not its value is given", get, 1, true, nil, func(c *ssa.Call, res []ssa.Value) bool { return extractOf(c, 0)(res[0]) && succeeds(res) })
		b.after("default", "the key is missing, but not the default is given", get, 1, false, b.given(1, false), func(c *ssa.Call, res []ssa.Value) bool { return a1(res[0]) && succeeds(res) })
		b.after("none", "the key is missing, but not None is given", get, 1, false, b.given(1, true), func(c *ssa.Call, res []ssa.Value) bool {
			return (isNone(w, res[0]) || a1(res[0])) && succeeds(res)
		})
	case "map.pop":
		del := b.call("GenericMap.Delete", a0)
		b.does("looks", "the key is not removed", del, nil)
		b.after("found", "the key is there, but not its value is given", del, 1, true, nil, func(c *ssa.Call, res []ssa.Value) bool { return extractOf(c, 0)(res[0]) && succeeds(res) })
		b.after("default", "the key is missing, but not the default is given", del, 1, false, b.given(1, false), func(c *ssa.Call, res []ssa.Value) bool { return a1(res[0]) && succeeds(res) })
		b.after("missing", "the key is missing, but there is no error", del, 1, false, b.given(1, true), func(c *ssa.Call, res []ssa.Value) bool { return fails(res) || a1(res[0]) })
	case "map.setdefault":
		get, set := b.call("GenericMap.Get", a0), b.call("GenericMap.SetKey", a0, a1)
		anySet := isCall("lib.GenericMap.SetKey")
		b.does("looks", "the key is not looked up", get, nil)
		b.after("found", "the key is there, but not its value is given", get, 1, true, nil, func(c *ssa.Call, res []ssa.Value) bool { return extractOf(c, 0)(res[0]) && succeeds(res) })
		b.after("default", "the key is missing, but not the default is given", get, 1, false, nil, func(c *ssa.Call, res []ssa.Value) bool { return a1(res[0]) || fails(res) })
		b.does("set", "the key is missing, but it is not set", set, resultTrue(get, 1))
		bad, tr := (&Q{W: w, Cut: resultFalse(get, 1), Goal: anySet, NoEnter: b.no}).Entry(b.f)
		x.check(b.key+"/kept", b.pos(), !bad, "the key is there, but its value is replaced", tr)
	case "map.clear", "set.clear", "bag.clear":
		b.does("clears", "the elements stay", b.call(typ+".Clear"), b.empty)
		b.gives("none", "something else than None is given", isNoneResOrErr(w), nil)
		if f := x.fn("lib." + typ + ".Clear"); f != nil && typ != "GenericSet" {
			fld := map[string]string{"GenericMap": "entries", "Bag": "elems"}[typ]
			clears := func(in ssa.Instruction) bool {
				v := x.writesList(typ, fld)(in)
				return v != nil && (isNilConst(v) || x.emptyList(v))
			}
			w.must(x.r, step{Key: "clear/" + typ, Why: "the elements stay", Fn: f, Through: clears, Goal: isReturnOf(f)})
		}
	case "map.keys":
		b.gives("all", "not the keys are given", func(res []ssa.Value) bool {
			return fails(res) || x.newListOf(res[0], func(v ssa.Value) bool {
				c, ok := v.(*ssa.Call)
				return ok && calleeName(c) == "lib.GenericMap.Keys" && b.own(c.Call.Args[0])
			})
		}, nil)
	case "map.values", "map.items":
		x.listing(b, m)
	case "map.update":
		upd := func(in ssa.Instruction) bool {
			c, ok := in.(*ssa.Call)
			return ok && calleeName(c) == "lib.updateDict" && b.own(c.Call.Args[0]) && c.Call.Args[1] == ssa.Value(b.f.Params[2]) && c.Call.Args[2] == ssa.Value(b.f.Params[3])
		}
		b.does("updates", "the entries are not set", upd, nil)
	case "map.popitem", "set.pop", "bag.pop":
		x.takes(b, kind, typ)
	case "set.add", "bag.add":
		cut := func(Edge) bool { return false }
		if kind == "set" {
			cut = resultTrue(b.call("GenericSet.Has", a0), 0)
		}
		b.does("adds", "the element is not added", b.call(typ+".Insert", a0), cut)
		b.gives("none", "something else than None is given", isNoneRes, nil)
		x.onlyChanges(b, "Insert", a0)
	case "bag.add_all":
		b.does("adds", "the elements are not added", b.call("Bag.InsertAll", a0), nil)
		x.onlyChanges(b, "InsertAll", a0)
		if f := x.fn("lib.Bag.InsertAll"); f != nil {
			x.fills("bag/insertall", f, x.w.withHelpers(f), func(v ssa.Value) bool { return v == ssa.Value(f.Params[0]) }, "lib.Bag.Insert", func(v ssa.Value) bool { return x.iterOf(v) == ssa.Value(f.Params[1]) }, nil)
		}
	case "set.discard", "bag.discard":
		b.does("removes", "the element stays", b.call(typ+".Delete", a0), resultFalse(b.call(typ+".Has", a0), 0))
		b.gives("none", "something else than None is given", isNoneRes, nil)
		x.onlyChanges(b, "Delete", a0)
	case "set.remove", "bag.remove":
		del := b.call(typ+".Delete", a0)
		b.does("removes", "the element stays", del, nil)
		b.after("found", "the element was there, but there is an error", del, 0, true, nil, func(c *ssa.Call, res []ssa.Value) bool { return succeeds(res) })
		b.after("missing", "the element was missing, but there is no error", del, 0, false, nil, func(c *ssa.Call, res []ssa.Value) bool { return fails(res) })
		x.onlyChanges(b, "Delete", a0)
	case "set.difference", "set.intersection", "set.symmetric_difference", "set.union", "set.issuperset", "set.issubset":
		op := map[string]string{"difference": "Difference", "intersection": "Intersection", "symmetric_difference": "SymmetricDifference", "union": "Union", "issuperset": "IsSuperset", "issubset": "IsSubset"}[m]
		isOp := func(in ssa.Instruction) bool {
			if b.call("GenericSet."+op, b.iterArg(0))(in) {
				return true
			}
			return op == "IsSubset" && b.call("GenericSet.IsSubset", func(v ssa.Value) bool {
				ta, ok := v.(*ssa.TypeAssert)
				if !ok {
					return false
				}
				ex, ok := ta.X.(*ssa.Extract)
				if !ok {
					return false
				}
				c, ok := ex.Tuple.(*ssa.Call)
				return ok && calleeName(c) == "lib.MakeGenericSet" && c.Call.Args[2] == ssa.Value(b.f.Params[2]) && c.Call.Args[3] == ssa.Value(b.f.Params[3])
			})(in)
		}
		b.does("computes", "the operation is not computed", isOp, nil)
		b.gives("result", "something else than what was computed is given", func(res []ssa.Value) bool {
			if fails(res) {
				return true
			}
			v := peelMI(peelConv(peelMI(res[0])))
			ex, ok := v.(*ssa.Extract)
			return ok && ex.Index == 0 && isOp(ex.Tuple.(ssa.Instruction))
		}, nil)
	}
}

func isNoneResOrErr(w *World) func([]ssa.Value) bool {
	return func(res []ssa.Value) bool { return fails(res) || len(res) == 2 && isNone(w, res[0]) }
}

// onlyChanges: nothing else is changed.
func (x *coll) onlyChanges(b *builtinFn, name string, args ...func(ssa.Value) bool) {
	for _, g := range b.fns {
		instrs(g, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			n := calleeName(c)
			for _, t := range []string{"GenericMap", "GenericSet", "Bag"} {
				for _, m := range []string{"Insert", "InsertAll", "Delete", "Clear", "SetKey"} {
					if n == "lib."+t+"."+m {
						x.check(b.key+"/only", x.w.ipos(in), m == name && b.call(t+"."+m, args...)(in), "something else is changed", nil)
					}
				}
			}
			if n == "builtin.append" {
				return
			}
		})
		instrs(g, func(in ssa.Instruction) {
			if x.writesList("GenericMap", "entries")(in) != nil || x.writesList("Bag", "elems")(in) != nil {
				x.check(b.key+"/direct", x.w.ipos(in), false, "the elements are changed directly", nil)
			}
		})
	}
	// once
	for _, g := range b.fns {
		instrs(g, func(in ssa.Instruction) {
			for _, t := range []string{"GenericSet", "Bag"} {
				is := b.call(t+"."+name, args...)
				if is(in) {
					bad, tr := (&Q{W: x.w, Goal: is, NoEnter: b.no}).After(in)
					x.check(b.key+"/once", x.w.ipos(in), !bad, "it is done twice", tr)
				}
			}
		})
	}
}

func (x *coll) newListOf(v ssa.Value, ok func(ssa.Value) bool) bool {
	c, is := peelMI(v).(*ssa.Call)
	return is && calleeName(c) == "starlark.NewList" && ok(c.Call.Args[0])
}

// listing: the values (items) of all entries.
func (x *coll) listing(b *builtinFn, m string) {
	w := x.w
	isItems := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Call)
		return ok && calleeName(c) == "lib.GenericMap.Items" && b.own(c.Call.Args[0]) || b.ownList(v)
	}
	of := func(v ssa.Value) (ssa.Value, ssa.Value) {
		if m == "values" {
			return part(v, 1)
		}
		return indexOf(peelMI(v))
	}
	var res ssa.Value
	puts := func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		if ok {
			ia, isIA := st.Addr.(*ssa.IndexAddr)
			if !isIA {
				return false
			}
			l, i := of(st.Val)
			if l == nil || !isItems(l) || i != ia.Index {
				return false
			}
			mk, isMk := ia.X.(*ssa.MakeSlice)
			if isMk && !lenOf(isItems)(mk.Len) {
				return false
			}
			res = ia.X
			return true
		}
		c, ok := in.(*ssa.Call)
		if !ok || calleeName(c) != "builtin.append" || len(c.Call.Args) != 2 {
			return false
		}
		es := sliceElems2(c.Call.Args[1])
		if len(es) != 1 {
			return false
		}
		l, _ := of(es[0])
		if l == nil || !isItems(l) {
			return false
		}
		res = c
		return true
	}
	if l := x.elementLoop(b.key, b.f, b.fns, isItems, puts); l != nil {
		w.wholeLoop(x.r, b.key, l, puts, nil, nil)
	}
	b.gives("result", "something else is given", func(rs []ssa.Value) bool {
		return fails(rs) || x.newListOf(rs[0], func(v ssa.Value) bool {
			for _, l := range phiLeaves(v) {
				if l == res {
					return true
				}
			}
			return false
		})
	}, nil)
}

// takes: one element is removed and given.
func (x *coll) takes(b *builtinFn, kind, typ string) {
	w := x.w
	listOf, fld := "GenericMap", "entries"
	if kind == "bag" {
		listOf, fld = "Bag", "elems"
	}
	var list, idx ssa.Value
	stores := func(in ssa.Instruction) bool { return x.writesList(listOf, fld)(in) != nil }
	n := 0
	for _, g := range b.fns {
		instrs(g, func(in ssa.Instruction) {
			v := x.writesList(listOf, fld)(in)
			if v == nil {
				return
			}
			n++
			l, i := removal(v)
			if l == nil {
				if s, ok := peelConv(v).(*ssa.Slice); ok && shortened(v) != nil {
					l, i = s.X, s.High
				} else if ok && (s.Low == nil || isZero(s.Low)) && s.High != nil {
					if bo, isB := s.High.(*ssa.BinOp); isB && bo.Op == token.SUB && isConstInt(1)(bo.Y) && b.lenOwn(bo.X) {
						l, i = s.X, s.High
					}
				} else if ok && s.High == nil && s.Low != nil && isConstInt(1)(s.Low) {
					l, i = s.X, ssa.NewConst(constant.MakeInt64(0), s.Low.Type())
				}
			}
			list, idx = l, i
			x.check(b.key+"/one", w.ipos(in), l != nil && b.ownList(l), "not exactly one element is removed", nil)
			bad, tr := (&Q{W: w, Goal: stores, NoEnter: b.no}).After(in)
			x.check(b.key+"/once", w.ipos(in), !bad, "several elements are removed", tr)
		})
	}
	x.check(b.key+"/removes", b.pos(), n > 0, "no element is removed", nil)
	b.does("taken", "no element is removed", stores, nil)
	if list == nil {
		return
	}
	b.gives("given", "another element than the one that was removed is given", func(res []ssa.Value) bool {
		if fails(res) {
			return true
		}
		var l, i ssa.Value
		switch kind {
		case "set":
			l, i = part(res[0], 0)
		default:
			l, i = indexOf(peelMI(res[0]))
		}
		return l != nil && sameList(l, list) && (i == idx || isZero(i) && isZero(idx) || isLastOf(i, l) && isLastOf(idx, list))
	}, nil)
	b.gives("empty", "there is nothing to give, but something is given", fails, b.filled)
	b.gives("nonempty", "there is something to give, but there is an error", func(res []ssa.Value) bool { return !fails(res) }, anyCut(b.empty, x.failed))
}

// fills: every element of the other is put into the collection.
func (x *coll) fills(key string, f *ssa.Function, fns []*ssa.Function, coll func(ssa.Value) bool, insert string, over func(ssa.Value) bool, skip func(Edge) bool) {
	w := x.w
	ls := w.loopsIn(fns, isIter, nil)
	x.check(key+"/loop", w.Pos(f.Pos()), len(ls) == 1 && allOf(w.argsIn(ls[0].Over, fns, 0), over), "the elements are not gone through once", nil)
	if len(ls) != 1 {
		return
	}
	l := ls[0]
	puts := func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		return ok && calleeName(c) == insert && l.has(c.Call.Args[1]) && allOf(w.argsIn(c.Call.Args[0], fns, 0), coll)
	}
	w.wholeLoop(x.r, key, l, puts, nil, x.failed)
	for _, g := range fns {
		instrs(g, func(in ssa.Instruction) {
			if c, ok := in.(*ssa.Call); ok && calleeName(c) == insert {
				x.check(key+"/element", w.ipos(in), puts(in), "something else than the element is put in", nil)
			}
			if puts(in) {
				bad, tr := (&Q{W: w, Goal: puts, Through: func(o ssa.Instruction) bool { return o.Block() == l.Head }, NoEnter: outside(fns)}).After(in)
				x.check(key+"/once", w.ipos(in), !bad, "the element is put in twice", tr)
			}
		})
	}
	bad, tr := (&Q{W: w, Cut: skip, Through: func(in ssa.Instruction) bool { return in.Block() == l.Head }, NoEnter: outside(fns), GoalEnv: badReturn(f, fails)}).Entry(f)
	x.check(key+"/goes", w.Pos(f.Pos()), !bad, "the elements are not gone through", tr)
}

// constructors: what is given to genericmap, genericset, bag, enum and sum.
func (x *coll) constructors() {
	w := x.w
	bs := x.table2("Builtins")
	for _, c := range []struct{ name, typ string }{{"genericset", "GenericSet"}, {"bag", "Bag"}} {
		f := bs[c.name]
		if f == nil {
			x.check("make/"+c.name, "-", false, "there is no such function", nil)
			continue
		}
		b := x.builtin("make/"+c.name, f)
		b.errors()
		fresh := func(v ssa.Value) bool {
			switch y := peelMI(v).(type) {
			case *ssa.Call:
				n := calleeName(y)
				return n == "lib.New"+c.typ && (len(y.Call.Args) == 0 || isNilConst(y.Call.Args[0]))
			case *ssa.Alloc:
				return namedName(y.Type()) == c.typ
			}
			return false
		}
		x.fills(b.key, f, b.fns, fresh, "lib."+c.typ+".Insert", b.iterArg(0), b.given(0, false))
		b.gives("result", "not the new collection is given", func(res []ssa.Value) bool { return fails(res) || fresh(res[0]) }, nil)
	}
	if f := x.fn("lib.updateDict"); f != nil {
		fns := w.withHelpers(f)
		isItem := func(v ssa.Value) bool {
			for _, a := range w.argsIn(v, fns, 0) {
				if a == ssa.Value(f.Params[2]) {
					return true
				}
				c, ok := a.(*ssa.Call)
				if ok && c.Call.IsInvoke() && c.Call.Method.Name() == "Items" {
					return true
				}
			}
			return false
		}
		sets := func(in ssa.Instruction) bool {
			c, ok := in.(*ssa.Call)
			if !ok || calleeName(c) != "lib.GenericMap.SetKey" {
				return false
			}
			k, i := part(c.Call.Args[1], 0)
			v, j := part(c.Call.Args[2], 1)
			return k != nil && v != nil && i == j && sameList(k, v) && isItem(k) && allOf(w.argsIn(c.Call.Args[0], fns, 0), func(a ssa.Value) bool { return a == ssa.Value(f.Params[0]) })
		}
		ls := w.loopsIn(fns, isItem, sets)
		n := map[bool]int{}
		for _, l := range ls {
			p := l.Over == ssa.Value(f.Params[2])
			n[p]++
			w.wholeLoop(x.r, "make/update/"+map[bool]string{true: "keywords", false: "items"}[p], l, sets, nil, x.failed)
		}
		x.check("make/update", w.Pos(f.Pos()), n[true] == 1 && n[false] == 1 || len(ls) == 1 && len(fns) > 1, "not all entries are set", nil)
		instrs(f, func(in ssa.Instruction) {
			if isCall("lib.GenericMap.SetKey")(in) {
				x.check("make/update/set", w.ipos(in), sets(in), "something else than the entry is set", nil)
			}
		})
		x.builtin("make/update", f).errors()
	}
	if f := bs["genericmap"]; f != nil {
		b := x.builtin("make/genericmap", f)
		var dict ssa.Value
		upd := func(in ssa.Instruction) bool {
			c, ok := in.(*ssa.Call)
			if !ok || calleeName(c) != "lib.updateDict" || c.Call.Args[1] != ssa.Value(f.Params[2]) || c.Call.Args[2] != ssa.Value(f.Params[3]) {
				return false
			}
			dict = c.Call.Args[0]
			_, fresh := dict.(*ssa.Alloc)
			k, isC := dict.(*ssa.Call)
			return fresh || isC && calleeName(k) == "lib.NewGenericMap"
		}
		b.does("fills", "the entries are not set", upd, nil)
		b.errors()
		b.gives("result", "not the new map is given", func(res []ssa.Value) bool { return fails(res) || peelMI(res[0]) == dict }, nil)
	} else {
		x.check("make/genericmap", "-", false, "there is no such function", nil)
	}
	if f := bs["sum"]; f != nil {
		x.sum(f)
	}
	if f := bs["enum"]; f != nil {
		fns := w.withHelpers(f)
		puts := func(in ssa.Instruction) bool {
			c, ok := in.(*ssa.Call)
			if !ok || calleeName(c) != "builtin.append" || len(c.Call.Args) != 2 {
				return false
			}
			es := sliceElems2(c.Call.Args[1])
			if len(es) != 1 {
				return false
			}
			kv := sliceElems2(es[0])
			return len(kv) == 2 && kv[0] == kv[1] && kv[0] != nil
		}
		if l := x.elementLoop("make/enum", f, fns, func(v ssa.Value) bool { return v == ssa.Value(f.Params[2]) }, puts); l != nil {
			w.wholeLoop(x.r, "make/enum", l, puts, nil, nil)
		}
	}
}

// table2: builtin functions in a table of values.
func (x *coll) table2(global string) map[string]*ssa.Function { return x.table(global) }

// sum: the sum of the start and all elements.
func (x *coll) sum(f *ssa.Function) {
	w := x.w
	b := x.builtin("make/sum", f)
	b.errors()
	ls := w.loopsIn(b.fns, isIter, nil)
	x.check("make/sum/loop", b.pos(), len(ls) == 1 && allOf(w.argsIn(ls[0].Over, b.fns, 0), b.iterArg(0)), "the elements are not gone through once", nil)
	if len(ls) != 1 {
		return
	}
	l := ls[0]
	var acc *ssa.Phi
	adds := func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		if !ok || calleeName(c) != "starlark.Binary" {
			return false
		}
		op, ok := c.Call.Args[0].(*ssa.Const)
		if !ok || op.Int64() != 10 {
			return false
		}
		for _, p := range [][2]int{{1, 2}, {2, 1}} {
			ph, isPhi := c.Call.Args[p[0]].(*ssa.Phi)
			if isPhi && l.has(c.Call.Args[p[1]]) {
				acc = ph
				return true
			}
		}
		return false
	}
	w.wholeLoop(x.r, "make/sum", l, adds, nil, anyCut(x.failed, func(e Edge) bool { // no number
		ex, ok := e.Cond.(*ssa.Extract)
		if !ok || e.Taken {
			return false
		}
		_, ok = ex.Tuple.(*ssa.TypeAssert)
		return ok
	}))
	ok := acc != nil
	if ok {
		for _, v := range phiLeaves(acc) {
			ex, isEx := v.(*ssa.Extract)
			ok = ok && (b.arg(1)(v) || isEx && ex.Index == 0 && adds(ex.Tuple.(ssa.Instruction)))
		}
	}
	x.check("make/sum/start", b.pos(), ok, "the sum does not start with the start, or forgets elements", nil)
	sum := func(res []ssa.Value) bool {
		ex, isEx := res[0].(*ssa.Extract)
		return fails(res) || acc != nil && res[0] == ssa.Value(acc) || isEx && adds(ex.Tuple.(ssa.Instruction))
	}
	b.gives("result", "not the sum is given", func(res []ssa.Value) bool { return sum(res) || b.arg(1)(res[0]) }, nil)
	for _, g := range b.fns {
		instrs(g, func(in ssa.Instruction) {
			if adds(in) {
				bad, tr := (&Q{W: w, NoEnter: b.no, GoalEnv: badReturn(f, sum)}).After(in)
				x.check("make/sum/sum", w.ipos(in), !bad, "not the sum is given", tr)
			}
		})
	}
}

// iterators: every element once.
func (x *coll) iterators() {
	w := x.w
	for _, t := range []struct{ name, typ string }{{"keyIterator", "GenericMap"}, {"listIterator", "Bag"}} {
		f := x.fn("lib." + t.typ + ".Iterate")
		if f == nil {
			continue
		}
		key := "iterate/" + t.typ
		var al *ssa.Alloc
		instrs(f, func(in ssa.Instruction) {
			if rt, ok := in.(*ssa.Return); ok {
				al, _ = peelMI(retVal(rt, 0)).(*ssa.Alloc)
			}
		})
		if al == nil {
			x.check(key, w.Pos(f.Pos()), false, "no new iterator is given", nil)
			continue
		}
		typ := namedName(al.Type())
		next := x.fn("lib." + typ + ".Next")
		if next == nil {
			continue
		}
		// the list is a copy, the position the first
		copied, first, n := false, true, 0
		var listField string
		instrs(f, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || fa.X != ssa.Value(al) {
				return
			}
			if isInt(st.Val.Type()) {
				first = first && isZero(st.Val)
				return
			}
			n++
			listField = fieldName(fa.X.Type(), fa.Field)
			copied = x.copied(st.Val, f)
		})
		x.check(key+"/copy", w.Pos(f.Pos()), copied && n == 1, "the iteration is not over a copy of all elements: a change meanwhile makes it skip or repeat some", nil)
		x.check(key+"/first", w.Pos(f.Pos()), first, "the iteration does not start with the first element", nil)
		x.next(key, next, listField, t.typ == "GenericMap")
	}
}

func (x *coll) next(key string, f *ssa.Function, field string, keyed bool) {
	w := x.w
	fns := w.withHelpers(f)
	no := outside(fns)
	pos := func(v ssa.Value) bool { // the position of the iterator
		u, ok := v.(*ssa.UnOp)
		if !ok {
			return false
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		return ok && fa.X == ssa.Value(f.Params[0]) && isInt(v.Type())
	}
	list := func(v ssa.Value) bool { return x.ofField(v, field) == ssa.Value(f.Params[0]) }
	gives := func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		if !ok || st.Addr != ssa.Value(f.Params[1]) {
			return false
		}
		var l, i ssa.Value
		if keyed {
			l, i = part(st.Val, 0)
		} else {
			l, i = indexOf(st.Val)
		}
		return l != nil && list(l) && pos(i)
	}
	advances := func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || fa.X != ssa.Value(f.Params[0]) {
			return false
		}
		b, ok := st.Val.(*ssa.BinOp)
		return ok && b.Op == token.ADD && pos(b.X) && isConstInt(1)(b.Y)
	}
	yes := badReturn(f, func(res []ssa.Value) bool { return !isTrueConst(res[0]) })
	for k, is := range map[string]func(ssa.Instruction) bool{"given": gives, "advances": advances} {
		bad, tr := (&Q{W: w, Through: is, GoalEnv: yes, NoEnter: no}).Entry(f)
		x.check(key+"/"+k, w.Pos(f.Pos()), !bad, "the next element is not given, or the iteration does not advance", tr)
	}
	for _, g := range fns {
		instrs(g, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			if st.Addr == ssa.Value(f.Params[1]) {
				x.check(key+"/element", w.ipos(in), gives(in), "another element is given", nil)
			}
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fa.X == ssa.Value(f.Params[0]) {
				x.check(key+"/step", w.ipos(in), advances(in), "the iteration does not advance by one", nil)
				bad, tr := (&Q{W: w, Goal: anyOf(advances, gives), NoEnter: no}).After(in)
				if advances(in) {
					// the element is read before: otherwise the first one is skipped
					x.check(key+"/once", w.ipos(in), !bad || givesOld(f, in), "the iteration advances too far", tr)
				}
			}
		})
	}
	end := says(pos, lenOf(list), token.GEQ, token.EQL)
	bad, tr := (&Q{W: w, Cut: end, NoEnter: no, GoalEnv: badReturn(f, func(res []ssa.Value) bool { return !isFalseConst(res[0]) })}).Entry(f)
	x.check(key+"/end", w.Pos(f.Pos()), !bad, "the iteration ends before the last element", tr)
}

// givesOld: the element that is stored after the advance was read at the old position.
func givesOld(f *ssa.Function, adv ssa.Instruction) bool {
	var load ssa.Instruction
	instrs(f, func(in ssa.Instruction) {
		if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(f.Params[1]) {
			_, i := indexOf(st.Val)
			if i == nil {
				_, i = part(st.Val, 0)
			}
			load, _ = i.(ssa.Instruction)
		}
	})
	if load == nil || load.Block() != adv.Block() {
		return false
	}
	for _, in := range load.Block().Instrs {
		if in == load {
			return true
		}
		if in == adv {
			return false
		}
	}
	return false
}
