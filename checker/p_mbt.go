package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

func init() { register("S20", ruleS20) }

// adapter: the Go library that runs the operations of a model based test.
type adapter struct {
	*guided
}

const mbtServer = "mbt.FizzBeeMbtPluginServer."

func ruleS20(c *Ctx, r *Rep) {
	r.Rule("every value that the interface can carry is converted both ways without loss, each entry and item of it once")
	r.Rule("an operation runs the function that is registered for its role type and name, on the instance (the model without one) and with the arguments that are named")
	r.Rule("the result reported for an operation is the one of that operation: value, error, not implemented, interval around it, roles and their states; no failure is reported as OK, and none that was not executed")
	r.Rule("the operations of a sequence run one after the other until one fails, the sequences at the same time, and results keep the places of their requests")
	r.Rule("the runner gets the address, the options (a flag takes precedence) and the seeds, and its failure is the failure of the test")
	w, err := c.Mbt()
	if err != nil {
		r.Undecided("load", "mbt/lib/go", err.Error())
		return
	}
	x := &adapter{&guided{&conf{&graphs{w, r}}}}
	x.toProto()
	x.fromProto()
	x.commands()
	x.execution()
	x.sequences()
	x.results()
	x.states()
	x.runner()
}

var mbtAnchors = []string{"mbt.fromAnyToProtoValue", "mbt.fromProtoValueToAny", "mbt.fromProtoArgsToLibArgs", "mbt.GetRoleRefsAndStates", mbtServer + "newCommand", mbtServer + "getRole", mbtServer + "executeCommand",
	mbtServer + "executeSequence", mbtServer + "executeSequencesConcurrent", mbtServer + "deserializeSequences", mbtServer + "serializeSequenceResults", mbtServer + "serializeResult", mbtServer + "ExecuteAction", mbtServer + "ExecuteActionSequences",
	mbtServer + "Init", mbtServer + "Cleanup", "mbt.snapshotOrGetState", "mbt.getRoleStateProto", "mbt.GetMbtBinPath", "mbt.NewFizzBeeMbtPluginServer"}

func (x *adapter) group(f *ssa.Function) []*ssa.Function { return x.helpers(f, mbtAnchors...) }

// selects: the value from which the field is read.
func selects(v ssa.Value, field string) ssa.Value {
	switch y := v.(type) {
	case *ssa.UnOp:
		if fa, ok := y.X.(*ssa.FieldAddr); ok && y.Op == token.MUL && fieldName(fa.X.Type(), fa.Field) == field {
			return fa.X
		}
	case *ssa.Field:
		if fieldName(y.X.Type(), y.Field) == field {
			return y.X
		}
	case *ssa.Call:
		if f := y.Call.StaticCallee(); f != nil && f.Name() == "Get"+field && len(y.Call.Args) == 1 {
			return y.Call.Args[0]
		}
	}
	return nil
}

// sel: the value is the chain of fields, starting at a root.
func (x *adapter) sel(v ssa.Value, fns []*ssa.Function, root func(ssa.Value) bool, fields ...string) bool {
	ls := x.w.leavesIn(v, fns)
	return allOf(ls, func(v ssa.Value) bool {
		if al, ok := v.(*ssa.Alloc); ok { // a copy of a struct
			if ss := storesTo(al); len(ss) == 1 {
				return x.sel(ss[0].Val, fns, root, fields...)
			}
		}
		if len(fields) == 0 {
			return root(v) || root(peelConv(v))
		}
		b := selects(peelConv(v), fields[len(fields)-1])
		return b != nil && x.sel(b, fns, root, fields[:len(fields)-1]...)
	})
}

// parts: what is in the field of the struct that is made; nil stands for nothing.
func (x *adapter) parts(v ssa.Value, fns []*ssa.Function, fields ...string) []ssa.Value {
	ls := x.w.leavesIn(v, fns)
	if len(fields) == 0 {
		return ls
	}
	var out []ssa.Value
	for _, l := range ls {
		if isNil(l) && len(ls) > 1 {
			continue
		}
		if al, ok := l.(*ssa.Alloc); ok {
			n := 0
			for _, r := range *al.Referrers() {
				fa, ok := r.(*ssa.FieldAddr)
				if !ok || fieldName(fa.X.Type(), fa.Field) != fields[0] {
					continue
				}
				for _, r := range *fa.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
						n++
						out = append(out, x.parts(st.Val, fns, fields[1:]...)...)
					}
				}
			}
			if n == 0 {
				out = append(out, nil)
			}
			continue
		}
		c, i := l, 0
		if ex, ok := l.(*ssa.Extract); ok {
			c, i = ex.Tuple, ex.Index
		}
		cc, ok := c.(*ssa.Call)
		if !ok || cc.Call.StaticCallee() == nil || len(cc.Call.StaticCallee().Blocks) == 0 || !x.w.owns(cc.Call.StaticCallee()) || memberOf(fns, cc.Call.StaticCallee()) {
			out = append(out, nil)
			continue
		}
		g := cc.Call.StaticCallee() // a helper that several functions use
		instrs(g, func(in ssa.Instruction) {
			rt, ok := in.(*ssa.Return)
			if !ok || i >= len(rt.Results) {
				return
			}
			for _, p := range x.parts(retVal(rt, i), []*ssa.Function{g}, fields...) {
				if q, ok := p.(*ssa.Parameter); ok {
					for j, gp := range g.Params {
						if gp == q {
							out = append(out, x.w.leavesIn(cc.Call.Args[j], fns)...)
						}
					}
					continue
				}
				out = append(out, p)
			}
		})
	}
	return out
}

func (x *adapter) partIs(v ssa.Value, fns []*ssa.Function, ok func(ssa.Value) bool, fields ...string) bool {
	ps := x.parts(v, fns, fields...)
	return len(ps) > 0 && allOf(ps, func(v ssa.Value) bool { return v != nil && ok(v) })
}

func isType(name string) func(ssa.Value) bool {
	return func(v ssa.Value) bool { return namedName(v.Type()) == name }
}

// named: a call whose receiver or first argument is such a value.
func (x *adapter) named(fns []*ssa.Function, name string, arg func(ssa.Value) bool) func(ssa.Value) bool {
	return func(v ssa.Value) bool {
		c, ok := peelConv(v).(*ssa.Call)
		return ok && calleeName(c) == name && len(c.Call.Args) > 0 && allOf(x.w.leavesIn(c.Call.Args[0], fns), arg)
	}
}

// converted: a result of the conversion of such a value.
func (x *adapter) converted(fns []*ssa.Function, conv string, arg func(ssa.Value) bool) func(ssa.Value) bool {
	return func(v ssa.Value) bool {
		return allOf(x.w.leavesIn(v, fns), func(v ssa.Value) bool {
			c, ok := v.(*ssa.Call)
			return ok && calleeName(c) == conv && allOf(x.w.leavesIn(c.Call.Args[0], fns), arg)
		})
	}
}

// toProto: values of the system as values of the interface.
func (x *adapter) toProto() {
	w := x.w
	f := x.fn("mbt.fromAnyToProtoValue")
	if f == nil {
		return
	}
	fns := x.group(f)
	stay := func(g *ssa.Function) bool { return g == f || only(fns)(g) }
	pos := w.Pos(f.Pos())
	isRv := func(v ssa.Value) bool {
		return allOf(w.leavesIn(v, fns), func(v ssa.Value) bool {
			c, ok := v.(*ssa.Call)
			return ok && calleeName(c) == "reflect.ValueOf" && allOf(w.leavesIn(c.Call.Args[0], fns), func(v ssa.Value) bool { return v == ssa.Value(f.Params[0]) })
		})
	}
	isKind := func(v ssa.Value) bool {
		return allOf(w.leavesIn(v, fns), func(v ssa.Value) bool {
			c, ok := v.(*ssa.Call)
			return ok && calleeName(c) == "reflect.Value.Kind" && isRv(c.Call.Args[0])
		})
	}
	isInt := func(k int64) bool { return k >= int64(reflect.Int) && k <= int64(reflect.Int64) }
	isUint := func(k int64) bool { return k >= int64(reflect.Uint) && k <= int64(reflect.Uint64) }
	against := func(k int64) func(Edge) bool { // edges that a value of the kind does not take
		return func(e Edge) bool {
			if c, ok := e.Cond.(*ssa.Call); ok && len(c.Call.Args) == 1 && isRv(c.Call.Args[0]) {
				switch calleeName(c) {
				case "reflect.Value.CanInt":
					return e.Taken != isInt(k)
				case "reflect.Value.CanUint":
					return e.Taken != isUint(k)
				case "reflect.Value.IsValid":
					return !e.Taken
				}
			}
			a, op, b, ok := relOf(e)
			if !ok {
				return false
			}
			if isKind(b) {
				a, b = b, a
				op = map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}[op]
			}
			c, isC := b.(*ssa.Const)
			if !isKind(a) || !isC || c.Value == nil {
				return false
			}
			n, _ := constant.Int64Val(c.Value)
			return !constant.Compare(constant.MakeInt64(k), op, constant.MakeInt64(n))
		}
	}
	sentinel := func(want bool) func(Edge) bool {
		return func(e Edge) bool {
			ex, ok := e.Cond.(*ssa.Extract)
			if !ok || ex.Index != 1 || e.Taken != want {
				return false
			}
			ta, ok := ex.Tuple.(*ssa.TypeAssert)
			if !ok {
				return false
			}
			nt, ok := ta.AssertedType.(*types.Named)
			return ok && nt.Obj().Name() == "Sentinel"
		}
	}
	rvCall := func(name string) func(ssa.Value) bool { return x.named(fns, "reflect.Value."+name, isRv) }
	type kindRule struct {
		key   string
		kinds []reflect.Kind
		ok    func(ssa.Value) bool
	}
	elemOf := func(name, field string) func(ssa.Value) bool {
		whole := func(v ssa.Value) bool { // the list as it was filled
			for _, l := range w.leavesIn(v, fns) {
				switch y := l.(type) {
				case *ssa.MakeSlice, *ssa.Const:
				case *ssa.Call:
					if calleeName(y) != "builtin.append" {
						return false
					}
				default:
					return false
				}
			}
			return true
		}
		return func(v ssa.Value) bool {
			return x.partIs(v, fns, isType("Value_"+name+"Value"), "Kind") && x.partIs(v, fns, isType(name+"Value"), "Kind", name+"Value") && x.partIs(v, fns, whole, "Kind", name+"Value", field)
		}
	}
	x.narrows("to", fns)
	n := 0
	for _, kr := range []kindRule{
		{"string", []reflect.Kind{reflect.String}, func(v ssa.Value) bool { return x.partIs(v, fns, rvCall("String"), "Kind", "StrValue") }},
		{"integer", []reflect.Kind{reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64}, func(v ssa.Value) bool { return x.partIs(v, fns, rvCall("Int"), "Kind", "IntValue") }},
		{"unsigned", []reflect.Kind{reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64}, func(v ssa.Value) bool { return x.partIs(v, fns, rvCall("Uint"), "Kind", "IntValue") }},
		{"bool", []reflect.Kind{reflect.Bool}, func(v ssa.Value) bool { return x.partIs(v, fns, rvCall("Bool"), "Kind", "BoolValue") }},
		{"map", []reflect.Kind{reflect.Map}, elemOf("Map", "Entries")},
		{"list", []reflect.Kind{reflect.Slice, reflect.Array}, elemOf("List", "Items")},
		{"pointer", []reflect.Kind{reflect.Interface, reflect.Pointer}, func(v ssa.Value) bool {
			c, ok := v.(*ssa.Call)
			return isNil(v) || ok && calleeName(c) == "mbt.fromAnyToProtoValue" && allOf(w.leavesIn(c.Call.Args[0], fns), x.named(fns, "reflect.Value.Interface", x.named(fns, "reflect.Value.Elem", isRv)))
		}},
	} {
		for _, k := range kr.kinds {
			kr := kr
			n++
			cut := anyCut(against(int64(k)), sentinel(true))
			bad, tr := (&Q{W: w, NoEnter: stay, Cut: cut, Track: tracked, GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
				rt, ok := in.(*ssa.Return)
				return ok && rt.Parent() == f && !kr.ok(resolved(res, retVal(rt, 0)))
			}}).Entry(f)
			x.check("to/"+kr.key+"/"+k.String(), pos, !bad, "a value of the kind "+k.String()+" is not converted to the "+kr.key+" that it is", tr)
			bad, tr = (&Q{W: w, NoEnter: stay, Cut: cut, Goal: func(in ssa.Instruction) bool {
				c, ok := in.(*ssa.Call)
				if !ok || len(c.Call.Args) == 0 || !isRv(c.Call.Args[0]) {
					return false
				}
				switch calleeName(c) {
				case "reflect.Value.Int":
					return !isInt(int64(k))
				case "reflect.Value.Uint":
					return !isUint(int64(k))
				case "reflect.Value.Bool":
					return k != reflect.Bool
				}
				return false
			}}).Entry(f)
			x.check("to/panic/"+k.String(), pos, !bad, "a value of the kind "+k.String()+" stops the program", tr)
		}
	}
	x.r.Floor("kinds of values", n, 17)
	isSent := func(v ssa.Value) bool { return namedName(v.Type()) == "Sentinel" }
	ignored := says(isSent, isConstInt(1), token.NEQ)
	bad, tr := (&Q{W: w, NoEnter: stay, Cut: anyCut(sentinel(false), ignored), Track: tracked, GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
		rt, ok := in.(*ssa.Return)
		if !ok || rt.Parent() != f {
			return false
		}
		ps := x.parts(resolved(res, retVal(rt, 0)), fns, "Kind")
		if len(ps) != 1 || ps[0] == nil || namedName(ps[0].Type()) != "Value_SentinelValue" {
			return true
		}
		for _, st := range w.fieldStores("Value_SentinelValue", "SentinelValue", in.Parent()) {
			if st.Addr.(*ssa.FieldAddr).X == ps[0] {
				return !isConstInt(1)(resolved(res, st.Val))
			}
		}
		return !x.partIs(ps[0], fns, isConstInt(1), "SentinelValue")
	}}).Entry(f)
	x.check("to/ignore", pos, !bad, "the mark of values that are not compared is lost", tr)
	// entries and items
	conv := func(arg func(ssa.Value) bool) func(ssa.Value) bool {
		return x.converted(fns, "mbt.fromAnyToProtoValue", x.named(fns, "reflect.Value.Interface", arg))
	}
	maps, lists := 0, 0
	for _, g := range fns {
		for _, l := range w.natLoops([]*ssa.Function{g}, func(ssa.Instruction) bool { return true }) {
			var key ssa.Value
			isKey := func(v ssa.Value) bool {
				li, _ := indexOf(v)
				c, isC := v.(*ssa.Call)
				ok := li != nil && x.named(fns, "reflect.Value.MapKeys", isRv)(li) || isC && calleeName(c) == "reflect.MapIter.Key"
				if ok && key == nil {
					key = v
				}
				return ok && v == key
			}
			isVal := func(v ssa.Value) bool {
				c, ok := v.(*ssa.Call)
				if !ok {
					return false
				}
				return calleeName(c) == "reflect.MapIter.Value" || calleeName(c) == "reflect.Value.MapIndex" && isRv(c.Call.Args[0]) && allOf(w.leavesIn(c.Call.Args[1], fns), isKey)
			}
			entry := func(v ssa.Value) bool {
				return x.partIs(v, fns, conv(isKey), "Key") && x.partIs(v, fns, conv(isVal), "Value")
			}
			var idx ssa.Value
			item := func(v ssa.Value) bool {
				return conv(func(v ssa.Value) bool {
					c, ok := v.(*ssa.Call)
					if !ok || calleeName(c) != "reflect.Value.Index" || !isRv(c.Call.Args[0]) {
						return false
					}
					idx = c.Call.Args[1]
					return true
				})(v)
			}
			put := func(ok func(ssa.Value) bool, typ string) func(ssa.Instruction) bool {
				return func(in ssa.Instruction) bool {
					switch c := in.(type) {
					case *ssa.Call:
						if calleeName(c) != "builtin.append" || len(c.Call.Args) != 2 {
							return false
						}
						es := sliceElems2(c.Call.Args[1])
						return len(es) == 1 && namedName(es[0].Type()) == typ && ok(es[0])
					case *ssa.Store:
						ia, is := c.Addr.(*ssa.IndexAddr)
						if !is || namedName(c.Val.Type()) != typ {
							return false
						}
						if _, isArr := deref(ia.X.Type()).Underlying().(*types.Array); isArr {
							return false
						}
						return ok(c.Val) && (typ != "Value" || ia.Index == idx)
					}
					return false
				}
			}
			for _, c := range []struct {
				typ string
				p   func(ssa.Instruction) bool
				n   *int
				of  string
			}{{"MapEntry", put(entry, "MapEntry"), &maps, "entry"}, {"Value", put(item, "Value"), &lists, "item"}} {
				has := false
				for b := range l.Body {
					for _, in := range b.Instrs {
						has = has || c.p(in)
					}
				}
				if !has {
					continue
				}
				*c.n++
				sk, tr := w.iterationSkips(l, c.p, nil)
				x.check("to/every/"+c.of, pos, !sk, "an "+c.of+" can be left out", tr)
				le, tr := w.leavesEarly(l, nil)
				x.check("to/all/"+c.of, pos, !le, "the last ones can be left out", tr)
				if c.of == "item" {
					x.check("to/bound/item", pos, x.boundedBy(l, func(v ssa.Value) bool { return rvCall("Len")(v) }), "the items are not those up to the length", nil)
				}
			}
		}
	}
	x.check("to/entries", pos, maps == 1, "the entries of a map are not all converted, key and value", nil)
	x.check("to/items", pos, lists == 1, "the items of a list are not all converted, in their places", nil)
}

// boundedBy: the loop counts from zero by one up to the bound (or ranges over it).
func (x *adapter) boundedBy(l *LoopInfo, bound func(ssa.Value) bool) bool {
	for b := range l.Body {
		for _, in := range b.Instrs {
			iff, ok := in.(*ssa.If)
			if !ok {
				continue
			}
			c, ok := iff.Cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			i, n := c.X, c.Y
			if c.Op == token.GTR || c.Op == token.GEQ {
				i, n = n, i
			}
			if !bound(n) || c.Op != token.LSS && c.Op != token.GTR {
				continue
			}
			if isForward(i) {
				return true
			}
		}
	}
	return false
}

// isForward: an index that starts at zero and grows by one.
func isForward(i ssa.Value) bool {
	step := func(v ssa.Value, p *ssa.Phi) bool {
		b, ok := v.(*ssa.BinOp)
		return ok && b.Op == token.ADD && b.X == ssa.Value(p) && isConstInt(1)(b.Y)
	}
	start := int64(0)
	p, ok := i.(*ssa.Phi)
	if !ok {
		b, isB := i.(*ssa.BinOp)
		if !isB || b.Op != token.ADD || !isConstInt(1)(b.Y) {
			return false
		}
		p, ok = b.X.(*ssa.Phi)
		start = -1
		if !ok {
			return false
		}
	}
	for _, e := range p.Edges {
		if !isConstInt(start)(e) && !step(e, p) {
			return false
		}
	}
	return true
}

// fromProto: values of the interface as values of the system.
func (x *adapter) fromProto() {
	w := x.w
	f := x.fn("mbt.fromProtoValueToAny")
	if f == nil {
		return
	}
	fns := x.group(f)
	pos := w.Pos(f.Pos())
	stay := func(g *ssa.Function) bool { return g == f || only(fns)(g) }
	x.narrows("from", fns)
	isVal := func(v ssa.Value) bool { return v == ssa.Value(f.Params[0]) }
	isA := func(typ string) func(Edge) bool { // edges that a value of the type does not take
		return func(e Edge) bool {
			ex, ok := e.Cond.(*ssa.Extract)
			if !ok || ex.Index != 1 {
				return false
			}
			ta, ok := ex.Tuple.(*ssa.TypeAssert)
			return ok && x.sel(ta.X, fns, isVal, "Kind") && e.Taken != (namedName(ta.AssertedType) == typ)
		}
	}
	kind := func(typ string) func(ssa.Value) bool { // the value as one of the type
		return func(v ssa.Value) bool {
			if ex, ok := v.(*ssa.Extract); ok {
				v = ex.Tuple
			}
			ta, ok := v.(*ssa.TypeAssert)
			return ok && namedName(ta.AssertedType) == typ
		}
	}
	plain := func(typ string) func(ssa.Value) bool {
		return func(v ssa.Value) bool {
			v = peelMI(v)
			return x.sel(v, fns, kind("Value_"+typ), typ) || x.sel(v, fns, isVal, typ)
		}
	}
	conv := func(arg func(ssa.Value) bool) func(ssa.Value) bool {
		return x.converted(fns, "mbt.fromProtoValueToAny", arg)
	}
	list := func(typ, fld string) func(ssa.Value) bool {
		return func(v ssa.Value) bool {
			return x.sel(v, fns, kind("Value_"+typ), typ, fld) || x.sel(v, fns, isVal, typ, fld)
		}
	}
	var built []ssa.Value // maps and lists that are filled
	for _, cs := range []struct{ key, typ, fld, elem string }{{"map", "MapValue", "Entries", "MapEntry"}, {"list", "ListValue", "Items", "Value"}} {
		n := 0
		for _, g := range fns {
			for _, l := range w.loopsOf(g) {
				var at ssa.Value
				isElem := func(v ssa.Value) bool {
					li, i := indexOf(v)
					if li == nil || !list(cs.typ, cs.fld)(li) {
						return false
					}
					at = i
					return true
				}
				put := func(in ssa.Instruction) bool {
					switch c := in.(type) {
					case *ssa.MapUpdate:
						return cs.key == "map" && conv(func(v ssa.Value) bool { return x.sel(v, fns, isElem, "Key") })(c.Key) && conv(func(v ssa.Value) bool { return x.sel(v, fns, isElem, "Value") })(c.Value)
					case *ssa.Store:
						ia, ok := c.Addr.(*ssa.IndexAddr)
						return cs.key == "list" && ok && conv(isElem)(c.Val) && ia.Index == at
					case *ssa.Call:
						if cs.key != "list" || calleeName(c) != "builtin.append" || len(c.Call.Args) != 2 {
							return false
						}
						es := sliceElems2(c.Call.Args[1])
						return len(es) == 1 && conv(isElem)(es[0])
					}
					return false
				}
				has := false
				for b := range l.Body {
					for _, in := range b.Instrs {
						if put(in) {
							has = true
							switch c := in.(type) {
							case *ssa.MapUpdate:
								built = append(built, c.Map)
							case *ssa.Store:
								built = append(built, c.Addr.(*ssa.IndexAddr).X)
							case *ssa.Call:
								built = append(built, c, c.Call.Args[0])
								built = append(built, phiLeaves(c.Call.Args[0])...)
							}
						}
					}
				}
				if !has {
					continue
				}
				n++
				sk, tr := w.iterationSkips(l, put, nil)
				x.check("from/every/"+cs.key, pos, !sk, "a part of a "+cs.key+" can be left out", tr)
				le, tr := w.leavesEarly(l, nil)
				x.check("from/all/"+cs.key, pos, !le, "the last parts of a "+cs.key+" can be left out", tr)
			}
		}
		x.check("from/parts/"+cs.key, pos, n == 1, "the parts of a "+cs.key+" are not all converted, in their places", nil)
	}
	isBuilt := func(v ssa.Value) bool {
		for _, l := range append(w.leavesIn(v, fns), peelMI(v)) {
			for _, b := range built {
				if b == l {
					return true
				}
			}
		}
		return false
	}
	noVal := says(isVal, isNil, token.EQL)
	for _, cs := range []struct {
		typ string
		ok  func(ssa.Value) bool
	}{{"StrValue", plain("StrValue")}, {"IntValue", plain("IntValue")}, {"BoolValue", plain("BoolValue")}, {"MapValue", isBuilt}, {"ListValue", isBuilt}, {"SentinelValue", func(v ssa.Value) bool {
		v = peelMI(v)
		return namedName(v.Type()) == "Sentinel" && isConstInt(1)(v)
	}}} {
		cs := cs
		cut := anyCut(isA("Value_"+cs.typ), noVal)
		if cs.typ == "SentinelValue" {
			cut = anyCut(cut, says(plain("SentinelValue"), isConstInt(1), token.NEQ))
		}
		bad, tr := (&Q{W: w, NoEnter: stay, Cut: cut, Track: tracked, GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
			rt, ok := in.(*ssa.Return)
			return ok && rt.Parent() == f && !cs.ok(resolved(res, retVal(rt, 0)))
		}}).Entry(f)
		x.check("from/"+cs.typ, pos, !bad, "a "+cs.typ+" is not handed on as what it is", tr)
	}
	// arguments
	g := x.fn("mbt.fromProtoArgsToLibArgs")
	if g == nil {
		return
	}
	gs := x.group(g)
	n := 0
	for _, h := range gs {
		for _, l := range w.loopsOf(h) {
			isArg := func(v ssa.Value) bool {
				li, _ := indexOf(v)
				return li != nil && allOf(w.leavesIn(li, gs), func(v ssa.Value) bool { return v == ssa.Value(g.Params[0]) })
			}
			whole := func(v ssa.Value) bool {
				name := func(v ssa.Value) bool { return x.sel(v, gs, isArg, "Name") }
				val := x.converted(gs, "mbt.fromProtoValueToAny", func(v ssa.Value) bool { return x.sel(v, gs, isArg, "Value") })
				return x.structIs(v, gs, map[string]func(ssa.Value) bool{"Name": name, "Value": val})
			}
			put := func(in ssa.Instruction) bool {
				switch c := in.(type) {
				case *ssa.Store:
					ia, ok := c.Addr.(*ssa.IndexAddr)
					return ok && namedName(c.Val.Type()) == "Arg" && whole(c.Val) && isForwardOf(ia.Index)
				case *ssa.Call:
					if calleeName(c) != "builtin.append" || len(c.Call.Args) != 2 {
						return false
					}
					es := sliceElems2(c.Call.Args[1])
					return len(es) == 1 && namedName(es[0].Type()) == "Arg" && whole(es[0])
				}
				return false
			}
			has := false
			for b := range l.Body {
				for _, in := range b.Instrs {
					has = has || put(in)
				}
			}
			if !has {
				continue
			}
			n++
			sk, tr := w.iterationSkips(l, put, says(isArg, isNil, token.EQL))
			le, _ := w.leavesEarly(l, nil)
			x.check("from/args/every", w.Pos(g.Pos()), !sk && !le, "an argument can be left out", tr)
		}
	}
	x.check("from/args", w.Pos(g.Pos()), n == 1, "the arguments are not all handed on, with names and values", nil)
}

func isForwardOf(v ssa.Value) bool { return isForward(v) }

// structIs: the struct value has the fields (an empty one, for nothing, is left aside).
func (x *adapter) structIs(v ssa.Value, fns []*ssa.Function, want map[string]func(ssa.Value) bool) bool {
	var als []*ssa.Alloc
	for _, l := range x.w.leavesIn(v, fns) {
		switch y := l.(type) {
		case *ssa.Const:
			continue
		case *ssa.UnOp:
			al, ok := y.X.(*ssa.Alloc)
			if !ok {
				return false
			}
			als = append(als, al)
		case *ssa.Alloc:
			als = append(als, y)
		default:
			return false
		}
	}
	full := 0
	for _, al := range als {
		n := 0
		for fld, ok := range want {
			ps := x.parts(al, fns, fld)
			if len(ps) == 1 && ps[0] == nil {
				continue
			}
			if !x.partIs(al, fns, ok, fld) {
				return false
			}
			n++
		}
		if n == len(want) {
			full++
		} else if n > 0 {
			return false
		}
	}
	return full == 1
}

// narrows: no number becomes one of fewer bits.
func (x *adapter) narrows(key string, fns []*ssa.Function) {
	bits := map[types.BasicKind]int{types.Int8: 8, types.Uint8: 8, types.Int16: 16, types.Uint16: 16, types.Int32: 32, types.Uint32: 32, types.Float32: 32}
	size := func(t types.Type) int {
		b, ok := t.Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsNumeric == 0 {
			return 0
		}
		if n, ok := bits[b.Kind()]; ok {
			return n
		}
		return 64
	}
	for _, g := range fns {
		instrs(g, func(in ssa.Instruction) {
			if c, ok := in.(*ssa.Convert); ok && size(c.Type()) > 0 && size(c.X.Type()) > 0 {
				x.check(key+"/whole", x.w.ipos(in), size(c.Type()) >= size(c.X.Type()), "large numbers are cut", nil)
			}
		})
	}
}
