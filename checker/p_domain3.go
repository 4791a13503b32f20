package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Operators of the language (go.starlark.net/syntax.Token).
const (
	tokPlus, tokMinus                              = 10, 11
	tokLT, tokGT, tokGE, tokLE, tokEQL, tokNEQ int = 33, 34, 35, 36, 37, 38
)

// argsIn: what a parameter of a helper is, at its calls in the group of functions (the first is the root).
func (w *World) argsIn(v ssa.Value, fns []*ssa.Function, d int) []ssa.Value {
	v = peelConv(v)
	p, ok := v.(*ssa.Parameter)
	if !ok || p.Parent() == fns[0] || d > 4 {
		return []ssa.Value{v}
	}
	idx := -1
	for i, q := range p.Parent().Params {
		if q == p {
			idx = i
		}
	}
	var out []ssa.Value
	for _, g := range fns {
		instrs(g, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == p.Parent() && idx >= 0 && idx < len(c.Common().Args) {
				out = append(out, w.argsIn(c.Common().Args[idx], fns, d+1)...)
			}
		})
	}
	if len(out) == 0 {
		return []ssa.Value{v}
	}
	return out
}

func allOf(vs []ssa.Value, p func(ssa.Value) bool) bool {
	for _, v := range vs {
		if !p(v) {
			return false
		}
	}
	return len(vs) > 0
}

// strCase: branches that contradict that the parameter is the string (or number) k.
func strCase(p *ssa.Parameter, k string) func(Edge) bool {
	return func(e Edge) bool {
		x, op, y, ok := relOf(e)
		if !ok || op != token.EQL && op != token.NEQ {
			return false
		}
		if x != ssa.Value(p) {
			x, y = y, x
		}
		c, isC := y.(*ssa.Const)
		if x != ssa.Value(p) || !isC || c.Value == nil {
			return false
		}
		s := c.Value.ExactString()
		if c.Value.Kind() == constant.String {
			s = constant.StringVal(c.Value)
		}
		return (s == k) == (op == token.NEQ)
	}
}

// boundMethod: v is a builtin made from the method of the receiver; "" otherwise.
func (w *World) boundMethod(v ssa.Value) string {
	c, ok := peelMI(v).(*ssa.Call)
	if !ok || calleeName(c) != "starlark.NewBuiltin" || len(c.Call.Args) != 2 {
		return ""
	}
	fv := c.Call.Args[1]
	for {
		if ct, ok := fv.(*ssa.ChangeType); ok {
			fv = ct.X
			continue
		}
		break
	}
	if mc, ok := fv.(*ssa.MakeClosure); ok {
		if f, ok := mc.Fn.(*ssa.Function); ok {
			if o, ok := f.Object().(*types.Func); ok {
				if rc := o.Type().(*types.Signature).Recv(); rc != nil {
					return namedName(rc.Type()) + "." + o.Name()
				}
			}
		}
	}
	if f, ok := fv.(*ssa.Function); ok {
		return fname(f)
	}
	return ""
}

// domainAttrs: every kind of domain offers its own operations, and only those.
func (w *World) domainAttrs(r *Rep) {
	f := w.Func("lib.SymmetryDomain.Attr")
	seg := w.Func("lib.Segment.Attr")
	if f == nil || seg == nil || len(f.Params) != 2 || len(seg.Params) != 2 {
		r.Undecided("attrs", "-", "Attr not found")
		return
	}
	kinds := []string{"nominal", "ordinal", "interval", "rotational"}
	ops := map[string]string{
		"fresh": "nominal ordinal interval rotational", "values": "nominal ordinal interval rotational",
		"choices": "nominal rotational", "choose": "nominal rotational",
		"min": "ordinal interval", "max": "ordinal interval", "segments": "ordinal",
	}
	for op, offered := range ops {
		for _, k := range kinds {
			want := strings.Contains(offered, k)
			q := &Q{W: w, Cut: anyCut(w.domKind(k), strCase(f.Params[1], op)), NoEnter: w.onlyHelpers(f), GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
				rt, ok := in.(*ssa.Return)
				if !ok || rt.Parent() != f {
					return false
				}
				v := res(retVal(rt, 0))
				if want {
					return !w.everyValue(v, func(x ssa.Value) bool { return w.boundMethod(x) == "SymmetryDomain."+op }, 0)
				}
				return !w.everyValue(v, isNilConst, 0)
			}}
			bad, tr := q.Entry(f)
			why := "the operation is not the one of that name"
			if !want {
				why = "the operation is offered by a kind of domain that does not have it"
			}
			r.Check("attrs/"+op+"/"+k, w.Pos(f.Pos()), !bad, ifBad(bad, why+": "+strings.Join(tr, " → ")))
		}
	}
	for attr, field := range map[string]string{"name": "Name", "limit": "Limit", "divergence": "Divergence", "start": "Start"} {
		q := &Q{W: w, Cut: anyCut(w.domKind("interval"), strCase(f.Params[1], attr)), NoEnter: w.onlyHelpers(f), GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
			rt, ok := in.(*ssa.Return)
			return ok && rt.Parent() == f && !re(`(^|[.(])SymmetryDomain\.`+field+`\)?$`).MatchString(w.plain(peelMI(res(retVal(rt, 0)))))
		}}
		bad, tr := q.Entry(f)
		r.Check("attrs/"+attr, w.Pos(f.Pos()), !bad, ifBad(bad, "the attribute is not the setting of the domain: "+strings.Join(tr, " → ")))
	}
	q := &Q{W: w, Cut: strCase(seg.Params[1], "fresh"), NoEnter: w.onlyHelpers(seg), GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
		rt, ok := in.(*ssa.Return)
		return ok && rt.Parent() == seg && !w.everyValue(res(retVal(rt, 0)), func(x ssa.Value) bool { return w.boundMethod(x) == "Segment.fresh" }, 0)
	}}
	bad, tr := q.Entry(seg)
	r.Check("attrs/segment", w.Pos(seg.Pos()), !bad, ifBad(bad, "fresh of a segment is something else: "+strings.Join(tr, " → ")))
}

// moduleFns: the functions of the symmetry module by name.
func (w *World) moduleFns() map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	for _, f := range w.Funcs {
		if f.Name() != "init" || f.Package() == nil || f.Package().Pkg.Name() != "lib" {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok {
				return
			}
			k, ok := mu.Key.(*ssa.Const)
			if !ok || k.Value == nil || k.Value.Kind() != constant.String {
				return
			}
			n := constant.StringVal(k.Value)
			c, ok := peelMI(mu.Value).(*ssa.Call)
			if !ok || calleeName(c) != "starlark.NewBuiltin" {
				return
			}
			switch n {
			case "nominal", "ordinal", "interval", "rotational":
				for _, g := range w.funcValues(c.Call.Args[1], 0) {
					out[n] = g
				}
			}
		})
	}
	return out
}

// domainArgs: a domain is what its declaration says.
func (w *World) domainArgs(r *Rep) {
	makers := w.moduleFns()
	for _, kind := range []string{"nominal", "ordinal", "interval", "rotational"} {
		f := makers[kind]
		key := "declared/" + kind
		if f == nil {
			r.Check(key, "-", false, "the module does not offer the kind")
			continue
		}
		group := w.domGroup(f)
		stored := map[string][]ssa.Value{}
		made := map[ssa.Instruction]bool{}
		for _, g := range group {
			instrs(g, func(in ssa.Instruction) {
				st, ok := in.(*ssa.Store)
				if !ok {
					return
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || namedName(fa.X.Type()) != "SymmetryDomain" {
					return
				}
				n := fieldName(fa.X.Type(), fa.Field)
				stored[n] = append(stored[n], w.argsIn(st.Val, group, 0)...)
				if al, ok := fa.X.(*ssa.Alloc); ok {
					made[al] = true
				}
			})
		}
		pos := w.Pos(f.Pos())
		r.Check(key+"/made", pos, len(made) > 0, ifBad(len(made) == 0, "no domain is made"))
		ok := allOf(stored["Kind"], func(v ssa.Value) bool {
			c, ok := v.(*ssa.Const)
			return ok && c.Value != nil && constant.StringVal(c.Value) == kind
		})
		r.Check(key+"/kind", pos, ok, ifBad(!ok, "the domain is of another kind"))
		cell := func(n string) *ssa.Alloc { return w.cellOf(f, n) }
		isCell := func(n string) func(ssa.Value) bool {
			c := cell(n)
			return func(v ssa.Value) bool {
				return c != nil && allOf(w.argsIn(v, group, 0), func(x ssa.Value) bool {
					u, ok := x.(*ssa.UnOp)
					return ok && u.Op == token.MUL && u.X == ssa.Value(c)
				})
			}
		}
		needs := map[string][]string{
			"nominal": {"name", "limit", "materialize"}, "ordinal": {"name", "limit", "reflection", "materialize"},
			"interval": {"name", "start", "reflection", "materialize"}, "rotational": {"name", "limit", "reflection", "materialize"},
		}[kind]
		for _, n := range needs {
			vs := stored[strings.ToUpper(n[:1])+n[1:]]
			good := allOf(vs, isCell(n))
			r.Check(key+"/"+n, pos, good, ifBad(!good, "the domain does not get the argument "+n))
		}
		for fld, vs := range stored {
			n := strings.ToLower(fld[:1]) + fld[1:]
			if n == "kind" || n == "limit" || n == "divergence" {
				continue
			}
			good := allOf(vs, func(v ssa.Value) bool {
				b, known := constBool(v)
				return isCell(n)(v) || known && !b && cell(n) == nil || isConstInt(0)(v) && cell(n) == nil
			})
			r.Check(key+"/only/"+n, pos, good, ifBad(!good, "the domain gets something that was not declared"))
		}
		// settings without which there is no domain
		okRet := func(in ssa.Instruction) bool {
			rt, is := in.(*ssa.Return)
			return is && rt.Parent() == f && !isNilConst(retVal(rt, 0))
		}
		makes := func(in ssa.Instruction) bool { return made[in] || okRet(in) && len(made) == 0 }
		bound := func(what string, x func(ssa.Value) bool, min int64) {
			w.must(r, step{Key: key + "/" + what, Why: "a domain is made although its " + what + " is out of range", Fn: f, Goal: makes, NoEnter: outside(group),
				Cut: anyCut(says(x, isConstInt(min), token.GEQ), says(x, isConstInt(min-1), token.GTR))})
		}
		same := func(fld string) func(ssa.Value) bool {
			return func(v ssa.Value) bool {
				return allOf(w.argsIn(v, group, 0), func(x ssa.Value) bool {
					for _, y := range stored[fld] {
						if x == y || isCell(strings.ToLower(fld[:1])+fld[1:])(x) && isCell(strings.ToLower(fld[:1])+fld[1:])(y) {
							return true
						}
					}
					return false
				})
			}
		}
		if kind == "rotational" {
			bound("limit-range", same("Limit"), 2)
		} else {
			bound("limit-range", same("Limit"), 1)
		}
		isName := same("Name")
		isLenName := func(v ssa.Value) bool {
			c, ok := v.(*ssa.Call)
			return ok && calleeName(c) == "builtin.len" && isName(c.Call.Args[0])
		}
		empty := func(v ssa.Value) bool {
			c, ok := v.(*ssa.Const)
			return ok && c.Value != nil && c.Value.ExactString() == `""`
		}
		w.must(r, step{Key: key + "/named", Why: "a domain without a name is made", Fn: f, Goal: makes, NoEnter: outside(group),
			Cut: anyCut(says(isName, empty, token.NEQ), says(isLenName, isConstInt(0), token.NEQ, token.GTR), says(isLenName, isConstInt(1), token.GEQ))})
		if kind == "interval" {
			w.intervalArgs(r, key, f, group, stored, makes)
		}
	}
}

// intervalArgs: the limit and the divergence of an interval follow from each other, and fit.
func (w *World) intervalArgs(r *Rep, key string, f *ssa.Function, group []*ssa.Function, stored map[string][]ssa.Value, makes func(ssa.Instruction) bool) {
	pos := w.Pos(f.Pos())
	lim, div := w.cellOf(f, "limit"), w.cellOf(f, "divergence")
	var class func(v ssa.Value, seen map[ssa.Value]bool) string
	// what a number is computed from: the limit or the divergence argument
	class = func(v ssa.Value, seen map[ssa.Value]bool) string {
		out := ""
		for _, x := range w.argsIn(v, group, 0) {
			for _, l := range phiLeaves(x) {
				l = peelConv(l)
				if _, isC := l.(*ssa.Const); isC || seen[l] {
					continue
				}
				seen[l] = true
				c := ""
				terms := map[string]int64{}
				if w.sum(l, 1, terms, 0); len(w.sumLeaves(l)) > 1 {
					for _, y := range w.sumLeaves(l) {
						if k := class(y, seen); k != "" {
							c = k
						}
					}
				} else if w.fromCell(l, lim) && !w.fromCell(l, div) {
					c = "limit"
				} else if w.fromCell(l, div) && !w.fromCell(l, lim) {
					c = "divergence"
				} else {
					c = "?"
				}
				if out != "" && out != c {
					return "?"
				}
				out = c
			}
		}
		return out
	}
	for _, x := range []struct {
		field, own, other string
		off               int64
	}{{"Limit", "limit", "divergence", 1}, {"Divergence", "divergence", "limit", -1}} {
		var leaves []ssa.Value
		for _, v := range stored[x.field] {
			for _, a := range phiLeaves(v) {
				leaves = append(leaves, a)
			}
		}
		own, derived, why := false, false, ""
		for _, l := range leaves {
			if isConstInt(-1)(l) {
				continue
			}
			terms := map[string]int64{}
			c := w.sum(l, 1, terms, 0)
			k := ""
			for _, y := range w.sumLeaves(l) {
				if s := class(y, map[ssa.Value]bool{}); s != "" {
					k = s
				}
			}
			switch {
			case len(terms) == 1 && c == 0 && k == x.own:
				own = true
			case len(terms) == 1 && c == x.off && k == x.other:
				derived = true
			default:
				why = "the " + x.own + " is computed wrongly: " + w.render(l)
			}
		}
		if why == "" && !own {
			why = "the argument is not used"
		}
		if why == "" && !derived {
			why = "without the argument it is not derived from the other"
		}
		r.Check(key+"/"+x.own, pos, why == "", why)
	}
	in := func(v ssa.Value, fld string) bool {
		return allOf(w.argsIn(v, group, 0), func(x ssa.Value) bool {
			for _, y := range stored[fld] {
				if x == y {
					return true
				}
			}
			return false
		})
	}
	fits := func(e Edge) bool {
		a, op, b, ok := relOf(e)
		if !ok {
			return false
		}
		// c + limit - divergence op 0
		terms := map[string]int64{}
		c := w.sum(a, 1, terms, 0) + w.sum(b, -1, terms, 0)
		sign := int64(0)
		n := 0
		for i, side := range []ssa.Value{a, b} {
			signedLeaves(side, int64(1-2*i), func(l ssa.Value, s int64) {
				switch {
				case in(l, "Limit"):
					sign += s
					n++
				case in(l, "Divergence"):
					sign -= s
					n++
				}
			})
		}
		if n != 2 || len(terms) > 2 || sign != 2 && sign != -2 {
			return false
		}
		if sign < 0 { // -c + limit - divergence (mirrored op) 0
			c, op = -c, mirrored[op]
		}
		return op == token.LEQ && c >= -1 || op == token.LSS && c >= -2
	}
	w.must(r, step{Key: key + "/fits", Why: "a domain is made whose limit does not fit in its divergence", Fn: f, Goal: makes, NoEnter: outside(group), Cut: fits})
}

// signedLeaves: the terms of a sum with their signs.
func signedLeaves(v ssa.Value, s int64, f func(l ssa.Value, s int64)) {
	v = peelConv(v)
	switch x := v.(type) {
	case *ssa.BinOp:
		if x.Op == token.ADD || x.Op == token.SUB {
			signedLeaves(x.X, s, f)
			if x.Op == token.SUB {
				s = -s
			}
			signedLeaves(x.Y, s, f)
			return
		}
	case *ssa.UnOp:
		if x.Op == token.SUB {
			signedLeaves(x.X, -s, f)
			return
		}
	}
	f(v, s)
}

// idSide: whose id is it: "s" the receiver's, "y" the other operand's.
func (w *World) idSide(v ssa.Value, fns []*ssa.Function, field string) string {
	base := func(v ssa.Value) ssa.Value {
		for {
			switch x := v.(type) {
			case *ssa.TypeAssert:
				v = x.X
			case *ssa.Extract:
				v = x.Tuple
			case *ssa.UnOp:
				v = x.X
			default:
				if y := peelMI(v); y != v {
					v = y
					continue
				}
				return v
			}
		}
	}
	v = peelConv(w.bound.of(peelConv(v)))
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return ""
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok || fieldName(fa.X.Type(), fa.Field) != field {
		return ""
	}
	b := fa.X
	if f2, ok := b.(*ssa.FieldAddr); ok { // the embedded part
		b = f2.X
	}
	out := ""
	for _, a := range w.argsIn(base(b), fns, 0) {
		p, ok := base(w.bound.of(base(a))).(*ssa.Parameter)
		if !ok || p.Parent() != fns[0] {
			return ""
		}
		s := "y"
		if p == fns[0].Params[0] {
			s = "s"
		}
		if out != "" && out != s {
			return ""
		}
		out = s
	}
	return out
}

// samePrefix: edges that state that the two operands are of the same domain (or that they are not).
func (w *World) prefixEdge(fns []*ssa.Function, same bool) func(Edge) bool {
	op := token.NEQ
	if same {
		op = token.EQL
	}
	return func(e Edge) bool {
		a, o, b, ok := relOf(e)
		if !ok || o != op {
			return false
		}
		x, y := w.idSide(a, fns, "prefix"), w.idSide(b, fns, "prefix")
		return x != "" && y != "" && x != y
	}
}

// orderOf: the comparison of the receiver's id with the other's that the value is.
func (w *World) orderOf(v ssa.Value, fns []*ssa.Function, d int) token.Token {
	v = w.bound.of(v)
	neg := map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL}
	if d > 4 {
		return 0
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return neg[w.orderOf(x.X, fns, d+1)]
		}
	case *ssa.BinOp:
		if _, ok := neg[x.Op]; !ok {
			return 0
		}
		if c, ok := x.X.(*ssa.Call); ok && reMatch(`cmp\.Compare(\[.*)?`, calleeName(c)) && isConstInt(0)(x.Y) {
			a, b := w.idSide(c.Call.Args[0], fns, "id"), w.idSide(c.Call.Args[1], fns, "id")
			if a == "s" && b == "y" {
				return x.Op
			}
			if a == "y" && b == "s" {
				return mirrored[x.Op]
			}
			return 0
		}
		a, b := w.idSide(x.X, fns, "id"), w.idSide(x.Y, fns, "id")
		if a == "s" && b == "y" {
			return x.Op
		}
		if a == "y" && b == "s" {
			return mirrored[x.Op]
		}
		// both the same domain, as part of the answer
		if w.idSide(x.X, fns, "prefix") != "" && w.idSide(x.X, fns, "prefix") != w.idSide(x.Y, fns, "prefix") {
			return 0
		}
	case *ssa.Phi: // prefix == prefix && id == id
		var out token.Token
		for i, e := range x.Edges {
			if c, ok := e.(*ssa.Const); ok && c.Value != nil && c.Value.ExactString() == "false" {
				// only where the domains differ
				p := x.Block().Preds[i]
				iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
				if !ok || !w.prefixEdge(fns, false)(Edge{If: iff, Cond: iff.Cond, Taken: p.Succs[0] == x.Block()}) {
					return 0
				}
				continue
			}
			o := w.orderOf(e, fns, d+1)
			if o == 0 || out != 0 && out != o {
				return 0
			}
			out = o
		}
		return out
	case *ssa.Call, *ssa.Extract:
		var c ssa.Value = x
		if ex, ok := c.(*ssa.Extract); ok {
			c = ex.Tuple
		}
		call, ok := c.(*ssa.Call)
		if !ok {
			return 0
		}
		f := call.Call.StaticCallee()
		if f == nil || !w.owns(f) || len(f.Blocks) == 0 {
			return 0
		}
		var out token.Token
		bad := false
		w.with(bindCall(call, f, nil), func() {
			instrs(f, func(in ssa.Instruction) {
				if rt, ok := in.(*ssa.Return); ok && len(rt.Results) > 0 {
					o := w.orderOf(retVal(rt, 0), fns, d+1)
					bad = bad || o == 0 || out != 0 && out != o
					out = o
				}
			})
		})
		if bad {
			return 0
		}
		return out
	}
	return 0
}

// tokenCase: branches that contradict that the operator is n.
func tokenCase(fns []*ssa.Function, w *World, n int) func(Edge) bool {
	return func(e Edge) bool {
		x, op, y, ok := relOf(e)
		if !ok || op != token.EQL && op != token.NEQ {
			return false
		}
		if _, isC := x.(*ssa.Const); isC {
			x, y = y, x
		}
		c, isC := y.(*ssa.Const)
		if !isC || c.Value == nil || namedName(x.Type()) != "Token" {
			return false
		}
		return (c.Value.ExactString() == strconv.Itoa(n)) == (op == token.NEQ)
	}
}

// valueOps: comparing and computing with the values of a domain.
func (w *World) valueOps(r *Rep) {
	cmp := w.Func("lib.SymmetricValue.CompareSameType")
	bin := w.Func("lib.SymmetricValue.Binary")
	if cmp == nil || bin == nil {
		r.Undecided("operations", "-", "CompareSameType or Binary not found")
		return
	}
	fns := w.withHelpers(cmp)
	answered := func(ok func(v ssa.Value) bool) func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
		return func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
			rt, is := in.(*ssa.Return)
			return is && rt.Parent() == cmp && isNilConst(res(retVal(rt, 1))) && !ok(res(retVal(rt, 0)))
		}
	}
	never := func(ssa.Value) bool { return false }
	names := map[int]string{tokLT: "<", tokLE: "<=", tokGT: ">", tokGE: ">=", tokEQL: "==", tokNEQ: "!="}
	want := map[int]token.Token{tokLT: token.LSS, tokLE: token.LEQ, tokGT: token.GTR, tokGE: token.GEQ, tokEQL: token.EQL, tokNEQ: token.NEQ}
	pos := w.Pos(cmp.Pos())
	for n, name := range names {
		for _, k := range []string{"nominal", "ordinal", "interval", "rotational"} {
			refused := n != tokEQL && n != tokNEQ && (k == "nominal" || k == "rotational")
			ok := func(v ssa.Value) bool { return w.orderOf(v, fns, 0) == want[n] }
			why := "the answer is not that of comparing the two ids"
			if refused {
				ok, why = never, "values without an order are ordered"
			}
			cut := anyCut(tokenCase(fns, w, n), w.domKind(k))
			q := &Q{W: w, Cut: cut, GoalEnv: answered(ok), NoEnter: w.onlyHelpers(cmp)}
			bad, tr := q.Entry(cmp)
			r.Check("compare/"+name+"/"+k, pos, !bad, ifBad(bad, why+": "+strings.Join(tr, " → ")))
			if !refused {
				// and there is an answer
				q := &Q{W: w, Cut: anyCut(cut, w.prefixEdge(fns, false)), NoEnter: w.onlyHelpers(cmp), GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
					rt, is := in.(*ssa.Return)
					return is && rt.Parent() == cmp && !isNilConst(res(retVal(rt, 1)))
				}}
				bad, tr := q.Entry(cmp)
				r.Check("compare/"+name+"/"+k+"/answered", pos, !bad, ifBad(bad, "values of the same domain are not compared: "+strings.Join(tr, " → ")))
			}
		}
		q := &Q{W: w, Cut: anyCut(tokenCase(fns, w, n), w.prefixEdge(fns, true)), GoalEnv: answered(never), NoEnter: w.onlyHelpers(cmp)}
		bad, tr := q.Entry(cmp)
		r.Check("compare/"+name+"/domains", pos, !bad, ifBad(bad, "values of different domains are compared: "+strings.Join(tr, " → ")))
	}
	w.arithmetic(r, bin)
}

// arithmetic: value ± int is a value of the same domain, value - value an int.
func (w *World) arithmetic(r *Rep, bin *ssa.Function) {
	fns := w.withHelpers(bin)
	pos := w.Pos(bin.Pos())
	if len(bin.Params) != 4 {
		r.Undecided("arithmetic", pos, "unexpected parameters")
		return
	}
	sideCase := func(left bool) func(Edge) bool {
		// starlark.Left is false
		return func(e Edge) bool {
			b, taken := e.Cond, e.Taken
			if bo, ok := b.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
				c, isC := bo.Y.(*ssa.Const)
				x := bo.X
				if !isC {
					c, isC = bo.X.(*ssa.Const)
					x = bo.Y
				}
				if !isC || c.Value == nil || c.Value.Kind() != constant.Bool {
					return false
				}
				b = x
				if constant.BoolVal(c.Value) != (bo.Op == token.EQL) {
					taken = !taken
				}
			}
			p, ok := w.bound.of(b).(*ssa.Parameter)
			return ok && namedName(p.Type()) == "Side" && taken == left
		}
	}
	// isInt: the number that the other operand is
	isInt := func(v ssa.Value) bool {
		ex, ok := v.(*ssa.Extract)
		if !ok || ex.Index != 0 {
			return false
		}
		c, ok := ex.Tuple.(*ssa.Call)
		if !ok || !reMatch(`starlark\.AsInt(32)?`, calleeName(c)) {
			return false
		}
		return allOf(w.argsIn(c.Call.Args[0], fns, 0), func(x ssa.Value) bool { return x == ssa.Value(bin.Params[2]) })
	}
	isLimit := func(v ssa.Value) bool {
		return w.idSide(v, fns, "Limit") == "s"
	}
	// expr: the value is s.id + sign * (the int or the id of the other), within the limit for rotational values
	var expr func(v ssa.Value, kind string, sign int64, other func(ssa.Value) bool) bool
	expr = func(v ssa.Value, kind string, sign int64, other func(ssa.Value) bool) bool {
		v = peelConv(w.bound.of(peelConv(v)))
		if kind == "rotational" {
			arg := w.modOf(v, isLimit, fns)
			if arg == nil {
				return false
			}
			v = arg
		}
		terms := map[string]int64{}
		c := w.sum(v, 1, terms, 0)
		own, oth := int64(0), int64(0)
		var leafSign func(v ssa.Value, s int64)
		leafSign = func(v ssa.Value, s int64) {
			v = peelConv(w.bound.of(peelConv(v)))
			if bo, ok := v.(*ssa.BinOp); ok && (bo.Op == token.ADD || bo.Op == token.SUB) {
				leafSign(bo.X, s)
				if bo.Op == token.SUB {
					s = -s
				}
				leafSign(bo.Y, s)
				return
			}
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.SUB {
				leafSign(u.X, -s)
				return
			}
			for _, a := range w.argsIn(v, fns, 0) {
				if u, ok := a.(*ssa.UnOp); ok && u.Op == token.SUB {
					leafSign(u.X, -s)
					continue
				}
				switch {
				case w.idSide(a, fns, "id") == "s":
					own += s
				case other(a):
					oth += s
				default:
					own = 100
				}
			}
		}
		leafSign(v, 1)
		return c == 0 && own == 1 && oth == sign
	}
	ofDomain := func(c *ssa.Call, kind string) bool {
		a := c.Call.Args
		if w.idSide(a[0], fns, "prefix") != "s" {
			return false
		}
		switch calleeName(c) {
		case "lib.NewRotationalSymmetricValue":
			return kind == "rotational" && w.idSide(a[2], fns, "Limit") == "s"
		case "lib.NewSymmetricValueWithKind":
			if kind == "rotational" {
				return false
			}
			if k, ok := a[2].(*ssa.Const); ok {
				return k.Value != nil && constant.StringVal(k.Value) == kind
			}
			return w.idSide(a[2], fns, "Kind") == "s"
		}
		return false
	}
	yId := func(v ssa.Value) bool { return w.idSide(v, fns, "id") == "y" }
	for _, kind := range []string{"nominal", "ordinal", "interval", "rotational"} {
		for _, op := range []struct {
			tok  int
			left bool
			name string
		}{{tokPlus, true, "v+i"}, {tokPlus, false, "i+v"}, {tokMinus, true, "v-i"}, {tokMinus, false, "i-v"}, {12, true, "v*i"}} {
			cut := anyCut(w.domKind(kind), tokenCase(fns, w, op.tok), sideCase(op.left))
			good := func(v ssa.Value) bool {
				if isNilConst(v) {
					return true
				}
				c, ok := v.(*ssa.Call)
				if !ok || kind == "nominal" || op.tok == 12 || op.tok == tokMinus && !op.left {
					return false
				}
				sign := int64(1)
				if op.tok == tokMinus {
					sign = -1
				}
				if mk, id := makesValue(c); mk != nil {
					return ofDomain(mk, kind) && expr(id, kind, sign, isInt)
				}
				if reMatch(`starlark\.MakeInt(64)?`, calleeName(c)) && op.tok == tokMinus {
					return expr(c.Call.Args[0], kind, -1, yId)
				}
				return false
			}
			q := &Q{W: w, Cut: cut, NoEnter: w.onlyHelpers(bin), GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
				rt, is := in.(*ssa.Return)
				if !is || !inFuncs(fns, rt.Parent()) || len(rt.Results) != 2 {
					return false
				}
				v := peelMI(res(retVal(rt, 0)))
				if ex, ok := v.(*ssa.Extract); ok {
					if c, ok := ex.Tuple.(*ssa.Call); ok && inFuncs(fns, c.Call.StaticCallee()) {
						return false // judged there
					}
				}
				return !w.everyValue(v, good, 0)
			}}
			bad, tr := q.Entry(bin)
			r.Check("arithmetic/"+op.name+"/"+kind, pos, !bad, ifBad(bad, "the result is wrong: "+strings.Join(tr, " → ")))
			if kind == "nominal" || op.tok == 12 || op.tok == tokMinus && !op.left {
				continue
			}
			// with an int there is a result
			noInt := func(e Edge) bool {
				x, o, y, ok := relOf(e)
				if !ok || o != token.NEQ || !isNilConst(y) {
					return false
				}
				ex, isE := x.(*ssa.Extract)
				if !isE || ex.Index != 1 {
					return false
				}
				c, isC := ex.Tuple.(*ssa.Call)
				return isC && reMatch(`starlark\.AsInt(32)?`, calleeName(c))
			}
			isValue := func(e Edge) bool {
				ex, ok := e.Cond.(*ssa.Extract)
				if !ok || !e.Taken {
					return false
				}
				ta, ok := ex.Tuple.(*ssa.TypeAssert)
				return ok && namedName(ta.AssertedType) == "SymmetricValue"
			}
			badLimit := says(isLimit, isConstInt(0), token.LEQ)
			q = &Q{W: w, Cut: anyCut(cut, noInt, badLimit, isValue), NoEnter: w.onlyHelpers(bin), GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
				rt, is := in.(*ssa.Return)
				return is && inFuncs(fns, rt.Parent()) && len(rt.Results) == 2 && isNilConst(res(retVal(rt, 0)))
			}}
			bad, tr = q.Entry(bin)
			r.Check("arithmetic/"+op.name+"/"+kind+"/answered", pos, !bad, ifBad(bad, "there is no result: "+strings.Join(tr, " → ")))
		}
		if kind != "nominal" {
			// the difference of values of one domain only
			q := &Q{W: w, Cut: anyCut(w.domKind(kind), w.prefixEdge(fns, true)), NoEnter: w.onlyHelpers(bin), Goal: func(in ssa.Instruction) bool {
				c, ok := in.(*ssa.Call)
				return ok && reMatch(`starlark\.MakeInt(64)?`, calleeName(c)) && inFuncs(fns, in.Parent())
			}}
			bad, tr := q.Entry(bin)
			r.Check("arithmetic/v-v/"+kind, pos, !bad, ifBad(bad, "values of different domains are subtracted: "+strings.Join(tr, " → ")))
		}
	}
}

// modOf: v is the remainder of a value in 0..limit-1; the value.
func (w *World) modOf(v ssa.Value, isLimit func(ssa.Value) bool, fns []*ssa.Function) ssa.Value {
	v = peelConv(w.bound.of(peelConv(v)))
	rem := func(v ssa.Value, lim func(ssa.Value) bool) ssa.Value {
		b, ok := peelConv(v).(*ssa.BinOp)
		if ok && b.Op == token.REM && lim(b.Y) {
			return b.X
		}
		return nil
	}
	// ((a % m) + m) % m
	pos := func(v ssa.Value, lim func(ssa.Value) bool) ssa.Value {
		in := rem(v, lim)
		if in == nil {
			return nil
		}
		b, ok := peelConv(in).(*ssa.BinOp)
		if !ok || b.Op != token.ADD {
			return nil
		}
		if lim(b.Y) {
			return rem(b.X, lim)
		}
		if lim(b.X) {
			return rem(b.Y, lim)
		}
		return nil
	}
	if a := pos(v, isLimit); a != nil {
		return a
	}
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	f := c.Call.StaticCallee()
	if f == nil || !w.owns(f) || len(f.Params) != 2 {
		return nil
	}
	li := -1
	for i, a := range c.Call.Args {
		if allOf(w.argsIn(a, fns, 0), isLimit) {
			li = i
		}
	}
	if li < 0 {
		return nil
	}
	m, a := f.Params[li], f.Params[1-li]
	isM := func(x ssa.Value) bool { return peelConv(x) == ssa.Value(m) }
	isA := func(x ssa.Value) bool { return x != nil && peelConv(x) == ssa.Value(a) }
	good, n := true, 0
	instrs(f, func(in ssa.Instruction) {
		rt, ok := in.(*ssa.Return)
		if !ok || len(rt.Results) != 1 {
			return
		}
		n++
		good = good && w.normalized(retVal(rt, 0), isA, isM, rem, pos)
	})
	if !good || n == 0 {
		return nil
	}
	return c.Call.Args[1-li]
}

// normalized: ((a % m) + m) % m, or a % m with m added where that is negative.
func (w *World) normalized(v ssa.Value, isA, isM func(ssa.Value) bool, rem, pos func(ssa.Value, func(ssa.Value) bool) ssa.Value) bool {
	if isA(pos(v, isM)) {
		return true
	}
	isRem := func(x ssa.Value) bool { return isA(rem(x, isM)) }
	added := func(x ssa.Value) bool {
		b, ok := peelConv(x).(*ssa.BinOp)
		return ok && b.Op == token.ADD && (isRem(b.X) && isM(b.Y) || isRem(b.Y) && isM(b.X))
	}
	neg, non := says(isRem, isConstInt(0), token.LSS), says(isRem, isConstInt(0), token.GEQ)
	edge := func(p, to *ssa.BasicBlock) (Edge, bool) {
		for len(p.Instrs) > 0 {
			if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok {
				return Edge{If: iff, Cond: iff.Cond, Taken: p.Succs[0] == to}, true
			}
			if len(p.Preds) != 1 {
				break
			}
			p, to = p.Preds[0], p
		}
		return Edge{}, false
	}
	if ph, ok := v.(*ssa.Phi); ok {
		for i, x := range ph.Edges {
			e, ok := edge(ph.Block().Preds[i], ph.Block())
			if !ok || !(added(x) && neg(e) || isRem(x) && non(e)) {
				return false
			}
		}
		return true
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	// returned directly: the block of the return decides
	for _, rf := range *v.Referrers() {
		rt, ok := rf.(*ssa.Return)
		if !ok {
			continue
		}
		if len(rt.Block().Preds) != 1 {
			return false
		}
		e, ok := edge(rt.Block().Preds[0], rt.Block())
		if !ok || !(added(v) && neg(e) || isRem(v) && non(e)) {
			return false
		}
	}
	return in != nil
}

// constraintRules: states outside the limits of a domain.
func (w *World) constraintRules(r *Rep) {
	f := w.Func("modelchecker.CheckSymmetryConstraints")
	pn := w.Func("modelchecker.Processor.processNode")
	if f == nil || pn == nil {
		r.Undecided("constraints", "-", "CheckSymmetryConstraints not found")
		return
	}
	group := w.withHelpers(f)
	pos := w.Pos(f.Pos())
	collect := func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		if !ok {
			return false
		}
		n := calleeName(c)
		return n == "modelchecker.UsedSymmetricValuesCollector.GetAllUsedIDs" || n == "lib.UsedSymmetricValuesCollector.GetAllUsedIDs"
	}
	visit := func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		return ok && calleeName(c) == "modelchecker.Process.AcceptVisitor" && re(`Process$`).MatchString(w.plain(c.Call.Args[0]))
	}
	n := 0
	for _, g := range group {
		instrs(g, func(in ssa.Instruction) {
			if collect(in) {
				n++
			}
		})
	}
	r.Check("constraints/used", pos, n > 0, ifBad(n == 0, "the used ids are not collected"))
	w.must(r, step{Key: "constraints/visited", Why: "the ids are read before the state was visited", Fn: f, Through: visit, Goal: collect, NoEnter: w.onlyHelpers(f)})
	passes := mayReturn(f, 0, true)
	noDomain := func(e Edge) bool { // the global is not a domain
		ex, ok := e.Cond.(*ssa.Extract)
		if !ok || e.Taken {
			return false
		}
		ta, ok := ex.Tuple.(*ssa.TypeAssert)
		return ok && namedName(ta.AssertedType) == "SymmetryDomain"
	}
	ids := func(v ssa.Value) bool { return re(`GetAllUsedIDs\(.*\[.*Name\](#0)?$`).MatchString(w.render(v)) }
	lenIds := func(v ssa.Value) bool {
		return allOf(w.argsIn(v, group, 0), func(x ssa.Value) bool {
			c, ok := x.(*ssa.Call)
			return ok && calleeName(c) == "builtin.len" && allOf(w.argsIn(c.Call.Args[0], group, 0), ids)
		})
	}
	isField := func(n string) func(ssa.Value) bool {
		return func(v ssa.Value) bool {
			return allOf(w.argsIn(v, group, 0), func(x ssa.Value) bool {
				u, ok := x.(*ssa.UnOp)
				if !ok {
					return false
				}
				fa, ok := u.X.(*ssa.FieldAddr)
				return ok && namedName(fa.X.Type()) == "SymmetryDomain" && fieldName(fa.X.Type(), fa.Field) == n
			})
		}
	}
	none := func(e Edge) bool { // nothing of the domain is used
		if ex, ok := e.Cond.(*ssa.Extract); ok && !e.Taken && ex.Index == 1 {
			if lk, ok := ex.Tuple.(*ssa.Lookup); ok {
				return re(`GetAllUsedIDs`).MatchString(w.render(lk.X))
			}
		}
		return says(lenIds, isConstInt(0), token.EQL, token.LEQ)(e) || says(lenIds, isConstInt(1), token.LSS)(e) || w.isEmpty(`.*GetAllUsedIDs.*`)(e)
	}
	within := says(lenIds, isField("Limit"), token.LEQ)
	spread := func(v ssa.Value) bool {
		return allOf(w.argsIn(v, group, 0), func(x ssa.Value) bool {
			isDiff := func(x ssa.Value) bool {
				b, ok := peelConv(x).(*ssa.BinOp)
				if !ok || b.Op != token.SUB {
					return false
				}
				over := func(v ssa.Value) bool { return allOf(w.argsIn(v, group, 0), ids) }
				return w.extremum(b.X, 1, over, nil, 0) && w.extremum(b.Y, -1, over, nil, 0)
			}
			return isDiff(x) || w.everyValue(x, isDiff, 0)
		})
	}
	close := anyCut(says(spread, isField("Divergence"), token.LEQ), says(isField("Divergence"), isConstInt(0), token.LEQ, token.EQL), says(isField("Divergence"), isConstInt(1), token.LSS))
	// the loops over the globals
	loops := 0
	for _, g := range group {
		for _, l := range w.loopsOf(g) {
			if l.Over == nil {
				continue
			}
			isList := false // of the domains that have to be checked
			if sl, ok := l.Over.Type().Underlying().(*types.Slice); ok {
				isList = namedName(deref(sl.Elem())) == "SymmetryDomain"
			}
			if !isList && !re(`Heap\.globals$`).MatchString(w.render(l.Over)) {
				continue
			}
			listed := func(in ssa.Instruction) bool {
				c, ok := in.(*ssa.Call)
				if !ok || calleeName(c) != "builtin.append" {
					return false
				}
				sl, ok := c.Type().Underlying().(*types.Slice)
				return ok && namedName(deref(sl.Elem())) == "SymmetryDomain"
			}
			collects := false
			for b := range l.Body {
				for _, in := range b.Instrs {
					collects = collects || listed(in)
				}
			}
			if collects {
				for _, k := range []string{"ordinal", "interval"} {
					bad, tr := w.iterationSkips(l, listed, anyCut(w.domKind(k), noDomain))
					r.Check("constraints/needed/"+k, w.ipos(firstNonPhi(l.Head)), !bad, ifBad(bad, "a domain of the kind is not checked: "+strings.Join(tr, " → ")))
				}
				bad, tr := w.leavesEarly(l, nil)
				r.Check("constraints/needed/all", w.ipos(firstNonPhi(l.Head)), !bad, ifBad(bad, "the rest of the domains is not checked: "+strings.Join(tr, " → ")))
				continue
			}
			early := false // decides whether anything has to be checked at all
			q := &Q{W: w, Goal: collect, NoEnter: w.onlyHelpers(f)}
			early, _ = q.from(g, point{l.entry(), 0, l.Head})
			for _, k := range []string{"ordinal", "interval"} {
				base := anyCut(w.domKind(k), noDomain)
				if early || g != f && !hasInstr(g, collect) && g.Signature.Results().Len() == 1 {
					q := &Q{W: w, Through: collect, Cut: base, NoEnter: w.onlyHelpers(f)}
					if g == f {
						q.GoalEnv = passes
					} else {
						q.GoalEnv = mayReturn(g, 0, false)
					}
					bad, tr := q.from(g, point{l.entry(), 0, l.Head})
					r.Check("constraints/needed/"+k, w.ipos(firstNonPhi(l.Head)), !bad, ifBad(bad, "a state with values of the kind is not checked: "+strings.Join(tr, " → ")))
					continue
				}
				loops++
				for name, in := range map[string]func(Edge) bool{"limit": within, "divergence": close} {
					if name == "divergence" && k == "ordinal" {
						continue
					}
					bad, tr := w.iterationSkips(l, nil, anyCut(base, none, in))
					r.Check("constraints/"+k+"/"+name, w.ipos(firstNonPhi(l.Head)), !bad, ifBad(bad, "a state beyond the "+name+" of a domain passes: "+strings.Join(tr, " → ")))
					q := &Q{W: w, Cut: anyCut(base, none, in), LoopAll: true, NoEnter: w.onlyHelpers(f), GoalEnv: passes}
					bad, tr = q.from(g, point{l.entry(), 0, l.Head})
					r.Check("constraints/"+k+"/"+name+"/refused", w.ipos(firstNonPhi(l.Head)), !bad, ifBad(bad, "a state beyond the "+name+" of a domain passes: "+strings.Join(tr, " → ")))
				}
				// nothing is refused within the limits
				beyond := anyCut(says(lenIds, isField("Limit"), token.GTR), says(spread, isField("Divergence"), token.GTR))
				q := &Q{W: w, Cut: beyond, NoEnter: w.onlyHelpers(f), GoalEnv: mayReturn(f, 0, false)}
				bad, tr := q.Entry(f)
				r.Check("constraints/allowed/"+k, pos, !bad, ifBad(bad, "a state within the limits of its domains is refused: "+strings.Join(tr, " → ")))
			}
			// leaving the loop before the last domain is only for refusing (or, where it is decided whether to check at all, for checking)
			q = &Q{W: w, NoEnter: w.onlyHelpers(f), Cut: func(e Edge) bool {
				return e.If != nil && e.If.Block() == l.Head && !l.Body[e.If.Block().Succs[map[bool]int{true: 0, false: 1}[e.Taken]]]
			}}
			if g == f {
				q.GoalEnv = passes
				if early {
					q.Through = collect
				}
			} else {
				q.GoalEnv = func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
					rt, ok := in.(*ssa.Return)
					if !ok || rt.Parent() != g || len(rt.Results) == 0 {
						return false
					}
					v := res(retVal(rt, 0))
					if isErrType(v.Type()) {
						return isNilConst(v)
					}
					b, known := constBool(v)
					return known && b == hasInstr(g, func(in ssa.Instruction) bool { return says(lenIds, isField("Limit"), token.LEQ, token.GTR)(edgeOf(in)) })
				}
			}
			bad, tr := q.from(g, point{l.entry(), 0, l.Head})
			r.Check("constraints/all", w.ipos(firstNonPhi(l.Head)), !bad, ifBad(bad, "the rest of the domains is not checked: "+strings.Join(tr, " → ")))
		}
	}
	r.Check("constraints/loop", pos, loops > 0, ifBad(loops == 0, "the domains are not checked"))
	// and processNode does not go on
	chk := isCall("modelchecker.CheckSymmetryConstraints")
	find := isCall("modelchecker.Processor.findVisitedSymmetric")
	w.must(r, step{Key: "constraints/asked", Why: "a state is explored without asking whether it is within the limits of its domains", Fn: pn, Through: chk, Goal: find,
		NoEnter: noEnter("modelchecker.Process.Execute", "modelchecker.Processor.processInit"),
		Cut:     anyCut(w.cutRel(`\.actionDepth$`, "<=", "^0$"), w.cutRel(`\.actionDepth$`, "==", "^0$"), w.cutRel(`\.actionDepth$`, "<", "^1$"))})
	for _, g := range w.withHelpers(pn) {
		instrs(g, func(in ssa.Instruction) {
			if chk(in) {
				w.must(r, step{Key: "constraints/pruned", Why: "a state beyond the limits of its domains is explored", Fn: g, After: in, Goal: find, Cut: w.isTrue(`CheckSymmetryConstraints\(.*\)#0`)})
			}
		})
	}
}

// edgeOf: the branch that is taken when the condition holds.
func edgeOf(in ssa.Instruction) Edge {
	iff, ok := in.(*ssa.If)
	if !ok {
		return Edge{}
	}
	return Edge{iff, iff.Cond, true}
}

func hasInstr(f *ssa.Function, m func(ssa.Instruction) bool) bool {
	found := false
	instrs(f, func(in ssa.Instruction) { found = found || m(in) })
	return found
}
