package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// cellAt: the variable behind a read (also of an enclosing function).
func (x *coll) cellAt(v ssa.Value) *ssa.Alloc {
	v = peelConv(v)
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		return x.addrCell(u.X)
	}
	return nil
}

func (x *coll) addrCell(v ssa.Value) *ssa.Alloc {
	switch y := v.(type) {
	case *ssa.Alloc:
		return y
	case *ssa.FreeVar:
		var out *ssa.Alloc
		p := y.Parent().Parent()
		if p == nil {
			return nil
		}
		for i, fv := range y.Parent().FreeVars {
			if fv != y {
				continue
			}
			instrs(p, func(in ssa.Instruction) {
				if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == ssa.Value(y.Parent()) {
					out = x.addrCell(m.Bindings[i])
				}
			})
		}
		return out
	}
	return nil
}

// storedIn: the values that a variable is given (anywhere).
func (x *coll) storedIn(a *ssa.Alloc, fns []*ssa.Function) (out []ssa.Value) {
	for _, g := range fns {
		instrs(g, func(in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok && x.addrCell(st.Addr) == a && a != nil {
				out = append(out, st.Val)
			}
		})
	}
	return
}

// enumeration: a function that enumerates by calling itself.
type enumeration struct {
	x      *coll
	b      *builtinFn
	key    string
	rec    *ssa.Function
	fns    []*ssa.Function
	items  *ssa.Alloc
	result *ssa.Alloc
	loop   *LoopInfo
}

func (x *coll) itertools() {
	w := x.w
	fs := map[string]*ssa.Function{}
	for _, f := range w.Funcs {
		if f.Name() != "init" || f.Package() == nil || f.Package().Pkg.Name() != "lib" {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok || calleeName(c) != "starlark.NewBuiltin" {
				return
			}
			for _, g := range w.funcValues(c.Call.Args[1], 0) {
				if n, ok := constStr(c.Call.Args[0]); ok && strings.HasPrefix(g.Name(), "itertools") {
					fs[n] = g
				}
			}
		})
	}
	for _, n := range []string{"chain", "combinations", "permutations", "product", "combinations_with_replacement"} {
		f := fs[n]
		if f == nil {
			x.check("itertools/"+n, "-", false, "there is no such function", nil)
			continue
		}
		b := x.builtin("itertools/"+n, f)
		b.errors()
		if n == "chain" {
			x.chain(b)
			continue
		}
		e := &enumeration{x: x, b: b, key: b.key}
		e.fns = append([]*ssa.Function{}, b.fns...)
		for _, g := range b.fns {
			e.fns = append(e.fns, g.AnonFuncs...)
		}
		for _, g := range e.fns {
			instrs(g, func(in ssa.Instruction) {
				if e.selfCall(g)(in) {
					e.rec = g
				}
			})
		}
		if e.rec == nil {
			x.r.Undecided(e.key, b.pos(), "the enumeration was not found")
			continue
		}
		e.judge(n)
	}
}

func constStr(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return "", false
	}
	s := c.Value.ExactString()
	return strings.Trim(s, `"`), strings.HasPrefix(s, `"`)
}

// selfCall: g calls itself (by the variable that holds it, or by name).
func (e *enumeration) selfCall(g *ssa.Function) func(ssa.Instruction) bool {
	return func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		return ok && in.Parent() == g && e.callsFn(c, g)
	}
}

func (e *enumeration) callsFn(c *ssa.Call, g *ssa.Function) bool {
	if c.Call.IsInvoke() {
		return false
	}
	if c.Call.StaticCallee() == g {
		return true
	}
	for _, v := range e.x.w.captured(c.Call.Value) {
		if m, ok := v.(*ssa.MakeClosure); ok && m.Fn == ssa.Value(g) {
			return true
		}
	}
	return false
}

// chain: the elements of all arguments, in turn.
func (x *coll) chain(b *builtinFn) {
	w := x.w
	inner := w.loopsIn(b.fns, isIter, nil)
	x.check(b.key+"/loop", b.pos(), len(inner) == 1, "the elements of an argument are not gone through once", nil)
	outer := w.loopsIn(b.fns, func(v ssa.Value) bool { return v == ssa.Value(b.f.Params[2]) }, nil)
	x.check(b.key+"/args", b.pos(), len(outer) == 1, "the arguments are not gone through once", nil)
	if len(inner) != 1 || len(outer) != 1 {
		return
	}
	l := inner[0]
	var cell ssa.Value
	puts := func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		if !ok || calleeName(c) != "builtin.append" || len(c.Call.Args) != 2 {
			return false
		}
		es := sliceElems2(c.Call.Args[1])
		cell = c
		return len(es) == 1 && l.has(es[0])
	}
	w.wholeLoop(x.r, b.key+"/elements", l, puts, nil, nil)
	o := outer[0]
	iterOverArg := func(v ssa.Value) bool {
		r := x.iterOf(v)
		if ex, ok := r.(*ssa.Extract); ok {
			if ta, ok := ex.Tuple.(*ssa.TypeAssert); ok {
				r = ta.X
			}
		}
		if ta, ok := r.(*ssa.TypeAssert); ok {
			r = ta.X
		}
		return r != nil && o.has(r)
	}
	x.check(b.key+"/each", b.pos(), iterOverArg(l.Over), "not the argument's own elements are listed", nil)
	bad, tr := w.iterationSkips(o, func(in ssa.Instruction) bool { return in.Block() == l.Head }, x.notOk)
	x.check(b.key+"/skipped", b.pos(), !bad, "an argument is skipped", tr)
	bad, tr = w.leavesEarly(o, x.notOk)
	x.check(b.key+"/all", b.pos(), !bad && w.partial(o) == "", "not all arguments are considered", tr)
	b.gives("result", "something else is given", func(res []ssa.Value) bool {
		return fails(res) || x.newListOf(res[0], func(v ssa.Value) bool { return v == cell || isNilConst(v) || isPhiOf(v, cell) })
	}, nil)
}

func isPhiOf(v, want ssa.Value) bool {
	for _, l := range phiLeaves(v) {
		if l == want {
			return true
		}
	}
	return false
}

// notOk: the value has not the type that is asked for.
func (x *coll) notOk(e Edge) bool {
	ex, ok := e.Cond.(*ssa.Extract)
	if !ok || e.Taken {
		return false
	}
	_, ok = ex.Tuple.(*ssa.TypeAssert)
	return ok
}

// linear form of an integer over named values.
func linear(v ssa.Value, name func(ssa.Value) string) map[string]int64 {
	v = peelConv(v)
	if n := name(v); n != "" {
		return map[string]int64{n: 1}
	}
	switch y := v.(type) {
	case *ssa.Const:
		if y.Value == nil {
			return nil
		}
		return map[string]int64{"": y.Int64()}
	case *ssa.BinOp:
		s := int64(1)
		if y.Op == token.SUB {
			s = -1
		} else if y.Op != token.ADD {
			return nil
		}
		a, b := linear(y.X, name), linear(y.Y, name)
		if a == nil || b == nil {
			return nil
		}
		out := map[string]int64{}
		for k, c := range a {
			out[k] += c
		}
		for k, c := range b {
			out[k] += s * c
		}
		return out
	}
	return nil
}

func sameForm(a, b map[string]int64) bool {
	for k, c := range a {
		if b[k] != c {
			return false
		}
	}
	for k, c := range b {
		if a[k] != c {
			return false
		}
	}
	return a != nil && b != nil
}

func (e *enumeration) judge(name string) {
	x, w, b, rec := e.x, e.x.w, e.b, e.rec
	self := e.selfCall(rec)
	product := name == "product"
	perm := name == "permutations"
	// what is enumerated
	mat := func(in ssa.Instruction, l *LoopInfo) bool {
		c, ok := in.(*ssa.Call)
		if !ok || calleeName(c) != "builtin.append" || len(c.Call.Args) != 2 {
			return false
		}
		es := sliceElems2(c.Call.Args[1])
		return len(es) == 1 && l.has(es[0])
	}
	ls := w.loopsIn(b.fns, isIter, nil)
	x.check(e.key+"/collect", b.pos(), len(ls) == 1, "the elements are not gone through once", nil)
	if len(ls) != 1 {
		return
	}
	l := ls[0]
	keeps := func(in ssa.Instruction) bool { return mat(in, l) }
	w.wholeLoop(x.r, e.key+"/elements", l, keeps, nil, nil)
	if !product {
		x.check(e.key+"/of", b.pos(), allOf(w.argsIn(l.Over, b.fns, 0), b.iterArg(0)), "not the argument's elements are enumerated", nil)
		instrs(l.Fn, func(in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok {
				if c, ok := st.Val.(*ssa.Call); ok && keeps(c) {
					e.items, _ = st.Addr.(*ssa.Alloc)
				}
			}
		})
		if e.items == nil {
			x.r.Undecided(e.key, b.pos(), "the elements are not kept in a variable")
			return
		}
	}
	isItems := func(v ssa.Value) bool { return e.items != nil && x.cellAt(v) == e.items }
	isN := func(v ssa.Value) bool {
		if lenOf(isItems)(v) {
			return true
		}
		a := x.cellAt(v)
		st := x.storedIn(a, e.fns)
		return a != nil && len(st) == 1 && lenOf(isItems)(st[0])
	}
	// the loop that calls itself
	for _, h := range rec.Blocks {
		body := naturalLoop(h)
		if body == nil {
			continue
		}
		for bl := range body {
			for _, in := range bl.Instrs {
				if self(in) {
					for _, c := range w.loopsOf(rec) {
						if c.Head == h {
							e.loop = c
						}
					}
					if e.loop == nil {
						e.loop = &LoopInfo{Fn: rec, Head: h, Body: body, Elems: map[ssa.Value]bool{}}
					}
				}
			}
		}
	}
	if e.loop == nil {
		x.r.Undecided(e.key, w.Pos(rec.Pos()), "no loop goes through what can be added")
		return
	}
	// the partial result: a parameter, or a variable
	var curr func(ssa.Value) bool
	var currCell *ssa.Alloc
	for _, p := range rec.Params {
		if _, ok := p.Type().Underlying().(*types.Slice); ok {
			p := p
			curr = func(v ssa.Value) bool { return v == ssa.Value(p) }
		}
	}
	if curr == nil {
		for _, fv := range rec.FreeVars {
			a := x.addrCell(fv)
			if a == nil || a == e.items {
				continue
			}
			if s, ok := deref(a.Type()).Underlying().(*types.Slice); ok && isInt(s.Elem()) {
				currCell = a
			}
		}
		if currCell == nil {
			x.r.Undecided(e.key, w.Pos(rec.Pos()), "the partial result was not found")
			return
		}
		curr = func(v ssa.Value) bool { return x.cellAt(v) == currCell }
	}
	isR := func(v ssa.Value) bool {
		a := x.cellAt(v)
		if a == nil || !isInt(deref(a.Type())) {
			return false
		}
		if len(b.cells) > 1 && ssa.Value(a) == b.cells[1] {
			return true
		}
		st := x.storedIn(a, e.fns)
		for _, s := range st {
			ex, ok := s.(*ssa.Extract)
			if !isN(s) && !(ok && ex.Index == 0 && strings.HasPrefix(calleeOf(ex.Tuple), "starlark.AsInt")) {
				return false
			}
		}
		return len(st) > 1
	}
	var start, depth *ssa.Parameter
	for _, p := range rec.Params {
		if isInt(p.Type()) {
			start, depth = p, p
		}
	}
	isPools := func(v ssa.Value) bool {
		a := x.cellAt(v)
		if a == nil {
			return false
		}
		s, ok := deref(a.Type()).Underlying().(*types.Slice)
		if !ok {
			return false
		}
		_, ok = s.Elem().Underlying().(*types.Slice)
		return ok
	}
	size, want := lenOf(curr), func(v ssa.Value) bool { return isR(v) }
	if product {
		old := size
		size = func(v ssa.Value) bool { return depth != nil && v == ssa.Value(depth) || old(v) }
		var pools *ssa.Alloc
		if l, _ := indexOf2(e.loop.Over); l != nil {
			pools = x.cellAt(l)
		}
		want = lenOf(func(v ssa.Value) bool { return pools != nil && x.cellAt(v) == pools })
	}
	full, partial := says(size, want, token.EQL, token.GEQ), says(size, want, token.NEQ, token.LSS)
	// the results
	var elem ssa.Value
	adds := func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		c, ok := st.Val.(*ssa.Call)
		if !ok || calleeName(c) != "builtin.append" || len(c.Call.Args) != 2 || x.cellAt(c.Call.Args[0]) != x.addrCell(st.Addr) {
			return false
		}
		es := sliceElems2(c.Call.Args[1])
		if len(es) != 1 {
			return false
		}
		if s, ok := deref(st.Addr.Type()).Underlying().(*types.Slice); !ok || isInt(s.Elem()) {
			return false
		}
		elem, e.result = peelConv(peelMI(es[0])), x.addrCell(st.Addr)
		return true
	}
	no := func(g *ssa.Function) bool { return true }
	bad, tr := (&Q{W: w, Cut: partial, Through: adds, Goal: isReturnOf(rec), NoEnter: no}).Entry(rec)
	x.check(e.key+"/complete", w.Pos(rec.Pos()), !bad, "a complete combination is not listed", tr)
	bad, tr = (&Q{W: w, Cut: full, Goal: adds, NoEnter: no}).Entry(rec)
	x.check(e.key+"/incomplete", w.Pos(rec.Pos()), !bad, "an incomplete combination is listed", tr)
	n := 0
	instrs(rec, func(in ssa.Instruction) {
		if !adds(in) {
			return
		}
		n++
		bad, tr := (&Q{W: w, Goal: adds, NoEnter: no}).After(in)
		x.check(e.key+"/once", w.ipos(in), !bad, "a combination is listed twice", tr)
		switch y := elem.(type) {
		case *ssa.MakeSlice:
			fills := func(in ssa.Instruction) bool {
				st, ok := in.(*ssa.Store)
				if !ok {
					return false
				}
				ia, ok := st.Addr.(*ssa.IndexAddr)
				if !ok || ia.X != ssa.Value(y) {
					return false
				}
				l, i := indexOf(st.Val)
				if l == nil || !isItems(l) {
					return false
				}
				c, j := indexOf(i)
				return c != nil && curr(c) && j == ia.Index
			}
			copies := func(in ssa.Instruction) bool {
				c, ok := in.(*ssa.Call)
				return ok && calleeName(c) == "builtin.copy" && c.Call.Args[0] == ssa.Value(y) && curr(c.Call.Args[1])
			}
			if product {
				bad, tr := (&Q{W: w, Through: copies, Goal: adds, NoEnter: no}).After(y)
				x.check(e.key+"/filled", w.ipos(in), !bad && lenOf(curr)(y.Len), "a result is not the combination", tr)
				break
			}
			fl := w.loopsIn([]*ssa.Function{rec}, curr, fills)
			x.check(e.key+"/filled", w.ipos(in), len(fl) == 1 && (isR(y.Len) || lenOf(curr)(y.Len)), "a result does not consist of the elements that were chosen", nil)
			for _, l := range fl {
				w.wholeLoop(x.r, e.key+"/filled", l, fills, nil, nil)
			}
		case *ssa.Call:
			a := y.Call.Args
			ok := (calleeName(y) == "builtin.append" && (isNilConst(a[0]) || x.emptyList(a[0])) && curr(peelConv(a[1])) || strings.HasPrefix(calleeName(y), "slices.Clone") && curr(peelConv(a[0]))) && product
			x.check(e.key+"/own", w.ipos(in), ok, "a result shares its memory with others, which change it", nil)
		default:
			x.check(e.key+"/own", w.ipos(in), false, "a result shares its memory with others, which change it", nil)
		}
	})
	x.check(e.key+"/lists", w.Pos(rec.Pos()), n > 0, "no combination is listed", nil)
	b.gives("result", "something else is given", func(res []ssa.Value) bool {
		return fails(res) || x.newListOf(res[0], func(v ssa.Value) bool { return isNilConst(v) || x.cellAt(v) == e.result && e.result != nil })
	}, nil)
	// the first call
	calls := func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		if !ok || in.Parent() == rec || !e.callsFn(c, rec) {
			return false
		}
		for _, a := range c.Call.Args {
			if !isZero(a) && !x.emptyList(a) && !isNilConst(a) {
				return false
			}
		}
		return true
	}
	tooMany := anyCut(says(isR, isN, token.GTR), says(isR, isZero, token.LSS))
	if name == "combinations_with_replacement" {
		tooMany = anyCut(says(isR, isZero, token.LSS), says(isN, isZero, token.EQL))
	}
	if product {
		tooMany = func(Edge) bool { return false }
	}
	b.does("starts", "the enumeration does not start with nothing chosen, or not at all", calls, tooMany)
	if name == "combinations_with_replacement" { // no elements: only the empty combination
		bad, tr = (&Q{W: w, Through: calls, NoEnter: b.no, Cut: anyCut(says(isR, isZero, token.LSS, token.GTR), x.failed), GoalEnv: badReturn(b.f, fails)}).Entry(b.f)
		x.check(e.key+"/empty", b.pos(), !bad, "the combination of nothing is not listed", tr)
	}
	// each step
	lo := e.loop
	pos := w.ipos(firstNonPhi(lo.Head))
	skip := func(Edge) bool { return false }
	var used *ssa.Alloc
	if perm {
		for _, fv := range rec.FreeVars {
			if a := x.addrCell(fv); a != nil {
				if s, ok := deref(a.Type()).Underlying().(*types.Slice); ok {
					if bt, ok := s.Elem().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
						used = a
					}
				}
			}
		}
	}
	isUsed := func(v ssa.Value) bool {
		l, i := indexOf(v)
		return l != nil && used != nil && x.cellAt(l) == used && lo.isIndex(i)
	}
	usedIs := func(want bool) func(Edge) bool {
		return func(ed Edge) bool {
			v, t := ed.Cond, ed.Taken
			for {
				u, ok := v.(*ssa.UnOp)
				if !ok || u.Op != token.NOT {
					break
				}
				v, t = u.X, !t
			}
			return isUsed(v) && t == want
		}
	}
	if perm {
		skip = usedIs(true)
	}
	bad, tr = w.iterationSkips(lo, self, skip)
	x.check(e.key+"/each", pos, !bad, "a choice is skipped", tr)
	bad, tr = w.leavesEarly(lo, nil)
	x.check(e.key+"/all", pos, !bad, "the choices are not all made", tr)
	isChoice := func(v ssa.Value) bool { return lo.isIndex(v) }
	if product {
		ok := false
		if l, i := indexOf(lo.Over); l != nil {
			ok = isPools(l) && i == ssa.Value(depth)
		}
		x.check(e.key+"/pool", pos, ok && w.partial(lo) == "", "not every element of the next sequence is chosen", nil)
		isChoice = lo.has
	} else {
		e.bounds(lo, pos, perm, name == "combinations", start, isN, isR, lenOf(curr))
	}
	instrs(rec, func(in ssa.Instruction) {
		if !self(in) {
			return
		}
		c := in.(*ssa.Call)
		ok := true
		for i, a := range c.Call.Args {
			p := rec.Params[i]
			if isInt(p.Type()) {
				bo, isB := a.(*ssa.BinOp)
				plus := func(base func(ssa.Value) bool) bool {
					return isB && bo.Op == token.ADD && (base(bo.X) && isConstInt(1)(bo.Y) || base(bo.Y) && isConstInt(1)(bo.X))
				}
				switch name {
				case "product":
					ok = ok && plus(func(v ssa.Value) bool { return v == ssa.Value(p) })
				case "combinations":
					ok = ok && plus(isChoice)
				default:
					ok = ok && isChoice(a)
				}
				continue
			}
			k, isC := peelConv(a).(*ssa.Call)
			if !isC || calleeName(k) != "builtin.append" || !curr(peelConv(k.Call.Args[0])) {
				ok = false
				continue
			}
			es := sliceElems2(k.Call.Args[1])
			ok = ok && len(es) == 1 && isChoice(es[0])
		}
		x.check(e.key+"/step", w.ipos(in), ok, "the enumeration goes on with something else than the choice", nil)
		if perm {
			x.permStep(e, c, lo, used, currCell, usedIs)
		}
	})
	if product {
		x.pools(e, isPools)
	}
}

// bounds: the loop goes through all choices.
func (e *enumeration) bounds(lo *LoopInfo, pos string, perm, comb bool, start *ssa.Parameter, isN, isR, lenCurr func(ssa.Value) bool) {
	x := e.x
	okStart, okBound := false, false
	for _, in := range lo.Head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok || !isInt(ph.Type()) {
			continue
		}
		shift := int64(0)
		for i, ed := range ph.Edges {
			if lo.Body[lo.Head.Preds[i]] {
				bo, ok := ed.(*ssa.BinOp)
				if !ok || bo.Op != token.ADD || bo.X != ssa.Value(ph) || !isConstInt(1)(bo.Y) {
					okStart = false
				}
				continue
			}
			if c, ok := ed.(*ssa.Const); ok && c.Value != nil && c.Int64() == -1 {
				shift = 1 // range loops count from -1
				okStart = perm
				continue
			}
			if perm {
				okStart = isZero(ed)
			} else {
				okStart = start != nil && ed == ssa.Value(start)
			}
		}
		iff, ok := lo.Head.Instrs[len(lo.Head.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		l, op, r, ok := relOf(Edge{If: iff, Cond: iff.Cond, Taken: lo.Body[lo.Head.Succs[0]]})
		if !ok {
			continue
		}
		if !lo.isIndex(l) {
			l, r, op = r, l, mirrored[op]
		}
		_ = shift
		name := func(v ssa.Value) string {
			switch {
			case isN(v):
				return "n"
			case isR(v):
				return "r"
			case lenCurr(v):
				return "c"
			}
			return ""
		}
		form := linear(r, name)
		if form != nil && op == token.LEQ {
			form[""]++
		}
		if op == token.LSS || op == token.LEQ {
			okBound = sameForm(form, map[string]int64{"n": 1}) || comb && sameForm(form, map[string]int64{"n": 1, "r": -1, "c": 1, "": 1})
		}
		if lo.Over != nil && !okBound && perm {
			a := x.cellAt(lo.Over)
			okBound = a != nil && (a == e.items || x.sized(a, e, isN)) && x.w.partial(lo) == ""
		}
		if okStart && okBound {
			break
		}
	}
	x.check(e.key+"/start", pos, okStart, "the choices do not start at the first one that is left", nil)
	x.check(e.key+"/bound", pos, okBound, "the choices do not end at the last one that is possible", nil)
}

// sized: a list with one place per element.
func (x *coll) sized(a *ssa.Alloc, e *enumeration, isN func(ssa.Value) bool) bool {
	st := x.storedIn(a, e.fns)
	if len(st) != 1 {
		return false
	}
	mk, ok := st[0].(*ssa.MakeSlice)
	return ok && isN(mk.Len)
}

// permStep: an element is chosen once: it is marked before the rest is chosen, and free again afterwards.
func (x *coll) permStep(e *enumeration, c *ssa.Call, lo *LoopInfo, used, curr *ssa.Alloc, usedIs func(bool) func(Edge) bool) {
	w, rec := x.w, e.rec
	pos := w.ipos(c)
	no := func(*ssa.Function) bool { return true }
	if used == nil || curr == nil {
		x.r.Undecided(e.key+"/used", pos, "what is chosen is not kept in variables")
		return
	}
	entry := lo.entry()
	self := func(in ssa.Instruction) bool { return in == ssa.Instruction(c) }
	isHead := func(in ssa.Instruction) bool { return in.Block() == lo.Head }
	bad, tr := (&Q{W: w, Cut: usedIs(false), Goal: self, Through: isHead, NoEnter: no}).from(rec, point{entry, 0, lo.Head})
	x.check(e.key+"/unused", pos, !bad, "an element is chosen twice", tr)
	mark := func(want bool) func(ssa.Instruction) bool {
		return func(in ssa.Instruction) bool {
			st, ok := in.(*ssa.Store)
			if !ok {
				return false
			}
			ia, ok := st.Addr.(*ssa.IndexAddr)
			if !ok || x.cellAt(ia.X) != used || !lo.isIndex(ia.Index) {
				return false
			}
			b, known := constBool(st.Val)
			return known && b == want
		}
	}
	push := func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		if !ok || x.addrCell(st.Addr) != curr {
			return false
		}
		k, ok := st.Val.(*ssa.Call)
		if !ok || calleeName(k) != "builtin.append" || x.cellAt(k.Call.Args[0]) != curr {
			return false
		}
		es := sliceElems2(k.Call.Args[1])
		return len(es) == 1 && lo.isIndex(es[0])
	}
	pop := func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		if !ok || x.addrCell(st.Addr) != curr {
			return false
		}
		s, ok := st.Val.(*ssa.Slice)
		if !ok || s.Low != nil && !isZero(s.Low) || x.cellAt(s.X) != curr {
			return false
		}
		b, ok := s.High.(*ssa.BinOp)
		return ok && b.Op == token.SUB && isConstInt(1)(b.Y) && lenOf(func(v ssa.Value) bool { return x.cellAt(v) == curr })(b.X)
	}
	for k, is := range map[string]func(ssa.Instruction) bool{"marked": mark(true), "pushed": push} {
		bad, tr := (&Q{W: w, Through: anyOf(is, isHead), Goal: self, NoEnter: no}).from(rec, point{entry, 0, lo.Head})
		x.check(e.key+"/"+k, pos, !bad, "the element is not chosen before the rest is", tr)
	}
	for k, is := range map[string]func(ssa.Instruction) bool{"freed": mark(false), "popped": pop} {
		bad, tr := (&Q{W: w, Through: is, Goal: anyOf(isHead, isReturnOf(rec)), NoEnter: no}).After(c)
		x.check(e.key+"/"+k, pos, !bad, "the choice is not taken back", tr)
	}
}

// pools: a product is over the elements of every argument, as often as repeat says.
func (x *coll) pools(e *enumeration, isPools func(ssa.Value) bool) {
	w, b := x.w, e.b
	isArgs := func(v ssa.Value) bool { return v == ssa.Value(b.f.Params[2]) }
	n := 0
	var list ssa.Value
	for _, l := range w.loopsIn(b.fns, isArgs, nil) {
		n++
		keeps := func(in ssa.Instruction) bool {
			st, ok := in.(*ssa.Store)
			if !ok {
				return false
			}
			ia, ok := st.Addr.(*ssa.IndexAddr)
			if !ok || !lo2(l, ia.Index) {
				return false
			}
			v := st.Val
			if ex, ok := v.(*ssa.Extract); ok {
				v = ex.Tuple
			}
			ta, ok := v.(*ssa.TypeAssert)
			if ok && l.has(ta.X) {
				list = ia.X
				return true
			}
			return false
		}
		w.wholeLoop(x.r, e.key+"/args", l, anyOf(keeps, isInvoke("Next")), x.notOk, x.notOk)
	}
	x.check(e.key+"/args", b.pos(), n == 1, "not every argument is considered", nil)
	// every sequence has a pool at its place
	m := 0
	for _, l := range w.loopsIn(b.fns, func(v ssa.Value) bool { return v == list || isArgs(v) && list == nil }, isInvoke("Next")) {
		m++
		bad, tr := w.iterationSkips(l, isInvoke("Next"), x.notOk)
		x.check(e.key+"/sequences", w.ipos(firstNonPhi(l.Head)), !bad && w.partial(l) == "", "a sequence is skipped", tr)
		instrs(l.Fn, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			ia, ok := st.Addr.(*ssa.IndexAddr)
			if !ok {
				return
			}
			if _, isS := st.Val.Type().Underlying().(*types.Slice); isS && isPools(ia.X) || x.sliceOfSlices(ia.X.Type()) {
				k, isC := st.Val.(*ssa.Call)
				own := isC && calleeName(k) == "builtin.append"
				if own {
					pl, i := indexOf(k.Call.Args[0])
					own = pl != nil && i == ia.Index && sameOrCell(x, pl, ia.X)
				}
				x.check(e.key+"/pool/own", w.ipos(in), own && lo2(l, ia.Index), "the elements are put into another pool", nil)
			}
		})
	}
	x.check(e.key+"/pools", b.pos(), m == 1, "the sequences are not gone through once", nil)
	// repeat
	if len(b.cells) == 0 {
		x.check(e.key+"/repeat", b.pos(), false, "repeat is ignored", nil)
		return
	}
	isRepeat := func(v ssa.Value) bool {
		u, ok := peelConv(v).(*ssa.UnOp)
		return ok && u.X == b.cells[len(b.cells)-1]
	}
	rep := 0
	for _, g := range b.fns {
		for _, h := range g.Blocks {
			body := naturalLoop(h)
			iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
			if body == nil || !ok {
				continue
			}
			lo := &LoopInfo{Fn: g, Head: h, Body: body, Elems: map[ssa.Value]bool{}}
			l, op, r, ok := relOf(Edge{If: iff, Cond: iff.Cond, Taken: body[h.Succs[0]]})
			if !ok {
				continue
			}
			if isRepeat(l) {
				l, r, op = r, l, mirrored[op]
			}
			if !isRepeat(r) {
				continue
			}
			rep++
			var from int64 = -9
			for _, v := range phiLeaves(l) {
				if c, ok := v.(*ssa.Const); ok {
					from = c.Int64()
				}
			}
			if bo, ok := l.(*ssa.BinOp); ok && from == -9 {
				for _, v := range phiLeaves(bo.X) {
					if c, ok := v.(*ssa.Const); ok && isConstInt(1)(bo.Y) {
						from = c.Int64() + 1
					}
				}
			}
			x.check(e.key+"/repeat/times", w.ipos(firstNonPhi(h)), op == token.LSS && from == 0 || op == token.LEQ && from == 1, "the sequences are repeated another number of times", nil)
			more := func(in ssa.Instruction) bool {
				c, ok := in.(*ssa.Call)
				return ok && calleeName(c) == "builtin.append" && len(c.Call.Args) == 2 && x.sliceOfSlices(c.Call.Args[1].Type())
			}
			bad, tr := w.iterationSkips(lo, more, nil)
			x.check(e.key+"/repeat/each", w.ipos(firstNonPhi(h)), !bad, "the sequences are not repeated", tr)
		}
	}
	x.check(e.key+"/repeat", b.pos(), rep == 1, "repeat is ignored", nil)
}

func sameOrCell(x *coll, a, b ssa.Value) bool {
	return sameList(a, b) || x.cellAt(a) != nil && x.cellAt(a) == x.cellAt(b)
}

func (x *coll) sliceOfSlices(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	_, ok = s.Elem().Underlying().(*types.Slice)
	return ok
}

func lo2(l *LoopInfo, v ssa.Value) bool { return l.isIndex(v) }

func isInvoke(m string) func(ssa.Instruction) bool {
	return func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		return ok && c.Call.IsInvoke() && c.Call.Method.Name() == m
	}
}

// records: one value per field.
func (x *coll) records() {
	w := x.w
	set := x.fn("lib.Struct.SetField")
	if set == nil {
		return
	}
	fns := w.withHelpers(set)
	no := outside(fns)
	pName, pVal := set.Params[1], set.Params[2]
	same := func(want bool) func(Edge) bool {
		return func(e Edge) bool {
			l, op, r, ok := relOf(e)
			if !ok || op != token.EQL && op != token.NEQ {
				return false
			}
			if l == ssa.Value(pName) {
				l, r = r, l
			}
			return r == ssa.Value(pName) && strings.HasSuffix(w.plain(l), ".name") && (op == token.EQL) == want
		}
	}
	sets := func(in ssa.Instruction) bool { // the value of an entry of the record
		st, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		a := st.Addr
		if fa, ok := a.(*ssa.FieldAddr); ok {
			a = fa.X
		}
		ia, ok := a.(*ssa.IndexAddr)
		return ok && x.ofField(ia.X, "entries") == ssa.Value(set.Params[0])
	}
	appends := func(in ssa.Instruction) bool {
		st, base := fieldStore(in, "Struct", "entries")
		if st == nil || base == nil {
			return false
		}
		c, ok := st.Val.(*ssa.Call)
		return ok && calleeName(c) == "builtin.append" && len(c.Call.Args) == 2
	}
	bad, tr := (&Q{W: w, Cut: same(true), Goal: sets, NoEnter: no}).Entry(set)
	x.check("record/set/field", w.Pos(set.Pos()), !bad, "another field is set", tr)
	bad, tr = (&Q{W: w, Cut: same(true), Through: appends, Goal: isReturnOf(set), NoEnter: no}).Entry(set)
	x.check("record/set/new", w.Pos(set.Pos()), !bad, "a new field is not added", tr)
	for _, g := range fns {
		for _, bl := range g.Blocks {
			iff, ok := bl.Instrs[len(bl.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			for i, taken := range []bool{true, false} {
				if !same(true)(Edge{If: iff, Cond: iff.Cond, Taken: taken}) {
					continue
				}
				q := &Q{W: w, Through: sets, Goal: isReturnOf(set), NoEnter: no}
				bad, tr := q.from(g, point{bl.Succs[i], 0, bl})
				x.check("record/set/replaced", w.ipos(iff), !bad, "the field is there, but its value is not replaced", tr)
				bad, tr = (&Q{W: w, Goal: appends, NoEnter: no}).from(g, point{bl.Succs[i], 0, bl})
				x.check("record/set/once", w.ipos(iff), !bad, "the field is there, but it is added again", tr)
			}
		}
		instrs(g, func(in ssa.Instruction) { // the value and the name
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || namedName(fa.X.Type()) != "entry" {
				return
			}
			switch fieldName(fa.X.Type(), fa.Field) {
			case "value":
				x.check("record/set/value", w.ipos(in), allOf(w.argsIn(st.Val, fns, 0), func(v ssa.Value) bool { return v == ssa.Value(pVal) }), "another value is stored", nil)
			case "name":
				x.check("record/set/name", w.ipos(in), allOf(w.argsIn(st.Val, fns, 0), func(v ssa.Value) bool { return v == ssa.Value(pName) || strings.HasSuffix(w.plain(v), ".name") }), "another name is stored", nil)
			}
		})
	}
	for _, l := range w.loopsIn(fns, func(v ssa.Value) bool { return x.ofField(v, "entries") != nil }, nil) {
		bad, tr := w.leavesEarly(l, same(true))
		x.check("record/set/search", w.ipos(firstNonPhi(l.Head)), !bad && w.partial(l) == "", "the field is not searched among all", tr)
	}
	// the entries are sorted wherever some were added: they are searched by halving
	n := 0
	for _, f := range w.Funcs {
		if f.Package() == nil || f.Package() != set.Package() || len(f.Blocks) == 0 {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			if !appends(in) {
				return
			}
			n++
			sorts := func(o ssa.Instruction) bool {
				c, ok := o.(*ssa.Call)
				return ok && (strings.HasPrefix(calleeName(c), "sort.") || strings.HasPrefix(calleeName(c), "slices.Sort"))
			}
			bad, tr := (&Q{W: w, Through: sorts, Goal: isReturnOf(f), NoEnter: func(g *ssa.Function) bool { return g != f }}).After(in)
			x.check("record/sorted", w.ipos(in), !bad, "the fields are not sorted, so they are not found", tr)
		})
	}
	x.r.Floor("places where fields are added to records", n, 3)
	// x + y
	if f := x.fn("lib.Struct.Binary"); f != nil {
		x.merge(f)
	}
	for _, c := range []string{"FromKeywords", "FromStringDict"} {
		f := x.fn("lib." + c)
		if f == nil {
			continue
		}
		fs := w.withHelpers(f)
		src := f.Params[1]
		ls := w.loopsIn(fs, func(v ssa.Value) bool { return v == ssa.Value(src) }, appends)
		x.check("record/make/"+c, w.Pos(f.Pos()), len(ls) == 1, "the fields are not added in one loop over all of them", nil)
		for _, l := range ls {
			w.wholeLoop(x.r, "record/make/"+c, l, appends, nil, nil)
		}
	}
}

// merge: the sum of two records has the fields of both, and the values of the right one where both have one.
func (x *coll) merge(f *ssa.Function) {
	w := x.w
	fns := w.withHelpers(f)
	puts := func(in ssa.Instruction) bool {
		mu, ok := in.(*ssa.MapUpdate)
		return ok && strings.HasSuffix(w.plain(mu.Key), ".name") && strings.HasSuffix(w.plain(mu.Value), ".value")
	}
	ls := w.loopsIn(fns, func(v ssa.Value) bool { return x.ofField(v, "entries") != nil }, puts)
	x.check("record/sum/both", w.Pos(f.Pos()), len(ls) == 2, "the sum does not have the fields of both", nil)
	if len(ls) != 2 {
		return
	}
	side := map[*LoopInfo]ssa.Value{}
	for _, l := range ls {
		side[l] = x.ofField(l.Over, "entries")
		w.wholeLoop(x.r, "record/sum", l, puts, nil, nil)
	}
	a, b := side[ls[0]], side[ls[1]]
	x.check("record/sum/sides", w.Pos(f.Pos()), a != b, "the fields of one are taken twice", nil)
	order := func(first, second *LoopInfo) bool {
		reached, _ := (&Q{W: w, Goal: func(in ssa.Instruction) bool { return in.Block() == second.Head }, NoEnter: outside(fns)}).After(firstNonPhi(first.Head))
		return reached
	}
	l1, l2 := ls[0], ls[1]
	if !order(l1, l2) {
		l1, l2 = l2, l1
	}
	// on the path where the receiver stands on the left, it comes first
	var sideParam *ssa.Parameter
	for _, p := range f.Params {
		if namedName(p.Type()) == "Side" {
			sideParam = p
		}
	}
	if sideParam == nil {
		x.r.Undecided("record/sum/order", w.Pos(f.Pos()), "the side was not found")
		return
	}
	for _, right := range []bool{false, true} {
		first, last := w.underSide(f, sideParam, right, side[l1]), w.underSide(f, sideParam, right, side[l2])
		recv := func(v ssa.Value) bool { return v == ssa.Value(f.Params[0]) }
		ok := first != nil && last != nil && recv(first) != right && recv(last) == right
		x.check("record/sum/order/"+map[bool]string{true: "right", false: "left"}[right], w.Pos(f.Pos()), ok, "the values of the left one win", nil)
	}
}

// underSide: what a phi (or a plain value) is when the receiver stands on this side.
func (w *World) underSide(f *ssa.Function, side *ssa.Parameter, right bool, v ssa.Value) ssa.Value {
	ph, ok := v.(*ssa.Phi)
	if !ok {
		return v
	}
	for i, e := range ph.Edges {
		p := ph.Block().Preds[i]
		want := edgeSide(p, ph.Block(), side)
		if want == 0 && len(p.Preds) == 1 {
			want = edgeSide(p.Preds[0], p, side)
		}
		if want == 1 && right || want == -1 && !right {
			return e
		}
	}
	return nil
}

// edgeSide: 1 when the branch means that the receiver stands on the right, -1 on the left.
func edgeSide(p, b *ssa.BasicBlock, side *ssa.Parameter) int {
	iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
	if !ok {
		return 0
	}
	taken := p.Succs[0] == b
	v := iff.Cond
	if bo, ok := v.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
		c, isC := constBool(bo.Y)
		if bo.X != ssa.Value(side) || !isC {
			return 0
		}
		if c == (bo.Op == token.EQL) == taken {
			return 1
		}
		return -1
	}
	if peelConv(v) == ssa.Value(side) {
		if taken {
			return 1
		}
		return -1
	}
	return 0
}
