package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lists: the work lists hand out what was added, each element once, in their order.
func (x *conf) lists() {
	w := x.w
	type list struct{ typ, add, remove, order, field string }
	for _, l := range []list{{"RandomQueue", "Add", "Remove", "any", "arr"}, {"Stack", "Push", "Pop", "last", "s"}} {
		add, rem := x.fn("lib."+l.typ+"."+l.add), x.fn("lib."+l.typ+"."+l.remove)
		if add == nil || rem == nil {
			continue
		}
		arr := x.field(l.typ, l.field)
		key := "list/" + l.typ
		// the element goes to the end of the list
		stored := func(in ssa.Instruction) bool {
			st, _ := fieldStore(in, l.typ, l.field)
			if st == nil {
				return false
			}
			c, ok := st.Val.(*ssa.Call)
			if !ok || calleeName(c) != "builtin.append" || !arr(c.Call.Args[0]) {
				return false
			}
			es := sliceElems2(c.Call.Args[1])
			return len(es) == 1 && allOf(w.leavesIn(es[0], x.own(add)), func(v ssa.Value) bool { return v == ssa.Value(add.Params[1]) })
		}
		bad, tr := (&Q{W: w, NoEnter: x.outside, Through: stored, Goal: realReturn(add)}).Entry(add)
		x.check(key+"/added", w.Pos(add.Pos()), !bad, "an element is not added at the end", tr)
		for _, g := range x.own(add) {
			instrs(g, func(in ssa.Instruction) {
				if st, _ := fieldStore(in, l.typ, l.field); st != nil {
					x.check(key+"/add/only", w.ipos(in), stored(in), "something else happens to the list when an element is added", nil)
				}
			})
		}
		// what comes out is taken out
		fns := x.own(rem)
		isLen := func(v ssa.Value) bool {
			c, ok := v.(*ssa.Call)
			return ok && calleeName(c) == "builtin.len" && arr(c.Call.Args[0])
		}
		last := func(v ssa.Value) bool {
			b, ok := v.(*ssa.BinOp)
			return ok && b.Op == token.SUB && isLen(b.X) && isConstInt(1)(b.Y)
		}
		anyIdx := func(v ssa.Value) bool {
			c, ok := v.(*ssa.Call)
			return ok && reMatch(`rand\.Rand\.(Intn|Int63n|Int31n|IntN)`, calleeName(c)) && len(c.Call.Args) == 2 && isLen(peelConv(c.Call.Args[1])) && x.mentionsField(c.Call.Args[0], "rand", 0)
		}
		chosen := last
		if l.order == "any" {
			chosen = anyIdx
		}
		idx := func(v ssa.Value) bool { return chosen(peelConv(v)) }
		var picks []ssa.Value
		for _, g := range fns {
			instrs(g, func(in ssa.Instruction) {
				if rt, ok := in.(*ssa.Return); ok && g == rem && len(rt.Results) == 2 && in.Block() != g.Recover {
					b, isC := constBool(retVal(rt, 1))
					v := retVal(rt, 0)
					if !isC {
						x.check(key+"/found", w.ipos(rt), false, "whether there was an element is not told", nil)
						return
					}
					if !b {
						return
					}
					li, ii := indexOf(v)
					if li == nil { // read before it is removed
						if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
							if ia, ok := u.X.(*ssa.IndexAddr); ok {
								li, ii = ia.X, ia.Index
							}
						}
					}
					okv := li != nil && arr(li) && idx(ii)
					x.check(key+"/chosen", w.ipos(rt), okv, "the element that is handed out is not the "+l.order+" one", nil)
					if okv {
						picks = append(picks, v)
					}
				}
			})
		}
		removed := func(in ssa.Instruction) bool {
			st, _ := fieldStore(in, l.typ, l.field)
			return st != nil && x.without(st.Val, arr, idx, last)
		}
		filled := says(isLen, isZero, token.NEQ, token.GTR)
		empty := says(isLen, isZero, token.EQL, token.LEQ)
		bad, tr = (&Q{W: w, NoEnter: x.outside, Cut: empty, Through: removed, Goal: realReturn(rem)}).Entry(rem)
		x.check(key+"/removed", w.Pos(rem.Pos()), !bad, "the element that is handed out can stay in the list", tr)
		for _, g := range fns {
			instrs(g, func(in ssa.Instruction) {
				if st, _ := fieldStore(in, l.typ, l.field); st != nil {
					x.check(key+"/remove/only", w.ipos(in), removed(in), "more or other elements than the one that is handed out are removed", nil)
				}
				if st, ok := in.(*ssa.Store); ok {
					if ia, ok := st.Addr.(*ssa.IndexAddr); ok && arr(ia.X) {
						ok := (idx(ia.Index) || last(peelConv(ia.Index))) && x.isZeroOf(st.Val)
						if li, ii := indexOf(st.Val); li != nil && idx(ia.Index) {
							ok = arr(li) && last(peelConv(ii))
						}
						x.check(key+"/remove/others", w.ipos(in), ok, "another element is overwritten", nil)
					}
				}
			})
		}
		bad, tr = (&Q{W: w, NoEnter: x.outside, Cut: filled, Goal: func(in ssa.Instruction) bool {
			rt, ok := in.(*ssa.Return)
			if !ok || rt.Parent() != rem || in.Block() == rem.Recover || len(rt.Results) != 2 {
				return false
			}
			b, isC := constBool(retVal(rt, 1))
			return !isC || b
		}}).Entry(rem)
		x.check(key+"/empty", w.Pos(rem.Pos()), !bad, "an element comes out of an empty list", tr)
		bad, tr = (&Q{W: w, NoEnter: x.outside, Cut: empty, Goal: func(in ssa.Instruction) bool {
			rt, ok := in.(*ssa.Return)
			if !ok || rt.Parent() != rem || in.Block() == rem.Recover || len(rt.Results) != 2 {
				return false
			}
			b, isC := constBool(retVal(rt, 1))
			return !isC || !b
		}}).Entry(rem)
		x.check(key+"/filled", w.Pos(rem.Pos()), !bad, "a list with elements says that it is empty", tr)
	}
	x.queue()
	// the common names lead to them
	for _, t := range [][3]string{{"Queue", "Add", "Enqueue"}, {"Queue", "Remove", "Dequeue"}, {"Stack", "Add", "Push"}, {"Stack", "Remove", "Pop"}} {
		f := x.fn("lib." + t[0] + "." + t[1])
		if f == nil {
			continue
		}
		ok := false
		for _, c := range calls(f, "lib."+t[0]+"."+t[2]) {
			as := callArgs(c)
			ok = len(as) == len(f.Params) && len(f.Blocks) == 1
			for i := range as {
				ok = ok && i < len(f.Params) && as[i] == ssa.Value(f.Params[i])
			}
		}
		x.check("list/"+t[0]+"/"+t[1], w.Pos(f.Pos()), ok, t[1]+" is not "+t[2], nil)
	}
}

// realReturn: a return of the function that is not the one after a recovered panic.
func realReturn(f *ssa.Function) func(ssa.Instruction) bool {
	return func(in ssa.Instruction) bool {
		_, ok := in.(*ssa.Return)
		return ok && in.Parent() == f && in.Block() != f.Recover
	}
}

// without: the list without the element at the index.
func (x *conf) without(v ssa.Value, arr, idx, last func(ssa.Value) bool) bool {
	upTo := func(v ssa.Value, hi func(ssa.Value) bool) bool {
		s, ok := v.(*ssa.Slice)
		return ok && arr(s.X) && (s.Low == nil || isZero(s.Low)) && s.High != nil && hi(peelConv(s.High))
	}
	next := func(v ssa.Value) bool {
		b, ok := v.(*ssa.BinOp)
		return ok && b.Op == token.ADD && (idx(b.X) && isConstInt(1)(b.Y) || idx(b.Y) && isConstInt(1)(b.X))
	}
	switch c := v.(type) {
	case *ssa.Slice:
		if !upTo(c, last) {
			return false
		}
		// the last one: either it is the chosen one, or it has gone to its place before
		for _, in := range c.Block().Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if ia, ok := st.Addr.(*ssa.IndexAddr); ok && arr(ia.X) && idx(ia.Index) {
				if li, ii := indexOf(st.Val); li != nil && arr(li) && last(peelConv(ii)) {
					return true
				}
			}
		}
		return c.High != nil && idx(c.High)
	case *ssa.Call:
		if calleeName(c) == "builtin.append" && len(c.Call.Args) == 2 && upTo(c.Call.Args[0], idx) {
			s, ok := c.Call.Args[1].(*ssa.Slice)
			return ok && arr(s.X) && s.High == nil && s.Low != nil && next(s.Low)
		}
		if calleeBase(c) == "slices.Delete" && len(c.Call.Args) == 3 {
			return arr(c.Call.Args[0]) && idx(c.Call.Args[1]) && next(c.Call.Args[2])
		}
	}
	return false
}

// queue: batches of elements; the first of the first batch comes out, the new one goes to the end of the last one.
func (x *conf) queue() {
	w := x.w
	enq, deq := x.fn("lib.Queue.Enqueue"), x.fn("lib.Queue.Dequeue")
	if enq == nil || deq == nil {
		return
	}
	isBatch := func(v ssa.Value, call string) bool { // X.Value of the first, or last, batch
		if ta, ok := v.(*ssa.TypeAssert); ok {
			v = ta.X
		}
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		return ok && fieldName(fa.X.Type(), fa.Field) == "Value" && x.batch(fa.X, call)
	}
	added := func(in ssa.Instruction) bool {
		st, b := fieldStore(in, "Element", "Value")
		if st == nil || !x.batch(b, "Back") {
			return false
		}
		c, ok := peelMI(st.Val).(*ssa.Call)
		if !ok || calleeName(c) != "builtin.append" || !isBatch(c.Call.Args[0], "Back") {
			return false
		}
		es := sliceElems2(c.Call.Args[1])
		return len(es) == 1 && allOf(w.leavesIn(es[0], x.own(enq)), func(v ssa.Value) bool { return v == ssa.Value(enq.Params[1]) })
	}
	counted := func(op token.Token) func(ssa.Instruction) bool {
		return func(in ssa.Instruction) bool {
			st, _ := fieldStore(in, "Queue", "count")
			if st == nil {
				return false
			}
			b, ok := st.Val.(*ssa.BinOp)
			return ok && b.Op == op && x.field("Queue", "count")(b.X) && isConstInt(1)(b.Y)
		}
	}
	fresh := func(in ssa.Instruction) bool { // a new, empty batch at the end
		c, ok := in.(*ssa.Call)
		return ok && calleeName(c) == "list.List.PushBack"
	}
	bad, tr := (&Q{W: w, NoEnter: x.outside, Through: added, Goal: realReturn(enq)}).Entry(enq)
	x.check("list/Queue/added", w.Pos(enq.Pos()), !bad, "an element is not added at the end", tr)
	bad, tr = (&Q{W: w, NoEnter: x.outside, Through: counted(token.ADD), Goal: realReturn(enq)}).Entry(enq)
	x.check("list/Queue/count/up", w.Pos(enq.Pos()), !bad, "an added element is not counted", tr)
	for _, g := range x.own(enq) {
		instrs(g, func(in ssa.Instruction) {
			if c, ok := in.(*ssa.Call); ok && fresh(in) {
				m := peelMI(c.Call.Args[1])
				ok := false
				switch m := m.(type) {
				case *ssa.MakeSlice:
					ok = isZero(m.Len)
				case *ssa.Slice:
					_, isAl := m.X.(*ssa.Alloc)
					ok = isAl && m.High != nil && isZero(m.High)
				}
				x.check("list/Queue/batch", w.ipos(in), ok, "a new batch is not empty", nil)
			}
			if c, ok := in.(*ssa.Call); ok && reMatch(`list\.List\.(PushFront|Remove|Init|InsertBefore|InsertAfter|MoveTo.*)`, calleeName(c)) {
				x.check("list/Queue/end", w.ipos(in), false, "the batches are not kept in order", nil)
			}
		})
	}
	// out
	rem := func(in ssa.Instruction) bool {
		st, b := fieldStore(in, "Element", "Value")
		if st == nil || !x.batch(b, "Front") {
			return false
		}
		s, ok := peelMI(st.Val).(*ssa.Slice)
		return ok && isBatch(s.X, "Front") && s.High == nil && s.Low != nil && isConstInt(1)(s.Low)
	}
	front := func(v ssa.Value) bool { return x.batch(v, "Front") }
	none := says(front, isNil, token.EQL)
	bad, tr = (&Q{W: w, NoEnter: x.outside, Cut: none, Through: rem, Goal: realReturn(deq)}).Entry(deq)
	x.check("list/Queue/removed", w.Pos(deq.Pos()), !bad, "the element that is handed out can stay in the list", tr)
	bad, tr = (&Q{W: w, NoEnter: x.outside, Cut: none, Through: counted(token.SUB), Goal: realReturn(deq)}).Entry(deq)
	x.check("list/Queue/count/down", w.Pos(deq.Pos()), !bad, "a removed element is still counted", tr)
	drop := func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		return ok && calleeName(c) == "list.List.Remove" && front(c.Call.Args[1])
	}
	ln := lenOf(func(v ssa.Value) bool {
		if isBatch(v, "Front") {
			return true
		}
		s, ok := peelMI(v).(*ssa.Slice)
		return ok && isBatch(s.X, "Front")
	})
	done := says(ln, isZero, token.EQL, token.LEQ)
	more := says(ln, isZero, token.NEQ, token.GTR)
	bad, tr = (&Q{W: w, NoEnter: x.outside, Cut: done, Goal: drop}).Entry(deq)
	x.check("list/Queue/batch/kept", w.Pos(deq.Pos()), !bad, "a batch is dropped although there are elements in it", tr)
	bad, tr = (&Q{W: w, NoEnter: x.outside, Cut: anyCut(none, more), Through: drop, Goal: realReturn(deq)}).Entry(deq)
	x.check("list/Queue/batch/dropped", w.Pos(deq.Pos()), !bad, "an empty batch stays at the front", tr)
	bad, tr = (&Q{W: w, NoEnter: x.outside, Goal: drop, Through: rem}).Entry(deq)
	x.check("list/Queue/batch/after", w.Pos(deq.Pos()), !bad, "a batch is dropped before the element is taken out of it", tr)
	for _, g := range x.own(deq) {
		instrs(g, func(in ssa.Instruction) {
			if rt, ok := in.(*ssa.Return); ok && g == deq && in.Block() != g.Recover && len(rt.Results) == 2 {
				b, isC := constBool(retVal(rt, 1))
				if isC && !b {
					return
				}
				li, ii := indexOf(retVal(rt, 0))
				x.check("list/Queue/chosen", w.ipos(rt), isC && li != nil && isBatch(li, "Front") && isZero(ii), "the element that is handed out is not the first one", nil)
			}
			if st, b := fieldStore(in, "Element", "Value"); st != nil {
				x.check("list/Queue/remove/only", w.ipos(in), rem(in), "something else happens to a batch", nil)
				_ = b
			}
		})
	}
	bad, tr = (&Q{W: w, NoEnter: x.outside, Cut: says(front, isNil, token.NEQ), Goal: func(in ssa.Instruction) bool {
		rt, ok := in.(*ssa.Return)
		if !ok || !realReturn(deq)(in) {
			return false
		}
		b, isC := constBool(retVal(rt, 1))
		return !isC || b
	}}).Entry(deq)
	x.check("list/Queue/empty", w.Pos(deq.Pos()), !bad, "an element comes out of an empty list", tr)
	bad, tr = (&Q{W: w, NoEnter: x.outside, Cut: none, Goal: func(in ssa.Instruction) bool {
		rt, ok := in.(*ssa.Return)
		if !ok || !realReturn(deq)(in) {
			return false
		}
		b, isC := constBool(retVal(rt, 1))
		return !isC || !b
	}}).Entry(deq)
	x.check("list/Queue/filled", w.Pos(deq.Pos()), !bad, "a list with elements says that it is empty", tr)
}

// batch: the first (or last) batch of the queue.
func (x *conf) batch(v ssa.Value, which string) bool {
	ls := phiLeaves(v)
	for _, l := range ls {
		c, ok := l.(*ssa.Call)
		if !ok {
			return false
		}
		n := calleeName(c)
		if n != "list.List."+which && !(which == "Back" && n == "list.List.PushBack") {
			return false
		}
	}
	return len(ls) > 0
}

// chance: no other source of chance, and no order of a map, decides what is explored next.
func (x *conf) chance() {
	w := x.w
	start := x.fn("modelchecker.Processor.Start")
	mk := x.fn("modelchecker.NewProcessorWithVisitedTracking")
	if start == nil || mk == nil {
		return
	}
	reach := w.reachable(start, mk)
	n := 0
	for _, f := range sortedFns(reach) {
		instrs(f, func(in ssa.Instruction) {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			name := calleeName(c)
			if !strings.HasPrefix(name, "rand.") {
				return
			}
			n++
			okc := false
			switch {
			case name == "rand.New" || name == "rand.NewSource":
				okc = inFuncs(x.own(mk), f)
			case strings.HasPrefix(name, "rand.Rand."):
				okc = name != "rand.Rand.Seed"
			}
			x.check("chance/source/"+shortFn(f), w.ipos(in), okc, name+" does not draw from the seed of the run", nil)
		})
	}
	x.r.Floor("draws of chance", n, 3)
	// the order of a map
	forks := func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		nm := calleeName(c)
		if nm == "modelchecker.Node.ForkForAlternatePaths" || nm == "modelchecker.Node.ForkForAction" {
			return true
		}
		if !c.Common().IsInvoke() || c.Common().Method.Name() != "Add" {
			return false
		}
		return strings.Contains(c.Common().Value.Type().String(), "LinearCollection")
	}
	loops := 0
	for _, f := range sortedFns(w.reachable(start)) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				nx, ok := in.(*ssa.Next)
				if !ok || nx.IsString {
					continue
				}
				rg, ok := nx.Iter.(*ssa.Range)
				if !ok {
					continue
				}
				if _, isMap := rg.X.Type().Underlying().(*types.Map); !isMap {
					continue
				}
				body := naturalLoop(b)
				loops++
				bad := ""
				for bb := range body {
					for _, i := range bb.Instrs {
						if forks(i) || isCallInstr(i) && w.reachesNamed(i, forks) {
							bad = w.ipos(i)
						}
					}
				}
				x.check("chance/map/"+shortFn(f), w.ipos(in), bad == "", "the order of a map decides in which order states are added ("+bad+")", nil)
			}
		}
	}
	x.r.Floor("loops over maps looked at", loops, 10)
}

func isCallInstr(in ssa.Instruction) bool { _, ok := in.(*ssa.Call); return ok }

// reachesNamed: a statically called function of the program contains (or calls one that contains) such an instruction.
func (w *World) reachesNamed(in ssa.Instruction, m func(ssa.Instruction) bool) bool {
	c, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	g := c.Call.StaticCallee()
	if g == nil || !w.owns(originOf(g)) {
		return false
	}
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function, d int) bool
	rec = func(f *ssa.Function, d int) bool {
		if seen[f] || d > 6 || len(f.Blocks) == 0 || !w.owns(f) {
			return false
		}
		seen[f] = true
		found := false
		instrs(f, func(i ssa.Instruction) {
			if found {
				return
			}
			if m(i) {
				found = true
				return
			}
			if cc, ok := i.(*ssa.Call); ok {
				if h := cc.Call.StaticCallee(); h != nil && rec(originOf(h), d+1) {
					found = true
				}
			}
		})
		return found
	}
	return rec(originOf(g), 0)
}

// isZeroOf: the value of a variable that is never set.
func (x *conf) isZeroOf(v ssa.Value) bool {
	if c, ok := v.(*ssa.Const); ok {
		return c.Value == nil
	}
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	al, ok := u.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, r := range *al.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == al {
			if c, ok := st.Val.(*ssa.Const); !ok || c.Value != nil {
				return false
			}
		}
	}
	return true
}
