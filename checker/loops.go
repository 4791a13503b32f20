package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// LoopInfo is a loop over a collection.
type LoopInfo struct {
	Fn    *ssa.Function
	Head  *ssa.BasicBlock
	Body  map[*ssa.BasicBlock]bool
	Elems map[ssa.Value]bool // values that denote the current element (or its key)
	Over  ssa.Value          // the collection, when identified
}

// loopsOf finds the loops of fn that iterate over a collection: range loops over maps and slices, index loops over a
// slice, and Starlark iterator loops (for iter.Next(&x)).
func (w *World) loopsOf(fn *ssa.Function) []*LoopInfo {
	var out []*LoopInfo
	for _, h := range fn.Blocks {
		body := naturalLoop(h)
		if body == nil {
			continue
		}
		li := &LoopInfo{Fn: fn, Head: h, Body: body, Elems: map[ssa.Value]bool{}}
		for _, in := range h.Instrs {
			switch x := in.(type) {
			case *ssa.Next:
				for _, r := range *x.Referrers() {
					if e, ok := r.(*ssa.Extract); ok && e.Index > 0 {
						li.Elems[e] = true
					}
				}
				if rg, ok := x.Iter.(*ssa.Range); ok {
					li.Over = rg.X
				}
			case *ssa.Call:
				if x.Call.IsInvoke() && x.Call.Method.Name() == "Next" && len(x.Call.Args) == 1 {
					li.Elems[x.Call.Args[0]] = true
					li.Over = x.Call.Value
				}
			}
		}
		// index loops: an IndexAddr/Index in the body whose index is an induction variable of this header
		ind := map[ssa.Value]bool{}
		for _, in := range h.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				for _, e := range ph.Edges {
					if b, ok := e.(*ssa.BinOp); ok && (b.X == ph || b.Y == ph) && (b.Op == token.ADD || b.Op == token.SUB) {
						ind[ph] = true
						ind[b] = true
					}
				}
			}
		}
		if len(ind) > 0 {
			bound := lenOperand(h)
			for _, b := range fn.Blocks {
				if !body[b] {
					continue
				}
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.IndexAddr:
						if ind[x.Index] {
							isStore := false
							for _, r := range *x.Referrers() {
								if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
									li.Elems[u] = true
									if li.Over == nil || x.X == bound {
										li.Over = x.X
									}
								} else if _, ok := r.(*ssa.Store); ok {
									isStore = true
								} else {
									li.Elems[x] = true
								}
							}
							_ = isStore
						}
					case *ssa.Index:
						if ind[x.Index] {
							li.Elems[x] = true
							if li.Over == nil || x.X == bound {
								li.Over = x.X
							}
						}
					}
				}
			}
		}
		if len(li.Elems) > 0 {
			out = append(out, li)
		}
	}
	return out
}

// lenOperand: x when the loop runs while i < len(x).
func lenOperand(h *ssa.BasicBlock) ssa.Value {
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	b, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	for _, v := range []ssa.Value{b.X, b.Y} {
		if c, ok := v.(*ssa.Call); ok {
			if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				return c.Call.Args[0]
			}
		}
	}
	return nil
}

// entry of the loop body.
func (l *LoopInfo) entry() *ssa.BasicBlock {
	if _, ok := l.Head.Instrs[len(l.Head.Instrs)-1].(*ssa.If); ok {
		for _, s := range l.Head.Succs {
			if l.Body[s] {
				return s
			}
		}
	}
	return nil
}

// depends: does v (through the slice within the function) depend on an element of the loop?
func (w *World) dependsOn(v ssa.Value, elems map[ssa.Value]bool) bool {
	s := w.slice(v)
	for e := range elems {
		if s.vals[e] {
			return true
		}
	}
	return false
}

// contribution: an instruction that adds something depending on the element to an output.
func (w *World) contributes(in ssa.Instruction, elems map[ssa.Value]bool) bool {
	switch x := in.(type) {
	case *ssa.MapUpdate:
		return w.dependsOn(x.Value, elems) || w.dependsOn(x.Key, elems)
	case *ssa.Store:
		if _, ok := x.Addr.(*ssa.IndexAddr); ok {
			return w.dependsOn(x.Val, elems)
		}
	case ssa.CallInstruction:
		n := calleeName(x)
		if n == "builtin.append" || isMutatorCall(n) {
			args := callArgs(x)
			if n == "builtin.append" && len(args) == 2 {
				return w.dependsOn(args[1], elems)
			}
			for i, a := range args {
				if i == 0 && isMutatorCall(n) && !strings.HasPrefix(n, "fmt.") {
					continue
				}
				if w.dependsOn(a, elems) {
					return true
				}
			}
		}
	}
	return false
}

// iterationSkips: can an iteration of the loop complete (reach the header again) without a contribution?
func (w *World) iterationSkips(l *LoopInfo, through func(ssa.Instruction) bool, cut func(Edge) bool, noEnter ...*ssa.Function) (bool, []string) {
	e := l.entry()
	if e == nil {
		return false, nil
	}
	q := &Q{W: w, Through: through, Cut: cut, LoopAll: true, NoEnter: func(f *ssa.Function) bool {
		for _, x := range noEnter {
			if f == x {
				return true
			}
		}
		return f == l.Fn || w.opaque(f, through)
	}, Goal: func(in ssa.Instruction) bool {
		return in.Block() == l.Head && in == firstNonPhi(l.Head)
	}}
	return q.from(l.Fn, point{e, 0, l.Head})
}

// canReturn: the blocks of fn from which a return is reachable (the others only lead to a panic).
func blocksThatReturn(fn *ssa.Function) map[*ssa.BasicBlock]bool {
	m := map[*ssa.BasicBlock]bool{}
	for changed := true; changed; {
		changed = false
		for _, b := range fn.Blocks {
			if m[b] || len(b.Instrs) == 0 {
				continue
			}
			_, ret := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			for _, s := range b.Succs {
				ret = ret || m[s]
			}
			if ret {
				m[b] = true
				changed = true
			}
		}
	}
	return m
}

// leavesEarly: can the loop be left in the middle of an iteration (break or return) along a path without cut?
func (w *World) leavesEarly(l *LoopInfo, cut func(Edge) bool) (bool, []string) {
	e := l.entry()
	if e == nil {
		return false, nil
	}
	ret := blocksThatReturn(l.Fn)
	q := &Q{W: w, Cut: cut,
		NoEnter: func(f *ssa.Function) bool { return f == l.Fn || w.opaque(f, nil) },
		Through: func(in ssa.Instruction) bool { return in.Block() == l.Head },
		Goal: func(in ssa.Instruction) bool {
			return in.Parent() == l.Fn && !l.Body[in.Block()] && ret[in.Block()]
		}}
	return q.from(l.Fn, point{e, 0, l.Head})
}

// partial: an index loop that provably does not visit the whole collection.
func (w *World) partial(l *LoopInfo) string {
	iff, ok := l.Head.Instrs[len(l.Head.Instrs)-1].(*ssa.If)
	if !ok {
		return ""
	}
	b, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return ""
	}
	initOf := func(v ssa.Value) (int64, bool) {
		ph, add := v, int64(0)
		if bo, ok := v.(*ssa.BinOp); ok && bo.Op == token.ADD {
			if c, ok := bo.Y.(*ssa.Const); ok && c.Value != nil {
				ph, add = bo.X, c.Int64()
			}
		}
		p, ok := ph.(*ssa.Phi)
		if !ok {
			return 0, false
		}
		for i, e := range p.Edges {
			if i < len(l.Head.Preds) && !l.Body[l.Head.Preds[i]] {
				if c, ok := e.(*ssa.Const); ok && c.Value != nil {
					return c.Int64() + add, true
				}
			}
		}
		return 0, false
	}
	if b.Op == token.LSS {
		if n, ok := initOf(b.X); ok && n != 0 {
			return "the loop does not start at the first element"
		}
		if bo, ok := b.Y.(*ssa.BinOp); ok && bo.Op == token.SUB {
			if c, ok := bo.Y.(*ssa.Const); ok && c.Value != nil && c.Int64() > 0 {
				return "the loop stops before the last element"
			}
		}
		if _, ok := b.Y.(*ssa.Const); ok {
			return "the loop has a fixed bound"
		}
		if l.Over != nil {
			if why := w.otherCount(b.Y, l.Over); why != "" {
				return why
			}
		}
	}
	return ""
}

// otherCount: v, the bound of an index loop over coll, is the size of something that is not coll (a count that a function
// computes, or the length of a slice that a function builds, such as the elements that remain after a filter).
func (w *World) otherCount(v, coll ssa.Value) string {
	for _, x := range phiLeaves(v) {
		c, ok := peelConv(x).(*ssa.Call)
		if !ok {
			continue
		}
		if bi, ok := c.Call.Value.(*ssa.Builtin); ok {
			if bi.Name() == "len" {
				if d, ok := c.Call.Args[0].(*ssa.Call); ok && ssa.Value(d) != coll && w.builds(d) {
					return "the loop runs to the length of " + calleeName(d) + "(…), which is not the collection it indexes"
				}
			}
			continue
		}
		for _, t := range w.callees(c) {
			if !w.owns(t) {
				continue
			}
			for _, b := range t.Blocks {
				ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok || len(ret.Results) != 1 {
					continue
				}
				for _, y := range phiLeaves(ret.Results[0]) {
					switch y := peelConv(y).(type) {
					case *ssa.Const:
						if y.Value != nil && y.Int64() != 0 {
							return "the loop runs to " + calleeName(c) + "(…), which is not the length of the collection"
						}
					case *ssa.Call:
						if bi, ok := y.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
							if d, ok := y.Call.Args[0].(*ssa.Call); !ok || !w.builds(d) {
								continue
							}
						}
						return "the loop runs to " + calleeName(c) + "(…), which is not the length of the collection"
					case *ssa.BinOp:
						return "the loop runs to a number that " + calleeName(c) + "(…) computes, not to the length of the collection"
					}
				}
			}
		}
	}
	return ""
}

// builds: the called function returns a slice that it makes itself (rather than one that it is given or finds in a field).
func (w *World) builds(c *ssa.Call) bool {
	for _, t := range w.callees(c) {
		if !w.owns(t) {
			continue
		}
		for _, b := range t.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || len(ret.Results) == 0 {
				continue
			}
			for _, y := range phiLeaves(ret.Results[0]) {
				switch y := y.(type) {
				case *ssa.MakeSlice:
					return true
				case *ssa.Call:
					if bi, ok := y.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
						return true
					}
				}
			}
		}
	}
	return false
}

// everyElement checks that the loops of fn over collections that render as `over` perform `through` for every element
// (skipping only along `skip` branches) and are not left early (except along `leave` branches).
func (w *World) everyElement(r *Rep, key string, fn *ssa.Function, over string, through func(ssa.Instruction) bool, skip, leave func(Edge) bool) {
	if fn == nil {
		r.Undecided(key, "-", "function not found")
		return
	}
	n := 0
	for _, f := range w.withHelpers(fn) {
		for _, l := range w.loopsOf(f) {
			if l.Over == nil || !re(over).MatchString(w.render(l.Over)) {
				continue
			}
			has := false
			for b := range l.Body {
				for _, in := range b.Instrs {
					has = has || through(in) || w.reachesInstr(in, through)
				}
			}
			if !has {
				continue
			}
			n++
			pos := w.ipos(firstNonPhi(l.Head))
			bad, tr := w.iterationSkips(l, through, skip)
			r.Check(key+"/each", pos, !bad, ifBad(bad, "an element is skipped: "+strings.Join(tr, " → ")))
			bad, tr = w.leavesEarly(l, leave)
			r.Check(key+"/all", pos, !bad, ifBad(bad, "the loop is left before the last element: "+strings.Join(tr, " → ")))
			p := w.partial(l)
			r.Check(key+"/whole", pos, p == "", p)
		}
	}
	r.Check(key, w.Pos(fn.Pos()), n > 0, ifBad(n == 0, "no loop over "+over+" does this for its elements"))
}

// reachesInstr: a call that (transitively) executes a matching instruction.
func (w *World) reachesInstr(in ssa.Instruction, m func(ssa.Instruction) bool) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	for _, t := range w.callees(c) {
		if !w.owns(t) || len(t.Blocks) == 0 {
			continue
		}
		for f := range w.reachable(t) {
			found := false
			instrs(f, func(x ssa.Instruction) { found = found || m(x) })
			if found {
				return true
			}
		}
	}
	return false
}

// withHelpers: fn, its closures, and functions whose only callers are among them.
func (w *World) withHelpers(fn *ssa.Function) []*ssa.Function {
	set := map[*ssa.Function]bool{fn: true}
	out := []*ssa.Function{fn}
	for i := 0; i < len(out); i++ {
		for _, a := range out[i].AnonFuncs {
			if !set[a] {
				set[a] = true
				out = append(out, a)
			}
		}
		instrs(out[i], func(in ssa.Instruction) {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			for _, t := range w.callees(c) {
				if set[t] || !w.owns(t) || len(t.Blocks) == 0 {
					continue
				}
				only := true
				for _, cs := range w.callers[t] {
					only = only && set[cs.Parent()]
				}
				if only && len(w.callers[t]) > 0 {
					set[t] = true
					out = append(out, t)
				}
			}
		})
	}
	return out
}

// opaque: a large part of the program in which nothing matches; it is treated as one step that returns.
func (w *World) opaque(f *ssa.Function, m func(ssa.Instruction) bool) bool {
	if w.sizes == nil {
		w.sizes = map[*ssa.Function]int{}
	}
	n, ok := w.sizes[f]
	if !ok {
		n = len(w.reachable(f))
		w.sizes[f] = n
	}
	if n <= 25 {
		return false
	}
	if m == nil {
		return true
	}
	for g := range w.reachable(f) {
		found := false
		instrs(g, func(x ssa.Instruction) { found = found || m(x) })
		if found {
			return false
		}
	}
	return true
}
