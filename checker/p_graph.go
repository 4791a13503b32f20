package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("S17", ruleS17) }

// graphs: what is recorded on the links of the graph and written out of it.
type graphs struct {
	w *World
	r *Rep
}

func ruleS17(c *Ctx, r *Rep) {
	r.Rule("every field of the link to a state is carried from the link by which the state was reached (fields enumerated from the type), and that link holds what its process recorded (labels, messages, returned values)")
	r.Rule("export: every state is written under its place in the list, every link of it with its own fields and the place of the state it leads to; what is collected is written before it is dropped, under a name of its own")
	r.Rule("failing path: every state of the path is written in order, each step leads from its predecessor to it; pictures and texts show every state and every link with its own name, red exactly for failures")
	r.Rule("the JSON text of a state holds each of its parts under its own name")
	x := &graphs{c.World, r}
	x.links()
	x.recorded()
	x.calls()
	x.export()
	x.errorPath()
	x.dot()
	x.failureDot()
	x.failureText()
	x.stateJSON()
}

func (x *graphs) check(key, pos string, ok bool, why string, tr []string) {
	if len(tr) > 0 {
		why += ": " + strings.Join(tr, " → ")
	}
	x.r.Check(key, pos, ok, ifBad(!ok, why))
}

func (x *graphs) fn(name string) *ssa.Function {
	f := x.w.Func(name)
	if f == nil {
		x.r.Undecided("anchor/"+name, "-", name+" not found")
	}
	return f
}

// linkType: the struct of the links.
func (x *graphs) linkType(f *ssa.Function) *types.Struct {
	n, ok := deref(f.Params[0].Type()).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < n.NumFields(); i++ {
		if n.Field(i).Name() == "Inbound" {
			if sl, ok := n.Field(i).Type().Underlying().(*types.Slice); ok {
				s, _ := deref(sl.Elem()).Underlying().(*types.Struct)
				return s
			}
		}
	}
	return nil
}

// links: Attach and Duplicate make the link from the parent out of the link by which the state was reached.
func (x *graphs) links() {
	w := x.w
	lv := &live{w: w}
	for _, m := range []string{"Attach", "Duplicate"} {
		f := x.fn("modelchecker.Node." + m)
		if f == nil {
			continue
		}
		fns := w.group(f)
		st := x.linkType(f)
		if st == nil {
			x.r.Undecided("link/"+m, w.Pos(f.Pos()), "the type of the links was not found")
			continue
		}
		target := f.Params[0]
		if m == "Duplicate" {
			target = f.Params[1]
		}
		isWay := func(v ssa.Value) bool {
			return reMatch(`.*Inbound\[0\]`, w.plain(v)) && lv.rootedAt(v, f.Params[0], fns)
		}
		way := func(fld string, v ssa.Value) bool {
			if fld == "" {
				return allOf(w.argsIn(v, fns, 0), isWay)
			}
			return x.of(v, fns, fld, isWay)
		}
		whole := false // the link is a copy with changes
		for _, g := range fns {
			instrs(g, func(in ssa.Instruction) {
				s, ok := in.(*ssa.Store)
				if ok && namedName(s.Val.Type()) == "Link" && !isPtr(s.Val.Type()) {
					whole = whole || w.everyValue(s.Val, func(v ssa.Value) bool {
						u, ok := v.(*ssa.UnOp)
						return ok && u.Op == token.MUL && way(``, u.X)
					}, 0)
				}
			})
		}
		for i := 0; i < st.NumFields(); i++ {
			fld := st.Field(i).Name()
			n := 0
			for _, g := range fns {
				instrs(g, func(in ssa.Instruction) {
					s, base := fieldStore(in, "Link", fld)
					if s == nil || base == nil {
						return
					}
					n++
					ok := w.everyValue(s.Val, func(v ssa.Value) bool {
						switch fld {
						case "Node":
							return lv.rootedAt(v, target, fns) && namedName(v.Type()) == "Node" && !strings.Contains(w.plain(v), "Inbound")
						case "ThreadsMap":
							c, isC := v.(*ssa.Call)
							return way(`ThreadsMap`, v) || m == "Duplicate" && isC && strings.HasSuffix(calleeName(c), "CreateNewToOldThreadIndexMap") && lv.rootedAt(c.Call.Args[0], f.Params[0], fns) && lv.rootedAt(c.Call.Args[1], f.Params[1], fns)
						}
						return way(fld, v)
					}, 0)
					x.check("link/"+m+"/"+fld, w.ipos(s), ok, "the link does not get its own "+fld, nil)
				})
			}
			need := fld == "Node" || !whole && fld != "ThreadsMap"
			if m == "Duplicate" && fld == "ThreadsMap" {
				need = true
			}
			if need {
				x.check("link/"+m+"/"+fld+"/set", w.Pos(f.Pos()), n > 0, "the link does not carry its "+fld, nil)
			}
		}
		// and is added to the links of the state it comes from
		adds := func(in ssa.Instruction) bool {
			s, base := fieldStore(in, "Node", "Outbound")
			if s == nil || !reMatch(`.*Inbound\[0\]\.Node`, w.plain(base)) {
				return false
			}
			c, ok := peelConv(s.Val).(*ssa.Call)
			return ok && calleeName(c) == "builtin.append" && reMatch(`.*Inbound\[0\]\.Node\.Outbound`, w.plain(c.Call.Args[0])) && len(sliceElems2(c.Call.Args[1])) == 1
		}
		no := emptyEdge(func(v ssa.Value) bool { return strings.HasSuffix(w.plain(v), ".Inbound") })
		cut := no
		if m == "Duplicate" {
			cut = anyCut(no, func(e Edge) bool { return !e.Taken && strings.HasSuffix(w.plain(e.Cond), ".Enabled") })
		}
		w.must(x.r, step{Key: "link/" + m + "/added", Why: "the link is not among those of the state it comes from", Fn: f, Cut: cut, Through: adds, Goal: isReturnOf(f), NoEnter: w.onlyHelpers(f)})
		if m == "Duplicate" {
			back := func(in ssa.Instruction) bool {
				s, base := fieldStore(in, "Node", "Inbound")
				if s == nil || !lv.rootedAt(base, f.Params[1], fns) {
					return false
				}
				c, ok := peelConv(s.Val).(*ssa.Call)
				if !ok || calleeName(c) != "builtin.append" || !strings.HasSuffix(w.plain(c.Call.Args[0]), ".Inbound") || !lv.rootedAt(c.Call.Args[0], f.Params[1], fns) {
					return false
				}
				el := sliceElems2(c.Call.Args[1])
				return len(el) == 1 && way(``, el[0])
			}
			w.must(x.r, step{Key: "link/Duplicate/back", Why: "the known state does not know the link that leads to it", Fn: f, Cut: cut, Through: back, Goal: isReturnOf(f), NoEnter: w.onlyHelpers(f)})
		}
	}
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

// recorded: the link by which a state is reached holds what the process recorded on the way.
func (x *graphs) recorded() {
	w := x.w
	pn := x.fn("modelchecker.Processor.processNode")
	if pn == nil {
		return
	}
	fns := w.withHelpers(pn)
	ends := anyOf(isCall("modelchecker.Node.Attach"), isCall("modelchecker.Node.Duplicate"))
	noWay := emptyEdge(func(v ssa.Value) bool { return strings.HasSuffix(w.plain(v), ".Inbound") })
	added := func(fld string) func(ssa.Instruction) bool {
		return func(in ssa.Instruction) bool {
			s, base := fieldStore(in, "Link", fld)
			if s == nil || !reMatch(`.*Inbound\[0\]`, w.plain(base)) {
				return false
			}
			c, ok := peelConv(s.Val).(*ssa.Call)
			return ok && calleeName(c) == "builtin.append" && reMatch(`.*Inbound\[0\]\.`+fld, w.plain(c.Call.Args[0])) && reMatch(`.*Process\.`+fld, w.plain(c.Call.Args[1]))
		}
	}
	for _, fld := range []string{"Labels", "Messages"} {
		w.must(x.r, step{Key: "recorded/" + fld, Why: "the link does not hold the " + strings.ToLower(fld) + " of its step", Fn: pn, NoEnter: outside(fns), Cut: anyCut(w.isTrue(`Processor\.processInit\(`), noWay), Through: added(fld), Goal: ends})
	}
	isReturns := func(v ssa.Value) bool { return reMatch(`.*Process\.Returns`, w.plain(peelConv(v))) }
	var fresh []ssa.Value
	puts := func(in ssa.Instruction) bool {
		s, base := fieldStore(in, "Link", "Returns")
		return s != nil && reMatch(`.*Inbound\[0\]`, w.plain(base))
	}
	w.must(x.r, step{Key: "recorded/Returns", Why: "the link does not hold the values its step returned", Fn: pn, NoEnter: outside(fns), Cut: anyCut(w.isTrue(`Processor\.processInit\(`), noWay, emptyEdge(isReturns)), Through: puts, Goal: ends})
	n := 0
	for _, g := range fns {
		instrs(g, func(in ssa.Instruction) {
			if !puts(in) {
				return
			}
			n++
			v := in.(*ssa.Store).Val
			ok := w.everyValue(v, func(l ssa.Value) bool {
				l = peelConv(l)
				if c, isC := l.(*ssa.Call); isC && strings.HasPrefix(calleeName(c), "maps.Clone") {
					return isReturns(c.Call.Args[0])
				}
				if m, isM := l.(*ssa.MakeMap); isM {
					fresh = append(fresh, m)
					return true
				}
				return isReturns(l)
			}, 0)
			x.check("recorded/returns-of", w.ipos(in), ok, "the link holds other values than those its step returned", nil)
		})
	}
	x.r.Floor("places that put returned values on a link", n, 1)
	for _, m := range fresh {
		x.copies("recorded/returns-copied", w.withHelpers(pn), m, isReturns)
	}
}

// copies: the map gets each entry of the other one (a loop, or maps.Copy).
func (x *graphs) copies(key string, fns []*ssa.Function, m ssa.Value, from func(ssa.Value) bool) {
	w := x.w
	whole := func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		return ok && strings.HasPrefix(calleeName(c), "maps.Copy") && peelConv(c.Call.Args[0]) == m && from(c.Call.Args[1])
	}
	put := func(in ssa.Instruction) bool {
		mu, ok := in.(*ssa.MapUpdate)
		return ok && peelConv(mu.Map) == m
	}
	n := 0
	for _, g := range append(fns, m.Parent()) {
		if hasInstr(g, whole) {
			n++
		}
	}
	fns = append([]*ssa.Function{m.Parent()}, fns...)
	for _, l := range w.loopsIn(fns[:1], from, put) {
		n++
		w.wholeLoop(x.r, key, l, put, nil, nil)
		instrs(l.Fn, func(in ssa.Instruction) {
			if put(in) && l.Body[in.Block()] {
				mu := in.(*ssa.MapUpdate)
				k, v := x.entry(l, mu.Key), x.entry(l, mu.Value)
				x.check(key+"/entry", w.ipos(in), k == 1 && v == 2, "an entry is not copied as it is", nil)
			}
		})
	}
	x.check(key, w.Pos(m.Pos()), n > 0, "the entries are not copied", nil)
}

// entry: 1 for the key, 2 for the value of the entry the loop is at, 0 otherwise.
func (x *graphs) entry(l *LoopInfo, v ssa.Value) int {
	v = peelConv(v)
	if u, ok := v.(*ssa.Lookup); ok && x.entry(l, u.Index) == 1 && l.Over != nil && x.w.plain(u.X) == x.w.plain(l.Over) {
		return 2
	}
	if e, ok := v.(*ssa.Extract); ok {
		if n, ok := e.Tuple.(*ssa.Next); ok && n.Block() == l.Head {
			return e.Index
		}
	}
	if l.has(v) { // the keys in a list
		return 1
	}
	return 0
}

// calls: what a call and the answer to it are recorded as.
func (x *graphs) calls() {
	w := x.w
	for _, m := range []string{"RecordCall", "RecordReturn"} {
		f := x.fn("modelchecker.Process." + m)
		if f == nil || len(f.Params) < 4 {
			continue
		}
		fns := x.makers(f)
		lv := &live{w: w}
		from, to := f.Params[1], f.Params[2]
		objOf := func(p *ssa.Parameter) func(ssa.Value) bool {
			return func(v ssa.Value) bool { return strings.HasSuffix(w.plain(v), ".obj") && lv.rootedAt(v, p, fns) }
		}
		refOf := func(p *ssa.Parameter) func(ssa.Value) bool {
			return func(v ssa.Value) bool {
				c, ok := v.(*ssa.Call)
				return ok && strings.HasSuffix(calleeName(c), ".RefStringShort") && objOf(p)(c.Call.Args[0])
			}
		}
		noObj := func(p *ssa.Parameter) func(Edge) bool { return says(objOf(p), isNil, token.EQL) }
		local := says(objOf(from), objOf(to), token.EQL)
		both := func(e Edge) bool { return local(e) } // calls within a role (or outside of all) are not messages
		ends := w.storeTo("Process", "Messages", `.*`)
		if m == "RecordReturn" {
			x.fieldAlways(f, fns, m, "IsReturn", ends, nil, func(v ssa.Value) bool { return isTrueConst(v) })
		}
		x.fieldAlways(f, fns, m, "Name", ends, nil, func(v ssa.Value) bool {
			return strings.HasSuffix(w.plain(v), ".Name") && lv.rootedAt(v, to, fns)
		})
		x.fieldAlways(f, fns, m, "Sender", ends, noObj(from), refOf(from))
		x.fieldAlways(f, fns, m, "Receivers", ends, noObj(to), func(v ssa.Value) bool {
			el := sliceElems2(v)
			return len(el) == 1 && refOf(to)(el[0])
		})
		w.must(x.r, step{Key: "message/" + m + "/recorded", Why: "a message between roles is not recorded", Fn: f, NoEnter: outside(fns), Cut: anyCut(both, anyOfEdges(noObj(to), noObj(from))), Through: ends, Goal: isReturnOf(f)})
		w.must(x.r, step{Key: "message/" + m + "/from-outside", Why: "a message from outside is not recorded", Fn: f, NoEnter: outside(fns), Cut: anyCut(both, noObj(to), says(objOf(from), isNil, token.NEQ)), Through: ends, Goal: isReturnOf(f)})
		w.must(x.r, step{Key: "message/" + m + "/own", Why: "a call within a role is recorded as a message", Fn: f, NoEnter: outside(fns), Cut: says(objOf(from), objOf(to), token.NEQ), Through: func(ssa.Instruction) bool { return false }, Goal: ends})
		// calls that are not atomic can get lost
		isFlow := func(v ssa.Value) bool {
			return allOf(w.argsIn(v, fns, 0), func(a ssa.Value) bool { return a == ssa.Value(f.Params[len(f.Params)-1]) })
		}
		isAtomic := func(v ssa.Value) bool {
			c, ok := v.(*ssa.Const)
			return ok && enumValue(c, "Flow_FLOW_ATOMIC")
		}
		atomic, notAtomic := says(isFlow, isAtomic, token.EQL), says(isFlow, isAtomic, token.NEQ)
		x.fieldAlways(f, fns, m, "Lossy", ends, atomic, func(v ssa.Value) bool { return isTrueConst(v) || isCompareOf(v, token.NEQ, isFlow, isAtomic) })
		lossy := func(in ssa.Instruction) bool {
			s, _ := fieldStore(in, "Message", "Lossy")
			return s != nil && isTrueConst(s.Val)
		}
		w.must(x.r, step{Key: "message/" + m + "/atomic", Why: "an atomic call is recorded as one that can get lost", Fn: f, NoEnter: outside(fns), Cut: notAtomic, Through: func(ssa.Instruction) bool { return false }, Goal: lossy})
		// the values
		addsValue := func(in ssa.Instruction) bool {
			s, _ := fieldStore(in, "Message", "Values")
			return s != nil
		}
		valueOf := func(key string, okName, okValue func(ssa.Value) bool) {
			n := 0
			for _, g := range fns {
				instrs(g, func(in ssa.Instruction) {
					if s, _ := fieldStore(in, "NameValue", "Name"); s != nil && okName != nil {
						x.check(key+"/name", w.ipos(in), w.everyValue(s.Val, okName, 0), "a value is recorded under another name", nil)
					}
					if s, _ := fieldStore(in, "NameValue", "Value"); s != nil {
						n++
						x.check(key+"/value", w.ipos(in), w.everyValue(s.Val, func(v ssa.Value) bool { return x.textOf(v, okValue) }, 0), "another value is recorded", nil)
					}
				})
			}
			x.r.Floor("values recorded by "+m, n, 1)
		}
		if m == "RecordReturn" {
			val := f.Params[3]
			w.must(x.r, step{Key: "message/RecordReturn/value", Why: "the returned value is not recorded", Fn: f, NoEnter: outside(fns), Cut: says(func(v ssa.Value) bool { return peelMI(v) == ssa.Value(val) }, isNil, token.EQL), Through: addsValue, Goal: ends})
			valueOf("message/RecordReturn", nil, func(v ssa.Value) bool { return peelMI(v) == ssa.Value(val) })
			continue
		}
		isVars := func(v ssa.Value) bool { return strings.HasSuffix(w.plain(peelConv(v)), ".vars") }
		over := func(v ssa.Value) bool {
			c, ok := v.(*ssa.Call)
			return isVars(v) || ok && strings.HasSuffix(calleeName(c), "StringDict.Keys") && isVars(c.Call.Args[0]) || ok && strings.HasPrefix(calleeName(c), "slices.Sorted") || x.keyList(v, isVars)
		}
		ls := w.loopsIn(fns, over, addsValue)
		x.r.Floor("loops over the arguments of a call", len(ls), 1)
		for _, l := range ls {
			w.wholeLoop(x.r, "message/RecordCall/values", l, addsValue, nil, nil)
			_, isMap := peelConv(l.Over).Type().Underlying().(*types.Map)
			x.check("message/RecordCall/order", w.ipos(firstNonPhi(l.Head)), !isMap, "the order of the arguments changes from run to run", nil)
			valueOf("message/RecordCall", func(v ssa.Value) bool { return x.entry(l, v) == 1 }, func(v ssa.Value) bool {
				u, ok := v.(*ssa.Lookup)
				return ok && isVars(u.X) && x.entry(l, u.Index) == 1
			})
		}
	}
}

// makers: the function and the helpers that make messages for it (possibly for others, too).
func (x *graphs) makers(f *ssa.Function) []*ssa.Function {
	out := x.w.group(f)
	for i := 0; i < len(out); i++ {
		deepInstrs(out[i], func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok || c.Call.StaticCallee() == nil {
				return
			}
			t := c.Call.StaticCallee()
			if memberOf(out, t) || len(t.Blocks) == 0 || packageOf(t) != packageOf(f) {
				return
			}
			if x.w.reachesInstr(in, func(o ssa.Instruction) bool {
				m, _ := fieldStore(o, "Message", "Name")
				v, _ := fieldStore(o, "NameValue", "Value")
				l, _ := fieldStore(o, "Message", "Lossy")
				return m != nil || v != nil || l != nil
			}) {
				out = append(out, t)
			}
		})
	}
	return out
}

// keyList: a list that is filled with the keys of the map.
func (x *graphs) keyList(v ssa.Value, m func(ssa.Value) bool) bool {
	for _, l := range phiLeaves(v) {
		c, ok := l.(*ssa.Call)
		if !ok || calleeName(c) != "builtin.append" {
			continue
		}
		for _, e := range sliceElems2(c.Call.Args[1]) {
			if ex, ok := e.(*ssa.Extract); ok {
				if n, ok := ex.Tuple.(*ssa.Next); ok && ex.Index == 1 {
					if rg, ok := n.Iter.(*ssa.Range); ok && m(rg.X) {
						return true
					}
				}
			}
		}
	}
	return false
}

func isCompareOf(v ssa.Value, op token.Token, x, y func(ssa.Value) bool) bool {
	b, ok := v.(*ssa.BinOp)
	return ok && b.Op == op && (x(b.X) && y(b.Y) || x(b.Y) && y(b.X))
}

func anyOfEdges(ps ...func(Edge) bool) func(Edge) bool { return anyCut(ps...) }

// fieldAlways: before the message is recorded its field is set, unless cut; and always to such a value.
func (x *graphs) fieldAlways(f *ssa.Function, fns []*ssa.Function, m, fld string, ends func(ssa.Instruction) bool, cut func(Edge) bool, ok func(ssa.Value) bool) {
	w := x.w
	key := "message/" + m + "/" + fld
	set := func(in ssa.Instruction) bool {
		s, _ := fieldStore(in, "Message", fld)
		return s != nil
	}
	w.must(x.r, step{Key: key, Why: "a message is recorded without it", Fn: f, NoEnter: outside(fns), Cut: cut, Through: set, Goal: ends})
	for _, g := range fns {
		instrs(g, func(in ssa.Instruction) {
			if set(in) {
				x.check(key+"/of", w.ipos(in), w.everyValue(in.(*ssa.Store).Val, ok, 0), "a message is recorded with another one", nil)
			}
		})
	}
}

// textOf: the printed form of such a value, possibly with parts replaced.
func (x *graphs) textOf(v ssa.Value, ok func(ssa.Value) bool) bool {
	c, is := v.(*ssa.Call)
	if !is {
		return false
	}
	if n := calleeName(c); n == "strings.ReplaceAll" {
		return x.w.everyValue(c.Call.Args[0], func(l ssa.Value) bool { return x.textOf(l, ok) }, 0)
	}
	if c.Call.IsInvoke() && c.Call.Method.Name() == "String" {
		return ok(c.Call.Value)
	}
	return strings.HasSuffix(calleeName(c), ".String") && len(c.Call.Args) == 1 && ok(c.Call.Args[0])
}

// goes: the function and those it uses within its package (the ones that write files or states as text included).
func (x *graphs) goes(f *ssa.Function) []*ssa.Function {
	out := []*ssa.Function{f}
	seen := map[*ssa.Function]bool{f: true}
	for i := 0; i < len(out); i++ {
		deepInstrs(out[i], func(in ssa.Instruction) {
			var ts []*ssa.Function
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil {
				ts = append(ts, originOf(c.Common().StaticCallee()))
			}
			if m, ok := in.(*ssa.MakeClosure); ok {
				ts = append(ts, m.Fn.(*ssa.Function))
			}
			for _, t := range ts {
				if !seen[t] && len(t.Blocks) > 0 && f.Pkg != nil && packageOf(t) == f.Pkg && t.Signature.Recv() == nil {
					seen[t] = true
					out = append(out, t)
				}
			}
		})
	}
	return out
}

func packageOf(f *ssa.Function) *ssa.Package {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Pkg
}

// of: v is that field of such a value.
func (x *graphs) of(v ssa.Value, fns []*ssa.Function, field string, base func(ssa.Value) bool) bool {
	for _, a := range x.w.argsIn(v, fns, 0) {
		u, ok := peelConv(a).(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok || fieldName(fa.X.Type(), fa.Field) != field || !allOf(x.w.argsIn(fa.X, fns, 0), base) {
			return false
		}
	}
	return true
}

// stripped: such a text, possibly without the marks of symmetric values.
func (x *graphs) stripped(v ssa.Value, ok func(ssa.Value) bool) bool {
	c, is := peelConv(v).(*ssa.Call)
	if is && calleeName(c) == "strings.ReplaceAll" {
		return x.stripped(c.Call.Args[0], ok)
	}
	return ok(v)
}

// mentions: the text is made of such a value among others.
func (x *graphs) mentions(v ssa.Value, fns []*ssa.Function, p func(ssa.Value) bool, d int) bool {
	if v == nil || d > 12 {
		return false
	}
	v = peelMI(peelConv(v))
	if p(v) {
		return true
	}
	any := func(vs []ssa.Value) bool {
		for _, a := range vs {
			if x.mentions(a, fns, p, d+1) {
				return true
			}
		}
		return false
	}
	switch y := v.(type) {
	case *ssa.BinOp:
		return any([]ssa.Value{y.X, y.Y})
	case *ssa.Phi:
		return any(y.Edges)
	case *ssa.Slice:
		return any(sliceElems2(y))
	case *ssa.Call:
		if n := calleeName(y); reMatch(`fmt\.Sprint.*|strings\.(ReplaceAll|Join|Trim.*)|regexp\..*|.*\.(String|ToJson)`, n) {
			return any(y.Call.Args)
		}
		if t := y.Call.StaticCallee(); t != nil && memberOf(fns, t) {
			out := false
			instrs(t, func(in ssa.Instruction) {
				if rt, ok := in.(*ssa.Return); ok && len(rt.Results) == 1 {
					out = out || x.mentions(retVal(rt, 0), fns, p, d+1)
				}
			})
			return out
		}
	case *ssa.Parameter:
		if as := x.w.argsIn(y, fns, 0); len(as) > 0 && as[0] != ssa.Value(y) {
			return any(as)
		}
	}
	return false
}

// protoStore: a field of an exported link is set.
func protoStore(in ssa.Instruction, typ, field string) *ssa.Store {
	s, base := fieldStore(in, typ, field)
	if s == nil || !strings.Contains(deref(base.Type()).String(), "/proto.") {
		return nil
	}
	return s
}

// listAppend: an element is added to a list of such elements.
func listAppend(in ssa.Instruction, elem string) (ssa.Value, bool) {
	c, ok := in.(*ssa.Call)
	if !ok || calleeName(c) != "builtin.append" || len(c.Call.Args) != 2 || !listOf(c.Type(), elem) {
		return nil, false
	}
	el := sliceElems2(c.Call.Args[1])
	if len(el) != 1 {
		return nil, false
	}
	return el[0], true
}

func listOf(t types.Type, elem string) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	if elem == "string" {
		b, ok := sl.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.String
	}
	return strings.HasSuffix(sl.Elem().String(), elem)
}

// writes: a call that writes a file out of a list of such elements; its second result is the name of the file.
func (x *graphs) writes(in ssa.Instruction, elem string) (*ssa.Call, ssa.Value) {
	c, ok := in.(*ssa.Call)
	if !ok || c.Call.StaticCallee() == nil {
		return nil, nil
	}
	n := calleeName(c)
	opens := func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		return ok && reMatch(`os\.(Create|OpenFile|WriteFile)`, calleeName(c))
	}
	if !reMatch(`os\.WriteFile`, n) && !x.w.reachesInstr(in, opens) {
		return nil, nil
	}
	has, name := false, ssa.Value(nil)
	for _, a := range c.Call.Args {
		b := peelMI(peelConv(a))
		if listOf(b.Type(), elem) {
			has = true
		}
		if al, ok := b.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if fa, ok := r.(*ssa.FieldAddr); ok {
					for _, u := range *fa.Referrers() {
						if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(fa) && listOf(s.Val.Type(), elem) {
							has = true
						}
					}
				}
			}
		}
		if bt, ok := b.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.String {
			name = b
		}
	}
	if !has {
		return nil, nil
	}
	return c, name
}

// nodesOut: every element of the list gets its text into the list that is written.
func (x *graphs) nodesOut(key string, f *ssa.Function, fns []*ssa.Function, node func(l *LoopInfo, v ssa.Value) bool) {
	w := x.w
	isText := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Call)
		return ok && strings.HasSuffix(calleeName(c), "Node.GetJsonString")
	}
	text := func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		return ok && isText(c)
	}
	ls := w.loopsIn(fns, func(v ssa.Value) bool {
		return allOf(w.argsIn(v, fns, 0), func(a ssa.Value) bool { return a == ssa.Value(f.Params[0]) })
	}, text)
	x.r.Floor("loops over the states of "+key, len(ls), 1)
	for _, l := range ls {
		adds := func(in ssa.Instruction) bool {
			e, ok := listAppend(in, "string")
			if !ok {
				return false
			}
			c, ok := e.(*ssa.Call)
			return ok && isText(c) && node(l, c.Call.Args[0])
		}
		w.wholeLoop(x.r, key+"/states", l, adds, nil, x.failed)
		for b := range l.Body {
			for _, in := range b.Instrs {
				if adds(in) {
					bad, tr := (&Q{W: w, Goal: adds, Through: func(o ssa.Instruction) bool { return o.Block() == l.Head }, NoEnter: outside(fns)}).After(in)
					x.check(key+"/states/once", w.ipos(in), !bad, "a state is written twice", tr)
				}
			}
		}
	}
}

// failed: an error came back.
func (x *graphs) failed(e Edge) bool {
	return says(func(v ssa.Value) bool { return isErrType(v.Type()) }, isNil, token.NEQ)(e)
}

// flushed: what is added to the list is written before the list is emptied or the function ends well; the file that is
// written is among those told to the caller, and the next one has another name.
func (x *graphs) flushed(key, elem string, f *ssa.Function, fns []*ssa.Function) {
	w := x.w
	write := func(in ssa.Instruction) bool { c, _ := x.writes(in, elem); return c != nil }
	top := func(g *ssa.Function) bool { return true } // all of this is decided within the function that holds the list
	n, files := 0, 0
	for _, g := range fns {
		if !hasInstr(g, write) || !hasInstr(g, func(in ssa.Instruction) bool {
			_, ok := listAppend(in, elem)
			s, isS := in.(*ssa.Slice)
			return ok || isS && listOf(s.Type(), elem) || isCallGiving(in, elem)
		}) {
			continue
		}
		_ = top
		ofList := lenOf(func(v ssa.Value) bool { return listOf(v.Type(), elem) && !x.names(v) })
		empty := anyCut(says(ofList, isZero, token.EQL, token.LEQ), says(ofList, isConstInt(1), token.LSS))
		drops := func(in ssa.Instruction) bool {
			s, ok := in.(*ssa.Slice)
			if !ok || !listOf(s.Type(), elem) || x.names(s) {
				return false
			}
			if _, isA := s.X.(*ssa.Alloc); isA {
				return false
			}
			k, ok := s.High.(*ssa.Const)
			return ok && k.Int64() == 0
		}
		ends := func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
			if drops(in) {
				return true
			}
			rt, ok := in.(*ssa.Return)
			if !ok || rt.Parent() != g {
				return false
			}
			last := res(retVal(rt, len(rt.Results)-1))
			return !isErrType(last.Type()) || isNilConst(last)
		}
		instrs(g, func(in ssa.Instruction) {
			if e, ok := listAppend(in, elem); ok && !x.isName(e, fns) && !x.names(in.(ssa.Value)) {
				n++
				bad, tr := (&Q{W: w, Cut: empty, Through: write, GoalEnv: ends, NoEnter: outside(fns)}).After(in)
				x.check(key+"/written", w.ipos(in), !bad, "what is collected is dropped before it is written", tr)
			}
			c, name := x.writes(in, elem)
			if c == nil || name == nil {
				return
			}
			files++
			told := func(o ssa.Instruction) bool {
				e, ok := listAppend(o, "string")
				return ok && peelConv(e) == name
			}
			again := func(o ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
				if c2, _ := x.writes(o, elem); c2 != nil {
					return true
				}
				rt, ok := o.(*ssa.Return)
				if !ok || rt.Parent() != g {
					return false
				}
				last := res(retVal(rt, len(rt.Results)-1))
				return !isErrType(last.Type()) || isNilConst(last)
			}
			bad, tr := (&Q{W: w, Cut: x.failed, Through: told, GoalEnv: again, NoEnter: outside(fns)}).After(in)
			x.check(key+"/told", w.ipos(in), !bad, "a file that was written is not told", tr)
			if inLoop(in) {
				fresh := func(o ssa.Instruction) bool {
					s, ok := o.(*ssa.Call)
					if !ok || s.Type() == nil || !isString(s.Type()) || !inLoop(o) {
						return false
					}
					own := peelConv(name) == ssa.Value(s)
					for _, lf := range phiLeaves(name) {
						own = own || peelConv(lf) == ssa.Value(s)
					}
					if !own {
						return false
					}
					for _, a := range printArgs(s) {
						if ai, ok := a.(ssa.Instruction); ok && inLoop(ai) {
							return true
						}
					}
					return false
				}
				bad, tr := (&Q{W: w, Cut: x.failed, Through: fresh, Goal: write, NoEnter: outside(fns)}).After(in)
				x.check(key+"/named", w.ipos(in), !bad, "the next part is written over this one", tr)
			}
		})
	}
	x.r.Floor("places that collect what "+key+" writes", n, 1)
	x.r.Floor("places that write "+key, files, 1)
}

func isCallGiving(in ssa.Instruction, elem string) bool {
	c, ok := in.(*ssa.Call)
	return ok && c.Type() != nil && listOf(c.Type(), elem)
}

// names: a list of file names (it is not the list that is written).
func (x *graphs) names(v ssa.Value) bool {
	if !listOf(v.Type(), "string") {
		return false
	}
	seen := map[ssa.Value]bool{}
	var is func(v ssa.Value) bool
	is = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch y := v.(type) {
		case *ssa.Phi:
			for _, e := range y.Edges {
				if is(e) {
					return true
				}
			}
		case *ssa.Slice:
			return is(y.X)
		case *ssa.Call:
			if e, ok := listAppend(y, "string"); ok {
				return x.isName(e, nil) || is(y.Call.Args[0])
			}
		}
		return false
	}
	return is(v)
}

// isName: a file name (a text that is not the text of a state).
func (x *graphs) isName(v ssa.Value, fns []*ssa.Function) bool {
	if !isString(v.Type()) {
		return false
	}
	c, ok := v.(*ssa.Call)
	return !ok || !strings.HasSuffix(calleeName(c), "GetJsonString")
}

// linkFields: the exported link holds what its own link holds.
func (x *graphs) linkFields(key string, fns []*ssa.Function, link func(ssa.Value) bool, alloc map[ssa.Value]bool) {
	w := x.w
	own := func(f string) func(ssa.Value) bool {
		return func(v ssa.Value) bool { return x.of(v, fns, f, link) }
	}
	rules := map[string]func(ssa.Value) bool{
		"ReqId": own("ReqId"), "Labels": own("Labels"), "Messages": own("Messages"), "Type": own("Type"),
		"Name": func(v ssa.Value) bool { return x.stripped(v, own("Name")) },
		"Returns": func(v ssa.Value) bool {
			c, ok := v.(*ssa.Call)
			if !ok || len(c.Call.Args) != 1 || !own("Returns")(c.Call.Args[0]) || c.Call.StaticCallee() == nil {
				return false
			}
			x.returnsOut(c.Call.StaticCallee())
			return true
		},
	}
	for al := range alloc {
		for _, fld := range []string{"ReqId", "Labels", "Messages", "Type", "Name", "Returns"} {
			n := 0
			for _, g := range fns {
				instrs(g, func(in ssa.Instruction) {
					s := protoStore(in, "Link", fld)
					if s == nil {
						return
					}
					if _, base := fieldStore(in, "Link", fld); !x.isMade(base, al, fns) {
						return
					}
					n++
					x.check(key+"/"+fld, w.ipos(s), w.everyValue(s.Val, rules[fld], 0), "the exported link has another "+fld, nil)
				})
			}
			x.check(key+"/"+fld+"/set", w.Pos(al.Pos()), n > 0, "the exported link lacks its "+fld, nil)
		}
	}
}

// returnsOut: the returned values in a fixed order, each under its own name.
func (x *graphs) returnsOut(f *ssa.Function) {
	w := x.w
	if len(f.Params) != 1 {
		return
	}
	fns := w.group(f)
	p := func(v ssa.Value) bool { return peelConv(v) == ssa.Value(f.Params[0]) }
	adds := func(in ssa.Instruction) bool {
		e, ok := listAppend(in, "NameValue")
		return ok && e != nil
	}
	sets := func(in ssa.Instruction) bool { return protoStore(in, "NameValue", "Value") != nil }
	ls := w.loopsIn(fns, func(v ssa.Value) bool {
		return p(v) || x.keyList(v, p) || isSortedKeys(v, p)
	}, sets)
	x.r.Floor("loops over the returned values", len(ls), 1)
	for _, l := range ls {
		_, isMap := peelConv(l.Over).Type().Underlying().(*types.Map)
		x.check("returns/order", w.ipos(firstNonPhi(l.Head)), !isMap, "the order of the returned values changes from run to run", nil)
		if !isMap {
			sorted := isSortedKeys(l.Over, p)
			instrs(l.Fn, func(in ssa.Instruction) {
				if c, ok := in.(*ssa.Call); ok && reMatch(`sort\.(Strings|Slice.*|Sort)|slices\.Sort.*`, calleeName(c)) {
					sorted = true
				}
			})
			x.check("returns/sorted", w.ipos(firstNonPhi(l.Head)), sorted, "the returned values are not in a fixed order", nil)
		}
		w.wholeLoop(x.r, "returns", l, adds, nil, nil)
		for _, k := range w.loopsIn(fns, p, nil) {
			if k.Head != l.Head {
				w.wholeLoop(x.r, "returns/names", k, func(in ssa.Instruction) bool {
					e, ok := listAppend(in, "string")
					return ok && x.entry(k, e) == 1
				}, nil, nil)
			}
		}
		for _, g := range fns {
			instrs(g, func(in ssa.Instruction) {
				if s := protoStore(in, "NameValue", "Name"); s != nil {
					x.check("returns/name", w.ipos(in), w.everyValue(s.Val, func(v ssa.Value) bool { return x.entry(l, v) == 1 }, 0), "a returned value is told under another name", nil)
				}
				if s := protoStore(in, "NameValue", "Value"); s != nil {
					ok := w.everyValue(s.Val, func(v ssa.Value) bool {
						return x.textOf(v, func(u ssa.Value) bool {
							k, is := u.(*ssa.Lookup)
							return x.entry(l, u) == 2 || is && p(k.X) && x.entry(l, k.Index) == 1
						})
					}, 0)
					x.check("returns/value", w.ipos(in), ok, "another value is told", nil)
				}
			})
		}
	}
}

// isSortedKeys: slices.Sorted(maps.Keys(m)) or m.Keys().
func isSortedKeys(v ssa.Value, p func(ssa.Value) bool) bool {
	c, ok := peelConv(v).(*ssa.Call)
	if !ok {
		return false
	}
	n := calleeName(c)
	if strings.HasSuffix(n, "StringDict.Keys") {
		return p(c.Call.Args[0])
	}
	if strings.HasPrefix(n, "slices.Sorted") {
		k, ok := peelConv(c.Call.Args[0]).(*ssa.Call)
		return ok && strings.HasPrefix(calleeName(k), "maps.Keys") && p(k.Call.Args[0])
	}
	return false
}

// protoLinks: the exported links made by an iteration.
func (x *graphs) protoLinks(l *LoopInfo, fns []*ssa.Function, in func(*ssa.Alloc) bool) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	for _, g := range fns {
		instrs(g, func(i ssa.Instruction) {
			a, ok := i.(*ssa.Alloc)
			if ok && strings.HasSuffix(deref(a.Type()).String(), "/proto.Link") && in(a) {
				out[a] = true
			}
		})
	}
	return out
}

// made: the link put into the list (made here or by a helper).
func (x *graphs) made(v ssa.Value, fns []*ssa.Function) []*ssa.Alloc {
	var out []*ssa.Alloc
	for _, l := range phiLeaves(v) {
		switch y := peelConv(l).(type) {
		case *ssa.Alloc:
			out = append(out, y)
		case *ssa.Call:
			if t := y.Call.StaticCallee(); t != nil && memberOf(fns, t) {
				instrs(t, func(in ssa.Instruction) {
					if rt, ok := in.(*ssa.Return); ok && len(rt.Results) == 1 {
						out = append(out, x.made(retVal(rt, 0), fns)...)
					}
				})
			}
		}
	}
	return out
}

// isMade: the value is that link.
func (x *graphs) isMade(v, al ssa.Value, fns []*ssa.Function) bool {
	if v == al {
		return true
	}
	if _, ok := v.(*ssa.Call); !ok {
		return false
	}
	for _, a := range x.made(v, fns) {
		if ssa.Value(a) == al {
			return true
		}
	}
	return false
}

func (x *graphs) export() {
	w := x.w
	f := x.fn("modelchecker.GenerateProtoOfJson")
	if f == nil {
		return
	}
	fns := x.goes(f)
	x.nodesOut("nodes", f, fns, func(l *LoopInfo, v ssa.Value) bool { return allOf(w.argsIn(v, fns, 0), l.has) })
	x.flushed("nodes", "string", f, fns)
	x.flushed("links", "proto.Link", f, fns)
	isList := func(v ssa.Value) bool {
		return allOf(w.argsIn(v, fns, 0), func(a ssa.Value) bool { return a == ssa.Value(f.Params[0]) })
	}
	adds := func(in ssa.Instruction) bool { _, ok := listAppend(in, "proto.Link"); return ok }
	outer := w.loopsIn(fns, isList, adds)
	x.r.Floor("loops over the states for their links", len(outer), 1)
	for _, o := range outer {
		isNode := func(v ssa.Value) bool { return allOf(w.argsIn(v, fns, 0), o.has) }
		isOut := func(v ssa.Value) bool { return x.of(v, fns, "Outbound", isNode) }
		inner := w.loopsIn(fns, isOut, adds)
		x.r.Floor("loops over the links of a state", len(inner), 1)
		bad, tr := (&Q{W: w, Through: adds, Cut: anyCut(filledEdge(isOut), x.failed), Goal: func(in ssa.Instruction) bool { return in.Block() == o.Head }, NoEnter: outside(fns)}).from(o.Fn, point{b: o.entry()})
		x.check("links/end", w.ipos(firstNonPhi(o.Head)), !bad, "a state without links gets none", tr)
		bad, tr = w.leavesEarly(o, x.failed)
		x.check("links/states/all", w.ipos(firstNonPhi(o.Head)), !bad, "the loop is left before the last state", tr)
		p := w.partial(o)
		x.check("links/states/whole", w.ipos(firstNonPhi(o.Head)), p == "", p, nil)
		goesIn := func(in ssa.Instruction) bool { return w.inLoopHead(inner, in) }
		bad, tr = w.iterationSkips(o, goesIn, anyCut(emptyEdge(isOut), x.failed), nil)
		x.check("links/each-state", w.ipos(firstNonPhi(o.Head)), !bad, "the links of a state are not gone through", tr)
		// the place of the state
		isPlace := func(idx *LoopInfo) func(ssa.Value) bool {
			return func(v ssa.Value) bool { return allOf(w.argsIn(v, fns, 0), idx.isIndex) }
		}
		place := func(node func(ssa.Value) bool) func(ssa.Value) bool {
			return func(v ssa.Value) bool {
				k, ok := peelConv(v).(*ssa.Lookup)
				if !ok {
					return false
				}
				return allOf(w.argsIn(k.X, fns, 0), func(m ssa.Value) bool { return x.places(m, f, fns) }) && allOf(w.argsIn(k.Index, fns, 0), node)
			}
		}
		for _, l := range inner {
			w.wholeLoop(x.r, "links", l, adds, nil, x.failed)
			ownLink := func(v ssa.Value) bool { return l.has(v) }
			alloc := map[ssa.Value]bool{}
			for _, g := range fns {
				instrs(g, func(in ssa.Instruction) {
					e, ok := listAppend(in, "proto.Link")
					if !ok {
						return
					}
					if g == l.Fn && !l.Body[in.Block()] {
						// a state without links
						for _, a := range x.made(e, fns) {
							x.ends("links/end", fns, a, isPlace(o), place(isNode))
						}
						return
					}
					for _, a := range x.made(e, fns) {
						alloc[a] = true
					}
					bad, tr := (&Q{W: w, Goal: adds, Through: func(q ssa.Instruction) bool { return q.Block() == l.Head }, NoEnter: outside(fns)}).After(in)
					x.check("links/once", w.ipos(in), !bad, "a link is written twice", tr)
				})
			}
			x.r.Floor("links made for those of a state", len(alloc), 1)
			x.linkFields("links", fns, ownLink, alloc)
			for a := range alloc {
				x.protoField("links/Src", fns, a, "Src", func(v ssa.Value) bool { return isPlace(o)(v) || place(isNode)(v) })
				x.protoField("links/Dest", fns, a, "Dest", func(v ssa.Value) bool {
					vs := w.argsIn(v, fns, 0)
					return allOf(vs, place(func(n ssa.Value) bool { return x.of(n, fns, "Node", ownLink) }))
				})
				x.protoField("links/NewToOldThreads", fns, a, "NewToOldThreads", func(v ssa.Value) bool {
					m, ok := v.(*ssa.MakeMap)
					if c, isC := v.(*ssa.Call); isC && c.Call.StaticCallee() != nil && memberOf(fns, c.Call.StaticCallee()) {
						instrs(c.Call.StaticCallee(), func(in ssa.Instruction) {
							if rt, isR := in.(*ssa.Return); isR && len(rt.Results) == 1 {
								m, ok = retVal(rt, 0).(*ssa.MakeMap)
							}
						})
					}
					if !ok {
						return false
					}
					x.copies("links/threads", fns, m, func(v ssa.Value) bool { return x.of(v, fns, "ThreadsMap", ownLink) })
					return true
				})
				x.protoField("links/Weight", fns, a, "Weight", func(v ssa.Value) bool {
					return allOf(w.argsIn(v, fns, 0), func(v ssa.Value) bool {
						b, ok := v.(*ssa.BinOp)
						if !ok || b.Op != token.QUO {
							return false
						}
						c, ok := b.X.(*ssa.Const)
						return ok && c.Float64() == 1 && allOf(w.argsIn(peelConv(b.Y), fns, 0), lenOf(isOut))
					})
				})
			}
		}
	}
	// every file tells how many states there are
	n := 0
	for _, g := range fns {
		instrs(g, func(in ssa.Instruction) {
			if s := protoStore(in, "Links", "TotalNodes"); s != nil {
				n++
				x.check("links/total", w.ipos(in), w.everyValue(peelConv(s.Val), func(v ssa.Value) bool { return lenOf(isList)(peelConv(v)) }, 0), "another number of states is told", nil)
			}
		})
	}
	x.r.Floor("places that tell the number of states", n, 1)
}

// protoField: the field of this exported link is always such a value.
func (x *graphs) protoField(key string, fns []*ssa.Function, al ssa.Value, fld string, ok func(ssa.Value) bool) {
	n := 0
	for _, g := range fns {
		instrs(g, func(in ssa.Instruction) {
			s := protoStore(in, "Link", fld)
			if s == nil {
				return
			}
			if _, base := fieldStore(in, "Link", fld); !x.isMade(base, al, fns) {
				return
			}
			n++
			x.check(key, x.w.ipos(s), ok(peelConv(s.Val)) || x.w.everyValue(peelConv(s.Val), func(v ssa.Value) bool { return ok(peelConv(v)) }, 0), "the exported link has another "+fld, nil)
		})
	}
	x.check(key+"/set", x.w.Pos(al.Pos()), n > 0, "the exported link lacks its "+fld, nil)
}

// ends: the link of a state without links leads to itself.
func (x *graphs) ends(key string, fns []*ssa.Function, a *ssa.Alloc, at, look func(ssa.Value) bool) {
	self := func(v ssa.Value) bool { return at(v) || look(v) }
	x.protoField(key+"/Src", fns, a, "Src", self)
	x.protoField(key+"/Dest", fns, a, "Dest", self)
}

// places: the map that knows the place of each state in the list.
func (x *graphs) places(m ssa.Value, f *ssa.Function, fns []*ssa.Function) bool {
	w := x.w
	mk, ok := peelConv(m).(*ssa.MakeMap)
	if !ok {
		return false
	}
	n, good := 0, true
	isList := func(v ssa.Value) bool {
		return allOf(w.argsIn(v, fns, 0), func(a ssa.Value) bool { return a == ssa.Value(f.Params[0]) })
	}
	put := func(in ssa.Instruction) bool {
		mu, ok := in.(*ssa.MapUpdate)
		return ok && allOf(w.argsIn(mu.Map, fns, 0), func(a ssa.Value) bool { return a == ssa.Value(mk) })
	}
	for _, l := range w.loopsIn(fns, isList, put) {
		own := func(in ssa.Instruction) bool {
			mu, ok := in.(*ssa.MapUpdate)
			return ok && put(in) && allOf(w.argsIn(mu.Key, fns, 0), l.has) && allOf(w.argsIn(mu.Value, fns, 0), l.isIndex)
		}
		n++
		if bad, _ := w.iterationSkips(l, own, nil); bad {
			good = false
		}
		if bad, _ := w.leavesEarly(l, x.failed); bad || w.partial(l) != "" {
			good = false
		}
		for _, g := range fns {
			instrs(g, func(in ssa.Instruction) { good = good && (!put(in) || own(in)) })
		}
	}
	return n == 1 && good
}

// errorPath: the steps of a failure.
func (x *graphs) errorPath() {
	w := x.w
	f := x.fn("modelchecker.GenerateErrorPathProtoOfJson")
	if f == nil {
		return
	}
	fns := x.goes(f)
	x.nodesOut("path", f, fns, func(l *LoopInfo, v ssa.Value) bool { return x.of(v, fns, "Node", l.has) })
	x.flushed("path", "string", f, fns)
	x.flushed("steps", "proto.Link", f, fns)
	adds := func(in ssa.Instruction) bool { _, ok := listAppend(in, "proto.Link"); return ok }
	isList := func(v ssa.Value) bool {
		return allOf(w.argsIn(v, fns, 0), func(a ssa.Value) bool { return a == ssa.Value(f.Params[0]) })
	}
	low := func(v ssa.Value) (int64, bool) {
		if isList(v) {
			return 0, true
		}
		s, ok := peelConv(v).(*ssa.Slice)
		if !ok || s.High != nil || !isList(s.X) {
			return 0, false
		}
		k, ok := s.Low.(*ssa.Const)
		return k.Int64(), ok
	}
	ls := w.loopsIn(fns, func(v ssa.Value) bool { _, ok := low(v); return ok }, adds)
	x.r.Floor("loops over the steps of a failure", len(ls), 1)
	for _, l := range ls {
		off, _ := low(l.Over)
		first := says(l.isIndex, isZero, token.EQL)
		skip := first
		if off > 0 {
			skip = nil
		}
		bad, tr := w.iterationSkips(l, adds, skip)
		x.check("steps/each", w.ipos(firstNonPhi(l.Head)), !bad, "a step is left out", tr)
		bad, tr = w.leavesEarly(l, x.failed)
		x.check("steps/all", w.ipos(firstNonPhi(l.Head)), !bad, "the last steps are left out", tr)
		st := l.startsAt()
		x.check("steps/whole", w.ipos(firstNonPhi(l.Head)), (st == -1 || st == 0 || st == 1 && off == 0) && off <= 1, "the first steps are left out", nil)
		alloc := map[ssa.Value]bool{}
		for _, g := range fns {
			instrs(g, func(in ssa.Instruction) {
				if e, ok := listAppend(in, "proto.Link"); ok {
					for _, a := range x.made(e, fns) {
						alloc[a] = true
					}
				}
			})
		}
		x.r.Floor("steps made", len(alloc), 1)
		x.linkFields("steps", fns, func(v ssa.Value) bool { return l.has(v) }, alloc)
		name := func(v ssa.Value) string {
			if l.isIndex(v) {
				return "i"
			}
			return ""
		}
		at := func(d int64) func(ssa.Value) bool {
			return func(v ssa.Value) bool {
				return allOf(w.argsIn(v, fns, 0), func(a ssa.Value) bool {
					got := linear(a, name)
					return got != nil && got["i"] == 1 && got[""] == off+d && len(got) <= 2
				})
			}
		}
		for a := range alloc {
			x.protoField("steps/Src", fns, a, "Src", at(-1))
			x.protoField("steps/Dest", fns, a, "Dest", at(0))
		}
	}
}

// red: the text is red exactly on the paths on which the call says that something failed.
func (x *graphs) red(key string, l *LoopInfo, fns []*ssa.Function, prints func(ssa.Instruction) bool, fails func(ssa.Value) bool) {
	w := x.w
	yes := func(e Edge) bool { return e.Taken && fails(e.Cond) }
	no := func(e Edge) bool { return !e.Taken && fails(e.Cond) }
	asks := 0
	for _, g := range fns {
		instrs(g, func(in ssa.Instruction) {
			if v, ok := in.(ssa.Value); ok && fails(v) {
				asks++
			}
		})
	}
	x.r.Floor("places that ask whether "+key+" failed", asks, 1)
	helpers := map[*ssa.Function]bool{} // the color is found by a helper
	for _, g := range fns {
		instrs(g, func(in ssa.Instruction) {
			if !prints(in) {
				return
			}
			for _, a := range printArgs(in.(ssa.CallInstruction)) {
				for _, lf := range phiLeaves(a) {
					if c, ok := peelMI(lf).(*ssa.Call); ok && c.Call.StaticCallee() != nil && memberOf(fns, c.Call.StaticCallee()) && isString(c.Type()) {
						instrs(c.Call.StaticCallee(), func(in ssa.Instruction) {
							if rt, ok := in.(*ssa.Return); ok {
								for _, v := range phiLeaves(retVal(rt, 0)) {
									if s, ok := constStr(v); ok && s == "red" {
										helpers[rt.Parent()] = true
									}
								}
							}
						})
					}
				}
			}
		})
	}
	for h := range helpers {
		h := h
		q := func(cut func(Edge) bool, want bool) (bool, []string) {
			return (&Q{W: w, Cut: cut, GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
				rt, ok := in.(*ssa.Return)
				if !ok || rt.Parent() != h {
					return false
				}
				s, ok := constStr(res(retVal(rt, 0)))
				return (ok && s == "red") == want
			}, Track: func(p *ssa.Phi) bool { return p.Parent() == h && isString(p.Type()) }, NoEnter: outside(fns)}).Entry(h)
		}
		bad, tr := q(yes, true)
		x.check(key+"/red-only", w.Pos(h.Pos()), !bad, "it is drawn as a failure without one", tr)
		bad, tr = q(no, false)
		x.check(key+"/red", w.Pos(h.Pos()), !bad, "a failure is not drawn as one", tr)
	}
	color := func(want bool) func(ssa.Instruction, func(ssa.Value) ssa.Value) bool {
		return func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
			if !prints(in) {
				return false
			}
			isRed := false
			for _, a := range printArgs(in.(ssa.CallInstruction)) {
				if s, ok := constStr(res(a)); ok && s == "red" {
					isRed = true
				}
				if c, ok := peelMI(res(a)).(*ssa.Call); ok && helpers[c.Call.StaticCallee()] {
					return false // decided in the helper
				}
			}
			return isRed == want
		}
	}
	for _, g := range fns {
		if !hasInstr(g, prints) {
			continue
		}
		track := func(p *ssa.Phi) bool { return p.Parent() == g && isString(p.Type()) }
		start := firstNonPhi(g.Blocks[0])
		if l != nil && l.Fn == g {
			start = firstNonPhi(l.entry())
		}
		through := func(in ssa.Instruction) bool { return l != nil && in.Block() == l.Head }
		q := func(cut func(Edge) bool, want bool) (bool, []string) {
			return (&Q{W: w, Cut: cut, Through: through, GoalEnv: color(want), Track: track, NoEnter: outside(fns)}).from(g, point{b: start.Block()})
		}
		bad, tr := q(yes, true)
		x.check(key+"/red-only", w.ipos(start), !bad, "it is drawn as a failure without one", tr)
		bad, tr = q(no, false)
		x.check(key+"/red", w.ipos(start), !bad, "a failure is not drawn as one", tr)
	}
}

func hasText(c ssa.CallInstruction, s string) bool {
	for _, t := range texts(c) {
		if strings.Contains(t, s) {
			return true
		}
	}
	return false
}

// draws: a line of the picture for a link (it has an arrow) or for a state.
func draws(in ssa.Instruction, link bool) bool {
	c, ok := in.(*ssa.Call)
	return ok && reMatch(`fmt\.(Sprintf|Fprintf|Appendf)`, calleeName(c)) && hasText(c, "label=") && hasText(c, "%") && hasText(c, "color=") && hasText(c, "->") == link
}

func (x *graphs) dot() {
	w := x.w
	f := x.fn("modelchecker.GenerateDotFile")
	if f == nil {
		return
	}
	fns := x.goes(f)
	edge := func(in ssa.Instruction) bool { return draws(in, true) }
	node := func(in ssa.Instruction) bool { return draws(in, false) }
	isOut := func(v ssa.Value) bool {
		u, ok := peelConv(v).(*ssa.UnOp)
		if !ok {
			return false
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		return ok && fieldName(fa.X.Type(), fa.Field) == "Outbound"
	}
	ls := w.loopsIn(fns, isOut, edge)
	x.r.Floor("loops over the links of a drawn state", len(ls), 1)
	for _, l := range ls {
		link := func(v ssa.Value) bool { return allOf(w.argsIn(v, fns, 0), l.has) }
		off := func(e Edge) bool {
			return !e.Taken && strings.HasSuffix(w.plain(e.Cond), ".Enabled") || says(func(v ssa.Value) bool { return strings.HasSuffix(w.plain(v), ".Enabled") }, isFalseConst, token.EQL)(e)
		}
		w.wholeLoop(x.r, "dot/links", l, edge, off, nil)
		goesOn := func(in ssa.Instruction) bool {
			c, ok := in.(*ssa.Call)
			if !ok || len(c.Call.Args) == 0 || c.Call.IsInvoke() {
				return false
			}
			for _, a := range c.Call.Args {
				if x.of(a, fns, "Node", link) && x.draw(c, fns, l.Fn) {
					return true
				}
			}
			return false
		}
		bad, tr := w.iterationSkips(l, goesOn, off)
		x.check("dot/states", w.ipos(firstNonPhi(l.Head)), !bad, "a state that a link leads to is not drawn", tr)
		for _, g := range fns {
			instrs(g, func(in ssa.Instruction) {
				if !edge(in) {
					return
				}
				as := nonConst(printArgs(in.(ssa.CallInstruction)))
				ok := len(as) >= 3
				if ok {
					own := func(v ssa.Value) bool { return isNodeParam(v) }
					ok = x.mentions(as[0], fns, own, 0) && x.mentions(as[1], fns, func(v ssa.Value) bool { return x.of(v, fns, "Node", link) }, 0)
				}
				x.check("dot/links/from-to", w.ipos(in), ok, "the link is drawn between other states", nil)
				name := false
				for _, a := range as {
					name = name || x.mentions(a, fns, func(v ssa.Value) bool { return x.of(v, fns, "Name", link) }, 0)
				}
				x.check("dot/links/name", w.ipos(in), name, "the link is drawn without its name", nil)
			})
		}
		x.red("dot/links", l, fns, edge, func(v ssa.Value) bool {
			c, ok := v.(*ssa.Call)
			return ok && strings.HasSuffix(calleeName(c), "Link.HasFailedInvariants") && link(c.Call.Args[0])
		})
		// the state itself
		g := l.Fn
		seen := func(e Edge) bool {
			k, ok := e.Cond.(*ssa.Lookup)
			return e.Taken && ok && isNodeParam(k.Index)
		}
		bad, tr = (&Q{W: w, Cut: anyCut(seen, off), Through: node, Goal: func(in ssa.Instruction) bool { _, ok := in.(*ssa.Return); return ok && in.Parent() == g }, NoEnter: outside(without(fns, g))}).Entry(g)
		x.check("dot/drawn", w.Pos(g.Pos()), !bad, "a state is not drawn", tr)
	}
	x.red("dot/states", nil, fns, node, func(v ssa.Value) bool {
		c, ok := v.(*ssa.Call)
		return ok && strings.HasSuffix(calleeName(c), "Process.HasFailedInvariants")
	})
}

func without(fns []*ssa.Function, g *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range fns {
		if f != g {
			out = append(out, f)
		}
	}
	return out
}

func nonConst(vs []ssa.Value) (out []ssa.Value) {
	for _, v := range vs {
		if _, ok := peelMI(v).(*ssa.Const); !ok {
			out = append(out, v)
		}
	}
	return
}

func isNodeParam(v ssa.Value) bool {
	p, ok := peelMI(peelConv(v)).(*ssa.Parameter)
	return ok && namedName(p.Type()) == "Node"
}

// draw: the call draws a state (the function itself, possibly through the cell of the closure).
func (x *graphs) draw(c *ssa.Call, fns []*ssa.Function, g *ssa.Function) bool {
	t := c.Call.StaticCallee()
	if t == nil {
		for _, v := range x.w.captured(c.Call.Value) {
			if m, ok := v.(*ssa.MakeClosure); ok {
				t, _ = m.Fn.(*ssa.Function)
			}
		}
	}
	if t == nil {
		return false
	}
	return t == g || memberOf(fns, t) && hasInstr(t, func(in ssa.Instruction) bool {
		d, ok := in.(*ssa.Call)
		return ok && d != c && (d.Call.StaticCallee() == g)
	})
}

// failureDot: the picture of a failing path.
func (x *graphs) failureDot() {
	w := x.w
	f := x.fn("modelchecker.GenerateFailurePath")
	if f == nil {
		return
	}
	fns := x.goes(f)
	edge := func(in ssa.Instruction) bool { return draws(in, true) }
	node := func(in ssa.Instruction) bool { return draws(in, false) }
	ls := w.loopsIn(fns, func(v ssa.Value) bool {
		return allOf(w.argsIn(v, fns, 0), func(a ssa.Value) bool { return a == ssa.Value(f.Params[0]) })
	}, edge)
	x.r.Floor("loops over a failing path", len(ls), 1)
	for _, l := range ls {
		link := func(v ssa.Value) bool { return allOf(w.argsIn(v, fns, 0), l.has) }
		isNode := func(v ssa.Value) bool { return x.of(v, fns, "Node", link) }
		known := func(e Edge) bool { // drawn already
			a, op, b, ok := relOf(e)
			if !ok {
				return false
			}
			is := func(v ssa.Value) bool { k, ok := v.(*ssa.Lookup); return ok && isNode(k.Index) }
			k, isK := e.Cond.(*ssa.Extract)
			if isK {
				lk, isL := k.Tuple.(*ssa.Lookup)
				return e.Taken && isL && isNode(lk.Index)
			}
			return op == token.NEQ && (is(a) || is(b))
		}
		w.wholeLoop(x.r, "failure/states", l, node, known, nil)
		first := func(e Edge) bool {
			a, op, b, ok := relOf(e)
			if !ok {
				return false
			}
			isPhi := func(v ssa.Value) bool { p, ok := v.(*ssa.Phi); return ok && p.Block() == l.Head }
			s, isS := constStr(b)
			return op == token.EQL && isPhi(a) && isS && s == "" || op == token.EQL && l.isIndex(a) && isZero(b) || op == token.LEQ && l.isIndex(a) && isZero(b)
		}
		bad, tr := w.iterationSkips(l, edge, first)
		x.check("failure/links", w.ipos(firstNonPhi(l.Head)), !bad, "a step is not drawn", tr)
		for _, g := range fns {
			instrs(g, func(in ssa.Instruction) {
				if !edge(in) {
					return
				}
				as := nonConst(printArgs(in.(ssa.CallInstruction)))
				name := false
				for _, a := range as {
					name = name || x.mentions(a, fns, func(v ssa.Value) bool { return x.of(v, fns, "Name", link) }, 0)
				}
				x.check("failure/links/name", w.ipos(in), name, "the step is drawn without its name", nil)
			})
			instrs(g, func(in ssa.Instruction) {
				if !node(in) {
					return
				}
				text := false
				for _, a := range printArgs(in.(ssa.CallInstruction)) {
					text = text || x.mentions(a, fns, func(v ssa.Value) bool {
						c, ok := v.(*ssa.Call)
						return ok && strings.HasSuffix(calleeName(c), "Node.String") && isNode(c.Call.Args[0])
					}, 0)
				}
				x.check("failure/states/text", w.ipos(in), text, "the state is drawn without its text", nil)
			})
		}
		x.red("failure/links", l, fns, edge, func(v ssa.Value) bool {
			c, ok := v.(*ssa.Call)
			return ok && strings.HasSuffix(calleeName(c), "Link.HasFailedInvariants") && link(c.Call.Args[0])
		})
		x.red("failure/states", l, fns, node, func(v ssa.Value) bool {
			c, ok := v.(*ssa.Call)
			return ok && strings.HasSuffix(calleeName(c), "Process.HasFailedInvariants")
		})
	}
}

// failureText: what is printed of a failing path.
func (x *graphs) failureText() {
	w := x.w
	f := x.fn("main.GenerateFailurePath")
	if f == nil {
		return
	}
	fns := x.goes(f)
	var path *ssa.Parameter
	for _, p := range f.Params {
		if listOf(p.Type(), "modelchecker.Link") {
			path = p
		}
	}
	if path == nil {
		x.r.Undecided("failure/path", w.Pos(f.Pos()), "the path was not found")
		return
	}
	isPath := func(v ssa.Value) bool {
		return allOf(w.argsIn(v, fns, 0), func(a ssa.Value) bool { return a == ssa.Value(path) })
	}
	said := func(p func(ssa.Value) bool) func(ssa.Instruction) bool {
		return func(in ssa.Instruction) bool {
			c, ok := in.(*ssa.Call)
			if !ok || !reMatch(`fmt\.(Print|Fprint).*`, calleeName(c)) {
				return false
			}
			for _, a := range printArgs(c) {
				if x.mentions(a, fns, p, 0) {
					return true
				}
			}
			return false
		}
	}
	ls := w.loopsIn(fns, isPath, func(in ssa.Instruction) bool { return isPrint(in) })
	x.r.Floor("loops that print a failing path", len(ls), 1)
	for _, l := range ls {
		link := func(v ssa.Value) bool { return allOf(w.argsIn(v, fns, 0), l.has) }
		isNode := func(v ssa.Value) bool { return x.of(v, fns, "Node", link) }
		proc := func(v ssa.Value) bool {
			return isNode(v) || x.of(v, fns, "Process", isNode)
		}
		w.wholeLoop(x.r, "text/steps", l, said(func(v ssa.Value) bool { return x.of(v, fns, "Name", link) }), nil, nil)
		bad, tr := w.iterationSkips(l, said(func(v ssa.Value) bool { return x.of(v, fns, "Heap", proc) }), nil)
		x.check("text/state", w.ipos(firstNonPhi(l.Head)), !bad, "a state is not printed", tr)
		returns := func(v ssa.Value) bool { return x.of(v, fns, "Returns", proc) }
		bad, tr = w.iterationSkips(l, said(returns), emptyEdge(returns))
		x.check("text/returns", w.ipos(firstNonPhi(l.Head)), !bad, "the returned values are not printed", tr)
		roles := func(v ssa.Value) bool { return x.of(v, fns, "Roles", proc) }
		rs := w.loopsIn(fns, roles, isPrint)
		x.r.Floor("loops that print the roles of a state", len(rs), 1)
		for _, rl := range rs {
			role := func(v ssa.Value) bool { return allOf(w.argsIn(v, fns, 0), rl.has) }
			w.wholeLoop(x.r, "text/roles", rl, said(func(v ssa.Value) bool { return x.of(v, fns, "Fields", role) }), nil, nil)
		}
		bad, tr = w.iterationSkips(l, func(in ssa.Instruction) bool { return w.inLoopHead(rs, in) }, emptyEdge(roles))
		x.check("text/roles", w.ipos(firstNonPhi(l.Head)), !bad, "the roles are not printed", tr)
	}
}

// stateJSON: the JSON text of a state.
func (x *graphs) stateJSON() {
	w := x.w
	f := x.fn("modelchecker.Process.MarshalJSON")
	if f != nil {
		fns := w.group(f)
		me := func(v ssa.Value) bool { return v == ssa.Value(f.Params[0]) }
		field := func(n string) func(ssa.Value) bool {
			return func(v ssa.Value) bool { return x.of(peelMI(v), fns, n, me) }
		}
		parts := []struct {
			key, part string
		}{{"state", "Heap"}, {"current", "Current"}, {"name", "Name"}, {"failedInvariants", "FailedInvariants"}, {"stats", "Stats"}, {"witness", "Witness"}, {"roles", "Roles"}, {"channels", "Channels"}, {"channel_messages", "ChannelMessages"}, {"threads", ""}, {"returns", "Returns"}}
		for _, p := range parts {
			p := p
			val := field(p.part)
			switch p.key {
			case "threads":
				val = func(v ssa.Value) bool {
					c, ok := peelMI(v).(*ssa.Call)
					return ok && strings.HasSuffix(calleeName(c), "Process.GetThreads") && allOf(w.argsIn(c.Call.Args[0], fns, 0), me)
				}
			case "returns":
				val = func(v ssa.Value) bool {
					c, ok := peelMI(v).(*ssa.Call)
					return ok && len(c.Call.Args) == 1 && field("Returns")(c.Call.Args[0])
				}
			}
			put := func(in ssa.Instruction) bool {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok {
					return false
				}
				s, ok := constStr(mu.Key)
				return ok && s == p.key
			}
			var cut func(Edge) bool
			if p.key == "returns" {
				cut = w.isTrue(`excludeReturnsFromState`)
			}
			w.must(x.r, step{Key: "state/" + p.key, Why: "the text of a state lacks it", Fn: f, NoEnter: w.onlyHelpers(f), Cut: cut, Through: put, Goal: isReturnOf(f)})
			for _, g := range fns {
				instrs(g, func(in ssa.Instruction) {
					if put(in) {
						x.check("state/"+p.key+"/of", w.ipos(in), w.everyValue(in.(*ssa.MapUpdate).Value, val, 0), "it is another part of the state", nil)
					}
				})
			}
		}
	}
	for _, n := range []string{"modelchecker.Node.GetJsonString", "modelchecker.Node.MarshalJSON"} {
		f := x.fn(n)
		if f == nil {
			continue
		}
		fns := w.group(f)
		good := func(in ssa.Instruction) bool {
			c, ok := in.(*ssa.Call)
			if !ok || !strings.HasSuffix(calleeName(c), "MarshalJSON") {
				return false
			}
			a := peelMI(c.Call.Args[0])
			return x.of(a, fns, "Process", func(v ssa.Value) bool { return v == ssa.Value(f.Params[0]) })
		}
		w.must(x.r, step{Key: "state/" + shortFn(f), Why: "the text of a state is not that of its process", Fn: f, NoEnter: w.onlyHelpers(f), Through: good, Goal: isReturnOf(f)})
	}
}

func memberOf(fns []*ssa.Function, f *ssa.Function) bool {
	for _, g := range fns {
		if g == f {
			return true
		}
	}
	return false
}

// enumValue: the constant is that named value of its type.
func enumValue(c *ssa.Const, name string) bool {
	n, ok := c.Type().(*types.Named)
	if !ok || n.Obj().Pkg() == nil || c.Value == nil {
		return false
	}
	k, ok := n.Obj().Pkg().Scope().Lookup(name).(*types.Const)
	return ok && constant.Compare(k.Val(), token.EQL, c.Value)
}
