package main

import (
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("S02", ruleBranchIsolation)
	register("S03", ruleValueKinds)
}

type copyReq struct {
	fn, typ string
	fields  []string        // must be copied or cloned on every path
	fresh   []string        // the copy must not share the storage of the original's field
	nilOK   []string        // fields that may stay unset when the original's is nil
	shallow map[string]bool // containers whose elements may be shared
}

var copyReqs = []copyReq{
	{"modelchecker.Process.Fork", "Process",
		[]string{"Name", "Heap", "Current", "Evaluator", "durabilitySpec", "guidedTrace", "Files", "SymbolTable", "Modules", "Stats", "Threads", "Roles", "ChannelMessages", "RotationalLastAllocated"},
		[]string{"Heap", "Threads", "Roles", "ChannelMessages", "Stats", "Returns", "RotationalLastAllocated", "Labels", "Messages", "Children"}, []string{"RotationalLastAllocated"}, nil},
	{"modelchecker.Process.CloneWithRefs", "Process",
		[]string{"Name", "Heap", "Current", "Evaluator", "durabilitySpec", "guidedTrace", "Files", "SymbolTable", "Modules", "Stats", "Threads", "Roles", "ChannelMessages", "Returns"},
		[]string{"Heap", "Threads", "Roles", "ChannelMessages", "Stats", "Returns", "Labels", "Messages", "Children"}, nil, map[string]bool{"Returns": true}},
	{"modelchecker.Thread.Clone", "Thread", []string{"Id", "Files", "Stack", "Fairness"}, []string{"Stack"}, nil, nil},
	{"modelchecker.CallFrame.Clone", "CallFrame", []string{"FileIndex", "pc", "Name", "scope", "vars", "callerAssignVarNames", "obj"}, []string{"scope", "vars", "obj"}, nil, nil},
	{"modelchecker.Scope.Clone", "Scope", []string{"parent", "flow", "skipstmts", "loopVars", "loopRange"}, []string{"parent", "vars", "skipstmts", "loopRange"}, []string{"loopRange"}, nil},
	{"modelchecker.Heap.Clone", "Heap", []string{"state", "globals"}, []string{"state"}, nil, nil},
	{"modelchecker.ChannelMessage.Clone", "ChannelMessage", []string{"receiver", "frame", "function", "params"}, []string{"frame", "params"}, nil, nil},
	{"modelchecker.Stats.Clone", "Stats", []string{"Counts", "TotalActions"}, []string{"Counts"}, nil, nil},
}

// callees whose results are independent copies (they are themselves obligations of this rule set)
func cleanClone(n string) bool {
	switch n {
	case "modelchecker.deepCloneStarlarkValue", "modelchecker.deepCloneStarlarkValueWithPermutations",
		"modelchecker.Thread.Clone", "modelchecker.CallFrame.Clone", "modelchecker.Scope.Clone", "modelchecker.Heap.Clone",
		"modelchecker.ChannelMessage.Clone", "modelchecker.Stats.Clone", "modelchecker.CallStack.Clone":
		return true
	}
	return false
}

func recvOf(fn *ssa.Function) *ssa.Parameter {
	if fn.Signature.Recv() != nil && len(fn.Params) > 0 {
		return fn.Params[0]
	}
	return nil
}

func ruleBranchIsolation(c *Ctx, r *Rep) {
	w := c.World
	r.Rule("copy: in each clone function of the execution state, every path to a return writes each state field of the copy from the original's field (or its clone); a field may stay unset only where the original's is nil")
	r.Rule("fresh: what the clone stores in a mutable field shares no storage with the original's field")
	r.Rule("clone-loops: every iteration of a loop in a clone function contributes its element to the copy (nil elements and built-in functions/modules may be skipped)")
	n := 0
	for _, q := range copyReqs {
		fn := w.Func(q.fn)
		sh := strings.TrimPrefix(q.fn, "modelchecker.")
		if fn == nil {
			r.Undecided("copy/"+sh, "-", "function not found")
			continue
		}
		recv := recvOf(fn)
		var entry []*ssa.Function
		for f := range w.reachable(fn) {
			if f != fn && cleanClone(fname(f)) {
				continue
			}
			entry = append(entry, f)
		}
		stops := func(f *ssa.Function) bool { return f != fn && cleanClone(fname(f)) }
		reach := w.reachable(fn)
		notRecv := func(v ssa.Value) bool { return recv == nil || !w.passedFrom(v, recv, reach, 0) }
		for _, field := range q.fields {
			n++
			want := q.typ + "." + field
			th := func(in ssa.Instruction) bool {
				switch x := in.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && namedName(fa.X.Type()) == q.typ && notRecv(fa.X) {
						if fieldName(fa.X.Type(), fa.Field) == field {
							return w.slice(x.Val).Fields[want] || w.sliceHasLoadOf(x.Val, want)
						}
					}
					if al, ok := x.Addr.(*ssa.Alloc); ok && namedName(al.Type()) == q.typ {
						if u, ok := x.Val.(*ssa.UnOp); ok && namedName(u.X.Type()) == q.typ {
							return true // whole-struct copy
						}
					}
				case *ssa.MapUpdate:
					if u, ok := x.Map.(*ssa.UnOp); ok {
						if fa, ok := u.X.(*ssa.FieldAddr); ok && namedName(fa.X.Type()) == q.typ && fieldName(fa.X.Type(), fa.Field) == field && notRecv(fa.X) {
							return w.slice(x.Value).Fields[want]
						}
					}
				}
				return false
			}
			cuts := []func(Edge) bool{func(e Edge) bool { return errNonNil(w, e) }, w.cutRel(`^`+q.typ+`(\.parent)?$`, "==", "^nil$")}
			for _, k := range q.nilOK {
				if k == field {
					cuts = append(cuts, w.cutRel(`^`+q.typ+`\.`+field+`$`, "==", "^nil$"))
				}
			}
			qq := &Q{W: w, Through: th, Goal: isReturnOf(fn), Cut: anyCut(cuts...), LoopAll: true, NoEnter: stops}
			bad, tr := qq.Entry(fn)
			r.Check("copy/"+sh+"/"+field, w.Pos(fn.Pos()), !bad, ifBad(bad, "a path returns the copy without "+want+": "+strings.Join(tr, " → ")))
		}
		for _, field := range q.fresh {
			n++
			want := q.typ + "." + field
			cnt := 0
			var stores []*ssa.Store
			for _, f := range entry {
				stores = append(stores, w.fieldStores(q.typ, field, f)...)
			}
			sort.Slice(stores, func(i, j int) bool { return stores[i].Pos() < stores[j].Pos() })
			bad := ""
			pos := w.Pos(fn.Pos())
			for _, st := range stores {
				fa := st.Addr.(*ssa.FieldAddr)
				if !notRecv(fa.X) {
					continue
				}
				cnt++
				for l, v := range w.aliases(st.Val, cleanClone) {
					shared := l == want
					if !q.shallow[field] && (l == "elem "+want || l == "in "+want) {
						shared = true
					}
					_ = v
					if shared {
						bad = "the copy's field shares " + l
						pos = w.ipos(st)
					}
				}
			}
			// a whole-struct copy must be overridden
			deepInstrs(fn, func(in ssa.Instruction) {
				x, ok := in.(*ssa.Store)
				if !ok {
					return
				}
				al, ok := x.Addr.(*ssa.Alloc)
				if !ok || namedName(al.Type()) != q.typ {
					return
				}
				u, ok := x.Val.(*ssa.UnOp)
				if !ok || namedName(u.X.Type()) != q.typ {
					return
				}
				qq := &Q{W: w, Goal: isReturnOf(fn), LoopAll: true, NoEnter: stops, Through: func(in ssa.Instruction) bool {
					st, ok := in.(*ssa.Store)
					if !ok {
						return false
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					return ok && namedName(fa.X.Type()) == q.typ && fieldName(fa.X.Type(), fa.Field) == field
				}}
				if hit, _ := qq.After(in); hit {
					bad, pos = "the struct is copied whole and "+want+" is not replaced on every path", w.ipos(in)
				}
			})
			r.Check("fresh/"+sh+"/"+field, pos, bad == "", bad)
		}
	}
	// containers shared through the clone's own elements: MapUpdate / append targets of the new maps
	r.Rule("fresh-elements: values put into the copied maps, slices and stacks are clones")
	for _, q := range append(copyReqs, copyReq{fn: "modelchecker.CallStack.Clone"}) {
		fn := w.Func(q.fn)
		if fn == nil {
			continue
		}
		sh := strings.TrimPrefix(q.fn, "modelchecker.")
		seen := map[*ssa.Function]bool{}
		var visit func(f *ssa.Function)
		visit = func(f *ssa.Function) {
			if seen[f] || f != fn && cleanClone(fname(f)) {
				return
			}
			seen[f] = true
			for _, l := range w.loopsOf(f) {
				if l.entry() == nil {
					continue
				}
				over := "?"
				if l.Over != nil {
					over = w.render(l.Over)
				}
				any := false
				for b := range l.Body {
					for _, in := range b.Instrs {
						any = any || w.contributes(in, l.Elems)
					}
				}
				if !any {
					continue // builds nothing (the copy rule decides whether the field is copied at all)
				}
				skip, tr := w.iterationSkips(l, func(in ssa.Instruction) bool { return w.contributes(in, l.Elems) }, w.skipCut)
				r.Check("clone-loops/"+sh+"/"+strings.TrimPrefix(fname(f), "modelchecker.")+"/"+over, w.ipos(firstNonPhi(l.Head)), !skip, ifBad(skip, "an iteration can end without copying the element: "+strings.Join(tr, " → ")))
				n++
				overCopies := q.shallow[over[strings.LastIndexByte(over, '.')+1:]]
				if l.Over != nil {
					for cn := range w.sliceWith(l.Over, sliceOpt{}).Calls {
						overCopies = overCopies || cleanClone(cn)
					}
				}
				bad := ""
				pos := w.ipos(firstNonPhi(l.Head))
				for b := range l.Body {
					for _, in := range b.Instrs {
						if !w.contributes(in, l.Elems) {
							continue
						}
						v := contributed(in)
						if v == nil || immutableType(v.Type()) {
							continue
						}
						if !overCopies && w.peelTo(v, func(x ssa.Value) bool { return l.Elems[x] }, 0) {
							bad, pos = "an element of the original is put into the copy", w.ipos(in)
						}
						for lf := range w.aliases(v, cleanClone) {
							if strings.HasPrefix(lf, "in param map[go.starlark.net/starlark.Value]go.starlark.net/starlark.Value") {
								continue // the map from originals to their copies
							}
							x := strings.TrimPrefix(strings.TrimPrefix(lf, "in "), "elem ")
							fl := x[strings.IndexByte(x, '.')+1:]
							if q.shallow[fl] {
								continue
							}
							if i := strings.IndexByte(x, '.'); i > 0 && stateTypes[x[:i]] || strings.HasPrefix(x, "param ") {
								bad, pos = "an element put into the copy is (part of) the original's: "+lf, w.ipos(in)
							}
						}
					}
				}
				r.Check("clone-elements/"+sh+"/"+strings.TrimPrefix(fname(f), "modelchecker.")+"/"+over, pos, bad == "", bad)
			}
			instrs(f, func(in ssa.Instruction) {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, t := range w.callees(ci) {
						if w.owns(t) && len(t.Blocks) > 0 && strings.HasPrefix(fname(t), "modelchecker.") {
							visit(t)
						}
					}
				}
			})
		}
		visit(fn)
	}
	r.Floor("clone obligations", n, 60)

	// threads of the copy belong to the copy
	r.Rule("thread-owner: after cloning a process's threads, each cloned thread's Process field is set to the copy")
	for _, name := range []string{"modelchecker.Process.Fork", "modelchecker.Process.CloneWithRefs"} {
		fn := w.Func(name)
		if fn == nil {
			continue
		}
		for f := range w.reachable(fn) {
			for _, cs := range calls(f, "modelchecker.Thread.Clone") {
				q := &Q{W: w, Through: func(in ssa.Instruction) bool {
					st, ok := in.(*ssa.Store)
					if !ok {
						return false
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					return ok && namedName(fa.X.Type()) == "Thread" && fieldName(fa.X.Type(), fa.Field) == "Process" && st.Val != ssa.Value(recvOf(f))
				}, Goal: func(in ssa.Instruction) bool {
					if _, ok := in.(*ssa.Return); ok && in.Parent() == f {
						return true
					}
					return in != cs && in.Parent() == f && isCall("modelchecker.Thread.Clone")(in)
				}, NoEnter: func(*ssa.Function) bool { return true }}
				bad, tr := q.After(cs)
				r.Check("thread-owner/"+strings.TrimPrefix(name, "modelchecker.")+"/"+strings.TrimPrefix(fname(f), "modelchecker."), w.ipos(cs), !bad, ifBad(bad, "a cloned thread keeps the original's process: "+strings.Join(tr, " → ")))
			}
		}
	}

	// the role list is built from the reference map after every clone that fills the map
	r.Rule("roles-last: nothing is cloned into the reference map after the copy's role list was built from it")
	nm := 0
	for _, f := range w.Funcs {
		for _, cs := range calls(f, "modelchecker.MapRoleValuesInOrder") {
			nm++
			q := &Q{W: w, Goal: func(in ssa.Instruction) bool {
				ci, ok := in.(ssa.CallInstruction)
				return ok && cleanClone(calleeName(ci)) && in.Parent() == f && calleeName(ci) != "modelchecker.Stats.Clone" && usesMap(w, ci, cs)
			}, NoEnter: func(*ssa.Function) bool { return true }}
			bad, tr := q.After(cs)
			r.Check("roles-last/"+strings.TrimPrefix(fname(f), "modelchecker."), w.ipos(cs), !bad, ifBad(bad, "a later clone can introduce a role that the role list misses: "+strings.Join(tr, " → ")))
		}
	}
	r.Floor("role list builders", nm, 2)
	ruleForkLists(w, r)
}

func usesMap(w *World, a, b ssa.CallInstruction) bool {
	var m ssa.Value
	if len(callArgs(b)) > 0 {
		m = callArgs(b)[0]
	}
	for _, x := range callArgs(a) {
		if x == m {
			return true
		}
	}
	return false
}

// passedFrom: v is the parameter p, or a parameter that some function of the set is called with p for.
func (w *World) passedFrom(v ssa.Value, p *ssa.Parameter, in map[*ssa.Function]bool, d int) bool {
	if v == ssa.Value(p) {
		return true
	}
	x, ok := v.(*ssa.Parameter)
	if !ok || d > 5 {
		return false
	}
	fn := x.Parent()
	for i, q := range fn.Params {
		if q != x {
			continue
		}
		for _, c := range w.callers[fn] {
			if !in[c.Parent()] {
				continue
			}
			if a := callArgs(c); i < len(a) && w.passedFrom(a[i], p, in, d+1) {
				return true
			}
		}
	}
	return false
}

// skipCut: branches on which an element is nil, a built-in function or module, or not present.
func (w *World) skipCut(e Edge) bool {
	if errNonNil(w, e) {
		return true
	}
	if b, ok := e.Cond.(*ssa.BinOp); ok && b.X.Type().String() == "error" {
		return false
	}
	for _, x := range w.rels(e.Cond, e.Taken) {
		if x.Op == "==" && (x.R == "nil" || x.R == `"builtin_function_or_method"` || x.R == `"module"` || x.R == `"failed_module"`) {
			return true
		}
		if x.Op == "==" && x.R == "false" && strings.HasSuffix(x.L, "#1") {
			return true
		}
	}
	return false
}

func (w *World) sliceHasLoadOf(v ssa.Value, want string) bool { return w.slice(v).Fields[want] }

// ruleForkLists: the code that creates alternative branches.
func ruleForkLists(w *World, r *Rep) {
	r.Rule("branch-values: whatever a function that forks a process writes into a fork's scopes, frames, loop values or variables is the fork's own or a copy made for it, on every path, never storage of the parent")
	r.Rule("in-place: a list is shortened in place (append onto a prefix of itself) only when the list belongs to a fork made in the same function")
	forkers := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		if strings.HasPrefix(fname(f), "modelchecker.") && len(calls(f, forkNames...)) > 0 {
			forkers[f] = true
		}
	}
	r.Floor("forking functions", len(forkers), 8)
	nw, np := 0, 0
	for _, fn := range sortedFns(forkers) {
		switch fname(fn) {
		case "modelchecker.Process.Fork", "modelchecker.Process.forkWithRefs", "modelchecker.Process.CloneWithRefs":
			continue
		}
		forks := map[ssa.Value]bool{}
		deepInstrs(fn, func(in ssa.Instruction) {
			if c, ok := in.(*ssa.Call); ok && isCall(forkNames...)(in) {
				forks[c] = true
			}
		})
		ofFork := func(v ssa.Value) bool { return w.rootedAt(v, forks, 0) }
		sh := strings.TrimPrefix(fname(fn), "modelchecker.")
		check := func(in ssa.Instruction, val ssa.Value, what string) {
			nw++
			bad := ""
			if !ofFork(val) {
				for l := range w.aliasesStop(val, cleanClone, ofFork) {
					l = strings.TrimPrefix(strings.TrimPrefix(l, "elem "), "in ")
					switch l {
					case "Scope.loopRange", "Scope.vars", "CallFrame.vars", "Heap.state", "Role.Fields", "CallFrame.obj":
						bad = "the branch's " + what + " shares " + l + " with the parent"
					}
				}
				if al := cellOf(val); bad == "" && al != nil {
					// a cell filled by an iterator over the parent's value must be replaced before it is used
					for _, rf := range *al.Referrers() {
						nx, ok := rf.(*ssa.Call)
						if !ok || !nx.Call.IsInvoke() || nx.Call.Method.Name() != "Next" {
							continue
						}
						q := &Q{W: w, NoEnter: func(*ssa.Function) bool { return true }, Cut: func(e Edge) bool { return errNonNil(w, e) },
							Goal: func(x ssa.Instruction) bool { return x == in },
							Through: func(x ssa.Instruction) bool {
								if st, ok := x.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
									return ofFork(st.Val) || onlyClones(w, st.Val)
								}
								if fa, ok := x.(*ssa.FieldAddr); ok && namedName(fa.X.Type()) == "Process" && fieldName(fa.X.Type(), fa.Field) == "Roles" && ofFork(fa.X) {
									return true // looked up among the branch's own roles
								}
								return false
							}}
						if hit, tr := q.After(nx); hit {
							bad = "the branch's " + what + " is the parent's own object: " + strings.Join(tr, " → ")
						}
					}
				}
			}
			r.Check("branch-values/"+sh+"/"+what, w.ipos(in), bad == "", bad)
		}
		instrs(fn, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && ofFork(fa.X) && !immutableType(x.Val.Type()) {
					check(in, x.Val, namedName(fa.X.Type())+"."+fieldName(fa.X.Type(), fa.Field))
				}
			case *ssa.MapUpdate:
				if ofFork(x.Map) && !immutableType(x.Value.Type()) {
					check(in, x.Value, lastField(x.Map))
				}
			case *ssa.Call:
				n := calleeName(x)
				if (n == "modelchecker.Process.updateVariable" || n == "modelchecker.Process.updateVariableInternal") && ofFork(x.Call.Args[0]) && len(x.Call.Args) > 2 {
					check(in, x.Call.Args[2], "variables")
				}
			}
		})
	}
	for _, fn := range w.Funcs {
		if !strings.HasPrefix(fname(fn), "modelchecker.") {
			continue
		}
		forks := map[ssa.Value]bool{}
		deepInstrs(fn, func(in ssa.Instruction) {
			if c, ok := in.(*ssa.Call); ok && isCall(forkNames...)(in) {
				forks[c] = true
			}
		})
		for _, c := range calls(fn, "builtin.append") {
			a := callArgs(c)
			sl, ok := a[0].(*ssa.Slice)
			if !ok || sl.High == nil || sl.Max != nil || w.render(sl.High) == "0" && !isState(w, sl.X) {
				continue
			}
			if !isState(w, sl.X) {
				continue
			}
			np++
			ok = w.rootedAt(sl.X, forks, 0)
			r.Check("in-place/"+strings.TrimPrefix(fname(fn), "modelchecker.")+"/"+lastField(sl.X), w.ipos(c), ok, ifBad(!ok, "a list of the execution state is shortened in place although the list may belong to the state other branches are created from"))
		}
	}
	r.Floor("branch writes", nw, 5)
	r.Counts["in-place deletions of state lists"] = np
}

var forkNames = []string{"modelchecker.Process.Fork", "modelchecker.Process.forkWithRefs", "modelchecker.Process.CloneForAssert", "modelchecker.Process.CloneWithRefs", "modelchecker.Node.ForkForAction"}

var stateTypes = map[string]bool{"Process": true, "Thread": true, "CallFrame": true, "Scope": true, "Heap": true, "ChannelMessage": true, "Stats": true, "Role": true}

// isState: v is loaded (possibly through containers) from a field of the execution state.
func isState(w *World, v ssa.Value) bool {
	for l := range w.aliases(v, cleanClone) {
		l = strings.TrimPrefix(strings.TrimPrefix(l, "elem "), "in ")
		if i := strings.IndexByte(l, '.'); i > 0 && stateTypes[l[:i]] {
			return true
		}
	}
	return false
}

func lastField(v ssa.Value) string {
	for i := 0; i < 10; i++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			v = x.X
		case *ssa.FieldAddr:
			return namedName(x.X.Type()) + "." + fieldName(x.X.Type(), x.Field)
		case *ssa.Lookup:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Extract:
			switch t := x.Tuple.(type) {
			case *ssa.Lookup:
				v = t.X
			case *ssa.Next:
				if rg, ok := t.Iter.(*ssa.Range); ok {
					v = rg.X
					continue
				}
				return "?"
			default:
				return "?"
			}
		case *ssa.Slice:
			v = x.X
		case *ssa.Call:
			return calleeName(x)
		default:
			return "?"
		}
	}
	return "?"
}

func cellOf(v ssa.Value) *ssa.Alloc {
	for i := 0; i < 6; i++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			if al, ok := x.X.(*ssa.Alloc); ok {
				return al
			}
			return nil
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		default:
			return nil
		}
	}
	return nil
}

func onlyClones(w *World, v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return cleanClone(calleeName(c))
		}
	case *ssa.Call:
		return cleanClone(calleeName(x))
	case *ssa.MakeInterface:
		return onlyClones(w, x.X)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !onlyClones(w, e) {
				return false
			}
		}
		return true
	}
	return false
}

// rootedAt: v is one of the roots or is reached from one by field loads, lookups, slicing and accessor methods.
func (w *World) rootedAt(v ssa.Value, roots map[ssa.Value]bool, d int) bool {
	if d > 16 || v == nil {
		return false
	}
	if roots[v] {
		return true
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			n := 0
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
					n++
					if !w.rootedAt(st.Val, roots, d+1) {
						return false
					}
				}
				if c, ok := r.(*ssa.Call); ok && c.Call.IsInvoke() && c.Call.Method.Name() == "Next" {
					return false
				}
			}
			return n > 0
		}
		return w.rootedAt(x.X, roots, d+1)
	case *ssa.FieldAddr:
		return w.rootedAt(x.X, roots, d+1)
	case *ssa.Field:
		return w.rootedAt(x.X, roots, d+1)
	case *ssa.IndexAddr:
		return w.rootedAt(x.X, roots, d+1)
	case *ssa.Lookup:
		return w.rootedAt(x.X, roots, d+1)
	case *ssa.Slice:
		return w.rootedAt(x.X, roots, d+1)
	case *ssa.MakeInterface:
		return w.rootedAt(x.X, roots, d+1)
	case *ssa.TypeAssert:
		return w.rootedAt(x.X, roots, d+1)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Lookup:
			return w.rootedAt(t.X, roots, d+1)
		case *ssa.TypeAssert:
			return w.rootedAt(t.X, roots, d+1)
		case *ssa.Next:
			if rg, ok := t.Iter.(*ssa.Range); ok {
				return w.rootedAt(rg.X, roots, d+1)
			}
		case *ssa.Call:
			return len(t.Call.Args) > 0 && w.rootedAt(t.Call.Args[0], roots, d+1)
		}
	case *ssa.Call:
		if calleeName(x) == "builtin.append" || x.Call.StaticCallee() != nil && x.Call.StaticCallee().Signature.Recv() != nil || len(x.Call.Args) > 0 {
			if calleeName(x) == "modelchecker.Node.ForkForAlternatePaths" {
				return len(x.Call.Args) > 1 && w.rootedAt(x.Call.Args[1], roots, d+1)
			}
			return len(x.Call.Args) > 0 && w.rootedAt(x.Call.Args[0], roots, d+1)
		}
	case *ssa.Phi:
		ok := false
		for i, e := range x.Edges {
			if e == ssa.Value(x) || w.nilOnEdge(x, i) {
				continue
			}
			if !w.rootedAt(e, roots, d+1) {
				return false
			}
			ok = true
		}
		return ok
	case *ssa.Alloc:
		// a struct literal holding a fork (a new node around a forked process)
		for _, r := range *x.Referrers() {
			if fa, ok := r.(*ssa.FieldAddr); ok {
				for _, r2 := range *fa.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(fa) && roots[st.Val] {
						return true
					}
				}
			}
		}
	}
	return false
}

// value kinds whose content can change or can hold changeable content
var mutableKinds = []string{"list", "set", "dict", "struct", "record", "genericset", "genericmap", "bag", "role"}

// container kinds: hold other values
var containerKinds = []string{"list", "set", "dict", "tuple", "struct", "record", "genericset", "genericmap", "bag", "role", "RoleStub"}

func ruleValueKinds(c *Ctx, r *Rep) {
	w := c.World
	clone := w.Func("modelchecker.deepCloneStarlarkValueWithPermutations")
	visit := w.Func("modelchecker.visitStarlarkValue")
	enc := w.Func("lib.MarshalJSONStarlarkValue")
	if clone == nil || visit == nil || enc == nil {
		r.Undecided("value-kinds", "-", "the value copier, visitor or encoder was not found")
		return
	}
	n := 0
	subj := func(fn *ssa.Function) func(ssa.Value) bool { return w.subjectOf(fn.Params[0]) }

	// copier
	r.Rule("copy-kind: for each kind of value that can change, every path of the value copier for that kind (other than an error or a value already copied) descends into the content, records the copy under the original and returns storage that is not the original's")
	sC := subj(clone)
	selfName := map[string]bool{fname(clone): true, "modelchecker.deepCloneStarlarkValue": true}
	recursion := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && selfName[calleeName(ci)]
	}
	isRefs := func(m ssa.Value) bool {
		return strings.HasPrefix(shortType(m.Type()), "map[starlark.Value]starlark.Value")
	}
	okReturn := func(in ssa.Instruction) bool {
		rt, ok := in.(*ssa.Return)
		return ok && rt.Parent() == clone && !errorReturn(rt)
	}
	cached := func(e Edge) bool {
		ex, ok := e.Cond.(*ssa.Extract)
		if !ok || ex.Index != 1 || !e.Taken {
			return false
		}
		l, ok := ex.Tuple.(*ssa.Lookup)
		return ok && isRefs(l.X)
	}
	for _, k := range containerKinds {
		cut := anyCut(w.kindCut(sC, k), cached, func(e Edge) bool { return errNonNil(w, e) })
		mk := func(th func(ssa.Instruction) bool) (bool, []string) {
			q := &Q{W: w, Through: th, Goal: okReturn, Cut: cut, LoopAll: true, NoEnter: func(f *ssa.Function) bool { return f == clone }}
			return q.Entry(clone)
		}
		reach, _ := mk(nil)
		n++
		if !r.Check("copy-kind/"+k+"/supported", w.Pos(clone.Pos()), reach, ifBad(!reach, "the copier has no successful path for values of kind "+k)) {
			continue
		}
		bad, tr := func() (bool, []string) {
			q := &Q{W: w, Through: recursion, Goal: okReturn, Cut: anyCut(cut, w.skipCut, func(e Edge) bool {
				ex, ok := e.Cond.(*ssa.Extract) // a foreign implementation of the kind
				if !ok || ex.Index != 1 || e.Taken {
					return false
				}
				ta, ok := ex.Tuple.(*ssa.TypeAssert)
				return ok && sC(ta.X)
			}), LoopAll: true, NoEnter: func(f *ssa.Function) bool { return f == clone }}
			return q.Entry(clone)
		}()
		r.Check("copy-kind/"+k+"/descends", w.Pos(clone.Pos()), !bad, ifBad(bad, "content of a "+k+" is not copied on a path: "+strings.Join(tr, " → ")))
		if k == "tuple" || k == "RoleStub" {
			continue
		}
		bad, tr = mk(func(in ssa.Instruction) bool {
			m, ok := in.(*ssa.MapUpdate)
			return ok && isRefs(m.Map) && w.keyIsSubject(m.Key, sC)
		})
		r.Check("copy-kind/"+k+"/recorded", w.Pos(clone.Pos()), !bad, ifBad(bad, "the copy of a "+k+" is not recorded under the original (two references to it would become two objects): "+strings.Join(tr, " → ")))
		// returns that this kind reaches must not alias the original
		for _, b := range clone.Blocks {
			rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || errorReturn(rt) {
				continue
			}
			q := &Q{W: w, Goal: func(in ssa.Instruction) bool { return in == rt }, Cut: cut, NoEnter: func(f *ssa.Function) bool { return true }}
			if hit, _ := q.Entry(clone); !hit {
				continue
			}
			same := w.peelTo(retVal(rt, 0), sC, 0)
			r.Check("copy-kind/"+k+"/independent", w.ipos(rt), !same, ifBad(same, "the original itself is returned as the copy"))
		}
	}
	r.Rule("copy-elements: whatever the copier and its helpers put into a new container comes out of a recursive copy, never an element of the original")
	for _, f := range clonersIn(w, clone) {
		for _, l := range w.loopsOf(f) {
			if l.Over != nil && strings.HasPrefix(shortType(l.Over.Type()), "map[*lib.SymmetricValue]") {
				continue
			}
			if l.Over != nil && w.sliceWith(l.Over, sliceOpt{}).hasCall("modelchecker.deepClone.*") {
				continue // already copies
			}
			for b := range l.Body {
				for _, in := range b.Instrs {
					if !w.contributes(in, l.Elems) {
						continue
					}
					if m, ok := in.(*ssa.MapUpdate); ok && isRefs(m.Map) {
						continue
					}
					v := contributed(in)
					if v == nil || immutableType(v.Type()) {
						continue
					}
					n++
					same := w.peelTo(v, func(x ssa.Value) bool { return l.Elems[x] }, 0)
					r.Check("copy-elements/"+strings.TrimPrefix(fname(f), "modelchecker."), w.ipos(in), !same, ifBad(same, "an element of the original is put into the copy"))
				}
			}
		}
	}
	// a role's parts
	for _, f := range []string{"Fields", "Params", "ID", "InitValues"} {
		copied := false
		for _, st := range w.fieldStores("Role", f, clonersIn(w, clone)...) {
			n++
			s := w.sliceWith(st.Val, sliceOpt{})
			ok := s.Fields["Role."+f]
			copied = copied || s.hasCall("modelchecker.deepCloneStarlarkValue.*")
			r.Check("copy-role/"+f, w.ipos(st), ok, ifBad(!ok, "the copied role's "+f+" does not come from the original's "+f))
			if f != "ID" && f != "InitValues" {
				for lf := range w.aliases(st.Val, func(s string) bool { return selfName[s] }) {
					if strings.HasSuffix(lf, "Role."+f) {
						r.Check("copy-role/"+f+"/shared", w.ipos(st), false, "the copied role shares "+lf)
					}
				}
			}
		}
		r.Check("copy-role/"+f+"/copied", w.Pos(clone.Pos()), copied, ifBad(!copied, "the copied role's "+f+" is never a copy of the original's "+f))
	}
	r.Rule("copy-role: a copied role's identity, parameters, fields and reset values come from copies of the original's")
	r.Rule("kind-loops: every iteration over a container's content in the copier, the visitor and the encoder contributes or visits the element")
	for _, root := range []*ssa.Function{clone, visit, enc} {
		seen := map[*ssa.Function]bool{}
		var vis func(f *ssa.Function)
		vis = func(f *ssa.Function) {
			if seen[f] || !w.owns(f) || len(f.Blocks) == 0 {
				return
			}
			seen[f] = true
			for _, l := range w.loopsOf(f) {
				if l.entry() == nil || l.Over != nil && strings.HasPrefix(shortType(l.Over.Type()), "map[*lib.SymmetricValue]") {
					continue // the search for a permuted value
				}
				any := false
				th := func(in ssa.Instruction) bool {
					if root != visit {
						return w.contributes(in, l.Elems)
					}
					if ci, ok := in.(ssa.CallInstruction); ok {
						for _, a := range callArgs(ci) {
							if w.dependsOn(a, l.Elems) && (calleeName(ci) == fname(root) || w.reaches(ci, root)) {
								return true
							}
						}
					}
					return false
				}
				for b := range l.Body {
					for _, in := range b.Instrs {
						any = any || th(in)
					}
				}
				if !any {
					continue
				}
				n++
				skip, tr := w.iterationSkips(l, th, w.skipCut, root)
				over := "?"
				if l.Over != nil {
					over = w.render(l.Over)
				}
				r.Check("kind-loops/"+strings.TrimPrefix(strings.TrimPrefix(fname(f), "modelchecker."), "lib.")+"/"+over, w.ipos(firstNonPhi(l.Head)), !skip, ifBad(skip, "an element can be skipped: "+strings.Join(tr, " → ")))
			}
			instrs(f, func(in ssa.Instruction) {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, t := range w.callees(ci) {
						nm := fname(t)
						if strings.HasPrefix(nm, "modelchecker.deepClone") || strings.HasPrefix(nm, "modelchecker.visit") || nm == fname(root) || nm == "modelchecker.CopyDict" || nm == "modelchecker.CloneDict" || t.Parent() == root {
							vis(t)
						}
					}
				}
			})
		}
		vis(root)
	}

	// visitor
	r.Rule("visit-kind: for each container kind, every path of the state visitor for that kind (other than a value already visited or nil) visits its content; a symmetric value is reported; a symmetric role reports its identity")
	sV := subj(visit)
	vcut := func(k string) func(Edge) bool {
		return anyCut(w.kindCut(sV, k), func(e Edge) bool {
			if e.Taken {
				if l, ok := e.Cond.(*ssa.Lookup); ok && shortType(l.X.Type()) == "map[starlark.Value]bool" {
					return true
				}
			}
			return matchRel(w.rels(e.Cond, e.Taken), ".*", "==", "^nil$")
		})
	}
	for _, k := range containerKinds {
		th := func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			return ok && (calleeName(ci) == fname(visit) || strings.HasPrefix(calleeName(ci), "modelchecker.visit"))
		}
		q := &Q{W: w, Through: th, Goal: isReturnOf(visit), Cut: vcut(k), LoopAll: true, NoEnter: func(f *ssa.Function) bool { return f == visit }}
		bad, tr := q.Entry(visit)
		n++
		r.Check("visit-kind/"+k, w.Pos(visit.Pos()), !bad, ifBad(bad, "the content of a "+k+" is not visited on a path: "+strings.Join(tr, " → ")))
	}
	for _, k := range []string{"symmetric_value", "role"} {
		th := func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			return ok && ci.Common().IsInvoke() && ci.Common().Method.Name() == "VisitSymmetricValue"
		}
		cut := anyCut(vcut(k), w.cutRel(`IsSymmetric\(`, "==", "^false$"), w.cutRel(`Role\.Symmetric$`, "==", "^false$"))
		q := &Q{W: w, Through: th, Goal: isReturnOf(visit), Cut: cut, NoEnter: func(f *ssa.Function) bool { return f == visit }}
		bad, tr := q.Entry(visit)
		n++
		r.Check("visit-identity/"+k, w.Pos(visit.Pos()), !bad, ifBad(bad, "the identity of a "+k+" is not reported on a path: "+strings.Join(tr, " → ")))
	}
	for _, f := range []string{"Fields", "Params"} {
		q := &Q{W: w, Goal: isReturnOf(visit), Cut: vcut("role"), NoEnter: func(f *ssa.Function) bool { return f == visit }, Through: func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			return ok && strings.HasPrefix(calleeName(ci), "modelchecker.visit") && len(callArgs(ci)) > 0 && w.slice(callArgs(ci)[0]).Fields["Role."+f]
		}}
		bad, tr := q.Entry(visit)
		r.Check("visit-role/"+f, w.Pos(visit.Pos()), !bad, ifBad(bad, "a role's "+f+" are not visited: "+strings.Join(tr, " → ")))
	}

	r.Rule("visit-state: the state visitor visits every part of the execution state that can hold a value: variables, frame arguments, frame objects, scopes (variables, loop values, parents), roles, pending messages, return values")
	acc := w.Func("modelchecker.Process.AcceptVisitor")
	if acc == nil {
		r.Undecided("visit-state", "-", "Process.AcceptVisitor not found")
	} else {
		vs := func(want ...string) func(ssa.Instruction) bool {
			return func(in ssa.Instruction) bool {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || !strings.HasPrefix(calleeName(ci), "modelchecker.visit") || len(callArgs(ci)) == 0 {
					return false
				}
				s := w.slice(callArgs(ci)[0])
				for _, x := range want {
					if !s.Fields[x] {
						return false
					}
				}
				return true
			}
		}
		cut := func(e Edge) bool {
			for _, x := range w.rels(e.Cond, e.Taken) {
				if x.Op == "==" && x.R == "nil" {
					return true
				}
			}
			return false
		}
		for _, want := range [][]string{{"Heap.state"}, {"Process.Threads", "CallFrame.vars"}, {"Process.Threads", "CallFrame.obj"}, {"Process.Threads", "CallFrame.scope"}, {"Process.Roles"}, {"Process.ChannelMessages", "ChannelMessage.params"}, {"Process.Returns"}} {
			q := &Q{W: w, Through: vs(want...), Goal: isReturnOf(acc), Cut: cut, LoopAll: true, NoEnter: func(f *ssa.Function) bool { return f == visit }}
			bad, tr := q.Entry(acc)
			n++
			r.Check("visit-state/"+want[len(want)-1], w.Pos(acc.Pos()), !bad, ifBad(bad, strings.Join(want, " ⟶ ")+" is not visited on a path: "+strings.Join(tr, " → ")))
		}
		vsc := w.Func("modelchecker.visitScope")
		if vsc != nil {
			for _, want := range []string{"Scope.vars", "Scope.loopRange", "Scope.parent"} {
				q := &Q{W: w, Through: vs(want), Goal: isReturnOf(vsc), Cut: cut, LoopAll: true, NoEnter: func(f *ssa.Function) bool { return f == visit || f == vsc }}
				bad, tr := q.Entry(vsc)
				n++
				r.Check("visit-state/"+want, w.Pos(vsc.Pos()), !bad, ifBad(bad, want+" is not visited on a path: "+strings.Join(tr, " → ")))
			}
		}
	}

	// encoder
	r.Rule("encode-kind: for every kind the copier supports, the encoder used for state identity returns something that depends on the value, and for containers it encodes the content")
	sE := subj(enc)
	for k := range w.kindsTested(clone) {
		if k == "function" || k == "symmetry_domain" || k == "symmetric_values" || k == "builtin_function_or_method" || k == "module" || k == "failed_module" {
			continue
		}
		cut := anyCut(w.kindCut(sE, k), func(e Edge) bool { return errNonNil(w, e) }, func(e Edge) bool { // nested deeper than the encoder's limit
			for _, v := range enc.Params[1:] {
				if b, ok := e.Cond.(*ssa.BinOp); ok && (b.X == ssa.Value(v) || b.Y == ssa.Value(v)) {
					return e.Taken == (b.Op == token.GTR || b.Op == token.GEQ) == (b.X == ssa.Value(v))
				}
			}
			return false
		})
		okRet := func(in ssa.Instruction) bool {
			rt, ok := in.(*ssa.Return)
			return ok && rt.Parent() == enc && !errorReturn(rt)
		}
		var rets []*ssa.Return
		for _, b := range enc.Blocks {
			rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || errorReturn(rt) {
				continue
			}
			q := &Q{W: w, Goal: func(in ssa.Instruction) bool { return in == rt }, Cut: cut, NoEnter: func(f *ssa.Function) bool { return true }}
			if hit, _ := q.Entry(enc); hit {
				rets = append(rets, rt)
			}
		}
		n++
		if k != "NoneType" {
			bad := ""
			pos := w.Pos(enc.Pos())
			for _, rt := range rets {
				dep := false
				s := w.slice(retVal(rt, 0))
				if s.vals[enc.Params[0]] {
					dep = true
				}
				if !dep {
					bad, pos = "the encoding of a "+k+" does not depend on the value", w.ipos(rt)
				}
			}
			r.Check("encode-kind/"+k+"/depends", pos, bad == "" && len(rets) > 0, bad)
		}
		if k == "role" || k == "RoleStub" || k == "symmetric_value" || k == "model_value" || k == "Channel" || k == "symmetry_segment" {
			continue
		}
		isC := false
		for _, x := range containerKinds {
			isC = isC || x == k
		}
		if !isC {
			continue
		}
		q := &Q{W: w, Goal: okRet, Cut: cut, LoopAll: true, NoEnter: func(f *ssa.Function) bool { return f == enc }, Through: isCall(fname(enc))}
		bad, tr := q.Entry(enc)
		r.Check("encode-kind/"+k+"/content", w.Pos(enc.Pos()), !bad, ifBad(bad, "the content of a "+k+" is not encoded on a path: "+strings.Join(tr, " → ")))
	}

	// module kinds are known to the three
	r.Rule("kinds-known: every value kind the language runtime defines is handled by name in the copier")
	ck := w.kindsTested(clone)
	for k, f := range w.moduleKinds() {
		if k == "failed_module" {
			continue
		}
		n++
		r.Check("kinds-known/"+k, w.Pos(f.Pos()), ck[k] || ck[strings.ToLower(k)], "the value copier does not handle kind "+k)
	}
	r.Floor("value-kind obligations", n, 70)
}

func clonersIn(w *World, clone *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for f := range w.reachable(clone) {
		if strings.HasPrefix(fname(f), "modelchecker.") {
			out = append(out, f)
		}
	}
	return out
}

// reaches: can the call execute root?
func (w *World) reaches(c ssa.CallInstruction, root *ssa.Function) bool {
	for _, t := range w.callees(c) {
		if t == root || w.owns(t) && w.reachable(t)[root] {
			return true
		}
	}
	return false
}

// keyIsSubject: a map key that is the subject value itself (possibly type-asserted).
func (w *World) keyIsSubject(v ssa.Value, s func(ssa.Value) bool) bool { return s(v) }

// contributed: the value that a contributing instruction adds.
func contributed(in ssa.Instruction) ssa.Value {
	switch x := in.(type) {
	case *ssa.MapUpdate:
		return x.Value
	case *ssa.Store:
		return x.Val
	case ssa.CallInstruction:
		a := callArgs(x)
		if len(a) > 1 {
			return a[len(a)-1]
		}
	}
	return nil
}

// peelTo: v is (by conversion, assertion, indexing or a local cell) a value accepted by is.
func (w *World) peelTo(v ssa.Value, is func(ssa.Value) bool, d int) bool {
	if d > 12 {
		return false
	}
	if is(v) {
		return true
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return w.peelTo(x.X, is, d+1)
	case *ssa.ChangeInterface:
		return w.peelTo(x.X, is, d+1)
	case *ssa.ChangeType:
		return w.peelTo(x.X, is, d+1)
	case *ssa.TypeAssert:
		return w.peelTo(x.X, is, d+1)
	case *ssa.Index:
		return w.peelTo(x.X, is, d+1)
	case *ssa.IndexAddr:
		return w.peelTo(x.X, is, d+1)
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			return w.peelTo(ta.X, is, d+1)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if w.peelTo(e, is, d+1) {
				return true
			}
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			if is(al) {
				return true
			}
			if st := lastStoreBefore(x, al); st != nil {
				return w.peelTo(st.Val, is, d+1)
			}
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) && w.peelTo(st.Val, is, d+1) {
					return true
				}
			}
			return false
		}
		return w.peelTo(x.X, is, d+1)
	}
	return false
}

// lastStoreBefore: the store to the cell that precedes the load in its own block.
func lastStoreBefore(ld ssa.Instruction, al *ssa.Alloc) *ssa.Store {
	var last *ssa.Store
	for _, in := range ld.Block().Instrs {
		if in == ld {
			return last
		}
		if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
			last = st
		}
	}
	return nil
}
