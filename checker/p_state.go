package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("S01", ruleStateIdentity) }

func isSinkName(n string) bool {
	i := strings.LastIndexByte(n, '.')
	switch n[i+1:] {
	case "Write", "WriteString", "WriteByte", "WriteRune", "Fprintf", "Fprint", "Fprintln", "Sum256":
		return true
	}
	return false
}

// contribution of a field to the output of an encoder: a sink call, a map entry, or — in a function without sinks — the
// returned value.
func (w *World) encodes(fn *ssa.Function, typ, field string, content []string) func(ssa.Instruction) bool {
	want := typ + "." + field
	hasAll := func(v ssa.Value) bool {
		s := w.plainSlice(v)
		if !s.Fields[want] {
			return false
		}
		for _, c := range content {
			if !s.Fields[c] && !s.hasCall(c) {
				return false
			}
		}
		return true
	}
	hasSink := false
	deepInstrs(fn, func(in ssa.Instruction) {
		if c, ok := in.(ssa.CallInstruction); ok && isSinkName(calleeName(c)) {
			hasSink = true
		}
		if _, ok := in.(*ssa.MapUpdate); ok {
			hasSink = true
		}
	})
	return func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.MapUpdate:
			return hasAll(x.Value)
		case *ssa.Return:
			if !hasSink && x.Parent() == fn {
				for _, r := range x.Results {
					if hasAll(r) {
						return true
					}
				}
			}
		case ssa.CallInstruction:
			if isSinkName(calleeName(x)) {
				for i, a := range callArgs(x) {
					if i == 0 && calleeName(x) != "sha256.Sum256" {
						continue
					}
					if hasAll(a) {
						return true
					}
				}
			}
		}
		return false
	}
}

type hashReq struct {
	fn, typ, field string
	content        []string // fields/calls that must also be in what is encoded
	cuts           [][3]string
}

var hashReqs = []hashReq{
	{"modelchecker.Process.HashCode", "Process", "Threads", []string{"Thread.Stack", "CallFrame.pc", "Scope.vars"}, nil},
	{"modelchecker.Process.HashCode", "Process", "Current", []string{"Thread.Stack"}, [][3]string{{`^len\(.*\)$`, "<=", "^0$"}, {`^len\(.*\)$`, "==", "^0$"}, {`^Process\.Current$`, "<", "^0$"}}},
	{"modelchecker.Process.HashCode", "Process", "Returns", nil, [][3]string{{`^modelchecker\.excludeReturnsFromState$`, "==", "^true$"}}},
	{"modelchecker.Process.HashCode", "Process", "Roles", []string{"Role.Fields", "Role.Params", "Role.ID"}, nil},
	{"modelchecker.Process.HashCode", "Process", "Roles", []string{"Role.InitValues"}, [][3]string{{`\.InitValues$`, "==", "^nil$"}, {`^len\(.*InitValues.*\)$`, "<=", "^0$"}, {`^len\(.*InitValues.*\)$`, "==", "^0$"}}},
	{"modelchecker.Process.HashCode", "Process", "Heap", []string{`modelchecker\.Heap\.(HashCode|ToJson|MarshalJSON|String)`}, nil},
	{"modelchecker.Process.HashCode", "Process", "Channels", nil, nil},
	{"modelchecker.Process.HashCode", "Process", "ChannelMessages", []string{"ChannelMessage.params", "ChannelMessage.frame"}, nil},
	{"modelchecker.Thread.HashCode", "Thread", "Stack", nil, [][3]string{{`^Thread$`, "==", "^nil$"}}},
	{"modelchecker.CallStack.HashCode", "CallStack", "Stack", []string{"CallFrame.pc", "CallFrame.scope"}, [][3]string{{`^CallStack$`, "==", "^nil$"}}},
	{"modelchecker.CallFrame.HashCode", "CallFrame", "pc", nil, nil},
	{"modelchecker.CallFrame.HashCode", "CallFrame", "obj", nil, [][3]string{{`^CallFrame\.obj$`, "==", "^nil$"}}},
	{"modelchecker.CallFrame.HashCode", "CallFrame", "vars", nil, [][3]string{{`^len\(CallFrame\.vars\)$`, "<=", "^0$"}, {`^len\(CallFrame\.vars\)$`, "==", "^0$"}, {`^CallFrame\.vars$`, "==", "^nil$"}}},
	{"modelchecker.Scope.Hash", "Scope", "vars", nil, [][3]string{{`^Scope$`, "==", "^nil$"}}},
	{"modelchecker.Scope.Hash", "Scope", "skipstmts", nil, [][3]string{{`^Scope$`, "==", "^nil$"}}},
	{"modelchecker.Scope.Hash", "Scope", "loopRange", nil, [][3]string{{`^Scope$`, "==", "^nil$"}}},
	{"modelchecker.Heap.HashCode", "Heap", "state", nil, nil},
	{"modelchecker.ChannelMessage.HashCode", "ChannelMessage", "frame", []string{"CallFrame.pc"}, nil},
	{"modelchecker.ChannelMessage.HashCode", "ChannelMessage", "receiver", nil, nil},
	{"modelchecker.ChannelMessage.HashCode", "ChannelMessage", "function", nil, nil},
	{"modelchecker.ChannelMessage.HashCode", "ChannelMessage", "params", nil, nil},
	{"lib.Role.MarshalJSON", "Role", "Name", nil, nil},
	{"lib.Role.MarshalJSON", "Role", "ID", nil, nil},
	{"lib.Role.MarshalJSON", "Role", "Params", nil, nil},
	{"lib.Role.MarshalJSON", "Role", "Fields", nil, nil},
	{"lib.Channel.String", "Channel", "Id", nil, nil},
	{"lib.Channel.String", "Channel", "ordering", nil, nil},
	{"lib.Channel.String", "Channel", "delivery", nil, nil},
	{"lib.Channel.String", "Channel", "blocking", nil, nil},
	{"lib.Struct.MarshalJSON", "Struct", "entries", nil, nil},
}

func (w *World) cutsOf(cs [][3]string) func(Edge) bool {
	return func(e Edge) bool {
		rs := w.rels(e.Cond, e.Taken)
		for _, c := range cs {
			if matchRel(rs, c[0], c[1], c[2]) {
				return true
			}
		}
		return false
	}
}

func ruleStateIdentity(c *Ctx, r *Rep) {
	w := c.World
	r.Rule("hash-coverage: on every path of each state encoder to a return (except a cached result and the listed emptiness tests), every state-carrying field of the type is written to the encoder's output, with its content")
	n := 0
	for _, q := range hashReqs {
		fn := w.Func(q.fn)
		key := "hash-coverage/" + strings.TrimPrefix(strings.TrimPrefix(q.fn, "modelchecker."), "lib.") + "/" + q.field
		if fn == nil {
			r.Undecided(key, "-", "function "+q.fn+" not found")
			continue
		}
		n++
		cached := w.cutRel(`\.CachedHashCode$`, "!=", `^""$`)
		errEdge := func(e Edge) bool { return errNonNil(w, e) }
		qq := &Q{W: w, Through: w.encodes(fn, q.typ, q.field, q.content), Cut: anyCut(cached, errEdge, w.cutsOf(q.cuts)),
			LoopAll: true}
		bad := false
		var tr []string
		ret := isReturnOf(fn)
		qq.Goal = ret
		th := qq.Through
		qq.Through = func(in ssa.Instruction) bool { return th(in) }
		bad, tr = qq.Entry(fn)
		r.Check(key, w.Pos(fn.Pos()), !bad, ifBad(bad, "a path returns the identity without including "+q.typ+"."+q.field+strings.Join(append([]string{""}, q.content...), " ⟶ ")+"; path "+strings.Join(tr, " → ")))
	}
	r.Floor("encoder fields", n, len(hashReqs))

	r.Rule("hash-loops: in every function reachable from the state hash, every iteration of a loop over a collection contributes its element to the output (nil elements may be skipped)")
	root := w.Func("modelchecker.Process.HashCode")
	if root == nil {
		r.Undecided("hash-loops", "-", "Process.HashCode not found")
		return
	}
	nl := 0
	for _, fn := range sortedFns(w.reachable(root)) {
		for _, l := range w.loopsOf(fn) {
			if l.entry() == nil {
				continue
			}
			nl++
			cut := func(e Edge) bool {
				if errNonNil(w, e) {
					return true
				}
				if b, ok := e.Cond.(*ssa.BinOp); ok && b.X.Type().String() == "error" {
					return false
				}
				for _, x := range w.rels(e.Cond, e.Taken) {
					if x.Op == "==" && x.R == "nil" {
						return true
					}
				}
				return false
			}
			skip, tr := w.iterationSkips(l, func(in ssa.Instruction) bool { return w.contributes(in, l.Elems) }, cut)
			over := "?"
			if l.Over != nil {
				over = w.render(l.Over)
			}
			r.Check("hash-loops/"+fname(fn)+"/"+over, w.ipos(firstNonPhi(l.Head)), !skip, ifBad(skip, "an iteration can end without contributing the element: "+strings.Join(tr, " → ")))
		}
	}
	r.Floor("hash loops", nl, 8)
	w.cacheRules(r)
}

// cacheRules: a remembered identity never survives a change of the state it was computed from.
func (w *World) cacheRules(r *Rep) {
	r.Rule("hash-cache: the remembered identity of a state is only ever set by the function that computes it or forgotten; copies of a state start without one; it is forgotten before the state is executed and before a permuted identity is computed; a remembered identity is only returned when there is one")
	caches := map[string]bool{"CachedHashCode": true, "CachedThreadHashes": true}
	n := 0
	for _, fn := range w.Funcs {
		instrs(fn, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok && caches[fieldName(fa.X.Type(), fa.Field)] {
				n++
				good := isNilConst(st.Val) || w.render(st.Val) == `""` || fn.Name() == "HashCode" && len(fn.Params) > 0 && sameBase(fa.X, fn.Params[0])
				r.Check("hash-cache-set/"+shortFn(fn)+"/"+fieldName(fa.X.Type(), fa.Field), w.ipos(in), good, ifBad(!good, "the remembered identity is set to "+w.render(st.Val)))
				return
			}
			// a structure copied as a whole carries the cache along
			if t := namedName(st.Val.Type()); (t == "Process" || t == "Heap") && isStructPtr(st.Val.Type()) {
				if _, ptr := st.Val.Type().Underlying().(interface{ Elem() types.Type }); !ptr {
					if u, ok := st.Val.(*ssa.UnOp); ok {
						r.Check("hash-cache-copied/"+shortFn(fn), w.ipos(in), false, "the structure is copied together with its remembered identity: "+w.render(u.X))
					}
				}
			}
		})
	}
	r.Floor("cache stores", n, 4)
	// forgotten before execution
	ex := 0
	for _, cs := range w.callSites("modelchecker.Thread.Execute") {
		fn := cs.Parent()
		ex++
		if fn.Name() == "execFunctionBlock" {
			continue // runs on a fresh copy that is never identified
		}
		w.must(r, step{Key: "hash-cache-reset/" + shortFn(fn), Why: "the state is executed without forgetting its identity", Fn: fn, NoEnter: w.onlyHelpers(fn),
			Through: w.storeTo("Process", "CachedHashCode", `^""$`),
			Goal:    func(in ssa.Instruction) bool { return in == cs.(ssa.Instruction) }})
	}
	r.Floor("execution sites", ex, 2)
	if fn := w.Func("modelchecker.Processor.probeNextStates"); fn != nil {
		for _, f := range w.withHelpers(fn) {
			for _, cs := range calls(f, "modelchecker.Thread.Execute") {
				w.must(r, step{Key: "hash-cache-reset/next/" + shortFn(f), Why: "the next state is executed without forgetting its identity", After: cs.(ssa.Instruction), NoEnter: w.onlyHelpers(fn),
					Through: w.storeTo("Process", "CachedHashCode", `^""$`), Goal: isCall("modelchecker.Thread.Execute")})
			}
		}
	}
	if fn := w.Func("modelchecker.Scope.Hash"); fn != nil {
		w.must(r, step{Key: "hash-coverage/Scope.Hash/parent", Why: "the variables of the enclosing blocks are left out of the identity", Fn: fn, NoEnter: w.onlyHelpers(fn),
			Cut: anyCut(w.cutRel(`^Scope$`, "==", `^nil$`), w.cutRel(`^(Scope\.parent|phi\(.*\.parent.*\))$`, "==", `^nil$`)),
			Through: func(in ssa.Instruction) bool {
				if c, ok := in.(ssa.CallInstruction); ok && (calleeName(c) == "modelchecker.Scope.Hash" || calleeName(c) == "builtin.append") {
					return strings.Contains(w.render(callArgs(c)[0]), ".parent") || calleeName(c) == "builtin.append" && strings.Contains(w.render(callArgs(c)[1]), ".parent")
				}
				return false
			}, Goal: isReturnOf(fn)})
	} else {
		r.Undecided("hash-coverage/Scope.Hash/parent", "-", "function not found")
	}
	if fn := w.Func("modelchecker.Process.symmetricHashWithoutClone"); fn != nil {
		for _, typ := range []string{"Process", "Heap"} {
			w.must(r, step{Key: "hash-cache-reset/symmetricHashWithoutClone/" + typ, Why: "the identity of the unpermuted state is returned for a permutation", Fn: fn, NoEnter: w.onlyHelpers(fn),
				Through: w.storeTo(typ, "CachedHashCode", `^""$`), Goal: isCall("modelchecker.Process.HashCode")})
		}
	} else {
		r.Undecided("hash-cache-reset/symmetricHashWithoutClone", "-", "function not found")
	}
	for _, name := range []string{"modelchecker.Process.HashCode", "modelchecker.Heap.HashCode"} {
		fn := w.Func(name)
		if fn == nil {
			r.Undecided("hash-cache-returned/"+name, "-", "function not found")
			continue
		}
		w.must(r, step{Key: "hash-cache-returned/" + shortFn(fn), Why: "an identity that was never computed is returned", Fn: fn, NoEnter: w.onlyHelpers(fn),
			Cut:     anyCut(w.cutRel(`\.CachedHashCode$`, "!=", `^""$`), w.cutRel(`^len\(.*CachedHashCode\)$`, ">", `^0$`)),
			Through: isCall("hash.Hash.Sum", "sha256.Sum256"), Goal: isReturnOf(fn)})
	}
	// dedup uses the current identity of the very state
	if fn := w.Func("modelchecker.Processor.findVisitedSymmetric"); fn != nil {
		n := 0
		deepInstrs(fn, func(in ssa.Instruction) {
			if lk, ok := in.(*ssa.Lookup); ok && strings.HasSuffix(w.render(lk.X), ".visited") {
				n++
				k := w.sliceWith(lk.Index, sliceOpt{})
				good := k.hasCall(`modelchecker\.(Process\.HashCode|Process\.getSymmetryTranslations)`)
				r.Check("dedup-key/findVisitedSymmetric", w.ipos(in), good, ifBad(!good, "the visited table is looked up with "+w.render(lk.Index)))
			}
		})
		r.Floor("visited lookups", n, 1)
	} else {
		r.Undecided("dedup-key/findVisitedSymmetric", "-", "function not found")
	}
	// every entry of the visited table is filed under the identity that was looked up
	m := 0
	for _, fn := range w.Funcs {
		instrs(fn, func(in ssa.Instruction) {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok || !reMatch(`.*Processor\.visited`, w.render(mu.Map)) {
				return
			}
			m++
			k := w.render(mu.Key)
			good := re(`findVisitedSymmetric\(.*\)#2$|HashCode\(`).MatchString(k)
			node := isNilConst(mu.Value)
			if !node && good {
				node = w.filedUnderOwn(mu)
			}
			r.Check("dedup-entry/"+shortFn(fn), w.ipos(in), good && node, ifBad(!(good && node), "the visited table files "+w.render(mu.Value)+" under "+k))
		})
	}
	r.Floor("visited entries", m, 4)
}

// filedUnderOwn: the key of the table update was computed from the node that is stored.
func (w *World) filedUnderOwn(mu *ssa.MapUpdate) bool {
	own := func(v ssa.Value) string { return w.render(v) }
	val := own(mu.Value)
	found := false
	var look func(v ssa.Value, d int)
	look = func(v ssa.Value, d int) {
		if d > 8 || found {
			return
		}
		switch x := v.(type) {
		case *ssa.Extract:
			look(x.Tuple, d+1)
		case *ssa.Phi:
			for _, e := range x.Edges {
				look(e, d+1)
			}
		case *ssa.Call:
			for _, a := range callArgs(x) {
				if a == mu.Value || own(a) == val || own(a) == val+".Process" {
					found = true
				}
			}
		case *ssa.Parameter:
			f := x.Parent()
			cs := w.callers[f]
			if len(cs) == 1 {
				for i, p := range f.Params {
					if p == x && i < len(callArgs(cs[0])) {
						look(callArgs(cs[0])[i], d+1)
					}
				}
			}
		}
	}
	look(mu.Key, 0)
	return found
}

// sameBase: is the address rooted in p (possibly through embedded fields)?
func sameBase(x, p ssa.Value) bool {
	for {
		if x == p {
			return true
		}
		switch y := x.(type) {
		case *ssa.FieldAddr:
			x = y.X
		case *ssa.UnOp:
			x = y.X
		default:
			return false
		}
	}
}

// errNonNil: the edge on which an error value is known to be non-nil.
func errNonNil(w *World, e Edge) bool {
	b, ok := e.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	isErr := func(v ssa.Value) bool { return v.Type().String() == "error" }
	if !isErr(b.X) && !isErr(b.Y) {
		return false
	}
	for _, x := range w.rels(e.Cond, e.Taken) {
		if x.Op == "!=" && x.R == "nil" {
			return true
		}
	}
	return false
}

func ifBad(bad bool, s string) string {
	if bad {
		return s
	}
	return ""
}
