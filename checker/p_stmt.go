package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("S09", ruleS09) }

// binding: what the parameters of a helper are at one call site.
type binding map[ssa.Value]ssa.Value

func (b binding) of(v ssa.Value) ssa.Value {
	for i := 0; i < 8; i++ {
		n, ok := b[v]
		if !ok {
			return v
		}
		v = n
	}
	return v
}

func bindCall(c ssa.CallInstruction, f *ssa.Function, outer binding) binding {
	nb := binding{}
	for k, v := range outer {
		nb[k] = v
	}
	for i, a := range callArgs(c) {
		if i < len(f.Params) {
			nb[f.Params[i]] = outer.of(a)
		}
	}
	return nb
}

// strPart is a piece of a composed string: a constant, or a value.
type strPart struct {
	C string
	V ssa.Value
}

// strParts takes a string apart: concatenation, fmt.Sprintf with %s, %d and %v, and small helpers that do the same.
func (w *World) strParts(v ssa.Value, b binding, d int) []strPart {
	v = peelConv(b.of(v))
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return []strPart{{C: constant.StringVal(x.Value)}}
		}
		if x.Value != nil && x.Value.Kind() == constant.Int {
			return []strPart{{C: x.Value.ExactString()}}
		}
	case *ssa.MakeInterface:
		return w.strParts(x.X, b, d)
	case *ssa.BinOp:
		if isInt(x.Type()) {
			break
		}
		return append(append([]strPart{}, w.strParts(x.X, b, d)...), w.strParts(x.Y, b, d)...)
	case *ssa.Parameter:
		if cs := w.callers[x.Parent()]; len(cs) == 1 && d < 6 {
			for i, p := range x.Parent().Params {
				if p == x && i < len(callArgs(cs[0])) {
					return w.strParts(callArgs(cs[0])[i], b, d+1)
				}
			}
		}
	case *ssa.Call:
		n := calleeName(x)
		switch n {
		case "fmt.Sprintf":
			f, ok := x.Call.Args[0].(*ssa.Const)
			if !ok || f.Value == nil || len(x.Call.Args) < 2 {
				break
			}
			var args []ssa.Value
			if sl, ok := x.Call.Args[1].(*ssa.Slice); ok {
				if al, ok := sl.X.(*ssa.Alloc); ok {
					m := map[int64]ssa.Value{}
					for _, ref := range *al.Referrers() {
						if ia, ok := ref.(*ssa.IndexAddr); ok {
							c, ok := ia.Index.(*ssa.Const)
							if !ok {
								continue
							}
							for _, r2 := range *ia.Referrers() {
								if st, ok := r2.(*ssa.Store); ok && st.Addr == ia {
									m[c.Int64()] = st.Val
								}
							}
						}
					}
					for i := int64(0); i < int64(len(m)); i++ {
						args = append(args, m[i])
					}
				}
			}
			var out []strPart
			s := constant.StringVal(f.Value)
			k := 0
			for len(s) > 0 {
				i := strings.IndexByte(s, '%')
				if i < 0 || i+1 >= len(s) {
					out = append(out, strPart{C: s})
					break
				}
				out = append(out, strPart{C: s[:i]})
				if s[i+1] == '%' {
					out = append(out, strPart{C: "%"})
				} else if k < len(args) && args[k] != nil {
					out = append(out, w.strParts(args[k], b, d)...)
					k++
				}
				s = s[i+2:]
			}
			return out
		case "strconv.Itoa":
			return []strPart{{V: peelConv(b.of(x.Call.Args[0]))}}
		}
		if f := x.Call.StaticCallee(); f != nil && w.owns(f) && d < 4 {
			var ret *ssa.Return
			n := 0
			instrs(f, func(in ssa.Instruction) {
				if r, ok := in.(*ssa.Return); ok {
					ret = r
					n++
				}
			})
			if n == 1 && len(ret.Results) == 1 {
				p := w.strParts(ret.Results[0], bindCall(x, f, b), d+1)
				if len(p) > 1 {
					return p
				}
				if len(p) == 1 && p[0].V != nil {
					if _, isCall := p[0].V.(*ssa.Call); !isCall {
						return p
					}
				}
			}
		}
	}
	return []strPart{{V: v}}
}

// shape: the canonical form of a composed string; {pc} is the program counter of the running thread, {i} an index.
func (w *World) shape(v ssa.Value, b binding, isIndex func(ssa.Value) bool) string {
	out := ""
	for _, p := range w.strParts(v, b, 0) {
		switch {
		case p.V == nil:
			out += p.C
		case isIndex != nil && isIndex(p.V):
			out += "{i}"
		default:
			s := strings.ReplaceAll(w.render(p.V), "modelchecker.", "")
			s = re(pcOfCurrent).ReplaceAllString(s, "pc")
			out += "{" + s + "}"
		}
	}
	return out
}

const curFrame = `(?:Thread\.currentFrame\(Thread\)|CallFrame)`
const pcOfCurrent = `(?:Thread\.currentPc\(Thread\)|` + curFrame + `\.pc)`

// isStoreTo: a store to a field of a type; returns the store and what the field belongs to.
func fieldStore(in ssa.Instruction, typ, field string) (*ssa.Store, ssa.Value) {
	st, ok := in.(*ssa.Store)
	if !ok {
		return nil, nil
	}
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok || namedName(fa.X.Type()) != typ || fieldName(fa.X.Type(), fa.Field) != field {
		return nil, nil
	}
	return st, fa.X
}

// forked: is the base (a frame, scope, thread) that of a forked process rather than of the running thread?
func (w *World) forked(base ssa.Value, b binding) bool {
	s := w.render(b.of(base))
	if strings.Contains(s, "currentThread(") || strings.Contains(s, "Fork") || strings.Contains(s, "forkWithRefs") {
		return true
	}
	// a helper that works on the thread, process or frame it was handed
	for k, v := range b {
		p, ok := k.(*ssa.Parameter)
		if !ok || !anchorTypes[namedName(p.Type())] {
			continue
		}
		r := w.render(v)
		if (strings.Contains(r, "currentThread(") || strings.Contains(r, "Fork(")) && w.slice(base).vals[p] {
			return true
		}
	}
	return false
}

// via lifts a matcher of instructions over calls: a call of a helper all of whose paths execute a match.
func (w *World) via(m func(ssa.Instruction, binding) bool) func(ssa.Instruction) bool {
	var at func(in ssa.Instruction, b binding, d int) bool
	at = func(in ssa.Instruction, b binding, d int) bool {
		if m(in, b) {
			return true
		}
		c, ok := in.(*ssa.Call)
		if !ok || d > 2 {
			return false
		}
		f := c.Call.StaticCallee()
		if f == nil || !w.owns(f) || len(f.Blocks) == 0 || w.flowFns[f] || len(f.Blocks) > 40 {
			return false
		}
		nb := bindCall(c, f, b)
		any, bound := false, len(w.callers[f]) > 1
		instrs(f, func(x ssa.Instruction) {
			if at(x, nb, d+1) {
				any = true
				bound = bound || !at(x, nil, d+1)
			}
		})
		if !any || !bound { // a match that does not need the arguments is found in the helper itself
			return false
		}
		q := &Q{W: w, NoEnter: func(*ssa.Function) bool { return true },
			Through: func(x ssa.Instruction) bool { return x.Parent() == f && at(x, nb, d+1) }, Goal: retOf(f)}
		bad, _ := q.Entry(f)
		return !bad
	}
	memo := map[ssa.Instruction]bool{}
	return func(in ssa.Instruction) bool {
		if v, ok := memo[in]; ok {
			return v
		}
		memo[in] = false
		v := at(in, nil, 0)
		memo[in] = v
		return v
	}
}

// pcStore: the program counter of the running thread (or of a fork) becomes a path of this shape.
func (w *World) pcStore(fork bool, shape string, isIndex func(ssa.Value) bool) func(ssa.Instruction) bool {
	return w.via(func(in ssa.Instruction, b binding) bool {
		st, base := fieldStore(in, "CallFrame", "pc")
		return st != nil && w.forked(base, b) == fork && reMatch(shape, w.shape(st.Val, b, isIndex))
	})
}

// anyPc: any store to a program counter.
func anyPc(in ssa.Instruction) bool { st, _ := fieldStore(in, "CallFrame", "pc"); return st != nil }

// scopePop: the frame goes back to the enclosing scope.
func (w *World) scopePop(in ssa.Instruction) bool {
	if c, ok := in.(*ssa.Call); ok && calleeName(c) == "modelchecker.Thread.ExitScope" {
		return true
	}
	st, base := fieldStore(in, "CallFrame", "scope")
	return st != nil && !w.forked(base, nil) && reMatch(`.*\.scope\.parent|CallFrame\.scope\.parent|Scope\.parent`, w.render(st.Val))
}

// flowIs cuts the branches not taken under flow k (1 serial, 2 parallel, 3 atomic, 4 oneof).
func (w *World) flowIs(subject string, k int) func(Edge) bool {
	ks := fmt.Sprint(k)
	return func(e Edge) bool {
		for _, x := range w.rels(e.Cond, e.Taken) {
			if !re(subject).MatchString(x.L) || strings.Contains(x.L, ".parent.") {
				continue // the flow of another block says nothing about this one
			}
			if _, err := fmt.Sscanf(x.R, "%d", new(int)); err != nil {
				continue
			}
			if x.Op == "==" && x.R != ks || x.Op == "!=" && x.R == ks {
				return true
			}
		}
		return false
	}
}

const flowSubject = `\.[fF]low$`

// stmtKind cuts the branches not taken for a statement of one kind ("" for a kind the checker does not know).
func (w *World) stmtKind(kind string) func(Edge) bool {
	return func(e Edge) bool {
		b, ok := e.Cond.(*ssa.BinOp)
		if !ok || b.Op.String() != "==" && b.Op.String() != "!=" {
			return false
		}
		for _, p := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
			f := statementField(p[0])
			if f == "" || !isNilConst(p[1]) {
				continue
			}
			isNil := (b.Op.String() == "==") == e.Taken
			return (f == kind) == isNil
		}
		return false
	}
}

// statementField: v is this message field of a Statement.
func statementField(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && namedName(fa.X.Type()) == "Statement" {
			return fieldName(fa.X.Type(), fa.Field)
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && f.Signature.Recv() != nil && namedName(f.Signature.Recv().Type()) == "Statement" && strings.HasPrefix(f.Name(), "Get") {
			return strings.TrimPrefix(f.Name(), "Get")
		}
	}
	return ""
}

// evaluates: a Starlark evaluation of the expression (or statement) that renders as pat.
func (w *World) evaluates(pat string) func(ssa.Instruction) bool {
	memo := map[*ssa.Function]bool{}
	reaches := func(f *ssa.Function) bool {
		v, ok := memo[f]
		if !ok {
			for g := range w.reachable(f) {
				v = v || reMatch(`modelchecker\.Evaluator\..*|Evaluator\..*`, fname(g))
			}
			memo[f] = v
		}
		return v
	}
	return func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		f := c.Common().StaticCallee()
		if f == nil || !w.owns(f) || !reaches(f) {
			return false
		}
		for _, a := range callArgs(c) {
			if re(pat).MatchString(w.render(a)) {
				return true
			}
		}
		return false
	}
}

// countLoops: loops over the indexes of a collection, whether or not the elements are read.
func (w *World) countLoops(fns []*ssa.Function, over string, has func(ssa.Instruction) bool) []*LoopInfo {
	var out []*LoopInfo
	for _, f := range fns {
		known := map[*ssa.BasicBlock]*LoopInfo{}
		for _, l := range w.loopsOf(f) {
			known[l.Head] = l
		}
		for _, h := range f.Blocks {
			body := naturalLoop(h)
			if body == nil {
				continue
			}
			l := known[h]
			if o := lenOperand(h); o != nil {
				if l == nil {
					l = &LoopInfo{Fn: f, Head: h, Body: body, Elems: map[ssa.Value]bool{}}
				}
				l.Over = o
			}
			if l == nil || l.Over == nil || !re(over).MatchString(w.render(l.Over)) {
				continue
			}
			found := has == nil
			for b := range body {
				for _, in := range b.Instrs {
					found = found || has(in) || w.reachesInstr(in, has)
				}
			}
			if found {
				out = append(out, l)
			}
		}
	}
	return out
}

// yields: what a step function reports about yielding, per cut (its result at index i).
func (w *World) yields(r *Rep, key string, fn *ssa.Function, i int, cut func(Edge) bool, noEnter func(*ssa.Function) bool, enabled bool) {
	if !enabled {
		w.must(r, step{Key: key, Why: "it can yield here", Fn: fn, Cut: cut, NoEnter: noEnter, GoalEnv: mayReturn(fn, i, true)})
		return
	}
	w.must(r, step{Key: key + "/if-executed", Why: "it does not yield although something was executed", Fn: fn, NoEnter: noEnter,
		Cut: anyCut(cut, w.isFalse(`\.Enabled$`)), GoalEnv: returnsConst(fn, i, false)})
	w.must(r, step{Key: key + "/only-if-executed", Why: "it yields although nothing was executed", Fn: fn, NoEnter: noEnter,
		Cut: anyCut(cut, w.isTrue(`\.Enabled$`)), GoalEnv: returnsConst(fn, i, true)})
	w.must(r, step{Key: key + "/by-enabled", Why: "whether it yields is not decided by what was executed", Fn: fn, NoEnter: noEnter, Cut: cut,
		GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
			rt, ok := in.(*ssa.Return)
			if !ok || rt.Parent() != fn || i >= len(rt.Results) {
				return false
			}
			v := res(retVal(rt, i))
			if _, known := constBool(v); known {
				return false
			}
			for _, l := range phiLeaves(v) {
				if _, known := constBool(l); !known && !reMatch(`.*\.Enabled`, w.render(l)) {
					return true
				}
			}
			return false
		}})
}

func (w *World) hasSuffix(suffix string, is bool) func(Edge) bool {
	return w.cutRel(`HasSuffix\(.*,"`+qm(suffix)+`"\)$`, "==", map[bool]string{true: "^true$", false: "^false$"}[is])
}

// endsWith assumes that the path ends with this segment (or with none of the known ones).
func (w *World) endsWith(seg string) func(Edge) bool {
	var cuts []func(Edge) bool
	for _, s := range []string{".ForStmt", ".WhileStmt", ".AnyStmt"} {
		cuts = append(cuts, w.hasSuffix(s, s != seg))
	}
	return anyCut(cuts...)
}

// returnedFrom: is the forked process handed to the caller of fn as one of the alternatives (result 0)?
func (w *World) returned(fn *ssa.Function, fork ssa.Value) bool {
	ok, bad := false, false
	instrs(fn, func(in ssa.Instruction) {
		rt, is := in.(*ssa.Return)
		if !is || len(rt.Results) == 0 {
			return
		}
		if retVal(rt, 0) == fork { // a helper that makes one branch
			ok = true
			return
		}
		for _, l := range phiLeaves(retVal(rt, 0)) {
			if !w.sliceHolds(l, fork, map[ssa.Value]bool{}) {
				continue
			}
			ok = true
			if sl, is := l.(*ssa.Slice); is && (sl.Low != nil || sl.High != nil) {
				if _, arr := deref(sl.X.Type()).Underlying().(*types.Slice); arr {
					bad = true
				}
			}
		}
	})
	return ok && !bad
}

// sliceHolds: the slice value contains the element (appended, or stored at an index).
func (w *World) sliceHolds(v, elem ssa.Value, busy map[ssa.Value]bool) bool {
	if v == nil || busy[v] {
		return false
	}
	busy[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if w.sliceHolds(e, elem, busy) {
				return true
			}
		}
	case *ssa.Slice:
		return w.sliceHolds(x.X, elem, busy)
	case *ssa.Call:
		if calleeName(x) == "builtin.append" {
			for _, e := range appendedElems(x) {
				if e == elem {
					return true
				}
			}
			return w.sliceHolds(x.Call.Args[0], elem, busy)
		}
		if f := x.Call.StaticCallee(); f != nil && w.owns(f) && w.returned(f, elem) {
			return true
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok && x.Index == 0 {
			if f := c.Call.StaticCallee(); f != nil && w.owns(f) && w.returned(f, elem) {
				return true
			}
		}
	}
	if refs := v.Referrers(); refs != nil {
		for _, ref := range *refs {
			if ia, ok := ref.(*ssa.IndexAddr); ok && ia.X == v {
				for _, r2 := range *ia.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && st.Addr == ia && st.Val == elem {
						return true
					}
				}
			}
		}
	}
	return false
}

var forkCalls = []string{"modelchecker.Process.Fork", "modelchecker.Process.forkWithRefs", "modelchecker.Process.CloneForFork"}

func isFork(in ssa.Instruction) bool { return isCall(forkCalls...)(in) }

// keeps: the instruction puts a process on a list of alternatives.
func keepsFork(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.Call:
		if calleeName(x) == "builtin.append" {
			for _, e := range appendedElems(x) {
				if namedName(e.Type()) == "Process" {
					return true
				}
			}
		}
	case *ssa.Store:
		if ia, ok := x.Addr.(*ssa.IndexAddr); ok && namedName(x.Val.Type()) == "Process" {
			_, isArr := deref(ia.X.Type()).Underlying().(*types.Array)
			return !isArr
		}
	}
	return false
}

// alternatives: the loop forks once per element, gives the fork its path, keeps it, and the list is what fn returns.
func (w *World) alternatives(r *Rep, key string, fn *ssa.Function, l *LoopInfo, shape string, skip, leave func(Edge) bool) {
	w.wholeLoop(r, key+"/forked", l, isFork, skip, leave)
	if shape != "" {
		bad, tr := w.iterationSkips(l, w.pcStore(true, shape, l.isIndex), skip)
		r.Check(key+"/path", w.ipos(firstNonPhi(l.Head)), !bad, ifBad(bad, "the branch does not start at its own statement: "+strings.Join(tr, " → ")))
	}
	bad, tr := w.iterationSkips(l, keepsFork, skip)
	r.Check(key+"/kept", w.ipos(firstNonPhi(l.Head)), !bad, ifBad(bad, "a branch is dropped: "+strings.Join(tr, " → ")))
	for b := range l.Body {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok && isFork(in) {
				ok := w.returned(l.Fn, v)
				r.Check(key+"/returned", w.ipos(in), ok, ifBad(!ok, "the branches are not returned"))
			}
		}
	}
}

// appendsIndex: scope.skipstmts of the fork gets the index of the statement it executes.
func (w *World) skipsIndex(isIndex func(ssa.Value) bool) func(ssa.Instruction) bool {
	return w.via(func(in ssa.Instruction, b binding) bool {
		st, base := fieldStore(in, "Scope", "skipstmts")
		if st == nil || !w.forked(base, b) {
			return false
		}
		c, ok := st.Val.(*ssa.Call)
		if !ok || calleeName(c) != "builtin.append" {
			return false
		}
		own := w.render(c.Call.Args[0])
		if !strings.HasSuffix(own, ".skipstmts") {
			return false
		}
		for _, e := range appendedElems(c) {
			if isIndex(b.of(e)) {
				return true
			}
		}
		return false
	})
}

func ruleS09(c *Ctx, r *Rep) {
	w := c.World
	T := "modelchecker.Thread."
	ex, eb, es, ef, ew, eos := w.Func(T+"Execute"), w.Func(T+"executeBlock"), w.Func(T+"executeStatement"), w.Func(T+"executeForStatement"), w.Func(T+"executeWhileStatement"), w.Func(T+"executeEndOfStatement")
	eob := w.Func(T + "endOfBlock")
	if ex == nil || eb == nil || es == nil || ef == nil || ew == nil || eos == nil || eob == nil {
		r.Undecided("statements", "-", "a step function of Thread is missing")
		return
	}
	w.flowFns = map[*ssa.Function]bool{ex: true, eb: true, es: true, ef: true, ew: true, eos: true, eob: true}
	r.Rule("every kind of statement in the syntax tree has a branch of the interpreter that executes it; path queries under the assumption that exactly this kind is set")
	r.Rule("per flow (atomic, serial, oneof, parallel) the paths of the block, loop and end-of-statement steps set the prescribed next path and scope; the shape of every composed path is compared")
	r.Rule("loops that create alternatives fork for every index, give the fork the path (or element) of that index, keep it and return the list")

	eosName, ebName := T+"executeEndOfStatement", T+"executeBlock"
	callEos := isCall(eosName)
	only := func(fn *ssa.Function) func(*ssa.Function) bool {
		in := onlyIn(w.group(fn))
		return func(f *ssa.Function) bool {
			rs := f.Signature.Results()
			return w.flowFns[f] || in(f) && !(rs.Len() == 1 && isBoolType(rs.At(0).Type()))
		}
	}

	w.blockRules(r, eb, only(eb))
	w.endOfStatementRules(r, eos, only(eos))
	w.forRules(r, ef, es, only(ef), only(es))
	w.whileRules(r, ew, es, only(ew), only(es))
	w.kindRules(r, es, only(es), callEos, ebName)
	w.anyRules(r, es, only(es))
	w.leaveLoopRules(r, es, only(es))
	w.endOfBlockRules(r, eob, only(eob))
	w.executeRules(r, ex, only(ex))
	for _, fn := range []*ssa.Function{ex, eb, es, ef, ew, eos, eob} {
		w.handedOnRules(r, fn, only(fn))
	}
	w.pathRules(r)
	w.scopeRules(r)
	w.enabledRules(r)
}

func (w *World) blockRules(r *Rep, eb *ssa.Function, no func(*ssa.Function) bool) {
	fns := w.group(eb)
	for k, name := range map[int]string{1: "serial", 3: "atomic"} {
		w.must(r, step{Key: "block/" + name + "/first", Why: "the block is left without starting its first statement", Fn: eb, NoEnter: no,
			Cut: w.flowIs(flowSubject, k), Through: w.pcStore(false, `\{pc\}\.Stmts\[0\]`, nil), Goal: retOf(eb)})
		w.must(r, step{Key: "block/" + name + "/one-path", Why: "a sequential block forks", Fn: eb, NoEnter: no,
			Cut: w.flowIs(flowSubject, k), Goal: isFork})
	}
	loops := w.countLoops(fns, `\.Stmts$`, isFork)
	for k, name := range map[int]string{2: "parallel", 4: "oneof"} {
		cut := w.flowIs(flowSubject, k)
		w.must(r, step{Key: "block/" + name + "/alternatives", Why: "the block ends without a branch per statement", Fn: eb, NoEnter: no, Cut: cut,
			Through: headOf(loops), Goal: retOf(eb)})
		n := 0
		for _, l := range loops {
			q := &Q{W: w, Cut: cut, NoEnter: no, Goal: headOf([]*LoopInfo{l})}
			if ok, _ := q.Entry(eb); !ok {
				continue
			}
			n++
			key := "block/" + name
			w.alternatives(r, key, eb, l, `\{pc\}\.Stmts\[\{i\}\]`, cut, nil)
			if k == 2 {
				bad, tr := w.iterationSkips(l, w.skipsIndex(l.isIndex), cut)
				r.Check(key+"/done", w.ipos(firstNonPhi(l.Head)), !bad, ifBad(bad, "the statement is not marked as started: "+strings.Join(tr, " → ")))
			}
		}
		r.Floor("loops over the statements of a "+name+" block", n, 1)
	}
	w.must(r, step{Key: "block/unknown-flow", Why: "a flow that is not known is accepted", Fn: eb, NoEnter: no,
		Cut: w.flowIs(flowSubject, 99), Goal: retOf(eb)})
	w.must(r, step{Key: "block/scope", Why: "the block runs in the scope of its surroundings", Fn: eb,
		Through: isCall("modelchecker.Thread.InsertNewScope"), Goal: anyOf(retOf(eb), isFork, anyPc)})
	w.must(r, step{Key: "block/flow", Why: "the flow of the block is not that of its scope", Fn: eb, NoEnter: func(f *ssa.Function) bool { return fname(f) == "modelchecker.Scope.SetFlow" },
		Through: w.setsFlow(`\.Flow$`), Goal: anyOf(retOf(eb), isFork, anyPc)})
}

func (w *World) endOfStatementRules(r *Rep, eos *ssa.Function, no func(*ssa.Function) bool) {
	fns := w.group(eos)
	next := w.pcStore(false, `\{Thread\.FindNextProgramCounter\(Thread\)\}`, nil)
	endOfBlock := w.pcStore(false, `\{(?:EndOfBlock\(pc\)|replaceLastStmts\(pc,"\$"\))\}|\{ParentBlockPath\(pc\)\}\.\$`, nil)
	for k, name := range map[int]string{1: "serial", 3: "atomic"} {
		cut := w.flowIs(flowSubject, k)
		w.must(r, step{Key: "end/" + name + "/next", Why: "the thread does not go on with the next statement", Fn: eos, NoEnter: no, Cut: cut, Through: next, Goal: retOf(eos)})
		w.must(r, step{Key: "end/" + name + "/no-fork", Why: "a sequential block forks", Fn: eos, NoEnter: no, Cut: cut, Goal: isFork})
		w.yields(r, "end/"+name+"/yield", eos, 1, cut, no, k == 1)
	}
	for k, name := range map[int]string{2: "parallel", 4: "oneof"} {
		cut := w.flowIs(flowSubject, k)
		for _, loop := range []string{".ForStmt", ".WhileStmt"} {
			key := "end/" + name + "/loop" + loop
			w.must(r, step{Key: key + "/stays", Why: "the end of an iteration leaves the loop", Fn: eos, NoEnter: no, Cut: anyCut(cut, w.endsWith(loop)), Goal: anyOf(anyPc, isFork, w.scopePop)})
			w.yields(r, key+"/yield", eos, 1, anyCut(cut, w.endsWith(loop)), no, k == 2)
		}
	}
	w.must(r, step{Key: "end/oneof/block", Why: "the block goes on after the chosen statement", Fn: eos, NoEnter: no,
		Cut: anyCut(w.flowIs(flowSubject, 4), w.endsWith("")), Through: endOfBlock, Goal: retOf(eos)})
	w.yields(r, "end/oneof/yield", eos, 1, w.flowIs(flowSubject, 4), no, false)
	w.must(r, step{Key: "end/oneof/no-fork", Why: "another statement of the block is executed as well", Fn: eos, NoEnter: no, Cut: w.flowIs(flowSubject, 4), Goal: isFork})

	par := anyCut(w.flowIs(flowSubject, 2), w.endsWith(""))
	allDone := anyCut(w.cutRel(`len\(.*\.skipstmts\)$`, "==", `len\(.*\.Stmts\)$`), w.cutRel(`len\(.*\.skipstmts\)$`, ">=", `len\(.*\.Stmts\)$`))
	notDone := anyCut(w.cutRel(`len\(.*\.skipstmts\)$`, "!=", `len\(.*\.Stmts\)$`), w.cutRel(`len\(.*\.skipstmts\)$`, "<", `len\(.*\.Stmts\)$`))
	w.must(r, step{Key: "end/parallel/all-done", Why: "the block goes on although all its statements were executed", Fn: eos, NoEnter: no,
		Cut: anyCut(par, notDone), Through: endOfBlock, Goal: retOf(eos)})
	w.must(r, step{Key: "end/parallel/not-before", Why: "the block ends although statements are left", Fn: eos, NoEnter: no, Cut: anyCut(par, allDone), Goal: endOfBlock})
	loops := w.countLoops(fns, `\.Stmts$`, isFork)
	w.must(r, step{Key: "end/parallel/others", Why: "the remaining statements are not executed", Fn: eos, NoEnter: no, Cut: anyCut(par, allDone), Through: headOf(loops), Goal: retOf(eos)})
	done := w.isTrue(`(?:ContainsInt|slices\.Contains|Contains)(?:\[.*\])?\(.*\.skipstmts,`)
	for _, l := range loops {
		w.alternatives(r, "end/parallel", eos, l, `\{ParentBlockPath\(pc\)\}\.Stmts\[\{i\}\]`, done, nil)
		bad, tr := w.iterationSkips(l, w.skipsIndex(l.isIndex), done)
		r.Check("end/parallel/done", w.ipos(firstNonPhi(l.Head)), !bad, ifBad(bad, "the statement is not marked as started: "+strings.Join(tr, " → ")))
		q := &Q{W: w, Cut: anyCut(w.isFalse(`(?:ContainsInt|slices\.Contains|Contains)(?:\[.*\])?\(.*\.skipstmts,`)), Goal: isFork,
			NoEnter: no, Through: func(in ssa.Instruction) bool { return in.Block() == l.Head }}
		bad, tr = q.from(l.Fn, point{l.entry(), 0, l.Head})
		r.Check("end/parallel/once", w.ipos(firstNonPhi(l.Head)), !bad, ifBad(bad, "a statement that was started is executed again: "+strings.Join(tr, " → ")))
		for b := range l.Body {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && reMatch(`(?:.*\.)?(?:ContainsInt|Contains)(?:\[.*\])?`, calleeName(c)) && len(c.Call.Args) == 2 {
					ok := l.isIndex(c.Call.Args[1])
					r.Check("end/parallel/own-index", w.ipos(in), ok, ifBad(!ok, "whether a statement was started is asked for another statement"))
				}
			}
		}
	}
	r.Floor("loops over the remaining statements of a parallel block", len(loops), 1)
	if f := w.Func("modelchecker.ContainsInt"); f != nil {
		eq := w.cutRel(`.*`, "==", `.*`)
		w.must(r, step{Key: "end/parallel/contains", Why: "a statement counts as started that was not", Fn: f, Cut: eq, GoalEnv: mayReturn(f, 0, true)})
		for _, l := range w.loopsOf(f) {
			bad, tr := w.leavesEarly(l, eq)
			r.Check("end/parallel/contains/all", w.Pos(f.Pos()), !bad, ifBad(bad, "the search ends early: "+strings.Join(tr, " → ")))
		}
	}
	w.yields(r, "end/parallel/yield", eos, 1, anyCut(par, allDone), no, true)
	w.must(r, step{Key: "end/unknown-flow", Why: "a flow that is not known is accepted", Fn: eos, NoEnter: no, Cut: w.flowIs(flowSubject, 99), Goal: retOf(eos)})

	// the any statement has a scope of its own besides that of its block
	isAny := anyCut(w.hasSuffix(".AnyStmt", false))
	decided := func(in ssa.Instruction) bool { return next(in) || endOfBlock(in) || isFork(in) || retOf(eos)(in) }
	w.must(r, step{Key: "end/any/scope", Why: "the scope of the any statement stays", Fn: eos, NoEnter: no, Cut: isAny, Through: w.scopePop, Goal: decided})
	w.must(r, step{Key: "end/any/path", Why: "the any statement is not what ends", Fn: eos, NoEnter: no, Cut: isAny,
		Through: w.pcStore(false, `\{(?:RemoveLastSegment|strings\.TrimSuffix)\(pc,"\.AnyStmt"\)\}`, nil), Goal: decided})
	w.must(r, step{Key: "end/any/only", Why: "the scope of another statement is left", Fn: eos, NoEnter: no, Cut: w.hasSuffix(".AnyStmt", true), Goal: w.scopePop})
}

// setsFlow: a scope gets the flow that renders as pat.
func (w *World) setsFlow(pat string) func(ssa.Instruction) bool {
	return w.via(func(in ssa.Instruction, b binding) bool {
		if c, ok := in.(*ssa.Call); ok && calleeName(c) == "modelchecker.Scope.SetFlow" {
			return re(pat).MatchString(w.render(b.of(callArgs(c)[1])))
		}
		st, _ := fieldStore(in, "Scope", "flow")
		return st != nil && re(pat).MatchString(w.render(b.of(st.Val)))
	})
}

// loopVar: scope.vars[loopVars[0]] of the (forked) frame becomes a value.
func (w *World) loopVar(fork bool, val func(ssa.Value) bool) func(ssa.Instruction) bool {
	return w.via(func(in ssa.Instruction, b binding) bool {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok || !re(`\.vars$`).MatchString(w.render(mu.Map)) || w.forked(mu.Map, b) != fork {
			return false
		}
		return re(`\.[lL]oopVars\[0\]$`).MatchString(w.render(b.of(mu.Key))) && val(b.of(mu.Value))
	})
}

func (w *World) forRules(r *Rep, ef, es *ssa.Function, no, noEs func(*ssa.Function) bool) {
	T := "modelchecker.Thread."
	callEos := isCall(T + "executeEndOfStatement")
	empty, nonEmpty := w.isEmpty(`.*\.loopRange`), w.nonEmpty(`.*\.loopRange`)
	block := w.pcStore(false, `\{pc\}\.Block`, nil)
	after := w.pcStore(false, `\{(?:RemoveLastForStmt|RemoveLastLoop)\(pc\)\}|\{(?:RemoveLastSegment|strings\.TrimSuffix)\(pc,"\.ForStmt"\)\}`, nil)
	w.must(r, step{Key: "for/end/scope", Why: "the scope of the loop stays after its last iteration", Fn: ef, NoEnter: no, Cut: nonEmpty, Through: w.scopePop, Goal: anyOf(retOf(ef), callEos)})
	w.must(r, step{Key: "for/end/path", Why: "the loop does not end after its last element", Fn: ef, NoEnter: no, Cut: nonEmpty, Through: after, Goal: anyOf(retOf(ef), callEos)})
	w.must(r, step{Key: "for/end/next", Why: "the thread does not go on after the loop", Fn: ef, NoEnter: no, Cut: nonEmpty, Through: callEos, Goal: retOf(ef)})
	w.must(r, step{Key: "for/all-elements", Why: "the loop ends with elements left", Fn: ef, NoEnter: no, Cut: empty, Goal: anyOf(callEos, w.scopePop, after)})
	w.must(r, step{Key: "for/block", Why: "an iteration does not execute the body", Fn: ef, NoEnter: no, Cut: empty, Through: block, Goal: anyOf(retOf(ef), isFork)})

	for k, name := range map[int]string{1: "serial", 3: "atomic"} {
		cut := anyCut(empty, w.flowIs(flowSubject, k))
		w.must(r, step{Key: "for/" + name + "/element", Why: "the loop variable is not the first remaining element", Fn: ef, NoEnter: no, Cut: cut,
			Through: w.loopVar(false, func(v ssa.Value) bool { return re(`\.loopRange\[0\]$`).MatchString(w.render(v)) }), Goal: retOf(ef)})
		rest := func(in ssa.Instruction) bool {
			st, base := fieldStore(in, "Scope", "loopRange")
			return st != nil && !w.forked(base, nil) && re(`\.loopRange\[1:\]$|^(?:slices\.Delete|removeElement).*\.loopRange,0`).MatchString(w.render(st.Val))
		}
		w.must(r, step{Key: "for/" + name + "/rest", Why: "the element stays in the loop", Fn: ef, NoEnter: no, Cut: cut, Through: rest, Goal: retOf(ef)})
		w.must(r, step{Key: "for/" + name + "/one-path", Why: "a sequential loop forks", Fn: ef, NoEnter: no, Cut: cut, Goal: isFork})
		w.yields(r, "for/"+name+"/yield", ef, 1, cut, no, false)
	}
	// the element is read before it is removed
	for _, f := range w.group(ef) {
		instrs(f, func(in ssa.Instruction) {
			st, base := fieldStore(in, "Scope", "loopRange")
			if st == nil || w.forked(base, nil) {
				return
			}
			w.must(r, step{Key: "for/order", Why: "the first remaining element is read after it was removed", Fn: f, After: in, NoEnter: no,
				Goal: func(x ssa.Instruction) bool {
					ia, ok := x.(*ssa.UnOp)
					return ok && re(`\.loopRange\[0\]$`).MatchString(w.render(ia)) && !w.forked(ia, nil)
				}})
		})
	}
	loops := w.countLoops(w.group(ef), `\.loopRange$`, isFork)
	par := anyCut(empty, w.flowIs(flowSubject, 2))
	w.must(r, step{Key: "for/parallel/alternatives", Why: "a parallel loop does not branch over its elements", Fn: ef, NoEnter: no, Cut: par, Through: headOf(loops), Goal: retOf(ef)})
	w.yields(r, "for/parallel/yield", ef, 1, par, no, false)
	for _, l := range loops {
		w.alternatives(r, "for/parallel", ef, l, "", nil, nil)
		elem := func(v ssa.Value) bool { i := elemIndex(v); return i != nil && l.isIndex(i) }
		bad, tr := w.iterationSkips(l, w.loopVar(true, elem), nil)
		r.Check("for/parallel/element", w.ipos(firstNonPhi(l.Head)), !bad, ifBad(bad, "the loop variable of the branch is not its element: "+strings.Join(tr, " → ")))
		rest := w.via(func(in ssa.Instruction, b binding) bool {
			st, base := fieldStore(in, "Scope", "loopRange")
			if st == nil || !w.forked(base, b) {
				return false
			}
			c, ok := b.of(st.Val).(*ssa.Call)
			if !ok || len(c.Call.Args) < 2 || !re(`\.loopRange$`).MatchString(w.render(c.Call.Args[0])) || !l.isIndex(b.of(c.Call.Args[1])) {
				return false
			}
			n := calleeName(c)
			if strings.HasPrefix(n, "slices.Delete") && len(c.Call.Args) > 2 {
				bo, ok := c.Call.Args[2].(*ssa.BinOp)
				return ok && l.isIndex(bo.X) && w.render(bo.Y) == "1"
			}
			return strings.HasPrefix(n, "modelchecker.removeElement")
		})
		bad, tr = w.iterationSkips(l, rest, nil)
		r.Check("for/parallel/rest", w.ipos(firstNonPhi(l.Head)), !bad, ifBad(bad, "the element stays in the loop of the branch: "+strings.Join(tr, " → ")))
	}
	r.Floor("loops over the elements of a parallel loop", len(loops), 1)

	// removeElement leaves out exactly the element at the index
	for _, f := range w.Funcs {
		if !strings.HasPrefix(fname(f), "modelchecker.removeElement") || len(f.Params) != 2 {
			continue
		}
		w.removesOne(r, f)
		break
	}

	// the loop starts with all elements
	k := w.stmtKind("ForStmt")
	w.must(r, step{Key: "for/start/eval", Why: "the collection is not evaluated", Fn: es, NoEnter: noEs, Cut: k, Through: w.evaluates(`\.ForStmt\.IterExpr$`), Goal: w.pcStore(false, `.*\.ForStmt`, nil)})
	init := func(in ssa.Instruction) bool {
		st, base := fieldStore(in, "Scope", "loopRange")
		return st != nil && !w.forked(base, nil)
	}
	isAborted := w.storeTo("Thread", "Aborted", "true")
	moved := anyOf(isAborted, isCall(T+"disableTransition"))
	w.must(r, step{Key: "for/start/path", Why: "the loop is not started", Fn: es, NoEnter: noEs, Cut: k, Through: anyOf(moved, w.pcStore(false, `\{pc\}\.ForStmt`, nil)), Goal: retOf(es)})
	w.must(r, step{Key: "for/start/scope", Why: "the loop has no scope of its own", Fn: es, NoEnter: noEs, Cut: k, Through: anyOf(moved, w.via(isCallB(T+"InsertNewScope"))), Goal: anyOf(init, retOf(es))})
	w.must(r, step{Key: "for/start/flow", Why: "the loop does not get its flow", Fn: es, NoEnter: noEs, Cut: k,
		Through: anyOf(moved, w.setsFlow(`\.ForStmt\.Flow$`)), Goal: retOf(es)})
	w.must(r, step{Key: "for/start/variable", Why: "the loop does not know its variable", Fn: es, NoEnter: noEs, Cut: k,
		Through: anyOf(moved, w.storeTo("Scope", "loopVars", `\.ForStmt\.LoopVars$`)), Goal: retOf(es)})
	w.must(r, step{Key: "for/start/oneof", Why: "a loop with oneof flow is accepted", Fn: es, NoEnter: noEs, Cut: anyCut(k, w.flowIs(`\.ForStmt\.Flow$`, 4)), Goal: retOf(es)})
	n := 0
	for _, f := range w.group(es) {
		if w.flowFns[f] && f != es {
			continue
		}
		for _, l := range w.loopsOf(f) {
			has := false
			for b := range l.Body {
				for _, in := range b.Instrs {
					has = has || init(in)
				}
			}
			if !has {
				continue
			}
			n++
			w.wholeLoop(r, "for/start/elements", l, func(in ssa.Instruction) bool {
				st, _ := fieldStore(in, "Scope", "loopRange")
				if st == nil {
					return false
				}
				c, ok := st.Val.(*ssa.Call)
				if !ok || calleeName(c) != "builtin.append" || !re(`\.loopRange$`).MatchString(w.render(c.Call.Args[0])) {
					return false
				}
				for _, e := range appendedElems(c) {
					if w.dependsOn(e, l.Elems) {
						return true
					}
				}
				return false
			}, nil, nil)
		}
	}
	r.Floor("loops filling the elements of a for statement", n, 1)
}

// removesOne: the function returns its list without the element at the index.
func (w *World) removesOne(r *Rep, f *ssa.Function) {
	list, index := ssa.Value(f.Params[0]), ssa.Value(f.Params[1])
	in, ls := qm(w.render(index)), qm(w.render(list))
	outside := anyCut(w.cutRel("^"+in+"$", "<", "^0$"), w.cutRel("^"+in+"$", ">=", `^len\(`+ls+`\)$`))
	w.must(r, step{Key: "for/parallel/remove/inside", Why: "nothing is removed although the index is in the list", Fn: f, Cut: outside,
		GoalEnv: func(x ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
			rt, ok := x.(*ssa.Return)
			return ok && rt.Parent() == f && res(retVal(rt, 0)) == list
		}})
	lo, hi, extra := false, false, ""
	instrs(f, func(x ssa.Instruction) {
		sl, ok := x.(*ssa.Slice)
		if !ok || sl.X != list {
			return
		}
		switch {
		case sl.Low == nil && sl.High == index:
			lo = true
		case sl.High == nil && isPlusOne(sl.Low, index):
			hi = true
		default:
			extra = w.render(sl)
		}
	})
	for _, l := range w.loopsOf(f) {
		if l.Over != list || lo || hi {
			continue
		}
		isHere := func(want bool) func(Edge) bool {
			return func(e Edge) bool {
				b, ok := e.Cond.(*ssa.BinOp)
				if !ok || b.Op.String() != "==" && b.Op.String() != "!=" {
					return false
				}
				if !(l.isIndex(b.X) && b.Y == index || l.isIndex(b.Y) && b.X == index) {
					return false
				}
				return (b.Op.String() == "==") == e.Taken == want
			}
		}
		kept := func(x ssa.Instruction) bool {
			c, ok := x.(*ssa.Call)
			if !ok || calleeName(c) != "builtin.append" {
				return false
			}
			for _, e := range appendedElems(c) {
				if l.Elems[e] {
					return true
				}
			}
			return false
		}
		skips, _ := w.iterationSkips(l, kept, isHere(true))
		early, _ := w.leavesEarly(l, nil)
		q := &Q{W: w, Cut: isHere(false), Goal: kept, Through: func(x ssa.Instruction) bool { return x.Block() == l.Head }}
		keeps, _ := q.from(f, point{l.entry(), 0, l.Head})
		lo = !skips && !early && !keeps && w.partial(l) == ""
		hi = lo
	}
	ok := lo && hi && extra == ""
	r.Check("for/parallel/remove", w.Pos(f.Pos()), ok, ifBad(!ok, "what is removed is not exactly the element at the index "+extra))
}

func isCallB(names ...string) func(ssa.Instruction, binding) bool {
	m := isCall(names...)
	return func(in ssa.Instruction, _ binding) bool { return m(in) }
}

func isPlusOne(v, of ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op.String() != "+" {
		return false
	}
	for _, p := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
		if c, ok := p[1].(*ssa.Const); ok && p[0] == of && c.Value != nil && c.Int64() == 1 {
			return true
		}
	}
	return false
}

func (w *World) whileRules(r *Rep, ew, es *ssa.Function, no, noEs func(*ssa.Function) bool) {
	T := "modelchecker.Thread."
	callEos := isCall(T + "executeEndOfStatement")
	aborted := anyOf(w.storeTo("Thread", "Aborted", "true"), isCall(T+"disableTransition"))
	cond := `Truth\(.*\.IterExpr`
	w.must(r, step{Key: "while/condition", Why: "the condition is not evaluated before each iteration", Fn: ew, NoEnter: no, Through: w.evaluates(`\.IterExpr$`), Goal: retOf(ew)})
	w.must(r, step{Key: "while/true/body", Why: "the body is not executed although the condition holds", Fn: ew, NoEnter: no, Cut: w.isFalse(cond),
		Through: anyOf(aborted, w.pcStore(false, `\{pc\}\.Block`, nil)), Goal: anyOf(retOf(ew), callEos)})
	w.must(r, step{Key: "while/false/body", Why: "the body is executed although the condition does not hold", Fn: ew, NoEnter: no, Cut: w.isTrue(cond), Goal: w.pcStore(false, `.*\.Block`, nil)})
	after := w.pcStore(false, `\{(?:RemoveLastWhileStmt|RemoveLastLoop)\(pc\)\}|\{(?:RemoveLastSegment|strings\.TrimSuffix)\(pc,"\.WhileStmt"\)\}`, nil)
	w.must(r, step{Key: "while/false/path", Why: "the loop does not end when its condition no longer holds", Fn: ew, NoEnter: no, Cut: w.isTrue(cond), Through: anyOf(aborted, after), Goal: anyOf(retOf(ew), callEos)})
	w.must(r, step{Key: "while/false/scope", Why: "the scope of the loop stays after its end", Fn: ew, NoEnter: no, Cut: w.isTrue(cond), Through: anyOf(aborted, w.scopePop), Goal: anyOf(retOf(ew), callEos)})
	w.must(r, step{Key: "while/false/next", Why: "the thread does not go on after the loop", Fn: ew, NoEnter: no, Cut: w.isTrue(cond), Through: anyOf(aborted, callEos), Goal: retOf(ew)})
	for _, k := range []int{2, 4} {
		w.must(r, step{Key: fmt.Sprintf("while/flow-%d", k), Why: "a flow that while does not support is accepted", Fn: ew, NoEnter: no, Cut: w.flowIs(flowSubject, k), Goal: retOf(ew)})
	}
	k := w.stmtKind("WhileStmt")
	w.must(r, step{Key: "while/start/path", Why: "the loop is not started", Fn: es, NoEnter: noEs, Cut: k, Through: w.pcStore(false, `\{pc\}\.WhileStmt`, nil), Goal: retOf(es)})
	w.must(r, step{Key: "while/start/scope", Why: "the loop has no scope of its own", Fn: es, NoEnter: noEs, Cut: k, Through: w.via(isCallB(T + "InsertNewScope")), Goal: retOf(es)})
	w.must(r, step{Key: "while/start/flow", Why: "the loop does not get its flow", Fn: es, NoEnter: noEs, Cut: k,
		Through: w.setsFlow(`\.WhileStmt\.Flow$`), Goal: retOf(es)})
}

func (w *World) kindRules(r *Rep, es *ssa.Function, no func(*ssa.Function) bool, callEos func(ssa.Instruction) bool, ebName string) {
	T := "modelchecker.Thread."
	aborted := anyOf(w.storeTo("Thread", "Aborted", "true"), isCall(T+"disableTransition"))
	goesOn := anyOf(callEos, isCall(T+"pushFrame"), isCall(T+"endWithoutYield"), aborted)
	seq := w.pcStore(false, `\{Thread\.FindNextProgramCounter\(Thread\)\}`, nil)
	enable := isCall("modelchecker.Process.Enable")
	checkpoint := func(in ssa.Instruction) bool { return false }
	_ = checkpoint
	type kindRule struct {
		what    string
		why     string
		through func(ssa.Instruction) bool
		cut     func(Edge) bool
	}
	isPass := w.cutRel(`\.PyStmt\.Code$`, "==", `^"?pass"?$`)
	kinds := map[string][]kindRule{
		"PyStmt": {
			{"executed", "the statement is not executed", w.evaluates(`\.PyStmt$`), isPass},
			{"stored", "the variables are not updated", anyOf(aborted, isCall("modelchecker.Process.updateAllVariablesInScope")), isPass},
			{"counts", "the statement does not count as executed", anyOf(aborted, enable), nil},
			{"next", "the thread does not go on", anyOf(goesOn, seq), nil},
		},
		"Block": {{"executed", "the block is not executed", anyOf(isCall(ebName)), nil},
			{"path", "the block is not what the thread executes", w.pcStore(false, `\{pc\}\.Block`, nil), nil}},
		"IfStmt": {{"next", "the thread does not go on after an if statement without a branch", anyOf(callEos, isCall(T+"pushFrame"), aborted, w.pcStore(false, `\{pc\}\.IfStmt\.Branches\[\{.*\}\]\.Block`, nil)), nil}},
		"RequireStmt": {{"evaluated", "the condition is not evaluated", w.evaluates(`\.RequireStmt\.ConditionExpr$`), nil},
			{"false", "the transition goes on although the requirement does not hold", aborted, w.isTrue(`Truth\(.*\.RequireStmt\.ConditionExpr`)},
			{"next", "the thread does not go on", goesOn, nil}},
		"ReturnStmt":   {{"frame", "the call is not left", anyOf(aborted, isCall(T+"popFrame")), nil}},
		"CallStmt":     {{"resolved", "the called function is not looked up", isCall(T + "getDefinition"), nil}},
		"AnyStmt":      {{"evaluated", "the collection is not evaluated", w.evaluates(`\.AnyStmt\.IterExpr$`), nil}},
		"ForStmt":      {{"evaluated", "the collection is not evaluated", w.evaluates(`\.ForStmt\.IterExpr$`), nil}},
		"WhileStmt":    {{"path", "the loop is not started", w.pcStore(false, `\{pc\}\.WhileStmt`, nil), nil}},
		"BreakStmt":    {{"next", "the thread does not go on after the loop", callEos, nil}},
		"ContinueStmt": {{"next", "the iteration does not end", w.pcStore(false, `\{pc\}\.Block\.\$`, nil), nil}},
	}
	var st *types.Named
	if f := w.Func("modelchecker.convertToStatement"); f != nil {
		st, _ = deref(f.Signature.Results().At(0).Type()).(*types.Named)
	}
	if st == nil {
		r.Undecided("kinds", "-", "the statement type of the syntax tree was not found")
		return
	}
	n := 0
	for _, f := range fieldsOf(st) {
		p, ok := f.Type().(*types.Pointer)
		if !ok || !f.Exported() || namedName(p) == "SourceInfo" {
			continue
		}
		if _, ok := p.Elem().Underlying().(*types.Struct); !ok {
			continue
		}
		n++
		rules, known := kinds[f.Name()]
		if !known {
			w.must(r, step{Key: "kind/" + f.Name(), Why: "a kind of statement is accepted that the checker has no rule for", Fn: es, NoEnter: no, Cut: w.stmtKind(f.Name()), Goal: retOf(es)})
			continue
		}
		for _, k := range rules {
			cut := w.stmtKind(f.Name())
			if k.cut != nil {
				cut = anyCut(cut, k.cut)
			}
			w.must(r, step{Key: "kind/" + f.Name() + "/" + k.what, Why: k.why, Fn: es, NoEnter: no, Cut: cut, Through: k.through, Goal: retOf(es)})
		}
	}
	r.Floor("kinds of statements", n, 11)
	w.must(r, step{Key: "kind/unknown", Why: "a statement of no known kind is accepted", Fn: es, NoEnter: no, Cut: w.stmtKind(""), Goal: retOf(es)})
	// a requirement that holds does not end the transition
	w.must(r, step{Key: "kind/RequireStmt/true", Why: "the transition is abandoned although the requirement holds", Fn: es, NoEnter: no,
		Cut:  anyCut(w.stmtKind("RequireStmt"), w.isFalse(`Truth\(.*\.RequireStmt\.ConditionExpr`), w.isTrue(`IsDisableTransitionError\(`)),
		Goal: w.storeTo("Thread", "Aborted", "true")})

	// if: the branches in order, each guarded by its own condition
	loops := w.countLoops(w.group(es), `\.IfStmt\.Branches$`, w.evaluates(`ConditionExpr$`))
	for _, l := range loops {
		taken := w.pcStore(false, `\{pc\}\.IfStmt\.Branches\[\{i\}\]\.Block`, l.isIndex)
		anyBranch := w.pcStore(false, `.*\.IfStmt\.Branches\[.*`, nil)
		truth := `Truth\(.*ConditionExpr`
		w.wholeLoop(r, "if/branches", l, w.evaluates(`ConditionExpr$`), nil, anyCut(w.isTrue(truth), w.isTrue(`IsDisableTransitionError\(`), w.cutRel(`.*#1$`, "!=", "^nil$")))
		q := &Q{W: w, NoEnter: no, Cut: w.isTrue(truth), Goal: anyBranch, Through: func(in ssa.Instruction) bool { return in.Block() == l.Head }}
		bad, tr := q.from(l.Fn, point{l.entry(), 0, l.Head})
		r.Check("if/only-if", w.ipos(firstNonPhi(l.Head)), !bad, ifBad(bad, "a branch is taken although its condition does not hold: "+strings.Join(tr, " → ")))
		q = &Q{W: w, NoEnter: no, Cut: anyCut(w.isFalse(truth)), Through: anyOf(taken, aborted), Goal: func(in ssa.Instruction) bool {
			return in.Parent() == l.Fn && (in.Block() == l.Head || retOf(l.Fn)(in))
		}}
		bad, tr = q.from(l.Fn, point{l.entry(), 0, l.Head})
		r.Check("if/taken", w.ipos(firstNonPhi(l.Head)), !bad, ifBad(bad, "a branch is not taken although its condition holds: "+strings.Join(tr, " → ")))
		for b := range l.Body {
			for _, in := range b.Instrs {
				if w.evaluates(`ConditionExpr$`)(in) {
					ok := false
					for _, a := range callArgs(in.(ssa.CallInstruction)) {
						if re(`ConditionExpr$`).MatchString(w.render(a)) && w.dependsOn(a, l.Elems) {
							ok = true
						}
					}
					r.Check("if/own-condition", w.ipos(in), ok, ifBad(!ok, "the condition of another branch is evaluated"))
				}
			}
		}
	}
	r.Floor("loops over the branches of an if statement", len(loops), 1)
	w.must(r, step{Key: "if/evaluated", Why: "the branches are not looked at", Fn: es, NoEnter: no, Cut: w.stmtKind("IfStmt"), Through: headOf(loops), Goal: retOf(es)})
}

func (w *World) anyRules(r *Rep, es *ssa.Function, no func(*ssa.Function) bool) {
	T := "modelchecker.Thread."
	kind := w.stmtKind("AnyStmt")
	withBlock := anyCut(kind, w.cutRel(`\.AnyStmt\.Block$`, "==", "^nil$"))
	without := anyCut(kind, w.cutRel(`\.AnyStmt\.Block$`, "!=", "^nil$"))
	truth := `Truth\(.*\.AnyStmt\.ConditionExpr`
	disabled := w.isTrue(`IsDisableTransitionError\(`)
	aborted := w.storeTo("Thread", "Aborted", "true")
	var loops []*LoopInfo
	for _, l := range w.loopsIn(w.group(es), func(v ssa.Value) bool { return true }, isFork) {
		if w.flowFns[l.Fn] && l.Fn != es {
			continue
		}
		if re(`\.AnyStmt\.IterExpr`).MatchString(w.render(l.Over)) {
			loops = append(loops, l)
		}
	}
	r.Floor("loops over the values of an any statement", len(loops), 1)
	notEvaluated := w.cutRel(`\.AnyStmt\.Condition$`, "==", `^""$`)
	for _, l := range loops {
		pos := w.ipos(firstNonPhi(l.Head))
		w.wholeLoop(r, "any/each", l, keepsFork, anyCut(w.isFalse(truth), disabled), nil)
		w.wholeLoop(r, "any/forked", l, isFork, nil, nil)
		for b := range l.Body {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok && isFork(in) {
					ok := w.returned(l.Fn, v)
					r.Check("any/returned", w.ipos(in), ok, ifBad(!ok, "the branches are not returned"))
				}
			}
		}
		inIter := func(in ssa.Instruction) bool { return in.Block() == l.Head }
		q := &Q{W: w, NoEnter: no, Cut: anyCut(w.isTrue(truth), notEvaluated), Goal: keepsFork, Through: inIter}
		bad, tr := q.from(l.Fn, point{l.entry(), 0, l.Head})
		r.Check("any/only-if", pos, !bad, ifBad(bad, "a value is taken that does not satisfy the condition: "+strings.Join(tr, " → ")))
		q = &Q{W: w, NoEnter: no, Cut: anyCut(notEvaluated), Goal: keepsFork, Through: anyOf(inIter, w.evaluates(`\.AnyStmt\.ConditionExpr$`))}
		bad, tr = q.from(l.Fn, point{l.entry(), 0, l.Head})
		r.Check("any/condition", pos, !bad, ifBad(bad, "a value is taken without evaluating the condition: "+strings.Join(tr, " → ")))

		val := func(v ssa.Value) bool { return w.dependsOn(v, l.Elems) }
		bound := w.via(func(in ssa.Instruction, b binding) bool {
			c, ok := in.(*ssa.Call)
			if !ok || calleeName(c) != "modelchecker.Process.updateVariable" {
				return false
			}
			a := callArgs(c)
			return w.forked(a[0], b) && re(`\.LoopVars\[0\]$`).MatchString(w.render(b.of(a[1]))) && val(b.of(a[2]))
		})
		skip := anyCut(w.isFalse(truth), disabled)
		bad, tr = w.iterationSkips(l, anyOf(bound, w.loopVar(true, val)), skip)
		r.Check("any/variable", pos, !bad, ifBad(bad, "the variable of the branch is not bound to its value: "+strings.Join(tr, " → ")))
		bad, tr = w.iterationSkips(l, w.pcStore(true, `\{pc\}\.AnyStmt\.Block`, nil), anyCut(skip, withBlock))
		r.Check("any/block/path", pos, !bad, ifBad(bad, "the branch does not execute the block: "+strings.Join(tr, " → ")))
		movesOn := anyOf(w.pcStore(true, `\{.*FindNextProgramCounter\(.*\)\}`, nil), func(in ssa.Instruction) bool {
			c, ok := in.(ssa.CallInstruction)
			return ok && (calleeName(c) == T+"endWithoutYield") && w.forked(callArgs(c)[0], nil)
		})
		bad, tr = w.iterationSkips(l, movesOn, anyCut(skip, without))
		r.Check("any/assign/path", pos, !bad, ifBad(bad, "the branch does not go on after the assignment: "+strings.Join(tr, " → ")))
		q = &Q{W: w, NoEnter: no, Cut: without, Goal: w.pcStore(true, `.*\.AnyStmt\.Block`, nil), Through: inIter}
		bad, tr = q.from(l.Fn, point{l.entry(), 0, l.Head})
		r.Check("any/assign/no-block", pos, !bad, ifBad(bad, "a missing block is executed: "+strings.Join(tr, " → ")))
		w.must(r, step{Key: "any/block/scope", Why: "the block of the any statement has no scope of its own", Fn: es, NoEnter: no, Cut: withBlock,
			Through: isCall(T + "InsertNewScope"), Goal: headOf([]*LoopInfo{l})})
		w.must(r, step{Key: "any/looked-at", Why: "the values are not looked at", Fn: es, NoEnter: no, Cut: anyCut(kind, disabled), Through: anyOf(aborted, headOf([]*LoopInfo{l})), Goal: retOf(es)})
	}
	some, none := w.nonEmpty(`.*\*?\[\]?.*Process.*`), w.isEmpty(`.*Process.*`)
	// no branch: a block is skipped, an assignment has no value to assign
	noBranch := anyCut(some, disabled)
	w.must(r, step{Key: "any/none/assign", Why: "the transition goes on although there is no value to assign", Fn: es, NoEnter: no, Cut: anyCut(without, noBranch), Through: anyOf(aborted, isCall(T+"disableTransition")), Goal: retOf(es)})
	w.must(r, step{Key: "any/none/block/scope", Why: "the scope of the any statement stays when there is no value", Fn: es, NoEnter: no, Cut: anyCut(withBlock, noBranch), Through: w.scopePop, Goal: anyOf(retOf(es), isCall(T+"executeEndOfStatement"))})
	w.must(r, step{Key: "any/none/block/next", Why: "the thread does not go on when there is no value", Fn: es, NoEnter: no, Cut: anyCut(withBlock, noBranch), Through: isCall(T+"executeEndOfStatement", T+"pushFrame"), Goal: retOf(es)})
	w.must(r, step{Key: "any/some/counts", Why: "an assignment does not count as executed", Fn: es, NoEnter: no, Cut: anyCut(without, none, disabled), Through: anyOf(aborted, isCall("modelchecker.Process.Enable")), Goal: retOf(es)})
	w.must(r, step{Key: "any/some/kept", Why: "the transition is abandoned although there are values", Fn: es, NoEnter: no, Cut: anyCut(kind, none, disabled), Goal: aborted})
}

func (w *World) leaveLoopRules(r *Rep, es *ssa.Function, no func(*ssa.Function) bool) {
	T := "modelchecker.Thread."
	callEos := isCall(T + "executeEndOfStatement")
	up := w.pcStore(false, `\{RemoveLastBlock\(pc\)\}|\{RemoveLastSegment\(pc,"\.Block"\)\}`, nil)
	anySfx := w.hasSuffix(".AnyStmt", false)
	for _, kind := range []string{"BreakStmt", "ContinueStmt"} {
		cut := w.stmtKind(kind)
		key := strings.ToLower(strings.TrimSuffix(kind, "Stmt"))
		var ups []ssa.Instruction
		for _, f := range w.group(es) {
			if w.flowFns[f] && f != es {
				continue
			}
			instrs(f, func(in ssa.Instruction) {
				if up(in) {
					q := &Q{W: w, NoEnter: no, Cut: cut, Goal: func(x ssa.Instruction) bool { return x == in }}
					if ok, _ := q.Entry(es); ok {
						ups = append(ups, in)
					}
				}
			})
		}
		r.Floor("steps out of a block in "+key, len(ups), 1)
		target := w.pcStore(false, `\{(?:RemoveLastLoop|RemoveLastForStmt|RemoveLastWhileStmt)\(.*\)\}|\{RemoveLastSegment\(.*\)\}`, nil)
		if kind == "ContinueStmt" {
			target = w.pcStore(false, `\{pc\}\.Block\.\$`, nil)
		}
		isTarget := func(in ssa.Instruction) bool { return target(in) && !up(in) }
		w.must(r, step{Key: key + "/loop-only", Why: "it ends something that is not a loop", Fn: es, NoEnter: no,
			Cut: anyCut(cut, w.hasSuffix(".ForStmt", true), w.hasSuffix(".WhileStmt", true)), Goal: isTarget})
		for _, in := range ups {
			f := in.Parent()
			for _, loop := range []string{".ForStmt", ".WhileStmt"} {
				w.must(r, step{Key: key + "/innermost" + loop, Why: "it goes on to an enclosing loop", Fn: f, After: in, NoEnter: no, Cut: w.endsWith(loop), Goal: up})
				pops := 1
				if kind == "ContinueStmt" {
					pops = 0
				}
				_ = pops
			}
			notLoop := anyCut(w.hasSuffix(".ForStmt", true), w.hasSuffix(".WhileStmt", true))
			w.must(r, step{Key: key + "/scope", Why: "the scope of a block that is left stays", Fn: f, After: in, NoEnter: no, Cut: notLoop, Through: w.scopePop, Goal: up})
			w.must(r, step{Key: key + "/any-scope", Why: "the scope of an any statement that is left stays", Fn: f, After: in, NoEnter: no, Cut: anyCut(notLoop, anySfx),
				Through: w.twice(f, w.scopePop), Goal: up})
			if kind == "ContinueStmt" {
				w.must(r, step{Key: key + "/loop-scope", Why: "the scope of the body is left twice", Fn: f, After: in, NoEnter: no, Cut: w.hasSuffixAny(), Goal: func(x ssa.Instruction) bool { return w.scopePop(x) }})
			}
		}
		if kind == "BreakStmt" {
			w.must(r, step{Key: key + "/loop-scope", Why: "the scope of the loop stays", Fn: es, NoEnter: no, Cut: cut, Through: w.scopePop, Goal: isTarget})
			w.must(r, step{Key: key + "/path", Why: "the loop is not left", Fn: es, NoEnter: no, Cut: cut, Through: isTarget, Goal: anyOf(callEos, retOf(es))})
		}
	}
}

// hasSuffixAny: assume the path ends with one of the loop segments (For, say).
func (w *World) hasSuffixAny() func(Edge) bool {
	return anyCut(w.hasSuffix(".ForStmt", false), w.hasSuffix(".AnyStmt", true))
}

// twice: the second of two matches in a row (a match that is only reached through another one).
func (w *World) twice(f *ssa.Function, m func(ssa.Instruction) bool) func(ssa.Instruction) bool {
	memo := map[ssa.Instruction]bool{}
	return func(in ssa.Instruction) bool {
		if !m(in) {
			return false
		}
		if v, ok := memo[in]; ok {
			return v
		}
		v := false
		// dominated by another match with nothing but forward flow in between
		for d := in.Block(); d != nil && !v; d = d.Idom() {
			for _, x := range d.Instrs {
				if x == in {
					break
				}
				if m(x) && (d == in.Block() || len(in.Block().Preds) == 1) {
					v = true
				}
			}
			if d != in.Block() && len(d.Preds) > 1 {
				break
			}
		}
		memo[in] = v
		return v
	}
}

func (w *World) endOfBlockRules(r *Rep, eob *ssa.Function, no func(*ssa.Function) bool) {
	T := "modelchecker.Thread."
	callEos := isCall(T + "executeEndOfStatement")
	pop := isCall(T + "popFrame")
	noFrame := w.cutRel(`currentFrame\(.*\)$|^CallFrame$`, "==", "^nil$")
	top := w.cutRel(`\.scope(?:\.parent)?$`, "!=", "^nil$") // assume the frame's outermost block ended
	nested := w.cutRel(`\.scope(?:\.parent)?$`, "==", "^nil$")
	w.must(r, step{Key: "block-end/scope", Why: "the scope of the block stays", Fn: eob, NoEnter: no, Cut: noFrame, Through: w.scopePop, Goal: anyOf(pop, callEos, retOf(eob), anyPc)})
	w.must(r, step{Key: "block-end/frame", Why: "the frame of a call that ended stays", Fn: eob, NoEnter: no, Cut: anyCut(noFrame, top), Through: pop, Goal: anyOf(callEos, retOf(eob), anyPc)})
	w.must(r, step{Key: "block-end/only-last", Why: "a call ends with an inner block", Fn: eob, NoEnter: no, Cut: anyCut(noFrame, nested), Goal: pop})
	left := w.cutRel(`\.Stack\.Len\(|Stack.*Len\(`, "==", "^0$")
	gone := anyCut(w.cutRel(`Len\(.*[sS]tack\)$`, "!=", "^0$"), w.cutRel(`Len\(.*[sS]tack\)$`, ">", "^0$"))
	empty := anyCut(w.cutRel(`Len\(.*[sS]tack\)$`, "==", "^0$"), left)
	w.must(r, step{Key: "block-end/thread", Why: "a thread that ended stays", Fn: eob, NoEnter: no, Cut: anyCut(noFrame, top, gone),
		Through: isCall("modelchecker.Process.removeCurrentThread"), Goal: retOf(eob)})
	w.must(r, step{Key: "block-end/thread-yields", Why: "the end of a thread is not a yield point", Fn: eob, NoEnter: no, Cut: anyCut(noFrame, top, gone), GoalEnv: mayReturn(eob, 1, false)})
	w.must(r, step{Key: "block-end/caller-stays", Why: "the thread ends with a call", Fn: eob, NoEnter: no, Cut: anyCut(noFrame, top, empty), Goal: isCall("modelchecker.Process.removeCurrentThread")})
	w.must(r, step{Key: "block-end/next", Why: "the statement that the block belongs to does not end", Fn: eob, NoEnter: no, Cut: anyCut(noFrame, nested), Through: callEos, Goal: retOf(eob)})
	w.must(r, step{Key: "block-end/path", Why: "the statement that the block belongs to is not what ends", Fn: eob, NoEnter: no, Cut: anyCut(noFrame, nested),
		Through: w.pcStore(false, `\{(?:RemoveLastBlock\(pc\)|RemoveLastSegment\(pc,"\.Block"\))\}`, nil), Goal: callEos})
	seqYield := anyCut(noFrame, nested, w.cutRel(`len\(.*executeEndOfStatement\(.*\)#0\)$`, ">", "^0$"), w.isTrue(`executeEndOfStatement\(.*\)#1$`))
	for k, name := range map[int]string{1: "serial", 2: "parallel", 3: "atomic", 4: "oneof"} {
		w.yields(r, "block-end/yield-"+name, eob, 1, anyCut(seqYield, w.flowIs(`\.scope\.flow$|\.flow$`, k)), no, k < 3)
	}
}

func (w *World) executeRules(r *Rep, ex *ssa.Function, no func(*ssa.Function) bool) {
	T := "modelchecker.Thread."
	steps := map[string]func(ssa.Instruction) bool{
		"Action":    w.pcStore(false, `\{pc\}\.Block`, nil),
		"Invariant": w.pcStore(false, `\{pc\}\.Block`, nil),
		"Block":     isCall(T + "executeBlock"),
		"Statement": anyOf(isCall(T+"executeStatement"), isFork),
		"ForStmt":   isCall(T + "executeForStatement"),
		"WhileStmt": isCall(T + "executeWhileStatement"),
	}
	var asserts []*ssa.TypeAssert
	for _, f := range w.group(ex) {
		if w.flowFns[f] && f != ex {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			if ta, ok := in.(*ssa.TypeAssert); ok && ta.CommaOk && strings.Contains(w.render(ta.X), "GetProtoFieldByPath") {
				asserts = append(asserts, ta)
			}
		})
	}
	isKind := func(kind string) func(Edge) bool {
		return func(e Edge) bool {
			x, ok := e.Cond.(*ssa.Extract)
			if !ok || x.Index != 1 {
				return false
			}
			ta, ok := x.Tuple.(*ssa.TypeAssert)
			if !ok || !strings.Contains(w.render(ta.X), "GetProtoFieldByPath") {
				return false
			}
			return (namedName(ta.AssertedType) == kind) != e.Taken
		}
	}
	// a step is looked up and executed once per round of the loop
	var lookups []ssa.Instruction
	for _, cs := range w.callsIn(ex, "modelchecker.GetProtoFieldByPath") {
		if f := cs.Parent(); f == ex || !w.flowFns[f] {
			lookups = append(lookups, cs.(ssa.Instruction))
		}
	}
	r.Floor("steps looked up by Execute", len(lookups), 1)
	isLookup := func(in ssa.Instruction) bool { return contains(lookups, in) }
	for kind, through := range steps {
		for _, lk := range lookups {
			w.must(r, step{Key: "execute/" + kind, Why: "the step is not executed", Fn: ex, After: lk, NoEnter: no, Cut: isKind(kind), Through: through, Goal: anyOf(retOf(ex), isLookup)})
		}
	}
	for _, lk := range lookups {
		w.must(r, step{Key: "execute/unknown", Why: "a step of an unknown kind is passed over", Fn: ex, After: lk, NoEnter: no, Cut: isKind(""), Goal: anyOf(retOf(ex), isLookup)})
	}
	abortedEdge := w.isTrue(`\.Aborted$`)
	// an abandoned transition has no successors
	w.must(r, step{Key: "execute/abandoned", Why: "an abandoned transition has branches", Fn: ex, NoEnter: no, Cut: w.isFalse(`\.Aborted$`),
		Through: anyOf(), GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool { return false }})
	for _, f := range w.group(ex) {
		if w.flowFns[f] && f != ex {
			continue
		}
		for _, b := range f.Blocks {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok || !re(`\.Aborted$`).MatchString(w.render(iff.Cond)) {
				continue
			}
			for i, s := range b.Succs {
				if !abortedEdge(Edge{iff, iff.Cond, i == 0}) {
					continue
				}
				q := &Q{W: w, NoEnter: no, Goal: isLookup}
				bad, tr := q.from(f, point{s, 0, b})
				r.Check("execute/aborted/stops", w.ipos(iff), !bad, ifBad(bad, "an abandoned transition goes on: "+strings.Join(tr, " → ")))
				q = &Q{W: w, NoEnter: no, GoalEnv: func(x ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
					rt, ok := x.(*ssa.Return)
					return ok && rt.Parent() == f && (!isNilConst(res(retVal(rt, 0))) || func() bool { v, known := constBool(res(retVal(rt, 1))); return !known || v }())
				}}
				bad, tr = q.from(f, point{s, 0, b})
				r.Check("execute/aborted/nothing", w.ipos(iff), !bad, ifBad(bad, "an abandoned transition has successors: "+strings.Join(tr, " → ")))
			}
		}
	}
	for _, lk := range lookups {
		w.must(r, step{Key: "execute/aborted/asked", Why: "the thread goes on without asking whether the transition was abandoned", Fn: ex, After: lk, NoEnter: no,
			Cut: anyCut(isKind("Statement")), Through: func(in ssa.Instruction) bool {
				iff, ok := in.(*ssa.If)
				return ok && re(`\.Aborted$`).MatchString(w.render(iff.Cond)) || isFork(in)
			}, Goal: anyOf(retOf(ex), isLookup)})
	}
	// finished blocks are ended before the next step is looked up
	w.must(r, step{Key: "execute/finished", Why: "a block that ended is not left", Fn: ex, NoEnter: no,
		Cut:     anyCut(w.cutRel(`\.pc$`, "!=", `^""$`), w.cutRel(`Len\(.*[sS]tack\)$`, "<=", "^0$"), w.cutRel(`Len\(.*[sS]tack\)$`, "==", "^0$")),
		Through: isCall(T+"endOfBlock", T+"executeEndOfBlock"), Goal: isLookup})
	w.must(r, step{Key: "execute/finished-block", Why: "a block that ended is not left", Fn: ex, NoEnter: no,
		Cut:     anyCut(w.hasSuffix(".Block.$", false), w.cutRel(`Len\(.*[sS]tack\)$`, "<=", "^0$"), w.cutRel(`Len\(.*[sS]tack\)$`, "==", "^0$")),
		Through: isCall(T+"endOfBlock", T+"executeEndOfBlock"), Goal: isLookup})
}

// handedOnRules: what a step reports (branches, yield) is what the function that executed it reports.
func (w *World) handedOnRules(r *Rep, fn *ssa.Function, no func(*ssa.Function) bool) {
	T := "modelchecker.Thread."
	stepCall := isCall(T+"executeBlock", T+"executeStatement", T+"executeForStatement", T+"executeWhileStatement", T+"endOfBlock", T+"executeEndOfStatement")
	goesOn := anyOf(stepCall, isCall("modelchecker.GetProtoFieldByPath"))
	key := shortFn(fn)
	aborted := w.isTrue(`\.Aborted$`)
	for _, f := range w.group(fn) {
		if w.flowFns[f] && f != fn {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok || !stepCall(in) {
				return
			}
			name := strings.TrimPrefix(calleeName(c), T)
			isRes := func(v ssa.Value, i int) bool {
				for _, l := range phiLeaves(v) {
					if l == c && i == 0 {
						return true
					}
					if e, ok := l.(*ssa.Extract); ok && e.Tuple == c && e.Index == i {
						return true
					}
				}
				return false
			}
			none := func(e Edge) bool {
				b, ok := e.Cond.(*ssa.BinOp)
				if !ok {
					return false
				}
				for _, v := range []ssa.Value{b.X, b.Y} {
					lc, ok := v.(*ssa.Call)
					if !ok || calleeName(lc) != "builtin.len" || !isRes(lc.Call.Args[0], 0) {
						continue
					}
					for _, x := range w.rels(e.Cond, e.Taken) {
						if x.R == "0" && (x.Op == "==" || x.Op == "<=") || x.R == "1" && x.Op == "<" {
							return true
						}
					}
				}
				return false
			}
			noYield := func(e Edge) bool { return isRes(e.Cond, 1) && !e.Taken }
			other := func(x ssa.Instruction) bool { return x != in && x.Parent() == f && goesOn(x) }
			w.must(r, step{Key: "handed-on/" + key + "/" + name + "/branched", Why: "the thread goes on although it branched", Fn: f, After: in, NoEnter: no, Cut: anyCut(none, aborted), Goal: other})
			w.must(r, step{Key: "handed-on/" + key + "/" + name + "/branches", Why: "branches are dropped", Fn: f, After: in, NoEnter: no, Cut: anyCut(none, aborted), Through: other,
				GoalEnv: func(x ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
					rt, ok := x.(*ssa.Return)
					return ok && rt.Parent() == f && len(rt.Results) > 0 && !isRes(res(retVal(rt, 0)), 0)
				}})
			if c.Call.Signature().Results().Len() < 2 {
				return
			}
			w.must(r, step{Key: "handed-on/" + key + "/" + name + "/yields", Why: "a yield point is passed over", Fn: f, After: in, NoEnter: no, Cut: anyCut(noYield, aborted), Through: other, GoalEnv: returnsConst(f, 1, false)})
		})
	}
}

// pathRules: the functions that compute paths cut off the right segment.
func (w *World) pathRules(r *Rep) {
	for fn, seg := range map[string]string{"RemoveLastBlock": ".Block", "RemoveLastForStmt": ".ForStmt", "RemoveLastWhileStmt": ".WhileStmt"} {
		f := w.Func("modelchecker." + fn)
		if f == nil {
			continue
		}
		w.must(r, step{Key: "path/" + fn, Why: "it does not cut off the last " + seg, Fn: f, NoEnter: func(*ssa.Function) bool { return true },
			Through: w.callTo(`modelchecker\.RemoveLastSegment|strings\.LastIndex`, "", `^"`+qm(seg)+`"$`), Goal: retOf(f)})
	}
	for _, fn := range []string{"RemoveLastSegment", "ParentBlockPath"} {
		f := w.Func("modelchecker." + fn)
		if f == nil {
			r.Undecided("path/"+fn, "-", "function not found")
			continue
		}
		ok, why := w.prefixUpTo(f)
		r.Check("path/"+fn, w.Pos(f.Pos()), ok, why)
	}
	if f := w.Func("modelchecker.RemoveLastLoop"); f != nil {
		// the loop that starts last in the path is the innermost
		forLast := w.cutRel(`LastIndex\(.*"\.ForStmt"\)$`, ">", `LastIndex\(.*"\.WhileStmt"\)$`)
		whileLast := anyCut(w.cutRel(`LastIndex\(.*"\.WhileStmt"\)$`, ">", `LastIndex\(.*"\.ForStmt"\)$`), w.cutRel(`LastIndex\(.*"\.WhileStmt"\)$`, ">=", `LastIndex\(.*"\.ForStmt"\)$`))
		cutOff := func(seg string) func(ssa.Instruction) bool {
			return w.callTo(`modelchecker\.(?:RemoveLastSegment|RemoveLastForStmt|RemoveLastWhileStmt)`, "", `"`+qm(seg)+`"`)
		}
		w.must(r, step{Key: "path/RemoveLastLoop/for", Why: "the inner for loop is not what is left", Fn: f, NoEnter: func(*ssa.Function) bool { return true }, Cut: whileLast, Through: cutOff(".ForStmt"), Goal: retOf(f)})
		w.must(r, step{Key: "path/RemoveLastLoop/while", Why: "the inner while loop is not what is left", Fn: f, NoEnter: func(*ssa.Function) bool { return true }, Cut: forLast, Through: cutOff(".WhileStmt"), Goal: retOf(f)})
	}
	if f := w.Func("modelchecker.EndOfBlock"); f != nil {
		w.must(r, step{Key: "path/EndOfBlock", Why: "the end of the block is not marked", Fn: f, NoEnter: func(*ssa.Function) bool { return true },
			Through: w.callTo(`modelchecker\.replaceLastStmts`, "", `^"\$"$`), Goal: retOf(f)})
	}
	if f := w.Func("modelchecker.GetNextFieldPath"); f != nil {
		found, other := false, ""
		instrs(f, func(in ssa.Instruction) {
			rt, ok := in.(*ssa.Return)
			if !ok {
				return
			}
			for _, l := range phiLeaves(retVal(rt, 0)) {
				for _, p := range w.strParts(l, nil, 0) {
					b, ok := p.V.(*ssa.BinOp)
					if !ok {
						continue
					}
					if w.render(b.Y) == "1" && b.Op.String() == "+" && strings.Contains(w.render(b.X), "Atoi") {
						found = true
					} else {
						other = w.render(b)
					}
				}
			}
		})
		ok := found && other == ""
		r.Check("path/next", w.Pos(f.Pos()), ok, ifBad(!ok, "the next statement is not the one after the current: "+other))
		w.must(r, step{Key: "path/next/statements", Why: "the next branch of an if statement is taken for the next statement", Fn: f, NoEnter: func(*ssa.Function) bool { return true },
			Cut: anyCut(w.cutRel(`.*`, "==", `^"Stmts"$`), w.cutRel(`^"Stmts"$`, "==", `.*`)), Goal: isCall("modelchecker.GetFieldByPath")})
		// the innermost statement comes last in the path
		down := false
		instrs(f, func(in ssa.Instruction) {
			if ph, ok := in.(*ssa.Phi); ok {
				var start, step bool
				for _, e := range ph.Edges {
					s := w.render(e)
					if reMatch(`\(len\(.*\) - 1\)`, s) {
						start = true
					}
					if b, ok := e.(*ssa.BinOp); ok && b.X == ph && b.Op.String() == "-" && w.render(b.Y) == "1" {
						step = true
					}
				}
				down = down || start && step
			}
		})
		r.Check("path/next/innermost", w.Pos(f.Pos()), down, ifBad(!down, "the innermost statement of the path is not looked at first"))
	}
	if f := w.Func("modelchecker.Thread.FindNextProgramCounter"); f != nil {
		isKind := func(kind string) func(Edge) bool {
			return func(e Edge) bool {
				x, ok := e.Cond.(*ssa.Extract)
				if !ok || x.Index != 1 {
					return false
				}
				ta, ok := x.Tuple.(*ssa.TypeAssert)
				return ok && (namedName(ta.AssertedType) == kind) != e.Taken
			}
		}
		want := map[string]string{"Statement": `\{.*GetNextFieldPath\(.*\)#0\}`, "Branch": `\{.*GetNextFieldPath\(.*\)#0\}`, "AnyStmt": `\{.*GetNextFieldPath\(.*\)#0\}`,
			"ForStmt": `\{pc\}`, "WhileStmt": `\{pc\}`, "Action": `\{pc\}\.Block`, "Block": `\{pc\}\.Stmts\[0\]`}
		for kind, shape := range want {
			w.must(r, step{Key: "path/next-of/" + kind, Why: "the step after it is not the one that follows", Fn: f, NoEnter: func(*ssa.Function) bool { return true }, Cut: isKind(kind),
				GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
					rt, ok := in.(*ssa.Return)
					return ok && rt.Parent() == f && !reMatch(shape, w.shape(res(retVal(rt, 0)), nil, nil))
				}})
		}
	}
}

// prefixUpTo: the function returns the path up to the last occurrence of a segment.
func (w *World) prefixUpTo(f *ssa.Function) (bool, string) {
	var at ssa.Value
	instrs(f, func(in ssa.Instruction) {
		if c, ok := in.(*ssa.Call); ok && calleeName(c) == "strings.LastIndex" {
			at = c
		}
	})
	if at == nil {
		return false, "the last occurrence is not looked for"
	}
	okSlice, bad := false, ""
	instrs(f, func(in ssa.Instruction) {
		if s, ok := in.(*ssa.Slice); ok {
			if s.Low == nil && s.High == at && s.X == f.Params[0] {
				okSlice = true
			} else {
				bad = "the path is cut at " + w.render(s)
			}
		}
	})
	if bad != "" {
		return false, bad
	}
	return okSlice, ifBad(!okSlice, "the path is not cut at the last occurrence")
}

func (w *World) scopeRules(r *Rep) {
	T := "modelchecker.Thread."
	if f := w.Func(T + "InsertNewScope"); f != nil {
		w.must(r, step{Key: "scope/insert/used", Why: "the new scope is not that of the frame", Fn: f, Through: func(in ssa.Instruction) bool {
			st, _ := fieldStore(in, "CallFrame", "scope")
			return st != nil && allocOf(st.Val, "Scope")
		}, Goal: retOf(f)})
		w.must(r, step{Key: "scope/insert/parent", Why: "the new scope is not inside of the current one", Fn: f, Through: w.storeTo("Scope", "parent", `\.scope$`), Goal: retOf(f)})
		inherits := w.cutRel(`\.parent$|\.scope$`, "==", "^nil$")
		w.must(r, step{Key: "scope/insert/flow", Why: "the new scope does not inherit the flow", Fn: f, Cut: inherits, Through: w.storeTo("Scope", "flow", `\.flow$`), Goal: retOf(f)})
		w.must(r, step{Key: "scope/insert/vars", Why: "variables assigned in an inner block are lost after it", Fn: f, Cut: inherits, Through: w.storeTo("Scope", "vars", `\.vars$`), Goal: retOf(f)})
	} else {
		r.Undecided("scope/insert", "-", "function not found")
	}
	if f := w.Func("modelchecker.Scope.SetFlow"); f != nil {
		w.must(r, step{Key: "scope/flow", Why: "the flow is not set", Fn: f, Cut: w.cutRel(`.*`, "==", "^0$"), Through: func(in ssa.Instruction) bool {
			st, _ := fieldStore(in, "Scope", "flow")
			return st != nil && st.Val == f.Params[1]
		}, Goal: retOf(f)})
		w.must(r, step{Key: "scope/flow-default", Why: "a block without a flow does not keep that of its surroundings", Fn: f, Cut: w.cutRel(`.*`, "!=", "^0$"), Goal: func(in ssa.Instruction) bool {
			st, _ := fieldStore(in, "Scope", "flow")
			return st != nil
		}})
	}
	if f := w.Func(T + "ExitScope"); f != nil {
		w.must(r, step{Key: "scope/exit", Why: "the scope stays", Fn: f, Cut: w.cutRel(`\.scope$`, "==", "^nil$"), Through: func(in ssa.Instruction) bool {
			st, _ := fieldStore(in, "CallFrame", "scope")
			return st != nil && reMatch(`.*\.parent`, w.render(st.Val))
		}, Goal: retOf(f)})
	}
	if f := w.Func(T + "endWithoutYield"); f != nil {
		no := noEnter(T+"FindNextProgramCounter", T+"InsertNewScope", T+"currentFrame", T+"currentPc")
		for _, k := range []int{1, 3} {
			w.must(r, step{Key: fmt.Sprintf("pass/flow-%d", k), Why: "the thread does not go on with the next statement", Fn: f, NoEnter: no, Cut: w.flowIs(flowSubject, k),
				Through: w.pcStore(false, `\{Thread\.FindNextProgramCounter\(Thread\)\}`, nil), Goal: retOf(f)})
		}
		w.must(r, step{Key: "pass/oneof", Why: "the block goes on after the chosen statement", Fn: f, NoEnter: no, Cut: w.flowIs(flowSubject, 4),
			Through: w.pcStore(false, `\{(?:EndOfBlock\(pc\)|replaceLastStmts\(pc,"\$"\))\}`, nil), Goal: retOf(f)})
		w.must(r, step{Key: "pass/parallel", Why: "the block goes on with the following statement only", Fn: f, NoEnter: no, Cut: w.flowIs(flowSubject, 2),
			Through: w.pcStore(false, `\{pc\}\.Block\.\$`, nil), Goal: retOf(f)})
		w.must(r, step{Key: "pass/parallel/scope", Why: "ending the statement leaves the scope of the block", Fn: f, NoEnter: no, Cut: w.flowIs(flowSubject, 2),
			Through: isCall(T + "InsertNewScope"), Goal: retOf(f)})
	}
}

func allocOf(v ssa.Value, typ string) bool {
	for _, l := range phiLeaves(v) {
		if _, ok := l.(*ssa.Alloc); ok && namedName(l.Type()) == typ {
			return true
		}
	}
	return false
}

// enabledRules: what was executed before a branching point counts for the branches.
func (w *World) enabledRules(r *Rep) {
	if f := w.Func("modelchecker.Process.Enable"); f != nil {
		w.must(r, step{Key: "enabled/set", Why: "an executed statement does not count", Fn: f, Through: w.storeTo("Process", "Enabled", "true"), Goal: retOf(f)})
	}
	n := 0
	for _, name := range []string{"modelchecker.Processor.processNode", "modelchecker.Processor.probeNextStates"} {
		fn := w.Func(name)
		if fn == nil {
			r.Undecided("enabled/"+name, "-", "function not found")
			continue
		}
		for _, l := range w.loopsIn(w.group(fn), func(v ssa.Value) bool { return elemType(v.Type()) == "Process" }, isCall("modelchecker.Node.ForkForAlternatePaths")) {
			n++
			bad, tr := w.iterationSkips(l, func(in ssa.Instruction) bool {
				st, ok := in.(*ssa.Store)
				if !ok {
					return false
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				return ok && fieldName(fa.X.Type(), fa.Field) == "Enabled" && w.slice(st.Val).hasField(`Enabled`)
			}, anyCut(w.isFalse(`ShouldScheduleNode`), w.isTrue(`\.Enabled$`), w.isFalse(`\.Enabled$`)))
			r.Check("enabled/branches/"+shortFn(fn), w.ipos(firstNonPhi(l.Head)), !bad, ifBad(bad, "a branch without further statements is dropped as not executed: "+strings.Join(tr, " → ")))
		}
	}
	r.Floor("loops continuing the branches of a step", n, 2)
}
