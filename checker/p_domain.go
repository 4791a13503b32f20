package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("S13", ruleS13) }

// ordinalMax: the upper end of the ids of ordinal domains.
const ordinalMax = int64(math.MaxInt64 / 2)

func isInt64(p *ssa.Phi) bool {
	t := shortType(p.Type().Underlying())
	return t == "int64" || t == "int"
}

// relOf: what an edge says about two values: x op y.
func relOf(e Edge) (x ssa.Value, op token.Token, y ssa.Value, ok bool) {
	bo, is := e.Cond.(*ssa.BinOp)
	if !is {
		return nil, 0, nil, false
	}
	op = bo.Op
	if !e.Taken {
		neg := map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL}
		if op, is = neg[op]; !is {
			return nil, 0, nil, false
		}
	}
	return peelConv(bo.X), op, peelConv(bo.Y), true
}

var mirrored = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}

// says: edges that state x op y (for one of the operators).
func says(x func(ssa.Value) bool, y func(ssa.Value) bool, ops ...token.Token) func(Edge) bool {
	return func(e Edge) bool {
		a, op, b, ok := relOf(e)
		if !ok {
			return false
		}
		for _, o := range ops {
			if op == o && x(a) && y(b) || mirrored[op] == o && x(b) && y(a) {
				return true
			}
		}
		return false
	}
}

func isConstInt(n int64) func(ssa.Value) bool {
	return func(v ssa.Value) bool {
		c, ok := peelConv(v).(*ssa.Const)
		return ok && c.Value != nil && c.Value.Kind() == constant.Int && c.Int64() == n
	}
}

func (w *World) renders(rx string) func(ssa.Value) bool {
	return func(v ssa.Value) bool { return reMatch(rx, w.plain(v)) }
}

// domKind: branches that contradict that the domain (or value) is of kind k.
func (w *World) domKind(k string) func(Edge) bool {
	return func(e Edge) bool {
		for _, r := range w.rels(e.Cond, e.Taken) {
			if !re(`\.Kind$|^Kind$`).MatchString(r.L) || !strings.HasPrefix(r.R, `"`) {
				continue
			}
			if r.Op == "==" && r.R != `"`+k+`"` || r.Op == "!=" && r.R == `"`+k+`"` {
				return true
			}
		}
		return false
	}
}

func (w *World) isCacheMap(v ssa.Value) bool {
	return shortType(v.Type()) == "map[int64]bool"
}

// idsOfCache: a slice that lists the ids of the domain.
func (w *World) idsOfCache(v ssa.Value) bool {
	sl := sliceElem(v.Type())
	if sl == nil || shortType(sl) != "int64" {
		return false
	}
	for x := range w.slice(v).vals {
		if w.isCacheMap(x) {
			return true
		}
	}
	return false
}

// extremum: v is the largest (dir 1) or smallest (dir -1) of the elements of a collection accepted by over.
func (w *World) extremum(v ssa.Value, dir int, over func(ssa.Value) bool, cut func(Edge) bool, d int) bool {
	v = peelConv(w.bound.of(peelConv(v)))
	if d > 5 {
		return false
	}
	call, i := v, 0
	if ex, ok := v.(*ssa.Extract); ok {
		call, i = ex.Tuple, ex.Index
	}
	switch x := call.(type) {
	case *ssa.Call:
		n := calleeName(x)
		if reMatch(`slices\.Max(\[.*)?`, n) || reMatch(`slices\.Min(\[.*)?`, n) {
			return (dir > 0) == strings.Contains(n, "Max") && over(x.Call.Args[0])
		}
		f := x.Call.StaticCallee()
		if f == nil || !w.owns(f) || len(f.Blocks) == 0 {
			return false
		}
		n2, all := 0, true
		w.with(bindCall(x, f, nil), func() {
			instrs(f, func(in ssa.Instruction) {
				rt, ok := in.(*ssa.Return)
				if !ok || i >= len(rt.Results) {
					return
				}
				rv := retVal(rt, i)
				if _, isC := rv.(*ssa.Const); isC { // nothing there
					if bad, _ := (&Q{W: w, Cut: anyCut(w.isEmpty(`.*`)), Goal: func(y ssa.Instruction) bool { return y == in }}).Entry(f); !bad {
						return
					}
				}
				n2++
				all = all && w.extremum(rv, dir, over, cut, d+1)
			})
		})
		return n2 > 0 && all
	case *ssa.UnOp:
		ia, ok := x.X.(*ssa.IndexAddr)
		if !ok || !over(ia.X) {
			return false
		}
		sorted := false
		for _, c := range calls(x.Parent(), "slices.Sort") {
			sorted = sorted || w.render(c.Common().Args[0]) == w.render(ia.X)
		}
		idx := w.render(ia.Index)
		return sorted && (dir > 0 && idx == "(len("+w.render(ia.X)+") - 1)" || dir < 0 && idx == "0")
	case *ssa.Phi:
		body := naturalLoop(x.Block())
		if body == nil {
			for _, e := range x.Edges {
				if e != v && !w.extremum(e, dir, over, cut, d+1) {
					return false
				}
			}
			return true
		}
		for _, l := range w.loopsOf(x.Parent()) {
			rest := l.Over != nil && restOf(l.Over) != l.Over && over(restOf(l.Over)) && w.startsWithFirst(l, x)
			if l.Head == x.Block() && l.Over != nil && (rest || over(l.Over) && w.partial(l) == "") {
				if early, _ := w.leavesEarly(l, nil); !early && w.keepsBest(l, x, dir, cut) {
					return true
				}
			}
		}
	}
	return false
}

// restOf: the list of which v is the part after the first element.
func restOf(v ssa.Value) ssa.Value {
	if s, ok := v.(*ssa.Slice); ok && s.Low != nil && isConstInt(1)(s.Low) && s.High == nil {
		return s.X
	}
	return v
}

func (w *World) isFirstOf(v, list ssa.Value) bool {
	l, i := indexOf(v)
	return l != nil && i != nil && isConstInt(0)(i) && (l == list || w.plain(l) == w.plain(list))
}

// startsWithFirst: acc is the first element of the list before the loop over the rest of it.
func (w *World) startsWithFirst(l *LoopInfo, acc *ssa.Phi) bool {
	for i, e := range acc.Edges {
		if !l.Body[l.Head.Preds[i]] && !w.isFirstOf(e, restOf(l.Over)) {
			return false
		}
	}
	return true
}

// firstFlags: branches on which a flag of the loop still has its initial value.
func firstFlags(l *LoopInfo) func(Edge) bool {
	return func(e Edge) bool {
		ph, ok := e.Cond.(*ssa.Phi)
		if !ok || ph.Block() != l.Head || !isBool(ph) {
			return false
		}
		for i, x := range ph.Edges {
			if !l.Body[l.Head.Preds[i]] {
				b, known := constBool(x)
				return known && b == e.Taken
			}
		}
		return false
	}
}

// keepsBest: in every iteration acc becomes the element where it is better, and stays where it is not.
func (w *World) keepsBest(l *LoopInfo, acc *ssa.Phi, dir int, cut func(Edge) bool) bool {
	elem := func(v ssa.Value) bool { return l.Elems[v] }
	isAcc := func(v ssa.Value) bool { return v == ssa.Value(acc) }
	better, worse := []token.Token{token.GTR, token.GEQ}, []token.Token{token.LSS, token.LEQ}
	if dir < 0 {
		better, worse = worse, better
	}
	first := firstFlags(l)
	start := false
	for i, e := range acc.Edges {
		if l.Body[l.Head.Preds[i]] {
			continue
		}
		c, ok := peelConv(e).(*ssa.Const)
		if ok && c.Value != nil {
			start = start || dir > 0 && c.Int64() == math.MinInt64 || dir < 0 && c.Int64() == math.MaxInt64
		} else if l.Over != nil {
			start = start || w.isFirstOf(e, restOf(l.Over))
		}
	}
	var flags []*ssa.Phi
	for _, in := range l.Head.Instrs {
		if ph, ok := in.(*ssa.Phi); ok && isBool(ph) {
			flags = append(flags, ph)
		}
	}
	if !start && len(flags) == 0 {
		return false
	}
	if start {
		first = func(Edge) bool { return false }
	}
	none := func(Edge) bool { return false }
	if cut == nil {
		cut = none
	}
	run := func(c func(Edge) bool, goal func(in ssa.Instruction, pred *ssa.BasicBlock, i int, res func(ssa.Value) ssa.Value) bool) bool {
		q := &Q{W: w, Cut: anyCut(c, cut), Track: isInt64, NoEnter: func(*ssa.Function) bool { return true },
			Through: func(in ssa.Instruction) bool { return in.Block() == l.Head },
			GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
				b := in.Block()
				if !l.Body[b] || in != b.Instrs[len(b.Instrs)-1] {
					return false
				}
				for i, p := range l.Head.Preds {
					if iff, ok := in.(*ssa.If); ok && p == b && b.Succs[0] != b.Succs[1] && anyCut(c, cut)(Edge{iff, res(iff.Cond), b.Succs[0] == l.Head}) {
						continue
					}
					if p == b && goal(in, p, i, res) {
						return true
					}
				}
				return false
			}}
		bad, _ := q.from(l.Fn, point{l.entry(), 0, l.Head})
		return bad
	}
	bi := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Call)
		want := "builtin.max"
		if dir < 0 {
			want = "builtin.min"
		}
		return ok && calleeName(c) == want && len(c.Call.Args) == 2 && (isAcc(c.Call.Args[0]) && elem(c.Call.Args[1]) || isAcc(c.Call.Args[1]) && elem(c.Call.Args[0]))
	}
	// taken without being better
	if run(anyCut(says(elem, isAcc, better...), first), func(in ssa.Instruction, p *ssa.BasicBlock, i int, res func(ssa.Value) ssa.Value) bool {
		v := res(acc.Edges[i])
		return !isAcc(v) && !bi(v)
	}) {
		return false
	}
	// not taken without being worse
	if run(says(elem, isAcc, append(worse, token.EQL)...), func(in ssa.Instruction, p *ssa.BasicBlock, i int, res func(ssa.Value) ssa.Value) bool {
		v := res(acc.Edges[i])
		return !elem(v) && !bi(v)
	}) {
		return false
	}
	if start {
		return true
	}
	// the flag says whether there was an element
	ok := false
	for _, f := range flags {
		var init bool
		known := false
		for i, e := range f.Edges {
			if !l.Body[l.Head.Preds[i]] {
				init, known = constBool(e)
			}
		}
		ok = ok || known && !run(none, func(in ssa.Instruction, p *ssa.BasicBlock, i int, res func(ssa.Value) ssa.Value) bool {
			b, k := constBool(res(f.Edges[i]))
			return k && b == init
		})
	}
	return ok
}

// makesValue: the construction of a value of a domain; the argument with the id.
func makesValue(in ssa.Instruction) (c *ssa.Call, id ssa.Value) {
	c, ok := in.(*ssa.Call)
	if !ok || !reMatch(`lib\.New(SymmetricValue|SymmetricValueWithKind|RotationalSymmetricValue)`, calleeName(c)) {
		return nil, nil
	}
	return c, c.Call.Args[1]
}

func ruleS13(c *Ctx, r *Rep) {
	w := c.World
	r.Rule("known: what a domain counts as used is every id in the state being executed, collected before the first operation of an evaluation, plus what the evaluation allocated")
	r.Rule("fresh: a value is handed out only when it is not in use, below the limit, and by the rule of the domain's kind, and it is recorded as used")
	r.Rule("selection: values, choices, choose, min, max and segments describe exactly the used ids, in order")
	r.Rule("operations: every kind offers its own operations only; arithmetic and comparison compute with the ids, in the domain, and refuse values of another domain")
	r.Rule("constraints: a state with more values than the limit or a larger spread than the divergence of its domain is not explored")
	w.contextRules(r)
	w.freshRules(r)
	w.segmentRules(r)
	w.selectionRules(r)
	w.domainAttrs(r)
	w.domainArgs(r)
	w.valueOps(r)
	w.constraintRules(r)
	r.Floor("domains", len(r.Obls), 100)
}

// loads of SymmetryContext.Cache entries
func (w *World) readsCache(in ssa.Instruction) bool {
	fa, ok := in.(*ssa.FieldAddr)
	return ok && namedName(fa.X.Type()) == "SymmetryContext" && fieldName(fa.X.Type(), fa.Field) == "Cache"
}

func (w *World) domainMethods() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range w.Funcs {
		if rc := f.Signature.Recv(); rc != nil && f.Parent() == nil && f.Synthetic == "" && f.Package() != nil && f.Package().Pkg.Name() == "lib" {
			if n := namedName(rc.Type()); n == "SymmetryDomain" || n == "Segment" {
				out = append(out, f)
			}
		}
	}
	return out
}

func builtinSig(f *ssa.Function) bool {
	s := f.Signature
	return s.Params().Len() == 4 && s.Results().Len() == 2 && namedName(s.Params().At(0).Type()) == "Thread"
}

// contextRules: where the used ids come from.
func (w *World) contextRules(r *Rep) {
	load := w.Func("lib.SymmetryContext.ensureLoaded")
	if load == nil {
		r.Undecided("known/load", "-", "SymmetryContext.ensureLoaded not found")
		return
	}
	// every used id of the state enters the cache
	put := func(in ssa.Instruction) bool {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok || !w.isCacheMap(mu.Map) {
			return false
		}
		b, known := constBool(mu.Value)
		return known && b && re(`Scanner|dynamic|\(\)`).MatchString(w.render(mu.Key))
	}
	ls := w.natLoops(w.withHelpers(load), put)
	r.Check("known/load", w.Pos(load.Pos()), len(ls) > 0, ifBad(len(ls) == 0, "the ids that the state uses are not recorded"))
	for _, l := range ls {
		w.wholeLoop(r, "known/load", l, put, nil, nil)
	}
	done := w.isTrue(`SymmetryContext\.initialized`)
	if len(ls) > 0 {
		w.must(r, step{Key: "known/load/always", Why: "the used ids of the state are not read", Fn: load, Through: headOf(ls), Goal: retOf(load), Cut: done})
	}
	w.must(r, step{Key: "known/load/first", Why: "the cache counts as filled before it is", Fn: load, Through: headOf(ls), Goal: w.storeTo("SymmetryContext", "initialized", "true"), NoEnter: w.onlyHelpers(load)})
	init := w.Func("lib.SymmetryContext.EnsureDomainInit")
	if init != nil {
		w.must(r, step{Key: "known/init", Why: "an operation can start without the used ids of the state", Fn: init, Through: isCall("lib.SymmetryContext.ensureLoaded"), Goal: retOf(init)})
	}
	n := 0
	for _, f := range w.domainMethods() {
		if !builtinSig(f) {
			continue
		}
		touches := false
		for _, g := range w.withHelpers(f) {
			instrs(g, func(in ssa.Instruction) { touches = touches || w.readsCache(in) })
		}
		if !touches {
			continue
		}
		n++
		w.must(r, step{Key: "known/before/" + shortFn(f), Why: "the used ids are consulted before they are collected", Fn: f,
			Through: isCall("lib.SymmetryContext.ensureLoaded", "lib.SymmetryContext.EnsureDomainInit"), Goal: w.readsCache})
	}
	r.Floor("operations that consult the used ids", n, 4)

	// the context of an evaluation
	mk := w.Func("modelchecker.Process.createSymmetryContext")
	if mk == nil {
		r.Undecided("known/context", "-", "Process.createSymmetryContext not found")
		return
	}
	instrs(mk, func(in ssa.Instruction) {
		rt, ok := in.(*ssa.Return)
		if !ok {
			return
		}
		good := true
		for _, v := range phiLeaves(rt.Results[0]) {
			good = good && w.everyValue(v, func(x ssa.Value) bool {
				c, ok := x.(*ssa.Call)
				if !ok || !reMatch(`lib\.NewSymmetryContext(WithLastAllocated)?`, calleeName(c)) {
					return false
				}
				fs := w.funcValues(c.Call.Args[0], 0)
				all := len(fs) > 0
				for _, f := range fs {
					all = all && w.scansProcess(f, mk)
				}
				return all
			}, 0)
		}
		r.Check("known/context/scanner", w.ipos(in), good, ifBad(!good, "the used ids are not collected from the process itself"))
	})
	without := func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
		rt, ok := in.(*ssa.Return)
		if !ok || rt.Parent() != mk {
			return false
		}
		v := res(retVal(rt, 0))
		return !re(`NewSymmetryContextWithLastAllocated\(.*Process\.RotationalLastAllocated\)`).MatchString(w.render(v))
	}
	w.must(r, step{Key: "known/context/last", Why: "the last value of a rotational domain is forgotten", Fn: mk, GoalEnv: without, NoEnter: func(*ssa.Function) bool { return true },
		Cut: anyCut(w.cutRel(`^Process\.RotationalLastAllocated$`, "==", "^nil$"), w.isEmpty(`Process\.RotationalLastAllocated`))})
	if f := w.Func("lib.NewSymmetryContextWithLastAllocated"); f != nil {
		w.copiesMap(r, "known/context/last/in", f, "SymmetryContext", "LastAllocated")
	}
	w.lastKept(r)
	w.usedCollector(r)
	save := w.Func("modelchecker.Process.saveRotationalLastAllocated")
	if save != nil {
		isPut := func(in ssa.Instruction) bool {
			mu, ok := in.(*ssa.MapUpdate)
			return ok && re(`Process\.RotationalLastAllocated$|^map\[string\]int64$`).MatchString(w.render(mu.Map)) && re(`^range\(SymmetryContext\.LastAllocated\)#1$`).MatchString(w.render(mu.Key)) &&
				re(`^range\(SymmetryContext\.LastAllocated\)#2$|SymmetryContext\.LastAllocated\[`).MatchString(w.render(mu.Value))
		}
		cp := func(in ssa.Instruction) bool {
			return isPut(in) || w.callTo(`maps\.Copy(\[.*)?`, `Process\.RotationalLastAllocated`, `SymmetryContext\.LastAllocated`)(in)
		}
		ls := w.natLoops(w.withHelpers(save), isPut)
		for _, l := range ls {
			w.wholeLoop(r, "known/saved", l, isPut, nil, nil)
		}
		w.must(r, step{Key: "known/saved", Why: "the last value of a rotational domain is not kept", Fn: save, Through: anyOf(headOf(ls), cp), Goal: retOf(save), Cut: w.isEmpty(`SymmetryContext\.LastAllocated`)})
	}
	w.evaluationContexts(r, mk)
}

// scansProcess: f visits the process that mk is called on and returns what was collected.
func (w *World) scansProcess(f, mk *ssa.Function) bool {
	good, n := true, 0
	var visited []ssa.Value
	for _, g := range w.withHelpers(f) {
		for _, c := range calls(g, "modelchecker.Process.AcceptVisitor") {
			n++
			a := c.Common().Args
			good = good && w.render(a[0]) == "Process"
			visited = append(visited, a[1])
		}
	}
	q := &Q{W: w, Through: isCall("modelchecker.Process.AcceptVisitor"), Goal: retOf(f)}
	if bad, _ := q.Entry(f); bad {
		return false
	}
	instrs(f, func(in ssa.Instruction) {
		rt, ok := in.(*ssa.Return)
		if !ok {
			return
		}
		good = good && w.everyValue(rt.Results[0], func(x ssa.Value) bool {
			c, ok := x.(*ssa.Call)
			if !ok || calleeName(c) != "modelchecker.UsedSymmetricValuesCollector.GetAllUsedIDs" {
				return false
			}
			for _, v := range visited {
				if w.render(peelMI(v)) == w.render(c.Call.Args[0]) {
					return true
				}
			}
			return false
		}, 0)
	})
	return good && n > 0
}

// copiesMap: every path of f that returns a T has copied its map parameter into the field.
func (w *World) copiesMap(r *Rep, key string, f *ssa.Function, typ, field string) {
	put := func(in ssa.Instruction) bool {
		mu, ok := in.(*ssa.MapUpdate)
		return ok && re(`^range\(.*\)#1$`).MatchString(w.render(mu.Key)) && re(`^range\(.*\)#2$|\[range\(`).MatchString(w.render(mu.Value))
	}
	ls := w.natLoops(w.withHelpers(f), put)
	cp := w.callTo(`maps\.(Copy|Clone)(\[.*)?`)
	for _, l := range ls {
		w.wholeLoop(r, key, l, put, nil, nil)
	}
	w.must(r, step{Key: key, Why: "the entries are not copied", Fn: f, Through: anyOf(headOf(ls), cp), Goal: retOf(f)})
	// the copy is what the result holds
	n := 0
	for _, g := range w.withHelpers(f) {
		instrs(g, func(in ssa.Instruction) {
			st, _ := fieldStore(in, typ, field)
			if st == nil {
				return
			}
			n++
			ok := true
			for _, v := range phiLeaves(st.Val) {
				_, isMap := v.(*ssa.MakeMap)
				c, isCall := v.(*ssa.Call)
				_, isParam := w.bound.of(v).(*ssa.Parameter)
				ok = ok && !isParam && (isMap || isCall && c != nil)
			}
			r.Check(key+"/held", w.ipos(in), ok, ifBad(!ok, "the result does not hold the copy"))
		})
	}
	r.Check(key+"/stored", w.Pos(f.Pos()), n > 0, ifBad(n == 0, "the result does not hold the copy"))
}

// evaluationContexts: every evaluation uses the context of the process it runs in and hands the state of the domains back.
func (w *World) evaluationContexts(r *Rep, mk *ssa.Function) {
	n := 0
	for _, f := range w.Funcs {
		if f.Package() == nil || f.Package().Pkg.Name() != "modelchecker" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || !reMatch(`modelchecker\.Evaluator\.\w*WithContext`, calleeName(c)) {
					continue
				}
				ctx := c.Call.Args[len(c.Call.Args)-1]
				if rc := f.Signature.Recv(); rc != nil && namedName(rc.Type()) == "Evaluator" {
					continue
				}
				n++
				key := "context/" + shortFn(f) + "/" + w.what(c)
				proc := w.render(c.Call.Args[0])
				proc = strings.TrimSuffix(proc, ".Evaluator")
				good := w.everyValue(ctx, func(x ssa.Value) bool {
					m, ok := x.(*ssa.Call)
					return ok && calleeName(m) == "modelchecker.Process.createSymmetryContext" && w.render(m.Call.Args[0]) == proc
				}, 0)
				r.Check(key+"/own", w.ipos(in), good, ifBad(!good, "the evaluation does not use the values of the process it runs in"))
				// one context per evaluation
				if !w.savesContext(f) {
					continue
				}
				save := func(x ssa.Instruction) bool {
					s, ok := x.(*ssa.Call)
					return ok && calleeName(s) == "modelchecker.Process.saveRotationalLastAllocated" && w.render(s.Call.Args[0]) == proc && (s.Call.Args[1] == ctx || w.render(s.Call.Args[1]) == w.render(ctx))
				}
				errs := []func(Edge) bool{}
				for _, i := range errOf(c) {
					if e := resultOf(c, i); e != nil {
						e := e
						errs = append(errs, func(ed Edge) bool {
							x, op, y, ok := relOf(ed)
							return ok && op == token.NEQ && (w.isError(x, e, 0) && isNilConst(y) || w.isError(y, e, 0) && isNilConst(x))
						})
					}
				}
				w.must(r, step{Key: key + "/saved", Why: "what the evaluation allocated in a rotational domain is forgotten", After: in, Through: save, Cut: anyCut(errs...),
					Goal: func(x ssa.Instruction) bool {
						if rt, ok := x.(*ssa.Return); ok {
							return rt.Parent() == f
						}
						y, ok := x.(*ssa.Call)
						return ok && reMatch(`modelchecker\.Process\.(createSymmetryContext|Fork\w*)`, calleeName(y))
					}, NoEnter: w.onlyHelpers(f)})
			}
		}
	}
	r.Floor("evaluations with a context", n, 12)
	// the evaluator passes the context on
	for _, name := range []string{"EvalPyExprWithContext", "ExecPyStmtWithContext"} {
		f := w.Func("modelchecker.Evaluator." + name)
		if f == nil {
			r.Undecided("context/evaluator/"+name, "-", "function not found")
			continue
		}
		set := w.callTo(`starlark\.Thread\.SetLocal`, ``, `^"symmetry_context"$`, `^SymmetryContext$`)
		run := func(in ssa.Instruction) bool {
			c, ok := in.(*ssa.Call)
			return ok && reMatch(`starlark\.(Eval\w*|Exec\w*)`, calleeName(c))
		}
		w.must(r, step{Key: "context/evaluator/" + name, Why: "the operations of the domains do not find the context", Fn: f, Through: set, Goal: run, Cut: w.cutRel(`^SymmetryContext$`, "==", "^nil$")})
	}
	if f := w.Func("modelchecker.Evaluator.EvalExprWithContext"); f != nil {
		pass := w.callTo(`modelchecker\.Evaluator\.EvalPyExprWithContext`, ``, ``, ``, ``, `^SymmetryContext$`)
		w.must(r, step{Key: "context/evaluator/EvalExprWithContext", Why: "the context is dropped", Fn: f, Through: pass, Goal: retOf(f)})
	}
}

// savesContext: the function takes part in the execution of statements.
func (w *World) savesContext(f *ssa.Function) bool {
	ex := w.Func("modelchecker.Thread.Execute")
	return ex == nil || w.reachable(ex)[f]
}

// recorded: the instruction that marks an id as used.
func (w *World) recorded(in ssa.Instruction) (key ssa.Value) {
	mu, ok := in.(*ssa.MapUpdate)
	if !ok || !w.isCacheMap(mu.Map) {
		return nil
	}
	if b, known := constBool(mu.Value); !known || !b {
		return nil
	}
	return mu.Key
}

// freshRules: the values that are handed out.
func (w *World) freshRules(r *Rep) {
	dom, seg := w.Func("lib.SymmetryDomain.fresh"), w.Func("lib.Segment.fresh")
	for n, f := range map[string]*ssa.Function{"SymmetryDomain.fresh": dom, "Segment.fresh": seg} {
		if f == nil {
			r.Undecided("fresh/"+n, "-", "function not found")
			continue
		}
		grp := w.domGroup(f)
		made := func(in ssa.Instruction) bool { c, _ := makesValue(in); return c != nil }
		w.must(r, step{Key: "fresh/" + n + "/materialized", Why: "a value is handed out by a domain whose values all exist already", Fn: f, Goal: made, Cut: w.isFalse(`\.Materialize$`), NoEnter: outside(grp)})
		w.must(r, step{Key: "fresh/" + n + "/limit", Why: "a value is handed out although the limit is reached", Fn: f, Goal: made, NoEnter: outside(grp),
			Cut: w.cutRel(`^len\(.*\.Cache\[.*\]\)$`, "<", `\.Limit$`)})
		w.limitDisables(r, n, f, grp)
		// refused only for a reason
		found := func(e Edge) bool { // no candidate was left
			ph, ok := e.Cond.(*ssa.Phi)
			return ok && !e.Taken && isBool(ph)
		}
		w.must(r, step{Key: "fresh/" + n + "/refused", Why: "a value is refused although the domain has room", Fn: f, NoEnter: outside(grp),
			Goal: func(in ssa.Instruction) bool {
				a, ok := in.(*ssa.Alloc)
				return ok && namedName(deref(a.Type())) == "DisableTransitionError"
			},
			Cut: anyCut(w.cutRel(`^len\(.*\.Cache\[.*\]\)$`, ">=", `\.Limit$`), w.cutRel(` - `, ">", `\.Divergence$`), w.cutRel(`midpoint\(`, "!=", "^nil$"), found, w.cutRel(`^phi`, "<", `^0$`), w.cutRel(`^phi`, "==", `^-1$`), w.cutRel(`phi`, ">=", `\.Limit$`))})
		// the value that is returned is the one that is recorded, in this domain
		k := 0
		for _, g := range grp {
			instrs(g, func(in ssa.Instruction) {
				c, id := makesValue(in)
				if c == nil {
					return
				}
				k++
				same := func(x ssa.Instruction) bool {
					key := w.recorded(x)
					return key != nil && (key == id || w.render(key) == w.render(id) || w.isOneOf(key, w.argsIn(id, grp, 0)))
				}
				name := re(`(SymmetryDomain|Segment\.Domain)\.Name$`).MatchString(w.render(c.Call.Args[0]))
				r.Check("fresh/"+n+"/domain", w.ipos(in), name, ifBad(!name, "the value belongs to another domain"))
				w.kindOfValue(r, "fresh/"+n+"/kind", c, f, grp)
				ok := false
				for _, h := range grp {
					instrs(h, func(x ssa.Instruction) { ok = ok || same(x) })
				}
				r.Check("fresh/"+n+"/same", w.ipos(in), ok, ifBad(!ok, "the value handed out is not the one that is recorded as used"))
				w.must(r, step{Key: "fresh/" + n + "/recorded", Why: "a value is handed out that does not count as used", Fn: f, NoEnter: outside(grp), Through: same, Cut: w.otherMaker(c),
					Goal: func(x ssa.Instruction) bool {
						rt, ok := x.(*ssa.Return)
						return ok && rt.Parent() == f && w.returns(rt, c)
					}})
			})
		}
		r.Floor("values that "+n+" hands out", k, 1)
	}
	if dom == nil || seg == nil {
		return
	}
	w.freshKinds(r, dom)
	w.freshSegment(r, seg)
	w.midpointRules(r)
}

func (w *World) otherMaker(*ssa.Call) func(Edge) bool { return func(Edge) bool { return false } }

// returns: the first result of rt can be the value that c made.
func (w *World) returns(rt *ssa.Return, c *ssa.Call) bool {
	hit := false
	w.everyValue(retVal(rt, 0), func(x ssa.Value) bool { hit = hit || x == ssa.Value(c); return true }, 0)
	return hit
}

// kindOfValue: rotational values carry their limit, the others the kind of the domain.
func (w *World) kindOfValue(r *Rep, key string, c *ssa.Call, f *ssa.Function, group []*ssa.Function) {
	a := c.Call.Args
	is := func(x ssa.Instruction) bool { return x == ssa.Instruction(c) }
	switch n := calleeName(c); n {
	case "lib.NewRotationalSymmetricValue":
		ok := re(`\.Limit$`).MatchString(w.render(a[2]))
		r.Check(key+"/limit", w.ipos(c), ok, ifBad(!ok, "the value does not carry the limit of its domain"))
		for _, k := range []string{"nominal", "ordinal", "interval"} {
			bad, tr := w.reachesCase(f, group, is, w.domKind(k))
			r.Check(key+"/not-rotational/"+k, w.ipos(c), !bad, ifBad(bad, "the value is made rotational: "+strings.Join(tr, " → ")))
		}
	case "lib.NewSymmetricValueWithKind":
		ok := re(`(SymmetryDomain|Segment\.Domain|SymmetricValue)\.Kind$`).MatchString(w.render(a[2]))
		r.Check(key+"/kind", w.ipos(c), ok, ifBad(!ok, "the value does not have the kind of its domain"))
		if namedName(f.Signature.Recv().Type()) != "Segment" {
			bad, tr := w.reachesCase(f, group, is, w.domKind("rotational"))
			r.Check(key+"/rotational", w.ipos(c), !bad, ifBad(bad, "a rotational value is made without its limit: "+strings.Join(tr, " → ")))
		}
	default:
		r.Check(key+"/kind", w.ipos(c), false, "the value is made nominal")
	}
}

// reachesCase: can the instruction be executed when the cut branches are impossible?
func (w *World) reachesCase(f *ssa.Function, group []*ssa.Function, is func(ssa.Instruction) bool, cut func(Edge) bool) (bool, []string) {
	q := &Q{W: w, Cut: cut, Goal: is, NoEnter: outside(group)}
	return q.Entry(f)
}

// freshKinds: which value a domain hands out.
func (w *World) freshKinds(r *Rep, f *ssa.Function) {
	group := w.domGroup(f)
	// lookups of the cache that decide whether an id is free
	var looked []ssa.Value
	free := func(e Edge) bool {
		lk, ok := e.Cond.(*ssa.Lookup)
		if !ok || e.Taken || !w.isCacheMap(lk.X) {
			return false
		}
		return true
	}
	for _, g := range group {
		instrs(g, func(in ssa.Instruction) {
			if lk, ok := in.(*ssa.Lookup); ok && w.isCacheMap(lk.X) && !lk.CommaOk {
				looked = append(looked, lk.Index)
			}
		})
	}
	rec := func(in ssa.Instruction) bool { return w.recorded(in) != nil }
	noFresh := func(g *ssa.Function) bool { return !inFuncs(group, g) }
	for _, k := range []string{"nominal", "rotational"} {
		w.must(r, step{Key: "fresh/" + k + "/unused", Why: "a value is handed out without looking whether it is in use", Fn: f, Goal: rec, Cut: anyCut(w.domKind(k), free), NoEnter: noFresh})
	}
	check := func(key, why string, from func(q *Q) (bool, []string), cut func(Edge) bool, bad func(id ssa.Value, res func(ssa.Value) ssa.Value) bool) {
		q := &Q{W: w, Cut: cut, Track: isInt64, NoEnter: noFresh, GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
			id := w.recorded(in)
			return id != nil && bad(id, res)
		}}
		var b bool
		var tr []string
		if from == nil {
			b, tr = q.Entry(f)
		} else {
			b, tr = from(q)
		}
		r.Check(key, w.Pos(f.Pos()), !b, ifBad(b, why+": "+strings.Join(tr, " → ")))
	}
	// nominal and rotational: the id that was found free
	for _, k := range []string{"nominal", "rotational"} {
		check("fresh/"+k+"/the-free-one", "another id than the free one is handed out", nil, w.domKind(k), func(id ssa.Value, res func(ssa.Value) ssa.Value) bool {
			if w.viaHelper(id, looked) {
				return false
			}
			v := peelConv(res(id))
			for _, x := range looked {
				if y := peelConv(res(x)); x == v || y == v || x == id {
					return false
				}
			}
			return true
		})
	}
	w.nominalOrder(r, f, looked)
	w.rotationalOrder(r, f, looked)

	// interval: one more than the largest, or the start
	cache := func(v ssa.Value) bool { return w.isCacheMap(v) || w.idsOfCache(v) }
	isStart := func(v ssa.Value) bool { return re(`SymmetryDomain\.Start$`).MatchString(w.render(peelConv(v))) }
	next := func(v ssa.Value) bool {
		bo, ok := peelConv(v).(*ssa.BinOp)
		if !ok || bo.Op != token.ADD {
			return false
		}
		x, y := bo.X, bo.Y
		if isConstInt(1)(x) {
			x, y = y, x
		}
		return isConstInt(1)(y) && w.extremum(x, 1, cache, w.domKind("interval"), 0)
	}
	resolveId := func(id ssa.Value, res func(ssa.Value) ssa.Value) ssa.Value { return peelConv(res(peelConv(id))) }
	anyId := func(p func(ssa.Value) bool) func(ssa.Value, func(ssa.Value) ssa.Value) bool {
		return func(id ssa.Value, res func(ssa.Value) ssa.Value) bool {
			v := resolveId(id, res)
			if p(v) || p(peelConv(id)) {
				return true
			}
			if ex, c := callOf(v); ex { // computed by a helper
				_ = c
				return w.everyValue(v, func(x ssa.Value) bool { return p(x) }, 0)
			}
			return false
		}
	}
	check("fresh/interval/next", "an interval domain hands out a value that is not next to the largest one or the start", nil, w.domKind("interval"), func(id ssa.Value, res func(ssa.Value) ssa.Value) bool {
		return !anyId(func(v ssa.Value) bool { return next(v) || isStart(v) })(id, res)
	})
	loops := w.rangeLoops(f, group)
	nonEmpty := w.isEmpty(`.*\.Cache\[.*`)
	for _, l := range loops {
		l := l
		if l.Fn != f {
			continue
		}
		from := func(q *Q) (bool, []string) { return q.from(f, point{l.entry(), 0, l.Head}) }
		if hit, _ := (&Q{W: w, Cut: w.domKind("interval"), Goal: func(in ssa.Instruction) bool { return in == firstNonPhi(l.Head) }, NoEnter: noFresh}).Entry(f); hit {
			check("fresh/interval/start", "the start is handed out again", from, anyCut(nonEmpty, w.domKind("interval")), func(id ssa.Value, res func(ssa.Value) ssa.Value) bool { return isStart(resolveId(id, res)) })
			check("fresh/interval/divergence", "a value too far from the smallest is handed out", from, anyCut(nonEmpty, w.domKind("interval"), w.cutRel(`\.Divergence$`, "<=", "^0$"), func(e Edge) bool {
				x, op, y, ok := relOf(e)
				if !ok {
					return false
				}
				if op == token.GEQ {
					x, y, op = y, x, token.LEQ
				}
				bo, isSub := x.(*ssa.BinOp)
				return op == token.LEQ && isSub && bo.Op == token.SUB && re(`\.Divergence$`).MatchString(w.render(y)) && w.extremum(bo.Y, -1, cache, w.domKind("interval"), 0) &&
					w.mayBe(bo.X, next)
			}), func(id ssa.Value, res func(ssa.Value) ssa.Value) bool { return true })
		}
		if hit, _ := (&Q{W: w, Cut: w.domKind("ordinal"), Goal: func(in ssa.Instruction) bool { return in == firstNonPhi(l.Head) }, NoEnter: noFresh}).Entry(f); hit {
			check("fresh/ordinal/after", "an ordinal domain that has values hands one out that is not after the largest", from, anyCut(nonEmpty, w.domKind("ordinal")), func(id ssa.Value, res func(ssa.Value) ssa.Value) bool {
				return !w.isMidpoint(resolveId(id, res), func(lo ssa.Value) bool {
					return w.extremum(lo, 1, cache, w.domKind("ordinal"), 0) || w.extremum(res(lo), 1, cache, w.domKind("ordinal"), 0)
				}, isConstInt(ordinalMax), res)
			})
		}
	}
	empty := anyCut(func(e Edge) bool {
		for _, l := range loops {
			if e.If == l.Head.Instrs[len(l.Head.Instrs)-1] && e.Taken {
				return true
			}
		}
		return false
	}, w.nonEmpty(`.*\.Cache\[.*`))
	check("fresh/interval/first", "an interval domain without values hands out another value than its start", nil, anyCut(empty, w.domKind("interval")), func(id ssa.Value, res func(ssa.Value) ssa.Value) bool {
		return !anyId(isStart)(id, res) && !w.mayBe(id, isStart)
	})
	check("fresh/ordinal/any", "an ordinal domain hands out a value that is not between the largest and the end", nil, w.domKind("ordinal"), func(id ssa.Value, res func(ssa.Value) ssa.Value) bool {
		v := resolveId(id, res)
		var low func(lo ssa.Value) bool
		low = func(lo ssa.Value) bool {
			if isConstInt(0)(lo) || w.extremum(lo, 1, cache, w.domKind("ordinal"), 0) {
				return true
			}
			ph, ok := peelConv(lo).(*ssa.Phi)
			return ok && naturalLoop(ph.Block()) == nil && allOf(ph.Edges, low)
		}
		mid := func(x ssa.Value) bool { return w.isMidpoint(x, low, isConstInt(ordinalMax), res) }
		if ex, _ := callOf(v); ex && !mid(v) && w.everyValue(v, func(x ssa.Value) bool { return mid(x) || isConstInt(0)(x) }, 0) {
			return false
		}
		return !mid(v)
	})
}

func callOf(v ssa.Value) (bool, *ssa.Call) {
	if ex, ok := v.(*ssa.Extract); ok {
		v = ex.Tuple
	}
	c, ok := v.(*ssa.Call)
	return ok, c
}

// mayBe: one of the values that v can have is accepted.
func (w *World) mayBe(v ssa.Value, p func(ssa.Value) bool) bool {
	hit := false
	seen := map[ssa.Value]bool{}
	var walk func(x ssa.Value, d int)
	walk = func(x ssa.Value, d int) {
		x = w.bound.of(x)
		if hit || seen[x] || d > 12 {
			return
		}
		seen[x] = true
		if hit = p(x) || p(peelConv(x)); hit {
			return
		}
		if y := peelConv(x); y != x {
			walk(y, d+1)
			return
		}
		if ph, ok := x.(*ssa.Phi); ok {
			for _, e := range ph.Edges {
				walk(e, d+1)
			}
			return
		}
		if isCall, _ := callOf(x); isCall {
			w.everyValue(x, func(y ssa.Value) bool {
				if y != x {
					walk(y, d+1)
				}
				return y != x
			}, 0)
		}
	}
	walk(v, 0)
	return hit
}

// viaHelper: the id is computed by a helper that returns an id it has looked up.
func (w *World) viaHelper(id ssa.Value, looked []ssa.Value) bool {
	isCall, _ := callOf(peelConv(id))
	if !isCall {
		return false
	}
	return w.everyValue(id, func(x ssa.Value) bool {
		for _, y := range looked {
			if peelConv(y) == peelConv(x) {
				return true
			}
		}
		_, isC := x.(*ssa.Const)
		return isC
	}, 0)
}

// rangeLoops: the loops of the group over the ids of the domain.
func (w *World) rangeLoops(f *ssa.Function, group []*ssa.Function) []*LoopInfo {
	var out []*LoopInfo
	for _, g := range group {
		for _, l := range w.loopsOf(g) {
			if l.Over != nil && (w.isCacheMap(l.Over) || w.idsOfCache(l.Over)) {
				out = append(out, l)
			}
		}
	}
	return out
}

// isMidpoint: v is midpoint(lo, hi).
func (w *World) isMidpoint(v ssa.Value, lo, hi func(ssa.Value) bool, res func(ssa.Value) ssa.Value) bool {
	ex, ok := v.(*ssa.Extract)
	if !ok || ex.Index != 0 {
		return false
	}
	c, ok := ex.Tuple.(*ssa.Call)
	if !ok || calleeName(c) != "lib.midpoint" {
		return false
	}
	a, b := c.Call.Args[0], c.Call.Args[1]
	return (lo(a) || lo(res(a))) && (hi(b) || hi(res(b)))
}

// nominalOrder: the smallest unused id: from 0 upwards, one by one.
func (w *World) nominalOrder(r *Rep, f *ssa.Function, looked []ssa.Value) {
	found := false
	for _, x := range looked {
		ph, ok := peelConv(x).(*ssa.Phi)
		if !ok || naturalLoop(ph.Block()) == nil {
			continue
		}
		lp := naturalLoop(ph.Block())
		good := true
		for i, e := range ph.Edges {
			if lp[ph.Block().Preds[i]] {
				bo, ok := e.(*ssa.BinOp)
				good = good && ok && bo.Op == token.ADD && bo.X == ssa.Value(ph) && isConstInt(1)(bo.Y)
			} else {
				good = good && isConstInt(0)(e)
			}
		}
		found = found || good
	}
	r.Check("fresh/nominal/smallest", w.Pos(f.Pos()), found, ifBad(!found, "a nominal domain does not hand out the smallest unused value"))
}

// rotationalOrder: the candidates are last+1, last+2, … modulo the limit.
func (w *World) rotationalOrder(r *Rep, f *ssa.Function, looked []ssa.Value) {
	n := 0
	for _, x := range looked {
		bo, ok := peelConv(x).(*ssa.BinOp)
		if !ok || bo.Op != token.REM {
			if ph, isPhi := peelConv(x).(*ssa.Phi); isPhi && naturalLoop(ph.Block()) != nil { // stepped along
				step := 0
				for i, e := range ph.Edges {
					if b, ok := peelConv(e).(*ssa.BinOp); ok && b.Op == token.REM && re(`\.Limit$`).MatchString(w.render(b.Y)) {
						terms := map[string]int64{}
						k := w.sum(b.X, 1, terms, 0)
						if naturalLoop(ph.Block())[ph.Block().Preds[i]] {
							if k == 1 && len(terms) == 1 {
								step++
							}
						} else if k == 1 && lastTerm(terms) {
							step++
						}
					}
				}
				if step == len(ph.Edges) {
					n++
				}
			}
			continue
		}
		n++
		lim := re(`SymmetryDomain\.Limit$`).MatchString(w.render(bo.Y))
		r.Check("fresh/rotational/modulo", w.ipos(bo), lim, ifBad(!lim, "the value is not taken modulo the limit"))
		terms := map[string]int64{}
		k := w.sum(bo.X, 1, terms, 0)
		var idx *ssa.Phi
		last := false
		good := len(terms) == 2
		for _, v := range w.sumLeaves(bo.X) {
			ph, isPhi := v.(*ssa.Phi)
			if isPhi && naturalLoop(ph.Block()) != nil {
				idx = ph
			} else if re(`LastAllocated\[.*\.Name\]`).MatchString(w.render(v)) {
				last = w.lastOrNone(v)
			}
		}
		for _, t := range terms {
			good = good && t == 1
		}
		good = good && idx != nil && last
		if good {
			lp := naturalLoop(idx.Block())
			start := int64(0)
			for i, e := range idx.Edges {
				if lp[idx.Block().Preds[i]] {
					b, ok := e.(*ssa.BinOp)
					good = good && ok && b.Op == token.ADD && b.X == ssa.Value(idx) && isConstInt(1)(b.Y)
				} else if c, ok := e.(*ssa.Const); ok {
					start = c.Int64()
				} else {
					good = false
				}
			}
			good = good && k+start == 1
			// as many candidates as there are values
			if iff, ok := idx.Block().Instrs[len(idx.Block().Instrs)-1].(*ssa.If); ok {
				all := start == 0 && matchRel(w.rels(iff.Cond, true), `^phi.*`, "<", `SymmetryDomain\.Limit$`) || start == 1 && matchRel(w.rels(iff.Cond, true), `^phi.*`, "<=", `SymmetryDomain\.Limit$`)
				if cb, ok := iff.Cond.(*ssa.BinOp); ok && peelConv(cb.X) == ssa.Value(idx) {
					r.Check("fresh/rotational/all", w.ipos(iff), all, ifBad(!all, "not every value of the domain is tried"))
				}
			}
		}
		r.Check("fresh/rotational/order", w.ipos(bo), good, ifBad(!good, "a rotational domain does not continue after the value it handed out last"))
	}
	r.Check("fresh/rotational/candidates", w.Pos(f.Pos()), n > 0, ifBad(n == 0, "a rotational domain does not continue after the value it handed out last"))
	// remembered
	group := w.withHelpers(f)
	keep := func(in ssa.Instruction) bool {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok || !re(`\.LastAllocated$`).MatchString(w.render(mu.Map)) || !re(`\.Name$`).MatchString(w.render(mu.Key)) {
			return false
		}
		for _, g := range group {
			same := false
			instrs(g, func(x ssa.Instruction) {
				if id := w.recorded(x); id != nil {
					same = same || w.render(id) == w.render(mu.Value) || w.mayBe(id, func(y ssa.Value) bool { return y == mu.Value || w.render(y) == w.render(mu.Value) })
				}
			})
			if same {
				return true
			}
		}
		return false
	}
	for _, g := range group {
		instrs(g, func(in ssa.Instruction) {
			if c, _ := makesValue(in); c != nil && calleeName(c) == "lib.NewRotationalSymmetricValue" {
				w.must(r, step{Key: "fresh/rotational/remembered", Why: "the value handed out last is not remembered", Fn: f, Through: keep, Cut: w.domKind("rotational"), NoEnter: w.onlyHelpers(f),
					Goal: func(x ssa.Instruction) bool {
						rt, ok := x.(*ssa.Return)
						return ok && rt.Parent() == f && w.returns(rt, c)
					}})
			}
		})
	}
}

func lastTerm(t map[string]int64) bool {
	for k := range t {
		if strings.Contains(k, "LastAllocated") {
			return len(t) == 1
		}
	}
	return false
}

// lastOrNone: the last allocated value of the domain, or -1 when there is none.
func (w *World) lastOrNone(v ssa.Value) bool {
	for _, x := range phiLeaves(v) {
		if isConstInt(-1)(x) {
			continue
		}
		if !re(`^.*LastAllocated\[SymmetryDomain\.Name\](#0)?$`).MatchString(w.render(x)) {
			return false
		}
	}
	ph, ok := v.(*ssa.Phi)
	if !ok {
		return w.everyValue(v, func(x ssa.Value) bool { return isConstInt(-1)(x) || re(`LastAllocated\[`).MatchString(w.render(x)) }, 0) && v != nil && !re(`^[^(]*LastAllocated\[[^\]]*\](#0)?$`).MatchString(w.render(v))
	}
	// -1 exactly when nothing was handed out
	for i, e := range ph.Edges {
		from := ph.Block().Preds[i]
		has := w.isTrue(`LastAllocated\[.*\]#1$`)
		none := w.isFalse(`LastAllocated\[.*\]#1$`)
		cut := has
		if isConstInt(-1)(e) {
			cut = none
		}
		// reached only along the matching branch
		q := &Q{W: w, Cut: cut, NoEnter: func(*ssa.Function) bool { return true }, GoalEnv: func(in ssa.Instruction, _ func(ssa.Value) ssa.Value) bool {
			return in == from.Instrs[len(from.Instrs)-1]
		}}
		if iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If); ok && iff.Block().Succs[0] != iff.Block().Succs[1] {
			if !cut(Edge{iff, iff.Cond, iff.Block().Succs[0] == ph.Block()}) {
				return false
			}
			continue
		}
		if bad, _ := q.Entry(ph.Parent()); bad {
			return false
		}
	}
	return true
}

// sum flattens a sum into its constant part and the coefficients of its other terms.
func (w *World) sum(v ssa.Value, sign int64, terms map[string]int64, d int) int64 {
	v = peelConv(w.bound.of(peelConv(v)))
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
		return sign * c.Int64()
	}
	if bo, ok := v.(*ssa.BinOp); ok && d < 8 {
		switch bo.Op {
		case token.ADD:
			return w.sum(bo.X, sign, terms, d+1) + w.sum(bo.Y, sign, terms, d+1)
		case token.SUB:
			return w.sum(bo.X, sign, terms, d+1) + w.sum(bo.Y, -sign, terms, d+1)
		}
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.SUB {
		return w.sum(u.X, -sign, terms, d+1)
	}
	terms[w.render(v)] += sign
	return 0
}

func (w *World) sumLeaves(v ssa.Value) []ssa.Value {
	v = peelConv(w.bound.of(peelConv(v)))
	if bo, ok := v.(*ssa.BinOp); ok && (bo.Op == token.ADD || bo.Op == token.SUB) {
		return append(w.sumLeaves(bo.X), w.sumLeaves(bo.Y)...)
	}
	return []ssa.Value{v}
}

// freshSegment: the ends of the segment decide where the new value lies.
func (w *World) freshSegment(r *Rep, f *ssa.Function) {
	for _, side := range []struct{ flag, field, name string }{{"IsHead", "Left", "left"}, {"IsTail", "Right", "right"}} {
		arg := 0
		end := isConstInt(0)
		if side.flag == "IsTail" {
			arg, end = 1, isConstInt(ordinalMax)
		}
		own := func(v ssa.Value) bool { return re(`Segment\.` + side.field + `$`).MatchString(w.render(v)) }
		for _, open := range []bool{true, false} {
			for _, other := range []bool{true, false} {
				flag := map[bool]func(string) func(Edge) bool{true: w.isFalse, false: w.isTrue}
				o := map[string]string{"IsHead": "IsTail", "IsTail": "IsHead"}[side.flag]
				cut := anyCut(flag[open](`Segment\.`+side.flag+`$`), flag[other](`Segment\.`+o+`$`))
				want, name := own, "closed"
				if open {
					want, name = end, "open"
				}
				q := &Q{W: w, Cut: cut, Track: isInt64, NoEnter: w.onlyHelpers(f), GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
					c, ok := in.(*ssa.Call)
					if !ok || calleeName(c) != "lib.midpoint" {
						return false
					}
					a := c.Call.Args[arg]
					return !want(res(a)) && !w.everyValue(a, want, 0)
				}}
				bad, tr := q.Entry(f)
				r.Check("fresh/segment/"+side.name+"/"+name, w.Pos(f.Pos()), !bad, ifBad(bad, "the new value does not lie inside the segment: "+strings.Join(tr, " → ")))
			}
		}
	}
	q := &Q{W: w, Track: isInt64, NoEnter: w.onlyHelpers(f), GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
		id := w.recorded(in)
		any := func(ssa.Value) bool { return true }
		return id != nil && !w.isMidpoint(res(id), any, any, res) && !w.everyValue(id, func(x ssa.Value) bool { return w.isMidpoint(x, any, any, res) }, 0)
	}}
	bad, tr := q.Entry(f)
	r.Check("fresh/segment/midpoint", w.Pos(f.Pos()), !bad, ifBad(bad, "the new value is not taken from the middle of the segment: "+strings.Join(tr, " → ")))
	w.must(r, step{Key: "fresh/segment/failed", Why: "a value is recorded although the segment has no room", Fn: f, NoEnter: w.onlyHelpers(f), Goal: func(in ssa.Instruction) bool { return w.recorded(in) != nil },
		Cut: w.cutRel(`midpoint\(.*#1`, "==", "^nil$")})
}

// midpointRules: strictly between the two, or an error.
func (w *World) midpointRules(r *Rep) {
	f := w.Func("lib.midpoint")
	if f == nil || len(f.Params) != 2 {
		r.Undecided("fresh/midpoint", "-", "midpoint not found")
		return
	}
	lo, hi := f.Params[0], f.Params[1]
	is := func(p *ssa.Parameter) func(ssa.Value) bool {
		return func(v ssa.Value) bool { return peelConv(v) == ssa.Value(p) }
	}
	diff := func(v ssa.Value) bool {
		b, ok := peelConv(v).(*ssa.BinOp)
		return ok && b.Op == token.SUB && is(hi)(b.X) && is(lo)(b.Y)
	}
	half := func(v ssa.Value) bool {
		b, ok := peelConv(v).(*ssa.BinOp)
		return ok && (b.Op == token.QUO && isConstInt(2)(b.Y) || b.Op == token.SHR && isConstInt(1)(b.Y)) && diff(b.X)
	}
	instrs(f, func(in ssa.Instruction) {
		rt, ok := in.(*ssa.Return)
		if !ok || !isNilConst(retVal(rt, 1)) {
			return
		}
		b, isB := peelConv(retVal(rt, 0)).(*ssa.BinOp)
		good := isB && (b.Op == token.ADD && (is(lo)(b.X) && half(b.Y) || is(lo)(b.Y) && half(b.X)) || b.Op == token.SUB && is(hi)(b.X) && half(b.Y))
		if isB && !good && (b.Op == token.QUO && isConstInt(2)(b.Y)) {
			s, ok := peelConv(b.X).(*ssa.BinOp)
			good = ok && s.Op == token.ADD && (is(lo)(s.X) && is(hi)(s.Y) || is(hi)(s.X) && is(lo)(s.Y))
		}
		r.Check("fresh/midpoint/value", w.ipos(in), good, ifBad(!good, "the result is not in the middle"))
		room := anyCut(says(diff, isConstInt(2), token.GEQ), says(diff, isConstInt(1), token.GTR))
		w.must(r, step{Key: "fresh/midpoint/room", Why: "a value is returned although there is none between the two", Fn: f, Cut: room, Goal: func(x ssa.Instruction) bool { return x == in }})
	})
	w.must(r, step{Key: "fresh/midpoint/refused", Why: "no value is returned although there is room", Fn: f,
		Cut: anyCut(says(diff, isConstInt(2), token.LSS), says(diff, isConstInt(1), token.LEQ), says(is(hi), is(lo), token.LEQ)),
		GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
			rt, ok := in.(*ssa.Return)
			return ok && !isNilConst(res(retVal(rt, 1)))
		}})
}

// domGroup: f and the functions of its package that it calls, except the other operations of domains.
func (w *World) domGroup(f *ssa.Function) []*ssa.Function {
	out := []*ssa.Function{f}
	for i := 0; i < len(out); i++ {
		out = append(out, out[i].AnonFuncs...)
		deep := func(in ssa.Instruction) {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			t := c.Common().StaticCallee()
			if t == nil || !w.owns(t) || len(t.Blocks) == 0 || inFuncs(out, t) || t.Package() != f.Package() || builtinSig(t) {
				return
			}
			switch n := fname(t); {
			case reMatch(`lib\.New.*|lib\.midpoint|lib\.IsDisableTransitionError|lib\.SymmetryContext\..*|lib\.SymmetryDomain\.(ensureMaterialized|getExtremeOrFresh)`, n):
				return
			}
			out = append(out, t)
		}
		instrs(out[i], deep)
	}
	return out
}

func outside(group []*ssa.Function) func(*ssa.Function) bool {
	return func(f *ssa.Function) bool { return !inFuncs(group, f) }
}

func (w *World) isOneOf(v ssa.Value, vs []ssa.Value) bool {
	for _, x := range vs {
		if x == peelConv(v) || w.render(x) == w.render(v) {
			return true
		}
	}
	return false
}

// lastKept: a copy of a process knows the last values of the rotational domains.
func (w *World) lastKept(r *Rep) {
	n := 0
	for _, f := range w.Funcs {
		if f.Package() == nil || f.Package().Pkg.Name() != "modelchecker" {
			continue
		}
		ours := map[ssa.Instruction]bool{}
		instrs(f, func(in ssa.Instruction) {
			st, base := fieldStore(in, "Process", "RotationalLastAllocated")
			if st == nil {
				return
			}
			if _, own := base.(*ssa.Parameter); own {
				return // saved in the process itself
			}
			if c, ok := st.Val.(*ssa.Const); ok && c.Value == nil {
				return
			}
			ours[in] = true
		})
		if len(ours) == 0 {
			continue
		}
		n++
		put := func(in ssa.Instruction) bool {
			mu, ok := in.(*ssa.MapUpdate)
			return ok && re(`^range\(.*RotationalLastAllocated\)#1$`).MatchString(w.render(mu.Key)) && re(`^range\(.*RotationalLastAllocated\)#2$|RotationalLastAllocated\[range\(`).MatchString(w.render(mu.Value))
		}
		ls := w.natLoops([]*ssa.Function{f}, put)
		for _, l := range ls {
			w.wholeLoop(r, "known/copied", l, put, nil, nil)
		}
		whole := anyOf(headOf(ls), w.callTo(`maps\.(Copy|Clone)(\[.*)?`, `RotationalLastAllocated`))
		w.must(r, step{Key: "known/copied", Why: "a copy of a process forgets the last values of the rotational domains", Fn: f, Through: whole, Goal: retOf(f), NoEnter: func(*ssa.Function) bool { return true },
			Cut: anyCut(w.cutRel(`Process\.RotationalLastAllocated$`, "==", "^nil$"), w.isEmpty(`.*Process\.RotationalLastAllocated`))})
	}
	r.Floor("copies of a process", n, 1)
}

// usedCollector: every value that is visited counts as used, and all of them are reported.
func (w *World) usedCollector(r *Rep) {
	visit, all := w.Func("modelchecker.UsedSymmetricValuesCollector.VisitSymmetricValue"), w.Func("modelchecker.UsedSymmetricValuesCollector.GetAllUsedIDs")
	if visit == nil || all == nil {
		r.Undecided("known/collector", "-", "the collector of used values was not found")
		return
	}
	rec := func(in ssa.Instruction) bool {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok || !re(`usedValues\[.*[pP]refix.*\]$`).MatchString(w.render(mu.Map)) || !re(`SymmetricValue\..*\bid$|GetId\(`).MatchString(w.render(mu.Key)) {
			return false
		}
		b, known := constBool(mu.Value)
		return known && b
	}
	w.must(r, step{Key: "known/collector/visit", Why: "a value of the state does not count as used", Fn: visit, Through: rec, Goal: retOf(visit)})
	group := []*ssa.Function{all}
	for i := 0; i < len(group); i++ {
		instrs(group[i], func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok {
				if t := c.Common().StaticCallee(); t != nil && w.owns(t) && len(t.Blocks) > 0 && !inFuncs(group, t) {
					group = append(group, t)
				}
			}
		})
	}
	n := 0
	for _, g := range group {
		for _, l := range w.loopsOf(g) {
			if l.Over == nil {
				continue
			}
			if g == all && re(`usedValues$`).MatchString(w.render(l.Over)) {
				n++
				w.wholeLoop(r, "known/collector/domains", l, func(in ssa.Instruction) bool {
					mu, ok := in.(*ssa.MapUpdate)
					return ok && re(`^range\(.*usedValues\)#1$`).MatchString(w.render(mu.Key)) && in.Parent() == g
				}, nil, nil)
				continue
			}
			if mt, ok := l.Over.Type().Underlying().(*types.Map); ok && shortType(mt.Key()) == "int64" {
				w.wholeLoop(r, "known/collector/ids", l, func(in ssa.Instruction) bool {
					c, ok := in.(*ssa.Call)
					return ok && calleeName(c) == "builtin.append"
				}, nil, nil)
			}
		}
	}
	r.Floor("loops over the domains with used values", n, 1)
}

// limitDisables: an operation without room disables the transition, it is not an error of the model.
func (w *World) limitDisables(r *Rep, name string, f *ssa.Function, grp []*ssa.Function) {
	full := anyCut(w.cutRel(`^len\(.*\.Cache\[.*\]\)$`, ">=", `\.Limit$`), w.cutRel(` - `, ">", `\.Divergence$`))
	if name == "Segment.fresh" {
		full = anyCut(full, w.cutRel(`midpoint\(.*#1$`, "!=", "^nil$"))
	}
	dis := func(v ssa.Value) bool {
		return w.everyValue(v, func(x ssa.Value) bool {
			return isNilConst(x) || namedName(deref(peelMI(x).Type())) == "DisableTransitionError"
		}, 0)
	}
	n := 0
	for _, g := range grp {
		for _, b := range g.Blocks {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			for i, s := range b.Succs {
				if !full(Edge{iff, iff.Cond, i == 0}) {
					continue
				}
				n++
				q := &Q{W: w, NoEnter: outside(grp), Cut: w.isTrue(`\.Materialize$`), GoalEnv: func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
					rt, ok := in.(*ssa.Return)
					if !ok || !inFuncs(grp, rt.Parent()) || len(rt.Results) == 0 {
						return false
					}
					e := res(retVal(rt, len(rt.Results)-1))
					return isErrType(e.Type()) && (isNilConst(e) && rt.Parent() == f || !dis(e))
				}}
				bad, tr := q.from(g, point{s, 0, b})
				r.Check("fresh/"+name+"/disables", w.ipos(iff), !bad, ifBad(bad, "where there is no room the transition is not disabled: "+strings.Join(tr, " → ")))
			}
		}
	}
	r.Floor("places where "+name+" has no room", n, 1)
}
