package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("S12", ruleS12) }

// natLoops: the loops of fns (over anything) in whose body an instruction matches, directly or in a callee.
func (w *World) natLoops(fns []*ssa.Function, has func(ssa.Instruction) bool) []*LoopInfo {
	var out []*LoopInfo
	for _, f := range fns {
		known := map[*ssa.BasicBlock]*LoopInfo{}
		for _, l := range w.loopsOf(f) {
			known[l.Head] = l
		}
		for _, h := range f.Blocks {
			body := naturalLoop(h)
			if body == nil {
				continue
			}
			l := known[h]
			if l == nil {
				l = &LoopInfo{Fn: f, Head: h, Body: body, Elems: map[ssa.Value]bool{}}
			}
			if l.Over == nil {
				l.Over = lenOperand(h)
			}
			found := false
			for b := range body {
				for _, in := range b.Instrs {
					found = found || has(in) || w.reachesInstr(in, has)
				}
			}
			if found {
				out = append(out, l)
			}
		}
	}
	return out
}

// okFalse: branches on which a type assertion to typ fails, or a lookup in a map whose type matches finds nothing.
func okFalse(typ, maps string) func(Edge) bool {
	return func(e Edge) bool {
		ex, is := e.Cond.(*ssa.Extract)
		if !is || ex.Index != 1 {
			return false
		}
		switch x := ex.Tuple.(type) {
		case *ssa.TypeAssert:
			return typ != "" && !e.Taken && reMatch(typ, shortType(x.AssertedType))
		case *ssa.Lookup:
			return maps != "" && !e.Taken && reMatch(maps, shortType(x.X.Type()))
		}
		return false
	}
}

// methodOn: v is the result of the (promoted) method on a value accepted by recv.
func methodOn(v ssa.Value, method string, recv func(ssa.Value) bool) bool {
	c, ok := peelConv(v).(*ssa.Call)
	if !ok || len(c.Call.Args) == 0 && !c.Call.IsInvoke() {
		return false
	}
	n := calleeName(c)
	if n[strings.LastIndex(n, ".")+1:] != method {
		return false
	}
	a := c.Call.Value
	if !c.Call.IsInvoke() {
		a = c.Call.Args[0]
	}
	return recv == nil || recv(promoted(a))
}

// promoted: the value whose embedded field v is.
func promoted(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL && embedded(fa) {
				v = fa.X
				continue
			}
		case *ssa.FieldAddr:
			if embedded(x) {
				v = x.X
				continue
			}
		}
		return v
	}
}

func embedded(fa *ssa.FieldAddr) bool {
	st, ok := deref(fa.X.Type()).Underlying().(*types.Struct)
	return ok && st.Field(fa.Field).Embedded()
}

func ruleS12(c *Ctx, r *Rep) {
	w := c.World
	r.Rule("lookup: a state is looked up and recorded under one hash: the smallest over all its permutations, or its own when symmetry reduction does not apply")
	r.Rule("translations: every alternative of the permutations of a copy of the state is hashed")
	r.Rule("permuted: while a permuted copy is hashed every symmetric value, segment and message receiver of it has the id that the permutation prescribes and its dictionaries, role order and caches are brought up to date; what was changed is put back before the next permutation")
	r.Rule("candidates: the permutations considered cover every used value of every domain by the kind of the domain, in all combinations")
	find := w.Func("modelchecker.Processor.findVisitedSymmetric")
	hash := w.Func("modelchecker.Process.symmetricHashWithoutClone")
	trans := w.Func("modelchecker.Process.getSymmetryTranslations")
	perms := w.Func("modelchecker.getSymmetryPermutations")
	used := w.Func("modelchecker.Process.getUsedSymmetricValuesFromClone")
	clone := w.Func("modelchecker.Process.cloneAndGetSymmetricValuePointers")
	for n, f := range map[string]*ssa.Function{"findVisitedSymmetric": find, "symmetricHashWithoutClone": hash, "getSymmetryTranslations": trans,
		"getSymmetryPermutations": perms, "getUsedSymmetricValuesFromClone": used, "cloneAndGetSymmetricValuePointers": clone} {
		if f == nil {
			r.Undecided("anchor/"+n, "-", "function not found")
			return
		}
	}
	w.visitedRules(r, find)
	w.translationRules(r, trans, perms, hash)
	w.permutedRules(r, hash)
	w.collectRules(r, used, clone)
	w.kindMappingRules(r, perms)
	w.permutationRules(r)
	w.rotationRules(r)
	w.allocationIdentity(r)
	r.Floor("symmetry", len(r.Obls), 80)
}

// visitedRules: one canonical hash for lookup and registration.
func (w *World) visitedRules(r *Rep, find *ssa.Function) {
	off := []string{`^Processor\.simulation$`, `^Processor\.disableSymmetryReduction$`}
	symm := w.callTo(`modelchecker\.Process\.getSymmetryTranslations`)
	no := noEnter("modelchecker.Process.getSymmetryTranslations", "modelchecker.Process.HashCode")
	w.must(r, step{Key: "lookup/reduced", Why: "the state is looked up without trying its permutations", Fn: find, Through: symm, Goal: retOf(find),
		Cut: anyCut(w.isTrue(off[0]), w.isTrue(off[1])), NoEnter: no})
	for i, o := range off {
		w.must(r, step{Key: "lookup/off/" + []string{"simulation", "disabled"}[i], Why: "permutations are tried although symmetry reduction does not apply", Fn: find,
			Through: retOf(find), Goal: symm, Cut: w.isFalse(o), NoEnter: no})
	}
	// results: the entry filed under the very hash that is returned
	for _, b := range find.Blocks {
		rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(rt.Results) != 3 {
			continue
		}
		key := w.plain(retVal(rt, 2))
		n, o := w.plain(retVal(rt, 0)), w.plain(retVal(rt, 1))
		ok = n == "Processor.visited["+key+"]" && o == n+"#1"
		r.Check("lookup/same-hash", w.ipos(rt), ok, ifBad(!ok, "the node, the finding and the hash returned do not belong together: "+n+", "+o+", "+key))
		okh := w.leastHash(r, retVal(rt, 2), anyCut(w.isTrue(off[0]), w.isTrue(off[1]), w.isEmpty(`.*`)), 0)
		r.Check("lookup/hash", w.ipos(rt), okh, ifBad(!okh, "the hash is neither the state's own nor the smallest over its permutations: "+key))
	}
	// registration
	n := 0
	for f := range w.reachable(w.Func("main.main")) {
		instrs(f, func(in ssa.Instruction) {
			u, ok := in.(*ssa.MapUpdate)
			if !ok || !reMatch(`Processor\.visited`, w.plain(u.Map)) {
				return
			}
			n++
			m := re(`^Processor\.findVisitedSymmetric\(Processor,(.*)\)#2$`).FindStringSubmatch(w.plain(u.Key))
			ok = m != nil && (isNilConst(u.Value) || m[1] == w.plain(u.Value))
			r.Check("lookup/recorded", w.ipos(in), ok, ifBad(!ok, "a state is recorded under "+w.plain(u.Key)+", which is not the hash it is looked up by"))
		})
	}
	r.Check("lookup/records", w.Pos(find.Pos()), n >= 3, ifBad(n < 3, "the places that record states were not found"))
}

// startsAt: the constant that the index of the loop starts at.
func (l *LoopInfo) startsAt() int64 {
	for _, in := range l.Head.Instrs {
		if ph, ok := in.(*ssa.Phi); ok && isInt(ph.Type()) {
			for i, e := range ph.Edges {
				if c, ok := e.(*ssa.Const); ok && !l.Body[l.Head.Preds[i]] {
					return c.Int64()
				}
			}
		}
	}
	return -1
}

// leastHash: v is the smallest of the hashes of the permutations, or the hash of the state itself where there is nothing to permute.
func (w *World) leastHash(r *Rep, v ssa.Value, plainOk func(Edge) bool, d int) bool {
	if d > 6 {
		return false
	}
	if w.minimum(v) {
		return true
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v && !w.leastHash(r, e, plainOk, d+1) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		return false
	case *ssa.Call:
		if reMatch(`modelchecker\.Process\.HashCode`, calleeName(x)) {
			if !reMatch(`Process\.HashCode\((Node|Process|Node\.Process)\)`, w.plain(v)) {
				return false
			}
			w.must(r, step{Key: "lookup/own-hash", Why: "the state's own hash is used although its permutations have other hashes", Fn: x.Parent(),
				Through: func(ssa.Instruction) bool { return false }, Goal: func(in ssa.Instruction) bool { return in == ssa.Instruction(x) }, Cut: plainOk,
				NoEnter: func(*ssa.Function) bool { return true }})
			return true
		}
		f := x.Call.StaticCallee()
		if f == nil || !w.owns(f) || len(f.Blocks) == 0 {
			return false
		}
		for _, b := range f.Blocks {
			if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !w.leastHash(r, retVal(rt, 0), plainOk, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// minimum: v is the smallest (or the largest) of a list of hashes, all of which are compared.
func (w *World) minimum(v ssa.Value) bool {
	ph, ok := v.(*ssa.Phi)
	if !ok {
		switch x := v.(type) {
		case *ssa.Call:
			return reMatch(`slices\.(Min|Max)`, calleeName(x))
		case *ssa.UnOp: // the only element, when the list has one
			return reMatch(`Process\.getSymmetryTranslations\(.*\)\[0\]`, w.plain(v))
		}
		return false
	}
	body := naturalLoop(ph.Block())
	var l *LoopInfo
	for _, x := range w.loopsOf(ph.Parent()) {
		if x.Head == ph.Block() {
			l = x
		}
	}
	if body == nil || l == nil || l.Over == nil {
		return false
	}
	from := 0
	if why := w.partial(l); why != "" {
		// the first element is where it starts
		if !strings.Contains(why, "start") || l.startsAt() != 1 {
			return false
		}
		from = 1
	}
	if early, _ := w.leavesEarly(l, nil); early {
		return false
	}
	over := l.Over
	if sl, ok := over.(*ssa.Slice); ok {
		if sl.High != nil {
			return false
		}
		if c, ok := sl.Low.(*ssa.Const); ok {
			from += int(c.Int64())
		}
		over = sl.X
	}
	elem := func(v ssa.Value) bool { return l.Elems[v] }
	dir := 0
	for i, e := range ph.Edges {
		if !body[ph.Block().Preds[i]] {
			// starts with the first
			s := w.plain(e)
			if s != w.plain(over)+"[0]" || from > 1 {
				return false
			}
			continue
		}
		if !w.betterOf(e, ph.Block().Preds[i], ph, ph.Block(), elem, &dir, 0) {
			return false
		}
	}
	return dir != 0
}

// betterOf: the value v that flows out of block pred is the element where the element is better than acc, acc otherwise.
func (w *World) betterOf(v ssa.Value, pred *ssa.BasicBlock, acc ssa.Value, to *ssa.BasicBlock, elem func(ssa.Value) bool, dir *int, d int) bool {
	if c, ok := v.(*ssa.Call); ok && reMatch(`builtin\.(min|max)`, calleeName(c)) && len(c.Call.Args) == 2 {
		a, b := c.Call.Args[0], c.Call.Args[1]
		if a == acc && elem(b) || b == acc && elem(a) {
			*dir = 1
			return true
		}
		return false
	}
	if p, ok := v.(*ssa.Phi); ok && v != acc && d < 4 {
		for i, e := range p.Edges {
			if !w.betterOf(e, p.Block().Preds[i], acc, p.Block(), elem, dir, d+1) {
				return false
			}
		}
		return true
	}
	taken := elem(v)
	if !taken && v != acc {
		return false
	}
	// the comparison that decides
	for b, succ := pred, to; b != nil; {
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			bo, ok := iff.Cond.(*ssa.BinOp)
			if !ok {
				return false
			}
			x, y, op := bo.X, bo.Y, bo.Op
			if elem(y) && x == acc {
				x, y = y, x
				op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}[op]
			}
			if !elem(x) || y != acc {
				return false
			}
			side := b.Succs[0] == succ
			less := 0
			switch op {
			case token.LSS, token.LEQ:
				less = 1
			case token.GTR, token.GEQ:
				less = -1
			default:
				return false
			}
			if side != taken {
				less = -less
			}
			if *dir != 0 && *dir != less {
				return false
			}
			*dir = less
			return true
		}
		if len(b.Preds) != 1 {
			return false
		}
		b, succ = b.Preds[0], b
	}
	return false
}

// translationRules: every alternative is hashed, on a copy.
func (w *World) translationRules(r *Rep, trans, perms, hash *ssa.Function) {
	group := w.helpersBut(trans, fname(perms), fname(hash))
	isHash := func(in ssa.Instruction) bool { return isCall(fname(hash))(in) }
	ls := w.natLoops(group, isHash)
	r.Check("translations/loop", w.Pos(trans.Pos()), len(ls) > 0, ifBad(len(ls) == 0, "no loop hashes the alternatives"))
	P := `getSymmetryPermutations\(Process\)`
	for _, l := range ls {
		w.wholeLoop(r, "translations", l, isHash, nil, nil)
		ok := false
		if iff, is := l.Head.Instrs[len(l.Head.Instrs)-1].(*ssa.If); is {
			for _, rel := range w.rels(iff.Cond, true) {
				s := strings.ReplaceAll(rel.String(), "modelchecker.", "")
				ok = ok || reMatch(`.* < `+P+`#3|range\(`+P+`#3\).*`, s)
			}
			if bo, is := iff.Cond.(*ssa.BinOp); is && !ok {
				ok = w.wholeCount(bo.Y, P+`#3`) || w.wholeCount(bo.X, P+`#3`)
			}
		}
		r.Check("translations/count", w.ipos(firstNonPhi(l.Head)), ok, ifBad(!ok, "the number of alternatives is not the one that the permutations come with"))
		// the index starts at the first alternative
		for _, in := range l.Head.Instrs {
			if ph, is := in.(*ssa.Phi); is && isInt(ph.Type()) {
				for i, e := range ph.Edges {
					if c, is := e.(*ssa.Const); is && !l.Body[l.Head.Preds[i]] {
						ok := c.Int64() <= 0
						r.Check("translations/first", w.ipos(firstNonPhi(l.Head)), ok, ifBad(!ok, "the first alternatives are not hashed"))
					}
				}
			}
		}
		for b := range l.Body {
			for _, in := range b.Instrs {
				c, is := in.(*ssa.Call)
				if !is || !isHash(in) || len(c.Call.Args) != 4 {
					continue
				}
				for i := 0; i < 3; i++ {
					s := w.plain(c.Call.Args[i])
					ok := reMatch(P+`#`+string(rune('0'+i)), s)
					r.Check("translations/argument", w.ipos(in), ok, ifBad(!ok, "the alternative is not computed on the copy and the permutations that belong together: "+s))
				}
				ok := l.isIndex(c.Call.Args[3])
				r.Check("translations/alternative", w.ipos(in), ok, ifBad(!ok, "each round hashes the same alternative: "+w.plain(c.Call.Args[3])))
				// the hash is among the results
				kept := false
				for _, u := range *c.Referrers() {
					switch x := u.(type) {
					case *ssa.Store:
						if ia, is := x.Addr.(*ssa.IndexAddr); is {
							kept = kept || l.isIndex(ia.Index) || w.plain(ia.Index) == "0"
						}
					case *ssa.MapUpdate:
						kept = true
					}
				}
				r.Check("translations/kept", w.ipos(in), kept, ifBad(!kept, "the hash of an alternative is dropped"))
			}
		}
	}
	// the copy
	for i, pat := range []string{`Process\.CloneWithRefs\(Process,nil,0,map\[starlark\.Value\]starlark\.Value\)`, `map\[starlark\.Value\]starlark\.Value`} {
		for _, b := range perms.Blocks {
			rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			good := w.everyValue(retVal(rt, i), func(v ssa.Value) bool {
				if isNilConst(v) {
					return true
				}
				return reMatch(pat, w.plain(v))
			}, 0)
			r.Check("translations/copy", w.ipos(rt), good, ifBad(!good, "the permutations are not applied to a copy of the state: "+w.plain(retVal(rt, i))))
		}
	}
}

// wholeCount: v is a count that renders as pat, or the length of a list made with it.
func (w *World) wholeCount(v ssa.Value, pat string) bool {
	return w.everyValue(v, func(x ssa.Value) bool {
		if reMatch(pat, w.plain(x)) {
			return true
		}
		c, ok := x.(*ssa.Call)
		if !ok || calleeName(c) != "builtin.len" {
			return false
		}
		m, ok := c.Call.Args[0].(*ssa.MakeSlice)
		return ok && w.wholeCount(m.Len, pat)
	}, 0)
}

// permutedRules: the body of the permuting hash.
func (w *World) permutedRules(r *Rep, hash *ssa.Function) {
	fns := w.withHelpers(hash)
	outside := onlyIn(fns)
	isHashCode := isCall("modelchecker.Process.HashCode")
	var refsP, permsP, altP *ssa.Parameter
	for _, p := range hash.Params {
		switch t := p.Type().Underlying().(type) {
		case *types.Map:
			if strings.Contains(t.Key().String(), "SymmetricValue") {
				permsP = p
			} else {
				refsP = p
			}
		case *types.Basic:
			if isInt(p.Type()) {
				altP = p
			}
		}
	}
	if refsP == nil || permsP == nil || altP == nil {
		r.Undecided("permuted/params", w.Pos(hash.Pos()), "the parameters of the permuting hash are not the known ones")
		return
	}
	over := func(p *ssa.Parameter) func(ssa.Value) bool {
		return func(v ssa.Value) bool { return w.render(v) == w.render(p) || v == ssa.Value(p) }
	}
	isSetId := func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && strings.HasSuffix(calleeName(c), ".SetId")
	}
	// a value taken from a table of new ids (while mutating), as opposed to one that was recorded (while restoring)
	var fromTable func(v ssa.Value) bool
	fromTable = func(v ssa.Value) bool {
		if ph, ok := v.(*ssa.Phi); ok {
			for _, e := range ph.Edges {
				if fromTable(e) {
					return true
				}
			}
			return false
		}
		x := peelConv(v)
		if ex, ok := x.(*ssa.Extract); ok {
			x = ex.Tuple
		}
		lk, ok := x.(*ssa.Lookup)
		return ok && reMatch(`map\[(string|int64)\](int64|string|map\[int64\]int64)`, shortType(lk.X.Type()))
	}
	mutates := func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && isSetId(in) && fromTable(c.Common().Args[len(c.Common().Args)-1])
	}
	restores := func(in ssa.Instruction) bool { return isSetId(in) && !mutates(in) }

	// 1. the table of new ids
	put := func(in ssa.Instruction) bool {
		u, ok := in.(*ssa.MapUpdate)
		return ok && shortType(u.Map.Type()) == "map[int64]int64"
	}
	ls := w.loopsIn(fns, over(permsP), put)
	r.Check("permuted/table", w.Pos(hash.Pos()), len(ls) > 0, ifBad(len(ls) == 0, "no loop builds the table of new ids"))
	for _, l := range ls {
		w.wholeLoop(r, "permuted/table", l, put, nil, nil)
		for b := range l.Body {
			for _, in := range b.Instrs {
				if !put(in) {
					continue
				}
				u := in.(*ssa.MapUpdate)
				isElem := func(i int) func(ssa.Value) bool {
					return func(v ssa.Value) bool {
						ex, ok := v.(*ssa.Extract)
						return ok && ex.Index == i && l.Elems[ex]
					}
				}
				key := methodOn(u.Key, "GetId", isElem(1))
				r.Check("permuted/table/old", w.ipos(in), key, ifBad(!key, "the entry is not filed under the id of the value: "+w.plain(u.Key)))
				val := methodOn(u.Value, "GetId", func(v ssa.Value) bool {
					ld, ok := v.(*ssa.UnOp)
					if !ok {
						return false
					}
					ia, ok := ld.X.(*ssa.IndexAddr)
					return ok && isElem(2)(ia.X) && (ia.Index == ssa.Value(altP) || w.render(ia.Index) == w.render(altP))
				})
				r.Check("permuted/table/new", w.ipos(in), val, ifBad(!val, "the new id is not the one of this alternative: "+w.plain(u.Value)))
				pre := false
				for v := range w.slice(u.Map).vals {
					pre = pre || methodOn(v, "GetPrefix", isElem(1))
				}
				r.Check("permuted/table/domain", w.ipos(in), pre, ifBad(!pre, "the entry is not kept per domain: "+w.plain(u.Map)))
			}
		}
	}

	// 2. every symmetric value of the copy gets its new id
	recorded := func(e Edge) bool {
		ex, ok := e.Cond.(*ssa.Extract)
		if !ok || ex.Index != 1 || !e.Taken {
			return false
		}
		lk, ok := ex.Tuple.(*ssa.Lookup)
		return ok && strings.HasPrefix(shortType(lk.X.Type()), "map[*lib.SymmetricValue]")
	}
	svLoops := w.loopsIn(fns, over(refsP), mutates)
	r.Check("permuted/values", w.Pos(hash.Pos()), len(svLoops) > 0, ifBad(len(svLoops) == 0, "no loop gives the symmetric values their new ids"))
	for _, l := range svLoops {
		w.wholeLoop(r, "permuted/values", l, mutates, anyCut(okFalse(`\*lib\.SymmetricValue`, `map\[(string|int64)\].*`), recorded), nil)
	}
	nSet := 0
	for _, f := range fns {
		instrs(f, func(in ssa.Instruction) {
			if !mutates(in) {
				return
			}
			nSet++
			cc := in.(ssa.CallInstruction).Common()
			sv := promoted(cc.Args[0])
			same := func(v ssa.Value) bool { return v == sv || w.render(v) == w.render(sv) }
			var byId, byPrefix bool
			for v := range w.slice(cc.Args[1]).vals {
				if lk, ok := v.(*ssa.Lookup); ok {
					byId = byId || methodOn(lk.Index, "GetId", same)
					byPrefix = byPrefix || methodOn(lk.Index, "GetPrefix", same)
				}
			}
			r.Check("permuted/values/own", w.ipos(in), byId && byPrefix, ifBad(!byId || !byPrefix, "a symmetric value gets an id that is not the one for its domain and id: "+w.plain(cc.Args[1])))
			w.must(r, step{Key: "permuted/values/remembered", Why: "a symmetric value changes without its id being remembered", Fn: f, NoEnter: outside,
				Through: func(x ssa.Instruction) bool {
					return w.remembers(x, func(v ssa.Value) bool { return methodOn(v, "GetId", same) })
				},
				Goal: func(x ssa.Instruction) bool { return x == in }})
		})
	}
	r.Check("permuted/values/set", w.Pos(hash.Pos()), nSet > 0, ifBad(nSet == 0, "no symmetric value is changed"))

	// 3. segments
	segEnd := func(side string) func(ssa.Instruction) bool {
		return func(in ssa.Instruction) bool {
			st, _ := fieldStore(in, "Segment", side)
			return st != nil && fromTable(st.Val)
		}
	}
	restoreSeg := func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		if namedName(deref(st.Addr.Type())) == "Segment" {
			_, local := st.Addr.(*ssa.Alloc)
			return !local
		}
		f1, _ := fieldStore(in, "Segment", "Left")
		return f1 != nil && !fromTable(st.Val)
	}
	for side, flag := range map[string]string{"Left": "IsHead", "Right": "IsTail"} {
		sl := w.loopsIn(fns, over(refsP), segEnd(side))
		r.Check("permuted/segments/"+side, w.Pos(hash.Pos()), len(sl) > 0, ifBad(len(sl) == 0, "the ends of the segments keep their concrete ids"))
		for _, l := range sl {
			w.wholeLoop(r, "permuted/segments/"+side, l, segEnd(side), anyCut(okFalse(`\*lib\.Segment`, `map\[(string|int64)\].*`), w.isTrue(`\.`+flag+`$`)), nil)
		}
		for _, f := range fns {
			instrs(f, func(in ssa.Instruction) {
				if !segEnd(side)(in) {
					return
				}
				st := in.(*ssa.Store)
				base := w.plain(st.Addr.(*ssa.FieldAddr).X)
				ok := false
				for v := range w.slice(st.Val).vals {
					if lk, is := v.(*ssa.Lookup); is {
						ok = ok || w.plain(lk.Index) == base+"."+side
					}
				}
				r.Check("permuted/segments/own", w.ipos(in), ok, ifBad(!ok, "the end of a segment gets the new id of another value: "+w.plain(st.Val)))
			})
		}
	}

	// 4. receivers of pending messages
	isRecv := func(in ssa.Instruction) *ssa.Store { st, _ := fieldStore(in, "ChannelMessage", "receiver"); return st }
	newRecv := func(in ssa.Instruction) bool { st := isRecv(in); return st != nil && fromTable(st.Val) }
	oldRecv := func(in ssa.Instruction) bool { st := isRecv(in); return st != nil && !fromTable(st.Val) }
	ml := w.loopsIn(fns, func(v ssa.Value) bool { return strings.Contains(w.plain(v), "Process.ChannelMessages") }, newRecv)
	r.Check("permuted/receivers", w.Pos(hash.Pos()), len(ml) >= 2, ifBad(len(ml) < 2, "the receivers of pending messages keep their concrete ids"))
	for _, l := range ml {
		w.wholeLoop(r, "permuted/receivers", l, newRecv, okFalse("", `map\[string\]string`), nil)
	}
	putName := func(in ssa.Instruction) bool {
		u, ok := in.(*ssa.MapUpdate)
		return ok && shortType(u.Map.Type()) == "map[string]string"
	}
	nl := w.loopsIn(fns, func(v ssa.Value) bool { _, ok := v.Type().Underlying().(*types.Map); return ok }, putName)
	r.Check("permuted/names", w.Pos(hash.Pos()), len(nl) >= 1, ifBad(len(nl) < 1, "no loop builds the table of new receiver names"))
	for _, l := range nl {
		w.wholeLoop(r, "permuted/names", l, putName, nil, nil)
	}

	// 5. order: change, repair, hash, put back, repair
	isRepair := func(in ssa.Instruction) bool {
		return isCall("go.starlark.net/starlark.Dict.SetKey", "starlark.Dict.SetKey")(in)
	}
	clears := func(in ssa.Instruction) bool {
		return isCall("go.starlark.net/starlark.Dict.Clear", "starlark.Dict.Clear")(in)
	}
	var repairFns = map[*ssa.Function]bool{}
	for _, f := range fns {
		instrs(f, func(in ssa.Instruction) {
			if clears(in) {
				repairFns[f] = true
			}
		})
	}
	rl := w.natLoops(fns, func(in ssa.Instruction) bool { return clears(in) })
	var repairHeads []*LoopInfo
	for _, l := range rl {
		w.wholeLoop(r, "permuted/dicts", l, clears, nil, nil)
		if repairFns[l.Fn] {
			repairHeads = append(repairHeads, l)
		}
	}
	r.Check("permuted/dicts", w.Pos(hash.Pos()), len(repairHeads) > 0, ifBad(len(repairHeads) == 0, "the dictionaries are not rebuilt under the new ids"))
	for f := range repairFns {
		instrs(f, func(in ssa.Instruction) {
			if !clears(in) {
				return
			}
			d := in.(ssa.CallInstruction).Common().Args[0]
			// every entry is put back, and they are read before the dictionary is cleared
			w.must(r, step{Key: "permuted/dicts/read", Why: "a dictionary is cleared before its entries are read", Fn: f, Goal: func(x ssa.Instruction) bool { return x == in },
				Through: func(x ssa.Instruction) bool {
					c, ok := x.(ssa.CallInstruction)
					return ok && reMatch(`.*starlark\.Dict\.Items`, calleeName(c)) && c.Common().Args[0] == d
				}})
		})
		il := w.loopsIn([]*ssa.Function{f}, func(v ssa.Value) bool { return reMatch(`starlark\.Dict\.Items\(.*\)`, w.plain(v)) }, isRepair)
		r.Check("permuted/dicts/entries", w.Pos(f.Pos()), len(il) > 0, ifBad(len(il) == 0, "the entries of a dictionary are not put back"))
		for _, l := range il {
			w.wholeLoop(r, "permuted/dicts/entries", l, isRepair, nil, nil)
		}
	}
	// the dictionaries to rebuild: all of the copy's
	dl := w.loopsIn(fns, over(refsP), func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		return ok && calleeName(c) == "builtin.append" && shortType(c.Type()) == "[]*starlark.Dict" || clears(in)
	})
	r.Check("permuted/dicts/all", w.Pos(hash.Pos()), len(dl) > 0, ifBad(len(dl) == 0, "the dictionaries of the copy are not collected"))
	for _, l := range dl {
		w.wholeLoop(r, "permuted/dicts/all", l, func(in ssa.Instruction) bool {
			c, ok := in.(*ssa.Call)
			return ok && calleeName(c) == "builtin.append" && shortType(c.Type()) == "[]*starlark.Dict" || clears(in)
		}, okFalse(`\*starlark\.Dict`, ""), nil)
	}
	heads := func(has func(ssa.Instruction) bool) func(ssa.Instruction) bool {
		return headOf(outermost(w.natLoops(fns, has)))
	}
	mutHead, resHead := heads(mutates), heads(restores)
	repHead := headOf(repairHeads)
	sorts := func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && reMatch(`sort\.(Slice|SliceStable|Sort|Stable)|slices\.Sort(Stable)?Func`, calleeName(c)) && strings.Contains(w.plain(callArgs(c)[0]), "Process.Roles")
	}
	before := func(key, why string, first, then func(ssa.Instruction) bool) {
		w.must(r, step{Key: "permuted/order/" + key, Why: why, Fn: hash, Through: first, Goal: then, NoEnter: outside})
	}
	before("values-hash", "the copy is hashed before its symmetric values are permuted", mutHead, isHashCode)
	before("segments-hash", "the copy is hashed before its segments are permuted", heads(segEnd("Left")), isHashCode)
	before("receivers-hash", "the copy is hashed before the receivers of its messages are permuted", headOf(outermost(ml)), isHashCode)
	before("table-values", "the symmetric values are permuted before the table of new ids is there", headOf(ls), mutHead)
	before("values-dicts", "the dictionaries are rebuilt before their keys have changed", mutHead, repHead)
	before("dicts-hash", "the copy is hashed while its dictionaries are filed under the old ids", repHead, isHashCode)
	before("roles-hash", "the roles of the copy are hashed in the order of the original", sorts, isHashCode)
	before("values-roles", "the roles are sorted before their ids have changed", mutHead, sorts)
	for _, f := range []string{"Process.CachedHashCode", "Heap.CachedHashCode"} {
		t, fl := f[:strings.Index(f, ".")], f[strings.Index(f, ".")+1:]
		before("cache/"+f, "a hash remembered for another permutation is used", func(in ssa.Instruction) bool {
			st, _ := fieldStore(in, t, fl)
			return st != nil && w.plain(st.Val) == `""`
		}, isHashCode)
	}
	var hc ssa.Instruction
	for _, b := range hash.Blocks {
		for _, in := range b.Instrs {
			if isHashCode(in) {
				hc = in
			}
		}
	}
	if hc == nil {
		r.Undecided("permuted/order", w.Pos(hash.Pos()), "the call that hashes the copy was not found")
		return
	}
	after := func(key, why string, through, goal func(ssa.Instruction) bool) {
		w.must(r, step{Key: "permuted/restore/" + key, Why: why, Fn: hash, After: hc, Through: through, Goal: goal, NoEnter: outside})
	}
	after("values", "the ids of the symmetric values are not put back", resHead, retOf(hash))
	after("receivers", "the receivers of the messages are not put back", heads(oldRecv), retOf(hash))
	after("segments", "the segments are not put back", heads(restoreSeg), retOf(hash))
	after("dicts", "the dictionaries are not rebuilt under the original ids", repHead, retOf(hash))
	after("values-dicts", "the dictionaries are rebuilt before the ids are put back", resHead, repHead)
	for k, m := range map[string]func(ssa.Instruction) bool{"values": restores, "receivers": oldRecv, "segments": restoreSeg} {
		for _, l := range w.natLoops(fns, m) {
			w.wholeLoop(r, "permuted/restore/"+k, l, m, nil, nil)
			// what is put back is what was there
			for b := range l.Body {
				for _, in := range b.Instrs {
					if !m(in) {
						continue
					}
					var v ssa.Value
					switch x := in.(type) {
					case ssa.CallInstruction:
						v = x.Common().Args[len(x.Common().Args)-1]
					case *ssa.Store:
						v = x.Val
					}
					ok := w.dependsOn(v, l.Elems)
					r.Check("permuted/restore/"+k+"/same", w.ipos(in), ok, ifBad(!ok, "what is put back is not what was remembered: "+w.plain(v)))
				}
			}
		}
	}
	// roles are sorted by name and id
	for _, f := range fns {
		instrs(f, func(in ssa.Instruction) {
			if !sorts(in) {
				return
			}
			c := in.(ssa.CallInstruction)
			for _, g := range w.funcValues(callArgs(c)[1], 0) {
				var byName, byRef bool
				instrs(g, func(x ssa.Instruction) {
					if v, ok := x.(ssa.Value); ok {
						byName = byName || reMatch(`.*\.Name`, w.plain(v))
						byRef = byRef || reMatch(`.*\.(Ref|GetRef\(.*\))|lib\.Role\.GetRef\(.*\)`, w.plain(v))
					}
				})
				r.Check("permuted/roles/order", w.ipos(in), byName && byRef, ifBad(!byName || !byRef, "the order of the roles does not follow from their names and ids"))
			}
		})
	}
	for _, b := range hash.Blocks {
		if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			ok := w.valIs(`Process\.HashCode\(Process\)`)(retVal(rt, 0))
			r.Check("permuted/result", w.ipos(rt), ok, ifBad(!ok, "the result is not the hash of the permuted copy: "+w.plain(retVal(rt, 0))))
		}
	}
}

// remembers: the instruction stores a value accepted by old in a table or list.
func (w *World) remembers(in ssa.Instruction, old func(ssa.Value) bool) bool {
	var v ssa.Value
	switch x := in.(type) {
	case *ssa.MapUpdate:
		v = x.Value
	case *ssa.Store:
		v = x.Val
	default:
		return false
	}
	if old(v) {
		return true
	}
	for y := range w.slice(v).vals {
		if old(y) {
			return true
		}
	}
	return false
}

// outermost: the loops that are not inside another one of the list.
func outermost(ls []*LoopInfo) []*LoopInfo {
	var out []*LoopInfo
	for _, l := range ls {
		in := false
		for _, o := range ls {
			in = in || o != l && o.Fn == l.Fn && o.Body[l.Head]
		}
		if !in {
			out = append(out, l)
		}
	}
	return out
}

// collectRules: the used values: every symmetric value of the copy, by domain.
func (w *World) collectRules(r *Rep, used, clone *ssa.Function) {
	n := 0
	for _, top := range []*ssa.Function{clone, used} {
		drop := []string{"modelchecker.Process.CloneWithRefs", "modelchecker.Heap.GetSymmetryDefs"}
		if top != clone {
			drop = append(drop, fname(clone))
		}
		for _, f := range w.helpersBut(top, drop...) {
			for _, l := range w.loopsOf(f) {
				if l.Over == nil || !w.symmetricContent(l.Over.Type(), 0) {
					continue
				}
				th := func(in ssa.Instruction) bool {
					if st, ok := in.(*ssa.Store); ok {
						if _, local := st.Addr.(*ssa.IndexAddr); !local {
							return false
						}
					}
					return w.contributes(in, l.Elems) && !debugUse(in)
				}
				has := false
				for b := range l.Body {
					for _, in := range b.Instrs {
						has = has || th(in)
					}
				}
				if !has {
					continue
				}
				n++
				w.wholeLoop(r, "collect", l, th, anyCut(okFalse(`\*lib\.SymmetricValue|\*lib\.SymmetryDomain`, `map\[string\].*`),
					w.isEmpty(`.*`), w.cutRel(`added|map\[string\]bool`, "==", "^true$"), w.isFalse(`\.Materialize$`), w.cutRel(`Len\(.*\)$`, "==", "^0$"), w.cutRel(`\.Kind$`, "!=", `.*`)), nil)
			}
		}
	}
	r.Check("collect", w.Pos(clone.Pos()), n >= 4, ifBad(n < 4, "the loops that collect the used values were not found"))
}

// debugUse: a contribution to a count or a set of strings only (kept for printing).
func debugUse(in ssa.Instruction) bool {
	u, ok := in.(*ssa.MapUpdate)
	if !ok {
		return false
	}
	s := shortType(u.Map.Type())
	return s == "map[string]bool" || s == "map[string]int"
}

func (w *World) symmetricContent(t types.Type, d int) bool {
	if d > 4 {
		return false
	}
	switch x := deref(t).Underlying().(type) {
	case *types.Map:
		return w.symmetricContent(x.Elem(), d+1) || w.symmetricContent(x.Key(), d+1)
	case *types.Slice:
		return w.symmetricContent(x.Elem(), d+1) || types.Identical(x.Elem(), types.Typ[types.Int64])
	case *types.Interface:
		return namedName(t) == "Value"
	}
	if st, ok := deref(t).Underlying().(*types.Struct); ok && d > 0 && namedName(t) != "SymmetricValue" { // a composite key
		for i := 0; i < st.NumFields(); i++ {
			if types.Identical(st.Field(i).Type(), types.Typ[types.Int64]) {
				return true
			}
		}
	}
	return namedName(t) == "SymmetricValue" || namedName(t) == "SymmetricValues"
}

// kindMappingRules: each domain is permuted by its kind, and all combinations are formed.
func (w *World) kindMappingRules(r *Rep, perms *ssa.Function) {
	fns := w.helpersBut(perms, "modelchecker.Process.getUsedSymmetricValuesFromClone")
	isStatic := func(t types.Type) bool {
		sl, ok := t.Underlying().(*types.Slice)
		return ok && namedName(sl.Elem()) == "staticMapping"
	}
	isGroups := func(t types.Type) bool { return shortType(t) == "[][]*lib.SymmetricValue" }
	app := func(is func(types.Type) bool) func(ssa.Instruction) bool {
		return func(in ssa.Instruction) bool {
			c, ok := in.(*ssa.Call)
			return ok && calleeName(c) == "builtin.append" && is(c.Type())
		}
	}
	static, groups := app(isStatic), app(isGroups)
	ls := w.loopsIn(fns, func(v ssa.Value) bool {
		return reMatch(`Process\.getUsedSymmetricValuesFromClone\(Process\)#2`, w.plain(v))
	}, anyOf(static, groups))
	r.Check("candidates/groups", w.Pos(perms.Pos()), len(ls) > 0, ifBad(len(ls) == 0, "the loop over the groups of used values was not found"))
	kindRe := `GetKind\(.*\)$|\.Kind$`
	kindOf := func(k string, is bool) func(Edge) bool {
		op := "=="
		if !is {
			op = "!="
		}
		return w.cutRel(kindRe, op, `^"`+k+`"$`)
	}
	kinds := []string{"ordinal", "interval", "rotational"}
	none := w.isEmpty(`.*`)
	for _, l := range ls {
		w.wholeLoop(r, "candidates/groups", l, anyOf(static, groups), none, nil)
		for _, k := range kinds {
			cuts := []func(Edge) bool{none, kindOf(k, false)}
			for _, o := range kinds {
				if o != k {
					cuts = append(cuts, kindOf(o, true))
				}
			}
			bad, tr := w.iterationSkips(l, static, anyCut(cuts...))
			r.Check("candidates/kind/"+k, w.ipos(firstNonPhi(l.Head)), !bad, ifBad(bad, "values of this kind get no mapping of their own: "+strings.Join(tr, " → ")))
			bad, _ = w.reachableIn(l, groups, anyCut(cuts...))
			r.Check("candidates/kind/"+k+"/only", w.ipos(firstNonPhi(l.Head)), !bad, ifBad(bad, "values of this kind are permuted arbitrarily, which does not keep their order or distance"))
			w.mappingIds(r, l, k, anyCut(cuts...))
			// alternatives that tie are kept
			isExtra := app(func(t types.Type) bool {
				sl, ok := t.Underlying().(*types.Slice)
				return ok && isStatic(sl.Elem())
			})
			noDomain := w.cutRel(`SymmetryDomain\[.*\]$`, "==", "^nil$")
			refl, mat := w.isFalse(`\.Reflection$`), w.isTrue(`\.Materialize$`)
			one := anyCut(w.cutRel(`^len\(lib\.GetCanonicalRotations`, "<=", "^1$"), w.cutRel(`^len\(lib\.GetCanonicalRotations`, "==", "^1$"), w.cutRel(`^len\(lib\.GetCanonicalRotations`, "<", "^2$"))
			cases := map[string]func(Edge) bool{"mirrored": anyCut(refl, mat, noDomain, w.isFalse(`ReflectionCandidates\(.*\)#2$`), w.cutRel(`ReflectionCandidates\(.*\)#[01]$`, "==", "^nil$"), one)}
			if k == "rotational" {
				cases["turned"] = anyCut(w.isTrue(`\.Reflection$`), one)
			} else {
				cases["all"] = anyCut(refl, w.isFalse(`\.Materialize$`), noDomain)
			}
			for n, assume := range cases {
				bad, tr := w.iterationSkips(l, isExtra, anyCut(append([]func(Edge) bool{assume}, cuts...)...))
				r.Check("candidates/kind/"+k+"/"+n, w.ipos(firstNonPhi(l.Head)), !bad, ifBad(bad, "an alternative that ties is not tried: "+strings.Join(tr, " → ")))
			}
		}
		var cuts []func(Edge) bool
		for _, o := range kinds {
			cuts = append(cuts, kindOf(o, true))
		}
		cuts = append(cuts, none)
		// nominal: both the values and what they become
		bad, tr := w.iterationSkips(l, groups, anyCut(cuts...))
		r.Check("candidates/kind/nominal", w.ipos(firstNonPhi(l.Head)), !bad, ifBad(bad, "nominal values are not permuted: "+strings.Join(tr, " → ")))
		bad, _ = w.reachableIn(l, static, anyCut(cuts...))
		r.Check("candidates/kind/nominal/only", w.ipos(firstNonPhi(l.Head)), !bad, ifBad(bad, "nominal values get a fixed mapping"))
	}
	// the permutations that are combined
	n := 0
	for _, f := range fns {
		instrs(f, func(in ssa.Instruction) {
			if c, ok := in.(*ssa.Call); ok && strings.HasPrefix(calleeName(c), "lib.GenerateAllPermutations") {
				n++
			}
		})
	}
	r.Check("candidates/all", w.Pos(perms.Pos()), n > 0, ifBad(n == 0, "not all permutations are generated"))
	// assembling: every permutation with every fixed mapping, in every combination
	put := func(in ssa.Instruction) bool {
		u, ok := in.(*ssa.MapUpdate)
		return ok && shortType(u.Map.Type()) == "map[*lib.SymmetricValue][]*lib.SymmetricValue"
	}
	al := w.natLoops(fns, put)
	r.Check("candidates/assembled", w.Pos(perms.Pos()), len(al) > 0, ifBad(len(al) == 0, "the alternatives are not assembled"))
	isLen := func(e Edge) bool {
		// index guards against the length of another list
		for _, rel := range w.rels(e.Cond, e.Taken) {
			if reMatch(`>=`, rel.Op) && strings.HasPrefix(rel.R, "len(") || reMatch(`<=`, rel.Op) && strings.HasPrefix(rel.L, "len(") {
				return true
			}
		}
		return false
	}
	extras := func(e Edge) bool {
		ex, ok := e.Cond.(*ssa.Extract)
		if !ok || ex.Index != 1 || !e.Taken {
			return false
		}
		lk, ok := ex.Tuple.(*ssa.Lookup)
		return ok && shortType(lk.X.Type()) == "map[int]int"
	}
	for _, l := range al {
		innermost := true
		for _, o := range al {
			innermost = innermost && (o == l || o.Fn != l.Fn || !l.Body[o.Head])
		}
		pos := w.ipos(firstNonPhi(l.Head))
		p := w.partial(l)
		r.Check("candidates/assembled/whole", pos, p == "", p)
		bad, tr := w.leavesEarly(l, nil)
		r.Check("candidates/assembled/all", pos, !bad, ifBad(bad, "the loop is left early: "+strings.Join(tr, " → ")))
		if innermost {
			bad, tr = w.iterationSkips(l, put, anyCut(isLen))
			r.Check("candidates/assembled/each", pos, !bad, ifBad(bad, "a value is left without an alternative: "+strings.Join(tr, " → ")))
			continue
		}
		for _, o := range al {
			if o == l || o.Fn != l.Fn || !l.Body[o.Head] {
				continue
			}
			direct := true
			for _, m := range al {
				direct = direct && (m == l || m == o || m.Fn != l.Fn || !l.Body[m.Head] || !m.Body[o.Head])
			}
			if !direct {
				continue
			}
			bad, tr = w.iterationSkips(l, headOf([]*LoopInfo{o}), anyCut(extras, w.cutRel(`^len\(`, "!=", "^0$"), w.cutRel(`^len\(`, ">", "^0$")))
			r.Check("candidates/assembled/each", pos, !bad, ifBad(bad, "a mapping is left out of an alternative: "+strings.Join(tr, " → ")))
		}
	}
	// the number of alternatives
	for _, b := range perms.Blocks {
		rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(rt.Results) != 4 {
			continue
		}
		for _, leaf := range w.joined(retVal(rt, 3), 0) {
			s := w.slice(leaf)
			var prod, sum bool
			for v := range s.vals {
				ph, ok := v.(*ssa.Phi)
				if !ok || !isInt(ph.Type()) {
					continue
				}
				for _, e := range ph.Edges {
					bo, ok := e.(*ssa.BinOp)
					if !ok || bo.X != v && bo.Y != v {
						continue
					}
					_, cst := bo.Y.(*ssa.Const)
					prod = prod || bo.Op == token.MUL
					sum = sum || bo.Op != token.MUL && !cst
				}
			}
			ok := prod && !sum
			r.Check("candidates/count", w.ipos(rt), ok, ifBad(!ok, "the number of alternatives is not the product of the numbers of permutations and ties: "+w.plain(leaf)))
		}
	}
}

// joined: the values that may flow here over branches that join (the values of loops are kept), except where a count is 0 or 1.
func (w *World) joined(v ssa.Value, d int) []ssa.Value {
	ph, ok := v.(*ssa.Phi)
	if !ok || naturalLoop(ph.Block()) != nil || d > 4 {
		return []ssa.Value{v}
	}
	few := anyCut(w.cutRel(`.*`, "==", "^0$"), w.cutRel(`.*`, "<=", "^1$"), w.cutRel(`.*`, "==", "^1$"))
	var out []ssa.Value
	for i, e := range ph.Edges {
		guarded := false
		for b, to := ph.Block().Preds[i], ph.Block(); b != nil && !guarded; {
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && b.Succs[0] != b.Succs[1] {
				guarded = few(Edge{If: iff, Cond: iff.Cond, Taken: b.Succs[0] == to})
			}
			if len(b.Preds) != 1 {
				break
			}
			b, to = b.Preds[0], b
		}
		if !guarded {
			out = append(out, w.joined(e, d+1)...)
		}
	}
	return out
}

// reachableIn: can the instruction be executed in an iteration of the loop?
func (w *World) reachableIn(l *LoopInfo, m func(ssa.Instruction) bool, cut func(Edge) bool) (bool, []string) {
	q := &Q{W: w, Cut: cut, NoEnter: func(f *ssa.Function) bool { return f == l.Fn || w.opaque(f, m) },
		Through: func(in ssa.Instruction) bool { return in == firstNonPhi(l.Head) },
		Goal:    func(in ssa.Instruction) bool { return m(in) }}
	return q.from(l.Fn, point{l.entry(), 0, l.Head})
}

// mappingIds: where distances matter, the new ids are computed from the old ones.
func (w *World) mappingIds(r *Rep, l *LoopInfo, kind string, cut func(Edge) bool) {
	if kind == "ordinal" {
		return
	}
	n := 0
	for _, f := range w.withHelpers(l.Fn) {
		instrs(f, func(in ssa.Instruction) {
			st, _ := fieldStore(in, "staticMapping", "canonical")
			if st == nil || f == l.Fn && !l.Body[in.Block()] {
				return
			}
			hit, _ := w.reachableIn(l, func(x ssa.Instruction) bool { return x == in }, cut)
			if !hit {
				return
			}
			n++
			for _, e := range w.elementsOf(st.Val) {
				c, ok := e.(*ssa.Call)
				if !ok {
					continue
				}
				s := w.slice(c.Call.Args[1])
				ok = s.hasCall(`lib\.(Model|Symmetric)Value\.GetId`)
				ok = ok && w.affineId(c.Call.Args[1], c.Block())
				if !ok { // candidates computed from the ids in lib
					ok = w.candidateOf(c.Call.Args[1], `lib\.Get.*Candidates`)
				}
				r.Check("candidates/kind/"+kind+"/from-id", w.ipos(c), ok, ifBad(!ok, "the new id does not follow from the old one, so distances are lost: "+w.plain(c.Call.Args[1])))
				if kind == "rotational" {
					shift := s.hasCall(`lib\.GetCanonicalRotations(WithReflection)?`)
					r.Check("candidates/kind/"+kind+"/shift", w.ipos(c), shift, ifBad(!shift, "the values are not turned by a canonical rotation: "+w.plain(c.Call.Args[1])))
				}
			}
		})
	}
	r.Check("candidates/kind/"+kind+"/mappings", w.ipos(firstNonPhi(l.Head)), n > 0, ifBad(n == 0, "no mapping for values of this kind"))
}

// affineId: a new id that keeps distances: the old one moved or mirrored.
func (w *World) affineId(v ssa.Value, at *ssa.BasicBlock) bool {
	ok, has := w.affine(v, func(x ssa.Value) bool {
		c, is := x.(*ssa.Call)
		if !is || !reMatch(`lib\.(Model|Symmetric)Value\.GetId`, calleeName(c)) {
			return false
		}
		// of an element, not of a fixed one
		return !reMatch(`.*\[[0-9]+\](\.ModelValue)?`, w.plain(c.Call.Args[0]))
	}, func(x ssa.Value) bool { return naturalLoop(x.(*ssa.Phi).Block())[at] }, 0)
	return ok && has
}

// candidateOf: v is an element of the result of the call.
func (w *World) candidateOf(v ssa.Value, call string) bool {
	ld, ok := peelConv(v).(*ssa.UnOp)
	if !ok {
		return false
	}
	ia, ok := ld.X.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	return w.everyValue(ia.X, func(x ssa.Value) bool {
		ex, ok := x.(*ssa.Extract)
		if !ok {
			return false
		}
		c, ok := ex.Tuple.(*ssa.Call)
		return ok && reMatch(call, calleeName(c))
	}, 0)
}

// affine: v is the id of one element plus or minus values that do not depend on the element (modulo a limit).
func (w *World) affine(v ssa.Value, isVar func(ssa.Value) bool, isIdx func(ssa.Value) bool, d int) (ok, has bool) {
	v = peelConv(w.bound.of(peelConv(v)))
	if isVar(v) {
		return true, true
	}
	if d > 12 {
		return false, false
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		ok1, h1 := w.affine(x.X, isVar, isIdx, d+1)
		ok2, h2 := w.affine(x.Y, isVar, isIdx, d+1)
		if !ok1 || !ok2 {
			return false, h1 || h2
		}
		switch x.Op {
		case token.ADD, token.SUB:
			return !(h1 && h2), h1 || h2
		case token.REM:
			return !h2, h1
		}
		return !h1 && !h2, h1 || h2
	case *ssa.UnOp:
		if x.Op == token.SUB {
			return w.affine(x.X, isVar, isIdx, d+1)
		}
	case *ssa.Phi:
		if naturalLoop(x.Block()) != nil {
			return !isIdx(x), false
		}
		all, one := true, false
		for i, e := range x.Edges {
			o, h := w.affine(e, isVar, isIdx, d+1)
			if i == 0 {
				one = h
			}
			all = all && o && h == one
		}
		return all, one
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && w.owns(f) && len(f.Blocks) > 0 && f.Pkg != nil && len(w.loopsOf(f)) == 0 {
			all, one, n := true, false, 0
			w.with(bindCall(x, f, nil), func() {
				instrs(f, func(in ssa.Instruction) {
					if rt, is := in.(*ssa.Return); is && len(rt.Results) > 0 {
						o, h := w.affine(retVal(rt, 0), isVar, isIdx, d+1)
						if n++; n == 1 {
							one = h
						}
						all = all && o && h == one
					}
				})
			})
			return all && n > 0, one
		}
		// an invariant when none of its arguments varies
		for _, a := range x.Call.Args {
			_, h := w.affine(a, isVar, isIdx, d+1)
			if h {
				return false, true
			}
		}
	}
	// something else: it must not be made from the element
	var made func(y ssa.Value, d int) bool
	made = func(y ssa.Value, d int) bool {
		if y == nil || d > 12 {
			return false
		}
		if isVar(y) {
			return true
		}
		in, ok := y.(ssa.Instruction)
		if !ok {
			return false
		}
		switch y.(type) {
		case *ssa.Phi, *ssa.Alloc:
			return false
		}
		for _, o := range in.Operands(nil) {
			if o != nil && *o != nil && made(*o, d+1) {
				return true
			}
		}
		return false
	}
	if made(v, 0) {
		return false, true
	}
	return true, false
}

// elementsOf: what is stored in the elements of a slice made here.
func (w *World) elementsOf(v ssa.Value) []ssa.Value {
	var out []ssa.Value
	for _, x := range phiLeaves(v) {
		if sl, ok := x.(*ssa.Slice); ok {
			x = sl.X
		}
		if c, ok := x.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil && w.owns(f) {
				for _, b := range f.Blocks {
					if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						out = append(out, w.elementsOf(retVal(rt, 0))...)
					}
				}
			}
			continue
		}
		if x.Referrers() == nil {
			continue
		}
		for _, u := range *x.Referrers() {
			if ia, ok := u.(*ssa.IndexAddr); ok {
				for _, s := range *ia.Referrers() {
					if st, ok := s.(*ssa.Store); ok && st.Addr == ia {
						out = append(out, st.Val)
					}
				}
			}
		}
	}
	return out
}

// permutationRules: lib.GenerateAllPermutations gives every permutation of every group in every combination.
func (w *World) permutationRules(r *Rep) {
	var permute, combine *ssa.Function
	for _, f := range w.Funcs {
		n := fname(f)
		if i := strings.Index(n, "["); i > 0 {
			n = n[:i]
		}
		if len(f.Blocks) == 0 || f.Origin() != nil && f.Origin() != f {
			continue
		}
		switch n {
		case "lib.permute":
			permute = f
		case "lib.combinePermutations":
			combine = f
		}
	}
	if permute == nil || combine == nil {
		r.Undecided("permutations", "-", "the generator of permutations was not found")
		return
	}
	// permute: swap, recurse, swap back, for each position
	self := w.selfCallGeneric(permute)
	ls := w.natLoops([]*ssa.Function{permute}, self)
	r.Check("permutations/loop", w.Pos(permute.Pos()), len(ls) > 0, ifBad(len(ls) == 0, "no loop tries the elements for a position"))
	for _, l := range ls {
		w.wholeLoop(r, "permutations", l, self, nil, nil)
		iff, ok := l.Head.Instrs[len(l.Head.Instrs)-1].(*ssa.If)
		good := false
		if ok {
			for _, rel := range w.rels(iff.Cond, true) {
				good = good || reMatch(`<=`, rel.Op) || strings.Contains(rel.String(), "len(") && rel.Op == "<" || reMatch(`.*\+ 1.*`, rel.R) && rel.Op == "<"
			}
		}
		r.Check("permutations/last", w.ipos(firstNonPhi(l.Head)), good, ifBad(!good, "the last element is not tried"))
		for _, in := range l.Head.Instrs {
			if ph, is := in.(*ssa.Phi); is && isInt(ph.Type()) {
				for i, e := range ph.Edges {
					if !l.Body[l.Head.Preds[i]] {
						_, par := e.(*ssa.Parameter)
						r.Check("permutations/first", w.ipos(firstNonPhi(l.Head)), par, ifBad(!par, "the element that is already in place is not tried: "+w.plain(e)))
					}
				}
			}
		}
		// each recursive call has a swap before and one after
		stores := func(in ssa.Instruction) bool {
			st, ok := in.(*ssa.Store)
			if !ok {
				return false
			}
			_, el := st.Addr.(*ssa.IndexAddr)
			return el
		}
		for b := range l.Body {
			for _, in := range b.Instrs {
				if !self(in) {
					continue
				}
				q := &Q{W: w, Through: stores, Goal: func(x ssa.Instruction) bool { return x == in }, NoEnter: func(*ssa.Function) bool { return true }}
				bad, _ := q.from(permute, point{l.entry(), 0, l.Head})
				r.Check("permutations/swap", w.ipos(in), !bad, ifBad(bad, "the element is not brought to the position before the rest is permuted"))
				q = &Q{W: w, Through: stores, Goal: func(x ssa.Instruction) bool { return x == firstNonPhi(l.Head) }, NoEnter: func(*ssa.Function) bool { return true }}
				bad, _ = q.After(in)
				r.Check("permutations/back", w.ipos(in), !bad, ifBad(bad, "the list is not put back before the next element is tried"))
				n := 0
				for b2 := range l.Body {
					for _, x := range b2.Instrs {
						if stores(x) {
							n++
						}
					}
				}
				r.Check("permutations/exchange", w.ipos(in), n >= 4, ifBad(n < 4, "elements are overwritten, not exchanged"))
				// the rest begins one further
				c := in.(ssa.CallInstruction).Common()
				next := false
				for _, a := range c.Args {
					if bo, ok := a.(*ssa.BinOp); ok && bo.Op == token.ADD {
						_, par := bo.X.(*ssa.Parameter)
						next = next || par && w.plain(bo.Y) == "1"
					}
				}
				r.Check("permutations/rest", w.ipos(in), next, ifBad(!next, "the rest that is permuted does not begin behind the position"))
			}
		}
	}
	w.keptAsCopy(r, "permutations/kept", permute)
	// combine
	self = w.selfCallGeneric(combine)
	ls = w.natLoops([]*ssa.Function{combine}, self)
	r.Check("combinations/loop", w.Pos(combine.Pos()), len(ls) > 0, ifBad(len(ls) == 0, "no loop combines the permutations"))
	for _, l := range ls {
		w.wholeLoop(r, "combinations", l, self, nil, nil)
	}
	w.keptAsCopy(r, "combinations/kept", combine)
	// all groups take part, each with all its elements
	for _, f := range w.Funcs {
		if len(f.Blocks) == 0 || f.Origin() != nil && f.Origin() != f {
			continue
		}
		if fname(f) == "lib.GenerateAllPermutations" {
			app := func(in ssa.Instruction) bool {
				c, ok := in.(*ssa.Call)
				return ok && calleeName(c) == "builtin.append"
			}
			ls := w.loopsIn([]*ssa.Function{f}, func(v ssa.Value) bool { _, ok := v.(*ssa.Parameter); return ok }, app)
			r.Check("combinations/groups", w.Pos(f.Pos()), len(ls) > 0, ifBad(len(ls) == 0, "no loop permutes the groups"))
			for _, l := range ls {
				w.wholeLoop(r, "combinations/groups", l, app, nil, nil)
			}
		}
		if f == permute || f == combine {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			g := c.Common().StaticCallee()
			switch g = originOf(g); g {
			case permute:
				var from, to bool
				for _, a := range c.Common().Args {
					from = from || w.plain(a) == "0"
					to = to || reMatch(`\(?len\(.*\) (- 1|\+ -1)\)?`, w.plain(a))
				}
				r.Check("permutations/range", w.ipos(in), from && to, ifBad(!from || !to, "not all the elements are permuted"))
			case combine:
				from := false
				for _, a := range c.Common().Args {
					from = from || w.plain(a) == "0"
				}
				r.Check("combinations/range", w.ipos(in), from, ifBad(!from, "the combination does not begin with the first group"))
			}
		})
	}
}

func originOf(f *ssa.Function) *ssa.Function {
	if f != nil && f.Origin() != nil {
		return f.Origin()
	}
	return f
}

func (w *World) selfCallGeneric(fn *ssa.Function) func(ssa.Instruction) bool {
	return func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		f := c.Common().StaticCallee()
		return f != nil && (f == fn || f.Origin() != nil && (f.Origin() == fn || f.Origin() == fn.Origin()))
	}
}

// keptAsCopy: what is added to the results is a copy of the list that the search goes on changing.
func (w *World) keptAsCopy(r *Rep, key string, f *ssa.Function) {
	n := 0
	instrs(f, func(in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		if _, ok := st.Addr.(*ssa.Parameter); !ok {
			return
		}
		c, ok := st.Val.(*ssa.Call)
		if !ok || calleeName(c) != "builtin.append" {
			return
		}
		n++
		for _, e := range appendedElems(c) {
			ok := w.everyValue(e, func(v ssa.Value) bool {
				switch x := v.(type) {
				case *ssa.MakeSlice, *ssa.Alloc:
					return true
				case *ssa.Slice:
					_, ok := x.X.(*ssa.Alloc)
					return ok
				case *ssa.Call:
					return reMatch(`slices\.Clone|builtin\.append`, calleeName(x))
				}
				return false
			}, 0)
			r.Check(key+"/copy", w.ipos(in), ok, ifBad(!ok, "a list that changes later is kept as a result: "+w.plain(e)))
		}
	})
	r.Check(key, w.Pos(f.Pos()), n > 0, ifBad(n == 0, "no result is kept"))
}

// rotationRules: the canonical rotations and reflections.
func (w *World) rotationRules(r *Rep) {
	rot := w.Func("lib.GetCanonicalRotations")
	refl := w.Func("lib.GetCanonicalRotationsWithReflection")
	ord := w.Func("lib.GetOrdinalReflectionCandidates")
	ivl := w.Func("lib.GetIntervalReflectionCandidates")
	if rot == nil || refl == nil || ord == nil || ivl == nil {
		r.Undecided("rotations", "-", "the functions that choose rotations and reflections were not found")
		return
	}
	cmp := isCall("lib.sliceCompare", "slices.Compare")
	cmpRe := `lib\.sliceCompare\(|slices\.Compare(\[.*?\])?\(|cmp`
	app := func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		return ok && calleeName(c) == "builtin.append"
	}
	// every used value is tried as the pivot
	pl := w.loopsIn(w.withHelpers(rot), func(v ssa.Value) bool { _, ok := v.(*ssa.Parameter); return ok }, cmp)
	r.Check("rotations/pivots", w.Pos(rot.Pos()), len(pl) > 0, ifBad(len(pl) == 0, "the rotations are not compared"))
	for _, l := range pl {
		w.wholeLoop(r, "rotations/pivots", l, cmp, w.cutRel(`.*`, "==", "^nil$"), nil)
		// ties are kept
		tie := func(e Edge) bool {
			return w.cutRel(cmpRe, "<", "^0$")(e) || w.cutRel(cmpRe, ">", "^0$")(e) || w.cutRel(cmpRe, "!=", "^0$")(e)
		}
		bad, tr := w.iterationSkips(l, app, anyCut(tie, w.cutRel(`.*`, "==", "^nil$"), w.isEmpty(`.*`)))
		r.Check("rotations/ties", w.ipos(firstNonPhi(l.Head)), !bad, ifBad(bad, "a rotation that ties with the best is dropped: "+strings.Join(tr, " → ")))
		// the better one replaces, the worse one does not
		bad, _ = w.reachableIn(l, app, anyCut(w.cutRel(cmpRe, "<", "^0$"), w.cutRel(cmpRe, "==", "^0$"), w.cutRel(`.*`, "==", "^nil$"), w.isEmpty(`.*`)))
		r.Check("rotations/worse", w.ipos(firstNonPhi(l.Head)), !bad, ifBad(bad, "a rotation that is worse than the best is kept"))
	}
	// reflection: both directions are computed; the tie returns both
	n := len(calls(refl, "lib.GetCanonicalRotations"))
	r.Check("rotations/reflected", w.Pos(refl.Pos()), n >= 2, ifBad(n < 2, "the reflected rotations are not tried"))
	for _, cs := range calls(refl, "lib.GetCanonicalRotations") {
		c, ok := cs.(*ssa.Call)
		if !ok {
			continue
		}
		_, forward := c.Call.Args[0].(*ssa.Parameter)
		key, other, flag := "reverse", -1, true
		if forward {
			key, other, flag = "forward", 1, false
		}
		all := c.Call.Args[1] == ssa.Value(refl.Params[1])
		r.Check("rotations/reflected/limit", w.ipos(c), all, ifBad(!all, "the rotations are computed for another limit: "+w.plain(c.Call.Args[1])))
		// the shifts become candidates in a loop, or in a helper
		isOver := func(v ssa.Value) bool { return v == ssa.Value(c) }
		rl := w.loopsIn([]*ssa.Function{refl}, isOver, func(in ssa.Instruction) bool {
			s, _ := fieldStore(in, "RotationCandidate", "Shift")
			return s != nil || app(in)
		})
		made := func(in ssa.Instruction) bool {
			x, ok := in.(*ssa.Call)
			return ok && x != c && x.Call.StaticCallee() != nil && w.owns(x.Call.StaticCallee()) && namedName(sliceElem(x.Type())) == "RotationCandidate" && len(x.Call.Args) > 0 && hasArg(x, isOver)
		}
		w.must(r, step{Key: "rotations/reflected/" + key, Why: "the candidates of one direction are left out although the other is not better", Fn: refl,
			Through: anyOf(headOf(rl), made), Goal: retOf(refl), Cut: nil, NoEnter: noEnter("lib.sliceCompare"), Assume: []func(Edge) bool{
				anyCut(w.isEmpty(`.*`), w.signIs(cmpRe, 0)), anyCut(w.isEmpty(`.*`), w.signIs(cmpRe, -other))}})
		flags := func(in ssa.Instruction) {
			if s, _ := fieldStore(in, "RotationCandidate", "Reflected"); s != nil {
				v, ok := constBool(s.Val)
				if _, par := s.Val.(*ssa.Parameter); !par {
					r.Check("rotations/reflected/flag", w.ipos(in), ok && v == flag, ifBad(!ok || v != flag, "the candidate has the wrong direction"))
				}
			}
		}
		for _, l := range rl {
			w.wholeLoop(r, "rotations/reflected/"+key, l, func(in ssa.Instruction) bool {
				s, _ := fieldStore(in, "RotationCandidate", "Shift")
				return s != nil || app(in)
			}, nil, nil)
			for b := range l.Body {
				for _, in := range b.Instrs {
					flags(in)
				}
			}
		}
		deepInstrs(refl, func(in ssa.Instruction) {
			if !made(in) {
				return
			}
			for _, a := range in.(*ssa.Call).Call.Args {
				if v, ok := constBool(a); ok {
					r.Check("rotations/reflected/flag", w.ipos(in), v == flag, ifBad(v != flag, "the candidates have the wrong direction"))
				}
			}
		})
	}
	// ordinal reflection never prefers a direction by ids alone
	for _, b := range ord.Blocks {
		rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || isNilConst(rt.Results[0]) && isNilConst(rt.Results[1]) {
			continue
		}
		v, ok := constBool(rt.Results[2])
		good := ok && v && !isNilConst(rt.Results[1])
		r.Check("reflection/ordinal", w.ipos(rt), good, ifBad(!good, "the mirrored order is not tried"))
	}
	// the candidates move or mirror the ids (the ranks, for ordinal values)
	for _, f := range []*ssa.Function{ord, ivl} {
		for _, l := range w.natLoops([]*ssa.Function{f}, func(in ssa.Instruction) bool { _, ok := in.(*ssa.Store); return ok }) {
			for b := range l.Body {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok || !isInt(st.Val.Type()) {
						continue
					}
					ia, ok := st.Addr.(*ssa.IndexAddr)
					if !ok || !l.isIndex(ia.Index) {
						continue
					}
					isVar := func(v ssa.Value) bool { return l.Elems[v] }
					isIdx := func(v ssa.Value) bool { return naturalLoop(v.(*ssa.Phi).Block())[b] }
					if f == ord {
						isVar = func(v ssa.Value) bool { return l.isIndex(v) }
						isIdx = func(ssa.Value) bool { return false }
					}
					ok, has := w.affine(st.Val, isVar, isIdx, 0)
					r.Check("reflection/moved", w.ipos(in), ok && has, ifBad(!ok || !has, "the candidate is neither the order of the values nor its mirror image: "+w.plain(st.Val)))
				}
			}
		}
	}
	// interval: a direction is left out only when the other one is smaller
	for i, worse := range []int{1, -1} {
		i := i
		w.must(r, step{Key: "reflection/interval/" + []string{"forward", "reverse"}[i], Why: "a direction is left out although the other is not better", Fn: ivl, Through: func(ssa.Instruction) bool { return false },
			Goal: func(in ssa.Instruction) bool {
				rt, ok := in.(*ssa.Return)
				return ok && in.Parent() == ivl && isNilConst(retVal(rt, i))
			},
			NoEnter: noEnter("lib.sliceCompare"), Assume: []func(Edge) bool{anyCut(w.isEmpty(`.*`), w.signIs(cmpRe, 0)), anyCut(w.isEmpty(`.*`), w.signIs(cmpRe, -worse))}})
	}
}

// signIs: branches that cannot be taken when the value has the sign.
func (w *World) signIs(rx string, sign int) func(Edge) bool {
	not := map[int][]string{0: {"<", ">", "!="}, 1: {"<", "<=", "=="}, -1: {">", ">=", "=="}}[sign]
	return func(e Edge) bool {
		for _, op := range not {
			if w.cutRel(rx, op, "^0$")(e) {
				return true
			}
		}
		return false
	}
}

func hasArg(c *ssa.Call, ok func(ssa.Value) bool) bool {
	for _, a := range c.Call.Args {
		if ok(a) {
			return true
		}
	}
	return false
}

func sliceElem(t types.Type) types.Type {
	if sl, ok := t.Underlying().(*types.Slice); ok {
		return sl.Elem()
	}
	return t
}

// allocationIdentity: what decides the next value a domain hands out is part of the identity of a state.
func (w *World) allocationIdentity(r *Rep) {
	ctx := w.Func("modelchecker.Process.createSymmetryContext")
	hc := w.Func("modelchecker.Process.HashCode")
	if ctx == nil || hc == nil {
		r.Undecided("identity", "-", "createSymmetryContext or HashCode not found")
		return
	}
	read := map[string]ssa.Instruction{}
	instrs(ctx, func(in ssa.Instruction) {
		if fa, ok := in.(*ssa.FieldAddr); ok && namedName(fa.X.Type()) == "Process" {
			read[fieldName(fa.X.Type(), fa.Field)] = in
		}
	})
	hashed := map[string]bool{}
	for f := range w.reachable(hc) {
		instrs(f, func(in ssa.Instruction) {
			if fa, ok := in.(*ssa.FieldAddr); ok && namedName(fa.X.Type()) == "Process" {
				hashed[fieldName(fa.X.Type(), fa.Field)] = true
			}
		})
	}
	for f, in := range read {
		r.Check("identity/"+f, w.ipos(in), hashed[f], ifBad(!hashed[f], "Process."+f+" decides which value a domain hands out next, but two states that differ only in it are taken for the same"))
	}
}
