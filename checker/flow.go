package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Edge is a branch outcome: If.Cond evaluated to Taken.
type Edge struct {
	If    *ssa.If
	Cond  ssa.Value // resolved condition (phi inputs looked through)
	Taken bool
}

// Q is a reachability query over the interprocedural control flow: can a Goal be executed, starting from a point,
// along a path on which no Through instruction is executed and no Cut edge is taken?
type Q struct {
	W          *World
	Through    func(ssa.Instruction) bool
	Goal       func(ssa.Instruction) bool
	Cut        func(Edge) bool
	NoEnter    func(*ssa.Function) bool                              // functions treated as opaque (transparent, no goals)
	GoalEnv    func(ssa.Instruction, func(ssa.Value) ssa.Value) bool // like Goal; the second argument gives a value's meaning on the path
	ThroughEnv func(ssa.Instruction, func(ssa.Value) ssa.Value) bool // like Through, with a value's meaning on the path
	Track      func(*ssa.Phi) bool                                   // further values whose meaning on the path is wanted
	With       env                                                   // what is known at the start
	LoopAll    bool                                                  // a loop whose body always passes Through counts as Through even with zero iterations

	sums    map[*ssa.Function]*summary
	changed bool
	states  int
	over    bool
	relMemo map[*ssa.Function]map[ssa.Value]bool
	iter    int
	cutMemo map[string]bool
	loops   map[*ssa.BasicBlock]int  // LoopAll verdicts by loop head (shared with the sub-queries that compute them)
	within  map[*ssa.BasicBlock]bool // the walk of the starting function stays inside these blocks (nil: no limit)
	prune   bool                     // outcomes that no later branch depends on are forgotten
	live    map[*ssa.Function]map[ssa.Value]map[*ssa.BasicBlock]bool
}

type summary struct {
	goal      bool
	goalTrace []string
	trans     bool
	consts    []ssa.Value // per result: unique constant over transparent returns (nil: unknown)
	iter      int         // fixpoint round in which it was last brought up to date
}

type point struct {
	b    *ssa.BasicBlock
	i    int
	pred *ssa.BasicBlock
}

const maxStates = 400000

// Entry asks from the function's entry.
func (q *Q) Entry(fn *ssa.Function) (bool, []string) { return q.from(fn, point{fn.Blocks[0], 0, nil}) }

// After asks from just after an instruction.
func (q *Q) After(in ssa.Instruction) (bool, []string) {
	b := in.Block()
	for i, x := range b.Instrs {
		if x == in {
			return q.from(b.Parent(), point{b, i + 1, nil})
		}
	}
	return true, []string{"instruction not found"}
}

func (q *Q) init() {
	if q.sums == nil {
		q.sums = map[*ssa.Function]*summary{}
		q.relMemo = map[*ssa.Function]map[ssa.Value]bool{}
		q.cutMemo = map[string]bool{}
	}
	if q.loops == nil {
		q.loops = map[*ssa.BasicBlock]int{}
	}
}

func (q *Q) from(fn *ssa.Function, p point) (bool, []string) {
	q.prune = q.prune || q.GoalEnv == nil && q.ThroughEnv == nil
	ok, tr := q.search(fn, p)
	if q.over && !q.prune {
		q.prune, q.over, q.states, q.sums, q.loops = true, false, 0, nil, nil
		ok, tr = q.search(fn, p)
	}
	return ok, tr
}

// liveIn: the blocks at whose start the value still matters: an instruction that uses it, directly or as part of an
// expression, can be reached before it gets a new value.
func (q *Q) liveIn(fn *ssa.Function, v ssa.Value) map[*ssa.BasicBlock]bool {
	if q.live == nil {
		q.live = map[*ssa.Function]map[ssa.Value]map[*ssa.BasicBlock]bool{}
	}
	m := q.live[fn]
	if m == nil {
		m = map[ssa.Value]map[*ssa.BasicBlock]bool{}
		q.live[fn] = m
	}
	if l, ok := m[v]; ok {
		return l
	}
	l := map[*ssa.BasicBlock]bool{}
	m[v] = l
	var def *ssa.BasicBlock
	if in, ok := v.(ssa.Instruction); ok {
		def = in.Block()
	}
	var work []*ssa.BasicBlock
	mark := func(b *ssa.BasicBlock) {
		if b != def && !l[b] {
			l[b] = true
			work = append(work, b)
		}
	}
	seen := map[ssa.Value]bool{}
	var uses func(x ssa.Value)
	uses = func(x ssa.Value) {
		if seen[x] || x.Referrers() == nil {
			return
		}
		seen[x] = true
		for _, u := range *x.Referrers() {
			if ph, ok := u.(*ssa.Phi); ok {
				for i, e := range ph.Edges {
					if e == x {
						mark(ph.Block().Preds[i])
					}
				}
				continue
			}
			mark(u.Block())
			if y, ok := u.(ssa.Value); ok {
				uses(y)
			}
		}
	}
	uses(v)
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		for _, p := range b.Preds {
			mark(p)
		}
	}
	return l
}

// pruned: the part of e that matters from the start of b on.
func (q *Q) pruned(fn *ssa.Function, b *ssa.BasicBlock, e env) env {
	keep := map[ssa.Value]bool{}
	var hold func(v ssa.Value, d int)
	hold = func(v ssa.Value, d int) {
		if d > 12 {
			return
		}
		if n, ok := e[v]; ok && !keep[v] {
			keep[v] = true
			hold(n, d+1)
		}
		in, ok := v.(ssa.Instruction)
		if !ok {
			return
		}
		if _, ok := v.(*ssa.Phi); ok {
			return
		}
		for _, o := range in.Operands(nil) {
			if *o != nil {
				hold(*o, d+1)
			}
		}
	}
	for k := range e {
		in, ok := k.(ssa.Instruction)
		if !ok || in.Block() == b || q.liveIn(fn, k)[b] {
			hold(k, 0)
		}
	}
	if len(keep) == len(e) {
		return e
	}
	n := env{}
	for k := range keep {
		n[k] = e[k]
	}
	return n
}

func (q *Q) search(fn *ssa.Function, p point) (bool, []string) {
	q.init()
	// fixpoint over callee summaries
	for iter := 0; iter < 50; iter++ {
		q.changed = false
		q.iter++
		g, tr, _, _ := q.walk(fn, p, true)
		if g {
			return true, tr
		}
		if !q.changed {
			return false, nil
		}
	}
	return true, []string{"no fixpoint"}
}

// CanReturn: can fn return without passing Through / Cut?
func (q *Q) CanReturn(fn *ssa.Function) bool {
	q.init()
	for iter := 0; iter < 50; iter++ {
		q.changed = false
		q.iter++
		s := q.summaryOf(fn)
		if !q.changed {
			return s.trans
		}
	}
	return true
}

func (q *Q) summaryOf(fn *ssa.Function) *summary {
	s := q.sums[fn]
	if s == nil {
		s = &summary{iter: q.iter}
		q.sums[fn] = s
		q.changed = true
		q.refresh(fn, s)
	} else if s.iter != q.iter {
		s.iter = q.iter
		q.refresh(fn, s)
	}
	return s
}

func (q *Q) refresh(fn *ssa.Function, s *summary) {
	for k := 0; k < 20; k++ {
		g, tr, t, consts := q.walk(fn, point{fn.Blocks[0], 0, nil}, false)
		ch := false
		if g && !s.goal {
			s.goal, s.goalTrace, ch = true, tr, true
		}
		if t && !s.trans {
			s.trans, s.consts, ch = true, consts, true
		} else if t {
			for i := range s.consts {
				if s.consts[i] != nil && (consts[i] == nil || !sameOutcome(s.consts[i], consts[i])) {
					s.consts[i] = nil
					ch = true
				}
			}
		}
		if !ch {
			return
		}
		q.changed = true
	}
}

func sameConst(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	if !ok1 || !ok2 {
		return false
	}
	if x.Value == nil || y.Value == nil {
		return x.Value == nil && y.Value == nil
	}
	return constant.Compare(x.Value, token.EQL, y.Value)
}

// sameOutcome: the same constant, or errors made the same way (none is nil).
func sameOutcome(a, b ssa.Value) bool {
	if sameConst(a, b) {
		return true
	}
	switch x := a.(type) {
	case *ssa.MakeInterface:
		y, ok := b.(*ssa.MakeInterface)
		return ok && types.Identical(x.X.Type(), y.X.Type())
	case *ssa.Call:
		y, ok := b.(*ssa.Call)
		return ok && definitelyNonNil(x) && definitelyNonNil(y) && calleeName(x) == calleeName(y)
	}
	return false
}

type env map[ssa.Value]ssa.Value

func (e env) key() string {
	if len(e) == 0 {
		return ""
	}
	var l []string
	for k, v := range e {
		s := v.Name()
		if c, ok := v.(*ssa.Const); ok {
			s = c.String()
		}
		l = append(l, k.Name()+"="+s)
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

// relevant values of fn: phis, calls and extracts that feed a branch condition.
func (q *Q) relevant(fn *ssa.Function) map[ssa.Value]bool {
	if m, ok := q.relMemo[fn]; ok {
		return m
	}
	m := map[ssa.Value]bool{}
	var add func(v ssa.Value, d int)
	add = func(v ssa.Value, d int) {
		if v == nil || d > 8 || m[v] {
			return
		}
		switch x := v.(type) {
		case *ssa.Phi:
			m[v] = true
			for _, e := range x.Edges {
				add(e, d+1)
			}
		case *ssa.Call:
			m[v] = true
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				add(x.Call.Args[0], d+1)
			}
		case *ssa.Extract:
			m[v] = true
		case *ssa.UnOp:
			if x.Op == token.NOT {
				add(x.X, d+1)
			}
		case *ssa.BinOp:
			add(x.X, d+1)
			add(x.Y, d+1)
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				if q.Track != nil && q.Track(x) {
					m[x] = true
				}
			case *ssa.If:
				add(x.Cond, 0)
			case *ssa.Return:
				for _, r := range x.Results {
					add(r, 0)
				}
			case *ssa.Call:
				if q.GoalEnv == nil && q.ThroughEnv == nil {
					continue
				}
				for _, a := range x.Call.Args { // a goal may ask for the argument on this path
					if ph, ok := a.(*ssa.Phi); ok && (isRefType(ph.Type()) || isErrType(ph.Type())) {
						add(ph, 5)
					}
				}
			}
		}
	}
	q.relMemo[fn] = m
	return m
}

func resolve(v ssa.Value, e env) ssa.Value {
	for i := 0; i < 10; i++ {
		if n, ok := e[v]; ok && n != v {
			v = n
			continue
		}
		break
	}
	return v
}

func isNilConst(v ssa.Value) bool { c, ok := v.(*ssa.Const); return ok && c.Value == nil }

func definitelyNonNil(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure, *ssa.MakeInterface, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Function, *ssa.MakeChan:
		return true
	case *ssa.Call:
		n := calleeName(x)
		return n == "fmt.Errorf" || n == "errors.New"
	}
	return false
}

// evalBool evaluates a condition under env: (value, known, resolved condition, flipped)
func evalBool(c ssa.Value, e env) (val, known bool, rc ssa.Value, flip bool) {
	c = resolve(c, e)
	switch x := c.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			return constant.BoolVal(x.Value), true, c, false
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			v, k, r, f := evalBool(x.X, e)
			return !v, k, r, !f
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			a, b := resolve(x.X, e), resolve(x.Y, e)
			eq := x.Op == token.EQL
			if ca, ok := a.(*ssa.Const); ok {
				if cb, ok := b.(*ssa.Const); ok {
					return sameConst(ca, cb) == eq, true, c, false
				}
			}
			if isNilConst(a) && definitelyNonNil(b) || isNilConst(b) && definitelyNonNil(a) {
				return !eq, true, c, false
			}
			// comparison with true/false
			for _, p := range [][2]ssa.Value{{a, b}, {b, a}} {
				if cb, ok := p[1].(*ssa.Const); ok && cb.Value != nil && cb.Value.Kind() == constant.Bool {
					v, k, r, f := evalBool(p[0], e)
					if constant.BoolVal(cb.Value) != eq {
						return !v, k, r, !f
					}
					return v, k, r, f
				}
			}
		}
		// integer constants
		if ca, ok := resolve(x.X, e).(*ssa.Const); ok && ca.Value != nil {
			if cb, ok := resolve(x.Y, e).(*ssa.Const); ok && cb.Value != nil && ca.Value.Kind() == cb.Value.Kind() && ca.Value.Kind() == constant.Int {
				switch x.Op {
				case token.LSS, token.GTR, token.LEQ, token.GEQ, token.EQL, token.NEQ:
					return constant.Compare(ca.Value, x.Op, cb.Value), true, c, false
				}
			}
		}
	}
	return false, false, c, false
}

type wstate struct {
	p    point
	e    env
	prev *wstate
}

func (q *Q) trace(s *wstate, last ssa.Instruction) []string {
	var l []string
	if last != nil {
		l = append(l, q.W.ipos(last))
	}
	for x := s; x != nil; x = x.prev {
		if len(x.p.b.Instrs) > 0 {
			for _, in := range x.p.b.Instrs {
				if in.Pos().IsValid() {
					l = append(l, q.W.Pos(in.Pos()))
					break
				}
			}
		}
	}
	for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
		l[i], l[j] = l[j], l[i]
	}
	var out []string
	for _, s := range l {
		if len(out) == 0 || out[len(out)-1] != s {
			out = append(out, s)
		}
	}
	if len(out) > 14 {
		out = append(append([]string{}, out[:7]...), append([]string{"…"}, out[len(out)-6:]...)...)
	}
	return out
}

// walk explores fn from p. Returns goal reached (with trace) and whether a return is reachable (transparent),
// with the results' unique constants.
func (q *Q) walk(fn *ssa.Function, p point, top bool) (bool, []string, bool, []ssa.Value) {
	rel := q.relevant(fn)
	seen := map[string]bool{}
	first := env{}
	if top && q.With != nil {
		first = q.With
	}
	work := []*wstate{{p: p, e: first}}
	inside := func(b *ssa.BasicBlock) bool { return !top || q.within == nil || q.within[b] }
	trans := false
	var consts []ssa.Value
	nres := fn.Signature.Results().Len()
	merge := func(vals []ssa.Value) {
		if !trans {
			trans = true
			consts = make([]ssa.Value, nres)
			copy(consts, vals)
			return
		}
		for i := range consts {
			if consts[i] != nil && (i >= len(vals) || vals[i] == nil || !sameOutcome(consts[i], vals[i])) {
				consts[i] = nil
			}
		}
	}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		q.states++
		if q.states > maxStates || !q.prune && q.states > maxStates/10 {
			q.over = true
			return true, []string{"state limit of the analysis exceeded"}, true, make([]ssa.Value, nres)
		}
		b, e := s.p.b, s.e
		stopped := false
		for i := s.p.i; i < len(b.Instrs) && !stopped; i++ {
			in := b.Instrs[i]
			if q.Through != nil && q.Through(in) {
				stopped = true
				break
			}
			if q.ThroughEnv != nil {
				ee := e
				if q.ThroughEnv(in, func(v ssa.Value) ssa.Value { return resolve(v, ee) }) {
					stopped = true
					break
				}
			}
			if q.Goal != nil && (top || q.within == nil) && q.Goal(in) {
				return true, q.trace(s, in), trans, consts
			}
			if q.GoalEnv != nil {
				ee := e
				if q.GoalEnv(in, func(v ssa.Value) ssa.Value { return resolve(v, ee) }) {
					return true, q.trace(s, in), trans, consts
				}
			}
			switch x := in.(type) {
			case ssa.CallInstruction:
				if _, isGo := in.(*ssa.Go); isGo {
					continue
				}
				targets := q.W.callees(x)
				var body []*ssa.Function
				for _, t := range targets {
					if len(t.Blocks) > 0 && q.W.owns(t) && (q.NoEnter == nil || !q.NoEnter(t)) {
						body = append(body, t)
					}
				}
				if len(body) == 0 || len(body) != len(targets) && !x.Common().IsInvoke() {
					continue
				}
				anyTrans := false
				var cs []ssa.Value
				for _, t := range body {
					sm := q.summaryOf(t)
					if sm.goal {
						tr := q.trace(s, in)
						return true, append(tr, sm.goalTrace...), trans, consts
					}
					if sm.trans {
						if !anyTrans {
							cs = append([]ssa.Value{}, sm.consts...)
						} else {
							for k := range cs {
								if k >= len(sm.consts) || cs[k] != nil && (sm.consts[k] == nil || !sameOutcome(cs[k], sm.consts[k])) {
									cs[k] = nil
								}
							}
						}
						anyTrans = true
					}
				}
				if !anyTrans {
					stopped = true
					break
				}
				if c, ok := in.(*ssa.Call); ok && len(cs) > 0 {
					if len(cs) == 1 {
						if rel[c] {
							e = e.set(c, cs[0])
						}
					} else {
						for _, r := range *c.Referrers() {
							if ex, ok := r.(*ssa.Extract); ok && rel[ex] && ex.Index < len(cs) {
								e = e.set(ex, cs[ex.Index])
							}
						}
					}
				}
			case *ssa.Return:
				vals := make([]ssa.Value, nres)
				for k, r := range x.Results {
					v := resolve(r, e)
					if _, ok := v.(*ssa.Const); ok {
						vals[k] = v
					} else if isErrType(r.Type()) && definitelyNonNil(v) {
						vals[k] = v
					} else if bv, known, _, _ := evalBool(v, e); known && isBool(v) {
						vals[k] = ssa.NewConst(constant.MakeBool(bv), v.Type())
					}
				}
				merge(vals)
				stopped = true
			case *ssa.If:
				val, known, rc, flip := evalBool(x.Cond, e)
				for k, succ := range b.Succs {
					taken := k == 0
					if known && val != taken {
						continue
					}
					t := taken
					if flip {
						t = !t
					}
					if !known && q.edgeCut(Edge{x, rc, t}, 0) {
						continue
					}
					if bo, ok := x.Cond.(*ssa.BinOp); known && ok && q.Cut != nil && q.Cut(Edge{x, bo, taken}) {
						continue // what the branch says holds on this path all the same
					}
					if q.LoopAll && !taken || q.LoopAll && taken {
						if q.loopExitSatisfied(b, succ) {
							continue
						}
					}
					ne := e
					if !known {
						// remember the outcome for later branches on the same value
						if rel[rc] {
							ne = ne.set(rc, ssa.NewConst(constant.MakeBool(t), rc.Type()))
						}
					}
					if inside(succ) {
						q.push(&work, seen, fn, rel, b, succ, ne, s)
					}
				}
				stopped = true
			case *ssa.Jump:
				if inside(b.Succs[0]) {
					q.push(&work, seen, fn, rel, b, b.Succs[0], e, s)
				}
				stopped = true
			case *ssa.Panic:
				stopped = true
			}
		}
	}
	return false, nil, trans, consts
}

func (e env) set(k, v ssa.Value) env {
	n := env{}
	for a, b := range e {
		n[a] = b
	}
	if v == nil {
		delete(n, k)
	} else {
		n[k] = v
	}
	return n
}

func isBool(v ssa.Value) bool { return strings.HasSuffix(v.Type().Underlying().String(), "bool") }

func (q *Q) push(work *[]*wstate, seen map[string]bool, fn *ssa.Function, rel map[ssa.Value]bool, from, to *ssa.BasicBlock, e env, s *wstate) {
	ne := e
	copied := false
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	// values defined in the target block get a new incarnation
	for k := range e {
		if in, ok := k.(ssa.Instruction); ok && in.Block() == to {
			if _, isPhi := k.(*ssa.Phi); !isPhi {
				ne = ne.set(k, nil)
			}
		}
	}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !rel[ph] || idx < 0 {
			continue
		}
		v := resolve(ph.Edges[idx], e)
		if v == ph {
			continue
		}
		if bv, known, _, _ := evalBool(v, e); known && isBool(v) {
			v = ssa.NewConst(constant.MakeBool(bv), v.Type())
		}
		if !copied {
			ne = ne.set(ph, v)
		} else {
			ne[ph] = v
		}
	}
	if q.prune {
		ne = q.pruned(fn, to, ne)
	}
	// bound chains: drop entries whose value refers to something defined in a block of a loop being re-entered
	key := fmt.Sprintf("%d|%s", to.Index, ne.key())
	if seen[key] {
		return
	}
	seen[key] = true
	*work = append(*work, &wstate{point{to, 0, from}, ne, s})
}

// edgeCut: does taking this edge imply that a Cut edge is (or was) taken? Looks through negation and through calls
// of module predicates: a call returning `taken` only along cut paths is itself a cut.
func (q *Q) edgeCut(e Edge, d int) bool {
	if q.Cut == nil || d > 4 {
		return false
	}
	if u, ok := e.Cond.(*ssa.UnOp); ok && u.Op == token.NOT {
		return q.edgeCut(Edge{e.If, u.X, !e.Taken}, d)
	}
	if q.Cut(e) {
		return true
	}
	c, ok := e.Cond.(*ssa.Call)
	ridx := 0
	if !ok {
		if ex, ok2 := e.Cond.(*ssa.Extract); ok2 {
			if cc, ok3 := ex.Tuple.(*ssa.Call); ok3 {
				c, ok, ridx = cc, true, ex.Index
			}
		}
	}
	if !ok || !isBool(e.Cond) {
		return false
	}
	f := c.Call.StaticCallee()
	if f == nil || len(f.Blocks) == 0 || !q.W.owns(f) || q.NoEnter != nil && q.NoEnter(f) {
		return false
	}
	key := fmt.Sprintf("%p|%d|%v", f, ridx, e.Taken)
	if r, ok := q.cutMemo[key]; ok {
		return r
	}
	q.cutMemo[key] = false
	r := !q.canReturnBool(f, ridx, e.Taken, d+1)
	q.cutMemo[key] = r
	return r
}

// canReturnBool: can f return the boolean want at result idx along a path without Cut edges?
func (q *Q) canReturnBool(f *ssa.Function, idx int, want bool, d int) bool {
	rel := q.relevant(f)
	seen := map[string]bool{}
	work := []*wstate{{p: point{f.Blocks[0], 0, nil}, e: env{}}}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		q.states++
		if q.states > maxStates || !q.prune && q.states > maxStates/10 {
			q.over = true
			return true
		}
		b, e := s.p.b, s.e
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Return:
				v, known, rc, flip := evalBool(x.Results[idx], e)
				if known {
					if v == want {
						return true
					}
					continue
				}
				t := want
				if flip {
					t = !t
				}
				if !q.edgeCut(Edge{nil, rc, t}, d) {
					return true
				}
			case *ssa.If:
				val, known, rc, flip := evalBool(x.Cond, e)
				for k, succ := range b.Succs {
					taken := k == 0
					if known && val != taken {
						continue
					}
					t := taken
					if flip {
						t = !t
					}
					if !known && q.edgeCut(Edge{x, rc, t}, d) {
						continue
					}
					ne := e
					if !known && rel[rc] {
						ne = ne.set(rc, ssa.NewConst(constant.MakeBool(t), rc.Type()))
					}
					q.push(&work, seen, f, rel, b, succ, ne, s)
				}
			case *ssa.Jump:
				q.push(&work, seen, f, rel, b, b.Succs[0], e, s)
			}
		}
	}
	return false
}

// loopExitSatisfied: b is a loop header, succ leaves the loop, and every iteration passes Through. A loop reached again
// while its own verdict is being computed (through recursion) counts as not satisfied.
func (q *Q) loopExitSatisfied(b, succ *ssa.BasicBlock) bool {
	if v, ok := q.loops[b]; ok {
		if v != 1 {
			return false
		}
	}
	body := naturalLoop(b)
	if body == nil || body[succ] {
		return false
	}
	if v, ok := q.loops[b]; ok {
		return v == 1
	}
	q.loops[b] = 0
	var entry *ssa.BasicBlock
	for _, s := range b.Succs {
		if body[s] {
			entry = s
		}
	}
	if entry == nil {
		return false
	}
	sub := &Q{W: q.W, Through: q.Through, Cut: q.Cut, NoEnter: q.NoEnter, LoopAll: true, loops: q.loops, within: body,
		Goal: func(in ssa.Instruction) bool {
			return in.Block() == b && in == firstNonPhi(b)
		}}
	hit, _ := sub.from(b.Parent(), point{entry, 0, b})
	if !hit {
		q.loops[b] = 1
		return true
	}
	return false
}

func firstNonPhi(b *ssa.BasicBlock) ssa.Instruction {
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return in
		}
	}
	return nil
}

// naturalLoop returns the blocks of the loop headed by h (nil if h heads no loop).
func naturalLoop(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	var body map[*ssa.BasicBlock]bool
	for _, p := range h.Preds {
		if h.Dominates(p) {
			if body == nil {
				body = map[*ssa.BasicBlock]bool{h: true}
			}
			stack := []*ssa.BasicBlock{p}
			for len(stack) > 0 {
				x := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if body[x] {
					continue
				}
				body[x] = true
				stack = append(stack, x.Preds...)
			}
		}
	}
	return body
}

// isCall matches a call instruction (call, defer) to one of the named functions.
func isCall(names ...string) func(ssa.Instruction) bool {
	set := map[string]bool{}
	for _, n := range names {
		set[n] = true
	}
	return func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && set[calleeName(c)]
	}
}

func anyOf(fs ...func(ssa.Instruction) bool) func(ssa.Instruction) bool {
	return func(in ssa.Instruction) bool {
		for _, f := range fs {
			if f(in) {
				return true
			}
		}
		return false
	}
}

func isReturnOf(fn *ssa.Function) func(ssa.Instruction) bool {
	return func(in ssa.Instruction) bool {
		_, ok := in.(*ssa.Return)
		return ok && in.Parent() == fn
	}
}

// cutRel: edges on which the relation holds.
func (w *World) cutRel(l, op, r string) func(Edge) bool {
	return func(e Edge) bool { return matchRel(w.rels(e.Cond, e.Taken), l, op, r) }
}

func anyCut(fs ...func(Edge) bool) func(Edge) bool {
	return func(e Edge) bool {
		for _, f := range fs {
			if f(e) {
				return true
			}
		}
		return false
	}
}
