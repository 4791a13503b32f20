package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// step is an obligation on paths: starting at Fn's entry (or just after After), Goal is not reached without Through,
// except along Cut branches.
type step struct {
	Key, Why   string
	Fn         *ssa.Function
	After      ssa.Instruction
	Through    func(ssa.Instruction) bool
	Goal       func(ssa.Instruction) bool
	GoalEnv    func(ssa.Instruction, func(ssa.Value) ssa.Value) bool
	ThroughEnv func(ssa.Instruction, func(ssa.Value) ssa.Value) bool
	Cut        func(Edge) bool
	NoEnter    func(*ssa.Function) bool
	LoopAll    bool
	Assume     []func(Edge) bool // cases to look at one by one: the branches that cannot be taken in the case
}

func (w *World) must(r *Rep, s step) bool {
	if s.Fn == nil && s.After == nil {
		r.Undecided(s.Key, "-", "function not found")
		return false
	}
	if len(s.Assume) > 0 {
		all := true
		for _, c := range s.Assume {
			one := s
			one.Assume, one.Cut = nil, c
			if s.Cut != nil {
				one.Cut = anyCut(c, s.Cut)
			}
			all = w.must(r, one) && all
		}
		return all
	}
	q := &Q{W: w, Through: s.Through, ThroughEnv: s.ThroughEnv, Goal: s.Goal, GoalEnv: s.GoalEnv, Cut: s.Cut, NoEnter: s.NoEnter, LoopAll: s.LoopAll}
	var bad bool
	var tr []string
	pos := "-"
	if s.After != nil {
		pos = w.ipos(s.After)
		bad, tr = q.After(s.After)
	} else {
		pos = w.Pos(s.Fn.Pos())
		bad, tr = q.Entry(s.Fn)
	}
	return r.Check(s.Key, pos, !bad, ifBad(bad, s.Why+": "+strings.Join(tr, " → ")))
}

// exists: the function (or something it calls) contains an instruction that matches.
func (w *World) exists(r *Rep, key, why string, fn *ssa.Function, m func(ssa.Instruction) bool) bool {
	if fn == nil {
		r.Undecided(key, "-", "function not found")
		return false
	}
	found := false
	for f := range w.reachable(fn) {
		instrs(f, func(in ssa.Instruction) { found = found || m(in) })
	}
	return r.Check(key, w.Pos(fn.Pos()), found, ifBad(!found, why))
}

// callTo matches a call whose arguments (receiver first) render as the given patterns ("" matches anything).
func (w *World) callTo(name string, args ...string) func(ssa.Instruction) bool {
	return func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok || !reMatch(name, calleeName(c)) {
			return false
		}
		a := callArgs(c)
		for i, p := range args {
			if p == "" {
				continue
			}
			if i >= len(a) || !re(p).MatchString(w.render(a[i])) {
				return false
			}
		}
		return true
	}
}

// storeTo matches a store to a field of a type whose value renders as pattern.
func (w *World) storeTo(typ, field, val string) func(ssa.Instruction) bool {
	return func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		return ok && namedName(fa.X.Type()) == typ && fieldName(fa.X.Type(), fa.Field) == field && (val == "" || re(val).MatchString(w.render(st.Val)))
	}
}

func (w *World) isTrue(l string) func(Edge) bool  { return w.cutRel(l, "==", "^true$") }
func (w *World) isFalse(l string) func(Edge) bool { return w.cutRel(l, "==", "^false$") }

// isEmpty / nonEmpty: edges on which a collection is known to be empty / non-empty.
func (w *World) isEmpty(l string) func(Edge) bool {
	p := `^len\(` + l + `\)$`
	return anyCut(w.cutRel(p, "<=", "^0$"), w.cutRel(p, "==", "^0$"), w.cutRel(p, "<", "^1$"), w.cutRel("^"+l+"$", "==", "^nil$"))
}
func (w *World) nonEmpty(l string) func(Edge) bool {
	p := `^len\(` + l + `\)$`
	return anyCut(w.cutRel(p, ">", "^0$"), w.cutRel(p, "!=", "^0$"), w.cutRel(p, ">=", "^1$"))
}

func noEnter(names ...string) func(*ssa.Function) bool {
	set := map[string]bool{}
	for _, n := range names {
		set[n] = true
	}
	return func(f *ssa.Function) bool { return set[fname(f)] }
}

// inFn restricts a matcher to one function.
func inFn(fn *ssa.Function, m func(ssa.Instruction) bool) func(ssa.Instruction) bool {
	return func(in ssa.Instruction) bool { return in.Parent() == fn && m(in) }
}

func constBool(v ssa.Value) (val, ok bool) {
	b, known, _, _ := evalBool(v, env{})
	return b, known
}

// returnsConst matches a return of fn whose i-th result is the boolean constant.
func returnsConst(fn *ssa.Function, i int, want bool) func(ssa.Instruction, func(ssa.Value) ssa.Value) bool {
	return func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
		rt, ok := in.(*ssa.Return)
		if !ok || rt.Parent() != fn || i >= len(rt.Results) {
			return false
		}
		v, known := constBool(res(retVal(rt, i)))
		return known && v == want
	}
}

// mayReturn matches a return of fn whose i-th result can be `want` (a constant equal to it, or not a constant).
func mayReturn(fn *ssa.Function, i int, want bool) func(ssa.Instruction, func(ssa.Value) ssa.Value) bool {
	return func(in ssa.Instruction, res func(ssa.Value) ssa.Value) bool {
		rt, ok := in.(*ssa.Return)
		if !ok || rt.Parent() != fn || i >= len(rt.Results) {
			return false
		}
		v, known := constBool(res(retVal(rt, i)))
		return !known || v == want
	}
}

func shortFn(fn *ssa.Function) string {
	return strings.TrimPrefix(strings.TrimPrefix(fname(fn), "modelchecker."), "lib.")
}

// onlyHelpers: queries about fn look into fn and its private helpers (functions called from nowhere else) only.
func (w *World) onlyHelpers(fn *ssa.Function, except ...string) func(*ssa.Function) bool {
	in := map[*ssa.Function]bool{}
	for _, f := range w.withHelpers(fn) {
		in[f] = true
	}
	no := noEnter(except...)
	return func(f *ssa.Function) bool { return !in[f] || no(f) }
}
