package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// render gives a canonical access-path style description of a pure value: field chains from the named type of the
// base, calls, constants. Local variable names never appear in it, so renaming does not change it; proto getters
// are the field they read; a basic-typed parameter is what every caller passes when they agree.
func (w *World) render(v ssa.Value) string { return w.rend(v, 0, map[ssa.Value]bool{}) }

func fieldName(t types.Type, i int) string {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok || i >= st.NumFields() {
		return "?"
	}
	return st.Field(i).Name()
}

func (w *World) baseName(v ssa.Value) string {
	if n := namedName(v.Type()); n != "" {
		return n
	}
	return types.TypeString(v.Type(), func(p *types.Package) string { return p.Name() })
}

var anchorTypes = map[string]bool{"Process": true, "Node": true, "Processor": true, "Thread": true, "CallFrame": true, "Scope": true, "Heap": true, "Role": true, "Link": true}

func (w *World) rend(v ssa.Value, d int, busy map[ssa.Value]bool) string {
	if v == nil {
		return "?"
	}
	if d > 14 {
		return "…"
	}
	if busy[v] {
		return "↺"
	}
	busy[v] = true
	defer delete(busy, v)
	r := func(x ssa.Value) string { return w.rend(x, d+1, busy) }
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return "nil"
		}
		if x.Value.Kind() == constant.String {
			return fmt.Sprintf("%q", constant.StringVal(x.Value))
		}
		return x.Value.ExactString()
	case *ssa.Parameter:
		if a, ok := w.bound[x]; ok {
			return r(a)
		}
		fn := x.Parent()
		n := namedName(x.Type())
		if n != "" && anchorTypes[n] {
			return n
		}
		if fn.Signature.Recv() != nil && len(fn.Params) > 0 && fn.Params[0] == x {
			return w.baseName(x)
		}
		idx := -1
		for i, p := range fn.Params {
			if p == x {
				idx = i
			}
		}
		set := map[string]bool{}
		for _, c := range w.callers[fn] {
			args := c.Common().Args
			if c.Common().IsInvoke() {
				args = append([]ssa.Value{c.Common().Value}, args...)
			}
			if idx < len(args) && c.Parent() != fn {
				set[r(args[idx])] = true
			}
		}
		if len(set) == 1 {
			for s := range set {
				return s
			}
		}
		return w.baseName(x)
	case *ssa.FreeVar:
		if b := w.freeVarBinding(x); b != nil {
			return r(b)
		}
		return w.baseName(x)
	case *ssa.FieldAddr:
		return r(x.X) + "." + fieldName(x.X.Type(), x.Field)
	case *ssa.Field:
		return r(x.X) + "." + fieldName(x.X.Type(), x.Field)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			return r(x.X)
		case token.NOT:
			return "!" + r(x.X)
		}
		return x.Op.String() + r(x.X)
	case *ssa.BinOp:
		return "(" + r(x.X) + " " + x.Op.String() + " " + r(x.Y) + ")"
	case *ssa.Convert:
		return r(x.X)
	case *ssa.ChangeType:
		return r(x.X)
	case *ssa.ChangeInterface:
		return r(x.X)
	case *ssa.MakeInterface:
		return r(x.X)
	case *ssa.TypeAssert:
		return r(x.X)
	case *ssa.Slice:
		s := r(x.X) + "["
		if x.Low != nil {
			s += r(x.Low)
		}
		s += ":"
		if x.High != nil {
			s += r(x.High)
		}
		return s + "]"
	case *ssa.IndexAddr:
		return r(x.X) + "[" + r(x.Index) + "]"
	case *ssa.Index:
		return r(x.X) + "[" + r(x.Index) + "]"
	case *ssa.Lookup:
		return r(x.X) + "[" + r(x.Index) + "]"
	case *ssa.Extract:
		if l, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 {
			return r(l)
		}
		if _, ok := x.Tuple.(*ssa.Next); ok {
			return r(x.Tuple) + fmt.Sprintf("#%d", x.Index)
		}
		return r(x.Tuple) + fmt.Sprintf("#%d", x.Index)
	case *ssa.Next:
		return r(x.Iter)
	case *ssa.Range:
		return "range(" + r(x.X) + ")"
	case *ssa.Global:
		if x.Pkg != nil {
			return x.Pkg.Pkg.Name() + "." + x.Name()
		}
		return x.Name()
	case *ssa.Function:
		return fname(x)
	case *ssa.MakeClosure:
		return fname(x.Fn.(*ssa.Function))
	case *ssa.Alloc:
		var st []ssa.Value
		for _, ref := range *x.Referrers() {
			if s, ok := ref.(*ssa.Store); ok && s.Addr == x {
				st = append(st, s.Val)
			}
		}
		if len(st) == 1 {
			return r(st[0])
		}
		return w.baseName(x)
	case *ssa.Phi:
		set := map[string]bool{}
		for _, e := range x.Edges {
			set[r(e)] = true
		}
		delete(set, "↺")
		var l []string
		for s := range set {
			l = append(l, s)
		}
		sort.Strings(l)
		if len(l) == 1 {
			return l[0]
		}
		return "phi(" + strings.Join(l, "|") + ")"
	case *ssa.Call:
		n := calleeName(x)
		args := x.Call.Args
		if x.Call.IsInvoke() {
			args = append([]ssa.Value{x.Call.Value}, args...)
		}
		if f := x.Call.StaticCallee(); f != nil && f.Signature.Recv() != nil && len(args) == 1 && strings.HasPrefix(f.Name(), "Get") {
			if st, ok := deref(args[0].Type()).Underlying().(*types.Struct); ok {
				want := strings.TrimPrefix(f.Name(), "Get")
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == want {
						return r(args[0]) + "." + want
					}
				}
			}
		}
		var l []string
		for _, a := range args {
			l = append(l, r(a))
		}
		return strings.TrimPrefix(n, "builtin.") + "(" + strings.Join(l, ",") + ")"
	}
	return w.baseName(v)
}

// Rel is a comparison known to hold.
type Rel struct{ L, Op, R string }

func (r Rel) String() string { return r.L + " " + r.Op + " " + r.R }

var negOp = map[string]string{"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}
var flipOp = map[string]string{"==": "==", "!=": "!=", "<": ">", ">": "<", "<=": ">=", ">=": "<="}

// rels: what is known when cond evaluates to taken (both orientations of a comparison).
func (w *World) rels(cond ssa.Value, taken bool) []Rel {
	for {
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			cond = u.X
			taken = !taken
			continue
		}
		break
	}
	if b, ok := cond.(*ssa.BinOp); ok {
		op := b.Op.String()
		if _, ok := negOp[op]; ok {
			// comparison with a boolean constant
			for _, p := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
				if c, ok := p[1].(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
					want := constant.BoolVal(c.Value)
					t := taken == (op == "==")
					return w.rels(p[0], t == want)
				}
			}
			if !taken {
				op = negOp[op]
			}
			l, r := w.render(b.X), w.render(b.Y)
			out := []Rel{{l, op, r}, {r, flipOp[op], l}}
			// x < n+1 style: leave as is
			return out
		}
	}
	return []Rel{{w.render(cond), "==", fmt.Sprint(taken)}}
}

// matchRel: is one of the relations L op R with L and R matching the patterns?
func matchRel(rs []Rel, l, op, r string) bool {
	lr, rr := re(l), re(r)
	for _, x := range rs {
		if x.Op == op && lr.MatchString(x.L) && rr.MatchString(x.R) {
			return true
		}
	}
	return false
}

var reCache = map[string]*regexp.Regexp{}

func re(s string) *regexp.Regexp {
	if r, ok := reCache[s]; ok {
		return r
	}
	r := regexp.MustCompile(s)
	reCache[s] = r
	return r
}
