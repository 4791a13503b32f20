package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// roots: the objects from which the storage denoted by v is reached: parameters, globals, free variables, allocations and
// the results of constructor calls (fresh). Accessors (module functions that return part of an argument) are looked
// through; the result of any other call is a root of its own.
func (w *World) roots(v ssa.Value, fresh func(string) bool) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value, d int)
	rec = func(v ssa.Value, d int) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.FieldAddr:
			rec(x.X, d)
		case *ssa.Field:
			rec(x.X, d)
		case *ssa.IndexAddr:
			rec(x.X, d)
		case *ssa.Index:
			rec(x.X, d)
		case *ssa.Lookup:
			rec(x.X, d)
		case *ssa.Slice:
			rec(x.X, d)
		case *ssa.ChangeType:
			rec(x.X, d)
		case *ssa.Convert:
			rec(x.X, d)
		case *ssa.MakeInterface:
			rec(x.X, d)
		case *ssa.ChangeInterface:
			rec(x.X, d)
		case *ssa.TypeAssert:
			rec(x.X, d)
		case *ssa.Extract:
			switch t := x.Tuple.(type) {
			case *ssa.Next:
				if rg, ok := t.Iter.(*ssa.Range); ok {
					rec(rg.X, d)
				}
			case *ssa.Lookup:
				rec(t.X, d)
			case *ssa.TypeAssert:
				rec(t.X, d)
			default:
				rec(x.Tuple, d)
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if al, ok := x.X.(*ssa.Alloc); ok && isRefType(x.Type()) {
					// a variable that holds a reference
					n := 0
					for _, r := range *al.Referrers() {
						if st, ok := r.(*ssa.Store); ok && st.Addr == al {
							rec(st.Val, d)
							n++
						}
					}
					if n > 0 {
						return
					}
				}
				rec(x.X, d)
				return
			}
			out = append(out, v)
		case *ssa.Phi:
			for _, e := range x.Edges {
				rec(e, d)
			}
		case *ssa.Alloc:
			// a local structure or array whose elements are references: those count when what is reached is an element
			out = append(out, x)
		case *ssa.Call:
			n := calleeName(x)
			if fresh(n) {
				out = append(out, x)
				return
			}
			if n == "builtin.append" {
				rec(x.Call.Args[0], d)
				if len(x.Call.Args) > 1 {
					for _, e := range appendedElems(x) {
						if isRefType(e.Type()) {
							rec(e, d)
						}
					}
				}
				return
			}
			f := x.Call.StaticCallee()
			if f == nil || !w.owns(f) || len(f.Blocks) == 0 || d >= 3 {
				out = append(out, x)
				return
			}
			through := false
			instrs(f, func(in ssa.Instruction) {
				rt, ok := in.(*ssa.Return)
				if !ok {
					return
				}
				for i := range rt.Results {
					rv := retVal(rt, i)
					if !isRefType(rv.Type()) && !isStructPtr(rv.Type()) {
						continue
					}
					for _, ro := range w.roots(rv, fresh) {
						if p, ok := ro.(*ssa.Parameter); ok {
							for k, q := range f.Params {
								if q == p && k < len(callArgs(x)) {
									through = true
									rec(callArgs(x)[k], d+1)
								}
							}
						}
					}
				}
			})
			if !through {
				out = append(out, x)
			}
		default:
			out = append(out, v)
		}
	}
	rec(v, 0)
	return out
}

// writes lists the storage-changing instructions of fn with the address or container written to.
func writes(fn *ssa.Function) map[ssa.Instruction]ssa.Value {
	m := map[ssa.Instruction]ssa.Value{}
	instrs(fn, func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Store:
			if _, ok := x.Addr.(*ssa.Alloc); !ok {
				m[in] = x.Addr
			}
		case *ssa.MapUpdate:
			m[in] = x.Map
		case *ssa.Call:
			n := calleeName(x)
			if n == "builtin.delete" || n == "builtin.copy" || n == "builtin.clear" {
				m[in] = x.Call.Args[0]
			}
		}
	})
	return m
}

// foreignWrites: writes of fn that reach storage not created by fn itself (or by a constructor it calls).
func (w *World) foreignWrites(fn *ssa.Function, fresh func(string) bool, allow func(ssa.Instruction) bool) []string {
	var out []string
	for in, addr := range writes(fn) {
		if allow != nil && allow(in) {
			continue
		}
		for _, ro := range w.roots(addr, fresh) {
			bad := false
			switch x := ro.(type) {
			case *ssa.Parameter, *ssa.Global:
				bad = true
			case *ssa.FreeVar:
				// writing the captured variable itself is fine, writing through it is judged by what it holds
				bad = addr != ssa.Value(x) && !w.freeVarFresh(x, fresh)
			}
			if bad {
				out = append(out, w.ipos(in)+" "+w.render(addr)+" (through "+w.render(ro)+")")
				break
			}
		}
	}
	return out
}

func (w *World) freeVarFresh(fv *ssa.FreeVar, fresh func(string) bool) bool {
	b := w.freeVarBinding(fv)
	al, ok := b.(*ssa.Alloc)
	if !ok {
		return false
	}
	ok = false
	for _, r := range *al.Referrers() {
		if st, k := r.(*ssa.Store); k && st.Addr == al {
			ok = true
			for _, ro := range w.roots(st.Val, fresh) {
				switch ro.(type) {
				case *ssa.Parameter, *ssa.Global, *ssa.FreeVar:
					return false
				}
			}
		}
	}
	if _, isStruct := deref(al.Type()).Underlying().(*types.Struct); isStruct {
		ok = true
	}
	return ok
}

// freshByName: constructors and copiers.
func freshByName(n string) bool {
	i := strings.LastIndexByte(n, '.')
	return re(`^(New|Clone|Fork|CloneDict|make|Copy|MapRole|Map)`).MatchString(n[i+1:])
}
