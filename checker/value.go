package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Slice is what a value may be computed from (flow-insensitive backward slice through the module's functions).
type Slice struct {
	Fields map[string]bool // "Type.Field"
	Calls  map[string]bool // callee short names
	Consts map[string]bool
	Params map[*ssa.Parameter]bool
	vals   map[ssa.Value]bool
}

func (s *Slice) hasField(re string) bool {
	for f := range s.Fields {
		if reMatch(re, f) {
			return true
		}
	}
	return false
}
func (s *Slice) hasCall(rx string) bool {
	for f := range s.Calls {
		if reMatch(rx, f) {
			return true
		}
	}
	return false
}

func reMatch(rx, s string) bool { return re("^(?:" + rx + ")$").MatchString(s) }

type sliceOpt struct {
	up      bool // resolve parameters of the starting function through its callers
	noEnter func(*ssa.Function) bool
	shallow bool // do not enter callees
	plain   bool // resolve upward only parameters that are not structures
}

var sliceMemo = map[ssa.Value]*Slice{}

// slice: default options, memoised.
func (w *World) slice(v ssa.Value) *Slice {
	if s, ok := sliceMemo[v]; ok {
		return s
	}
	s := w.sliceWith(v, sliceOpt{up: true})
	sliceMemo[v] = s
	return s
}

var plainMemo = map[ssa.Value]*Slice{}

// plainSlice: like slice, but a structure parameter is not followed to the callers.
func (w *World) plainSlice(v ssa.Value) *Slice {
	if s, ok := plainMemo[v]; ok {
		return s
	}
	s := w.sliceWith(v, sliceOpt{up: true, plain: true})
	plainMemo[v] = s
	return s
}

type sliceItem struct {
	v  ssa.Value
	up int // remaining levels upward
	dn int // levels downward so far
}

func (w *World) sliceWith(v ssa.Value, o sliceOpt) *Slice {
	s := &Slice{map[string]bool{}, map[string]bool{}, map[string]bool{}, map[*ssa.Parameter]bool{}, map[ssa.Value]bool{}}
	up := 0
	if o.up {
		up = 3
	}
	work := []sliceItem{{v, up, 0}}
	add := func(x ssa.Value, it sliceItem) {
		if x != nil && !s.vals[x] {
			s.vals[x] = true
			work = append(work, sliceItem{x, it.up, it.dn})
		}
	}
	s.vals[v] = true
	for n := 0; len(work) > 0 && n < 60000; n++ {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		switch x := it.v.(type) {
		case *ssa.Const:
			s.Consts[x.String()] = true
		case *ssa.Parameter:
			s.Params[x] = true
			if it.up > 0 && it.dn == 0 && !(o.plain && isStructPtr(x.Type())) {
				fn := x.Parent()
				for i, p := range fn.Params {
					if p != x {
						continue
					}
					for _, c := range w.callers[fn] {
						args := callArgs(c)
						if i < len(args) {
							if !s.vals[args[i]] {
								s.vals[args[i]] = true
								work = append(work, sliceItem{args[i], it.up - 1, 0})
							}
						}
					}
				}
			}
		case *ssa.FreeVar:
			if b := w.freeVarBinding(x); b != nil {
				add(b, it)
			}
		case *ssa.FieldAddr:
			s.Fields[namedName(x.X.Type())+"."+fieldName(x.X.Type(), x.Field)] = true
			add(x.X, it)
		case *ssa.Field:
			s.Fields[namedName(x.X.Type())+"."+fieldName(x.X.Type(), x.Field)] = true
			add(x.X, it)
		case *ssa.Call:
			s.Calls[calleeName(x)] = true
			for _, a := range callArgs(x) {
				add(a, it)
			}
			if !o.shallow && it.dn < 6 {
				for _, f := range w.callees(x) {
					if o.plain && x.Call.IsInvoke() && pkgOf(x.Parent()) == "lib" && pkgOf(f) == "modelchecker" {
						continue // the value encoder never meets the checker's own structures through the interface
					}
					if len(f.Blocks) == 0 || !w.owns(f) || o.noEnter != nil && o.noEnter(f) {
						continue
					}
					for _, b := range f.Blocks {
						if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
							for _, rv := range r.Results {
								if !s.vals[rv] {
									s.vals[rv] = true
									work = append(work, sliceItem{rv, 0, it.dn + 1})
								}
							}
						}
					}
				}
			}
		case ssa.Instruction:
			for _, op := range x.Operands(nil) {
				if *op != nil {
					add(*op, it)
				}
			}
		}
		// content added to containers, buffers and cells
		if isContainer(it.v) {
			if refs := it.v.Referrers(); refs != nil {
				for _, r := range *refs {
					switch y := r.(type) {
					case *ssa.Store:
						if y.Addr == it.v {
							add(y.Val, it)
						}
					case *ssa.MapUpdate:
						if y.Map == it.v {
							add(y.Key, it)
							add(y.Value, it)
						}
					case *ssa.IndexAddr:
						if y.X == it.v {
							for _, r2 := range *y.Referrers() {
								if st, ok := r2.(*ssa.Store); ok && st.Addr == y {
									add(st.Val, it)
								}
							}
						}
					case *ssa.FieldAddr:
						if y.X == it.v {
							for _, r2 := range *y.Referrers() {
								if st, ok := r2.(*ssa.Store); ok && st.Addr == y {
									add(st.Val, it)
								}
							}
						}
					case ssa.CallInstruction:
						n := calleeName(y)
						if isMutatorCall(n) && fills(y, n, it.v) {
							s.Calls[n] = true
							for _, a := range callArgs(y) {
								add(a, it)
							}
						}
					case *ssa.UnOp:
						// a cell holding a container (captured variable): follow the loads too
						if y.Op == token.MUL && y.X == it.v && isRefType(y.Type()) {
							add(y, it)
						}
					case *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.Slice, *ssa.ChangeType:
						if pv, ok := y.(ssa.Value); ok {
							add(pv, it)
						}
					}
				}
			}
		}
	}
	return s
}

// pkgOf: the name of the package that declares the function (for wrappers: of the receiver).
func pkgOf(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Name()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Name()
	}
	return ""
}

func isStructPtr(t types.Type) bool {
	_, ok := deref(t).Underlying().(*types.Struct)
	return ok
}

// fills: v is the thing the call adds to (not merely one of the things added).
func fills(c ssa.CallInstruction, name string, v ssa.Value) bool {
	if strings.HasPrefix(name, "modelchecker.CopyDict") || strings.HasSuffix(name, "ToStringDict") {
		return true
	}
	args := callArgs(c)
	return len(args) > 0 && args[0] == v
}

func isMutatorCall(n string) bool {
	i := strings.LastIndexByte(n, '.')
	m := n[i+1:]
	switch m {
	case "Write", "WriteString", "WriteByte", "WriteRune", "Fprintf", "Fprint", "Fprintln", "Append", "Insert", "SetKey", "Push", "Add", "SetField", "copy", "Copy", "ReplaceEntriesFromStringDict", "ToStringDict":
		return true
	}
	return strings.HasPrefix(n, "modelchecker.CopyDict")
}

func isContainer(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		return true
	case *ssa.Call:
		_ = x
		return isRefType(v.Type())
	case *ssa.Extract, *ssa.MakeInterface, *ssa.UnOp, *ssa.Phi, *ssa.Slice:
		return isRefType(v.Type())
	}
	return false
}

func isRefType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Interface, *types.Chan:
		return true
	}
	return false
}

func callArgs(c ssa.CallInstruction) []ssa.Value {
	cc := c.Common()
	if cc.IsInvoke() {
		return append([]ssa.Value{cc.Value}, cc.Args...)
	}
	return cc.Args
}

func (s *Slice) list() string {
	var l []string
	for f := range s.Fields {
		l = append(l, f)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// Alias: what existing storage a value may share. Leaves are "Type.Field" (the storage held by a field),
// "elem Type.Field" (elements of it, in a fresh container) and "param:N".
type aliasCtx struct {
	w     *World
	out   map[string]ssa.Value
	seen  map[string]bool
	clean func(string) bool // callees whose results are fresh
	stop  func(ssa.Value) bool
}

func (w *World) aliases(v ssa.Value, clean func(string) bool) map[string]ssa.Value {
	return w.aliasesStop(v, clean, nil)
}

// aliasesStop does not look into values for which stop holds.
func (w *World) aliasesStop(v ssa.Value, clean func(string) bool, stop func(ssa.Value) bool) map[string]ssa.Value {
	a := &aliasCtx{w, map[string]ssa.Value{}, map[string]bool{}, clean, stop}
	a.walk(v, mSame, nil, 0)
	return a.out
}

// sharing modes of the alias walk
const (
	mSame  = 0 // the value is the storage
	mElem  = 1 // a fresh container whose elements are shared
	mInner = 2 // something held inside the storage
)

func inner(m int) int { return mInner }

type bind struct {
	fn   *ssa.Function
	args []ssa.Value
	up   *bind
}

// immutableType: values of the type carry no mutable storage that a branch could change.
func immutableType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Signature:
		return true
	case *types.Pointer:
		n := namedName(t)
		if nt, ok := types.Unalias(u.Elem()).(*types.Named); ok && nt.Obj().Pkg() != nil && strings.HasSuffix(nt.Obj().Pkg().Path(), "fizz/proto") {
			return true
		}
		_ = n
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !immutableType(u.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	return false
}

func (a *aliasCtx) leaf(name string, elem int, v ssa.Value) {
	switch elem {
	case mElem:
		name = "elem " + name
	case mInner:
		name = "in " + name
	}
	if _, ok := a.out[name]; !ok {
		a.out[name] = v
	}
}

// walk: elem means that only elements (not the container v denotes) are shared.
func (a *aliasCtx) walk(v ssa.Value, elem int, b *bind, d int) {
	if v == nil || d > 40 {
		return
	}
	if immutableType(v.Type()) && elem != mElem {
		return
	}
	if a.stop != nil && a.stop(v) {
		return
	}
	key := v.Name() + "@" + fnOf(v) + "|" + boolS(elem)
	if b != nil {
		key += "|" + fname(b.fn)
	}
	if a.seen[key] {
		return
	}
	a.seen[key] = true
	switch x := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return
	case *ssa.Global:
		a.leaf("global "+x.Name(), elem, v)
	case *ssa.Parameter:
		for bb := b; bb != nil; bb = bb.up {
			if bb.fn == x.Parent() {
				for i, p := range bb.fn.Params {
					if p == x && i < len(bb.args) {
						a.walk(bb.args[i], elem, bb.up, d+1)
						return
					}
				}
			}
		}
		a.leaf("param "+w_typeName(x), elem, v)
	case *ssa.FreeVar:
		if bd := a.w.freeVarBinding(x); bd != nil {
			a.walk(bd, elem, b, d+1)
		}
	case *ssa.Phi:
		for i, e := range x.Edges {
			if a.w.nilOnEdge(x, i) {
				continue
			}
			a.walk(e, elem, b, d+1)
		}
	case *ssa.ChangeType:
		a.walk(x.X, elem, b, d+1)
	case *ssa.ChangeInterface:
		a.walk(x.X, elem, b, d+1)
	case *ssa.MakeInterface:
		a.walk(x.X, elem, b, d+1)
	case *ssa.TypeAssert:
		a.walk(x.X, elem, b, d+1)
	case *ssa.Convert:
		a.walk(x.X, elem, b, d+1)
	case *ssa.Slice:
		a.walk(x.X, elem, b, d+1)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Call:
			a.call(t, x.Index, elem, b, d+1)
		case *ssa.Lookup:
			a.walk(t.X, inner(elem), b, d+1)
		case *ssa.TypeAssert:
			if x.Index == 0 {
				a.walk(t.X, elem, b, d+1)
			}
		case *ssa.Next:
			if r, ok := t.Iter.(*ssa.Range); ok && x.Index > 0 {
				a.walk(r.X, inner(elem), b, d+1)
			}
		}
	case *ssa.Lookup:
		a.walk(x.X, inner(elem), b, d+1)
	case *ssa.Index:
		a.walk(x.X, inner(elem), b, d+1)
	case *ssa.Field:
		a.leaf(namedName(x.X.Type())+"."+fieldName(x.X.Type(), x.Field), elem, v)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return
		}
		switch ad := x.X.(type) {
		case *ssa.FieldAddr:
			// field of a locally built struct: what was stored; otherwise the field's storage
			if al, ok := ad.X.(*ssa.Alloc); ok {
				found := false
				for _, r := range *al.Referrers() {
					if fa, ok := r.(*ssa.FieldAddr); ok && fa.Field == ad.Field {
						for _, r2 := range *fa.Referrers() {
							if st, ok := r2.(*ssa.Store); ok && st.Addr == fa {
								found = true
								a.walk(st.Val, elem, b, d+1)
							}
						}
					}
				}
				if found {
					return
				}
			}
			if a.freshBase(ad.X, b, d) {
				return
			}
			a.leaf(namedName(ad.X.Type())+"."+fieldName(ad.X.Type(), ad.Field), elem, v)
		case *ssa.IndexAddr:
			a.walk(ad.X, inner(elem), b, d+1)
		case *ssa.Alloc:
			for _, r := range *ad.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ad {
					a.walk(st.Val, elem, b, d+1)
				}
				// a cell filled by an iterator: an element of what is iterated
				if c, ok := r.(*ssa.Call); ok && c.Call.IsInvoke() && c.Call.Method.Name() == "Next" && len(c.Call.Args) == 1 && c.Call.Args[0] == ssa.Value(ad) {
					a.walk(c.Call.Value, mInner, b, d+1)
				}
			}
		case *ssa.FreeVar, *ssa.Phi:
			a.walk(x.X, elem, b, d+1)
		case *ssa.Global:
			a.leaf("global "+ad.Name(), elem, v)
		case *ssa.Parameter:
			a.walk(ad, elem, b, d+1)
		default:
			a.walk(x.X, elem, b, d+1)
		}
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
		a.contents(v, b, d+1)
	case *ssa.Call:
		a.call(x, 0, elem, b, d+1)
	case *ssa.MakeClosure:
		for _, bd := range x.Bindings {
			a.walk(bd, mElem, b, d+1)
		}
	}
}

func boolS(m int) string { return string(rune('a' + m)) }
func fnOf(v ssa.Value) string {
	if v.Parent() != nil {
		return fname(v.Parent())
	}
	return ""
}
func w_typeName(x *ssa.Parameter) string {
	if n := namedName(x.Type()); n != "" {
		return n
	}
	return x.Type().String()
}

// contents of a fresh container: whatever is stored into it.
func (a *aliasCtx) contents(v ssa.Value, b *bind, d int) {
	refs := v.Referrers()
	if refs == nil {
		return
	}
	for _, r := range *refs {
		switch y := r.(type) {
		case *ssa.Store:
			if y.Addr == v {
				a.elemOf(y.Val, b, d)
			}
		case *ssa.MapUpdate:
			if y.Map == v {
				a.elemOf(y.Value, b, d)
			}
		case *ssa.IndexAddr:
			if y.X == v {
				for _, r2 := range *y.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && st.Addr == y {
						a.elemOf(st.Val, b, d)
					}
				}
			}
		case *ssa.FieldAddr:
			if y.X == v {
				for _, r2 := range *y.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && st.Addr == y {
						a.elemOf(st.Val, b, d)
					}
				}
			}
		case *ssa.Slice, *ssa.MakeInterface, *ssa.ChangeType:
			a.contents(y.(ssa.Value), b, d+1)
		case ssa.CallInstruction:
			n := calleeName(y)
			args := callArgs(y)
			switch {
			case n == "builtin.copy" || strings.HasPrefix(n, "maps.Copy"):
				if len(args) == 2 && args[0] == v {
					a.shallow(args[1], b, d)
				}
			case isMutatorCall(n) && len(args) > 0 && args[0] == v:
				for _, x := range args[1:] {
					a.elemOf(x, b, d)
				}
			}
		}
	}
}

func (a *aliasCtx) elemOf(v ssa.Value, b *bind, d int) {
	if immutableType(v.Type()) {
		return
	}
	a.walk(v, mSame, b, d+1)
}

// shallow copy of container src: its elements are shared.
func (a *aliasCtx) shallow(src ssa.Value, b *bind, d int) {
	var et types.Type
	switch u := src.Type().Underlying().(type) {
	case *types.Slice:
		et = u.Elem()
	case *types.Map:
		et = u.Elem()
	case *types.Pointer:
		if ar, ok := u.Elem().Underlying().(*types.Array); ok {
			et = ar.Elem()
		}
	}
	if et != nil && immutableType(et) {
		return
	}
	a.walk(src, mElem, b, d+1)
}

func (a *aliasCtx) call(c *ssa.Call, idx int, elem int, b *bind, d int) {
	n := calleeName(c)
	if a.clean != nil && a.clean(n) {
		return
	}
	args := callArgs(c)
	switch {
	case n == "builtin.append":
		a.walk(args[0], elem, b, d+1)
		if len(args) > 1 {
			a.shallow(args[1], b, d+1)
		}
		return
	case strings.HasPrefix(n, "slices.Clone") || strings.HasPrefix(n, "maps.Clone"):
		a.shallow(args[0], b, d+1)
		return
	}
	fs := a.w.callees(c)
	for _, f := range fs {
		if len(f.Blocks) == 0 || !a.w.owns(f) {
			continue
		}
		depth := 0
		for bb := b; bb != nil; bb = bb.up {
			if bb.fn == f {
				depth++
			}
		}
		if depth > 1 {
			continue
		}
		nb := &bind{f, args, b}
		for _, bl := range f.Blocks {
			if r, ok := bl.Instrs[len(bl.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
				a.walk(r.Results[idx], elem, nb, d+1)
			}
		}
	}
	if len(fs) > 0 && a.w.owns(fs[0]) && len(fs[0].Blocks) > 0 {
		return
	}
	// external call: results of reference type may share what reference arguments hold, except known pure constructors
	if externalFresh(n) {
		return
	}
	for _, x := range args {
		if isRefType(x.Type()) {
			a.walk(x, elem, b, d+1)
		}
	}
}

func externalFresh(n string) bool {
	for _, p := range []string{"fmt.", "strings.", "strconv.", "errors.", "sha256.", "json.", "starlark.NewList", "starlark.NewSet", "starlark.NewDict", "proto.Clone", "sort.", "time.", "rand."} {
		if strings.HasPrefix(n, p) && n != "starlark.NewList" {
			return true
		}
	}
	return false
}

// fieldStores lists the stores to field F of struct type T in the module (or in fns when given).
func (w *World) fieldStores(typ, field string, fns ...*ssa.Function) []*ssa.Store {
	var out []*ssa.Store
	if len(fns) == 0 {
		fns = w.Funcs
	}
	for _, f := range fns {
		instrs(f, func(in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && namedName(fa.X.Type()) == typ && fieldName(fa.X.Type(), fa.Field) == field {
					out = append(out, st)
				}
			}
		})
	}
	return out
}

// fieldsOf lists the field names of a struct type.
func fieldsOf(n *types.Named) []*types.Var {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []*types.Var
	for i := 0; i < st.NumFields(); i++ {
		out = append(out, st.Field(i))
	}
	return out
}

// nilOnEdge: the value a phi takes from its i-th predecessor is known to be nil there.
func (w *World) nilOnEdge(ph *ssa.Phi, i int) bool {
	e := ph.Edges[i]
	if isNilConst(e) {
		return true
	}
	to := ph.Block()
	from := to.Preds[i]
	for k := 0; k < 3; k++ {
		if iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If); ok {
			want := w.render(e)
			for _, r := range w.rels(iff.Cond, from.Succs[0] == to) {
				if r.L == want && r.Op == "==" && r.R == "nil" {
					return true
				}
			}
			return false
		}
		if len(from.Preds) != 1 {
			return false
		}
		to, from = from, from.Preds[0]
	}
	return false
}

// freshBase: the object v denotes was created by a clone or a constructor here, so that its fields are its own.
func (a *aliasCtx) freshBase(v ssa.Value, b *bind, d int) bool {
	if d > 20 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Call:
		return a.clean != nil && a.clean(calleeName(x))
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return a.clean != nil && a.clean(calleeName(c))
		}
	case *ssa.TypeAssert:
		return a.freshBase(x.X, b, d+1)
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		al, ok := fa.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		n := 0
		for _, r := range *al.Referrers() {
			if f2, ok := r.(*ssa.FieldAddr); ok && f2.Field == fa.Field {
				for _, r2 := range *f2.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(f2) {
						n++
						if !a.freshBase(st.Val, b, d+1) {
							return false
						}
					}
				}
			}
		}
		return n > 0
	}
	return false
}
