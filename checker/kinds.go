package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The Starlark value kinds (Type() names) and the Go type that carries each.
var kindGo = map[string]string{
	"list": "*starlark.List", "set": "*starlark.Set", "dict": "*starlark.Dict", "tuple": "starlark.Tuple",
	"struct": "*starlarkstruct.Struct", "record": "*lib.Struct", "genericset": "*lib.GenericSet", "genericmap": "*lib.GenericMap",
	"bag": "*lib.Bag", "role": "*lib.Role", "RoleStub": "*lib.RoleStub", "symmetry_segment": "*lib.Segment",
	"symmetric_value": "*lib.SymmetricValue", "model_value": "*lib.ModelValue", "Channel": "*lib.Channel",
	"int": "starlark.Int", "float": "starlark.Float", "bool": "starlark.Bool", "string": "starlark.String", "bytes": "starlark.Bytes",
	"NoneType": "starlark.NoneType", "symmetry_domain": "*lib.SymmetryDomain", "symmetric_values": "*lib.SymmetricValues",
	"function": "*starlark.Function", "range": "starlark.rangeValue",
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// kindCut cuts the branches that a value of kind K (flowing through subject) does not take: comparisons of its Type()
// with another kind, and type assertions to another Go type. Only tests on `subject` (a function's parameter, possibly
// passed on) are considered.
func (w *World) kindCut(subject func(ssa.Value) bool, kind string) func(Edge) bool {
	return func(e Edge) bool {
		switch x := e.Cond.(type) {
		case *ssa.BinOp:
			op := x.Op.String()
			if op != "==" && op != "!=" {
				return false
			}
			for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				c, ok := p[1].(*ssa.Const)
				if !ok || c.Value == nil || c.Value.Kind() != constant.String {
					continue
				}
				call, ok := p[0].(*ssa.Call)
				if !ok || !call.Call.IsInvoke() || call.Call.Method.Name() != "Type" || !subject(call.Call.Value) {
					continue
				}
				is := constant.StringVal(c.Value) == kind
				holds := is == (op == "==")
				return holds != e.Taken
			}
		case *ssa.Extract:
			ta, ok := x.Tuple.(*ssa.TypeAssert)
			if !ok || x.Index != 1 || !subject(ta.X) {
				return false
			}
			if types.IsInterface(ta.AssertedType) {
				return false
			}
			is := shortType(ta.AssertedType) == kindGo[kind]
			return is != e.Taken
		}
		return false
	}
}

// subjectParam: is v the parameter p of fn, or a copy of it handed to a helper as the same kind of value?
func (w *World) subjectOf(p *ssa.Parameter) func(ssa.Value) bool {
	var is func(v ssa.Value, d int) bool
	is = func(v ssa.Value, d int) bool {
		if d > 6 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Parameter:
			if x == p {
				return true
			}
			fn := x.Parent()
			if fn == p.Parent() {
				return false
			}
			for i, q := range fn.Params {
				if q != x {
					continue
				}
				cs := w.callers[fn]
				if len(cs) == 0 {
					return false
				}
				for _, c := range cs {
					a := callArgs(c)
					if i >= len(a) || !is(a[i], d+1) {
						return false
					}
				}
				return true
			}
		case *ssa.MakeInterface:
			return is(x.X, d+1)
		case *ssa.ChangeInterface:
			return is(x.X, d+1)
		case *ssa.TypeAssert:
			return is(x.X, d+1)
		case *ssa.Extract:
			if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
				return is(ta.X, d+1)
			}
		}
		return false
	}
	return func(v ssa.Value) bool { return is(v, 0) }
}

// kindsTested lists the kind names compared against Type() of any value in fn.
func (w *World) kindsTested(fn *ssa.Function) map[string]bool {
	out := map[string]bool{}
	deepInstrs(fn, func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.BinOp:
			for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				if c, ok := p[1].(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
					if call, ok := p[0].(*ssa.Call); ok && call.Call.IsInvoke() && call.Call.Method.Name() == "Type" {
						out[constant.StringVal(c.Value)] = true
					}
				}
			}
		case *ssa.TypeAssert:
			s := shortType(x.AssertedType)
			for k, g := range kindGo {
				if g == s {
					out[k] = true
				}
			}
		}
	})
	return out
}

// moduleKinds: kind names of the value types this module defines: constants returned by Type() string methods.
func (w *World) moduleKinds() map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	for _, f := range w.Funcs {
		if f.Name() != "Type" || f.Signature.Recv() == nil || f.Signature.Results().Len() != 1 {
			continue
		}
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if c, ok := r.Results[0].(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
					out[constant.StringVal(c.Value)] = f
				}
			}
		}
	}
	return out
}

// errorReturn: the return's last result is an error that is not the nil constant and cannot be nil here (the other
// results are zero).
func errorReturn(r *ssa.Return) bool {
	if len(r.Results) < 2 {
		return false
	}
	last := retVal(r, len(r.Results)-1)
	if last.Type().String() != "error" {
		return false
	}
	if isNilConst(last) {
		return false
	}
	return isNilConst(retVal(r, 0)) || strings.HasPrefix(calleeOf(last), "fmt.Errorf")
}

// retVal: the i-th result; in a function with defers, the value stored to the result cell just before.
func retVal(r *ssa.Return, i int) ssa.Value {
	if u, ok := r.Results[i].(*ssa.UnOp); ok {
		if al, ok := u.X.(*ssa.Alloc); ok {
			if st := lastStoreBefore(u, al); st != nil {
				return st.Val
			}
		}
	}
	return r.Results[i]
}

func calleeOf(v ssa.Value) string {
	if c, ok := v.(*ssa.Call); ok {
		return calleeName(c)
	}
	return ""
}
