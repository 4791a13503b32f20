package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the type-checked, SSA-converted current source of one Go module.
type World struct {
	sizes    map[*ssa.Function]int  // size of the part of the program below a function
	bound    binding                // what the parameters of shared helpers stand for in the function looked at
	flowFns  map[*ssa.Function]bool // the step functions of a thread (each is checked by itself)
	Repo     string
	Pkgs     []*packages.Package
	Prog     *ssa.Program
	SSAPkgs  []*ssa.Package
	Fset     *token.FileSet
	Funcs    []*ssa.Function // every function with a body that belongs to the module (incl. closures, methods, instances)
	inModule map[*ssa.Package]bool
	callers  map[*ssa.Function][]ssa.CallInstruction
	ifaceMem map[string][]*ssa.Function
	astDecl  map[*types.Func]*ast.FuncDecl
	infos    map[*types.Package]*packages.Package
}

type loadOpt struct {
	dir     string
	modfile string
	env     []string
}

// loadWorld loads all packages below dir. A load, parse or type error is returned: it makes every obligation undecided.
func loadWorld(o loadOpt) (*World, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  o.dir,
		Env:  o.env,
	}
	if o.modfile != "" {
		cfg.BuildFlags = []string{"-modfile=" + o.modfile}
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("source does not type-check: %s", strings.Join(errs[:min(len(errs), 5)], "; "))
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages in %s", o.dir)
	}
	for _, p := range pkgs {
		countLoops(p)
		ownIndex(p)
		inlineConditions(p)
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{Repo: o.dir, Pkgs: pkgs, Prog: prog, SSAPkgs: sp, Fset: pkgs[0].Fset,
		inModule: map[*ssa.Package]bool{}, callers: map[*ssa.Function][]ssa.CallInstruction{},
		ifaceMem: map[string][]*ssa.Function{}, astDecl: map[*types.Func]*ast.FuncDecl{}, infos: map[*types.Package]*packages.Package{}}
	for _, p := range sp {
		if p == nil {
			return nil, fmt.Errorf("a package could not be built")
		}
		w.inModule[p] = true
	}
	for _, p := range pkgs {
		w.infos[p.Types] = p
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					if o, ok := p.TypesInfo.Defs[fd.Name].(*types.Func); ok {
						w.astDecl[o] = fd
					}
				}
			}
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if w.owns(fn) && len(fn.Blocks) > 0 {
			w.Funcs = append(w.Funcs, fn)
		}
	}
	sort.Slice(w.Funcs, func(i, j int) bool { return w.Funcs[i].RelString(nil) < w.Funcs[j].RelString(nil) })
	for _, fn := range w.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, t := range w.callees(c) {
						w.callers[t] = append(w.callers[t], c)
					}
				}
			}
		}
	}
	return w, nil
}

// owns: does fn belong to the analysed module (including closures and generic instances)?
func (w *World) owns(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Synthetic != "" && fn.Origin() == nil && !strings.HasPrefix(fn.Synthetic, "package init") {
		// wrappers, thunks, bounds: not source
		return false
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	return fn.Pkg != nil && w.inModule[fn.Pkg]
}

// short name of a function: pkg.Func or pkg.(Type).Method; closures: parent$n
func fname(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if fn.Parent() != nil {
		return fname(fn.Parent()) + "$" + strings.TrimPrefix(fn.Name(), fn.Parent().Name()+"$")
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Name()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Name()
	}
	if r := fn.Signature.Recv(); r != nil {
		return pkg + "." + namedName(r.Type()) + "." + fn.Name()
	}
	return pkg + "." + fn.Name()
}

func namedName(t types.Type) string {
	for {
		switch x := t.(type) {
		case *types.Pointer:
			t = x.Elem()
			continue
		case *types.Alias:
			t = types.Unalias(t)
			continue
		case *types.Named:
			return x.Obj().Name()
		}
		return ""
	}
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// Func looks a function up by its short name ("modelchecker.Processor.processNode").
func (w *World) Func(name string) *ssa.Function {
	for _, f := range w.Funcs {
		if f.Parent() == nil && fname(f) == name {
			return f
		}
	}
	return nil
}

func (w *World) ssaPkg(name string) *ssa.Package {
	for _, p := range w.SSAPkgs {
		if p.Pkg.Name() == name && !strings.Contains(p.Pkg.Path(), "/pkg/") {
			return p
		}
	}
	return nil
}

// NamedType finds a named type ("modelchecker.Process").
func (w *World) NamedType(name string) *types.Named {
	i := strings.IndexByte(name, '.')
	p := w.ssaPkg(name[:i])
	if p == nil {
		return nil
	}
	if o, ok := p.Pkg.Scope().Lookup(name[i+1:]).(*types.TypeName); ok {
		if n, ok := o.Type().(*types.Named); ok {
			return n
		}
	}
	return nil
}

func (w *World) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := w.Fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(w.Repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (w *World) ipos(in ssa.Instruction) string {
	if in.Pos().IsValid() {
		return w.Pos(in.Pos())
	}
	// nearest position in block
	b := in.Block()
	if b != nil {
		for _, x := range b.Instrs {
			if x.Pos().IsValid() {
				return w.Pos(x.Pos())
			}
		}
		return w.Pos(b.Parent().Pos())
	}
	return "-"
}

// callees resolves the possible module-internal targets of a call: static callee, directly made closure,
// a function value bound once, or the module's implementations of an interface method.
func (w *World) callees(c ssa.CallInstruction) []*ssa.Function {
	cc := c.Common()
	if cc.IsInvoke() {
		return w.implementations(cc)
	}
	if f := cc.StaticCallee(); f != nil {
		if f.Synthetic != "" && f.Origin() == nil {
			// bound / wrapper: look through to the declared method
			if o, ok := f.Object().(*types.Func); ok {
				if g := w.Prog.FuncValue(o); g != nil {
					f = g
				}
			}
		}
		return []*ssa.Function{f}
	}
	var out []*ssa.Function
	for _, f := range w.funcValues(cc.Value, 0) {
		out = append(out, f)
	}
	return out
}

func (w *World) implementations(cc *ssa.CallCommon) []*ssa.Function {
	it, ok := cc.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	key := it.String() + "." + cc.Method.Name()
	if r, ok := w.ifaceMem[key]; ok {
		return r
	}
	var out []*ssa.Function
	for _, p := range w.SSAPkgs {
		for _, m := range p.Members {
			tn, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if !ok || types.IsInterface(n) {
				continue
			}
			if n.TypeParams().Len() > 0 {
				// generic: accept by method name
				for i := 0; i < n.NumMethods(); i++ {
					if n.Method(i).Name() == cc.Method.Name() && genericLooksLike(n, it) {
						if f := w.Prog.FuncValue(n.Method(i)); f != nil {
							out = append(out, f)
						}
					}
				}
				continue
			}
			for _, t := range []types.Type{n, types.NewPointer(n)} {
				if types.Implements(t, it) {
					if sel := types.NewMethodSet(t).Lookup(cc.Method.Pkg(), cc.Method.Name()); sel != nil {
						if f := w.Prog.FuncValue(sel.Obj().(*types.Func)); f != nil {
							out = append(out, f)
						}
					}
					break
				}
			}
		}
	}
	w.ifaceMem[key] = out
	return out
}

func genericLooksLike(n *types.Named, it *types.Interface) bool {
	have := map[string]bool{}
	for i := 0; i < n.NumMethods(); i++ {
		have[n.Method(i).Name()] = true
	}
	for i := 0; i < it.NumMethods(); i++ {
		if !have[it.Method(i).Name()] {
			return false
		}
	}
	return true
}

// funcValues resolves a function-typed value to the functions it may denote, when that is syntactically evident.
func (w *World) funcValues(v ssa.Value, d int) []*ssa.Function {
	if d > 6 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{x}
	case *ssa.MakeClosure:
		return w.funcValues(x.Fn, d+1)
	case *ssa.ChangeType:
		return w.funcValues(x.X, d+1)
	case *ssa.Phi:
		var out []*ssa.Function
		for _, e := range x.Edges {
			out = append(out, w.funcValues(e, d+1)...)
		}
		return out
	case *ssa.UnOp:
		if x.Op == token.MUL {
			// local cell: all stores
			if a, ok := x.X.(*ssa.Alloc); ok {
				var out []*ssa.Function
				for _, r := range *a.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == a {
						out = append(out, w.funcValues(s.Val, d+1)...)
					}
				}
				return out
			}
			if fv, ok := x.X.(*ssa.FreeVar); ok {
				return w.funcValues(w.freeVarBinding(fv), d+1)
			}
		}
	case *ssa.Alloc:
		var out []*ssa.Function
		for _, r := range *x.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == x {
				out = append(out, w.funcValues(s.Val, d+1)...)
			}
		}
		return out
	case *ssa.FreeVar:
		return w.funcValues(w.freeVarBinding(x), d+1)
	}
	return nil
}

func (w *World) freeVarBinding(fv *ssa.FreeVar) ssa.Value {
	fn := fv.Parent()
	idx := -1
	for i, f := range fn.FreeVars {
		if f == fv {
			idx = i
		}
	}
	if idx < 0 || fn.Parent() == nil {
		return nil
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
				return mc.Bindings[idx]
			}
		}
	}
	return nil
}

// calleeName: short name of the called function or interface method, for matching external and internal callees.
func calleeName(c ssa.CallInstruction) string {
	cc := c.Common()
	if cc.IsInvoke() {
		n := namedName(cc.Value.Type())
		pk := ""
		if nm, ok := types.Unalias(cc.Value.Type()).(*types.Named); ok && nm.Obj().Pkg() != nil {
			pk = nm.Obj().Pkg().Name() + "."
		}
		return pk + n + "." + cc.Method.Name()
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	if f := cc.StaticCallee(); f != nil {
		if f.Synthetic != "" {
			if o, ok := f.Object().(*types.Func); ok {
				return objName(o)
			}
		}
		if f.Parent() == nil && f.Origin() == nil {
			if o, ok := f.Object().(*types.Func); ok {
				return objName(o)
			}
		}
		return fname(f)
	}
	return "dynamic"
}

func objName(o *types.Func) string {
	pkg := ""
	if o.Pkg() != nil {
		pkg = o.Pkg().Name() + "."
	}
	if r := o.Type().(*types.Signature).Recv(); r != nil {
		return pkg + namedName(r.Type()) + "." + o.Name()
	}
	return pkg + o.Name()
}

// reachable returns the module functions reachable from roots (calls, closures created, function values taken).
func (w *World) reachable(roots ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 || !w.owns(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, t := range w.callees(c) {
						visit(t)
					}
				}
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					switch x := (*op).(type) {
					case *ssa.Function:
						visit(x)
					case *ssa.MakeClosure:
						visit(x.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	for _, r := range roots {
		visit(r)
	}
	return seen
}

func sortedFns(m map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	for f := range m {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return fname(out[i]) < fname(out[j]) })
	return out
}

// instrs iterates over all instructions of fn.
func instrs(fn *ssa.Function, f func(ssa.Instruction)) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			f(in)
		}
	}
}

// deepInstrs iterates over fn and the closures created in it.
func deepInstrs(fn *ssa.Function, f func(ssa.Instruction)) {
	instrs(fn, f)
	for _, a := range fn.AnonFuncs {
		deepInstrs(a, f)
	}
}

// calls lists call instructions in fn for which pred(calleeName) holds.
func calls(fn *ssa.Function, names ...string) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	instrs(fn, func(in ssa.Instruction) {
		if c, ok := in.(ssa.CallInstruction); ok {
			n := calleeName(c)
			for _, want := range names {
				if n == want {
					out = append(out, c)
				}
			}
		}
	})
	return out
}

// callSites lists every call in the module to the named function.
func (w *World) callSites(names ...string) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, f := range w.Funcs {
		out = append(out, calls(f, names...)...)
	}
	return out
}

func run(dir string, env []string, name string, args ...string) error {
	c := exec.Command(name, args...)
	c.Dir = dir
	if env != nil {
		c.Env = env
	}
	out, err := c.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%s %s: %v: %s", name, strings.Join(args, " "), err, string(out))
	}
	return nil
}

func exists(p string) bool { _, err := os.Stat(p); return err == nil }
