package main

import (
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

// countLoops writes the loops over a number as counting loops (for i, n := 0, x; i < n; i++), so that the SSA form has
// one shape for both.
func countLoops(p *packages.Package) {
	info := p.TypesInfo
	for _, f := range p.Syntax {
		astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
			rs, ok := c.Node().(*ast.RangeStmt)
			if !ok || rs.Value != nil || rs.Key != nil && rs.Tok != token.DEFINE {
				return true
			}
			tv := info.Types[rs.X]
			bt, ok := tv.Type.Underlying().(*types.Basic)
			if !ok || bt.Info()&types.IsInteger == 0 {
				return true
			}
			pos := rs.For
			typ := tv.Type
			if bt.Info()&types.IsUntyped != 0 {
				typ = types.Typ[types.Int]
			}
			def := func(name string) (*ast.Ident, *types.Var) {
				id := &ast.Ident{Name: name, NamePos: pos}
				v := types.NewVar(pos, p.Types, name, typ)
				info.Defs[id] = v
				return id, v
			}
			use := func(v *types.Var) *ast.Ident {
				id := &ast.Ident{Name: v.Name(), NamePos: pos}
				info.Uses[id] = v
				info.Types[id] = types.TypeAndValue{Type: v.Type()}
				return id
			}
			key, _ := rs.Key.(*ast.Ident)
			var iv *types.Var
			if key != nil {
				iv, _ = info.Defs[key].(*types.Var)
			}
			if iv == nil {
				key, iv = def("i")
			} else {
				typ = iv.Type()
			}
			zero := &ast.BasicLit{ValuePos: pos, Kind: token.INT, Value: "0"}
			info.Types[zero] = types.TypeAndValue{Type: typ, Value: constant.MakeInt64(0)}
			init := &ast.AssignStmt{Lhs: []ast.Expr{key}, TokPos: pos, Tok: token.DEFINE, Rhs: []ast.Expr{zero}}
			bound := rs.X
			if tv.Value == nil {
				id, nv := def("n")
				init.Lhs, init.Rhs = append(init.Lhs, id), append(init.Rhs, rs.X)
				bound = use(nv)
			} else {
				info.Types[rs.X] = types.TypeAndValue{Type: typ, Value: tv.Value}
			}
			cond := &ast.BinaryExpr{X: use(iv), OpPos: pos, Op: token.LSS, Y: bound}
			info.Types[cond] = types.TypeAndValue{Type: types.Typ[types.Bool]}
			c.Replace(&ast.ForStmt{For: pos, Init: init, Cond: cond, Post: &ast.IncDecStmt{X: use(iv), TokPos: pos, Tok: token.INC}, Body: rs.Body})
			return true
		})
	}
}

// ownIndex: a counter that a closure in the body captures, and that only the loop itself changes, is counted by a
// variable of its own; the closures see a copy of it that is made in each round (as they do in the source).
func ownIndex(p *packages.Package) {
	info := p.TypesInfo
	for _, f := range p.Syntax {
		ast.Inspect(f, func(n ast.Node) bool {
			fs, ok := n.(*ast.ForStmt)
			if !ok {
				return true
			}
			init, ok := fs.Init.(*ast.AssignStmt)
			if !ok || init.Tok != token.DEFINE {
				return true
			}
			for _, lhs := range init.Lhs {
				id, ok := lhs.(*ast.Ident)
				if !ok {
					continue
				}
				iv, ok := info.Defs[id].(*types.Var)
				if !ok {
					continue
				}
				isIt := func(e ast.Expr) bool {
					x, ok := ast.Unparen(e).(*ast.Ident)
					return ok && info.Uses[x] == types.Object(iv)
				}
				changed, captured := false, false
				var plain []*ast.Ident // uses outside closures
				var walk func(n ast.Node, closure, body bool)
				walk = func(n ast.Node, closure, body bool) {
					ast.Inspect(n, func(m ast.Node) bool {
						switch y := m.(type) {
						case *ast.FuncLit:
							if !closure {
								walk(y.Body, true, body)
								return false
							}
						case *ast.AssignStmt:
							for _, l := range y.Lhs {
								changed = changed || body && isIt(l)
							}
						case *ast.IncDecStmt:
							changed = changed || body && isIt(y.X)
						case *ast.RangeStmt:
							changed = changed || y.Tok == token.ASSIGN && (y.Key != nil && isIt(y.Key) || y.Value != nil && isIt(y.Value))
						case *ast.UnaryExpr:
							changed = changed || y.Op == token.AND && isIt(y.X)
						case *ast.SelectorExpr:
							changed = changed || isIt(y.X)
						case *ast.Ident:
							if info.Uses[y] == types.Object(iv) {
								if closure {
									captured = true
									changed = changed || !body
								} else {
									plain = append(plain, y)
								}
							}
						}
						return true
					})
				}
				if fs.Cond != nil {
					walk(fs.Cond, false, false)
				}
				if fs.Post != nil {
					walk(fs.Post, false, false)
				}
				walk(fs.Body, false, true)
				if changed || !captured {
					continue
				}
				nv := types.NewVar(id.Pos(), p.Types, iv.Name(), iv.Type())
				info.Defs[id] = nv
				for _, u := range plain {
					info.Uses[u] = nv
				}
				cp := &ast.Ident{Name: iv.Name(), NamePos: id.Pos()}
				info.Defs[cp] = iv
				use := &ast.Ident{Name: iv.Name(), NamePos: id.Pos()}
				info.Uses[use] = nv
				info.Types[use] = types.TypeAndValue{Type: iv.Type()}
				fs.Body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{cp}, TokPos: id.Pos(), Tok: token.DEFINE, Rhs: []ast.Expr{use}}}, fs.Body.List...)
			}
			return true
		})
	}
}

// inlineConditions: a condition that gets a name right before the only branch on it is written in that branch.
func inlineConditions(p *packages.Package) {
	info := p.TypesInfo
	uses := map[types.Object]int{}
	for _, o := range info.Uses {
		uses[o]++
	}
	// leftmost: the place in the condition that is looked at first
	var leftmost func(e *ast.Expr) *ast.Expr
	leftmost = func(e *ast.Expr) *ast.Expr {
		switch y := (*e).(type) {
		case *ast.ParenExpr:
			return leftmost(&y.X)
		case *ast.UnaryExpr:
			if y.Op == token.NOT {
				return leftmost(&y.X)
			}
		case *ast.BinaryExpr:
			if y.Op == token.LAND || y.Op == token.LOR {
				return leftmost(&y.X)
			}
		}
		return e
	}
	named := func(s ast.Stmt, is *ast.IfStmt) bool {
		as, ok := s.(*ast.AssignStmt)
		if !ok || as.Tok != token.DEFINE || len(as.Lhs) != 1 || len(as.Rhs) != 1 {
			return false
		}
		id, ok := as.Lhs[0].(*ast.Ident)
		if !ok {
			return false
		}
		v, ok := info.Defs[id].(*types.Var)
		if !ok || uses[v] != 1 || !types.Identical(v.Type(), types.Typ[types.Bool]) {
			return false
		}
		if _, ok := ast.Unparen(as.Rhs[0]).(*ast.TypeAssertExpr); ok {
			return false
		}
		at := leftmost(&is.Cond)
		u, ok := (*at).(*ast.Ident)
		if !ok || info.Uses[u] != types.Object(v) {
			return false
		}
		*at = as.Rhs[0]
		return true
	}
	list := func(ss []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range ss {
			if is, ok := s.(*ast.IfStmt); ok {
				if is.Init == nil {
					for len(out) > 0 && named(out[len(out)-1], is) {
						out = out[:len(out)-1]
					}
				} else if named(is.Init, is) {
					is.Init = nil
				}
			}
			out = append(out, s)
		}
		return out
	}
	for _, f := range p.Syntax {
		ast.Inspect(f, func(n ast.Node) bool {
			switch y := n.(type) {
			case *ast.BlockStmt:
				y.List = list(y.List)
			case *ast.CaseClause:
				y.Body = list(y.Body)
			case *ast.CommClause:
				y.Body = list(y.Body)
			}
			return true
		})
	}
}
