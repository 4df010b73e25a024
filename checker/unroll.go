package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"reflect"
)

// Unrolling: a loop over a table that is written down as a literal does what
// its body, written out for each entry, does.

type table struct {
	lit  *ast.CompositeLit
	decl ast.Stmt // declares the only use
}

// tableOf: the literal that a range statement goes over.
func (in *inliner) tableOf(r *ast.RangeStmt, body ast.Node) *table {
	switch x := ast.Unparen(r.X).(type) {
	case *ast.CompositeLit:
		return &table{lit: x}
	case *ast.Ident:
		v, _ := in.info.Uses[x].(*types.Var)
		if v == nil || v.Parent() == in.p.Types.Scope() || v.IsField() {
			return nil
		}
		n := 0
		var t *table
		ast.Inspect(body, func(m ast.Node) bool {
			switch y := m.(type) {
			case *ast.Ident:
				if in.info.Uses[y] == v {
					n++
				}
			case *ast.AssignStmt:
				if y.Tok == token.DEFINE && len(y.Lhs) == 1 && len(y.Rhs) == 1 {
					if id, ok := y.Lhs[0].(*ast.Ident); ok && in.info.Defs[id] == v {
						if l, ok := ast.Unparen(y.Rhs[0]).(*ast.CompositeLit); ok {
							t = &table{lit: l, decl: y}
						}
					}
				}
			case *ast.DeclStmt:
				if g, ok := y.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR && len(g.Specs) == 1 {
					s := g.Specs[0].(*ast.ValueSpec)
					if len(s.Names) == 1 && len(s.Values) == 1 && in.info.Defs[s.Names[0]] == v {
						if l, ok := ast.Unparen(s.Values[0]).(*ast.CompositeLit); ok {
							t = &table{lit: l, decl: y}
						}
					}
				}
			}
			return true
		})
		if n == 1 {
			return t
		}
	}
	return nil
}

// fixed: an expression that can be written where its value is used.
func (in *inliner) fixed(e ast.Expr, assigned map[string]bool) bool {
	switch x := ast.Unparen(e).(type) {
	case *ast.BasicLit:
		return true
	case *ast.Ident:
		switch in.info.Uses[x].(type) {
		case *types.Const, *types.Nil, *types.Func, *types.PkgName:
			return true
		case *types.Var:
			return !assigned[x.Name]
		}
		return false
	case *ast.SelectorExpr:
		if tv, ok := in.info.Types[x]; ok && tv.Value != nil {
			return true
		}
		if id, ok := x.X.(*ast.Ident); ok {
			if _, ok := in.info.Uses[id].(*types.PkgName); ok {
				return true
			}
		}
		// a field that the body does not assign
		if sel := in.info.Selections[x]; sel != nil && sel.Kind() == types.FieldVal {
			return in.fixed(x.X, assigned)
		}
		return false
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			return in.place(x.X, assigned)
		}
		return x.Op != token.ARROW && in.fixed(x.X, assigned)
	case *ast.BinaryExpr:
		return in.fixed(x.X, assigned) && in.fixed(x.Y, assigned)
	}
	return false
}

// place: a variable or a field of one whose address does not change.
func (in *inliner) place(e ast.Expr, assigned map[string]bool) bool {
	switch x := ast.Unparen(e).(type) {
	case *ast.Ident:
		_, ok := in.info.Uses[x].(*types.Var)
		return ok
	case *ast.SelectorExpr:
		if t := in.info.TypeOf(x.X); t != nil {
			if _, ok := t.Underlying().(*types.Pointer); ok && assigned[rootName(x.X)] {
				return false
			}
		}
		return in.place(x.X, assigned)
	}
	return false
}

func rootName(e ast.Expr) string {
	switch x := ast.Unparen(e).(type) {
	case *ast.Ident:
		return x.Name
	case *ast.SelectorExpr:
		return rootName(x.X)
	}
	return ""
}

// outerJump: a jump that leaves or repeats the loop.
func outerJump(n ast.Node, loop, brk bool) bool {
	r := false
	ast.Inspect(n, func(m ast.Node) bool {
		if r || m == nil {
			return false
		}
		switch x := m.(type) {
		case *ast.FuncLit:
			return false
		case *ast.LabeledStmt:
			r = true
		case *ast.BranchStmt:
			if x.Label != nil || x.Tok == token.GOTO || x.Tok == token.CONTINUE && !loop || x.Tok == token.BREAK && !brk {
				r = true
			}
		case *ast.ForStmt:
			if m != n {
				r = r || outerJump(x.Body, true, true)
				return false
			}
		case *ast.RangeStmt:
			if m != n {
				r = r || outerJump(x.Body, true, true)
				return false
			}
		case *ast.SwitchStmt:
			r = r || outerJump(x.Body, loop, true)
			return false
		case *ast.TypeSwitchStmt:
			r = r || outerJump(x.Body, loop, true)
			return false
		case *ast.SelectStmt:
			r = r || outerJump(x.Body, loop, true)
			return false
		}
		return !r
	})
	return r
}

// unroll writes out the loops over tables in a function.
func (in *inliner) unroll(fd *ast.FuncDecl) {
	drop := map[ast.Stmt]bool{}
	var list func(l []ast.Stmt) []ast.Stmt
	list = func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			if r, ok := s.(*ast.RangeStmt); ok {
				if rep, d := in.unrolled(r, fd); rep != nil {
					out = append(out, rep...)
					if d != nil {
						drop[d] = true
					}
					in.did++
					continue
				}
			}
			out = append(out, s)
		}
		return out
	}
	each := func(f func([]ast.Stmt) []ast.Stmt) {
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				x.List = f(x.List)
			case *ast.CaseClause:
				x.Body = f(x.Body)
			case *ast.CommClause:
				x.Body = f(x.Body)
			}
			return true
		})
	}
	each(list)
	if len(drop) > 0 {
		each(func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range l {
				if !drop[s] {
					out = append(out, s)
				}
			}
			return out
		})
	}
}

func (in *inliner) hasTable(b *ast.BlockStmt) bool {
	r := false
	ast.Inspect(b, func(n ast.Node) bool {
		if x, ok := n.(*ast.RangeStmt); ok && in.tableOf(x, b) != nil {
			r = true
		}
		return !r
	})
	return r
}

func (in *inliner) unrolled(r *ast.RangeStmt, fd *ast.FuncDecl) ([]ast.Stmt, ast.Stmt) {
	t := in.tableOf(r, fd.Body)
	if t == nil || outerJump(r.Body, false, false) || len(t.lit.Elts)*size(r.Body) > 6000 {
		return nil, nil
	}
	if r.Tok != token.DEFINE && (r.Key != nil || r.Value != nil) {
		return nil, nil
	}
	typ := in.info.TypeOf(t.lit)
	if typ == nil {
		return nil, nil
	}
	_, isMap := typ.Underlying().(*types.Map)
	assigned := assignedNames(r.Body)
	if t.decl != nil {
		// between the declaration and the loop too
		def := map[string]bool{}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			if x, ok := n.(*ast.AssignStmt); ok && x.Tok == token.DEFINE {
				for _, l := range x.Lhs {
					if id, ok := l.(*ast.Ident); ok && in.info.Defs[id] != nil {
						def[id.Name] = true
					}
				}
			}
			return true
		})
		for k := range assignedNames(fd.Body) {
			if n := countAssign(fd.Body, k); n > 1 || n == 1 && !def[k] {
				assigned[k] = true
			}
		}
	}
	inner := map[string]bool{}
	ast.Inspect(r.Body, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && in.info.Defs[id] != nil {
			inner[id.Name] = true
		}
		return true
	})
	var out []ast.Stmt
	for i, el := range t.lit.Elts {
		var key, val ast.Expr
		if kv, ok := el.(*ast.KeyValueExpr); ok {
			if !isMap {
				return nil, nil
			}
			key, val = kv.Key, kv.Value
		} else {
			val = el
			key = &ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(i)}
		}
		body := in.clone(r.Body).(*ast.BlockStmt)
		for _, b := range []struct {
			v ast.Expr
			e ast.Expr
		}{{r.Key, key}, {r.Value, val}} {
			id, _ := b.v.(*ast.Ident)
			if b.v == nil || id != nil && id.Name == "_" {
				continue
			}
			if id == nil || !in.subst(body, id, b.e, assigned) {
				return nil, nil
			}
		}
		ast.Inspect(body, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok && inner[id.Name] && id.Name != "_" {
				id.Name = fmt.Sprintf("%su%d", id.Name, i)
			}
			return true
		})
		out = append(out, body)
	}
	if out == nil {
		out = []ast.Stmt{&ast.EmptyStmt{}}
	}
	return out, t.decl
}

func countAssign(n ast.Node, name string) int {
	c := 0
	cnt := func(e ast.Expr) {
		if id, ok := ast.Unparen(e).(*ast.Ident); ok && id.Name == name {
			c++
		}
	}
	ast.Inspect(n, func(m ast.Node) bool {
		switch x := m.(type) {
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				cnt(l)
			}
		case *ast.IncDecStmt:
			cnt(x.X)
		case *ast.RangeStmt:
			if x.Key != nil {
				cnt(x.Key)
			}
			if x.Value != nil {
				cnt(x.Value)
			}
		}
		return true
	})
	return c
}

// subst replaces the loop variable, or its fields, by the table's entry.
func (in *inliner) subst(body *ast.BlockStmt, id *ast.Ident, e ast.Expr, assigned map[string]bool) bool {
	v := in.info.Defs[id]
	if v == nil || countAssign(body, id.Name) > 0 {
		return false
	}
	is := func(x ast.Expr) bool {
		y, ok := x.(*ast.Ident)
		return ok && y.Name == id.Name && in.info.Uses[y] == v
	}
	var fields map[string]ast.Expr
	if cl, ok := ast.Unparen(e).(*ast.CompositeLit); ok {
		st, _ := v.Type().Underlying().(*types.Struct)
		if st == nil {
			return false
		}
		fields = map[string]ast.Expr{}
		for i, el := range cl.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				fields[kv.Key.(*ast.Ident).Name] = kv.Value
			} else {
				fields[st.Field(i).Name()] = el
			}
		}
		for _, f := range fields {
			if !in.fixed(f, assigned) {
				return false
			}
		}
	} else if !in.fixed(e, assigned) {
		return false
	}
	ok := true
	ast.Inspect(body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.UnaryExpr:
			if x.Op == token.AND && rootName(x.X) == id.Name {
				ok = false
			}
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				if rootName(l) == id.Name {
					ok = false
				}
			}
		}
		return ok
	})
	if !ok {
		return false
	}
	wrap := func(f ast.Expr) ast.Expr { return &ast.ParenExpr{X: in.clone(f).(ast.Expr)} }
	mapExprs(body, func(x ast.Expr) ast.Expr {
		if s, isS := x.(*ast.SelectorExpr); isS && fields != nil && is(s.X) {
			f := fields[s.Sel.Name]
			if f == nil {
				ok = false
				return x
			}
			return wrap(f)
		}
		if fields == nil && is(x) {
			return wrap(e)
		}
		if s, isS := x.(*ast.StarExpr); isS {
			if u, isU := ast.Unparen(s.X).(*ast.UnaryExpr); isU && u.Op == token.AND {
				return u.X
			}
		}
		return x
	})
	ast.Inspect(body, func(n ast.Node) bool {
		if y, isID := n.(*ast.Ident); isID && is(y) {
			ok = false
		}
		return ok
	})
	return ok
}

// mapExprs rewrites the expressions under a node, outermost last.
func mapExprs(root ast.Node, f func(ast.Expr) ast.Expr) {
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface:
			if v.IsNil() {
				return
			}
			walk(v.Elem())
			if e, ok := v.Interface().(ast.Expr); ok && v.CanSet() {
				if n := f(e); n != e {
					v.Set(reflect.ValueOf(n))
				}
			}
		case reflect.Ptr:
			if v.IsNil() || v.Type() == tObject || v.Type() == tScope || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			walk(v.Elem())
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		}
	}
	walk(reflect.ValueOf(root))
}
