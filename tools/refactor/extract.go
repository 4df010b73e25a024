package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"strconv"
	"strings"
)

// extract moves runs of statements into new functions; withRet: also runs that
// return errors.
func extract(f *ast.File, withRet, method bool) {
	maxLen := 5
	if n, err := strconv.Atoi(os.Getenv("XLEN")); err == nil {
		maxLen = n
	}
	var add []ast.Decl
	q := func(good *bool) types.Qualifier {
		return func(p *types.Package) string {
			if p == pkg {
				return ""
			}
			for _, im := range f.Imports {
				if strings.Trim(im.Path.Value, "\"") == p.Path() && im.Name == nil {
					return p.Name()
				}
			}
			*good = false
			return p.Name()
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil || fd.Type.TypeParams != nil {
			continue
		}
		loops := 0
		var walk func(n ast.Node)
		do := func(list []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for i := 0; i < len(list); {
				n := maxLen
				if i+n > len(list) {
					n = len(list) - i
				}
				var rep []ast.Stmt
				for ; n >= 2; n-- {
					if n == len(list) && loops == 0 && sameList(list, fd.Body.List) {
						continue
					}
					if dcl, r := xtrRun(fd, list[i:i+n], withRet, method, q); dcl != nil {
						if !pick() {
							break
						}
						add = append(add, dcl)
						rep = r
						break
					}
				}
				if rep == nil {
					out = append(out, list[i])
					i++
					continue
				}
				out = append(out, rep...)
				i += n
			}
			return out
		}
		walk = func(n ast.Node) {
			ast.Inspect(n, func(x ast.Node) bool {
				switch y := x.(type) {
				case *ast.FuncLit:
					return false
				case *ast.BlockStmt:
					y.List = do(y.List)
				case *ast.CaseClause:
					y.Body = do(y.Body)
				}
				return true
			})
		}
		walk(fd.Body)
	}
	f.Decls = append(f.Decls, add...)
}

func sameList(a, b []ast.Stmt) bool { return len(a) == len(b) && len(a) > 0 && a[0] == b[0] }

func zeroLit(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return x.Name == "nil" || x.Name == "false"
	case *ast.BasicLit:
		return x.Value == "0" || x.Value == `""`
	}
	return false
}

func xtrRun(fd *ast.FuncDecl, run []ast.Stmt, withRet, method bool, qf func(*bool) types.Qualifier) (*ast.FuncDecl, []ast.Stmt) {
	start, end := run[0].Pos(), run[len(run)-1].End()
	if !start.IsValid() || !end.IsValid() {
		return nil, nil
	}
	good := true
	qual := qf(&good)
	sig, _ := info.Defs[fd.Name].Type().(*types.Signature)
	bad := false
	var rets []*ast.ReturnStmt
	type vinfo struct {
		v        *types.Var
		inside   bool
		assigned bool
	}
	vars := map[*types.Var]*vinfo{}
	var order []*vinfo
	note := func(id *ast.Ident) *vinfo {
		o := info.Uses[id]
		if o == nil {
			o = info.Defs[id]
		}
		v, ok := o.(*types.Var)
		if !ok || v.IsField() || v.Parent() == nil || v.Parent() == pkg.Scope() || v.Pkg() != pkg {
			return nil
		}
		if id.Name == "_" {
			return nil
		}
		vi := vars[v]
		if vi == nil {
			vi = &vinfo{v: v, inside: v.Pos() >= start && v.Pos() < end}
			vars[v] = vi
			order = append(order, vi)
		}
		return vi
	}
	asg := func(e ast.Expr) {
		switch x := e.(type) {
		case *ast.Ident:
			if vi := note(x); vi != nil {
				vi.assigned = true
			}
		case *ast.SelectorExpr, *ast.IndexExpr:
			// storing into a local struct or array value
			for {
				switch y := e.(type) {
				case *ast.SelectorExpr:
					e = y.X
					continue
				case *ast.IndexExpr:
					e = y.X
					continue
				}
				break
			}
			if x, ok := e.(*ast.Ident); ok {
				if vi := note(x); vi != nil {
					switch vi.v.Type().Underlying().(type) {
					case *types.Struct, *types.Array:
						vi.assigned = true
					}
				}
			}
		}
	}
	var visit func(n ast.Node, loop bool)
	visit = func(n ast.Node, loop bool) {
		ast.Inspect(n, func(x ast.Node) bool {
			switch y := x.(type) {
			case *ast.FuncLit, *ast.DeferStmt, *ast.LabeledStmt, *ast.GoStmt, *ast.SelectStmt:
				bad = true
				return false
			case *ast.ReturnStmt:
				rets = append(rets, y)
			case *ast.BranchStmt:
				if y.Label != nil || y.Tok == token.GOTO || y.Tok == token.FALLTHROUGH || !loop {
					bad = true
				}
			case *ast.ForStmt:
				if !loop {
					visit2(y, func(z ast.Node) { visit(z, true) })
					return false
				}
			case *ast.RangeStmt:
				if y.Key != nil && y.Tok == token.ASSIGN {
					bad = true
				}
				if !loop {
					visit(y.X, true)
					if y.Key != nil {
						visit(y.Key, true)
					}
					if y.Value != nil {
						visit(y.Value, true)
					}
					visit(y.Body, true)
					return false
				}
			case *ast.UnaryExpr:
				if y.Op == token.AND {
					e := y.X
					for {
						if s, ok := e.(*ast.SelectorExpr); ok {
							e = s.X
							continue
						}
						break
					}
					if i, ok := e.(*ast.Ident); ok {
						if vi := note(i); vi != nil && !vi.inside {
							if _, isPtr := vi.v.Type().Underlying().(*types.Pointer); !isPtr {
								bad = true
							}
						}
					}
				}
			case *ast.SliceExpr:
				if i, ok := y.X.(*ast.Ident); ok {
					if vi := note(i); vi != nil && !vi.inside {
						if _, isA := vi.v.Type().Underlying().(*types.Array); isA {
							bad = true
						}
					}
				}
			case *ast.SelectorExpr:
				// implicit address of a local value
				if s := info.Selections[y]; s != nil && s.Kind() == types.MethodVal {
					if i, ok := y.X.(*ast.Ident); ok {
						if vi := note(i); vi != nil && !vi.inside {
							rt := s.Obj().Type().(*types.Signature).Recv().Type()
							_, rp := rt.(*types.Pointer)
							_, vp := vi.v.Type().Underlying().(*types.Pointer)
							if rp && !vp {
								bad = true
							}
						}
					}
				}
			case *ast.AssignStmt:
				for _, e := range y.Lhs {
					asg(e)
				}
			case *ast.IncDecStmt:
				asg(y.X)
			case *ast.Ident:
				if strings.HasPrefix(y.Name, "xtr") {
					bad = true
				}
				note(y)
			}
			return true
		})
	}
	for _, s := range run {
		if !s.Pos().IsValid() || s.Pos() < start || s.Pos() > end {
			return nil, nil
		}
		visit(s, false)
	}
	if bad || len(rets) > 0 && !withRet || len(rets) == 0 && withRet {
		return nil, nil
	}
	// identifiers of package-level names hidden by parameters are no problem:
	// parameters keep their names and the body is unchanged
	usedAfter := map[*types.Var]bool{}
	ast.Inspect(fd.Body, func(x ast.Node) bool {
		if i, ok := x.(*ast.Ident); ok && (i.Pos() >= end || i.Pos() < start) {
			if v, ok := info.Uses[i].(*types.Var); ok {
				usedAfter[v] = true
			}
		}
		return true
	})
	var ins, outs []*vinfo
	for _, vi := range order {
		if !vi.inside {
			ins = append(ins, vi)
			if vi.assigned {
				outs = append(outs, vi)
			}
		} else if usedAfter[vi.v] {
			outs = append(outs, vi)
		}
	}
	if len(ins) > 9 || len(outs) > 4 {
		return nil, nil
	}
	var zeros []ast.Expr
	if withRet {
		n := sig.Results().Len()
		if n == 0 || !isErr(sig.Results().At(n-1).Type()) {
			return nil, nil
		}
		for k, r := range rets {
			if len(r.Results) != n {
				return nil, nil
			}
			for _, e := range r.Results[:n-1] {
				if !zeroLit(e) {
					return nil, nil
				}
			}
			if k == 0 {
				zeros = r.Results[:n-1]
			}
			if !nonNilErr(r, run) {
				return nil, nil
			}
		}
		// the run must not end with a return
		if _, ok := run[len(run)-1].(*ast.ReturnStmt); ok {
			return nil, nil
		}
	}
	name := fresh("xtr")
	params := &ast.FieldList{}
	var args []ast.Expr
	var recv *ast.FieldList
	var fun ast.Expr = id(name)
	for _, vi := range ins {
		t := ts(vi.v.Type(), qual)
		fl := &ast.Field{Names: []*ast.Ident{id(vi.v.Name())}, Type: id(t)}
		if method && sig.Recv() == vi.v {
			recv = &ast.FieldList{List: []*ast.Field{fl}}
			fun = &ast.SelectorExpr{X: id(vi.v.Name()), Sel: id(name)}
			continue
		}
		if vi.v.Type().String() == "invalid type" {
			return nil, nil
		}
		if fd.Type.Params != nil && len(fd.Type.Params.List) > 0 {
			if last := fd.Type.Params.List[len(fd.Type.Params.List)-1]; len(last.Names) > 0 {
				_ = last
			}
		}
		params.List = append(params.List, fl)
		args = append(args, id(vi.v.Name()))
	}
	res := &ast.FieldList{}
	var vals, lhs []ast.Expr
	var pre []ast.Stmt
	allNew := len(outs) > 0
	for _, vi := range outs {
		t := ts(vi.v.Type(), qual)
		res.List = append(res.List, &ast.Field{Type: id(t)})
		vals = append(vals, id(vi.v.Name()))
		lhs = append(lhs, id(vi.v.Name()))
		if !vi.inside {
			allNew = false
		}
	}
	xerr := fresh("xerr")
	if withRet {
		res.List = append(res.List, &ast.Field{Type: id("error")})
		vals = append(vals, id("nil"))
		lhs = append(lhs, id(xerr))
		all := true
		for _, vi := range outs {
			if !vi.inside {
				all = false
			}
		}
		allNew = all
		for range rets {
			var rs []ast.Expr
			for _, vi := range outs {
				if !vi.inside {
					rs = append(rs, id(vi.v.Name()))
					continue
				}
				z := ""
				switch u := vi.v.Type().Underlying().(type) {
				case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Chan, *types.Signature:
					z = "nil"
				case *types.Basic:
					switch {
					case u.Info()&types.IsString != 0:
						z = `""`
					case u.Info()&types.IsBoolean != 0:
						z = "false"
					default:
						z = "0"
					}
				default:
					z = ts(vi.v.Type(), qual) + "{}"
				}
				rs = append(rs, id(z))
			}
			if !good {
				return nil, nil
			}
			_ = rs
		}
	}
	if !good {
		return nil, nil
	}
	if withRet {
		for _, r := range rets {
			var rs []ast.Expr
			for _, vi := range outs {
				if !vi.inside {
					rs = append(rs, id(vi.v.Name()))
					continue
				}
				rs = append(rs, id(zeroText(vi.v.Type(), qual)))
			}
			r.Results = append(rs, r.Results[len(r.Results)-1])
		}
	}
	body := &ast.BlockStmt{List: append([]ast.Stmt(nil), run...)}
	if len(vals) > 0 {
		body.List = append(body.List, &ast.ReturnStmt{Results: vals})
	}
	dcl := &ast.FuncDecl{Recv: recv, Name: id(name), Type: &ast.FuncType{Params: params}, Body: body}
	if len(res.List) > 0 {
		dcl.Type.Results = res
	}
	call := &ast.CallExpr{Fun: fun, Args: args}
	var rep []ast.Stmt
	rep = append(rep, pre...)
	switch {
	case len(lhs) == 0:
		rep = append(rep, &ast.ExprStmt{X: call})
	case allNew:
		rep = append(rep, &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{call}})
	default:
		for _, vi := range outs {
			if vi.inside {
				rep = append(rep, varDecl(vi.v.Name(), ts(vi.v.Type(), qual)))
			}
		}
		if withRet {
			rep = append(rep, varDecl(xerr, "error"))
		}
		rep = append(rep, &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{call}})
	}
	if withRet {
		rep = append(rep, &ast.IfStmt{Cond: &ast.BinaryExpr{X: id(xerr), Op: token.NEQ, Y: id("nil")},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: append(append([]ast.Expr(nil), zeros...), id(xerr))}}}})
	}
	return dcl, rep
}

func zeroText(t types.Type, q types.Qualifier) string {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Chan, *types.Signature:
		return "nil"
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return `""`
		case u.Info()&types.IsBoolean != 0:
			return "false"
		}
		return "0"
	}
	return ts(t, q) + "{}"
}

func varDecl(n, t string) ast.Stmt {
	return &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(n)}, Type: id(t)}}}}
}

func isErr(t types.Type) bool { return t.String() == "error" }

// visit2 visits the parts of a for statement.
func visit2(f *ast.ForStmt, g func(ast.Node)) {
	if f.Init != nil {
		g(f.Init)
	}
	if f.Cond != nil {
		g(f.Cond)
	}
	if f.Post != nil {
		g(f.Post)
	}
	g(f.Body)
}

// nonNilErr: the returned error cannot be nil.
func nonNilErr(r *ast.ReturnStmt, run []ast.Stmt) bool {
	e := r.Results[len(r.Results)-1]
	switch x := e.(type) {
	case *ast.CallExpr:
		n := ""
		switch y := x.Fun.(type) {
		case *ast.SelectorExpr:
			n = y.Sel.Name
		case *ast.Ident:
			n = y.Name
		}
		if n == "Errorf" || n == "New" {
			return true
		}
		if n == "Error" && len(x.Args) == 1 {
			if i, ok := x.Args[0].(*ast.Ident); ok {
				return i.Name != "err" || underErr(r, run, i.Name)
			}
			return true
		}
		return n == "Error"
	case *ast.SelectorExpr:
		return strings.HasPrefix(x.Sel.Name, "Err")
	case *ast.Ident:
		if strings.HasPrefix(x.Name, "Err") {
			return true
		}
		return underErr(r, run, x.Name)
	}
	return false
}

func underErr(r *ast.ReturnStmt, run []ast.Stmt, name string) bool {
	found := false
	for _, s := range run {
		ast.Inspect(s, func(n ast.Node) bool {
			if i, ok := n.(*ast.IfStmt); ok && i.Body.Pos() <= r.Pos() && r.End() <= i.Body.End() {
				if b, ok := i.Cond.(*ast.BinaryExpr); ok && b.Op == token.NEQ && isIdent(b.X, name) && isIdent(b.Y, "nil") {
					found = true
				}
			}
			return true
		})
	}
	return found
}
