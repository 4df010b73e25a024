// Command refactor rewrites every function of a scratch copy of the module in
// a behaviour-preserving way. It is used to test that the checks stay quiet.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

var (
	repo = flag.String("repo", "", "scratch copy")
	kind = flag.String("t", "", "transformation")
	mod  = flag.Int("mod", 1, "apply to every mod-th site")
	off  = flag.Int("off", 0, "offset")
)

var cnt, applied int

func pick() bool {
	cnt++
	if cnt%*mod == *off {
		applied++
		return true
	}
	return false
}

var info *types.Info
var pkg *types.Package
var uid int
var renamed = map[types.Object]int{}

func id(s string) *ast.Ident { return ast.NewIdent(s) }
func fresh(p string) string  { uid++; return fmt.Sprintf("%s%d", p, uid) }

func main() {
	flag.Parse()
	if strings.HasPrefix(*repo, "/repo") || *repo == "" {
		panic("scratch copies only")
	}
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo, Dir: *repo,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off")}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		panic(err)
	}
	for _, p := range pkgs {
		info, pkg = p.TypesInfo, p.Types
		for i, f := range p.Syntax {
			name := p.CompiledGoFiles[i]
			if !strings.HasPrefix(name, *repo) || strings.HasSuffix(name, "release/head.go") {
				continue
			}
			src, _ := os.ReadFile(name)
			if bytes.Contains(src, []byte("//go:build")) || bytes.Contains(src, []byte("// +build")) || bytes.Contains(src, []byte("import \"C\"")) {
				continue
			}
			before := applied
			transform(f)
			if applied == before {
				continue
			}
			f.Comments = nil
			ast.Inspect(f, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.FuncDecl:
					x.Doc = nil
				case *ast.GenDecl:
					x.Doc = nil
				case *ast.Field:
					x.Doc, x.Comment = nil, nil
				case *ast.ValueSpec:
					x.Doc, x.Comment = nil, nil
				case *ast.TypeSpec:
					x.Doc, x.Comment = nil, nil
				case *ast.ImportSpec:
					x.Doc, x.Comment = nil, nil
				}
				return true
			})
			f.Doc = nil
			var b bytes.Buffer
			if err := format.Node(&b, p.Fset, f); err != nil {
				fmt.Println("format", name, err)
				continue
			}
			os.WriteFile(name, b.Bytes(), 0644)
		}
	}
	fmt.Printf("%s: %d of %d sites\n", *kind, applied, cnt)
}

func transform(f *ast.File) {
	switch *kind {
	case "invert":
		astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
			if s, ok := c.Node().(*ast.IfStmt); ok && s.Else != nil {
				if e, ok := s.Else.(*ast.BlockStmt); ok && pick() {
					s.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: s.Cond}}
					s.Body, s.Else = e, s.Body
				}
			}
			return true
		})
	case "swapcmp":
		astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
			if b, ok := c.Node().(*ast.BinaryExpr); ok {
				m := map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
				if n, ok := m[b.Op]; ok && !hasCall2(b) && pick() {
					b.Op = n
					b.X, b.Y = b.Y, b.X
				}
			}
			return true
		})
	case "negcmp":
		astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
			if b, ok := c.Node().(*ast.BinaryExpr); ok {
				m := map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS}
				if t := info.TypeOf(b.X); t != nil {
					if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsFloat != 0 {
						return true
					}
				}
				if n, ok := m[b.Op]; ok && pick() {
					c.Replace(&ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: &ast.BinaryExpr{X: b.X, Op: n, Y: b.Y}}})
				}
			}
			return true
		})
	case "ifinit":
		blocks(f, func(list []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range list {
				if i, ok := s.(*ast.IfStmt); ok && i.Init != nil && pick() {
					in := i.Init
					i.Init = nil
					out = append(out, &ast.BlockStmt{List: []ast.Stmt{in, i}})
					continue
				}
				out = append(out, s)
			}
			return out
		})
	case "split":
		blocks(f, func(list []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range list {
				if i, ok := s.(*ast.IfStmt); ok && i.Else == nil {
					if b, ok := i.Cond.(*ast.BinaryExpr); ok && b.Op == token.LAND && pick() {
						i.Cond = b.X
						i.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.IfStmt{Cond: b.Y, Body: i.Body}}}
					}
				}
				out = append(out, s)
			}
			return out
		})
	case "splitor":
		blocks(f, func(list []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range list {
				if i, ok := s.(*ast.IfStmt); ok && i.Else == nil && i.Init == nil && terminates(i.Body) {
					if b, ok := i.Cond.(*ast.BinaryExpr); ok && b.Op == token.LOR && pick() {
						out = append(out, &ast.IfStmt{Cond: b.X, Body: i.Body}, &ast.IfStmt{Cond: b.Y, Body: i.Body})
						continue
					}
				}
				out = append(out, s)
			}
			return out
		})
	case "renfunc", "renmeth", "renfield", "renvar", "rentype", "renlocal":
		ast.Inspect(f, func(n ast.Node) bool {
			x, ok := n.(*ast.Ident)
			if !ok || x.Name == "_" || x.Name == "init" || x.Name == "main" {
				return true
			}
			o := info.ObjectOf(x)
			if o == nil || o.Pkg() != pkg || o.Exported() && *kind != "renlocal" {
				return true
			}
			k := ""
			switch y := o.(type) {
			case *types.Func:
				k = "renfunc"
				if y.Type().(*types.Signature).Recv() != nil {
					k = "renmeth"
				}
			case *types.Var:
				switch {
				case y.IsField() && !y.Embedded():
					k = "renfield"
				case y.IsField():
				case y.Parent() == pkg.Scope():
					k = "renvar"
				default:
					k = "renlocal"
				}
			case *types.Const:
				k = "renvar"
				if y.Parent() != pkg.Scope() {
					k = "renlocal"
				}
			case *types.TypeName:
				k = "rentype"
			}
			if k != *kind {
				return true
			}
			if renamed[o] == 0 {
				renamed[o] = 2
				if pick() {
					renamed[o] = 1
				}
			}
			if renamed[o] == 1 {
				applied++
				x.Name += "Zq"
			}
			return true
		})
	case "sqlfmt":
		ast.Inspect(f, func(n ast.Node) bool {
			if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.STRING {
				u := strings.TrimSpace(strings.Trim(l.Value, "\"`"))
				for _, p := range []string{"SELECT ", "INSERT INTO", "UPDATE ", "DELETE FROM", "CREATE TABLE"} {
					if strings.HasPrefix(u, p) && pick() {
						v := strings.ReplaceAll(strings.ReplaceAll(l.Value, "=?", " = ?"), "< = ?", " <= ?")
						v = strings.ReplaceAll(v, "SELECT ", "select  ")
						v = strings.ReplaceAll(v, " WHERE ", " where ")
						v = strings.ReplaceAll(v, " AND ", " and ")
						v = strings.ReplaceAll(v, "INSERT INTO", "insert into")
						v = strings.ReplaceAll(v, ";", "")
						l.Value = v
						break
					}
				}
			}
			return true
		})
	case "reorder":
		// swap adjacent independent definitions
		blocks(f, func(list []ast.Stmt) []ast.Stmt {
			for i := 0; i+1 < len(list); i++ {
				d1, ok1 := simpleDef(list[i])
				d2, ok2 := simpleDef(list[i+1])
				if !ok1 || !ok2 || mentions(list[i+1], d1) || mentions(list[i], d2) || !pick() {
					continue
				}
				list[i], list[i+1] = list[i+1], list[i]
				i++
			}
			return list
		})
	case "deferfn":
		astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
			if d, ok := c.Node().(*ast.DeferStmt); ok {
				if _, ok := d.Call.Fun.(*ast.FuncLit); ok {
					return true
				}
				for _, a := range d.Call.Args {
					if _, ok := a.(*ast.CallExpr); ok {
						return true
					}
				}
				if pick() {
					d.Call = &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: d.Call}}}}}
				}
			}
			return true
		})
	case "emptycmp":
		// s == "" <-> len(s) == 0; len(x) == 0 -> len(x) < 1
		astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
			b, ok := c.Node().(*ast.BinaryExpr)
			if !ok || b.Op != token.EQL && b.Op != token.NEQ {
				return true
			}
			l, ok := b.Y.(*ast.BasicLit)
			if !ok {
				return true
			}
			zero := &ast.BasicLit{Kind: token.INT, Value: "0"}
			if l.Value == "\"\"" {
				if bt, ok := info.TypeOf(b.X).(*types.Basic); ok && bt.Kind() == types.String && pick() {
					b.X = &ast.CallExpr{Fun: id("len"), Args: []ast.Expr{b.X}}
					b.Y = zero
				}
			} else if cl, ok := b.X.(*ast.CallExpr); ok && isIdent(cl.Fun, "len") && l.Value == "0" && pick() {
				if b.Op == token.EQL {
					b.Op, b.Y = token.LSS, &ast.BasicLit{Kind: token.INT, Value: "1"}
				} else {
					b.Op = token.GTR
				}
			}
			return true
		})
	case "mergeif":
		// if a { if b { x } } -> if a && b { x }
		astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
			i, ok := c.Node().(*ast.IfStmt)
			if !ok || i.Else != nil || len(i.Body.List) != 1 {
				return true
			}
			j, ok := i.Body.List[0].(*ast.IfStmt)
			if !ok || j.Else != nil || j.Init != nil || !pick() {
				return true
			}
			i.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: i.Cond}, Op: token.LAND, Y: &ast.ParenExpr{X: j.Cond}}
			i.Body = j.Body
			return true
		})
	case "continue":
		// a loop body ending in if c { x } -> if !c { continue }; x
		astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
			var b *ast.BlockStmt
			switch x := c.Node().(type) {
			case *ast.ForStmt:
				b = x.Body
			case *ast.RangeStmt:
				b = x.Body
			default:
				return true
			}
			if len(b.List) == 0 {
				return true
			}
			i, ok := b.List[len(b.List)-1].(*ast.IfStmt)
			if !ok || i.Else != nil || i.Init != nil || !pick() {
				return true
			}
			body := i.Body.List
			i.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: i.Cond}}
			i.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}
			b.List = append(b.List, body...)
			return true
		})
	case "forbreak":
		astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
			x, ok := c.Node().(*ast.ForStmt)
			if ok && x.Cond != nil && pick() {
				x.Body.List = append([]ast.Stmt{&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: x.Cond}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}, x.Body.List...)
				x.Cond = nil
			}
			return true
		})
	case "iife":
		// the body moves into a function literal that is called at once
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Type.Results == nil || len(fd.Body.List) < 4 || hasDefer(fd.Body) || hasRecover(fd.Body) {
				continue
			}
			named := false
			for _, r := range fd.Type.Results.List {
				if len(r.Names) > 0 {
					named = true
				}
			}
			if named || !pick() {
				continue
			}
			fd.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{&ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: fd.Type.Results}, Body: fd.Body}}}}}}
		}
	case "nakedret":
		// naked returns become explicit
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Type.Results == nil {
				continue
			}
			var names []string
			for _, r := range fd.Type.Results.List {
				for _, n := range r.Names {
					names = append(names, n.Name)
				}
			}
			if len(names) == 0 {
				continue
			}
			walkBlocks(fd.Body, func(l []ast.Stmt) []ast.Stmt {
				for _, s := range l {
					if r, ok := s.(*ast.ReturnStmt); ok && len(r.Results) == 0 && pick() {
						for _, n := range names {
							r.Results = append(r.Results, id(n))
						}
					}
				}
				return l
			})
		}
	case "elseret":
		// if c { ...; return }; rest -> if c { ...; return } else { rest }
		funcs(f, func(t *ast.FuncType, b *ast.BlockStmt) {
			for i := len(b.List) - 2; i >= 0; i-- {
				x, ok := b.List[i].(*ast.IfStmt)
				if !ok || x.Else != nil || !terminates(x.Body) || hasLabel(b) {
					continue
				}
				if _, ok := b.List[len(b.List)-1].(*ast.ReturnStmt); !ok || !pick() {
					continue
				}
				x.Else = &ast.BlockStmt{List: append([]ast.Stmt(nil), b.List[i+1:]...)}
				b.List = b.List[:i+1]
				break
			}
		})
	case "elsewrap":
		// if c { ...return }; rest  ->  if !c { rest } else { ...return }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || hasLabel(fd.Body) {
				continue
			}
			list := fd.Body.List
			for k, s := range list {
				i, ok := s.(*ast.IfStmt)
				if !ok || i.Else != nil || i.Init != nil || !terminates(i.Body) || k == len(list)-1 {
					continue
				}
				if !pick() {
					continue
				}
				rest := list[k+1:]
				if fd.Type.Results != nil {
					if _, ok := rest[len(rest)-1].(*ast.ReturnStmt); !ok {
						applied--
						continue
					}
				}
				ni := &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: i.Cond}}, Body: &ast.BlockStmt{List: append([]ast.Stmt(nil), rest...)}, Else: i.Body}
				fd.Body.List = append(append([]ast.Stmt(nil), list[:k]...), ni)
				break
			}
		}
	case "helper", "tailhelper":
		var add []ast.Decl
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Name.Name == "init" || fd.Name.Name == "main" || fd.Name.Name == "_" || fd.Type.TypeParams != nil || strings.HasSuffix(fd.Name.Name, "XtrImpl") {
				continue
			}
			if !pick() {
				continue
			}
			params := &ast.FieldList{}
			var args []ast.Expr
			var ell token.Pos
			for _, p := range fd.Type.Params.List {
				if len(p.Names) == 0 {
					p.Names = []*ast.Ident{id(fresh("pp"))}
				}
				for k, n := range p.Names {
					if n.Name == "_" {
						p.Names[k] = id(fresh("pp"))
					}
					args = append(args, id(p.Names[k].Name))
				}
				if _, ok := p.Type.(*ast.Ellipsis); ok {
					ell = 1
				}
				params.List = append(params.List, &ast.Field{Names: append([]*ast.Ident(nil), p.Names...), Type: p.Type})
			}
			name := fd.Name.Name + "XtrImpl"
			var fun ast.Expr = id(name)
			if fd.Recv != nil {
				if len(fd.Recv.List[0].Names) == 0 || fd.Recv.List[0].Names[0].Name == "_" {
					fd.Recv.List[0].Names = []*ast.Ident{id(fresh("rr"))}
				}
				fun = &ast.SelectorExpr{X: id(fd.Recv.List[0].Names[0].Name), Sel: id(name)}
			}
			call := &ast.CallExpr{Fun: fun, Args: args, Ellipsis: ell}
			impl := &ast.FuncDecl{Recv: fd.Recv, Name: id(name), Type: &ast.FuncType{Params: params, Results: fd.Type.Results}, Body: fd.Body}
			add = append(add, impl)
			if fd.Type.Results == nil {
				fd.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}
			} else {
				fd.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{call}}}}
				// named results in the wrapper are harmless
			}
		}
		f.Decls = append(f.Decls, add...)
	case "extract":
		extract(f, false, false)
	case "extractm":
		extract(f, false, true)
	case "extractret":
		extract(f, true, false)
	case "extractretm":
		extract(f, true, true)
	case "hoist":
		blocks(f, func(list []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range list {
				var call *ast.CallExpr
				switch x := s.(type) {
				case *ast.ExprStmt:
					call, _ = x.X.(*ast.CallExpr)
				case *ast.AssignStmt:
					if len(x.Rhs) == 1 && !lhsComplex(x.Lhs) {
						call, _ = x.Rhs[0].(*ast.CallExpr)
					}
				case *ast.ReturnStmt:
					if len(x.Results) == 1 {
						call, _ = x.Results[0].(*ast.CallExpr)
					}
				case *ast.IfStmt:
					if x.Init == nil {
						break
					}
				}
				if call != nil && isFuncCall(call) && call.Ellipsis == 0 {
					for k, a := range call.Args {
						ac, ok := a.(*ast.CallExpr)
						if !ok || !isFuncCall(ac) || isMulti(ac) {
							break
						}
						if !pick() {
							break
						}
						n := fresh("hv")
						out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{ac}})
						call.Args[k] = id(n)
					}
				}
				out = append(out, s)
			}
			return out
		})
	case "retvar":
		// return f(x) -> r := f(x); return r
		funcs(f, func(ft *ast.FuncType, body *ast.BlockStmt) {
			walkBlocks(body, func(list []ast.Stmt) []ast.Stmt {
				var out []ast.Stmt
				for _, s := range list {
					if r, ok := s.(*ast.ReturnStmt); ok && len(r.Results) == 1 {
						if c, ok := r.Results[0].(*ast.CallExpr); ok && isFuncCall(c) {
							n := 1
							if t, ok := info.TypeOf(c).(*types.Tuple); ok {
								n = t.Len()
							}
							if n >= 1 && info.TypeOf(c) != nil && pick() {
								var l, rr []ast.Expr
								for i := 0; i < n; i++ {
									v := fresh("rv")
									l = append(l, id(v))
									rr = append(rr, id(v))
								}
								out = append(out, &ast.AssignStmt{Lhs: l, Tok: token.DEFINE, Rhs: []ast.Expr{c}}, &ast.ReturnStmt{Results: rr})
								continue
							}
						}
					}
					out = append(out, s)
				}
				return out
			})
		})
	case "reterr":
		// return f(x) (error) -> if err := f(x); err != nil { return err }; return nil
		funcs(f, func(ft *ast.FuncType, body *ast.BlockStmt) {
			if ft.Results == nil || len(ft.Results.List) != 1 || len(ft.Results.List[0].Names) > 1 {
				return
			}
			if t, ok := ft.Results.List[0].Type.(*ast.Ident); !ok || t.Name != "error" {
				return
			}
			walkBlocks(body, func(list []ast.Stmt) []ast.Stmt {
				var out []ast.Stmt
				for _, s := range list {
					if r, ok := s.(*ast.ReturnStmt); ok && len(r.Results) == 1 {
						if c, ok := r.Results[0].(*ast.CallExpr); ok && isFuncCall(c) && pick() {
							v := fresh("er")
							out = append(out, &ast.IfStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{c}},
								Cond: &ast.BinaryExpr{X: id(v), Op: token.NEQ, Y: id("nil")},
								Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{id(v)}}}}},
								&ast.ReturnStmt{Results: []ast.Expr{id("nil")}})
							continue
						}
					}
					out = append(out, s)
				}
				return out
			})
		})
	case "errret":
		// if err := f(x); err != nil { return err }; return nil -> return f(x)
		blocks(f, func(list []ast.Stmt) []ast.Stmt {
			n := len(list)
			if n < 2 {
				return list
			}
			r, ok := list[n-1].(*ast.ReturnStmt)
			if !ok || len(r.Results) != 1 || !isIdent(r.Results[0], "nil") {
				return list
			}
			i, ok := list[n-2].(*ast.IfStmt)
			if !ok || i.Init == nil || i.Else != nil || len(i.Body.List) != 1 {
				return list
			}
			a, ok := i.Init.(*ast.AssignStmt)
			if !ok || len(a.Lhs) != 1 || len(a.Rhs) != 1 || !isIdent(a.Lhs[0], "err") {
				return list
			}
			rr, ok := i.Body.List[0].(*ast.ReturnStmt)
			if !ok || len(rr.Results) != 1 || !isIdent(rr.Results[0], "err") || !pick() {
				return list
			}
			return append(append([]ast.Stmt(nil), list[:n-2]...), &ast.ReturnStmt{Results: []ast.Expr{a.Rhs[0]}})
		})
	case "range":
		blocks(f, func(list []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range list {
				r, ok := s.(*ast.RangeStmt)
				if !ok || r.Tok != token.DEFINE {
					out = append(out, s)
					continue
				}
				if _, ok := info.TypeOf(r.X).Underlying().(*types.Slice); !ok {
					out = append(out, s)
					continue
				}
				switch r.X.(type) {
				case *ast.Ident, *ast.SelectorExpr:
				default:
					out = append(out, s)
					continue
				}
				if !pick() {
					out = append(out, s)
					continue
				}
				ix := fresh("ix")
				if k, ok := r.Key.(*ast.Ident); ok && k.Name != "_" {
					ix = k.Name
				}
				body := r.Body
				if v, ok := r.Value.(*ast.Ident); ok && v.Name != "_" {
					body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id(v.Name)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: r.X, Index: id(ix)}}}}, body.List...)
				}
				out = append(out, &ast.ForStmt{
					Init: &ast.AssignStmt{Lhs: []ast.Expr{id(ix)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}},
					Cond: &ast.BinaryExpr{X: id(ix), Op: token.LSS, Y: &ast.CallExpr{Fun: id("len"), Args: []ast.Expr{r.X}}},
					Post: &ast.IncDecStmt{X: id(ix), Tok: token.INC}, Body: body})
			}
			return out
		})
	case "chunk":
		done := map[ast.Stmt]bool{}
		// wrap a run of simple statements into an immediately called closure
		blocks(f, func(list []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range list {
				if done[s] {
					out = append(out, s)
					continue
				}
				done[s] = true
				switch x := s.(type) {
				case *ast.ExprStmt:
					if c, ok := x.X.(*ast.CallExpr); ok && isFuncCall(c) && pick() {
						s = &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{x}}}}}
					}
				case *ast.AssignStmt:
					if x.Tok == token.ASSIGN && !pureIdents(x) && pick() {
						s = &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{x}}}}}
					}
				}
				out = append(out, s)
			}
			return out
		})
	case "callhelper":
		// replace a call pkg.F(a, b) in "x, err := F(..)" by a new function that makes the call
		var add []ast.Decl
		blocks(f, func(list []ast.Stmt) []ast.Stmt {
			for _, s := range list {
				var c *ast.CallExpr
				switch x := s.(type) {
				case *ast.AssignStmt:
					if len(x.Rhs) == 1 {
						c, _ = x.Rhs[0].(*ast.CallExpr)
					}
				case *ast.IfStmt:
					if a, ok := x.Init.(*ast.AssignStmt); ok && len(a.Rhs) == 1 {
						c, _ = a.Rhs[0].(*ast.CallExpr)
					}
				case *ast.ExprStmt:
					c, _ = x.X.(*ast.CallExpr)
				}
				if c == nil || !isFuncCall(c) || c.Ellipsis != 0 {
					continue
				}
				sel, ok := c.Fun.(*ast.SelectorExpr)
				if !ok {
					continue
				}
				sig, ok := info.TypeOf(c.Fun).(*types.Signature)
				if !ok || sig.Variadic() || len(c.Args) != sig.Params().Len() {
					continue
				}
				// textual types via qualifier: only if every needed package is imported by the file
				good := true
				q := func(p *types.Package) string {
					if p == pkg {
						return ""
					}
					for _, im := range f.Imports {
						if strings.Trim(im.Path.Value, "\"") == p.Path() && im.Name == nil {
							return p.Name()
						}
					}
					good = false
					return p.Name()
				}
				var fields []*ast.Field
				var args []ast.Expr
				name := fresh("xtrCall")
				var fun ast.Expr = sel
				var callArgs []ast.Expr
				if s2, ok := info.Selections[sel]; ok {
					rt := info.TypeOf(sel.X)
					if _, isPtr := rt.(*types.Pointer); !isPtr {
						if _, isI := rt.Underlying().(*types.Interface); !isI {
							continue
						}
					}
					_ = s2
					fields = append(fields, &ast.Field{Names: []*ast.Ident{id("recv")}, Type: id(ts(rt, q))})
					callArgs = append(callArgs, sel.X)
					fun = &ast.SelectorExpr{X: id("recv"), Sel: sel.Sel}
				}
				for i, a := range c.Args {
					n := fmt.Sprintf("a%d", i)
					t := sig.Params().At(i).Type()
					fields = append(fields, &ast.Field{Names: []*ast.Ident{id(n)}, Type: id(ts(t, q))})
					args = append(args, id(n))
					callArgs = append(callArgs, a)
				}
				var res *ast.FieldList
				if sig.Results().Len() > 0 {
					res = &ast.FieldList{}
					for i := 0; i < sig.Results().Len(); i++ {
						res.List = append(res.List, &ast.Field{Type: id(ts(sig.Results().At(i).Type(), q))})
					}
				}
				if !good || !pick() {
					continue
				}
				inner := &ast.CallExpr{Fun: fun, Args: args}
				var st ast.Stmt = &ast.ExprStmt{X: inner}
				if res != nil {
					st = &ast.ReturnStmt{Results: []ast.Expr{inner}}
				}
				add = append(add, &ast.FuncDecl{Name: id(name), Type: &ast.FuncType{Params: &ast.FieldList{List: fields}, Results: res}, Body: &ast.BlockStmt{List: []ast.Stmt{st}}})
				c.Fun = id(name)
				c.Args = callArgs
			}
			return list
		})
		f.Decls = append(f.Decls, add...)
	case "nop":
		blocks(f, func(list []ast.Stmt) []ast.Stmt {
			if len(list) > 0 {
				switch list[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return list
				}
			}
			if len(list) > 0 && pick() {
				return append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}}}, list...)
			}
			return list
		})
	case "complit":
		// x := &T{A: a} -> x := new(T); x.A = a
		blocks(f, func(list []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range list {
				a, ok := s.(*ast.AssignStmt)
				if ok && a.Tok == token.DEFINE && len(a.Lhs) == 1 && len(a.Rhs) == 1 {
					u, ok := a.Rhs[0].(*ast.UnaryExpr)
					if ok && u.Op == token.AND {
						if cl, ok := u.X.(*ast.CompositeLit); ok && len(cl.Elts) > 0 {
							if _, ok := cl.Elts[0].(*ast.KeyValueExpr); ok {
								if _, ok := info.TypeOf(cl).Underlying().(*types.Struct); ok && pick() {
									a.Rhs[0] = &ast.CallExpr{Fun: id("new"), Args: []ast.Expr{cl.Type}}
									out = append(out, a)
									for _, e := range cl.Elts {
										kv := e.(*ast.KeyValueExpr)
										out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{&ast.SelectorExpr{X: id(a.Lhs[0].(*ast.Ident).Name), Sel: kv.Key.(*ast.Ident)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{kv.Value}})
									}
									continue
								}
							}
						}
					}
				}
				out = append(out, s)
			}
			return out
		})
	case "switchif":
		blocks(f, func(list []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range list {
				sw, ok := s.(*ast.SwitchStmt)
				if !ok || sw.Init != nil || len(sw.Body.List) == 0 || hasBreak(sw.Body) {
					out = append(out, s)
					continue
				}
				if sw.Tag != nil {
					if _, ok := sw.Tag.(*ast.Ident); !ok {
						out = append(out, s)
						continue
					}
				}
				var def *ast.BlockStmt
				var chain *ast.IfStmt
				var last *ast.IfStmt
				for _, cs := range sw.Body.List {
					cc := cs.(*ast.CaseClause)
					if cc.List == nil {
						def = &ast.BlockStmt{List: cc.Body}
						continue
					}
					var cond ast.Expr
					for _, e := range cc.List {
						var one ast.Expr = e
						if sw.Tag != nil {
							one = &ast.BinaryExpr{X: sw.Tag, Op: token.EQL, Y: e}
						}
						if cond == nil {
							cond = one
						} else {
							cond = &ast.BinaryExpr{X: cond, Op: token.LOR, Y: one}
						}
					}
					i := &ast.IfStmt{Cond: cond, Body: &ast.BlockStmt{List: cc.Body}}
					if last == nil {
						chain = i
					} else {
						last.Else = i
					}
					last = i
				}
				if chain == nil || !pick() {
					out = append(out, s)
					continue
				}
				if def != nil {
					last.Else = def
				}
				out = append(out, chain)
			}
			return out
		})
	case "localfield":
		// f(x.a.b) -> v := x.a.b; f(v) for plain field reads in call arguments
		blocks(f, func(list []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range list {
				var call *ast.CallExpr
				switch x := s.(type) {
				case *ast.ExprStmt:
					call, _ = x.X.(*ast.CallExpr)
				case *ast.AssignStmt:
					if len(x.Rhs) == 1 && !lhsComplex(x.Lhs) {
						call, _ = x.Rhs[0].(*ast.CallExpr)
					}
				}
				if call != nil && isFuncCall(call) && call.Ellipsis == 0 {
					for k, a := range call.Args {
						se, ok := a.(*ast.SelectorExpr)
						if !ok || info.Selections[se] == nil || info.Selections[se].Kind() != types.FieldVal {
							continue
						}
						hasc := false
						ast.Inspect(se, func(n ast.Node) bool {
							if _, ok := n.(*ast.CallExpr); ok {
								hasc = true
							}
							return true
						})
						if hasc || !pick() {
							continue
						}
						n := fresh("lf")
						out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{se}})
						call.Args[k] = id(n)
					}
				}
				out = append(out, s)
			}
			return out
		})
	default:
		panic("unknown transformation")
	}
}

func isIdent(e ast.Expr, n string) bool {
	i, ok := e.(*ast.Ident)
	return ok && i.Name == n
}

func pureIdents(a *ast.AssignStmt) bool {
	for _, r := range a.Rhs {
		if _, ok := r.(*ast.CallExpr); ok {
			return false
		}
	}
	return true
}

func hasBreak(b *ast.BlockStmt) bool {
	f := false
	ast.Inspect(b, func(n ast.Node) bool {
		if x, ok := n.(*ast.BranchStmt); ok && (x.Tok == token.BREAK || x.Tok == token.FALLTHROUGH) {
			f = true
		}
		return true
	})
	return f
}

func hasLabel(b *ast.BlockStmt) bool {
	f := false
	ast.Inspect(b, func(n ast.Node) bool {
		if _, ok := n.(*ast.LabeledStmt); ok {
			f = true
		}
		return true
	})
	return f
}

func hasCall2(b *ast.BinaryExpr) bool {
	n := 0
	ast.Inspect(b, func(x ast.Node) bool {
		if _, ok := x.(*ast.CallExpr); ok {
			n++
		}
		return true
	})
	return n > 1
}

func lhsComplex(l []ast.Expr) bool {
	for _, e := range l {
		if _, ok := e.(*ast.Ident); !ok {
			return true
		}
	}
	return false
}

func isFuncCall(c *ast.CallExpr) bool {
	if tv, ok := info.Types[c.Fun]; ok {
		if tv.IsType() || tv.IsBuiltin() {
			return false
		}
		_, ok := tv.Type.Underlying().(*types.Signature)
		return ok
	}
	return false
}

func isMulti(c *ast.CallExpr) bool {
	t := info.TypeOf(c)
	if t == nil {
		return true
	}
	_, ok := t.(*types.Tuple)
	return ok
}

func terminates(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return false
	}
	_, ok := b.List[len(b.List)-1].(*ast.ReturnStmt)
	return ok
}

func funcs(f *ast.File, g func(*ast.FuncType, *ast.BlockStmt)) {
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			if x.Body != nil {
				g(x.Type, x.Body)
			}
		case *ast.FuncLit:
			g(x.Type, x.Body)
		}
		return true
	})
}

// walkBlocks visits the blocks of one function, not of nested literals.
func walkBlocks(b *ast.BlockStmt, g func([]ast.Stmt) []ast.Stmt) {
	ast.Inspect(b, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.BlockStmt:
			x.List = g(x.List)
		case *ast.CaseClause:
			x.Body = g(x.Body)
		}
		return true
	})
}

func blocks(f *ast.File, g func([]ast.Stmt) []ast.Stmt) {
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			x.List = g(x.List)
		case *ast.CaseClause:
			x.Body = g(x.Body)
		}
		return true
	})
}

func ts(t types.Type, q types.Qualifier) string {
	s := types.TypeString(t, q)
	if s == "any" {
		return "interface{}"
	}
	return strings.ReplaceAll(s, "]any", "]interface{}")
}

func simpleDef(s ast.Stmt) (string, bool) {
	a, ok := s.(*ast.AssignStmt)
	if !ok || a.Tok != token.DEFINE || len(a.Lhs) != 1 || len(a.Rhs) != 1 {
		return "", false
	}
	x, ok := a.Lhs[0].(*ast.Ident)
	if !ok {
		return "", false
	}
	pure := true
	ast.Inspect(a.Rhs[0], func(n ast.Node) bool {
		switch y := n.(type) {
		case *ast.CallExpr:
			if !isIdent(y.Fun, "make") && !isIdent(y.Fun, "new") && !isIdent(y.Fun, "len") {
				pure = false
			}
		case *ast.UnaryExpr:
			if y.Op == token.ARROW {
				pure = false
			}
		case *ast.FuncLit:
			pure = false
		}
		return true
	})
	return x.Name, pure
}

func mentions(s ast.Stmt, n string) bool {
	r := false
	ast.Inspect(s, func(x ast.Node) bool {
		if i, ok := x.(*ast.Ident); ok && i.Name == n {
			r = true
		}
		return true
	})
	return r
}

func hasDefer(b *ast.BlockStmt) bool {
	r := false
	ast.Inspect(b, func(n ast.Node) bool {
		if _, ok := n.(*ast.DeferStmt); ok {
			r = true
		}
		return true
	})
	return r
}

func hasRecover(b *ast.BlockStmt) bool {
	r := false
	ast.Inspect(b, func(n ast.Node) bool {
		if i, ok := n.(*ast.Ident); ok && i.Name == "recover" {
			r = true
		}
		return true
	})
	return r
}
