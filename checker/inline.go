package main

import (
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// Normalisation. A function that the reference tree does not have, and a
// function literal that is only called, are inlined into their callers before
// the program is analysed, so that statements that were moved into a helper or
// a closure are decided where they take effect. The inlined program is type
// checked again; a tree without such functions is analysed as it is.

const mark = "\u01c3" // in names of renamed locals; a letter that no code uses

type inliner struct {
	p       *packages.Package
	info    *types.Info
	decls   map[*types.Func]*ast.FuncDecl
	fileOf  map[*ast.FuncDecl]*ast.File
	newFn   map[*types.Func]bool
	state   map[*ast.FuncDecl]int // 1 busy, 2 done
	alias   map[*ast.File]map[string]string
	n       int
	budget  int
	file    *ast.File // of the function being transformed
	cur     *ast.FuncDecl
	did     int
	inlined map[*types.Func]bool
	outside map[*types.Func]bool // referred to by another package
}

// declName is the canonical name of a declared function.
func declName(f *types.Func) string {
	n := declName0(f)
	if o, ok := fnAlias[n]; ok {
		return o
	}
	return n
}

func declName0(f *types.Func) string {
	pn := ""
	if f.Pkg() != nil {
		pn = shortPath(f.Pkg().Path()) + "."
	}
	if r := f.Type().(*types.Signature).Recv(); r != nil {
		return pn + typeBase(r.Type()) + "." + f.Name()
	}
	return pn + f.Name()
}

// normalize inlines helpers in all packages and re-checks those affected and
// everything that depends on them. It reports whether anything changed.
func normalize(pkgs []*packages.Package) (changed bool, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("normalisation: %v", r)
		}
	}()
	dirty := map[*packages.Package]bool{}
	outside := map[*types.Func]bool{}
	for _, p := range pkgs {
		for _, o := range p.TypesInfo.Uses {
			if g, ok := o.(*types.Func); ok && g.Pkg() != p.Types {
				outside[g] = true
			}
		}
	}
	for _, p := range pkgs {
		in := &inliner{p: p, info: p.TypesInfo, decls: map[*types.Func]*ast.FuncDecl{}, fileOf: map[*ast.FuncDecl]*ast.File{},
			newFn: map[*types.Func]bool{}, inlined: map[*types.Func]bool{}, state: map[*ast.FuncDecl]int{}, alias: map[*ast.File]map[string]string{}, outside: outside}
		if in.run() {
			dirty[p] = true
		}
	}
	if len(dirty) == 0 {
		return false, nil
	}
	// dependencies first
	var order []*packages.Package
	seen := map[*packages.Package]bool{}
	mod := map[*packages.Package]bool{}
	for _, p := range pkgs {
		mod[p] = true
	}
	var visit func(p *packages.Package)
	visit = func(p *packages.Package) {
		if seen[p] || !mod[p] {
			return
		}
		seen[p] = true
		var ks []string
		for k := range p.Imports {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			visit(p.Imports[k])
			if dirty[p.Imports[k]] {
				dirty[p] = true
			}
		}
		order = append(order, p)
	}
	for _, p := range pkgs {
		visit(p)
	}
	for _, p := range order {
		if !dirty[p] {
			continue
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}, Scopes: map[ast.Node]*types.Scope{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, FileVersions: map[*ast.File]string{}}
		p := p
		var errs []string
		conf := types.Config{
			Sizes: p.TypesSizes,
			Importer: importerFunc(func(path string) (*types.Package, error) {
				if path == "unsafe" {
					return types.Unsafe, nil
				}
				if q := p.Imports[path]; q != nil && q.Types != nil {
					return q.Types, nil
				}
				return nil, fmt.Errorf("import %s not loaded", path)
			}),
			Error: func(err error) {
				if e, ok := err.(types.Error); ok && e.Soft {
					return
				}
				errs = append(errs, err.Error())
			},
		}
		if p.Module != nil && p.Module.GoVersion != "" {
			conf.GoVersion = "go" + p.Module.GoVersion
		}
		np, _ := conf.Check(p.PkgPath, p.Fset, p.Syntax, info)
		if len(errs) > 0 {
			return true, fmt.Errorf("normalised %s: %s", p.PkgPath, errs[0])
		}
		p.Types, p.TypesInfo = np, info
	}
	return true, nil
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(p string) (*types.Package, error) { return f(p) }

func (in *inliner) run() bool {
	for _, f := range in.p.Syntax {
		for _, im := range f.Imports {
			if im.Path.Value == `"C"` {
				return false
			}
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			o, _ := in.info.Defs[fd.Name].(*types.Func)
			if o == nil {
				continue
			}
			in.decls[o] = fd
			in.fileOf[fd] = f
			if o.Name() != "init" && o.Name() != "_" && o.Name() != "main" && !baseFns()[declName(o)] {
				in.newFn[o] = true
			}
		}
	}
	var order []*ast.FuncDecl
	for _, f := range in.p.Syntax {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && in.fileOf[fd] != nil {
				order = append(order, fd)
			}
		}
	}
	for _, fd := range order {
		in.transform(fd)
	}
	if in.did > 0 {
		in.dropUnused()
	}
	for f, m := range in.alias {
		var ps []string
		for p := range m {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		var specs []ast.Spec
		for _, p := range ps {
			is := &ast.ImportSpec{Name: ast.NewIdent(m[p]), Path: &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf("%q", p)}}
			specs = append(specs, is)
			f.Imports = append(f.Imports, is)
		}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Specs: specs, Rparen: 1}}, f.Decls...)
	}
	return in.did > 0
}

// dropUnused removes new unexported functions that nothing refers to any more.
func (in *inliner) dropUnused() {
	ifaceM := map[string]bool{}
	for {
		used := map[*types.Func]bool{}
		for _, f := range in.p.Syntax {
			for _, d := range f.Decls {
				var self *types.Func
				if fd, ok := d.(*ast.FuncDecl); ok {
					self, _ = in.info.Defs[fd.Name].(*types.Func)
				}
				ast.Inspect(d, func(n ast.Node) bool {
					switch x := n.(type) {
					case *ast.Ident:
						if g, ok := in.info.Uses[x].(*types.Func); ok && g != self {
							used[g] = true
						}
					case *ast.InterfaceType:
						for _, m := range x.Methods.List {
							for _, id := range m.Names {
								ifaceM[id.Name] = true
							}
						}
					}
					return true
				})
			}
		}
		n := 0
		for _, f := range in.p.Syntax {
			var ds []ast.Decl
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					g, _ := in.info.Defs[fd.Name].(*types.Func)
					if g != nil && in.newFn[g] && in.inlined[g] && !used[g] && !in.outside[g] && !(fd.Recv != nil && ifaceM[g.Name()]) {
						n++
						continue
					}
				}
				ds = append(ds, d)
			}
			f.Decls = ds
		}
		if n == 0 {
			return
		}
	}
}

func (in *inliner) fresh(p string) *ast.Ident {
	in.n++
	return ast.NewIdent(fmt.Sprintf("%s%s%d", p, mark, in.n))
}

// transform inlines in one function.
func (in *inliner) transform(fd *ast.FuncDecl) {
	if in.state[fd] != 0 {
		return
	}
	in.state[fd] = 1
	defer func() { in.state[fd] = 2 }()
	if fd.Type.TypeParams != nil || !in.hasWork(fd.Body) && !in.hasTable(fd.Body) {
		return
	}
	// callees first
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if g := in.static(c); g != nil && in.newFn[g] && in.decls[g] != nil {
				in.transform(in.decls[g])
			}
		}
		return true
	})
	sf, sc, sb := in.file, in.cur, in.budget
	in.file, in.cur, in.budget = in.fileOf[fd], fd, 4000
	in.alpha(fd)
	in.unroll(fd)
	for round := 0; round < 6; round++ {
		before := in.did
		fd.Body.List = in.list(fd.Body.List, true)
		if in.did == before {
			break
		}
	}
	in.dropClosures(fd)
	if os.Getenv("MC_SHOW") != "" && fd.Name.Name == os.Getenv("MC_SHOW") {
		format.Node(os.Stderr, token.NewFileSet(), fd)
	}
	in.file, in.cur, in.budget = sf, sc, sb
}

// hasWork: a call that could be inlined.
func (in *inliner) hasWork(b *ast.BlockStmt) bool {
	r := false
	ast.Inspect(b, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if _, ok := ast.Unparen(c.Fun).(*ast.FuncLit); ok {
				r = true
			}
			if g := in.static(c); g != nil && in.newFn[g] {
				r = true
			}
			if id, ok := c.Fun.(*ast.Ident); ok {
				if v, ok := in.info.Uses[id].(*types.Var); ok && v.Parent() != nil && v.Parent() != in.p.Types.Scope() {
					if litOf(b, in.info, v) != nil {
						r = true
					}
				}
			}
		}
		return !r
	})
	return r
}

// litOf: the literal a local variable is defined with.
func litOf(b *ast.BlockStmt, info *types.Info, v *types.Var) *ast.FuncLit {
	var l *ast.FuncLit
	ast.Inspect(b, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			for i, e := range x.Lhs {
				if id, ok := e.(*ast.Ident); ok && info.Defs[id] == v && len(x.Rhs) == len(x.Lhs) {
					l, _ = x.Rhs[i].(*ast.FuncLit)
				}
			}
		case *ast.ValueSpec:
			for i, id := range x.Names {
				if info.Defs[id] == v && len(x.Values) == len(x.Names) {
					l, _ = x.Values[i].(*ast.FuncLit)
				}
			}
		}
		return true
	})
	return l
}

func (in *inliner) static(c *ast.CallExpr) *types.Func {
	switch f := ast.Unparen(c.Fun).(type) {
	case *ast.Ident:
		g, _ := in.info.Uses[f].(*types.Func)
		return g
	case *ast.SelectorExpr:
		if s := in.info.Selections[f]; s != nil {
			if s.Kind() != types.MethodVal || types.IsInterface(s.Recv()) || len(s.Index()) != 1 {
				return nil
			}
			g, _ := s.Obj().(*types.Func)
			return g
		}
		return nil // another package
	}
	return nil
}

// alpha gives every local of the function a name of its own.
func (in *inliner) alpha(fd *ast.FuncDecl) {
	names := map[types.Object]string{}
	bySym := map[token.Pos]string{}
	name := func(o types.Object, s string) string {
		if n, ok := names[o]; ok {
			return n
		}
		in.n++
		n := fmt.Sprintf("%s%s%d", s, mark, in.n)
		names[o] = n
		return n
	}
	local := func(o types.Object) bool {
		if o == nil || o.Pkg() != in.p.Types {
			return false
		}
		switch x := o.(type) {
		case *types.Var:
			return !x.IsField() && x.Parent() != in.p.Types.Scope()
		case *types.Const, *types.TypeName:
			return o.Parent() != in.p.Types.Scope() && o.Parent() != nil
		case *types.Label:
			return true
		}
		return false
	}
	// the variable of a type switch
	ast.Inspect(fd, func(n ast.Node) bool {
		if ts, ok := n.(*ast.TypeSwitchStmt); ok {
			if a, ok := ts.Assign.(*ast.AssignStmt); ok {
				id := a.Lhs[0].(*ast.Ident)
				if id.Name != "_" && !strings.Contains(id.Name, mark) {
					in.n++
					s := fmt.Sprintf("%s%s%d", id.Name, mark, in.n)
					bySym[id.Pos()] = s
					for _, cl := range ts.Body.List {
						if o := in.info.Implicits[cl]; o != nil {
							names[o] = s
						}
					}
					id.Name = s
				}
			}
		}
		return true
	})
	ast.Inspect(fd, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok || id.Name == "_" || strings.Contains(id.Name, mark) {
			return true
		}
		o := in.info.Defs[id]
		if o == nil {
			o = in.info.Uses[id]
		}
		if local(o) {
			id.Name = name(o, id.Name)
		}
		return true
	})
}

// --------------------------------------------------------------- cloning

type cloner struct {
	in     *inliner
	suffix string // appended to renamed locals
	file   *ast.File
	same   bool // within one function: names are kept
}

func (c *cloner) node(n ast.Node) ast.Node {
	if n == nil || reflect.ValueOf(n).IsNil() {
		return n
	}
	return c.val(reflect.ValueOf(n)).Interface().(ast.Node)
}

var (
	tObject = reflect.TypeOf((*ast.Object)(nil))
	tScope  = reflect.TypeOf((*ast.Scope)(nil))
)

func (c *cloner) val(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		return c.val(v.Elem()).Convert(v.Type())
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		r := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			r.Index(i).Set(c.val(v.Index(i)))
		}
		return r
	case reflect.Ptr:
		if v.IsNil() || v.Type() == tObject || v.Type() == tScope {
			return reflect.Zero(v.Type())
		}
		r := reflect.New(v.Type().Elem())
		s, d := v.Elem(), r.Elem()
		for i := 0; i < s.NumField(); i++ {
			d.Field(i).Set(c.val(s.Field(i)))
		}
		c.fix(v.Interface(), r.Interface())
		return r
	}
	return v
}

func (c *cloner) fix(old, new interface{}) {
	info := c.in.info
	if e, ok := old.(ast.Expr); ok {
		if tv, ok := info.Types[e]; ok {
			info.Types[new.(ast.Expr)] = tv
		}
	}
	switch o := old.(type) {
	case *ast.Ident:
		n := new.(*ast.Ident)
		if u, ok := info.Uses[o]; ok {
			info.Uses[n] = u
			if pn, ok := u.(*types.PkgName); ok {
				if !c.same {
					n.Name = c.in.importAlias(c.file, pn.Imported().Path())
				}
				return
			}
		}
		if d, ok := info.Defs[o]; ok {
			info.Defs[n] = d
		}
		if c.suffix != "" && strings.Contains(n.Name, mark) {
			n.Name += c.suffix
		}
	case *ast.SelectorExpr:
		if s, ok := info.Selections[o]; ok {
			info.Selections[new.(*ast.SelectorExpr)] = s
		}
	case *ast.CaseClause:
		if s, ok := info.Implicits[o]; ok {
			info.Implicits[new.(*ast.CaseClause)] = s
		}
	}
}

func (in *inliner) importAlias(f *ast.File, path string) string {
	m := in.alias[f]
	if m == nil {
		m = map[string]string{}
		in.alias[f] = m
	}
	if m[path] == "" {
		m[path] = fmt.Sprintf("imp%s%d", "\u01c2", len(m))
	}
	return m[path]
}

func (in *inliner) clone(n ast.Node) ast.Node {
	return (&cloner{in: in, same: true, file: in.file}).node(n)
}

func (in *inliner) cloneStmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		out = append(out, in.clone(s).(ast.Stmt))
	}
	return out
}

// ------------------------------------------------------------- inlining

// callee describes what a call would be replaced by.
type callee struct {
	typ   *ast.FuncType
	recv  *ast.FieldList
	recvX ast.Expr
	body  *ast.BlockStmt
	cl    *cloner
	name  string // local closure
	decl  *ast.FuncDecl
}

func (in *inliner) callee(c *ast.CallExpr) *callee {
	if in.budget <= 0 {
		return nil
	}
	switch f := ast.Unparen(c.Fun).(type) {
	case *ast.FuncLit:
		return in.usable(&callee{typ: f.Type, body: f.Body, cl: &cloner{in: in, same: true, file: in.file}})
	case *ast.Ident:
		if strings.Contains(f.Name, mark) {
			if l := in.closure(f.Name); l != nil {
				return in.usable(&callee{typ: l.Type, body: l.Body, cl: &cloner{in: in, same: true, file: in.file}, name: f.Name})
			}
			return nil
		}
	}
	g := in.static(c)
	if g == nil || !in.newFn[g] {
		return nil
	}
	fd := in.decls[g]
	if fd == nil || in.state[fd] == 1 || fd.Type.TypeParams != nil {
		return nil
	}
	in.alphaOnce(fd)
	k := &callee{typ: fd.Type, recv: fd.Recv, body: fd.Body, decl: fd}
	if fd.Recv != nil {
		sel := ast.Unparen(c.Fun).(*ast.SelectorExpr)
		k.recvX = sel.X
		_, wantPtr := g.Type().(*types.Signature).Recv().Type().(*types.Pointer)
		t := in.info.TypeOf(sel.X)
		if t == nil {
			return nil
		}
		_, havePtr := t.Underlying().(*types.Pointer)
		switch {
		case wantPtr && !havePtr:
			k.recvX = &ast.UnaryExpr{Op: token.AND, X: sel.X, OpPos: sel.Pos()}
		case !wantPtr && havePtr:
			k.recvX = &ast.StarExpr{X: sel.X, Star: sel.Pos()}
		}
	}
	in.n++
	k.cl = &cloner{in: in, suffix: fmt.Sprintf("%s%d", mark, in.n), file: in.file}
	return in.usable(k)
}

func (in *inliner) alphaOnce(fd *ast.FuncDecl) { in.alpha(fd) }

// closure: the literal a local is defined with, if it is only ever called.
func (in *inliner) closure(name string) *ast.FuncLit {
	var l *ast.FuncLit
	defs, other := 0, 0
	called := map[*ast.Ident]bool{}
	ast.Inspect(in.cur.Body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == name {
				called[id] = true
			}
		case *ast.AssignStmt:
			for i, e := range x.Lhs {
				id, ok := e.(*ast.Ident)
				if ok && id.Name == "_" && len(x.Lhs) == 1 && len(x.Rhs) == 1 {
					if r, ok := x.Rhs[0].(*ast.Ident); ok && r.Name == name {
						called[r] = true
					}
				}
				if ok && id.Name == name {
					called[id] = true
					defs++
					if len(x.Rhs) == len(x.Lhs) {
						l, _ = ast.Unparen(x.Rhs[i]).(*ast.FuncLit)
					}
				}
			}
		case *ast.ValueSpec:
			for i, id := range x.Names {
				if id.Name == name {
					called[id] = true
					if i < len(x.Values) && len(x.Values) == len(x.Names) {
						defs++
						l, _ = ast.Unparen(x.Values[i]).(*ast.FuncLit)
					}
				}
			}
		case *ast.Ident:
			if x.Name == name && !called[x] {
				other++
			}
		}
		return true
	})
	if defs != 1 || other > 0 || l == nil {
		return nil
	}
	// not recursive
	rec := false
	ast.Inspect(l.Body, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && id.Name == name {
			rec = true
		}
		return true
	})
	if rec {
		return nil
	}
	return l
}

// dropClosures removes the literals of closures all calls of which were inlined.
func (in *inliner) dropClosures(fd *ast.FuncDecl) {
	uses := map[string]int{}
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok {
				uses[id.Name]++
			}
		}
		return true
	})
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE || len(x.Lhs) != 1 || len(x.Rhs) != 1 {
				return true
			}
			id, ok := x.Lhs[0].(*ast.Ident)
			l, ok2 := ast.Unparen(x.Rhs[0]).(*ast.FuncLit)
			if ok && ok2 && strings.Contains(id.Name, mark) && uses[id.Name] == 0 && in.closure(id.Name) != nil {
				x.Rhs[0] = &ast.CallExpr{Fun: &ast.ParenExpr{X: l.Type}, Args: []ast.Expr{ast.NewIdent("nil")}}
			}
		case *ast.ValueSpec:
			if len(x.Names) == 1 && len(x.Values) == 1 && strings.Contains(x.Names[0].Name, mark) && uses[x.Names[0].Name] == 0 {
				if l, ok := ast.Unparen(x.Values[0]).(*ast.FuncLit); ok && in.closure(x.Names[0].Name) != nil {
					x.Values[0] = &ast.CallExpr{Fun: &ast.ParenExpr{X: l.Type}, Args: []ast.Expr{ast.NewIdent("nil")}}
				}
			}
		}
		return true
	})
}

func size(n ast.Node) int {
	k := 0
	ast.Inspect(n, func(x ast.Node) bool {
		if _, ok := x.(ast.Stmt); ok {
			k++
		}
		return true
	})
	return k
}

// usable: the body can be inlined.
func (in *inliner) usable(k *callee) *callee {
	if size(k.body) > 400 {
		return nil
	}
	ok := true
	ast.Inspect(k.body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.Ident:
			if x.Name == "recover" {
				ok = false
			}
		case *ast.LabeledStmt, *ast.BranchStmt:
			if b, isB := x.(*ast.BranchStmt); isB && b.Tok != token.GOTO {
				return true
			}
			if k.cl.same {
				ok = false // labels would be declared twice
			}
		}
		return true
	})
	if !ok {
		return nil
	}
	return k
}

// defers of a body: simple ones run unconditionally at every later return.
func simpleDefers(b *ast.BlockStmt) bool {
	top := map[*ast.DeferStmt]bool{}
	for _, s := range b.List {
		if d, ok := s.(*ast.DeferStmt); ok {
			top[d] = true
		}
	}
	ok := true
	ast.Inspect(b, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.DeferStmt:
			if !top[x] {
				ok = false
			}
			if _, lit := x.Call.Fun.(*ast.FuncLit); lit {
				ok = false
			}
			for _, a := range x.Call.Args {
				switch a.(type) {
				case *ast.Ident, *ast.SelectorExpr, *ast.BasicLit:
				default:
					ok = false
				}
			}
		}
		return true
	})
	return ok
}

func hasDefers(b *ast.BlockStmt) bool {
	r := false
	ast.Inspect(b, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.DeferStmt:
			r = true
		}
		return true
	})
	return r
}

// list transforms a statement list; tail: nothing runs after it in the function.
func (in *inliner) list(l []ast.Stmt, tail bool) []ast.Stmt {
	var out []ast.Stmt
	for i := 0; i < len(l); i++ {
		in.nested(l[i], tail && i == len(l)-1)
		var next ast.Stmt
		if i+1 < len(l) {
			next = l[i+1]
		}
		rep, used, ok := in.stmt(l[i], next, tail && i == len(l)-1)
		if !ok {
			out = append(out, l[i])
			continue
		}
		in.did++
		out = append(out, rep...)
		if used {
			i++
		}
	}
	return out
}

// nested transforms the blocks inside a statement and inside the literals of
// its expressions.
func (in *inliner) nested(s ast.Stmt, tail bool) {
	switch x := s.(type) {
	case *ast.BlockStmt:
		x.List = in.list(x.List, tail)
	case *ast.IfStmt:
		x.Body.List = in.list(x.Body.List, tail)
		if x.Else != nil {
			if e, ok := x.Else.(*ast.IfStmt); ok {
				in.nested(e, tail)
				if e.Init != nil || in.condCall(e.Cond) != nil {
					if rep, _, ok := in.stmt(e, nil, tail); ok {
						in.did++
						x.Else = &ast.BlockStmt{Lbrace: e.Pos(), List: rep, Rbrace: e.End()}
					}
				}
			} else {
				in.nested(x.Else, tail)
			}
		}
		in.exprLits(x.Init)
		return
	case *ast.ForStmt:
		x.Body.List = in.list(x.Body.List, false)
	case *ast.RangeStmt:
		x.Body.List = in.list(x.Body.List, false)
	case *ast.SwitchStmt:
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = in.list(cc.Body, tail)
		}
	case *ast.TypeSwitchStmt:
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = in.list(cc.Body, tail)
		}
	case *ast.SelectStmt:
		for _, c := range x.Body.List {
			cc := c.(*ast.CommClause)
			cc.Body = in.list(cc.Body, tail)
		}
	case *ast.LabeledStmt:
		in.nested(x.Stmt, tail)
	default:
		in.exprLits(s)
	}
}

func (in *inliner) exprLits(n ast.Node) {
	if n == nil || reflect.ValueOf(n).IsNil() {
		return
	}
	ast.Inspect(n, func(x ast.Node) bool {
		if f, ok := x.(*ast.FuncLit); ok {
			f.Body.List = in.list(f.Body.List, true)
			return false
		}
		return true
	})
}

// condCall: the call a condition starts with.
func (in *inliner) condCall(e ast.Expr) *ast.CallExpr {
	c := firstCall(e)
	if c == nil || in.callee(c) == nil {
		return nil
	}
	return c
}

// firstCall returns the call that an expression evaluates first, if it is
// evaluated whenever the expression is.
func firstCall(e ast.Expr) *ast.CallExpr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return firstCall(x.X)
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			return nil
		}
		return firstCall(x.X)
	case *ast.StarExpr:
		return firstCall(x.X)
	case *ast.SelectorExpr:
		return firstCall(x.X)
	case *ast.BinaryExpr:
		if c := firstCall(x.X); c != nil {
			return c
		}
		if x.Op == token.LAND || x.Op == token.LOR || hasCall(x.X) {
			return nil
		}
		return firstCall(x.Y)
	case *ast.IndexExpr:
		if c := firstCall(x.X); c != nil {
			return c
		}
		if hasCall(x.X) {
			return nil
		}
		return firstCall(x.Index)
	case *ast.CallExpr:
		if _, lit := ast.Unparen(x.Fun).(*ast.FuncLit); !lit {
			if c := firstCall(x.Fun); c != nil {
				return c
			}
		}
		for _, a := range x.Args {
			if c := firstCall(a); c != nil {
				return c
			}
			if hasCall(a) {
				return nil
			}
		}
		return x
	case *ast.CompositeLit:
		for _, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				el = kv.Value
			}
			if c := firstCall(el); c != nil {
				return c
			}
			if hasCall(el) {
				return nil
			}
		}
	}
	return nil
}

func hasCall(e ast.Expr) bool {
	r := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			r = true
		}
		return true
	})
	return r
}

// inner finds a call to inline inside an expression: the innermost one that is
// evaluated before any other call.
func (in *inliner) inner(e ast.Expr) *ast.CallExpr {
	c := firstCall(e)
	for c != nil {
		if in.callee(c) != nil {
			return c
		}
		// a conversion or a builtin has no effect: look at what follows
		return in.outer(e, c)
	}
	return nil
}

// outer looks for an inlinable call that has c as (part of) its operands and
// nothing else before it.
func (in *inliner) outer(e ast.Expr, c *ast.CallExpr) *ast.CallExpr {
	var best *ast.CallExpr
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.BinaryExpr:
			if x.Op == token.LAND || x.Op == token.LOR {
				return false
			}
		case *ast.CallExpr:
			if x != c && in.callee(x) != nil && best == nil {
				// every other call of the expression encloses it
				ok := true
				ast.Inspect(e, func(m ast.Node) bool {
					if y, isC := m.(*ast.CallExpr); isC && y != x {
						enc := y.Pos() <= x.Pos() && x.End() <= y.End()
						ins := x.Pos() <= y.Pos() && y.End() <= x.End()
						if !enc && !ins {
							ok = false
						}
					}
					return true
				})
				if ok {
					best = x
				}
			}
		}
		return true
	})
	return best
}

// replaceExpr replaces an expression node inside a statement or expression.
func replaceExpr(root ast.Node, old, new ast.Expr) {
	var walk func(v reflect.Value)
	seen := map[uintptr]bool{}
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface:
			if v.IsNil() {
				return
			}
			if e, ok := v.Interface().(ast.Expr); ok && e == old && v.CanSet() {
				v.Set(reflect.ValueOf(new))
				return
			}
			walk(v.Elem())
		case reflect.Ptr:
			if v.IsNil() || v.Type() == tObject || v.Type() == tScope || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			walk(v.Elem())
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		}
	}
	walk(reflect.ValueOf(root))
}

// stmt gives the statements that replace s (and next, if used).
func (in *inliner) stmt(s, next ast.Stmt, tail bool) (rep []ast.Stmt, used, ok bool) {
	switch x := s.(type) {
	case *ast.ExprStmt:
		if c, isC := ast.Unparen(x.X).(*ast.CallExpr); isC {
			if k := in.callee(c); k != nil {
				return in.expand(c, k, nil, token.ILLEGAL, nil, tail)
			}
		}
		return in.hoist(s, []ast.Expr{x.X}, next, tail)
	case *ast.AssignStmt:
		if len(x.Rhs) == 1 {
			if c, isC := ast.Unparen(x.Rhs[0]).(*ast.CallExpr); isC && (x.Tok == token.ASSIGN || x.Tok == token.DEFINE) {
				if k := in.callee(c); k != nil && nResults(k.typ) == len(x.Lhs) {
					return in.expand(c, k, x.Lhs, x.Tok, next, false)
				}
			}
		}
		for _, e := range x.Lhs {
			if hasCall(e) {
				return nil, false, false
			}
		}
		return in.hoist(s, x.Rhs, next, tail)
	case *ast.ReturnStmt:
		if len(x.Results) == 1 {
			if c, isC := ast.Unparen(x.Results[0]).(*ast.CallExpr); isC {
				if k := in.callee(c); k != nil {
					if r, done := in.expandReturn(c, k); done {
						return r, false, true
					}
				}
			}
		}
		return in.hoist(s, x.Results, next, tail)
	case *ast.DeclStmt:
		g, isG := x.Decl.(*ast.GenDecl)
		if !isG || g.Tok != token.VAR || len(g.Specs) != 1 {
			return nil, false, false
		}
		v := g.Specs[0].(*ast.ValueSpec)
		if len(v.Values) != 1 || len(v.Names) != 1 {
			return nil, false, false
		}
		if c, isC := ast.Unparen(v.Values[0]).(*ast.CallExpr); isC {
			if k := in.callee(c); k != nil && nResults(k.typ) == 1 {
				if v.Type == nil {
					return in.expand(c, k, []ast.Expr{v.Names[0]}, token.DEFINE, next, false)
				}
				v.Values = nil
				r, u, ok := in.expand(c, k, []ast.Expr{v.Names[0]}, token.ASSIGN, next, false)
				if ok {
					return append([]ast.Stmt{s}, r...), u, true
				}
				v.Values = []ast.Expr{c}
			}
		}
		return in.hoist(s, v.Values, next, tail)
	case *ast.IfStmt:
		if x.Init != nil {
			if c := in.initCall(x.Init); c != nil {
				init := x.Init
				x.Init = nil
				b := &ast.BlockStmt{Lbrace: x.Pos(), List: in.list([]ast.Stmt{init, x}, tail), Rbrace: x.End()}
				return []ast.Stmt{b}, false, true
			}
			return nil, false, false
		}
		if c := in.inner(x.Cond); c != nil && in.resultsOf(c) == 1 {
			id := in.fresh("c")
			as := &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, TokPos: c.Pos(), Rhs: []ast.Expr{c}}
			use := &ast.Ident{Name: id.Name, NamePos: c.Pos()}
			x.Cond = substExpr(x.Cond, c, use)
			b := &ast.BlockStmt{Lbrace: x.Pos(), List: in.list([]ast.Stmt{as, x}, tail), Rbrace: x.End()}
			return []ast.Stmt{b}, false, true
		}
	case *ast.SwitchStmt:
		if x.Init != nil {
			if c := in.initCall(x.Init); c != nil {
				init := x.Init
				x.Init = nil
				b := &ast.BlockStmt{Lbrace: x.Pos(), List: in.list([]ast.Stmt{init, x}, tail), Rbrace: x.End()}
				return []ast.Stmt{b}, false, true
			}
			return nil, false, false
		}
		if x.Tag != nil {
			if c := in.inner(x.Tag); c != nil && in.resultsOf(c) == 1 {
				id := in.fresh("c")
				as := &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, TokPos: c.Pos(), Rhs: []ast.Expr{c}}
				x.Tag = substExpr(x.Tag, c, &ast.Ident{Name: id.Name, NamePos: c.Pos()})
				b := &ast.BlockStmt{Lbrace: x.Pos(), List: in.list([]ast.Stmt{as, x}, tail), Rbrace: x.End()}
				return []ast.Stmt{b}, false, true
			}
		}
	case *ast.RangeStmt:
		if c := in.inner(x.X); c != nil && in.resultsOf(c) == 1 {
			id := in.fresh("c")
			as := &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, TokPos: c.Pos(), Rhs: []ast.Expr{c}}
			x.X = substExpr(x.X, c, &ast.Ident{Name: id.Name, NamePos: c.Pos()})
			r := in.list([]ast.Stmt{as}, false)
			return append(r, x), false, true
		}
	case *ast.SendStmt:
		return in.hoist(s, []ast.Expr{x.Value}, next, tail)
	}
	return nil, false, false
}

func substExpr(e ast.Expr, old, new ast.Expr) ast.Expr {
	if e == old {
		return new
	}
	replaceExpr(e, old, new)
	return e
}

func (in *inliner) resultsOf(c *ast.CallExpr) int {
	if k := in.callee(c); k != nil {
		return nResults(k.typ)
	}
	return -1
}

func (in *inliner) initCall(s ast.Stmt) *ast.CallExpr {
	switch x := s.(type) {
	case *ast.AssignStmt:
		if len(x.Rhs) == 1 {
			return in.inner(x.Rhs[0])
		}
	case *ast.ExprStmt:
		return in.inner(x.X)
	}
	return nil
}

func nResults(t *ast.FuncType) int {
	n := 0
	if t.Results != nil {
		for _, f := range t.Results.List {
			if len(f.Names) == 0 {
				n++
			}
			n += len(f.Names)
		}
	}
	return n
}

// hoist moves a call out of the expressions of a simple statement.
func (in *inliner) hoist(s ast.Stmt, es []ast.Expr, next ast.Stmt, tail bool) ([]ast.Stmt, bool, bool) {
	for _, e := range es {
		c := in.inner(e)
		if c != nil && in.resultsOf(c) == 1 {
			id := in.fresh("c")
			as := &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, TokPos: c.Pos(), Rhs: []ast.Expr{c}}
			replaceExpr(s, c, &ast.Ident{Name: id.Name, NamePos: c.Pos()})
			return in.list([]ast.Stmt{as, s}, tail), false, true
		}
		if hasCall(e) {
			return nil, false, false
		}
	}
	return nil, false, false
}

// bind declares the parameters of the callee with the arguments.
func (in *inliner) bind(c *ast.CallExpr, k *callee) ([]ast.Stmt, bool) {
	var out []ast.Stmt
	one := func(name *ast.Ident, typ ast.Expr, val ast.Expr) {
		if name == nil || name.Name == "_" {
			out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, TokPos: c.Pos(), Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.CallExpr{Fun: &ast.ParenExpr{X: k.cl.node(typ).(ast.Expr)}, Args: []ast.Expr{val}}}})
			return
		}
		n := k.cl.node(name).(*ast.Ident)
		out = append(out, varStmt(n, k.cl.node(typ).(ast.Expr), val, c.Pos()), useStmt(n, c.Pos()))
	}
	if k.recv != nil {
		f := k.recv.List[0]
		var n *ast.Ident
		if len(f.Names) > 0 {
			n = f.Names[0]
		}
		if n != nil && n.Name != "_" {
			one(n, f.Type, k.recvX)
		}
	}
	args := c.Args
	var names []*ast.Ident
	var typs []ast.Expr
	for _, f := range k.typ.Params.List {
		if len(f.Names) == 0 {
			names = append(names, nil)
			typs = append(typs, f.Type)
		}
		for _, n := range f.Names {
			names = append(names, n)
			typs = append(typs, f.Type)
		}
	}
	for i := range names {
		if e, ok := typs[i].(*ast.Ellipsis); ok {
			at := &ast.ArrayType{Elt: e.Elt}
			if c.Ellipsis.IsValid() {
				if i >= len(args) {
					return nil, false
				}
				one(names[i], at, args[i])
			} else if i >= len(args) {
				one(names[i], at, ast.NewIdent("nil"))
			} else {
				one(names[i], at, &ast.CompositeLit{Type: k.cl.node(at).(ast.Expr), Lbrace: c.Pos(), Elts: args[i:], Rbrace: c.Pos()})
			}
			return out, true
		}
		if i >= len(args) {
			return nil, false // f(g()) with several results
		}
		one(names[i], typs[i], args[i])
	}
	if len(args) != len(names) {
		return nil, false
	}
	return out, true
}

func varStmt(n *ast.Ident, t, v ast.Expr, pos token.Pos) ast.Stmt {
	vs := &ast.ValueSpec{Names: []*ast.Ident{n}, Type: t}
	if v != nil {
		vs.Values = []ast.Expr{v}
	}
	return &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, TokPos: pos, Specs: []ast.Spec{vs}}}
}

func useStmt(n *ast.Ident, pos token.Pos) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, TokPos: pos, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.Ident{Name: n.Name, NamePos: pos}}}
}

// expandReturn: "return f(args)"; the body returns from the caller.
func (in *inliner) expandReturn(c *ast.CallExpr, k *callee) ([]ast.Stmt, bool) {
	pre, ok := in.bind(c, k)
	if !ok {
		return nil, false
	}
	body := k.cl.node(k.body).(*ast.BlockStmt)
	in.spend(k)
	res, named := in.results(k)
	if named {
		for _, r := range res {
			pre = append(pre, varStmt(r.id, r.typ, nil, c.Pos()), useStmt(r.id, c.Pos()))
		}
		eachReturn(body, func(r *ast.ReturnStmt) []ast.Stmt {
			if len(r.Results) == 0 {
				for _, x := range res {
					r.Results = append(r.Results, &ast.Ident{Name: x.id.Name, NamePos: r.Pos()})
				}
			}
			return nil
		})
	}
	body.List = append(pre, body.List...)
	return []ast.Stmt{body}, true
}

type result struct {
	id     *ast.Ident
	typ    ast.Expr
	shared bool // stands for a variable of the caller
}

func (in *inliner) results(k *callee) ([]result, bool) {
	var out []result
	named := false
	if k.typ.Results == nil {
		return nil, false
	}
	for _, f := range k.typ.Results.List {
		if len(f.Names) == 0 {
			out = append(out, result{nil, k.cl.node(f.Type).(ast.Expr), false})
		}
		for _, n := range f.Names {
			named = true
			id := in.fresh("r")
			if n.Name != "_" {
				id = k.cl.node(n).(*ast.Ident)
			}
			out = append(out, result{id, k.cl.node(f.Type).(ast.Expr), false})
		}
	}
	return out, named
}

func (in *inliner) spend(k *callee) {
	in.budget -= size(k.body)
	if k.decl != nil {
		if g, ok := in.info.Defs[k.decl.Name].(*types.Func); ok {
			in.inlined[g] = true
		}
	}
}

// eachReturn replaces the return statements of a body (not of its literals).
func eachReturn(b ast.Node, f func(*ast.ReturnStmt) []ast.Stmt) {
	var do func(l []ast.Stmt) []ast.Stmt
	var walk func(s ast.Stmt)
	do = func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			if r, ok := s.(*ast.ReturnStmt); ok {
				if rep := f(r); rep != nil {
					out = append(out, rep...)
					continue
				}
				out = append(out, s)
				continue
			}
			walk(s)
			out = append(out, s)
		}
		return out
	}
	walk = func(s ast.Stmt) {
		switch x := s.(type) {
		case *ast.BlockStmt:
			x.List = do(x.List)
		case *ast.IfStmt:
			x.Body.List = do(x.Body.List)
			if x.Else != nil {
				walk(x.Else)
			}
		case *ast.ForStmt:
			x.Body.List = do(x.Body.List)
		case *ast.RangeStmt:
			x.Body.List = do(x.Body.List)
		case *ast.SwitchStmt:
			walk(x.Body)
		case *ast.TypeSwitchStmt:
			walk(x.Body)
		case *ast.SelectStmt:
			walk(x.Body)
		case *ast.CaseClause:
			x.Body = do(x.Body)
		case *ast.CommClause:
			x.Body = do(x.Body)
		case *ast.LabeledStmt:
			walk(x.Stmt)
		}
	}
	switch x := b.(type) {
	case *ast.BlockStmt:
		// clauses are statements of a block
		x.List = do(x.List)
	}
}

// expand replaces "lhs = f(args)" and, if it can be decided at the returns of
// the callee, the statement that follows.
func (in *inliner) expand(c *ast.CallExpr, k *callee, lhs []ast.Expr, tok token.Token, next ast.Stmt, tail bool) ([]ast.Stmt, bool, bool) {
	defers := hasDefers(k.body)
	if defers && !simpleDefers(k.body) && !(tail && lhs == nil) {
		return nil, false, false
	}
	keepDefers := defers && tail && lhs == nil && !simpleDefers(k.body)
	bind, ok := in.bind(c, k)
	if !ok {
		return nil, false, false
	}
	body := k.cl.node(k.body).(*ast.BlockStmt)
	in.spend(k)
	res, named := in.results(k)
	pos := c.Pos()
	var out []ast.Stmt // declarations before the block
	// variables the statement defines
	if tok == token.DEFINE {
		for i, e := range lhs {
			id := e.(*ast.Ident)
			if id.Name == "_" {
				continue
			}
			if o, isDef := in.info.Defs[id]; isDef && o == nil {
				continue
			} else if !isDef && in.info.Uses[id] != nil {
				continue // assigned only
			}
			out = append(out, varStmt(&ast.Ident{Name: id.Name, NamePos: id.NamePos}, in.clone(res[i].typ).(ast.Expr), nil, pos), useStmt(id, pos))
		}
	}
	pre := bind
	pre = in.coalesce(body, lhs, res, named, pre)
	if named {
		for _, r := range res {
			if r.shared {
				continue
			}
			pre = append(pre, varStmt(r.id, r.typ, nil, pos), useStmt(r.id, pos))
		}
	}
	// deferred calls, in order of the statements
	type dfr struct {
		pos  token.Pos
		call *ast.CallExpr
	}
	var ds []dfr
	if defers && !keepDefers {
		var l []ast.Stmt
		for _, s := range body.List {
			if d, ok := s.(*ast.DeferStmt); ok {
				ds = append(ds, dfr{d.Pos(), d.Call})
				continue
			}
			l = append(l, s)
		}
		body.List = l
	}
	runDefers := func(at token.Pos, end bool) []ast.Stmt {
		var r []ast.Stmt
		for i := len(ds) - 1; i >= 0; i-- {
			if end || ds[i].pos < at {
				r = append(r, &ast.ExprStmt{X: in.clone(ds[i].call).(ast.Expr)})
			}
		}
		return r
	}
	// what follows
	nret := 0
	eachReturn(body, func(*ast.ReturnStmt) []ast.Stmt { nret++; return nil })
	thread := next != nil && in.threadable(next, nret)
	known := in.returnNilness(body, bind)
	var cond func(r *ast.ReturnStmt, es []ast.Expr) int // 1 true, -1 false, 0 unknown
	if thread {
		switch x := next.(type) {
		case *ast.IfStmt:
			idx, neg, nilCmp := condOn(x.Cond, lhs)
			if idx < 0 {
				thread = false
				break
			}
			cond = func(r *ast.ReturnStmt, es []ast.Expr) int {
				if len(es) != len(lhs) {
					return 0
				}
				v := 0
				if nilCmp {
					if idx < len(known[r]) {
						v = known[r][idx] // 1 non-nil
					}
				} else if id, ok := es[idx].(*ast.Ident); ok {
					if id.Name == "true" {
						v = 1
					} else if id.Name == "false" {
						v = -1
					}
				}
				if neg {
					v = -v
				}
				return v
			}
		case *ast.ReturnStmt:
		default:
			thread = false
		}
	}
	label := in.fresh("L")
	breaks := 0
	br := func() ast.Stmt {
		breaks++
		return &ast.BranchStmt{TokPos: pos, Tok: token.BREAK, Label: &ast.Ident{Name: label.Name, NamePos: pos}}
	}
	follow := func(r *ast.ReturnStmt, es []ast.Expr) ([]ast.Stmt, bool) { // statements; whether control goes on behind the block
		if !thread {
			return nil, true
		}
		switch x := next.(type) {
		case *ast.ReturnStmt:
			return []ast.Stmt{in.clone(x).(ast.Stmt)}, false
		case *ast.IfStmt:
			switch cond(r, es) {
			case 1:
				b := in.clone(x.Body).(*ast.BlockStmt)
				return []ast.Stmt{b}, !terminal(x.Body)
			case -1:
				if x.Else == nil {
					return nil, true
				}
				return []ast.Stmt{in.clone(x.Else).(ast.Stmt)}, !terminalS(x.Else)
			}
			return []ast.Stmt{in.clone(x).(ast.Stmt)}, !(x.Else != nil && terminal(x.Body) && terminalS(x.Else))
		}
		return nil, true
	}
	assign := func(es []ast.Expr, at token.Pos) []ast.Stmt {
		if lhs == nil {
			var r []ast.Stmt
			for _, e := range es {
				if cl, ok := ast.Unparen(e).(*ast.CallExpr); ok && in.isCall(cl) {
					r = append(r, &ast.ExprStmt{X: cl})
				}
			}
			return r
		}
		var ls []ast.Expr
		for _, l := range lhs {
			ls = append(ls, in.clone(l).(ast.Expr))
		}
		if len(es) == len(ls) {
			var l2, e2 []ast.Expr
			for i := range ls {
				if es[i] == nil || isIdentNamed(ls[i], "_") && isLit(es[i]) {
					continue
				}
				if a, ok := ls[i].(*ast.Ident); ok && isIdentNamed(es[i], a.Name) {
					continue
				}
				l2, e2 = append(l2, ls[i]), append(e2, es[i])
			}
			ls, es = l2, e2
		}
		if len(ls) == 0 {
			return nil
		}
		return []ast.Stmt{&ast.AssignStmt{Lhs: ls, TokPos: at, Tok: token.ASSIGN, Rhs: es}}
	}
	var last ast.Stmt
	if len(body.List) > 0 {
		last = body.List[len(body.List)-1]
	}
	eachReturn(body, func(r *ast.ReturnStmt) []ast.Stmt {
		es := r.Results
		if len(es) == 0 && named {
			for _, x := range res {
				es = append(es, &ast.Ident{Name: x.id.Name, NamePos: r.Pos()})
			}
		}
		f, on := follow(r, es)
		if !on {
			es = in.dropDead(es, lhs, f)
		}
		rep := assign(es, r.Pos())
		if !keepDefers {
			rep = append(rep, runDefers(r.Pos(), false)...)
		}
		rep = append(rep, f...)
		if on && ast.Stmt(r) != last {
			rep = append(rep, br())
		}
		if rep == nil {
			rep = []ast.Stmt{&ast.EmptyStmt{Semicolon: r.Pos()}}
		}
		return rep
	})
	if _, isRet := last.(*ast.ReturnStmt); !isRet && lhs == nil && !keepDefers {
		body.List = append(body.List, runDefers(0, true)...)
	}
	body.List = append(pre, body.List...)
	if breaks == 0 {
		out = append(out, body)
	} else {
		body.List = append(body.List, &ast.BranchStmt{TokPos: pos, Tok: token.BREAK, Label: &ast.Ident{Name: label.Name, NamePos: pos}})
		out = append(out, &ast.LabeledStmt{Label: label, Colon: pos, Stmt: &ast.ForStmt{For: pos, Body: body}})
	}
	return out, thread, true
}

// coalesce lets a variable that the statement defines stand for the local
// variable of the inlined body that is returned for it, so that an object built
// in a helper and handed over by value is one object.
func (in *inliner) coalesce(body *ast.BlockStmt, lhs []ast.Expr, res []result, named bool, bind []ast.Stmt) []ast.Stmt {
	for i, e := range lhs {
		id, ok := e.(*ast.Ident)
		if !ok || id.Name == "_" || in.obj(id) == nil {
			continue
		}
		def := in.obj(id)
		if _, ok := def.Type().Underlying().(*types.Struct); !ok {
			if _, ok := def.Type().Underlying().(*types.Array); !ok {
				continue
			}
		}
		name, fits := "", true
		eachReturn(body, func(r *ast.ReturnStmt) []ast.Stmt {
			if len(r.Results) != len(lhs) {
				fits = fits && len(r.Results) == 0 && named && (name == "" || name == res[i].id.Name)
				if fits {
					name = res[i].id.Name
				}
				return nil
			}
			switch x := ast.Unparen(r.Results[i]).(type) {
			case *ast.Ident:
				if name == "" {
					name = x.Name
				}
				fits = fits && name == x.Name
			case *ast.CompositeLit:
				fits = fits && len(x.Elts) == 0
			default:
				fits = false
			}
			return nil
		})
		if !fits || name == "" {
			continue
		}
		done := false
		for j, s := range bind {
			// a parameter that starts as the variable
			v := varSpec(s)
			if v == nil || v.Names[0].Name != name || len(v.Values) != 1 || !isIdentNamed(v.Values[0], id.Name) {
				continue
			}
			n := 0
			for _, s := range bind {
				ast.Inspect(s, func(m ast.Node) bool {
					if x, ok := m.(*ast.Ident); ok && x.Name == id.Name {
						n++
					}
					return true
				})
			}
			if n == 1 {
				bind = append(append([]ast.Stmt{}, bind[:j]...), bind[j+2:]...)
				done = true
				break
			}
		}
		switch {
		case done || in.info.Defs[id] == nil:
		case named && res[i].id.Name == name:
			res[i].id, res[i].shared = &ast.Ident{Name: id.Name, NamePos: id.NamePos}, true
			done = true
		default:
			for j, s := range body.List {
				if v := varSpec(s); v != nil && v.Names[0].Name == name && len(v.Values) == 0 {
					body.List[j] = &ast.EmptyStmt{Semicolon: s.Pos()}
					done = true
				}
				if a, ok := s.(*ast.AssignStmt); ok && a.Tok == token.DEFINE && len(a.Lhs) == 1 && isIdentNamed(a.Lhs[0], name) {
					a.Tok = token.ASSIGN
					done = true
				}
			}
		}
		if !done {
			continue
		}
		ast.Inspect(body, func(n ast.Node) bool {
			if x, ok := n.(*ast.Ident); ok && x.Name == name {
				if _, isField := in.info.Uses[x].(*types.Func); isField {
					return true
				}
				x.Name = id.Name
				in.info.Uses[x] = def
			}
			return true
		})
	}
	return bind
}

func varSpec(s ast.Stmt) *ast.ValueSpec {
	d, ok := s.(*ast.DeclStmt)
	if !ok {
		return nil
	}
	g, ok := d.Decl.(*ast.GenDecl)
	if !ok || g.Tok != token.VAR || len(g.Specs) != 1 {
		return nil
	}
	if v := g.Specs[0].(*ast.ValueSpec); len(v.Names) == 1 {
		return v
	}
	return nil
}

// dropDead leaves out (as nil) the values for local variables that the
// statements f, which end the function, do not mention.
func (in *inliner) dropDead(es, lhs []ast.Expr, f []ast.Stmt) []ast.Expr {
	if len(es) != len(lhs) || len(f) == 0 || !terminalS(f[len(f)-1]) {
		return es
	}
	names := map[string]bool{}
	branch := false
	for _, s := range f {
		ast.Inspect(s, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.Ident:
				names[x.Name] = true
			case *ast.BranchStmt:
				branch = true
			case *ast.ReturnStmt:
				if len(x.Results) == 0 {
					branch = true
				}
			}
			return true
		})
	}
	if branch {
		return es
	}
	if in.cur.Type.Results != nil {
		for _, fl := range in.cur.Type.Results.List {
			for _, id := range fl.Names {
				names[id.Name] = true
			}
		}
	}
	r := append([]ast.Expr{}, es...)
	for i, l := range lhs {
		if id, ok := l.(*ast.Ident); ok && !names[id.Name] && !hasCall(es[i]) {
			if v, ok := in.obj(id).(*types.Var); ok && v.Parent() == in.p.Types.Scope() {
				continue
			}
			r[i] = nil
		}
	}
	return r
}

func (in *inliner) obj(id *ast.Ident) types.Object {
	if o := in.info.Defs[id]; o != nil {
		return o
	}
	return in.info.Uses[id]
}

func (in *inliner) isCall(c *ast.CallExpr) bool {
	tv, ok := in.info.Types[c.Fun]
	return !ok || !tv.IsType() && !tv.IsBuiltin()
}

func isIdentNamed(e ast.Expr, n string) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == n
}

func isLit(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.BasicLit:
		return true
	case *ast.Ident:
		return x.Name == "nil" || x.Name == "true" || x.Name == "false" || x.Name == "_"
	}
	return false
}

// condOn: the condition tests one of the assigned variables.
func condOn(e ast.Expr, lhs []ast.Expr) (idx int, neg, nilCmp bool) {
	find := func(x ast.Expr) int {
		id, ok := x.(*ast.Ident)
		if !ok || id.Name == "_" {
			return -1
		}
		for i, l := range lhs {
			if isIdentNamed(l, id.Name) {
				return i
			}
		}
		return -1
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return condOn(x.X, lhs)
	case *ast.Ident:
		return find(x), false, false
	case *ast.UnaryExpr:
		if x.Op == token.NOT {
			i, n, c := condOn(x.X, lhs)
			return i, !n, c
		}
	case *ast.BinaryExpr:
		if x.Op == token.EQL || x.Op == token.NEQ {
			a, b := x.X, x.Y
			if isIdentNamed(a, "nil") {
				a, b = b, a
			}
			if isIdentNamed(b, "nil") {
				return find(a), x.Op == token.EQL, true
			}
		}
	}
	return -1, false, false
}

// nilness of a returned expression: 1 certainly not nil, -1 nil, 0 unknown.
func (in *inliner) nilness(e ast.Expr, env nilEnv, never map[string]bool) int {
	switch x := ast.Unparen(e).(type) {
	case *ast.Ident:
		if x.Name == "nil" {
			return -1
		}
		if v, ok := in.info.Uses[x].(*types.Var); ok && v.Parent() == in.p.Types.Scope() && types.Identical(v.Type(), types.Universe.Lookup("error").Type()) {
			return 1 // a sentinel error
		}
		if !never[x.Name] {
			return env[x.Name]
		}
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			return 1
		}
	case *ast.CompositeLit:
		return 1
	case *ast.SelectorExpr:
		if v, ok := in.info.Uses[x.Sel].(*types.Var); ok && !v.IsField() && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() && types.Identical(v.Type(), types.Universe.Lookup("error").Type()) {
			return 1
		}
	case *ast.CallExpr:
		if s, ok := x.Fun.(*ast.SelectorExpr); ok {
			if f, ok := in.info.Uses[s.Sel].(*types.Func); ok && f.Pkg() != nil {
				switch shortPath(f.Pkg().Path()) + "." + f.Name() {
				case "errors.New", "fmt.Errorf", "log.Errorf":
					return 1
				case "log.Error", "log.Critical", "log.Warn":
					if len(x.Args) == 1 {
						if id, ok := x.Args[0].(*ast.Ident); ok {
							if v, ok := in.info.Uses[id].(*types.Var); ok && types.Identical(v.Type(), types.Universe.Lookup("error").Type()) {
								return in.nilness(id, env, never)
							}
						}
					}
					return 1
				}
			}
		}
	}
	return 0
}

// nilEnv is what is known of the variables (by name: all names are distinct
// after renaming) at a place: 1 not nil, -1 nil.
type nilEnv map[string]int

func (e nilEnv) copy() nilEnv {
	r := nilEnv{}
	for k, v := range e {
		r[k] = v
	}
	return r
}

// learn adds what holds where the condition is t.
func (e nilEnv) learn(c ast.Expr, t bool) {
	switch x := ast.Unparen(c).(type) {
	case *ast.UnaryExpr:
		if x.Op == token.NOT {
			e.learn(x.X, !t)
		}
	case *ast.BinaryExpr:
		switch {
		case x.Op == token.LAND && t, x.Op == token.LOR && !t:
			e.learn(x.X, t)
			e.learn(x.Y, t)
		case x.Op == token.EQL || x.Op == token.NEQ:
			a, b := x.X, x.Y
			if isIdentNamed(a, "nil") {
				a, b = b, a
			}
			if id, ok := a.(*ast.Ident); ok && isIdentNamed(b, "nil") {
				if t == (x.Op == token.EQL) {
					e[id.Name] = -1
				} else {
					e[id.Name] = 1
				}
			}
		}
	}
}

func assignedNames(n ast.Node) map[string]bool {
	r := map[string]bool{}
	if n == nil || reflect.ValueOf(n).IsNil() {
		return r
	}
	add := func(e ast.Expr) {
		if id, ok := ast.Unparen(e).(*ast.Ident); ok {
			r[id.Name] = true
		}
	}
	ast.Inspect(n, func(m ast.Node) bool {
		switch x := m.(type) {
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				add(l)
			}
		case *ast.RangeStmt:
			if x.Key != nil {
				add(x.Key)
			}
			if x.Value != nil {
				add(x.Value)
			}
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				add(x.X)
			}
		case *ast.DeclStmt:
			if g, ok := x.Decl.(*ast.GenDecl); ok {
				for _, sp := range g.Specs {
					if v, ok := sp.(*ast.ValueSpec); ok {
						for _, id := range v.Names {
							r[id.Name] = true
						}
					}
				}
			}
		}
		return true
	})
	return r
}

// returnNilness tells for each return of the body what is known of its results.
func (in *inliner) returnNilness(body *ast.BlockStmt, bind []ast.Stmt) map[*ast.ReturnStmt][]int {
	out := map[*ast.ReturnStmt][]int{}
	never := map[string]bool{}
	ast.Inspect(body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			for k := range assignedNames(x.Body) {
				never[k] = true
			}
		case *ast.UnaryExpr:
			if id, ok := ast.Unparen(x.X).(*ast.Ident); ok && x.Op == token.AND {
				never[id.Name] = true
			}
		}
		return true
	})
	var list func(l []ast.Stmt, e nilEnv)
	kill := func(e nilEnv, n ast.Node) {
		for k := range assignedNames(n) {
			delete(e, k)
		}
	}
	var stmt func(s ast.Stmt, e nilEnv)
	list = func(l []ast.Stmt, e nilEnv) {
		for _, s := range l {
			stmt(s, e)
		}
	}
	stmt = func(s ast.Stmt, e nilEnv) {
		switch x := s.(type) {
		case *ast.ReturnStmt:
			for _, r := range x.Results {
				out[x] = append(out[x], in.nilness(r, e, never))
			}
		case *ast.BlockStmt:
			list(x.List, e)
		case *ast.LabeledStmt:
			kill(e, x.Stmt)
			stmt(x.Stmt, e.copy())
		case *ast.IfStmt:
			if x.Init != nil {
				stmt(x.Init, e)
			}
			t, f := e.copy(), e.copy()
			t.learn(x.Cond, true)
			f.learn(x.Cond, false)
			list(x.Body.List, t)
			if x.Else != nil {
				stmt(x.Else, f)
			}
			kill(e, x.Body)
			kill(e, x.Else)
			if terminal(x.Body) {
				if x.Else != nil {
					kill(f, x.Else)
				}
				for k, v := range f {
					e[k] = v
				}
			}
		case *ast.AssignStmt:
			var vs []int
			if len(x.Lhs) == len(x.Rhs) {
				for _, r := range x.Rhs {
					vs = append(vs, in.nilness(r, e, never))
				}
			}
			kill(e, x)
			for i, v := range vs {
				if id, ok := x.Lhs[i].(*ast.Ident); ok && v != 0 && (x.Tok == token.ASSIGN || x.Tok == token.DEFINE) {
					e[id.Name] = v
				}
			}
		case *ast.DeclStmt:
			kill(e, x)
			if g, ok := x.Decl.(*ast.GenDecl); ok {
				for _, sp := range g.Specs {
					if v, ok := sp.(*ast.ValueSpec); ok && len(v.Values) == len(v.Names) {
						for i, id := range v.Names {
							if n := in.nilness(v.Values[i], e, never); n != 0 {
								e[id.Name] = n
							}
						}
					}
				}
			}
		case *ast.ForStmt:
			kill(e, x)
			list(x.Body.List, e.copy())
		case *ast.RangeStmt:
			kill(e, x)
			list(x.Body.List, e.copy())
		case *ast.SwitchStmt:
			kill(e, x)
			list(x.Body.List, e.copy())
		case *ast.TypeSwitchStmt:
			kill(e, x)
			list(x.Body.List, e.copy())
		case *ast.SelectStmt:
			kill(e, x)
			list(x.Body.List, e.copy())
		case *ast.CaseClause:
			list(x.Body, e.copy())
		case *ast.CommClause:
			list(x.Body, e.copy())
		}
	}
	e := nilEnv{}
	list(bind, e)
	list(body.List, e)
	return out
}

// threadable: the statement can be copied to the returns of an inlined body.
func (in *inliner) threadable(s ast.Stmt, n int) bool {
	switch x := s.(type) {
	case *ast.IfStmt:
		if x.Init != nil {
			return false
		}
	case *ast.ReturnStmt:
	default:
		return false
	}
	if n > 1 && size(s)*n > 150 {
		return false
	}
	ok := true
	depth := 0
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			switch y := m.(type) {
			case *ast.FuncLit:
				ok = false
				return false
			case *ast.LabeledStmt:
				ok = false
			case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				if m != n {
					depth++
					walk(m)
					depth--
					return false
				}
			case *ast.BranchStmt:
				if y.Label == nil && depth == 0 {
					ok = false
				}
			}
			return true
		})
	}
	walk(s)
	return ok
}

func terminal(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return false
	}
	return terminalS(b.List[len(b.List)-1])
}

func terminalS(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return true
	case *ast.BlockStmt:
		return terminal(x)
	case *ast.IfStmt:
		return x.Else != nil && terminal(x.Body) && terminalS(x.Else)
	}
	return false
}
