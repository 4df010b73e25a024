package main

// Mutation of the analysed tree in memory (development only): which realistic
// one-place changes do the rules not see?

import (
	"fmt"
	"go/ast"
	goparser "go/parser"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

type mutant struct {
	file       string
	start, end int
	repl       string
	kind       string
	fn         string
	line       int
	old        string
}

type mutator struct {
	P    *Program
	p    *packages.Package
	src  []byte
	file *token.File
	fn   string
	out  []*mutant
	decl *ast.FuncDecl
}

func (m *mutator) off(p token.Pos) int { return m.file.Offset(p) }
func (m *mutator) text(n ast.Node) string {
	return string(m.src[m.off(n.Pos()):m.off(n.End())])
}
func (m *mutator) put(kind string, n ast.Node, repl string) {
	m.out = append(m.out, &mutant{file: m.file.Name(), start: m.off(n.Pos()), end: m.off(n.End()), repl: repl, kind: kind, fn: m.fn, line: m.file.Line(n.Pos()), old: m.text(n)})
}

func isLogStmt(s string) bool {
	for _, p := range []string{"log.", "fmt.Fprint", "fmt.Print"} {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

func (m *mutator) node(n ast.Node) bool {
	info := m.p.TypesInfo
	switch x := n.(type) {
	case *ast.IfStmt:
		m.put("if-false", x.Cond, "false && ("+m.text(x.Cond)+")")
		m.put("if-true", x.Cond, "true || ("+m.text(x.Cond)+")")
	case *ast.BinaryExpr:
		sw := map[token.Token]string{token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">"}
		if r, ok := sw[x.Op]; ok {
			m.put("relop", x, m.text(x.X)+" "+r+" "+m.text(x.Y))
		}
		if x.Op == token.NEQ && isIntType(info.TypeOf(x.X)) {
			m.put("relop", x, m.text(x.X)+" < "+m.text(x.Y))
			m.put("relop", x, m.text(x.X)+" > "+m.text(x.Y))
		}
		if x.Op == token.LAND {
			m.put("drop-and", x.X, "(true || ("+m.text(x.X)+"))")
			m.put("drop-and", x.Y, "(true || ("+m.text(x.Y)+"))")
		}
		if x.Op == token.LOR {
			m.put("drop-or", x.X, "(false && ("+m.text(x.X)+"))")
			m.put("drop-or", x.Y, "(false && ("+m.text(x.Y)+"))")
		}
		if x.Op == token.ADD && isIntType(info.TypeOf(x)) {
			m.put("arith", x, m.text(x.X)+" - "+m.text(x.Y))
		}
		if x.Op == token.SUB && isIntType(info.TypeOf(x)) {
			m.put("arith", x, m.text(x.X)+" + "+m.text(x.Y))
		}
	case *ast.BasicLit:
		if x.Kind == token.INT {
			if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
				m.put("int", x, fmt.Sprint(v+1))
			}
		}
	case *ast.ExprStmt:
		if !isLogStmt(m.text(x)) {
			m.put("del", x, "if false { "+m.text(x)+" }")
		}
	case *ast.IncDecStmt, *ast.SendStmt:
		m.put("del", x, "if false { "+m.text(x)+" }")
	case *ast.DeferStmt:
		m.put("del-defer", x, "if false { "+m.text(x)+" }")
	case *ast.AssignStmt:
		if x.Tok == token.DEFINE {
			break
		}
		blank := true
		for _, l := range x.Lhs {
			if id, ok := l.(*ast.Ident); !ok || id.Name != "_" {
				blank = false
			}
		}
		if !blank {
			m.put("del-assign", x, "if false { "+m.text(x)+" }")
		}
	case *ast.BranchStmt:
		if x.Label == nil {
			if x.Tok == token.BREAK {
				m.put("branch", x, "continue")
			} else if x.Tok == token.CONTINUE {
				m.put("branch", x, "break")
			}
		}
	case *ast.ReturnStmt:
		if k := len(x.Results); k > 0 && isErrorType(info.TypeOf(x.Results[k-1])) && m.text(x.Results[k-1]) != "nil" {
			if id, ok := x.Results[k-1].(*ast.Ident); ok {
				m.put("ret-nil", id, "nil")
			} else if _, ok := x.Results[k-1].(*ast.CallExpr); ok {
				m.put("ret-nil", x.Results[k-1], "func() error { _ = "+m.text(x.Results[k-1])+"; return nil }()")
			}
		}
		for _, r := range x.Results {
			if id, ok := r.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
				m.put("ret-bool", id, map[string]string{"true": "false", "false": "true"}[id.Name])
			}
		}
	case *ast.CallExpr:
		s := m.text(x)
		if isLogStmt(s) || strings.HasPrefix(s, "errors.") || strings.HasPrefix(s, "fmt.") {
			return false
		}
		for i := 0; i+1 < len(x.Args); i++ {
			a, b := x.Args[i], x.Args[i+1]
			ta, tb := info.TypeOf(a), info.TypeOf(b)
			if ta != nil && tb != nil && types.Identical(ta, tb) && m.text(a) != m.text(b) {
				st, en := m.off(a.Pos()), m.off(b.End())
				mid := string(m.src[m.off(a.End()):m.off(b.Pos())])
				m.out = append(m.out, &mutant{file: m.file.Name(), start: st, end: en, repl: m.text(b) + mid + m.text(a), kind: "swap-args", fn: m.fn, line: m.file.Line(a.Pos()), old: string(m.src[st:en])})
			}
		}
		for _, a := range x.Args {
			m.ident(a)
		}
	case *ast.SelectorExpr:
		if s := info.Selections[x]; s != nil && s.Kind() == types.FieldVal {
			if st, ok := deref(s.Recv()).Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					f := st.Field(i)
					if f.Name() != x.Sel.Name && types.Identical(f.Type(), s.Type()) && (f.Exported() || f.Pkg() == m.p.Types) {
						m.put("field", x.Sel, f.Name())
						break
					}
				}
			}
		}
	case *ast.BlockStmt:
		for i := 0; i+1 < len(x.List); i++ {
			a, b := x.List[i], x.List[i+1]
			ok := func(s ast.Stmt) bool {
				switch y := s.(type) {
				case *ast.ExprStmt:
					return !isLogStmt(m.text(y))
				case *ast.IfStmt, *ast.DeferStmt:
					return true
				case *ast.AssignStmt:
					return y.Tok != token.DEFINE
				}
				return false
			}
			if ok(a) && ok(b) {
				st, en := m.off(a.Pos()), m.off(b.End())
				mid := string(m.src[m.off(a.End()):m.off(b.Pos())])
				m.out = append(m.out, &mutant{file: m.file.Name(), start: st, end: en, repl: m.text(b) + mid + m.text(a), kind: "swap-stmt", fn: m.fn, line: m.file.Line(a.Pos()), old: string(m.src[st:en])})
			}
		}
	}
	return true
}

// ident replaces a variable by the next one of the same type.
func (m *mutator) ident(e ast.Expr) {
	id, ok := e.(*ast.Ident)
	if !ok {
		return
	}
	info := m.p.TypesInfo
	v, ok := info.Uses[id].(*types.Var)
	if !ok {
		return
	}
	sc := m.p.Types.Scope().Innermost(id.Pos())
	for ; sc != nil && sc != m.p.Types.Scope(); sc = sc.Parent() {
		for _, n := range sc.Names() {
			w, ok := sc.Lookup(n).(*types.Var)
			if ok && w != v && n != "_" && w.Pos() < id.Pos() && types.Identical(w.Type(), v.Type()) && !isErrorType(w.Type()) {
				m.put("ident", id, n)
				return
			}
		}
	}
}

func (m *mutator) sqlLit(x *ast.BasicLit) {
	s := x.Value
	u := strings.ToUpper(s)
	if !strings.Contains(u, "SELECT") && !strings.Contains(u, "INSERT") && !strings.Contains(u, "UPDATE") && !strings.Contains(u, "DELETE") {
		m.put("str", x, "("+s+"+\"x\")")
		return
	}
	if i := strings.LastIndex(u, " AND "); i > 0 {
		j := strings.IndexAny(s[i:], ";\"`")
		if j > 0 {
			m.put("sql-and", x, s[:i]+s[i+j:])
		}
	}
	if i := strings.Index(s, ", "); i > 0 {
		// swap the two names around the first comma
		a := strings.LastIndexAny(s[:i], " (\"`\n") + 1
		e := strings.IndexAny(s[i+2:], ", )")
		if e > 0 {
			b := s[i+2 : i+2+e]
			m.put("sql-swap", x, s[:a]+b+", "+s[a:i]+s[i+2+e:])
		}
	}
	if i := strings.Index(s, "=?"); i > 0 {
		m.put("sql-op", x, s[:i]+"<>?"+s[i+2:])
	}
}

func genMutants(P *Program, p *packages.Package, fnGlob string) []*mutant {
	var out []*mutant
	for i, f := range p.Syntax {
		name := p.CompiledGoFiles[i]
		if strings.HasSuffix(name, "release/head.go") {
			continue
		}
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		m := &mutator{P: P, p: p, src: src, file: P.Fset.File(f.Pos())}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Body == nil {
					continue
				}
				m.fn = shortPath(p.PkgPath) + "."
				if d.Recv != nil {
					m.fn += typeBase(p.TypesInfo.TypeOf(d.Recv.List[0].Type)) + "."
				}
				m.fn += d.Name.Name
				if fnGlob != "" && !globMatch(fnGlob, m.fn) {
					continue
				}
				m.decl = d
				ast.Inspect(d.Body, func(n ast.Node) bool {
					if n == nil {
						return false
					}
					if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.STRING {
						m.sqlLit(l)
					}
					return m.node(n)
				})
			case *ast.GenDecl:
				m.fn = shortPath(p.PkgPath) + ".(decl)"
				if fnGlob != "" && !globMatch(fnGlob, m.fn) || d.Tok == token.IMPORT {
					continue
				}
				ast.Inspect(d, func(n ast.Node) bool {
					if _, ok := n.(*ast.StructType); ok {
						return false
					}
					if l, ok := n.(*ast.BasicLit); ok {
						if l.Kind == token.STRING {
							m.sqlLit(l)
						} else {
							m.node(l)
						}
					}
					return true
				})
			}
		}
		out = append(out, m.out...)
	}
	return out
}

type baseImporter struct{ m map[string]*types.Package }

func (b baseImporter) Import(p string) (*types.Package, error) {
	if q := b.m[p]; q != nil {
		return q, nil
	}
	return nil, fmt.Errorf("no package %s", p)
}

// reduced builds a program that contains the bodies of one package only, with
// one file replaced.
func reduced(P0 *Program, p *packages.Package, file string, content []byte) (*Program, error) {
	fset := token.NewFileSet()
	var files []*ast.File
	for i := range p.Syntax {
		n := p.CompiledGoFiles[i]
		var src interface{}
		if n == file {
			src = content
		} else if strings.HasSuffix(n, "release/head.go") {
			src = []byte("package release\n\nconst (\n\tCommit = \"none\"\n\tDate   = \"none\"\n)\n")
		}
		f, err := goparser.ParseFile(fset, n, src, goparser.ParseComments|goparser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		files = append(files, f)
	}
	im := baseImporter{map[string]*types.Package{"unsafe": types.Unsafe}}
	var walk func(q *types.Package)
	seen := map[*types.Package]bool{}
	var order []*types.Package
	walk = func(q *types.Package) {
		if seen[q] || q == p.Types {
			return
		}
		seen[q] = true
		for _, r := range q.Imports() {
			walk(r)
		}
		im.m[q.Path()] = q
		order = append(order, q)
	}
	for _, q := range p.Types.Imports() {
		walk(q)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}, Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{}}
	conf := &types.Config{Importer: im, Sizes: p.TypesSizes}
	tp, err := conf.Check(p.PkgPath, fset, files, info)
	if err != nil {
		return nil, err
	}
	prog := ssa.NewProgram(fset, ssa.InstantiateGenerics)
	for _, q := range order {
		prog.CreatePackage(q, nil, nil, true)
	}
	sp := prog.CreatePackage(tp, files, info, false)
	sp.Build()
	np := &packages.Package{PkgPath: p.PkgPath, Name: p.Name, Types: tp, TypesInfo: info, Syntax: files, CompiledGoFiles: p.CompiledGoFiles, Fset: fset, TypesSizes: p.TypesSizes}
	pkgs := []*packages.Package{np}
	for _, q := range P0.Pkgs {
		if q.PkgPath != p.PkgPath {
			pkgs = append(pkgs, q)
		}
	}
	P := index(P0.Repo, pkgs, prog)
	P.BaseExp = P0.BaseExp
	P.Reduced = true
	return P, nil
}

// runAll decides everything that can be decided on a reduced program.
func runAll(P *Program, pkg string) (keys map[string]bool) {
	resetGlobals()
	keys = map[string]bool{}
	A := NewAnalysis(P)
	A.Quick = true
	c := &Ctx{P: P, A: A, ID: "all"}
	func() {
		defer func() {
			if r := recover(); r != nil {
				keys[fmt.Sprint("panic ", r)] = true
				if os.Getenv("TRACE") != "" {
					debug.PrintStack()
				}
			}
		}()
		loadContracts()
		for _, n := range contractOrder {
			if fnPkgName(n) == pkg {
				c.Contracts("contract", "", n)
			}
		}
		for _, x := range specials {
			x(c)
		}
	}()
	for _, o := range c.Obls {
		if !o.OK {
			keys[o.Key()] = true
		}
	}
	return keys
}

func fnPkgName(n string) string {
	i := strings.LastIndexByte(n, '/')
	j := strings.IndexByte(n[i+1:], '.')
	return n[:i+1+j]
}

func mutateMain(P *Program, pkgGlob, fnGlob string, shard, shards int, verbose bool) {
	total, killed, bad := 0, 0, 0
	kinds := map[string][2]int{}
	idx := 0
	var only map[string]bool // the mutants to try, from an earlier run
	if b, err := os.ReadFile(os.Getenv("MUT_ONLY")); err == nil {
		only = map[string]bool{}
		for _, l := range strings.Split(string(b), "\n") {
			only[strings.TrimPrefix(l, "SURVIVE ")] = true
		}
	}
	for _, p := range P.Pkgs {
		if !globMatch(pkgGlob, shortPath(p.PkgPath)) {
			continue
		}
		if sp := shortPath(p.PkgPath); strings.HasPrefix(sp, "tui") || strings.HasPrefix(sp, "cmd") || strings.HasPrefix(sp, "term") || strings.HasPrefix(sp, "release") || strings.HasPrefix(sp, "log") || strings.HasPrefix(sp, "util/tests") {
			continue
		}
		ms := genMutants(P, p, fnGlob)
		var base map[string]bool
		for _, m := range ms {
			if only != nil && !only[fmt.Sprintf("%s %s:%d %s: %s -> %s", m.kind, strings.TrimPrefix(m.file, P.Repo+"/"), m.line, m.fn, oneLine(m.old), oneLine(m.repl))] {
				continue
			}
			idx++
			if idx%shards != shard {
				continue
			}
			if base == nil {
				Q, err := reduced(P, p, "", nil)
				if err != nil {
					fmt.Println("reduced:", err)
					return
				}
				base = runAll(Q, shortPath(p.PkgPath))
				if verbose {
					fmt.Println(shortPath(p.PkgPath), "baseline violations:", len(base))
				}
			}
			src, _ := os.ReadFile(m.file)
			nw := string(src[:m.start]) + m.repl + string(src[m.end:])
			Q, err := reduced(P, p, m.file, []byte(nw))
			if err != nil {
				bad++
				continue
			}
			total++
			r := runAll(Q, shortPath(p.PkgPath))
			kill := false
			for k := range r {
				if !base[k] {
					kill = true
				}
			}
			kk := kinds[m.kind]
			kk[0]++
			if kill {
				killed++
				kk[1]++
			} else {
				fmt.Printf("SURVIVE %s %s:%d %s: %s -> %s\n", m.kind, strings.TrimPrefix(m.file, P.Repo+"/"), m.line, m.fn, oneLine(m.old), oneLine(m.repl))
			}
			kinds[m.kind] = kk
		}
	}
	var ks []string
	for k := range kinds {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KIND %s %d %d\n", k, kinds[k][0], kinds[k][1])
	}
	fmt.Printf("TOTAL %d killed %d (unviable %d)\n", total, killed, bad)
}

func oneLine(s string) string {
	return trunc(strings.Join(strings.Fields(s), " "), 110)
}

func deref(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func resetGlobals() {
	termTab, termCnt, uniqCnt = map[string]*Term{}, 0, 0
	factTab, factList = map[factKey]*Fact{}, nil
	eraseMemo = map[*Term]*Term{}
	fnKeys = map[*ssa.Function]string{}
	needMemo = map[string]*Need{}
}
