package main

import (
	_ "embed"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// Unexported functions may be renamed without any change of behaviour.
// fndecls.txt lists those of the reference tree with their types and with what
// they refer to; a function that is gone from there is paired with the new
// function of the same package, receiver and type that refers to most of the
// same things, and goes by its old name in the analysis.

//go:embed fndecls.txt
var fnDeclsTxt string

var fnAlias = map[string]string{} // current name -> reference name

type fnDecl struct {
	name, owner, sig string
	refs             map[string]bool
	exported         bool
}

func (d fnDecl) String() string {
	var rs []string
	for r := range d.refs {
		rs = append(rs, r)
	}
	sort.Strings(rs)
	return strings.Join([]string{d.name, d.owner, d.sig, strings.Join(rs, " ")}, "\t")
}

// listFnDecls lists the declared functions of the module.
func listFnDecls(pkgs []*packages.Package) []fnDecl {
	var out []fnDecl
	for _, p := range pkgs {
		if !inModule(p.Types) {
			continue
		}
		for _, f := range p.Syntax {
			for _, dc := range f.Decls {
				fd, ok := dc.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				o, _ := p.TypesInfo.Defs[fd.Name].(*types.Func)
				if o == nil {
					continue
				}
				d := fnDecl{name: declName0(o), refs: map[string]bool{}, exported: o.Exported(), owner: shortPath(p.Types.Path())}
				sg := o.Type().(*types.Signature)
				if r := sg.Recv(); r != nil {
					d.owner += "." + typeBase(r.Type())
				}
				d.sig = stripNames(typeStr(sg))
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					switch x := n.(type) {
					case *ast.Ident:
						u := p.TypesInfo.Uses[x]
						if u == nil || u.Pkg() == nil || u == types.Object(o) {
							return true
						}
						if !u.Exported() && u.Pkg() == p.Types {
							return true
						}
						if v, ok := u.(*types.Var); ok && !v.IsField() && v.Parent() != v.Pkg().Scope() {
							return true
						}
						if fn, ok := u.(*types.Func); ok {
							d.refs[declName0(fn)] = true
						} else {
							d.refs[shortPath(u.Pkg().Path())+"."+u.Name()] = true
						}
					case *ast.BasicLit:
						if x.Kind == token.STRING && len(x.Value) < 40 && !strings.ContainsAny(x.Value, " \t\n") && len(x.Value) > 2 {
							d.refs[x.Value] = true
						}
					}
					return true
				})
				out = append(out, d)
			}
		}
	}
	return out
}

func findFnRenames(pkgs []*packages.Package) {
	fnAlias = map[string]string{}
	have := map[string]bool{}
	cur := listFnDecls(pkgs)
	for _, d := range cur {
		have[d.name] = true
	}
	was := map[string]bool{}
	gone := map[string][]fnDecl{} // by owner and signature
	for _, l := range strings.Split(fnDeclsTxt, "\n") {
		p := strings.Split(l, "\t")
		if len(p) != 4 {
			continue
		}
		was[p[0]] = true
		n := p[0][strings.LastIndexByte(p[0], '.')+1:]
		if have[p[0]] || token.IsExported(n) {
			continue
		}
		d := fnDecl{name: p[0], owner: p[1], sig: p[2], refs: map[string]bool{}}
		for _, r := range strings.Fields(p[3]) {
			d.refs[r] = true
		}
		gone[d.owner+"\t"+d.sig] = append(gone[d.owner+"\t"+d.sig], d)
	}
	if len(gone) == 0 {
		return
	}
	type pair struct {
		o, n  fnDecl
		score float64
		at    int
	}
	var ps []pair
	for _, d := range cur {
		if was[d.name] || d.exported {
			continue
		}
		for _, g := range gone[d.owner+"\t"+d.sig] {
			both := 0
			for r := range d.refs {
				if g.refs[r] {
					both++
				}
			}
			union := len(d.refs) + len(g.refs) - both
			s := 1.0
			if union > 0 {
				s = float64(both) / float64(union)
			}
			if s >= 0.5 {
				ps = append(ps, pair{g, d, s, len(ps)})
			}
		}
	}
	sort.SliceStable(ps, func(i, j int) bool { return ps[i].score > ps[j].score })
	used := map[string]bool{}
	for _, p := range ps {
		if used[p.o.name] || fnAlias[p.n.name] != "" {
			continue
		}
		used[p.o.name] = true
		fnAlias[p.n.name] = p.o.name
	}
}
