package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/mutecomm/mute"

// Program is the type-checked module under analysis together with its SSA
// form and a few indexes.
type Program struct {
	atoms     map[string]*FPat
	Repo      string
	Fset      *token.FileSet
	Pkgs      []*packages.Package
	SSA       *ssa.Program
	Fns       []*ssa.Function          // every function with a body that belongs to the module
	ByName    map[string]*ssa.Function // canonical name -> function
	Callers   map[*ssa.Function][]*ssa.CallCommon
	AddrTaken map[*ssa.Function]bool
	BaseExp   map[string]bool // exported functions of the reference tree
	Decl      map[*ssa.Function]*ast.FuncDecl
	Files     int
	Reduced   bool // bodies of one package only (mutation testing)
	PkgOf     map[*types.Package]*packages.Package
}

func shortPath(p string) string {
	if p == modPath {
		return "mute"
	}
	return strings.TrimPrefix(p, modPath+"/")
}

func inModule(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

// Load loads /repo (or any other tree) with the build's own configuration.
func Load(repo string, extra map[string][]byte) (*Program, error) {
	mode := packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
		packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo |
		packages.NeedModule | packages.NeedExportFile
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GOSUMDB=off", "GO111MODULE=on")
	overlay := map[string][]byte{}
	for k, v := range extra {
		overlay[k] = v
	}
	// release/head.go is generated by the build and git-ignored; its constants
	// (commit and date of the build) must not influence the analysis.
	head := filepath.Join(repo, "release", "head.go")
	overlay[head] = []byte("package release\n\nconst (\n\tCommit = \"none\"\n\tDate   = \"none\"\n)\n")
	cfg := &packages.Config{Mode: mode, Dir: repo, Env: env, Overlay: overlay}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		sort.Strings(errs)
		if len(errs) > 8 {
			errs = errs[:8]
		}
		return nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	if len(pkgs) < 40 {
		return nil, fmt.Errorf("only %d packages loaded", len(pkgs))
	}
	findRenames(&Program{Pkgs: pkgs, Fset: pkgs[0].Fset})
	findFnRenames(pkgs)
	if os.Getenv("MC_NOINLINE") == "" {
		if _, err := normalize(pkgs); err != nil {
			// analyse the program as it is written
			if os.Getenv("MC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, err)
			}
			os.Setenv("MC_NOINLINE", "1")
			return Load(repo, extra)
		}
	}
	prog, _ := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	return index(repo, pkgs, prog), nil
}

func index(repo string, pkgs []*packages.Package, prog *ssa.Program) *Program {
	P := &Program{Repo: repo, Pkgs: pkgs, SSA: prog, Fset: prog.Fset,
		ByName: map[string]*ssa.Function{}, Callers: map[*ssa.Function][]*ssa.CallCommon{},
		AddrTaken: map[*ssa.Function]bool{}, Decl: map[*ssa.Function]*ast.FuncDecl{}, PkgOf: map[*types.Package]*packages.Package{}}
	for _, p := range pkgs {
		P.PkgOf[p.Types] = p
		P.Files += len(p.Syntax)
	}
	findRenames(P)
	all := ssautil.AllFunctions(prog)
	for fn := range all {
		if len(fn.Blocks) == 0 {
			continue
		}
		pk := fnPkg(fn)
		if !inModule(pk) {
			continue
		}
		P.Fns = append(P.Fns, fn)
		if fn.Parent() == nil {
			devirtualize(prog, fn)
		}
	}
	sort.Slice(P.Fns, func(i, j int) bool {
		a, b := fnName(P.Fns[i]), fnName(P.Fns[j])
		if a != b {
			return a < b
		}
		return P.Fns[i].Pos() < P.Fns[j].Pos()
	})
	for _, fn := range P.Fns {
		n := fnName(fn)
		if _, dup := P.ByName[n]; !dup || fn.Synthetic == "" {
			P.ByName[n] = fn
		}
		if d, ok := fn.Syntax().(*ast.FuncDecl); ok {
			P.Decl[fn] = d
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var cc *ssa.CallCommon
				if c, ok := in.(ssa.CallInstruction); ok {
					cc = c.Common()
					if g := cc.StaticCallee(); g != nil {
						P.Callers[g] = append(P.Callers[g], cc)
					}
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						if cc != nil && cc.Value == g {
							continue
						}
						if _, ok := in.(*ssa.MakeClosure); ok {
							continue
						}
						P.AddrTaken[g] = true
					}
				}
			}
		}
	}
	return P
}

func fnPkg(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg()
		}
	}
	return nil
}

// fnName gives the canonical, position independent name of a function.
func fnName(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	if fn.Parent() != nil {
		return fnName(fn.Parent()) + fn.Name()[strings.LastIndex(fn.Name(), "$"):]
	}
	pk := fnPkg(fn)
	pn := ""
	if pk != nil {
		pn = shortPath(pk.Path()) + "."
	}
	if r := fn.Signature.Recv(); r != nil {
		return oldFnName(pn + typeBase(r.Type()) + "." + fn.Name())
	}
	if len(fn.FreeVars) > 0 && strings.HasSuffix(fn.Name(), "$bound") {
		return oldFnName(pn+typeBase(fn.FreeVars[0].Type())+"."+strings.TrimSuffix(fn.Name(), "$bound")) + "$bound"
	}
	return oldFnName(pn + fn.Name())
}

func oldFnName(n string) string {
	if o, ok := fnAlias[n]; ok {
		return o
	}
	return n
}

func typeBase(t types.Type) string {
	for {
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
			continue
		}
		break
	}
	switch x := t.(type) {
	case *types.Named:
		return objName(x.Obj())
	case *types.Alias:
		return typeBase(types.Unalias(x))
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func typeStr(t types.Type) string {
	return aliasTypes(types.TypeString(t, func(p *types.Package) string { return shortPath(p.Path()) }))
}

func globalName(g *ssa.Global) string {
	if o := g.Object(); o != nil {
		return objName(o)
	}
	return g.Name()
}

func isExportedFn(fn *ssa.Function) bool {
	if fn.Parent() != nil || fn.Synthetic != "" {
		return false
	}
	o := fn.Object()
	return o != nil && o.Exported()
}

// Pos renders a position relative to the repository.
func (P *Program) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := P.Fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(P.Repo, f); err == nil {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}
