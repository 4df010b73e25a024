package main

import (
	_ "embed"
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"
)

// Unexported struct fields, package variables and types may be renamed without
// any change of behaviour. decls.txt lists those of the reference tree; what is
// gone from there is paired with what is new and has the same type, in order of
// declaration, and goes by its old name in the analysis.

//go:embed decls.txt
var declsTxt string

var objAlias = map[types.Object]string{}

type typeAlias struct {
	re  *regexp.Regexp
	old string
}

var typeAliases []typeAlias

func objName(o types.Object) string {
	if n, ok := objAlias[o]; ok {
		return n
	}
	return o.Name()
}

// aliasTypes puts renamed types back under their old names.
func aliasTypes(s string) string {
	for _, a := range typeAliases {
		s = a.re.ReplaceAllString(s, "${1}"+a.old)
	}
	return s
}

type decl struct {
	kind, owner, name, typ string
	o                      types.Object
}

func (d decl) String() string {
	return strings.Join([]string{d.kind, d.owner, d.name, d.typ}, "\t")
}

// listDecls lists the types (kind T), or the fields and variables (F, V).
func listDecls(P *Program, kinds string) []decl {
	var out []decl
	for _, p := range P.Pkgs {
		if !inModule(p.Types) {
			continue
		}
		sc := p.Types.Scope()
		pk := shortPath(p.Types.Path())
		var objs []types.Object
		for _, n := range sc.Names() {
			objs = append(objs, sc.Lookup(n))
		}
		sort.Slice(objs, func(i, j int) bool {
			a, b := P.Fset.Position(objs[i].Pos()), P.Fset.Position(objs[j].Pos())
			if a.Filename != b.Filename {
				return a.Filename < b.Filename
			}
			return a.Offset < b.Offset
		})
		for _, o := range objs {
			switch x := o.(type) {
			case *types.TypeName:
				if x.IsAlias() {
					continue
				}
				if strings.Contains(kinds, "T") && !x.Exported() {
					out = append(out, decl{"T", pk, x.Name(), shape(x.Type().Underlying()), x})
				}
				if st, ok := x.Type().Underlying().(*types.Struct); ok && strings.Contains(kinds, "F") {
					for i := 0; i < st.NumFields(); i++ {
						if f := st.Field(i); !f.Exported() && !f.Embedded() {
							out = append(out, decl{"F", pk + "." + objName(x), f.Name(), typeStr(f.Type()), f})
						}
					}
				}
			case *types.Var:
				if strings.Contains(kinds, "V") && !x.Exported() {
					t := typeStr(x.Type())
					if st, ok := x.Type().(*types.Struct); ok {
						t = shape(st)
					}
					out = append(out, decl{"V", pk, x.Name(), t, x})
				}
				if st, ok := x.Type().(*types.Struct); ok && strings.Contains(kinds, "F") {
					for i := 0; i < st.NumFields(); i++ {
						if f := st.Field(i); !f.Exported() && !f.Embedded() {
							out = append(out, decl{"F", pk + ".struct", f.Name(), typeStr(f.Type()), f})
						}
					}
				}
			}
		}
	}
	return out
}

// shape describes a type without the names of unexported things.
func shape(t types.Type) string {
	if st, ok := t.(*types.Struct); ok {
		var fs []string
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			n := "_"
			if f.Exported() {
				n = f.Name()
			}
			ts := "_"
			if b, ok := f.Type().(*types.Basic); ok {
				ts = b.Name()
			}
			fs = append(fs, n+" "+ts)
		}
		return "struct{" + strings.Join(fs, ";") + "}"
	}
	return fmt.Sprintf("%T", t)
}

func findRenames(P *Program) {
	objAlias = map[types.Object]string{}
	typeAliases = nil
	base := map[string][]decl{} // by kind and owner
	for _, l := range strings.Split(declsTxt, "\n") {
		if p := strings.Split(l, "\t"); len(p) == 4 {
			k := p[0] + "\t" + p[1]
			base[k] = append(base[k], decl{p[0], p[1], p[2], p[3], nil})
		}
	}
	for _, kinds := range []string{"T", "FV"} {
		cur := map[string][]decl{}
		var order []string
		for _, d := range listDecls(P, kinds) {
			k := d.kind + "\t" + d.owner
			if cur[k] == nil {
				order = append(order, k)
			}
			cur[k] = append(cur[k], d)
		}
		for _, k := range order {
			have, was := map[string]bool{}, map[string]bool{}
			for _, d := range cur[k] {
				have[d.name] = true
			}
			for _, d := range base[k] {
				was[d.name] = true
			}
			gone := map[string][]decl{}
			for _, d := range base[k] {
				if !have[d.name] {
					gone[d.typ] = append(gone[d.typ], d)
				}
			}
			used := map[string]int{}
			for _, d := range cur[k] {
				if was[d.name] || used[d.typ] >= len(gone[d.typ]) {
					continue
				}
				g := gone[d.typ][used[d.typ]]
				used[d.typ]++
				objAlias[d.o] = g.name
				if d.kind == "T" {
					typeAliases = append(typeAliases, typeAlias{regexp.MustCompile(`(^|[^\w/])` + regexp.QuoteMeta(d.owner+"."+d.name) + `\b`), g.owner + "." + g.name})
				}
			}
		}
	}
}
