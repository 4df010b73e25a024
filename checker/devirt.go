package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// devirtualize turns the method calls on an interface whose dynamic type is
// known at the call (the value is converted to the interface right there, as
// it is when a helper with an interface parameter was expanded) into static
// calls of that type's method.
func devirtualize(prog *ssa.Program, fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := ci.Common()
			if !cc.IsInvoke() {
				continue
			}
			v := cc.Value
			for {
				if c, ok := v.(*ssa.ChangeInterface); ok {
					v = c.X
					continue
				}
				break
			}
			mi, ok := v.(*ssa.MakeInterface)
			if !ok {
				continue
			}
			sel := prog.MethodSets.MethodSet(mi.X.Type()).Lookup(cc.Method.Pkg(), cc.Method.Name())
			if sel == nil || len(sel.Index()) != 1 {
				continue
			}
			m, ok := sel.Obj().(*types.Func)
			if !ok {
				continue
			}
			recv := m.Type().(*types.Signature).Recv()
			if recv == nil || !types.Identical(recv.Type(), mi.X.Type()) {
				continue
			}
			g := prog.FuncValue(m)
			if g == nil {
				continue
			}
			args := append([]ssa.Value{mi.X}, cc.Args...)
			if r := mi.X.Referrers(); r != nil {
				*r = append(*r, in)
			}
			if r := cc.Value.Referrers(); r != nil {
				for i, x := range *r {
					if x == in {
						*r = append((*r)[:i:i], (*r)[i+1:]...)
						break
					}
				}
			}
			cc.Value, cc.Method, cc.Args = g, nil, args
		}
	}
	for _, a := range fn.AnonFuncs {
		devirtualize(prog, a)
	}
}
