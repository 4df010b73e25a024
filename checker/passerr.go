package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A function hands an error on if its error result is not nil whenever the
// parameter is not nil.

var passMemo = map[*ssa.Function]int{}

// passesError returns the parameter of which g hands the error on, or -1.
func passesError(g *ssa.Function) int {
	if g == nil || len(g.Blocks) == 0 {
		return -1
	}
	if i, ok := passMemo[g]; ok {
		return i
	}
	passMemo[g] = -1
	rs := g.Signature.Results()
	if rs.Len() != 1 || !isErrorType(rs.At(0).Type()) {
		return -1
	}
	for i, p := range g.Params {
		if isErrorType(p.Type()) && handsOn(g, p) {
			passMemo[g] = i
			return i
		}
	}
	return -1
}

func handsOn(g *ssa.Function, p *ssa.Parameter) bool {
	reach := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{g.Blocks[0]}
	dead := map[[2]*ssa.BasicBlock]bool{}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if reach[b] {
			continue
		}
		reach[b] = true
		skip := -1
		if x, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if c, ok := x.Cond.(*ssa.BinOp); ok && (c.Op == token.EQL || c.Op == token.NEQ) {
				k, ok := c.Y.(*ssa.Const)
				v := c.X
				if !ok {
					k, ok = c.X.(*ssa.Const)
					v = c.Y
				}
				if ok && k.Value == nil && v == ssa.Value(p) {
					skip = 1
					if c.Op == token.EQL {
						skip = 0
					}
				}
			}
		}
		for i, s := range b.Succs {
			if i == skip {
				dead[[2]*ssa.BasicBlock{b, s}] = true
				continue
			}
			work = append(work, s)
		}
	}
	var nn func(v ssa.Value, b *ssa.BasicBlock, d int) bool
	nn = func(v ssa.Value, b *ssa.BasicBlock, d int) bool {
		if d == 0 {
			return false
		}
		if v == ssa.Value(p) {
			return true
		}
		switch x := v.(type) {
		case *ssa.Phi:
			for i, e := range x.Edges {
				pb := x.Block().Preds[i]
				if !reach[pb] || dead[[2]*ssa.BasicBlock{pb, x.Block()}] {
					continue
				}
				if !nn(e, pb, d-1) {
					return false
				}
			}
			return true
		case *ssa.Call:
			if sc := x.Call.StaticCallee(); sc != nil && sc != g {
				if i := passesError(sc); i >= 0 && i < len(x.Call.Args) {
					return nn(x.Call.Args[i], b, d-1)
				}
				if n := fnName(sc); (n == "log.Error" || n == "log.Critical" || n == "log.Warn") && len(x.Call.Args) == 1 {
					if sl, ok := x.Call.Args[0].(*ssa.Slice); ok {
						if in := singleVararg(sl); in != nil && types.Identical(in.Type(), p.Type()) {
							return nn(in, b, d-1)
						}
					}
				}
			}
		}
		return surelyNonNil(v, b)
	}
	n := 0
	for b := range reach {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			n++
			if !nn(r.Results[0], b, 8) {
				return false
			}
		}
	}
	return n > 0
}
