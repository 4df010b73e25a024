package main

import (
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Outcomes of results that are neither errors nor the only yes/no answer:
// nil or not for pointers, slices and the like, a positive number or not for
// numbers that can fail with a constant, and the other yes/no results.

// valueOutcome is one outcome of one result.
type valueOutcome struct {
	kind string // P: not nil, Q: nil, B: true, D: false
	key  sumKey
}

func nilableOrNumber(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return true
	case *types.Basic:
		return u.Info()&(types.IsInteger|types.IsString) != 0
	}
	return false
}

// constNil: the constant stands for "nothing" (nil, zero, a negative number, "").
func constNil(c *ssa.Const) bool {
	if c.Value == nil {
		return c.IsNil()
	}
	switch c.Value.Kind() {
	case constant.Int:
		return constant.Sign(c.Value) <= 0
	case constant.String:
		return constant.StringVal(c.Value) == ""
	}
	return false
}

// valueOutcomes lists the outcomes of fn besides success and failure.
func (a *FnA) valueOutcomes() []valueOutcome {
	fn := a.f
	var out []valueOutcome
	rs := fn.Signature.Results()
	hasErr := errIndex(fn) >= 0
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		if isErrorType(t) {
			continue
		}
		if isBool(t) {
			if hasErr || i != boolIndex(fn) {
				out = append(out, valueOutcome{"B", sumKey{i, oTrue}})
				if !hasErr {
					out = append(out, valueOutcome{"D", sumKey{i, oFalse}})
				}
			}
			continue
		}
		if !nilableOrNumber(t) {
			continue
		}
		var none, some bool
		for _, r := range a.rets {
			if i >= len(r.Results) {
				continue
			}
			n, s := alternatives(r.Results[i], nil)
			none = none || n
			some = some || s
		}
		if none && some {
			out = append(out, valueOutcome{"P", sumKey{i, oNonNil}})
			if !hasErr && boolIndex(fn) < 0 {
				out = append(out, valueOutcome{"Q", sumKey{i, oNil}})
			}
		}
	}
	return out
}

// alternatives: can v be a "nothing" constant, or something else.
func alternatives(v ssa.Value, seen map[ssa.Value]bool) (none, some bool) {
	switch x := v.(type) {
	case *ssa.Const:
		return constNil(x), !constNil(x)
	case *ssa.Phi:
		if seen[v] {
			return false, false
		}
		if seen == nil {
			seen = map[ssa.Value]bool{}
		}
		seen[v] = true
		for _, e := range x.Edges {
			n, s := alternatives(e, seen)
			none, some = none || n, some || s
		}
		return
	case *ssa.UnOp:
		// a named result kept in memory: it starts as nothing
		if _, ok := x.X.(*ssa.Alloc); ok {
			return true, true
		}
	}
	return false, true
}
