package main

// An assignment of a condition is an assignment of true where the condition
// holds and of false where it does not.

// isCond: the term is a condition (and no constant, variable or choice).
func isCond(t *Term) bool {
	if t == nil {
		return false
	}
	switch t.Op {
	case "not", "eq", "lt", "has", "is":
		return true
	}
	return false
}

// condFacts is what is known where the condition has the value v.
func condFacts(t *Term, v bool) FS {
	for t.Op == "not" {
		t, v = t.A[0], !v
	}
	if v {
		return facts("true", t, nil)
	}
	return facts("false", t, nil)
}

func truth(v bool) *Term {
	if v {
		return mk("c", "true", 0)
	}
	return mk("c", "false", 0)
}

// splitHolds: the need holds for every value of the conditions assigned.
func (n *Need) splitHolds(fs FS) bool {
	k := 0
	for _, id := range fs {
		x := factList[id]
		if x.K != "set" || x.V != nil || !isCond(x.U) {
			continue
		}
		if k++; k > 4 {
			return false
		}
		ok := true
		for _, v := range []bool{true, false} {
			g := union(union(fs, condFacts(x.U, v)), facts("set", x.T, truth(v)))
			ok = ok && (contradictory(g) || n.holds(g, nil))
		}
		if ok {
			return true
		}
	}
	return false
}

// splitOwed: the same where the need is owed only when the trigger is true.
func (a *FnA) splitOwed(trig, n *Need, fs FS) bool {
	if len(trig.alts) != 1 || len(trig.alts[0]) != 1 {
		return false
	}
	t := trig.alts[0][0]
	k := ""
	switch t.kinds[0] {
	case "true":
		k = "false"
	case "false":
		k = "true"
	default:
		return false
	}
	neg := *t
	neg.kinds, neg.memo = []string{k}, nil
	either := &Need{src: n.src, alts: append([][]*FPat{{&neg}}, n.alts...)}
	return either.splitHolds(fs)
}

// splitSet gives the two assignments that the assignment of a condition is,
// with what is known at each.
func splitSet(o *Occ) []*Occ {
	if o.Kind != "set" || !isCond(o.U) {
		return nil
	}
	var out []*Occ
	for _, v := range []bool{true, false} {
		p := *o
		p.U = truth(v)
		p.Pre = union(o.Pre, condFacts(o.U, v))
		if !contradictory(p.Pre) {
			out = append(out, &p)
		}
	}
	return out
}
