package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// One call with an argument that depends on the way taken does what the same
// call written out on each way does: the need is decided per incoming edge of
// the place where the ways meet.

// replaceIn puts to in the place of from.
func replaceIn(t, from, to *Term, memo map[*Term]*Term) *Term {
	if t == from {
		return to
	}
	if len(t.A) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	memo[t] = t
	ch := false
	na := make([]*Term, len(t.A))
	for i, a := range t.A {
		na[i] = replaceIn(a, from, to, memo)
		ch = ch || na[i] != a
	}
	r := t
	if ch {
		if t.Op == "alloc" {
			r = mkf(t.Op, t.Sym, t.N, t.fn, na...)
		} else {
			r = rebuild(t, na)
		}
	}
	memo[t] = r
	return r
}

// withLeaf gives the facts that speak of the value from, with to in its place.
func withLeaf(fs FS, from, to *Term, memo map[*Term]*Term) FS {
	var out FS
	for _, id := range fs {
		x := factList[id]
		if x.V != nil || x.T == nil {
			continue
		}
		t, u := replaceIn(x.T, from, to, memo), x.U
		if u != nil {
			u = replaceIn(u, from, to, memo)
		}
		if t != x.T || u != x.U {
			out = union(out, fsOf(mkFact(x.K, t, u, nil)))
		}
	}
	return out
}

// joins lists the values that depend on the way taken.
func (f *FnA) joins() []*ssa.Phi {
	if f.joinsDone {
		return f.joinList
	}
	f.joinsDone = true
	for _, b := range f.rpo {
		if len(b.Preds) < 2 || len(b.Preds) > 12 || f.out[b.Index] == nil {
			continue
		}
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			t := f.term(ph)
			if t.Op != "phi" {
				continue
			}
			f.joinList = append(f.joinList, ph)
		}
	}
	return f.joinList
}

// mining: contracts are being written, not decided.
var mining bool

const badWay = uint64(1) << 63

// joinEst: on every way to the end of block b (with atEntry: to its start)
// the need holds, where the need may depend on the edge by which the way came
// to one of the joins.
func (f *FnA) joinEst(n *Need, b *ssa.BasicBlock, atEntry bool, pre FS, s *subst, d int, bind *Bind) bool {
	if len(f.f.Blocks) > 600 {
		return false
	}
	var match map[*ssa.BasicBlock]bool
	var edge map[[2]int]bool
	for _, ph := range f.joins() {
		if ph.Block() != b && !ph.Block().Dominates(b) && !blockReaches(ph.Block(), b) {
			continue
		}
		mB, mE, any := f.joinMarks(n, ph, s, d, bind)
		here := f.joinPre(n, ph, b, pre, s, bind)
		if !any && here == 0 {
			continue
		}
		if match == nil {
			match, edge = f.estPoints(n, s, d)
		}
		in := make([]uint64, len(f.f.Blocks))
		st := make([]uint64, len(f.f.Blocks))
		seen := make([]bool, len(f.f.Blocks))
		for ch := true; ch; {
			ch = false
			for _, x := range f.rpo {
				if f.out[x.Index] == nil {
					continue
				}
				m := uint64(0)
				r := false
				if x.Index == 0 {
					m, r = badWay, true
				}
				for pi, p := range x.Preds {
					if !seen[p.Index] || f.edgeOut(p, x, pi) == nil {
						continue
					}
					r = true
					k := [2]int{x.Index, pi}
					w := st[p.Index] &^ mE[k]
					if w == 0 || edge[k] {
						continue
					}
					if x == ph.Block() {
						w = 1 << uint(pi)
					}
					m |= w
				}
				if !r {
					continue
				}
				o := m &^ mB[x.Index]
				if match[x] {
					o = 0
				}
				if !seen[x.Index] || m != in[x.Index] || o != st[x.Index] {
					seen[x.Index], in[x.Index], st[x.Index] = true, m, o
					ch = true
				}
			}
		}
		if atEntry && in[b.Index]&^here == 0 || !atEntry && st[b.Index] == 0 {
			return true
		}
	}
	return false
}

// joinPre tells for which edges of ph the facts known inside block b meet the
// need.
func (f *FnA) joinPre(n *Need, ph *ssa.Phi, b *ssa.BasicBlock, pre FS, s *subst, bind *Bind) (m uint64) {
	if len(pre) == 0 || len(ph.Edges) > 60 || !ph.Block().Dominates(b) {
		return 0
	}
	from := trTerm(s, f.term(ph))
	if from.Op != "phi" {
		return 0
	}
	for i, e := range ph.Edges {
		to := trTerm(s, f.term(e))
		if to == from || to.Op == "unk" {
			continue
		}
		if fs := withLeaf(pre, from, to, map[*Term]*Term{}); len(fs) > 0 && n.holds(fs, bind) {
			m |= 1 << uint(i)
		}
	}
	return m
}

// joinMarks tells where the need is met for what came over an edge of ph, at
// the end of a block and on an edge.
func (f *FnA) joinMarks(n *Need, ph *ssa.Phi, s *subst, d int, bind *Bind) (mB []uint64, mE map[[2]int]uint64, any bool) {
	if len(ph.Edges) > 60 {
		return nil, nil, false
	}
	from := trTerm(s, f.term(ph))
	subst := from.Op == "phi"
	// where the need is met by what came over an edge
	mB = make([]uint64, len(f.f.Blocks))
	mE = map[[2]int]uint64{}
	for i, e := range ph.Edges {
		to := trTerm(s, f.term(e))
		if !subst || to == from || to.Op == "unk" {
			continue
		}
		memo := map[*Term]*Term{}
		for _, x := range f.rpo {
			if f.out[x.Index] == nil {
				continue
			}
			if ph.Block().Dominates(x) {
				fs := withLeaf(trSet(s, f.out[x.Index]), from, to, memo)
				if len(fs) > 0 && n.holds(fs, bind) {
					mB[x.Index] |= 1 << uint(i)
					any = true
				}
			}
			for pi, p := range x.Preds {
				if x == ph.Block() || !ph.Block().Dominates(p) {
					continue
				}
				if eo := f.edgeOut(p, x, pi); eo != nil {
					if fs := withLeaf(trSet(s, eo), from, to, memo); len(fs) > 0 && n.holds(fs, bind) {
						mE[[2]int{x.Index, pi}] |= 1 << uint(i)
						any = true
					}
				}
			}
		}
	}
	// what a branch on the value tells about the way
	for _, x := range f.rpo {
		if f.out[x.Index] == nil || x == ph.Block() {
			continue
		}
		for pi, p := range x.Preds {
			if !ph.Block().Dominates(p) {
				continue
			}
			o, ok := branchOn(ph, p, x)
			if !ok || f.edgeOut(p, x, pi) == nil {
				continue
			}
			for i, e := range ph.Edges {
				from := ph.Block().Preds[i]
				eo := f.edgeOut(from, ph.Block(), i)
				k := [2]int{x.Index, pi}
				bit := uint64(1) << uint(i)
				if eo == nil || mE[k]&bit != 0 {
					continue
				}
				g, feas := f.imp(e, o, from, eo.s)
				if !feas || !f.feasibleKnown(e, o, eo.s) {
					mE[k] |= bit
					any = true
				} else if n.holds(trFS(s, g), bind) || f.valEst(n, e, o, s, d) {
					mE[k] |= bit
					any = true
				}
			}
		}
	}
	return
}

// owedJoin: no path to the end of block b owes the need after the trigger,
// with the ways over the edges of a join kept apart.
func (f *FnA) owedJoin(match map[*ssa.BasicBlock]bool, edge map[[2]int]bool, trig, n *Need, b *ssa.BasicBlock) bool {
	if len(f.f.Blocks) > 600 {
		return false
	}
	type state struct{ none, owes, paid uint64 }
	step := func(m state, need uint64, tr bool) state {
		m.paid |= (m.none | m.owes) & need
		m.none &^= need
		m.owes &^= need
		if tr {
			m.owes |= m.none
			m.none = 0
		}
		return m
	}
	pick := func(c bool, m uint64) uint64 {
		if c {
			return ^uint64(0)
		}
		return m
	}
	for _, ph := range f.joins() {
		if ph.Block() != b && !ph.Block().Dominates(b) && !blockReaches(ph.Block(), b) {
			continue
		}
		mB, mE, any := f.joinMarks(n, ph, nil, 0, nil)
		if !any {
			continue
		}
		if match == nil {
			match, edge = f.estPoints(n, nil, 0)
		}
		st := make([]state, len(f.f.Blocks))
		for ch := true; ch; {
			ch = false
			for _, x := range f.rpo {
				if f.out[x.Index] == nil {
					continue
				}
				var m state
				if x.Index == 0 {
					m.none = badWay
				}
				for pi, p := range x.Preds {
					eo := f.edgeOut(p, x, pi)
					if eo == nil {
						continue
					}
					k := [2]int{x.Index, pi}
					w := step(st[p.Index], pick(edge[k], mE[k]), trig.holds(eo.s, nil))
					if x == ph.Block() {
						one := func(v uint64) uint64 {
							if v != 0 {
								return 1 << uint(pi)
							}
							return 0
						}
						w = state{one(w.none), one(w.owes), one(w.paid)}
					}
					m.none |= w.none
					m.owes |= w.owes
					m.paid |= w.paid
				}
				m = step(m, pick(match[x], mB[x.Index]), trig.holds(f.out[x.Index].s, nil))
				if m != st[x.Index] {
					st[x.Index] = m
					ch = true
				}
			}
		}
		if st[b.Index].owes == 0 {
			return true
		}
	}
	return false
}

// spread lists what t can be when the choices in its arguments are written
// out, nil if there is nothing to write out.
func spread(t *Term) []*Term {
	out := []*Term{t}
	for round := 0; round < 3; round++ {
		var next []*Term
		ch := false
		for _, x := range out {
			p := x.findChoice(4)
			if p == nil {
				next = append(next, x)
				continue
			}
			ch = true
			for _, l := range p.A {
				if l.Op == "unk" {
					return nil
				}
				next = append(next, replaceIn(x, p, l, map[*Term]*Term{}))
			}
		}
		if len(next) > 16 {
			return nil
		}
		out = next
		if !ch {
			break
		}
	}
	if len(out) < 2 {
		return nil
	}
	return out
}

func (t *Term) findChoice(d int) *Term {
	for _, a := range t.A {
		if a.Op == "phi" {
			return a
		}
	}
	if d > 0 {
		for _, a := range t.A {
			if p := a.findChoice(d - 1); p != nil {
				return p
			}
		}
	}
	return nil
}

// branchOn: the outcome of ph on the edge from p to x, if p branches on it.
func branchOn(ph *ssa.Phi, p, x *ssa.BasicBlock) (Outcome, bool) {
	iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
	if !ok || p.Succs[0] == p.Succs[1] {
		return 0, false
	}
	o := oTrue
	if p.Succs[1] == x {
		o = oFalse
	}
	v := iff.Cond
	for {
		if v == ssa.Value(ph) {
			return o, true
		}
		switch y := v.(type) {
		case *ssa.UnOp:
			if y.Op != token.NOT {
				return 0, false
			}
			v, o = y.X, flip(o)
		case *ssa.BinOp:
			if y.Op != token.EQL && y.Op != token.NEQ {
				return 0, false
			}
			a, c := y.X, y.Y
			if _, ok := a.(*ssa.Const); ok {
				a, c = c, a
			}
			k, ok := c.(*ssa.Const)
			if !ok || !k.IsNil() || a != ssa.Value(ph) {
				return 0, false
			}
			if (o == oTrue) == (y.Op == token.EQL) {
				return oNil, true
			}
			return oNonNil, true
		default:
			return 0, false
		}
	}
}
