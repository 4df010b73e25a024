package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Which alternative of a value is chosen when: an argument, a stored value or
// a result that is one of several values carries, for each of them, the facts
// under which it is that one.

type altLeaf struct {
	t  *Term
	fs FS
}

const maxLeaves = 24

// altsOf lists the alternatives of v, a value of frames[lvl], in terms of the
// outermost function.
func (A *Analysis) altsOf(frames []frame, lvl int, v ssa.Value, seen map[ssa.Value]bool, d int) []altLeaf {
	f, s := frames[lvl].f, frames[lvl].s
	leaf := []altLeaf{{trTerm(s, f.term(v)), nil}}
	if d > 8 {
		return leaf
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return A.altsOf(frames, lvl, x.X, seen, d+1)
	case *ssa.ChangeType:
		return A.altsOf(frames, lvl, x.X, seen, d+1)
	case *ssa.ChangeInterface:
		return A.altsOf(frames, lvl, x.X, seen, d+1)
	case *ssa.Convert:
		if f.term(x) == f.term(x.X) {
			return A.altsOf(frames, lvl, x.X, seen, d+1)
		}
	case *ssa.Phi:
		if seen[v] {
			return nil
		}
		seen[v] = true
		defer delete(seen, v)
		var out []altLeaf
		b := x.Block()
		for i, e := range x.Edges {
			if e == v {
				continue
			}
			eo := f.edgeOut(b.Preds[i], b, i)
			if eo == nil {
				continue
			}
			es := trFS(s, eo.s)
			for _, l := range A.altsOf(frames, lvl, e, seen, d+1) {
				fs := union(es, l.fs)
				if !contradictory(fs) {
					out = append(out, altLeaf{l.t, fs})
				}
			}
		}
		if len(out) > maxLeaves {
			return leaf
		}
		return out
	case *ssa.Parameter:
		if lvl == 0 {
			break
		}
		ci, ok := frames[lvl-1].in.(ssa.CallInstruction)
		if !ok || ci.Common().IsInvoke() {
			break
		}
		if g, _ := frames[lvl-1].f.calleeOf(ci.Common()); g != f.f {
			break
		}
		for i, p := range f.f.Params {
			if p == x && i < len(ci.Common().Args) {
				return A.altsOf(frames, lvl-1, ci.Common().Args[i], seen, d+1)
			}
		}
	case *ssa.Call:
		if r := A.altsOfCall(frames, lvl, x, 0, seen, d); r != nil {
			return r
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if r := A.altsOfCall(frames, lvl, c, x.Index, seen, d); r != nil {
				return r
			}
		}
	}
	return leaf
}

func (A *Analysis) altsOfCall(frames []frame, lvl int, c *ssa.Call, res int, seen map[ssa.Value]bool, d int) []altLeaf {
	f, s := frames[lvl].f, frames[lvl].s
	g, bs := f.calleeOf(&c.Call)
	if g == nil || !A.transparent(g) || seen[c] {
		return nil
	}
	ga := A.fn(g)
	if ga == nil || ga == f || !ga.done {
		return nil
	}
	seen[c] = true
	defer delete(seen, c)
	s2 := composeFrame(s, f.substFor(&c.Call, ga, bs))
	var out []altLeaf
	for _, r := range ga.rets {
		if res >= len(r.Results) {
			return nil
		}
		fs, ok := ga.retFacts(r, sumKey{-1, 0})
		if !ok {
			continue
		}
		rs := trFS(s2, fs)
		fr := append(append([]frame{}, frames[:lvl]...), frame{f, c, s}, frame{ga, r, s2})
		for _, l := range A.altsOf(fr, lvl+1, r.Results[res], seen, d+1) {
			fs := union(rs, l.fs)
			if !contradictory(fs) {
				out = append(out, altLeaf{l.t, fs})
			}
		}
	}
	if len(out) > maxLeaves {
		return nil
	}
	return out
}

func trTerm(s *subst, t *Term) *Term {
	if s == nil {
		return t
	}
	return s.apply(t)
}

// contradictory: a branch fact and its opposite.
func contradictory(fs FS) bool {
	tr := map[*Term]bool{}
	for _, id := range fs {
		if x := factList[id]; x.V == nil && x.K == "true" {
			tr[x.T] = true
		}
	}
	for _, id := range fs {
		if x := factList[id]; x.V == nil && x.K == "false" && tr[x.T] {
			return true
		}
	}
	return false
}

// altSlot is one place whose value has alternatives.
type altSlot struct {
	key    string
	leaves []altLeaf
	pos    string
}

// altSlots lists the places of a function: arguments of calls, stored fields
// and results.
func (a *FnA) altSlots(c *Ctx) []*altSlot {
	if a.slotsDone {
		return a.slots
	}
	a.slotsDone = true
	A := a.A
	add := func(key string, o *Occ, v ssa.Value) {
		ls := A.altsOf(o.frames, len(o.frames)-1, v, map[ssa.Value]bool{}, 0)
		if len(ls) == 0 {
			return
		}
		var u []altLeaf
		for _, l := range ls {
			fs := union(o.Pre, l.fs)
			if !contradictory(fs) {
				u = append(u, altLeaf{l.t, fs})
			}
		}
		a.slots = append(a.slots, &altSlot{key, u, c.P.Pos(o.Pos)})
	}
	for _, o := range a.Occs() {
		switch o.Kind {
		case "call", "defer", "go":
			ci, ok := o.Instr.(ssa.CallInstruction)
			if !ok || o.T.Op != "call" || !okName(o.T.Sym) || skippedCall(o.T) {
				continue
			}
			if g := c.P.ByName[o.T.Sym]; g != nil && A.transparent(g) {
				continue
			}
			off := 0
			if ci.Common().IsInvoke() {
				off = 1
			}
			for i, v := range ci.Common().Args {
				key := fmt.Sprintf("%s#%d", o.T.Sym, i+off)
				if els := variadic(v); els != nil {
					for j, e := range els {
						if e != nil {
							add(fmt.Sprintf("%s.%d", key, j), o, e)
						}
					}
					continue
				}
				add(key, o, v)
			}
		case "set":
			fl := writtenField(o.T)
			if fl == "" || !okName(strings.TrimSuffix(fl, "[]")) {
				continue
			}
			switch in := o.Instr.(type) {
			case *ssa.Store:
				add("set:"+fl, o, in.Val)
			case *ssa.MapUpdate:
				add("set:"+fl, o, in.Value)
			}
		}
	}
	for _, r := range a.rets {
		// a result given with an error is not for use
		key := sumKey{-1, 0}
		if rs := a.f.Signature.Results(); rs.Len() > 1 && isErrorType(rs.At(rs.Len()-1).Type()) {
			key = sumKey{rs.Len() - 1, oNil}
		}
		fs, ok := a.retFacts(r, key)
		if !ok {
			continue
		}
		for i, v := range r.Results {
			o := &Occ{Kind: "ret", Pre: fs, Pos: r.Pos(), frames: []frame{{a, r, nil}}}
			add(fmt.Sprintf("return#%d", i), o, v)
		}
	}
	return a.slots
}

// variadic gives the elements of the slice built for a variadic call.
func variadic(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok || al.Comment != "varargs" {
		return nil
	}
	var out []ssa.Value
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		ic, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil
		}
		for _, rr := range *ia.Referrers() {
			if st, ok := rr.(*ssa.Store); ok && st.Addr == ia {
				for int64(len(out)) <= ic.Int64() {
					out = append(out, nil)
				}
				out[ic.Int64()] = st.Val
			}
		}
	}
	return out
}

// mineAlts gives the lines "key | alternative => fact".
func mineAlts(c *Ctx, a *FnA, valid func(string) (*Need, bool)) []string {
	A := c.A
	groups := map[string][]altLeaf{}
	for _, s := range a.altSlots(c) {
		groups[s.key] = append(groups[s.key], s.leaves...)
	}
	var out []string
	for _, key := range sortedKeysL(groups) {
		ls := groups[key]
		pats := map[string]bool{}
		ret := strings.HasPrefix(key, "return#")
		if !ret && !strings.HasPrefix(key, "set:") {
			callee := key[:strings.Index(key, "#")]
			if c.P.ByName[callee] == nil && !isSink(callee) {
				continue
			}
		}
		for _, s := range a.altSlots(c) {
			if s.key != key {
				continue
			}
			here := map[string]bool{}
			for _, l := range s.leaves {
				here[A.patOf(l.t, a.f, 0)] = true
			}
			if len(here) > 1 || ret {
				for p := range here {
					pats[p] = true
				}
			}
		}
		if len(pats) < 2 || len(pats) > 12 {
			continue
		}
		if ret {
			var i int
			fmt.Sscanf(key, "return#%d", &i)
			if t := a.f.Signature.Results().At(i).Type(); isErrorType(t) {
				continue
			}
		}
		// facts common to every alternative belong to the place
		var all FS
		for i, l := range ls {
			if i == 0 {
				all = l.fs
			} else {
				all = inter(all, l.fs)
			}
		}
		for _, p := range sortedKeysB(pats) {
			if rs := a.f.Signature.Results(); ret && rs.Len() > 1 && isErrorType(rs.At(rs.Len()-1).Type()) &&
				(p == "nil" || p == "0") {
				// the value that goes along with an error
				continue
			}
			if p == "_" || trivialPat(p) && !strings.Contains("true false nil 0 1 2 3", p) {
				continue
			}
			if _, ok := valid("call " + p); !ok {
				if _, ok := valid("true " + p); !ok {
					continue
				}
			}
			pt := parsePat(c.P, p)
			var com FS
			n := 0
			for _, l := range ls {
				if !pt.match(l.t, nil, func(*Bind) bool { return true }) {
					continue
				}
				if n == 0 {
					com = l.fs
				} else {
					com = inter(com, l.fs)
				}
				n++
			}
			if n == 0 {
				continue
			}
			common := map[int32]bool{}
			for _, id := range all {
				common[id] = true
			}
			seen := map[string]bool{}
			for _, id := range com {
				x := factList[id]
				if common[id] || x.V != nil || x.K != "true" && x.K != "false" && x.K != "ok" {
					continue
				}
				g := A.factPat(x, a.f)
				if g == "" || seen[g] {
					continue
				}
				if _, ok := valid(g); !ok {
					continue
				}
				seen[g] = true
			}
			for _, g := range sortedKeysB(seen) {
				c.Obls = nil
				c.altLine("x", a, "x", key+" | "+p, g)
				if c.Obls[0].OK {
					out = append(out, key+" | "+p+" => "+g)
				}
			}
		}
	}
	return out
}

func sortedKeysL(m map[string][]altLeaf) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

// altLine decides one line.
func (c *Ctx) altLine(rule string, a *FnA, name, slot, ns string) {
	k := strings.SplitN(slot, " | ", 2)
	n := needMemo[ns]
	if n == nil {
		n = c.need(ns)
		needMemo[ns] = n
	}
	pt := altPats[k[1]]
	if pt == nil {
		pt = parsePat(c.P, k[1])
		altPats[k[1]] = pt
	}
	construct := fmt.Sprintf("%s: [%s] is [%s] only when [%s]", name, k[0], k[1], ns)
	for _, s := range a.altSlots(c) {
		if s.key != k[0] {
			continue
		}
		for _, l := range s.leaves {
			if !pt.match(l.t, nil, func(*Bind) bool { return true }) || n.holds(l.fs, nil) {
				continue
			}
			c.add(rule, construct, s.pos, false, fmt.Sprintf("%s gives %s the value %s at %s without: %s", name, k[0], trunc(l.t.String(), 120), s.pos, ns))
			return
		}
	}
	c.add(rule, construct, c.P.Pos(a.f.Pos()), true, "")
}

var altPats = map[string]*Pat{}
