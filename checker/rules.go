package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (P *Program) constValue(q string) (string, bool) {
	i := strings.LastIndexByte(q, '.')
	if i < 0 {
		return "", false
	}
	pkg, name := q[:i], q[i+1:]
	for _, p := range P.Pkgs {
		if shortPath(p.PkgPath) == pkg {
			if c, ok := p.Types.Scope().Lookup(name).(*types.Const); ok {
				switch c.Val().Kind() {
				case constant.String:
					return fmt.Sprintf("%q", constant.StringVal(c.Val())), true
				}
				return c.Val().ExactString(), true
			}
		}
	}
	return "", false
}

// Obl is one decided obligation.
type Obl struct {
	Rule      string // stable rule name
	Construct string // stable construct (function, call, field ...)
	Where     string // file:line, informational
	OK        bool
	Detail    string
}

func (o *Obl) Key() string { return o.Rule + " | " + o.Construct }

// Ctx collects the obligations of one property.
type Ctx struct {
	P     *Program
	A     *Analysis
	ID    string
	Tier  string
	Obls  []*Obl
	Notes []string
}

func (c *Ctx) add(rule, construct, where string, ok bool, detail string) {
	c.Obls = append(c.Obls, &Obl{rule, construct, where, ok, detail})
}

func (c *Ctx) fnOrFail(rule, name string) *FnA {
	fn := c.P.ByName[name]
	if fn == nil {
		c.add(rule, "anchor "+name, "", false, "anchor function not found in the current tree")
		return nil
	}
	a := c.A.fn(fn)
	if a == nil {
		c.add(rule, "anchor "+name, "", false, "anchor function could not be analysed (recursion)")
	}
	return a
}

func (c *Ctx) need(s string) *Need { return parseNeed(c.P, s) }

// errIndex is the index of the error result (last), or -1.
func errIndex(fn *ssa.Function) int {
	rs := fn.Signature.Results()
	if rs.Len() > 0 && isErrorType(rs.At(rs.Len()-1).Type()) {
		return rs.Len() - 1
	}
	return -1
}

func boolIndex(fn *ssa.Function) int {
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if isBool(rs.At(i).Type()) {
			return i
		}
	}
	return -1
}

// atExit checks needs on every exit of fn that has the given outcome.
func (c *Ctx) atExit(rule, name string, k func(fn *ssa.Function) sumKey, label string, needs ...string) {
	a := c.fnOrFail(rule, name)
	if a == nil {
		return
	}
	key := k(a.f)
	if key.res == -2 {
		c.add(rule, "anchor "+name, c.P.Pos(a.f.Pos()), false, "the function no longer has the expected result")
		return
	}
	for _, ns := range needs {
		n := c.need(ns)
		construct := fmt.Sprintf("%s %s needs [%s]", name, label, n.src)
		feas := 0
		var bad *ssa.Return
		for _, r := range a.rets {
			fs, ok := a.retFacts(r, key)
			if !ok {
				continue
			}
			feas++
			if n.holds(fs, nil) || a.retEst(n, r, key, nil, 0) || a.joinEst(n, r.Block(), false, nil, nil, 0, nil) {
				continue
			}
			if bad == nil {
				bad = r
			}
		}
		if feas == 0 {
			c.add(rule, construct, c.P.Pos(a.f.Pos()), false, "no exit with this outcome exists any more")
			continue
		}
		if bad != nil {
			c.add(rule, construct, c.P.Pos(bad.Pos()), false,
				fmt.Sprintf("a path through %s reaches the exit at %s (%s) without: %s", name, c.P.Pos(bad.Pos()), label, n.src))
		} else {
			c.add(rule, construct, c.P.Pos(a.f.Pos()), true, fmt.Sprintf("%d exits", feas))
		}
	}
}

func (c *Ctx) Success(rule, name string, needs ...string) {
	c.atExit(rule, name, func(fn *ssa.Function) sumKey {
		if i := errIndex(fn); i >= 0 {
			return sumKey{i, oNil}
		}
		return sumKey{-2, 0}
	}, "success", needs...)
}

func (c *Ctx) True(rule, name string, needs ...string) {
	c.atExit(rule, name, func(fn *ssa.Function) sumKey {
		if i := boolIndex(fn); i >= 0 {
			return sumKey{i, oTrue}
		}
		return sumKey{-2, 0}
	}, "true", needs...)
}

func (c *Ctx) False(rule, name string, needs ...string) {
	c.atExit(rule, name, func(fn *ssa.Function) sumKey {
		if i := boolIndex(fn); i >= 0 {
			return sumKey{i, oFalse}
		}
		return sumKey{-2, 0}
	}, "false", needs...)
}

func (c *Ctx) Return(rule, name string, needs ...string) {
	c.atExit(rule, name, func(fn *ssa.Function) sumKey { return sumKey{-1, 0} }, "any return", needs...)
}

// NonNil: exits whose result i is non-nil.
func (c *Ctx) NonNil(rule, name string, i int, needs ...string) {
	c.atExit(rule, name, func(fn *ssa.Function) sumKey { return sumKey{i, oNonNil} }, fmt.Sprintf("result %d non-nil", i), needs...)
}

// frame is one level of an inlined call chain: the function, the instruction
// reached in it, and how its terms translate to terms of the root function.
type frame struct {
	f  *FnA
	in ssa.Instruction
	s  *subst
}

func trFS(s *subst, fs FS) FS {
	if s == nil {
		return fs
	}
	return translateFS(s, fs)
}

// trSet is trFS for the fact sets kept by the analysis.
func trSet(s *subst, fs *fset) FS {
	if s == nil {
		return fs.s
	}
	if r, ok := s.fs[fs]; ok {
		return r
	}
	if s.fs == nil {
		s.fs = map[*fset]FS{}
	}
	r := translateFS(s, fs.s)
	s.fs[fs] = r
	return r
}

func compose(outer, inner *subst) *subst {
	if outer == nil {
		return inner
	}
	if r, ok := outer.comp[inner]; ok {
		return r
	}
	r := newSubst()
	for k, v := range inner.m {
		r.m[k] = outer.apply(v)
	}
	if outer.comp == nil {
		outer.comp = map[*subst]*subst{}
	}
	outer.comp[inner] = r
	return r
}

// pathHolds decides a disjunctive need path by path: the need must have become
// true on every path to the exit, possibly through different alternatives and
// inside helpers.
func (f *FnA) pathHolds(n *Need, r *ssa.Return, k sumKey) bool {
	if len(n.alts) < 2 {
		return false
	}
	return f.retEst(n, r, k, nil, 0)
}

func (f *FnA) retEst(n *Need, r *ssa.Return, k sumKey, s *subst, d int) bool {
	return f.retEstBits(f.pathBits(n, s, d), n, r, k, s, d)
}

// retEstBits: bits tells the blocks at whose end nothing is owed any more.
func (f *FnA) retEstBits(bits []bool, n *Need, r *ssa.Return, k sumKey, s *subst, d int) bool {
	b := r.Block()
	if bits[b.Index] {
		return true
	}
	if k.res < 0 || k.res >= len(r.Results) {
		return false
	}
	v := r.Results[k.res]
	if f.valEst(n, v, k.o, s, d) {
		return true
	}
	if ph, ok := v.(*ssa.Phi); ok && ph.Block() == b {
		for i, e := range ph.Edges {
			p := b.Preds[i]
			eo := f.edgeOut(p, b, i)
			if eo == nil || !f.feasibleKnown(e, k.o, eo.s) {
				continue
			}
			g, feas := f.imp(e, k.o, p, eo.s)
			if !feas {
				continue
			}
			if bits[p.Index] || n.holds(trFS(s, union(eo.s, g)), nil) || f.valEst(n, e, k.o, s, d) || f.edgeEst(n, p, b, s, d) {
				continue
			}
			return false
		}
		return true
	}
	return false
}

// valEst: v has outcome o, and v is the result of a helper all of whose
// returns with that outcome establish the need.
func (f *FnA) valEst(n *Need, v ssa.Value, o Outcome, s *subst, d int) bool {
	for {
		if x, ok := v.(*ssa.UnOp); ok && x.Op == token.NOT {
			v, o = x.X, flip(o)
			continue
		}
		if x, ok := v.(*ssa.BinOp); ok && (x.Op == token.EQL || x.Op == token.NEQ) {
			a, y := x.X, x.Y
			if _, ok := a.(*ssa.Const); ok {
				a, y = y, a
			}
			if c, ok := y.(*ssa.Const); ok && c.IsNil() {
				pos := (o == oTrue) == (x.Op == token.EQL)
				v = a
				if pos {
					o = oNil
				} else {
					o = oNonNil
				}
				continue
			}
		}
		break
	}
	switch x := v.(type) {
	case *ssa.Call:
		return f.callEst(n, &x.Call, sumKey{0, o}, s, d)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return f.callEst(n, &c.Call, sumKey{x.Index, o}, s, d)
		}
	}
	return false
}

func (f *FnA) callEst(n *Need, cc *ssa.CallCommon, k sumKey, s *subst, d int) bool {
	if d > 4 {
		return false
	}
	g, bs := f.calleeOf(cc)
	if g == nil || !f.A.clear(f.f, g) {
		return false
	}
	ga := f.A.fn(g)
	if ga == nil || ga == f {
		return false
	}
	key := estKey{n, cc, k, s}
	if r, ok := f.A.estMemo[key]; ok {
		return r
	}
	f.A.estMemo[key] = false
	s2 := compose(s, f.substFor(cc, ga, bs))
	res := len(ga.rets) > 0
	for _, r := range ga.rets {
		fs, ok := ga.retFacts(r, k)
		if !ok {
			continue
		}
		if n.holds(trFS(s2, fs), nil) || ga.retEst(n, r, k, s2, d+1) || !mining && ga.joinEst(n, r.Block(), false, nil, s2, d+1, nil) {
			continue
		}
		res = false
		break
	}
	f.A.estMemo[key] = res
	return res
}

type estKey struct {
	n  *Need
	cc *ssa.CallCommon
	k  sumKey
	s  *subst
}

func (f *FnA) edgeEst(n *Need, p, b *ssa.BasicBlock, s *subst, d int) bool {
	iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
	if !ok || p.Succs[0] == p.Succs[1] {
		return false
	}
	o := oTrue
	if p.Succs[1] == b {
		o = oFalse
	}
	return f.valEst(n, iff.Cond, o, s, d)
}

// estPoints tells at the end of which blocks, and on which edges, the need
// holds for certain.
func (f *FnA) estPoints(n *Need, s *subst, d int) (match map[*ssa.BasicBlock]bool, edge map[[2]int]bool) {
	match = map[*ssa.BasicBlock]bool{}
	edge = map[[2]int]bool{}
	for _, b := range f.rpo {
		if f.out[b.Index] == nil {
			continue
		}
		m := n.holds(trSet(s, f.out[b.Index]), nil)
		if !m {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && f.callEst(n, &c.Call, sumKey{-1, 0}, s, d) {
					m = true
					break
				}
			}
		}
		match[b] = m
		for pi, p := range b.Preds {
			if e := f.edgeOut(p, b, pi); e != nil {
				edge[[2]int{b.Index, pi}] = n.holds(trSet(s, e), nil) || f.edgeEst(n, p, b, s, d)
			}
		}
	}
	return
}

// owedBits: after the trigger became true on a path, the need must become (or
// have become) true on it. The result tells the blocks at whose end no path
// owes it.
func (f *FnA) owedBits(match map[*ssa.BasicBlock]bool, edge map[[2]int]bool, trig *Need) []bool {
	const none, owes, paid = 1, 2, 4
	st := make([]int, len(f.f.Blocks))
	step := func(m int, need, tr bool) int {
		switch {
		case m == 0:
			return 0
		case need:
			return paid
		case tr && m&none != 0:
			return m&^none | owes
		}
		return m
	}
	tb := map[*ssa.BasicBlock]bool{}
	te := map[[2]int]bool{}
	any := false
	for _, b := range f.rpo {
		if f.out[b.Index] == nil {
			continue
		}
		tb[b] = trig.holds(f.out[b.Index].s, nil)
		any = any || tb[b]
		for pi, p := range b.Preds {
			if e := f.edgeOut(p, b, pi); e != nil {
				te[[2]int{b.Index, pi}] = trig.holds(e.s, nil)
				any = any || te[[2]int{b.Index, pi}]
			}
		}
	}
	bits := make([]bool, len(f.f.Blocks))
	for ch := any; ch; {
		ch = false
		for _, b := range f.rpo {
			if f.out[b.Index] == nil {
				continue
			}
			m := 0
			if b.Index == 0 {
				m = none
			}
			for pi, p := range b.Preds {
				if f.edgeOut(p, b, pi) == nil {
					continue
				}
				k := [2]int{b.Index, pi}
				m |= step(st[p.Index], edge[k], te[k])
			}
			m = step(m, match[b], tb[b])
			if m != st[b.Index] {
				st[b.Index] = m
				ch = true
			}
		}
	}
	for i := range bits {
		bits[i] = st[i]&owes == 0
	}
	return bits
}

func (f *FnA) pathBits(n *Need, s *subst, d int) []bool {
	bits := make([]bool, len(f.f.Blocks))
	// optimistic: start true, iterate down
	for i := range bits {
		bits[i] = true
	}
	match, edge := f.estPoints(n, s, d)
	for ch := true; ch; {
		ch = false
		for _, b := range f.rpo {
			if f.out[b.Index] == nil {
				continue
			}
			v := match[b]
			if !v && b.Index != 0 {
				v = true
				for pi, p := range b.Preds {
					if f.edgeOut(p, b, pi) == nil {
						continue
					}
					if bits[p.Index] || edge[[2]int{b.Index, pi}] {
						continue
					}
					v = false
					break
				}
			}
			if v != bits[b.Index] {
				bits[b.Index] = v
				ch = true
			}
		}
	}
	return bits
}

// Site is a matched occurrence in a root function.
type Site struct {
	Root *FnA
	O    *Occ
	B    *Bind
}

func (s *Site) where(P *Program) string { return P.Pos(s.O.Pos) }

// Sites finds occurrences "kind pattern [:= pattern]" in root functions whose
// name starts with one of the prefixes ("" = everywhere).
func (c *Ctx) Sites(pat string, prefixes ...string) []*Site {
	fp := parseFPat(c.P, pat)
	var out []*Site
	for _, fn := range c.P.Fns {
		if !c.A.isRoot(fn) {
			continue
		}
		n := fnName(fn)
		if len(prefixes) > 0 {
			ok := false
			for _, p := range prefixes {
				if n == p || strings.HasSuffix(p, ".") && strings.HasPrefix(n, p) {
					ok = true
				}
			}
			if !ok {
				continue
			}
		}
		a := c.A.fn(fn)
		if a == nil {
			continue
		}
		for _, o := range a.Occs() {
			if o.Kind != fp.kinds[0] {
				continue
			}
			fp.t.match(o.T, nil, func(b *Bind) bool {
				if fp.u != nil {
					if o.U == nil {
						return false
					}
					return fp.u.match(o.U, b, func(b2 *Bind) bool {
						out = append(out, &Site{a, o, b2})
						return true
					})
				}
				out = append(out, &Site{a, o, b})
				return true
			})
		}
	}
	return out
}

// Before: at every matching site in the scope, each need must hold.
func (c *Ctx) Before(rule, pat string, scope []string, min int, needs ...string) []*Site {
	sites := c.Sites(pat, scope...)
	if len(sites) < min {
		c.add(rule, "instances of "+pat, "", false, fmt.Sprintf("only %d instances found, expected at least %d", len(sites), min))
	}
	for _, ns := range needs {
		n := c.need(ns)
		type agg struct {
			ok  bool
			det string
			w   string
			n   int
		}
		m := map[string]*agg{}
		var keys []string
		for _, s := range sites {
			key := fmt.Sprintf("%s: before [%s] needs [%s]", fnName(s.Root.f), pat, n.src)
			g := m[key]
			if g == nil {
				g = &agg{ok: true, w: c.P.Pos(s.O.Pos)}
				m[key] = g
				keys = append(keys, key)
			}
			g.n++
			if !n.holds(s.O.Pre, s.B) && !s.pathHolds(n) && !s.joinHolds(n) {
				if g.ok {
					g.w = c.P.Pos(s.O.Pos)
					g.det = fmt.Sprintf("%s reaches %s at %s%s without: %s", fnName(s.Root.f), trunc(s.O.T.String(), 160), c.P.Pos(s.O.Pos), chain(s.O), n.src)
				}
				g.ok = false
			}
		}
		sort.Strings(keys)
		for _, k := range keys {
			g := m[k]
			d := g.det
			if g.ok {
				d = fmt.Sprintf("%d sites", g.n)
			}
			c.add(rule, k, g.w, g.ok, d)
		}
	}
	return sites
}

// pathHolds for a site: at some level of the call chain the need held on every
// path to the instruction, possibly through different alternatives.
func (s *Site) pathHolds(n *Need) bool {
	for _, fr := range s.O.frames {
		if len(n.alts) > 1 && fr.f.siteEst(n, fr.in, fr.s, s.B) {
			return true
		}
	}
	return false
}

// joinHolds: the same, with the ways written out.
func (s *Site) joinHolds(n *Need) bool {
	for _, fr := range s.O.frames {
		if fr.f.joinEst(n, fr.in.Block(), true, s.O.Pre, fr.s, 0, s.B) {
			return true
		}
	}
	return false
}

func (f *FnA) siteEst(n *Need, in ssa.Instruction, s *subst, bind *Bind) bool {
	bits := f.pathBits(n, s, 0)
	b := in.Block()
	for _, i := range b.Instrs {
		if i == in {
			break
		}
		if c, ok := i.(*ssa.Call); ok && f.callEst(n, &c.Call, sumKey{-1, 0}, s, 0) {
			return true
		}
	}
	if b.Index == 0 || len(b.Preds) == 0 {
		return false
	}
	for pi, p := range b.Preds {
		e := f.edgeOut(p, b, pi)
		if e == nil {
			continue
		}
		if bits[p.Index] || n.holds(trFS(s, e.s), bind) || f.edgeEst(n, p, b, s, 0) {
			continue
		}
		return false
	}
	return true
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func chain(o *Occ) string {
	if len(o.Chain) == 0 {
		return ""
	}
	return " (via " + strings.Join(o.Chain, " -> ") + ")"
}

var _ = token.NoPos
