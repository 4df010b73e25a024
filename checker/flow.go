package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Fact kinds:
//
//	call T      the call T has been executed
//	ok T        the call T returned a nil error
//	true T      the boolean / comparison T held;  false T: it did not
//	set T U     U was stored to T
//	defer T     a deferred call is pending
//	go T        a goroutine was started
//	nn V/nil V  (function-local) the value is known non-nil / nil
//
// "each K" facts hold for every element of the loop they come from.
type Fact struct {
	id   int
	K    string
	T, U *Term
	V    ssa.Value
}

func (x *Fact) String() string {
	if x.V != nil {
		return x.K + "#" + x.V.Name()
	}
	if x.U != nil {
		return fmt.Sprintf("%s %s := %s", x.K, x.T, x.U)
	}
	return fmt.Sprintf("%s %s", x.K, x.T)
}

type factKey struct {
	K    string
	T, U int
	V    ssa.Value
}

var factTab = map[factKey]*Fact{}
var factList []*Fact

func mkFact(k string, t, u *Term, v ssa.Value) *Fact {
	key := factKey{K: k, V: v}
	if t != nil {
		key.T = t.id
	}
	if u != nil {
		key.U = u.id
	}
	if x, ok := factTab[key]; ok {
		return x
	}
	x := &Fact{id: len(factList), K: k, T: t, U: u, V: v}
	factTab[key] = x
	factList = append(factList, x)
	return x
}

// facts returns the fact together with its shape: the same fact with the
// identity of locally created objects erased, so that equal work done on both
// arms of a branch survives the merge.
func facts(k string, t, u *Term) FS {
	x := mkFact(k, t, u, nil)
	et, eu := erase(t), u
	if u != nil {
		eu = erase(u)
	}
	if et == t && eu == u {
		return FS{int32(x.id)}
	}
	y := mkFact(k, et, eu, nil)
	if x.id < y.id {
		return FS{int32(x.id), int32(y.id)}
	}
	return FS{int32(y.id), int32(x.id)}
}

var eraseMemo = map[*Term]*Term{}

func erase(t *Term) *Term {
	if t == nil {
		return nil
	}
	if r, ok := eraseMemo[t]; ok {
		return r
	}
	r := t
	switch {
	case t.Op == "alloc" && t.N >= 0 || t.Op == "unk" && t.N > 0:
		na := make([]*Term, len(t.A))
		for i, a := range t.A {
			na[i] = erase(a)
		}
		r = mkf(t.Op, t.Sym, -1, t.fn, na...)
	case len(t.A) > 0:
		na := make([]*Term, len(t.A))
		ch := false
		for i, a := range t.A {
			na[i] = erase(a)
			ch = ch || na[i] != a
		}
		if ch {
			r = rebuild(t, na)
		}
	}
	eraseMemo[t] = r
	return r
}

// FS is a sorted set of fact ids; nil pointer FS means "unreachable" (top).
type FS []int32

type fset struct{ s FS }

func (s FS) has(id int) bool {
	i := sort.Search(len(s), func(i int) bool { return s[i] >= int32(id) })
	return i < len(s) && s[i] == int32(id)
}

func union(a, b FS) FS {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	// quick subset test
	out := make(FS, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] < b[j]:
			out = append(out, a[i])
			i++
		case a[i] > b[j]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	out = append(out, a[i:]...)
	return append(out, b[j:]...)
}

func inter(a, b FS) FS {
	out := make(FS, 0, len(a))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] < b[j]:
			i++
		case a[i] > b[j]:
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	return out
}

func fsOf(fs ...*Fact) FS {
	ids := make([]int, 0, len(fs))
	for _, f := range fs {
		ids = append(ids, f.id)
	}
	sort.Ints(ids)
	var out FS
	for i, x := range ids {
		if i == 0 || ids[i-1] != x {
			out = append(out, int32(x))
		}
	}
	return out
}

func sameFS(a, b FS) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Outcome of a value.
type Outcome int

const (
	oTrue Outcome = iota
	oFalse
	oNil
	oNonNil
)

// Occ is one occurrence of an interesting event inside a root function,
// together with everything that must have happened before it.
type Occ struct {
	Kind   string // call, set, defer, go
	T, U   *Term
	Pre    FS
	Pos    token.Pos
	Chain  []string
	Fn     *ssa.Function // function that textually contains it
	Instr  ssa.Instruction
	frames []frame
}

// Analysis holds per-function results.
type Analysis struct {
	Quick    bool
	mineMemo map[*FnA][]*mineEvent
	owMemo   map[owKey]bool
	P        *Program
	fns      map[*ssa.Function]*FnA
	depth    int
	sink     func(kind string, t *Term) bool
	Opaque   map[string]bool
	nFacts   int
	valOnly  map[string]bool
	errLast  map[string]int
	estMemo  map[estKey]bool
}

func NewAnalysis(P *Program) *Analysis {
	return &Analysis{P: P, fns: map[*ssa.Function]*FnA{}, Opaque: map[string]bool{}, estMemo: map[estKey]bool{}}
}

type FnA struct {
	joinsDone bool
	joinList  []*ssa.Phi
	A         *Analysis
	f         *ssa.Function
	done      bool
	terms     map[ssa.Value]*Term
	busy      map[ssa.Value]bool
	allocs    map[*ssa.Alloc]*allocInfo
	reachMemo map[ssa.Instruction][]reachDef
	in, out   []*fset
	edge      map[[2]int]*fset
	rpo       []*ssa.BasicBlock
	sums      map[sumKey]*fset
	sumBusy   map[sumKey]bool
	transMemo map[transKey]FS
	substMemo map[*ssa.CallCommon]*subst
	impBusy   map[impKey]bool
	each      map[[2]int]FS
	loopList  []natLoop
	loopsDone bool
	loopMemo  map[*ssa.BasicBlock]bool
	occs      []*Occ
	occDone   bool
	slotsDone bool
	slots     []*altSlot
	occBusy   bool
	rets      []*ssa.Return
	retMemo   map[int]*Term
	retBusy   map[int]bool
}

type sumKey struct {
	res int // -1: any return
	o   Outcome
}
type transKey struct {
	cc *ssa.CallCommon
	k  sumKey
}
type impKey struct {
	v ssa.Value
	o Outcome
}

// transparent functions are inlined: helpers, closures, wrappers. Exported
// functions of the reference tree are opaque events with their own contracts.
func (A *Analysis) transparent(g *ssa.Function) bool {
	if g == nil || len(g.Blocks) == 0 || !inModule(fnPkg(g)) {
		return false
	}
	if pk := fnPkg(g); pk != nil && pk.Path() == modPath+"/log" {
		return false
	}
	n := fnName(g)
	if A.Opaque[n] {
		return false
	}
	if g.Parent() != nil || g.Synthetic != "" {
		return true
	}
	if o := g.Object(); o != nil && o.Exported() && A.P.BaseExp[n] {
		return false
	}
	return true
}

// clear: calls of g in f are looked into. Besides helpers those are calls of
// functions that the reference tree has, but f of the reference tree does not
// call: code of f may have been replaced by them.
func (A *Analysis) clear(f, g *ssa.Function) bool {
	return A.transparent(g) || !mining && A.newCall(f, g)
}

func (A *Analysis) newCall(f, g *ssa.Function) bool {
	if g == nil || len(g.Blocks) == 0 || !inModule(fnPkg(g)) || fnPkg(g).Path() == modPath+"/log" || A.Opaque[fnName(g)] {
		return false
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f == g {
		return false
	}
	refs, ok := baseRefs()[fnName(f)]
	n := fnName(g)
	if _, known := baseRefs()[n]; !ok || !known {
		return false
	}
	return !refs[n]
}

var baseRefMemo map[string]map[string]bool

// baseRefs is what the functions of the reference tree refer to.
func baseRefs() map[string]map[string]bool {
	if baseRefMemo == nil {
		baseRefMemo = map[string]map[string]bool{}
		for _, l := range strings.Split(fnDeclsTxt, "\n") {
			c := strings.Split(l, "\t")
			if len(c) < 4 {
				continue
			}
			m := map[string]bool{}
			for _, r := range strings.Split(c[3], " ") {
				m[r] = true
			}
			baseRefMemo[c[0]] = m
		}
	}
	return baseRefMemo
}

var fnStack int

func (A *Analysis) fn(g *ssa.Function) *FnA {
	if a, ok := A.fns[g]; ok {
		if !a.done {
			return nil // recursion
		}
		return a
	}
	a := &FnA{A: A, f: g, terms: map[ssa.Value]*Term{}, busy: map[ssa.Value]bool{},
		allocs: map[*ssa.Alloc]*allocInfo{}, reachMemo: map[ssa.Instruction][]reachDef{},
		sums: map[sumKey]*fset{}, sumBusy: map[sumKey]bool{}, transMemo: map[transKey]FS{},
		substMemo: map[*ssa.CallCommon]*subst{}, impBusy: map[impKey]bool{}, each: map[[2]int]FS{},
		retMemo: map[int]*Term{}, retBusy: map[int]bool{}, edge: map[[2]int]*fset{}}
	A.fns[g] = a
	// analyse transparent callees first so that terms are stable
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if h := c.Common().StaticCallee(); h != nil && A.clear(g, h) {
					A.fn(h)
				}
			}
			if m, ok := in.(*ssa.MakeClosure); ok {
				if h := m.Fn.(*ssa.Function); A.transparent(h) {
					A.fn(h)
				}
			}
		}
	}
	a.flow()
	a.done = true
	return a
}

func (f *FnA) flow() {
	n := len(f.f.Blocks)
	f.in = make([]*fset, n)
	f.out = make([]*fset, n)
	// reverse post order
	seen := make([]bool, n)
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		for _, s := range b.Succs {
			if !seen[s.Index] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	if n == 0 {
		return
	}
	dfs(f.f.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		f.rpo = append(f.rpo, post[i])
	}
	f.solve()
	if f.computeEach() {
		f.solve()
		if f.computeEach() {
			f.solve()
		}
	}
	for _, b := range f.rpo {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && f.out[b.Index] != nil {
			f.rets = append(f.rets, r)
		}
	}
}

func (f *FnA) solve() {
	for i := range f.in {
		f.in[i], f.out[i] = nil, nil
	}
	f.edge = map[[2]int]*fset{}
	f.sums = map[sumKey]*fset{}
	for it := 0; it < 12; it++ {
		changed := false
		for _, b := range f.rpo {
			var in *fset
			if b.Index == 0 {
				in = &fset{}
			}
			for pi, p := range b.Preds {
				e := f.edgeOut(p, b, pi)
				if e == nil {
					continue
				}
				if in == nil {
					in = &fset{e.s}
				} else {
					in = &fset{inter(in.s, e.s)}
				}
			}
			if in == nil {
				if f.in[b.Index] != nil {
					f.in[b.Index], f.out[b.Index] = nil, nil
					changed = true
				}
				continue
			}
			if f.in[b.Index] != nil && sameFS(f.in[b.Index].s, in.s) {
				// out may still depend on summaries only: stable
				continue
			}
			f.in[b.Index] = in
			cur := in.s
			dead := false
			for _, ins := range b.Instrs {
				g, d := f.gen(ins)
				cur = union(cur, g)
				if d {
					dead = true
					break
				}
			}
			if dead {
				f.out[b.Index] = nil
			} else {
				f.out[b.Index] = &fset{cur}
			}
			changed = true
		}
		if !changed {
			return
		}
	}
}

// edgeOut gives the facts on the i-th incoming edge of s (from p).
func (f *FnA) edgeOut(p, s *ssa.BasicBlock, pi int) *fset {
	if !f.done {
		return f.edgeOut1(p, s, pi)
	}
	k := [2]int{s.Index, pi}
	r, ok := f.edge[k]
	if !ok {
		r = f.edgeOut1(p, s, pi)
		f.edge[k] = r
	}
	return r
}

func (f *FnA) edgeOut1(p, s *ssa.BasicBlock, pi int) *fset {
	o := f.out[p.Index]
	if o == nil {
		return nil
	}
	res := o.s
	if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
		want := oTrue
		if p.Succs[1] == s {
			want = oFalse
		}
		g, feas := f.imp(iff.Cond, want, p, res)
		if !feas {
			return nil
		}
		res = union(res, g)
		if e, ok := f.each[[2]int{p.Index, s.Index}]; ok {
			res = union(res, e)
		}
	}
	return &fset{res}
}

// computeEach derives, for every loop left through its header, the facts that
// every completed iteration established.
func (f *FnA) computeEach() bool {
	added := false
	for _, h := range f.rpo {
		if _, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); !ok || f.out[h.Index] == nil {
			continue
		}
		var body *fset
		hasBack := false
		for pi, p := range h.Preds {
			if !h.Dominates(p) {
				continue
			}
			hasBack = true
			e := f.edgeOut(p, h, pi)
			if e == nil {
				continue
			}
			if body == nil {
				body = &fset{e.s}
			} else {
				body = &fset{inter(body.s, e.s)}
			}
		}
		if !hasBack || body == nil {
			continue
		}
		inLoop := map[*ssa.BasicBlock]bool{h: true}
		for _, p := range h.Preds {
			if h.Dominates(p) {
				collectLoop(p, inLoop)
			}
		}
		var gen FS
		for _, id := range body.s {
			if f.in[h.Index].s.has(int(id)) {
				continue
			}
			x := factList[id]
			if x.V != nil || len(x.K) > 5 && x.K[:5] == "each " && false {
				continue
			}
			gen = append(gen, int32(mkFact("each "+x.K, x.T, x.U, nil).id))
		}
		if len(gen) == 0 {
			continue
		}
		sort.Slice(gen, func(i, j int) bool { return gen[i] < gen[j] })
		for _, s := range h.Succs {
			if !inLoop[s] {
				k := [2]int{h.Index, s.Index}
				if !sameFS(f.each[k], gen) {
					f.each[k] = gen
					added = true
				}
			}
		}
	}
	return added
}

func collectLoop(b *ssa.BasicBlock, in map[*ssa.BasicBlock]bool) {
	if in[b] {
		return
	}
	in[b] = true
	for _, p := range b.Preds {
		collectLoop(p, in)
	}
}

// collected: what an instruction in a loop adds to a list, by append or by
// assignment to an element of a list made before.
func (f *FnA) collected(in ssa.Instruction) *Term {
	elem := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		b, ok := s.Elem().Underlying().(*types.Basic)
		return !ok || b.Info()&types.IsString != 0
	}
	switch x := in.(type) {
	case *ssa.Call:
		b, ok := x.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "append" || len(x.Call.Args) != 2 || !elem(x.Type()) || !f.inLoop(x.Block()) {
			return nil
		}
		if l := f.term(x.Call.Args[1]); l.Op == "list" && len(l.A) == 1 {
			return mk("call", "append1", 0, l.A[0])
		}
	case *ssa.Store:
		ia, ok := x.Addr.(*ssa.IndexAddr)
		if !ok {
			return nil
		}
		if _, ok := ia.X.(*ssa.MakeSlice); !ok || !elem(ia.X.Type()) || !f.inLoop(x.Block()) {
			return nil
		}
		return mk("call", "append1", 0, f.term(x.Val))
	}
	return nil
}

func (f *FnA) inLoop(b *ssa.BasicBlock) bool {
	r, ok := f.loopMemo[b]
	if !ok {
		for _, s := range b.Succs {
			r = r || blockReaches(s, b)
		}
		if f.loopMemo == nil {
			f.loopMemo = map[*ssa.BasicBlock]bool{}
		}
		f.loopMemo[b] = r
	}
	return r
}

var noReturn = map[string]bool{"os.Exit": true, "runtime.Goexit": true, "log.Fatal": true, "log.Fatalf": true, "syscall.Exit": true}

// gen gives the facts established by executing one instruction.
func (f *FnA) gen(in ssa.Instruction) (FS, bool) {
	switch x := in.(type) {
	case *ssa.Call:
		g, dead := f.genCall(&x.Call, "call")
		if t := f.collected(in); t != nil {
			g = union(g, facts("call", t, nil))
		}
		return g, dead
	case *ssa.Defer:
		g, _ := f.genCall(&x.Call, "defer")
		return g, false
	case *ssa.Go:
		g, _ := f.genCall(&x.Call, "go")
		return g, false
	case *ssa.Store:
		if a, ok := x.Addr.(*ssa.Alloc); ok {
			_ = a
			return nil, false
		}
		if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
			if al, ok := ia.X.(*ssa.Alloc); ok && (al.Comment == "varargs" || al.Comment == "slicelit") {
				return nil, false
			}
		}
		if f.term(x.Addr) == f.term(x.Val) {
			return nil, false
		}
		g := facts("set", f.term(x.Addr), f.term(x.Val))
		if t := f.collected(in); t != nil {
			g = union(g, facts("call", t, nil))
		}
		return g, false
	case *ssa.MapUpdate:
		return facts("set", mk("idx", "", 0, f.term(x.Map), f.term(x.Key)), f.term(x.Value)), false
	case *ssa.Send:
		return facts("send", f.term(x.Chan), f.term(x.X)), false
	case *ssa.Panic:
		return nil, true
	}
	return nil, false
}

func (f *FnA) genCall(cc *ssa.CallCommon, kind string) (FS, bool) {
	t := f.rawCall(cc, 0)
	if kind == "call" && (noReturn[t.Sym] || t.Sym == "util.Fatal") {
		return nil, true
	}
	ev := facts(kind, t, nil)
	g, bs := f.calleeOf(cc)
	if g != nil && f.A.clear(f.f, g) {
		if ga := f.A.fn(g); ga != nil {
			s := ga.summary(sumKey{-1, 0})
			if s == nil {
				return ev, kind == "call"
			}
			tr := f.translate(cc, ga, bs, sumKey{-1, 0}, s.s)
			if kind == "go" {
				// what the started function always does
				var d FS
				for _, id := range tr {
					x := factList[id]
					if x.K == "call" || x.K == "go" {
						d = union(d, facts("go", x.T, nil))
					}
				}
				tr = d
			}
			if kind == "defer" {
				var d FS
				for _, id := range tr {
					x := factList[id]
					if x.K == "call" || x.K == "set" || x.K == "ok" {
						k := "defer"
						if x.K != "call" {
							k = "defer " + x.K
						}
						d = union(d, fsOf(mkFact(k, x.T, x.U, nil)))
					}
				}
				tr = d
			}
			ev = union(ev, tr)
		}
	}
	return ev, false
}

func (f *FnA) substFor(cc *ssa.CallCommon, ga *FnA, bs []*Term) *subst {
	if s, ok := f.substMemo[cc]; ok {
		return s
	}
	s := newSubst()
	as := f.callArgs(cc)
	for i := range ga.f.Params {
		if i < len(as) {
			s.m[paramTerm(ga.f, i)] = as[i]
		}
	}
	for i := range ga.f.FreeVars {
		if i < len(bs) {
			s.m[fvTerm(ga.f, i)] = bs[i]
		}
	}
	f.substMemo[cc] = s
	return s
}

func (f *FnA) translate(cc *ssa.CallCommon, ga *FnA, bs []*Term, k sumKey, fs FS) FS {
	tk := transKey{cc, k}
	if r, ok := f.transMemo[tk]; ok {
		return r
	}
	r := translateFS(f.substFor(cc, ga, bs), fs)
	f.transMemo[tk] = r
	return r
}

func translateFS(s *subst, fs FS) FS {
	ids := make([]int, 0, len(fs))
	for _, id := range fs {
		x := factList[id]
		if x.V != nil {
			continue
		}
		if x.K == "defer" || len(x.K) > 6 && x.K[:6] == "defer " {
			// the callee's deferred calls have run when it returned
			k := "call"
			if len(x.K) > 6 {
				k = x.K[6:]
			}
			var u *Term
			if x.U != nil {
				u = s.apply(x.U)
			}
			for _, id := range facts(k, s.apply(x.T), u) {
				ids = append(ids, int(id))
			}
			continue
		}
		t := s.apply(x.T)
		var u *Term
		if x.U != nil {
			u = s.apply(x.U)
		}
		k := x.K
		if k == "true" || k == "false" {
			nt, p := boolTerm(t)
			if nt.Op == "not" {
				nt, p = nt.A[0], !p
			}
			if !p {
				if k == "true" {
					k = "false"
				} else {
					k = "true"
				}
			}
			t = nt
		}
		for _, id := range facts(k, t, u) {
			ids = append(ids, int(id))
		}
	}
	sort.Ints(ids)
	out := make(FS, 0, len(ids))
	for i, x := range ids {
		if i == 0 || ids[i-1] != x {
			out = append(out, int32(x))
		}
	}
	return out
}

// summary: facts that hold whenever the function returns with the given
// outcome; nil if it cannot.
func (f *FnA) summary(k sumKey) *fset {
	if s, ok := f.sums[k]; ok {
		return s
	}
	if f.sumBusy[k] {
		return &fset{}
	}
	f.sumBusy[k] = true
	defer delete(f.sumBusy, k)
	var res *fset
	for _, r := range f.rets {
		fs, feas := f.retFacts(r, k)
		if !feas {
			continue
		}
		if res == nil {
			res = &fset{fs}
		} else {
			res = &fset{inter(res.s, fs)}
		}
	}
	f.sums[k] = res
	return res
}

func (f *FnA) retFacts(r *ssa.Return, k sumKey) (FS, bool) {
	fs := f.out[r.Block().Index].s
	if k.res >= 0 {
		if k.res >= len(r.Results) {
			return nil, false
		}
		g, feas := f.imp(r.Results[k.res], k.o, r.Block(), fs)
		if !feas {
			return nil, false
		}
		fs = union(fs, g)
	}
	return fs, true
}

// retTerm is the value returned as result i on non-error returns.
// failTerm joins what result i is at the returns that give an error.
func (f *FnA) failTerm(i int) *Term {
	rs := f.f.Signature.Results()
	if rs.Len() < 2 || !isErrorType(rs.At(rs.Len()-1).Type()) || i == rs.Len()-1 {
		return nil
	}
	var ts []*Term
	for _, r := range f.rets {
		if i >= len(r.Results) {
			return nil
		}
		if _, feas := f.imp(r.Results[rs.Len()-1], oNil, r.Block(), f.out[r.Block().Index].s); feas {
			continue
		}
		t := f.term(r.Results[i])
		as := []*Term{t}
		if t.Op == "phi" {
			as = t.A
		}
		for _, x := range as {
			if !zeroLike(x) {
				ts = append(ts, x)
			}
		}
	}
	if len(ts) == 0 {
		return nil
	}
	return mkPhi(ts)
}

func (f *FnA) retTerm(i int) *Term {
	if t, ok := f.retMemo[i]; ok {
		return t
	}
	if f.retBusy[i] {
		return nil
	}
	f.retBusy[i] = true
	defer delete(f.retBusy, i)
	rs := f.f.Signature.Results()
	ei := -1
	if rs.Len() > 1 && isErrorType(rs.At(rs.Len()-1).Type()) {
		ei = rs.Len() - 1
	}
	var ts []*Term
	for _, r := range f.rets {
		if i >= len(r.Results) {
			return nil
		}
		if ei >= 0 && ei != i {
			if _, feas := f.imp(r.Results[ei], oNil, r.Block(), f.out[r.Block().Index].s); !feas {
				continue
			}
		}
		ts = append(ts, f.term(r.Results[i]))
	}
	var t *Term
	if len(ts) > 0 {
		t = mkPhi(ts)
		if t.contains(func(x *Term) bool { return x.Op == "unk" && x.Sym == "rec" }) {
			t = nil
		}
	}
	if isErrorType(rs.At(i).Type()) && t != nil {
		// only an error that is passed through unconditionally has a term
		if len(ts) != 1 || len(f.rets) != 1 || t.Op != "call" {
			t = nil
		}
	}
	f.retMemo[i] = t
	return t
}

func isErrorType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

var nonNilFns = map[string]bool{"errors.New": true, "fmt.Errorf": true, "log.Errorf": true, "log.Criticalf": true, "log.Warnf": true,
	"bytes.NewReader": true, "bytes.NewBuffer": true, "bytes.NewBufferString": true}

// imp computes what follows from value v having outcome o at the end of block
// b, where the facts cur hold. feasible=false: it cannot.
func (f *FnA) imp(v ssa.Value, o Outcome, b *ssa.BasicBlock, cur FS) (FS, bool) {
	k := impKey{v, o}
	if f.impBusy[k] {
		return nil, true
	}
	f.impBusy[k] = true
	defer delete(f.impBusy, k)
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if x.IsNil() {
				return nil, o == oNil
			}
			return nil, true
		}
		switch x.Value.String() {
		case "true":
			return nil, o == oTrue
		case "false":
			return nil, o == oFalse
		}
		if o == oNil || o == oNonNil {
			return nil, constNil(x) == (o == oNil)
		}
		return nil, true
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return f.imp(x.X, flip(o), b, cur)
		}
		if x.Op == token.MUL {
			return f.impLoad(x, o, b, cur)
		}
	case *ssa.BinOp:
		if o == oTrue || o == oFalse {
			return f.impCmp(x, o, b, cur)
		}
	case *ssa.MakeInterface:
		return nil, o != oNil
	case *ssa.Alloc, *ssa.MakeClosure, *ssa.MakeMap, *ssa.MakeSlice, *ssa.Function, *ssa.FieldAddr, *ssa.IndexAddr:
		return nil, o != oNil
	case *ssa.ChangeInterface:
		return f.imp(x.X, o, b, cur)
	case *ssa.ChangeType:
		return f.imp(x.X, o, b, cur)
	case *ssa.Phi:
		g, feas := f.impPhi(x, o, cur)
		if !feas {
			return nil, false
		}
		return union(g, f.basic(v, o, cur)), true
	case *ssa.Call:
		if o == oNil && isErrorType(x.Type()) {
			t := f.rawCall(&x.Call, 0)
			if nonNilFns[t.Sym] {
				return nil, false
			}
			if (t.Sym == "log.Error" || t.Sym == "log.Critical" || t.Sym == "log.Warn") && len(x.Call.Args) == 1 {
				// a single error argument is passed through
				if sl, ok := x.Call.Args[0].(*ssa.Slice); ok {
					if in := singleVararg(sl); in != nil {
						if isErrorType(in.Type()) {
							return f.impKnown(in, o, b, cur)
						}
						return nil, false
					}
					return nil, false
				}
			}
		}
		if o == oNil && nonNilFns[f.rawCall(&x.Call, 0).Sym] {
			return nil, false
		}
		if o == oNil && isErrorType(x.Type()) {
			if i := passesError(x.Call.StaticCallee()); i >= 0 && i < len(x.Call.Args) {
				g1, ok := f.impKnown(x.Call.Args[i], oNil, b, cur)
				if !ok {
					return nil, false
				}
				g2, ok := f.impCall(x, &x.Call, 0, o, cur)
				return union(g1, g2), ok
			}
		}
		return f.impCall(x, &x.Call, 0, o, cur)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return f.impCall(x, &c.Call, x.Index, o, cur)
		}
	}
	return f.impDefault(v, o, cur)
}

// impKnown is imp, but also consults the flow facts about v itself.
func (f *FnA) impKnown(v ssa.Value, o Outcome, b *ssa.BasicBlock, cur FS) (FS, bool) {
	if !f.feasibleKnown(v, o, cur) {
		return nil, false
	}
	return f.imp(v, o, b, cur)
}

func singleVararg(sl *ssa.Slice) ssa.Value {
	a, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	ar, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok || ar.Len() != 1 {
		return nil
	}
	for _, r := range *a.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			for _, rr := range *ia.Referrers() {
				if st, ok := rr.(*ssa.Store); ok {
					v := st.Val
					for {
						switch y := v.(type) {
						case *ssa.ChangeInterface:
							v = y.X
							continue
						case *ssa.MakeInterface:
							return y.X
						}
						break
					}
					return v
				}
			}
		}
	}
	return nil
}

func flip(o Outcome) Outcome {
	switch o {
	case oTrue:
		return oFalse
	case oFalse:
		return oTrue
	case oNil:
		return oNonNil
	}
	return oNil
}

func (f *FnA) feasibleKnown(v ssa.Value, o Outcome, cur FS) bool {
	var k string
	switch o {
	case oNil:
		k = "nn"
	case oNonNil:
		k = "nil"
	case oTrue:
		k = "isfalse"
	case oFalse:
		k = "istrue"
	}
	if x, ok := factTab[factKey{K: k, V: v}]; ok && cur.has(x.id) {
		return false
	}
	// the same memory cell was tested before (and not stored to since)
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL && (o == oNil || o == oNonNil) {
		if _, isA := u.X.(*ssa.Alloc); !isA {
			t := f.term(v)
			kk := "false"
			if o == oNonNil {
				kk = "true"
			}
			e := mkEq(t, cNil())
			if x, ok := factTab[factKey{K: kk, T: e.id}]; ok && cur.has(x.id) {
				for _, id := range cur {
					if y := factList[id]; y.K == "set" && y.T == t {
						return true
					}
				}
				return false
			}
		}
	}
	return true
}

// basic: the local knowledge facts for a value.
func (f *FnA) basic(v ssa.Value, o Outcome, cur FS) FS {
	k := map[Outcome]string{oTrue: "istrue", oFalse: "isfalse", oNil: "nil", oNonNil: "nn"}[o]
	return fsOf(mkFact(k, nil, nil, v))
}

func (f *FnA) impDefault(v ssa.Value, o Outcome, cur FS) (FS, bool) {
	if !f.feasibleKnown(v, o, cur) {
		return nil, false
	}
	return union(f.basic(v, o, cur), f.nilFact(v, o)), true
}

func (f *FnA) termFact(t *Term, o Outcome) FS {
	switch o {
	case oTrue, oFalse:
		nt, p := boolTerm(t)
		if nt.Op == "not" {
			nt, p = nt.A[0], !p
		}
		if (o == oTrue) == p {
			return facts("true", nt, nil)
		}
		return facts("false", nt, nil)
	case oNil:
		return facts("true", mkEq(t, cNil()), nil)
	}
	return facts("false", mkEq(t, cNil()), nil)
}

func (f *FnA) nilFact(v ssa.Value, o Outcome) FS {
	if b, ok := v.Type().Underlying().(*types.Basic); ok && o != oTrue && o != oFalse && b.Kind() != types.UntypedNil && b.Kind() != types.UnsafePointer {
		return nil
	}
	return f.termFact(f.term(v), o)
}

func (f *FnA) impCmp(x *ssa.BinOp, o Outcome, b *ssa.BasicBlock, cur FS) (FS, bool) {
	if !f.feasibleKnown(x, o, cur) {
		return nil, false
	}
	eq := x.Op == token.EQL
	if eq || x.Op == token.NEQ {
		pos := (o == oTrue) == eq // values equal
		a, c := x.X, x.Y
		if k, ok := a.(*ssa.Const); ok {
			a, c = c, ssa.Value(k)
		}
		if k, ok := c.(*ssa.Const); ok {
			if k.IsNil() {
				oo := oNonNil
				if pos {
					oo = oNil
				}
				if !f.feasibleKnown(a, oo, cur) {
					return nil, false
				}
				g, feas := f.imp(a, oo, b, cur)
				if !feas {
					return nil, false
				}
				return union(union(g, f.basic(a, oo, cur)), f.basic(x, o, cur)), true
			}
			if k.Value != nil {
				if s := k.Value.String(); (s == "true" || s == "false") && isBool(k.Type()) {
					oo := oTrue
					if (s == "true") != pos {
						oo = oFalse
					}
					g, feas := f.imp(a, oo, b, cur)
					return union(g, f.basic(x, o, cur)), feas
				}
			}
		}
	}
	t, p := normCmp(x.Op, f.term(x.X), f.term(x.Y), isIntType(x.X.Type()))
	oo := o
	if !p {
		oo = flip(o)
	}
	return union(f.basic(x, o, cur), f.termFact(t, oo)), true
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (f *FnA) impPhi(x *ssa.Phi, o Outcome, cur FS) (FS, bool) {
	if !f.feasibleKnown(x, o, cur) {
		return nil, false
	}
	var res *fset
	for i, e := range x.Edges {
		p := x.Block().Preds[i]
		eo := f.edgeOut(p, x.Block(), i)
		if eo == nil {
			continue
		}
		if !f.feasibleKnown(e, o, eo.s) {
			continue
		}
		g, feas := f.imp(e, o, p, eo.s)
		if !feas {
			continue
		}
		s := union(eo.s, g)
		if res == nil {
			res = &fset{s}
		} else {
			res = &fset{inter(res.s, s)}
		}
	}
	if res == nil {
		return nil, false
	}
	return res.s, true
}

func (f *FnA) impLoad(x *ssa.UnOp, o Outcome, b *ssa.BasicBlock, cur FS) (FS, bool) {
	switch a := x.X.(type) {
	case *ssa.Global:
		if o == oNil && isErrorType(a.Type().Underlying().(*types.Pointer).Elem()) {
			return nil, false // package level error values
		}
	case *ssa.Alloc:
		inf := f.allocInfo(a)
		if len(inf.closureWrites) == 0 && !inf.escapes {
			defs, ok := f.reach(x, a)
			if ok && len(defs) > 0 {
				var res *fset
				for _, d := range defs {
					if d.val == nil {
						if o == oNonNil || o == oTrue {
							continue
						}
						res = &fset{}
						continue
					}
					var at FS
					if f.out[d.block.Index] != nil {
						at = f.out[d.block.Index].s
					}
					if !f.feasibleKnown(d.val, o, at) || !f.feasibleKnown(d.val, o, cur) {
						continue
					}
					g, feas := f.imp(d.val, o, d.block, at)
					if !feas {
						continue
					}
					if len(defs) > 1 {
						g = union(g, nil)
					}
					if res == nil {
						res = &fset{g}
					} else {
						res = &fset{inter(res.s, g)}
					}
				}
				if res == nil {
					return nil, false
				}
				if !f.feasibleKnown(x, o, cur) {
					return nil, false
				}
				g := res.s
				if len(defs) == 1 && defs[0].val != nil {
					g = union(g, f.basic(defs[0].val, o, cur))
				}
				return union(union(g, f.basic(x, o, cur)), f.nilFact(x, o)), true
			}
		}
	}
	return f.impDefault(x, o, cur)
}

func (f *FnA) impCall(v ssa.Value, cc *ssa.CallCommon, res int, o Outcome, cur FS) (FS, bool) {
	if !f.feasibleKnown(v, o, cur) {
		return nil, false
	}
	fs := f.basic(v, o, cur)
	g, bs := f.calleeOf(cc)
	var resT types.Type = v.Type()
	if g != nil && f.A.clear(f.f, g) {
		if ga := f.A.fn(g); ga != nil {
			s := ga.summary(sumKey{res, o})
			if s == nil {
				return nil, false
			}
			fs = union(fs, f.translate(cc, ga, bs, sumKey{res, o}, s.s))
		}
	}
	if isErrorType(resT) {
		if o == oNil {
			fs = union(fs, facts("ok", f.rawCall(cc, 0), nil))
		} else {
			fs = union(fs, facts("fail", f.rawCall(cc, 0), nil))
		}
		return fs, true
	}
	if g != nil && o == oNonNil && !mining && f.A.onlyWithoutError(g, res) {
		fs = union(fs, facts("ok", f.rawCall(cc, 0), nil))
		if ga := f.A.fn(g); ga != nil && f.A.clear(f.f, g) {
			k := sumKey{errIndex(g), oNil}
			if s := ga.summary(k); s != nil {
				fs = union(fs, f.translate(cc, ga, bs, k, s.s))
			}
		}
	}
	if b, ok := resT.Underlying().(*types.Basic); ok && (o == oNil || o == oNonNil) && b.Kind() != types.UnsafePointer {
		return fs, true
	}
	return union(fs, f.termFact(f.callTerm(cc, res, nil), o)), true
}

// onlyWithoutError: wherever the function gives this result, its error is nil.
func (A *Analysis) onlyWithoutError(g *ssa.Function, res int) bool {
	e := errIndex(g)
	if e < 0 || e == res || len(g.Blocks) == 0 {
		return false
	}
	k := owKey{g, res}
	if v, ok := A.owMemo[k]; ok {
		return v
	}
	if A.owMemo == nil {
		A.owMemo = map[owKey]bool{}
	}
	A.owMemo[k] = false
	ga := A.fn(g)
	if ga == nil {
		return false
	}
	good := len(ga.rets) > 0
	for _, r := range ga.rets {
		if _, feas := ga.retFacts(r, sumKey{res, oNonNil}); !feas {
			continue
		}
		if _, feas := ga.retFacts(r, sumKey{e, oNonNil}); !feas {
			continue
		}
		x, ok := r.Results[res].(*ssa.Extract)
		y, ok2 := r.Results[e].(*ssa.Extract)
		if ok && ok2 && x.Tuple == y.Tuple {
			if c, isCall := x.Tuple.(*ssa.Call); isCall {
				if h, _ := ga.calleeOf(&c.Call); h != nil && errIndex(h) == y.Index && A.onlyWithoutError(h, x.Index) {
					continue
				}
			}
		}
		good = false
		break
	}
	A.owMemo[k] = good
	return good
}

type owKey struct {
	g   *ssa.Function
	res int
}

// ------------------------------------------------------------ occurrences

// Occs lists interesting events of f and its inlined helpers.
func (f *FnA) Occs() []*Occ {
	if f.occDone {
		return f.occs
	}
	if f.occBusy {
		return nil
	}
	f.occBusy = true
	defer func() { f.occBusy = false }()
	var out []*Occ
	inlineAt := func(cc *ssa.CallCommon, g *ssa.Function, bs []*Term, cur FS, at ssa.Instruction, s *subst) {
		pos := at.Pos()
		ga := f.A.fn(g)
		if ga == nil {
			return
		}
		sub := ga.Occs()
		if len(sub) == 0 {
			return
		}
		if s == nil {
			s = f.substFor(cc, ga, bs)
		}
		for _, o := range sub {
			n := &Occ{Kind: o.Kind, T: s.apply(o.T), Pre: union(cur, translateFS(s, o.Pre)), Pos: o.Pos, Fn: o.Fn, Instr: o.Instr}
			if o.U != nil {
				n.U = s.apply(o.U)
			}
			n.Chain = append([]string{fnName(g) + " called at " + f.A.P.Pos(pos)}, o.Chain...)
			n.frames = append(n.frames, frame{f, at, nil})
			for _, fr := range o.frames {
				n.frames = append(n.frames, frame{fr.f, fr.in, composeFrame(s, fr.s)})
			}
			out = append(out, n)
		}
	}
	for _, b := range f.rpo {
		if f.in[b.Index] == nil {
			continue
		}
		cur := f.in[b.Index].s
		for _, in := range b.Instrs {
			emit := func(kind string, t, u *Term) {
				if f.A.sink == nil || f.A.sink(kind, t) {
					out = append(out, &Occ{Kind: kind, T: t, U: u, Pre: cur, Pos: in.Pos(), Fn: f.f, Instr: in, frames: []frame{{f, in, nil}}})
				}
			}
			switch x := in.(type) {
			case ssa.CallInstruction:
				cc := x.Common()
				kind := "call"
				switch in.(type) {
				case *ssa.Defer:
					kind = "defer"
				case *ssa.Go:
					kind = "go"
				}
				emit(kind, f.rawCall(cc, 0), nil)
				if t := f.collected(in); t != nil {
					emit("call", t, nil)
				}
				if g, bs := f.calleeOf(cc); g != nil && f.A.clear(f.f, g) {
					inlineAt(cc, g, bs, cur, in, nil)
				}
				// closures and functions passed as values
				for _, a := range cc.Args {
					t := f.term(a)
					if (t.Op == "closure" || t.Op == "fn") && t.fn != nil && f.A.transparent(t.fn) && inModule(fnPkg(t.fn)) {
						s := newSubst()
						for i := range t.fn.FreeVars {
							if i < len(t.A) {
								s.m[fvTerm(t.fn, i)] = t.A[i]
							}
						}
						inlineAt(nil, t.fn, nil, cur, in, s)
					}
				}
			case *ssa.Store:
				if f.term(x.Addr) != f.term(x.Val) {
					emit("set", f.term(x.Addr), f.term(x.Val))
				}
				f.inlineStored(x.Val, cur, in.Pos(), &out)
				if t := f.collected(in); t != nil {
					emit("call", t, nil)
				}
			case *ssa.MapUpdate:
				emit("set", mk("idx", "", 0, f.term(x.Map), f.term(x.Key)), f.term(x.Value))
				f.inlineStored(x.Value, cur, in.Pos(), &out)
			case *ssa.Send:
				emit("send", f.term(x.Chan), f.term(x.X))
			case *ssa.Panic:
				emit("panic", f.term(x.X), nil)
			case *ssa.Slice:
				if x.Low != nil || x.High != nil {
					if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
						emit("use", f.term(x), nil)
					}
				}
			case *ssa.IndexAddr:
				if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
					emit("use", mk("idx", "", 0, f.term(x.X), f.term(x.Index)), nil)
				}
			case *ssa.Lookup:
				if !x.CommaOk {
					emit("use", f.term(x), nil)
				}
			case *ssa.TypeAssert:
				if !x.CommaOk {
					emit("use", f.term(x), nil)
				}
			}
			g, dead := f.gen(in)
			cur = union(cur, g)
			if dead {
				break
			}
		}
	}
	f.occs = out
	f.occDone = true
	return out
}

func (f *FnA) inlineStored(v ssa.Value, cur FS, pos token.Pos, out *[]*Occ) {
	switch v.(type) {
	case *ssa.MakeClosure, *ssa.Function:
	case *ssa.ChangeType, *ssa.MakeInterface:
	default:
		return
	}
	t := f.term(v)
	if (t.Op != "closure" && t.Op != "fn") || t.fn == nil || !f.A.transparent(t.fn) || !inModule(fnPkg(t.fn)) {
		return
	}
	ga := f.A.fn(t.fn)
	if ga == nil {
		return
	}
	s := newSubst()
	for i := range t.fn.FreeVars {
		if i < len(t.A) {
			s.m[fvTerm(t.fn, i)] = t.A[i]
		}
	}
	for _, o := range ga.Occs() {
		n := &Occ{Kind: o.Kind, T: s.apply(o.T), Pre: union(cur, translateFS(s, o.Pre)), Pos: o.Pos, Fn: o.Fn, Instr: o.Instr}
		if o.U != nil {
			n.U = s.apply(o.U)
		}
		n.Chain = append([]string{fnName(t.fn) + " (closure)"}, o.Chain...)
		for _, fr := range o.frames {
			n.frames = append(n.frames, frame{fr.f, fr.in, composeFrame(s, fr.s)})
		}
		*out = append(*out, n)
	}
}

// isRoot: functions whose callers are not all inlined.
func (A *Analysis) isRoot(fn *ssa.Function) bool {
	if fn.Parent() != nil || fn.Synthetic != "" && fn.Name() != "init" {
		return false
	}
	if !A.transparent(fn) {
		return true
	}
	return len(A.P.Callers[fn]) == 0
}

func composeFrame(outer, inner *subst) *subst {
	if inner == nil {
		return outer
	}
	return compose(outer, inner)
}
