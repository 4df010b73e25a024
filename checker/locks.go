package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lock typestate: a forward dataflow over every function computes which locks
// are certainly held (intersection over paths) and which may be held (union).
// Unexported functions start with what all their call sites hold; a call
// applies the net effect of its callee. Decided: guarded fields are accessed
// only with their lock held (for writing: exclusively), no function returns
// with a lock held, no lock is taken again while it is held, and the order in
// which locks nest has no cycle.

// guardedBy: field -> lock. The lock protects the field of the same object, or
// the global.
var guardedBy = map[string]string{
	"serviceguard/common/keypool.KeyPool.keys":          "serviceguard/common/keypool.KeyPool.mapMutex",
	"serviceguard/common/keypool.KeyPool.VerifyPubKeys": "serviceguard/common/keypool.KeyPool.mapMutex",
	"serviceguard/common/keypool.KeyPool.currentKey":    "serviceguard/common/keypool.KeyPool.mapMutex",
	"serviceguard/common/keypool.KeyPool.previousKey":   "serviceguard/common/keypool.KeyPool.mapMutex",
	"serviceguard/client/walletstore.Storage.cache":     "serviceguard/client/walletstore.Storage.cacheMutex",
	"mix/mixaddr.KeyList.Keys":                          "mix/mixaddr.KeyList.mutex",
	"mix/mixaddr.KeyList.statement":                     "mix/mixaddr.KeyList.mutex",
	"serviceguard/client.Client.runnerRunning":          "serviceguard/client.runnerLock",
	"serviceguard/client.Client.target":                 "serviceguard/client.runnerLock",
	"serviceguard/client.errorTranslateMap":             "serviceguard/client.errorTranslateMutex",
	"mix/client.errorTranslateMap":                      "mix/client.errorTranslateMutex",
	"ctrlengine.auth.secret":                            "ctrlengine.auth.RWMutex",
}

const (
	lkR = 1
	lkW = 2
)

type lockSet map[string]int // lock -> mode

func (a lockSet) clone() lockSet {
	r := lockSet{}
	for k, v := range a {
		r[k] = v
	}
	return r
}
func (a lockSet) String() string {
	var ks []string
	for k, v := range a {
		if v == lkR {
			k += "(read)"
		}
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, ", ")
}
func meetLocks(a, b lockSet) lockSet {
	r := lockSet{}
	for k, v := range a {
		if w, ok := b[k]; ok {
			if w < v {
				v = w
			}
			r[k] = v
		}
	}
	return r
}
func joinLocks(a, b lockSet) lockSet {
	r := a.clone()
	for k, v := range b {
		if v > r[k] {
			r[k] = v
		}
	}
	return r
}
func sameLocks(a, b lockSet) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

type lockState struct {
	must, may, dfr lockSet // dfr: deferred unlocks (must)
}

type lockFn struct {
	fn          *ssa.Function
	v           int // value of the flag that controls locking: 0, 1, or -1
	in          map[*ssa.BasicBlock]*lockState
	entryMust   lockSet
	entryMay    lockSet
	hasEntry    bool
	adds, drops lockSet
	addsMay     lockSet
}

type lockAn struct {
	c     *Ctx
	fns   map[lockVar]*lockFn
	flags map[*ssa.Function]int

	callers map[*ssa.Function][]*ssa.Function
	frozen  bool
	called  map[*ssa.Function]bool
	cb      map[*ssa.Function]lockSet // callbacks that run with a lock held
}

type lockVar struct {
	fn *ssa.Function
	v  int
}

// flagParam is the bool parameter that decides whether fn takes a lock, -1 if
// there is none. Such a function is analysed once per value of the flag.
func (l *lockAn) flagParam(fn *ssa.Function) int {
	if r, ok := l.flags[fn]; ok {
		return r
	}
	r, locks := -1, false
	l.flags[fn] = -1
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if _, m := lockOp(ci.Common()); m != 0 {
					locks = true
				}
				if g := ci.Common().StaticCallee(); g != nil && g != fn && inModule(fnPkg(g)) && len(g.Blocks) > 0 {
					if i := l.flagParam(g); i >= 0 && i < len(ci.Common().Args) {
						if j, pol := flagCond(ci.Common().Args[i]); j >= 0 && pol {
							r, locks = j, true
						}
					}
				}
			}
			if x, ok := in.(*ssa.If); ok {
				if i, _ := flagCond(x.Cond); i >= 0 {
					r = i
				}
			}
		}
	}
	if !locks {
		r = -1
	}
	l.flags[fn] = r
	return r
}

// flagCond: the condition is a parameter (or its negation).
func flagCond(v ssa.Value) (int, bool) {
	pol := true
	for {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		v, pol = u.X, !pol
	}
	if p, ok := v.(*ssa.Parameter); ok {
		for i, q := range p.Parent().Params {
			if p == q {
				return i, pol
			}
		}
	}
	return -1, pol
}

// variants of a callee that a call can reach.
func (l *lockAn) variants(g *ssa.Function, cc *ssa.CallCommon, from *lockFn) []*lockFn {
	i := l.flagParam(g)
	if i < 0 {
		return []*lockFn{l.get(g, -1)}
	}
	if cc != nil && i < len(cc.Args) {
		if k, ok := cc.Args[i].(*ssa.Const); ok && k.Value != nil {
			if k.Value.String() == "true" {
				return []*lockFn{l.get(g, 1)}
			}
			return []*lockFn{l.get(g, 0)}
		}
		if from != nil && from.v >= 0 {
			if j, pol := flagCond(cc.Args[i]); j == l.flagParam(from.fn) && pol {
				return []*lockFn{l.get(g, from.v)}
			}
		}
	}
	return []*lockFn{l.get(g, 0), l.get(g, 1)}
}

// takes: the edge is possible for this value of the flag.
func (l *lockAn) takes(f *lockFn, b *ssa.BasicBlock, succ int) bool {
	if f.v < 0 {
		return true
	}
	x, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return true
	}
	i, pol := flagCond(x.Cond)
	if i != l.flagParam(f.fn) {
		return true
	}
	return (succ == 0) == (pol == (f.v == 1))
}

// lockKey names the mutex a Lock or Unlock is applied to.
func lockKey(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return lockKey(x.X)
		}
	case *ssa.FieldAddr:
		return addrKey(x)
	case *ssa.Field:
		return fieldKey(x.X.Type(), x.Field)
	case *ssa.Global:
		return globalKey(x)
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				return fmt.Sprintf("$%d", i)
			}
		}
	case *ssa.FreeVar, *ssa.Alloc:
		return "var " + v.Parent().Name() + "." + v.Name()
	case *ssa.Phi:
		if len(x.Edges) > 0 {
			return lockKey(x.Edges[0])
		}
	}
	return ""
}

func globalKey(x *ssa.Global) string {
	if x.Pkg != nil {
		return shortPath(x.Pkg.Pkg.Path()) + "." + globalName(x)
	}
	return globalName(x)
}

// addrKey names a field: by its type, or by the global of an unnamed type.
func addrKey(x *ssa.FieldAddr) string {
	if g, ok := x.X.(*ssa.Global); ok {
		if _, named := deref(g.Type()).(*types.Named); !named {
			return globalKey(g) + "." + fieldName(x.X.Type(), x.Field)
		}
	}
	return fieldKey(x.X.Type(), x.Field)
}

func fieldKey(t types.Type, i int) string {
	return fieldOwner(t) + "." + fieldName(t, i)
}

// argLock translates a lock that is a parameter of the callee.
func argLock(k string, cc *ssa.CallCommon) string {
	var i int
	if n, _ := fmt.Sscanf(k, "$%d", &i); n == 1 && i < len(cc.Args) {
		return lockKey(cc.Args[i])
	}
	return k
}

// lockOp classifies a call: +mode for acquiring, -mode for releasing.
func lockOp(cc *ssa.CallCommon) (string, int) {
	g := cc.StaticCallee()
	if g == nil || len(cc.Args) == 0 {
		return "", 0
	}
	var m int
	switch fnName(g) {
	case "sync.Mutex.Lock", "sync.RWMutex.Lock":
		m = lkW
	case "sync.RWMutex.RLock":
		m = lkR
	case "sync.Mutex.Unlock", "sync.RWMutex.Unlock":
		m = -lkW
	case "sync.RWMutex.RUnlock":
		m = -lkR
	default:
		return "", 0
	}
	return lockKey(cc.Args[0]), m
}

func (l *lockAn) get(fn *ssa.Function, v int) *lockFn {
	f := l.fns[lockVar{fn, v}]
	if f == nil {
		f = &lockFn{fn: fn, v: v, entryMust: lockSet{}, entryMay: lockSet{}, adds: lockSet{}, drops: lockSet{}, addsMay: lockSet{}}
		l.fns[lockVar{fn, v}] = f
	}
	return f
}

// step applies one instruction. report may be nil.
func (l *lockAn) step(f *lockFn, s *lockState, in ssa.Instruction, report func(kind, what string, in ssa.Instruction)) {
	switch x := in.(type) {
	case *ssa.Call:
		if k, m := lockOp(&x.Call); m != 0 {
			if m > 0 {
				if h, ok := s.may[k]; ok && report != nil && (m == lkW || h == lkW) {
					report("relock", k, in)
				}
				if report != nil {
					for h := range s.may {
						if h != k {
							report("edge", h+" -> "+k, in)
						}
					}
				}
				s.must[k], s.may[k] = m, m
			} else {
				if _, ok := s.may[k]; !ok && report != nil {
					report("unlock", k, in)
				}
				delete(s.must, k)
				delete(s.may, k)
			}
			return
		}
		g := x.Call.StaticCallee()
		if g != nil && inModule(fnPkg(g)) && len(g.Blocks) > 0 {
			for i, h := range l.variants(g, &x.Call, f) {
				for k := range h.drops {
					k = argLock(k, &x.Call)
					delete(s.must, k)
					delete(s.may, k)
				}
				if i == 0 {
					for k, m := range h.adds {
						k = argLock(k, &x.Call)
						s.must[k] = m
					}
				}
				for k, m := range h.addsMay {
					k = argLock(k, &x.Call)
					if m > s.may[k] {
						s.may[k] = m
					}
				}
			}
		}
	case *ssa.Defer:
		if k, m := lockOp(&x.Call); m < 0 {
			s.dfr[k] = -m
			return
		}
		if g := x.Call.StaticCallee(); g != nil && inModule(fnPkg(g)) {
			for _, h := range l.variants(g, &x.Call, f) {
				for k, m := range h.drops {
					k = argLock(k, &x.Call)
					s.dfr[k] = m
				}
			}
		}
	case *ssa.RunDefers:
		for k := range s.dfr {
			delete(s.must, k)
			delete(s.may, k)
		}
	}
}

func (l *lockAn) run(f *lockFn) bool {
	fn := f.fn
	f.in = map[*ssa.BasicBlock]*lockState{fn.Blocks[0]: {f.entryMust.clone(), f.entryMay.clone(), lockSet{}}}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	drops := lockSet{}
	var exMust, exMay lockSet
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		i := f.in[b]
		s := &lockState{i.must.clone(), i.may.clone(), i.dfr.clone()}
		for _, in := range b.Instrs {
			l.step(f, s, in, func(kind, what string, in ssa.Instruction) {
				if kind == "unlock" {
					drops[what] = lkW
				}
			})
		}
		for si, t := range b.Succs {
			if !l.takes(f, b, si) {
				continue
			}
			o := f.in[t]
			if o == nil {
				f.in[t] = &lockState{s.must.clone(), s.may.clone(), s.dfr.clone()}
				work = append(work, t)
				continue
			}
			n := &lockState{meetLocks(o.must, s.must), joinLocks(o.may, s.may), meetLocks(o.dfr, s.dfr)}
			if !sameLocks(n.must, o.must) || !sameLocks(n.may, o.may) || !sameLocks(n.dfr, o.dfr) {
				f.in[t] = n
				work = append(work, t)
			}
		}
	}
	for _, b := range fn.Blocks {
		if f.in[b] == nil || len(b.Instrs) == 0 {
			continue
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); !ok {
			continue
		}
		s := f.at(l, b, len(b.Instrs))
		if exMust == nil {
			exMust, exMay = s.must, s.may
		} else {
			exMust, exMay = meetLocks(exMust, s.must), joinLocks(exMay, s.may)
		}
	}
	adds, addsMay := lockSet{}, lockSet{}
	for k, m := range exMust {
		if _, ok := f.entryMust[k]; !ok {
			adds[k] = m
		}
	}
	for k, m := range exMay {
		if _, ok := f.entryMay[k]; !ok {
			addsMay[k] = m
		}
	}
	for k := range f.entryMay { // released on the way although held at entry
		if _, ok := exMay[k]; !ok && exMay != nil {
			drops[k] = lkW
		}
	}
	if l.frozen {
		return false
	}
	ch := !sameLocks(adds, f.adds) || !sameLocks(drops, f.drops) || !sameLocks(addsMay, f.addsMay)
	f.adds, f.drops, f.addsMay = adds, drops, addsMay
	return ch
}

func (f *lockFn) at(l *lockAn, b *ssa.BasicBlock, n int) *lockState {
	i := f.in[b]
	s := &lockState{i.must.clone(), i.may.clone(), i.dfr.clone()}
	for _, in := range b.Instrs[:n] {
		l.step(f, s, in, nil)
	}
	return s
}

// internal: only called from within the module, statically.
func (l *lockAn) internal(fn *ssa.Function) bool {
	if l.c.P.AddrTaken[fn] || len(l.c.P.Callers[fn]) == 0 {
		return false
	}
	return !isExportedFn(fn) || fn.Parent() != nil
}

func lockAnalysis(c *Ctx) *lockAn {
	l := &lockAn{c: c, fns: map[lockVar]*lockFn{}, flags: map[*ssa.Function]int{}, callers: map[*ssa.Function][]*ssa.Function{}}
	l.cb, l.called = map[*ssa.Function]lockSet{}, map[*ssa.Function]bool{}
	l.prepare()
	// net effects, with nothing held at entry
	for round := 0; round < 20; round++ {
		ch := false
		for _, f := range l.all() {
			if l.run(f) {
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	l.frozen = true
	// entry states: may grows, must shrinks from "never called"
	for _, f := range l.all() {
		f.entryMay = lockSet{}
		f.entryMust = nil
		if h := l.cb[f.fn]; h != nil {
			f.entryMust, f.entryMay = h.clone(), h.clone()
		} else if l.open(f) {
			f.entryMust = lockSet{}
		}
	}
	for round := 0; round < 50; round++ {
		ch := false
		flow := func(g *lockFn, must, may lockSet) {
			if l.cb[g.fn] != nil {
				return
			}
			n := joinLocks(g.entryMay, may)
			m := g.entryMust
			if m == nil {
				m = must.clone()
			} else {
				m = meetLocks(m, must)
			}
			if g.entryMust == nil || !sameLocks(m, g.entryMust) || !sameLocks(n, g.entryMay) {
				g.entryMust, g.entryMay = m, n
				ch = true
			}
		}
		for _, f := range l.all() {
			if f.entryMust == nil {
				continue
			}
			l.run(f)
			var end lockSet // held when the deferred calls run
			for _, b := range f.fn.Blocks {
				if f.in[b] == nil {
					continue
				}
				for n, in := range b.Instrs {
					if _, ok := in.(*ssa.RunDefers); ok {
						s := f.at(l, b, n)
						if end == nil {
							end = s.must
						} else {
							end = meetLocks(end, s.must)
						}
					}
				}
			}
			for _, b := range f.fn.Blocks {
				if f.in[b] == nil {
					continue
				}
				s := f.at(l, b, 0)
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						cc := ci.Common()
						must, may := s.must, s.may
						switch ci.(type) {
						case *ssa.Go:
							must, may = lockSet{}, lockSet{}
						case *ssa.Defer:
							must = meetLocks(must, end)
						}
						if g := cc.StaticCallee(); g != nil && inModule(fnPkg(g)) && len(g.Blocks) > 0 {
							for _, h := range l.variants(g, cc, f) {
								flow(h, must, may)
							}
						}
						// function literals handed to a helper that calls them
						if p, ok := cc.Value.(*ssa.Parameter); ok {
							for _, site := range c.P.Callers[f.fn] {
								for i, q := range f.fn.Params {
									if p != q || i >= len(site.Args) {
										continue
									}
									for _, h := range funcsOf(site.Args[i], 2) {
										if h.Parent() != nil {
											flow(l.get(h, -1), must, may)
										}
									}
								}
							}
						}
					}
					l.step(f, s, in, nil)
				}
			}
		}
		if !ch {
			break
		}
	}
	for _, f := range l.all() {
		if f.entryMust == nil {
			f.entryMust = lockSet{}
		}
		l.run(f)
	}
	return l
}

// open: the function can be called from anywhere. A function with a flag that
// controls locking is, for the value of the flag for which no lock is taken,
// left to callers that hold it already.
func (l *lockAn) open(f *lockFn) bool {
	if f.v >= 0 {
		return l.locksIn(f, 4)
	}
	if l.called[f.fn] {
		return false
	}
	return !l.internal(f.fn)
}

func (l *lockAn) all() []*lockFn {
	var r []*lockFn
	for _, fn := range l.c.P.Fns {
		r = append(r, l.variants(fn, nil, nil)...)
	}
	return r
}

// locksIn: the function takes a lock for this value of the flag, itself or in
// a function it hands the flag to.
func (l *lockAn) locksIn(f *lockFn, n int) bool {
	for b := range f.in {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := ci.Common()
			if _, m := lockOp(cc); m > 0 {
				return true
			}
			g := cc.StaticCallee()
			if n == 0 || g == nil || !inModule(fnPkg(g)) || len(g.Blocks) == 0 {
				continue
			}
			if i := l.flagParam(g); i >= 0 && i < len(cc.Args) {
				for _, h := range l.variants(g, cc, f) {
					if h != f && l.locksIn(h, n-1) {
						return true
					}
				}
			}
		}
	}
	return false
}

func isMapT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// fresh: the object was made in this function and has not been published by a
// constructor yet.
func freshObj(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		for _, r := range *x.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == x {
				if _, ok := s.Val.(*ssa.Const); !ok {
					return false // a copy
				}
			}
		}
		return true
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			n := 0
			for _, r := range *al.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == al {
					n++
					if !freshObj(s.Val) {
						return false
					}
				}
			}
			return n > 0
		}
	}
	return false
}

// prepare finds the callers and the functions that run with a lock held by
// contract: methods whose name ends in Unsafe, and the fetch callbacks of a key
// pool (which the pool calls under its lock).
func (l *lockAn) prepare() {
	for _, fn := range l.c.P.Fns {
		if strings.Contains(fn.Name(), "Unsafe") && fn.Signature.Recv() != nil {
			own := fieldOwner(fn.Signature.Recv().Type())
			for f, lk := range guardedBy {
				if strings.HasPrefix(f, own+".") {
					l.cb[fn] = lockSet{lk: lkW}
				}
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				g := cc.StaticCallee()
				if g == nil {
					continue
				}
				l.callers[g] = append(l.callers[g], fn)
				if fnName(g) == "serviceguard/common/keypool.KeyPool.RegisterStorage" {
					for _, h := range funcsOf(cc.Args[1], 3) {
						l.cb[h] = lockSet{"serviceguard/common/keypool.KeyPool.mapMutex": lkW}
					}
				}
			}
		}
	}
}

// funcsOf resolves a function value.
func funcsOf(v ssa.Value, n int) []*ssa.Function {
	if n == 0 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{x}
	case *ssa.MakeClosure:
		g := x.Fn.(*ssa.Function)
		if strings.HasSuffix(g.Name(), "$bound") {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() != nil {
						return []*ssa.Function{c.Call.StaticCallee()}
					}
				}
			}
		}
		return []*ssa.Function{g}
	case *ssa.ChangeType:
		return funcsOf(x.X, n)
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil {
			var r []*ssa.Function
			for _, b := range g.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
					r = append(r, funcsOf(ret.Results[0], n-1)...)
				}
			}
			return r
		}
	}
	return nil
}

// accesses lists the reads and writes through a guarded field address.
func fieldAccess(fa ssa.Value) map[ssa.Instruction]int {
	out := map[ssa.Instruction]int{}
	for i, m := range addrAccess(fa) {
		out[i] = m
		if u, ok := i.(*ssa.UnOp); ok {
			valAccess(u, out, 0)
		}
	}
	return out
}

func addrAccess(a ssa.Value) map[ssa.Instruction]int {
	out := map[ssa.Instruction]int{}
	if a.Referrers() == nil {
		return out
	}
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == a {
				out[x] = lkW
			}
		case *ssa.UnOp:
			out[x] = lkR
		}
	}
	return out
}

func (c *Ctx) LockRules() {
	l := lockAnalysis(c)
	seen := map[string]int{}
	order := map[string]map[string]string{}
	for _, f := range l.all() {
		fn := f.fn
		root := fnName(rootOf(fn))
		uses := false
		for _, b := range fn.Blocks {
			if f.in[b] == nil {
				continue
			}
			s := f.at(l, b, 0)
			for _, in := range b.Instrs {
				// guarded fields
				check := func(key string, obj ssa.Value, acc map[ssa.Instruction]int) {
					lock := guardedBy[key]
					if lock == "" {
						return
					}
					if freshObj(obj) {
						return
					}
					var ins []ssa.Instruction
					for i := range acc {
						ins = append(ins, i)
					}
					sort.Slice(ins, func(a, b int) bool { return ins[a].Pos() < ins[b].Pos() })
					for _, i := range ins {
						m := acc[i]
						if f.in[i.Block()] == nil {
							continue
						}
						st := f.at(l, i.Block(), instrIndex(i))
						h := st.must[lock]
						ok := h >= m
						verb := "read"
						if m == lkW {
							verb = "written"
						}
						seen[key]++
						c.add("lock", fmt.Sprintf("%s is %s in %s only with %s held", key, verb, root, lock), c.P.Pos(posOf(i)), ok,
							fmt.Sprintf("%s is %s at %s (%s) while holding only [%s]", key, verb, c.P.Pos(posOf(i)), fnName(fn), st.must))
					}
				}
				switch x := in.(type) {
				case *ssa.FieldAddr:
					check(addrKey(x), x.X, fieldAccess(x))
				case *ssa.Store:
					if g, ok := x.Addr.(*ssa.Global); ok && !l.initOnly(fn) {
						check(globalKey(g), g, map[ssa.Instruction]int{x: lkW})
					}
				case *ssa.UnOp:
					if g, ok := x.X.(*ssa.Global); ok && !l.initOnly(fn) {
						acc := map[ssa.Instruction]int{x: lkR}
						valAccess(x, acc, 0)
						check(globalKey(g), g, acc)
					}
					if x.Op == token.MUL {
						// a copy of the whole object reads its guarded fields
						if st, ok := x.Type().Underlying().(*types.Struct); ok {
							for i := 0; i < st.NumFields(); i++ {
								check(fieldKey(x.Type(), i), x.X, map[ssa.Instruction]int{x: lkR})
							}
						}
					}
				}
				l.step(f, s, in, func(kind, what string, in ssa.Instruction) {
					switch kind {
					case "relock":
						c.add("lock", "no function takes "+what+" while it is held", c.P.Pos(in.Pos()), false,
							fmt.Sprintf("%s takes %s at %s while it may already be held", fnName(fn), what, c.P.Pos(in.Pos())))
					case "edge":
						p := strings.SplitN(what, " -> ", 2)
						if order[p[0]] == nil {
							order[p[0]] = map[string]string{}
						}
						order[p[0]][p[1]] = fmt.Sprintf("%s at %s", fnName(fn), c.P.Pos(in.Pos()))
					}
				})
				if ci, ok := in.(ssa.CallInstruction); ok {
					if _, m := lockOp(ci.Common()); m != 0 {
						uses = true
					}
				}
				if _, ok := in.(*ssa.Return); ok && (uses || len(f.addsMay) > 0) && (isExportedFn(fn) || len(c.P.Callers[fn]) == 0 || c.P.AddrTaken[fn]) {
					held := lockSet{}
					for k, m := range s.may {
						if _, ok := f.entryMay[k]; !ok && k[0] != '$' {
							held[k] = m
						}
					}
					c.add("lock", fnName(fn)+" returns without holding a lock", c.P.Pos(in.Pos()), len(held) == 0,
						fmt.Sprintf("%s can return at %s while holding %s", fnName(fn), c.P.Pos(in.Pos()), held))
				}
			}
		}
	}
	for k := range guardedBy {
		if seen[k] == 0 && !c.P.Reduced {
			c.add("lock", "anchor "+k, "", false, "no access to the guarded field was found")
		}
	}
	// lock order
	for a, bs := range order {
		for b, w := range bs {
			c.add("lock", "lock order "+a+" before "+b+" has no cycle", "", !reachesLock(order, b, a, map[string]bool{}), w)
		}
	}
}

func reachesLock(o map[string]map[string]string, a, b string, seen map[string]bool) bool {
	if a == b {
		return true
	}
	if seen[a] {
		return false
	}
	seen[a] = true
	for n := range o[a] {
		if reachesLock(o, n, b, seen) {
			return true
		}
	}
	return false
}

func instrIndex(i ssa.Instruction) int {
	for n, x := range i.Block().Instrs {
		if x == i {
			return n
		}
	}
	return 0
}

func posOf(i ssa.Instruction) token.Pos {
	if i.Pos().IsValid() {
		return i.Pos()
	}
	if s, ok := i.(*ssa.Store); ok {
		return s.Addr.Pos()
	}
	if u, ok := i.(*ssa.UnOp); ok {
		return u.X.Pos()
	}
	return i.Parent().Pos()
}

// valAccess adds the uses of a loaded map or slice.
func valAccess(v ssa.Value, out map[ssa.Instruction]int, d int) {
	if v.Referrers() == nil || d > 3 {
		return
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.MapUpdate:
			if x.Map == v {
				out[x] = lkW
			}
		case *ssa.Lookup:
			if x.X == v {
				out[x] = lkR
			}
		case *ssa.Range:
			if isMapT(v.Type()) {
				out[x] = lkR
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && isMapT(v.Type()) {
				if b.Name() == "delete" {
					out[x] = lkW
				} else {
					out[x] = lkR
				}
			}
		case *ssa.IndexAddr:
			if x.X == v {
				for i, m := range addrAccess(x) {
					out[i] = m
				}
			}
		}
	}
}

// initOnly: package initialisation, before any goroutine of the program runs.
func (l *lockAn) initOnly(fn *ssa.Function) bool {
	return l.initOnlyN(fn, 5)
}

func (l *lockAn) initOnlyN(fn *ssa.Function, n int) bool {
	fn = rootOf(fn)
	if fn.Name() == "init" && fn.Synthetic != "" || strings.HasPrefix(fn.Name(), "init#") {
		return true
	}
	if n == 0 || isExportedFn(fn) || l.c.P.AddrTaken[fn] || len(l.callers[fn]) == 0 {
		return false
	}
	for _, g := range l.callers[fn] {
		if !l.initOnlyN(g, n-1) {
			return false
		}
	}
	return true
}
