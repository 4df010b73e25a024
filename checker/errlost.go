package main

import (
	_ "embed"
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lost errors: for every call in the module that returns an error, a typestate
// analysis of the error value along every path: it starts as pending and is
// resolved by a nil test (nil branch), by equality with a sentinel, by being
// returned, stored, sent or handed to a call. A path on which a pending error
// reaches a return that reports success loses the error. errlost.txt lists the
// pairs (function, callee) for which the reference tree does so.

//go:embed errlost.txt
var errLostTxt string

var errLostTab map[string]map[string]bool // function -> callee

func errLostAllowed() map[string]map[string]bool {
	if errLostTab == nil {
		errLostTab = map[string]map[string]bool{}
		for _, l := range strings.Split(errLostTxt, "\n") {
			p := strings.SplitN(l, " | ", 2)
			if len(p) != 2 {
				continue
			}
			if errLostTab[p[0]] == nil {
				errLostTab[p[0]] = map[string]bool{}
			}
			errLostTab[p[0]][p[1]] = true
		}
	}
	return errLostTab
}

// errResult is the index of the error among the results of a call, -1 if none.
func errResult(sig *types.Signature) int {
	r := sig.Results()
	if r.Len() == 0 || !isErrorType(r.At(r.Len()-1).Type()) {
		return -1
	}
	return r.Len() - 1
}

func calleeName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return ifaceMethodName(cc)
	}
	if g := cc.StaticCallee(); g != nil {
		for g.Parent() != nil {
			return "closure"
		}
		return fnName(g)
	}
	if n, ok := cc.Value.Type().(*types.Named); ok {
		return "dynamic " + typeStr(n)
	}
	return "dynamic"
}

// rootOf is the declared function a closure belongs to.
func rootOf(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

type lostSite struct {
	callee string
	pos    token.Pos
	why    string
	lost   bool
	cc     *ssa.CallCommon
}

// lostErrors examines the calls of one function.
func lostErrors(fn *ssa.Function) []*lostSite {
	var out []*lostSite
	for _, b := range fn.Blocks {
		if b != fn.Blocks[0] && len(b.Preds) == 0 {
			continue
		}
		for i, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if _, ok := call.Call.Value.(*ssa.Builtin); ok {
				continue
			}
			e := errResult(call.Call.Signature())
			if e < 0 || isErrMaker(&call.Call) {
				continue
			}
			s := &lostSite{callee: calleeName(&call.Call), pos: in.Pos(), cc: &call.Call}
			out = append(out, s)
			var v ssa.Value = call
			if call.Call.Signature().Results().Len() > 1 {
				v = nil
				if call.Referrers() != nil {
					for _, r := range *call.Referrers() {
						if x, ok := r.(*ssa.Extract); ok && x.Index == e {
							v = x
						}
						if _, ok := r.(*ssa.Return); ok {
							v = call // return f() of a tuple
						}
					}
				}
			}
			if v == nil {
				s.lost, s.why = true, "the error result is never read"
				continue
			}
			if r := lostPath(fn, b, i+1, v); r != nil {
				s.lost = true
				s.why = "the error can reach the successful return without having been examined"
				if r.Pos().IsValid() {
					s.why = fmt.Sprintf("%s (line %d)", s.why, fn.Prog.Fset.Position(r.Pos()).Line)
				}
			}
		}
	}
	return out
}

// isErrMaker: functions that make or pass on an error rather than fail.
func isErrMaker(cc *ssa.CallCommon) bool {
	g := cc.StaticCallee()
	if g == nil {
		return false
	}
	switch n := fnName(g); n {
	case "errors.New", "fmt.Errorf", "log.Errorf", "log.Error", "log.Critical", "log.Criticalf", "log.Warn", "log.Warnf":
		return true
	}
	return false
}

type lostState struct {
	b     *ssa.BasicBlock
	start int
	al    map[ssa.Value]bool
}

func aliasKey(b *ssa.BasicBlock, al map[ssa.Value]bool) string {
	var ns []string
	for v := range al {
		ns = append(ns, fmt.Sprintf("%p", v))
	}
	sort.Strings(ns)
	return fmt.Sprint(b.Index) + strings.Join(ns, ",")
}

// lostPath looks for a path on which the error v is lost.
func lostPath(fn *ssa.Function, b0 *ssa.BasicBlock, i0 int, v ssa.Value) *ssa.Return {
	seen := map[string]bool{}
	work := []lostState{{b0, i0, map[ssa.Value]bool{v: true}}}
	for len(work) > 0 {
		st := work[len(work)-1]
		work = work[:len(work)-1]
		al := map[ssa.Value]bool{}
		for k := range st.al {
			al[k] = true
		}
		done := false
		for _, in := range st.b.Instrs[st.start:] {
			var ops [8]*ssa.Value
			uses := false
			for _, o := range in.Operands(ops[:0]) {
				if *o != nil && al[*o] {
					uses = true
				}
			}
			switch x := in.(type) {
			case *ssa.Return:
				if uses {
					done = true
					break
				}
				if lostReturn(fn, x, st.b) {
					return x
				}
				done = true
			case *ssa.Panic:
				done = true
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.Store:
				if al[x.Val] {
					switch a := x.Addr.(type) {
					case *ssa.Alloc:
						al[a] = true
					case *ssa.IndexAddr:
						al[a.X] = true
					default:
						done = true
					}
				} else if a, ok := x.Addr.(*ssa.Alloc); ok && al[a] {
					delete(al, a)
				}
			case *ssa.Extract:
				if al[x.Tuple] {
					if isErrorType(x.Type()) {
						al[x] = true
					}
				}
			case *ssa.UnOp:
				if uses {
					al[x] = true
				}
			case *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.Slice, *ssa.ChangeType:
				if uses {
					al[in.(ssa.Value)] = true
				}
			case *ssa.Call:
				if uses {
					if errResult(x.Call.Signature()) >= 0 {
						al[x] = true
					} else {
						done = true
					}
				} else if g := x.Call.StaticCallee(); g != nil && (fnName(g) == "os.Exit" || fnName(g) == "log.Fatal") {
					done = true
				}
			case *ssa.BinOp:
				if uses && x.Referrers() != nil {
					for _, r := range *x.Referrers() {
						if _, ok := r.(*ssa.If); !ok {
							done = true
						}
					}
				}
			case *ssa.If, *ssa.Jump, *ssa.IndexAddr, *ssa.FieldAddr:
			default:
				if uses {
					done = true
				}
			}
			if done {
				break
			}
		}
		if done {
			continue
		}
		for si, s := range st.b.Succs {
			if x, ok := st.b.Instrs[len(st.b.Instrs)-1].(*ssa.If); ok && edgeResolves(x.Cond, si == 0, al) {
				continue
			}
			na := map[ssa.Value]bool{}
			for k := range al {
				na[k] = true
			}
			pi := -1
			for i, p := range s.Preds {
				if p == st.b {
					pi = i
				}
			}
			for _, in := range s.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if al[ph.Edges[pi]] {
					na[ph] = true
				} else {
					delete(na, ph)
				}
			}
			k := aliasKey(s, na)
			if !seen[k] && len(seen) < 20000 {
				seen[k] = true
				work = append(work, lostState{s, 0, na})
			}
		}
	}
	return nil
}

// edgeResolves: taking this branch of the condition settles the error.
func edgeResolves(c ssa.Value, taken bool, al map[ssa.Value]bool) bool {
	switch x := c.(type) {
	case *ssa.Const:
		return x.Value != nil && (x.Value.String() == "true") != taken
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return edgeResolves(x.X, !taken, al)
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return false
		}
		if !al[x.X] && !al[x.Y] {
			// a branch that cannot be taken: a made error that is nil
			k, ok := x.Y.(*ssa.Const)
			return ok && k.Value == nil && (x.Op == token.EQL) == taken && isErrorType(x.X.Type()) && surelyNonNil(x.X, x.Block())
		}
		return (x.Op == token.EQL) == taken
	}
	return false
}

// lostReturn: a return that reports success.
func lostReturn(fn *ssa.Function, r *ssa.Return, b *ssa.BasicBlock) bool {
	res := fn.Signature.Results()
	if res.Len() == 0 {
		return false
	}
	if e := errResult(fn.Signature); e >= 0 {
		return !surelyNonNil(r.Results[e], b)
	}
	for i, v := range r.Results {
		if c, ok := v.(*ssa.Const); ok {
			if c.Value == nil && res.Len() == 1 {
				return false // nil pointer
			}
			if isBool(c.Type()) && i == res.Len()-1 {
				return c.Value.String() == "true"
			}
		}
	}
	return false
}

func surelyNonNil(v ssa.Value, b *ssa.BasicBlock) bool { return surelyNonNilN(v, b, 6) }

func surelyNonNilN(v ssa.Value, b *ssa.BasicBlock, n int) bool {
	if n == 0 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Const:
		return false
	case *ssa.MakeInterface:
		return true
	case *ssa.UnOp:
		if _, ok := x.X.(*ssa.Global); ok {
			return true
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			// a result variable, stored in the same block
			var last ssa.Value
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == al {
					last = s.Val
				}
			}
			return last != nil && surelyNonNilN(last, b, n-1)
		}
	case *ssa.Call:
		if isErrMaker(&x.Call) {
			return true
		}
	case *ssa.ChangeInterface:
		return surelyNonNilN(x.X, b, n-1)
	}
	for d := b; d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil {
			break
		}
		x, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || len(d.Preds) != 1 {
			continue
		}
		c, ok := x.Cond.(*ssa.BinOp)
		if !ok || c.X != v && c.Y != v {
			continue
		}
		k, ok := c.Y.(*ssa.Const)
		if !ok {
			k, ok = c.X.(*ssa.Const)
		}
		if ok && k.Value == nil && (c.Op == token.NEQ) == (p.Succs[0] == d) {
			return true
		}
	}
	return false
}

// inScope: the functions of a property: those its globs name, their closures
// and the unexported functions they call.
func (c *Ctx) scope(globs []string) []*ssa.Function {
	in := map[*ssa.Function]bool{}
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if in[fn] {
			return
		}
		in[fn] = true
		for _, a := range fn.AnonFuncs {
			add(a)
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if call, ok := i.(ssa.CallInstruction); ok {
					if g := call.Common().StaticCallee(); g != nil && g.Synthetic == "" && c.A.transparent(g) {
						add(g)
					}
				}
			}
		}
	}
	for _, fn := range c.P.Fns {
		if fn.Parent() != nil || fn.Synthetic != "" {
			continue
		}
		for _, g := range globs {
			if globMatch(g, fnName(fn)) {
				add(fn)
				break
			}
		}
	}
	var r []*ssa.Function
	for _, fn := range c.P.Fns {
		if in[fn] {
			r = append(r, fn)
		}
	}
	return r
}

// newHelper: a function that the reference tree does not have.
func (c *Ctx) newHelper(fn *ssa.Function) bool {
	return fn != nil && inModule(fnPkg(fn)) && !baseFns()[fnName(fn)]
}

// LostErrors decides that no function in scope loses an error, except as listed.
func (c *Ctx) LostErrors(rule string, globs []string) {
	allowed := errLostAllowed()
	gone := map[string]map[string]bool{} // package -> callees lost by functions that no longer exist
	anyIn := map[string]map[string]bool{}
	exists := map[string]bool{}
	for _, fn := range c.P.Fns {
		exists[fnName(fn)] = true
	}
	for f, cs := range allowed {
		p := fnPkgName(f)
		for k := range cs {
			if anyIn[p] == nil {
				anyIn[p], gone[p] = map[string]bool{}, map[string]bool{}
			}
			anyIn[p][k] = true
			if !exists[f] {
				gone[p][k] = true
			}
		}
	}
	for _, fn := range c.scope(globs) {
		if fn.Synthetic != "" {
			continue
		}
		root := fnName(rootOf(fn))
		pk := fnPkgName(root)
		for _, s := range lostErrors(fn) {
			ok := !s.lost || allowed[root][s.callee] || gone[pk][s.callee] ||
				c.newHelper(rootOf(fn)) && anyIn[pk][s.callee]
			if !ok {
				// a new helper that may fail as its caller may, or a renamed callee
				may := map[string]bool{}
				for k := range allowed[root] {
					may[k] = true
				}
				for k := range gone[pk] {
					may[k] = true
				}
				if c.newHelper(rootOf(fn)) {
					for k := range anyIn[pk] {
						may[k] = true
					}
				}
				g := s.cc.StaticCallee()
				ok = c.lostThrough(g, may, map[*ssa.Function]bool{})
				if c.newHelper(g) {
					for k := range may {
						if baseFns()[k] && !exists[k] && fnPkgName(k) == fnPkgName(fnName(g)) {
							ok = true
						}
					}
				}
			}
			c.add(rule, "the error of "+s.callee+" is not lost in "+root, c.P.Pos(s.pos), ok,
				fmt.Sprintf("%s calls %s at %s: %s", root, s.callee, c.P.Pos(s.pos), s.why))
		}
	}
}

// lostThrough: a new helper (or a function literal) all of whose failing calls
// the caller may ignore.
func (c *Ctx) lostThrough(g *ssa.Function, allowed map[string]bool, seen map[*ssa.Function]bool) bool {
	if g == nil || len(g.Blocks) == 0 || seen[g] || !(g.Parent() != nil || c.newHelper(g)) {
		return false
	}
	seen[g] = true
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok && errResult(call.Call.Signature()) >= 0 && !isErrMaker(&call.Call) {
				if !allowed[calleeName(&call.Call)] && !c.lostThrough(call.Call.StaticCallee(), allowed, seen) {
					return false
				}
			}
		}
	}
	return true
}

func listLost(P *Program) {
	out := map[string]bool{}
	for _, fn := range P.Fns {
		if fn.Synthetic != "" {
			continue
		}
		for _, s := range lostErrors(fn) {
			if s.lost {
				out[fnName(rootOf(fn))+" | "+s.callee] = true
			}
		}
	}
	for _, k := range sortedKeysB(out) {
		fmt.Println(k)
	}
}
