package main

import (
	_ "embed"
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Contracts: what must have happened, with which values, whenever a function
// reports success. They were mined from the reviewed reference tree (-gen) and
// are decided against the current tree on every run.
//
//	fn NAME
//	 S need     holds at every success exit (error nil)
//	 T / F need holds at every exit returning true / false
//	 R need     holds at every return
//	 V i pat    result i on non-error returns
//	 C callee | pat   every call of callee in the function matches one C line,
//	                  and every C line is matched by a call
//	 G pat => need    before every call matching pat, need holds
//	 E t => need      whenever t became true on a path to the successful exit,
//	                  so did need

//go:embed contracts.txt
var contractsTxt string

type centry struct {
	kind string // S T F R V C G
	a, b string
}

type contract struct {
	fn  string
	sig string
	es  []centry
}

var contractTab map[string]*contract
var contractOrder []string

func loadContracts() {
	if contractTab != nil {
		return
	}
	contractTab = map[string]*contract{}
	var cur *contract
	for i, l := range strings.Split(contractsTxt, "\n") {
		switch {
		case l == "" || l[0] == '#':
		case strings.HasPrefix(l, "fn "):
			f := strings.SplitN(l[3:], " :: ", 2)
			cur = &contract{fn: f[0]}
			if len(f) == 2 {
				cur.sig = f[1]
			}
			contractTab[cur.fn] = cur
			contractOrder = append(contractOrder, cur.fn)
		case l[0] == ' ' && len(l) > 3:
			e := centry{kind: l[1:2]}
			r := l[3:]
			switch e.kind {
			case "V", "Y", "P", "Q", "B", "D":
				p := strings.SplitN(r, " ", 2)
				e.a, e.b = p[0], p[1]
			case "C", "W":
				p := strings.SplitN(r, " | ", 2)
				e.a, e.b = p[0], p[1]
			case "G", "U", "E", "A":
				p := strings.SplitN(r, " => ", 2)
				e.a, e.b = p[0], p[1]
			default:
				e.a = r
			}
			cur.es = append(cur.es, e)
		default:
			panic(fmt.Sprintf("contracts.txt:%d: %q", i+1, l))
		}
	}
}

func sigStr(fn *ssa.Function) string {
	s := typeStr(fn.Signature)
	if r := fn.Signature.Recv(); r != nil {
		s = typeStr(r.Type()) + " " + s
	}
	return s
}

// resolve finds the function of a contract; an unexported function that is
// gone is looked for under a new name: the only unexported function of the
// package that has the same type and no contract of its own.
func (c *Ctx) resolve(ct *contract) *ssa.Function {
	if fn := c.P.ByName[ct.fn]; fn != nil {
		if !c.P.BaseExp[ct.fn] && stripNames(sigStr(fn)) != stripNames(ct.sig) {
			return nil // a helper with another signature; its callers decide
		}
		return fn
	}
	var found *ssa.Function
	i := strings.LastIndexByte(ct.fn, '/')
	j := strings.IndexByte(ct.fn[i+1:], '.')
	pre := ct.fn[:i+1+j+1]
	for _, fn := range c.P.Fns {
		n := fnName(fn)
		if !strings.HasPrefix(n, pre) || fn.Parent() != nil || fn.Synthetic != "" || contractTab[n] != nil || isExportedFn(fn) || baseFns()[n] {
			continue
		}
		if stripNames(sigStr(fn)) == stripNames(ct.sig) {
			if found != nil {
				return nil
			}
			found = fn
		}
	}
	return found
}

//go:embed allfns.txt
var allFnsTxt string
var baseFnTab map[string]bool

func baseFns() map[string]bool {
	if baseFnTab == nil {
		baseFnTab = map[string]bool{}
		for _, l := range strings.Split(allFnsTxt, "\n") {
			baseFnTab[l] = true
		}
	}
	return baseFnTab
}

var reParamName = regexp.MustCompile(`([(,] ?)[\pL_][\pL0-9_]* `)

func stripNames(s string) string { return reParamName.ReplaceAllString(s, "$1") }

// Contracts decides the contract entries of the functions matching the globs,
// restricted to entries whose text matches the filter ("" = all).
func (c *Ctx) Contracts(rule, filter string, globs ...string) {
	loadContracts()
	var re *regexp.Regexp
	if filter != "" {
		re = regexp.MustCompile(filter)
	}
	total := 0
	for _, g := range globs {
		n, m := 0, 0
		for _, name := range contractOrder {
			if !globMatch(g, name) {
				continue
			}
			m++
			ct := contractTab[name]
			fn := c.resolve(ct)
			if fn == nil {
				if c.covered(name) {
					n++
					continue
				}
				c.add(rule, "anchor "+name, "", false, "the function is gone and no renamed function could be identified")
				n++
				continue
			}
			n += c.contract(rule, fn, ct, re)
		}
		if m == 0 || n == 0 && filter == "" {
			panic("no contract matches " + g + " filter " + filter)
		}
		total += n
	}
	if total == 0 {
		panic("no contract matches filter " + filter)
	}
}

// covered: a helper that was folded into its callers is decided there.
func (c *Ctx) covered(name string) bool {
	if c.P.BaseExp[name] {
		return false
	}
	c.Notes = append(c.Notes, "helper "+name+" is gone; its obligations are decided in its callers")
	return true
}

func (c *Ctx) contract(rule string, fn *ssa.Function, ct *contract, re *regexp.Regexp) int {
	a := c.A.fn(fn)
	if a == nil {
		c.add(rule, "anchor "+ct.fn, "", false, "the function could not be analysed")
		return 1
	}
	n := 0
	closed := map[string][]string{}
	var closedOrder []string
	written := map[string][]string{}
	var writtenOrder []string
	for _, e := range ct.es {
		set := e.kind == "C" || e.kind == "W"
		if re != nil && !re.MatchString(e.a+" "+e.b) && !set {
			continue
		}
		if set && re != nil && !re.MatchString(e.a) {
			continue
		}
		n++
		switch e.kind {
		case "S":
			c.exitNeed(rule, a, ct.fn, errIndex(fn), oNil, "success", e.a)
		case "T":
			c.exitNeed(rule, a, ct.fn, boolIndex(fn), oTrue, "true", e.a)
		case "F":
			c.exitNeed(rule, a, ct.fn, boolIndex(fn), oFalse, "false", e.a)
		case "L":
			c.loopNeed(rule, a, ct.fn, e.a)
		case "R":
			c.exitNeed(rule, a, ct.fn, -1, 0, "return", e.a)
		case "N":
			c.exitNeed(rule, a, ct.fn, errIndex(fn), oNonNil, "failure", e.a)
		case "P":
			c.exitNeed(rule, a, ct.fn, resIndex(fn, e.a), oNonNil, "result "+e.a+" present", e.b)
		case "Q":
			c.exitNeed(rule, a, ct.fn, resIndex(fn, e.a), oNil, "result "+e.a+" absent", e.b)
		case "B":
			c.exitNeed(rule, a, ct.fn, resIndex(fn, e.a), oTrue, "result "+e.a+" true", e.b)
		case "D":
			c.exitNeed(rule, a, ct.fn, resIndex(fn, e.a), oFalse, "result "+e.a+" false", e.b)
		case "X":
			c.exitExists(rule, a, ct.fn, e.a)
		case "V":
			i := int(e.a[0] - '0')
			p := parsePat(c.P, e.b)
			ok := false
			det := ""
			if i < fn.Signature.Results().Len() {
				t := a.retTerm(i)
				if t == nil {
					t = mk("unk", "ret", 0)
				}
				all := func(*Bind) bool { return true }
				ok = p.match(t, nil, all) || p.match(dropZero(t), nil, all)
				if r := fn.Signature.Results().At(i).Type(); !ok && isBoolType(r) {
					// a condition is one or the other
					p = parsePat(c.P, e.b)
					ok = p.match(openBool(t), nil, all)
				}
				if !ok {
					det = fmt.Sprintf("%s returns %s as result %d, required %s", ct.fn, trunc(t.String(), 200), i, e.b)
				} else if m := p.missed(false); m != "" {
					ok = false
					det = fmt.Sprintf("%s never returns %s as result %d, required %s", ct.fn, m, i, e.b)
				}
			}
			c.add(rule, fmt.Sprintf("%s result %d is [%s]", ct.fn, i, e.b), c.P.Pos(fn.Pos()), ok, det)
		case "Y":
			i := int(e.a[0] - '0')
			p := parsePat(c.P, e.b)
			ok := true
			det := ""
			if i < fn.Signature.Results().Len() {
				if t := a.failTerm(i); t != nil {
					all := func(*Bind) bool { return true }
					ok = p.match(t, nil, all)
					det = fmt.Sprintf("%s returns %s as result %d of a failure, only %s is given with one", ct.fn, trunc(t.String(), 200), i, e.b)
				}
			}
			c.add(rule, fmt.Sprintf("%s failure result %d is [%s]", ct.fn, i, e.b), c.P.Pos(fn.Pos()), ok, det)
		case "C":
			if closed[e.a] == nil {
				closedOrder = append(closedOrder, e.a)
			}
			closed[e.a] = append(closed[e.a], e.b)
		case "W":
			if written[e.a] == nil {
				writtenOrder = append(writtenOrder, e.a)
			}
			written[e.a] = append(written[e.a], e.b)
		case "G":
			if strings.HasPrefix(e.a, "set ") {
				c.guard(rule, a, ct.fn, "set", e.a, e.b)
			} else {
				c.guard(rule, a, ct.fn, "call", e.a, e.b)
			}
		case "A":
			c.altLine(rule, a, ct.fn, e.a, e.b)
		case "U":
			c.guard(rule, a, ct.fn, "use", e.a, e.b)
		case "E":
			c.owed(rule, a, ct.fn, e.a, e.b)
		}
	}
	for _, f := range writtenOrder {
		c.writtenSet(rule, a, ct.fn, f, written[f])
	}
	for _, callee := range closedOrder {
		c.closedSet(rule, a, ct.fn, callee, closed[callee])
	}
	return n
}

// dropZero leaves out the initial value of a result variable.
func dropZero(t *Term) *Term {
	if t.Op != "phi" {
		return t
	}
	var as []*Term
	local := false // a variable, which starts as zero
	for _, x := range t.A {
		local = local || x.Op == "alloc" || x.Op == "unk" && x.Sym == "loop"
	}
	for _, x := range t.A {
		zero := strings.HasPrefix(x.Sym, "zero:") || x.Sym == "nil" || local && (x.Sym == `""` || x.Sym == "0" || x.Sym == "false")
		if x.Op != "c" || !zero {
			as = append(as, x)
		}
	}
	if len(as) == 0 {
		return t
	}
	return mkPhi(as)
}

func parsePat(P *Program, s string) *Pat {
	pp := &parser{s: strings.TrimSpace(s), P: P}
	t := pp.term()
	if pp.peek() != 0 {
		pp.fail("trailing input")
	}
	return t
}

var needMemo = map[string]*Need{}

func (c *Ctx) exitNeed(rule string, a *FnA, name string, res int, o Outcome, label, ns string) {
	construct := fmt.Sprintf("%s %s needs [%s]", name, label, ns)
	if res == -1 && label != "return" {
		c.add(rule, construct, c.P.Pos(a.f.Pos()), false, "the function no longer has the expected result")
		return
	}
	n := needMemo[ns]
	if n == nil {
		n = c.need(ns)
		needMemo[ns] = n
	}
	bad := a.exitBad(n, sumKey{res, o})
	if bad != nil {
		c.add(rule, construct, c.P.Pos(bad.Pos()), false,
			fmt.Sprintf("a path through %s reaches the exit at %s (%s) without: %s", name, c.P.Pos(bad.Pos()), label, n.src))
		return
	}
	c.add(rule, construct, c.P.Pos(a.f.Pos()), true, "")
}

// exitExists: an exit with the outcome is still possible.
func (c *Ctx) exitExists(rule string, a *FnA, name, label string) {
	k := outcomeKey(a.f, label)
	ok := false
	for _, r := range a.rets {
		if _, feas := a.retFacts(r, k); feas {
			ok = true
		}
	}
	det := ""
	if !ok {
		det = name + " cannot end with this outcome any more"
	}
	c.add(rule, name+" may end with "+label, c.P.Pos(a.f.Pos()), ok, det)
}

func resIndex(fn *ssa.Function, s string) int {
	i := int(s[0] - '0')
	if i >= fn.Signature.Results().Len() {
		return -1
	}
	return i
}

func outcomeKey(fn *ssa.Function, label string) sumKey {
	if len(label) > 1 {
		i := resIndex(fn, label[1:])
		switch label[0] {
		case 'P':
			return sumKey{i, oNonNil}
		case 'Q':
			return sumKey{i, oNil}
		case 'B':
			return sumKey{i, oTrue}
		case 'D':
			return sumKey{i, oFalse}
		}
	}
	switch label {
	case "S":
		return sumKey{errIndex(fn), oNil}
	case "N":
		return sumKey{errIndex(fn), oNonNil}
	case "T":
		return sumKey{boolIndex(fn), oTrue}
	case "F":
		return sumKey{boolIndex(fn), oFalse}
	}
	return sumKey{-1, 0}
}

// exitBad returns an exit with the given outcome that lacks the need.
func (a *FnA) exitBad(n *Need, key sumKey) *ssa.Return {
	for _, r := range a.rets {
		fs, ok := a.retFacts(r, key)
		if !ok || !mining && noObject(n, r, key) {
			continue
		}
		if n.holds(fs, nil) || a.retEst(n, r, key, nil, 0) || !mining && (a.joinEst(n, r.Block(), false, nil, nil, 0, nil) || n.splitHolds(fs)) {
			continue
		}
		return r
	}
	return nil
}

// noObject: the need is about a new object, and the exit returns none.
func noObject(n *Need, r *ssa.Return, key sumKey) bool {
	if key.res != -1 || len(r.Results) == 0 || !strings.HasPrefix(n.src, "set new(") {
		return false
	}
	c, ok := r.Results[0].(*ssa.Const)
	return ok && c.IsNil() && typeStr(c.Type())[0] == '*'
}

// owedBad returns an exit with the given outcome that a path reaches on which
// the trigger became true and the need did not.
func (a *FnA) owedBad(trig, n *Need, key sumKey) *ssa.Return {
	match, edge := a.estPoints(n, nil, 0)
	return a.owedBadAt(match, edge, trig, n, key)
}

func (a *FnA) owedBadAt(match map[*ssa.BasicBlock]bool, edge map[[2]int]bool, trig, n *Need, key sumKey) *ssa.Return {
	trig = trig.asTrigger()
	bits := a.owedBits(match, edge, trig)
	for _, r := range a.rets {
		if bits[r.Block().Index] {
			continue
		}
		fs, ok := a.retFacts(r, key)
		if !ok || !mining && noObject(n, r, key) || n.holds(fs, nil) || a.retEstBits(bits, n, r, key, nil, 0) || !mining && (a.owedJoin(match, edge, trig, n, r.Block()) || a.splitOwed(trig, n, fs)) {
			continue
		}
		return r
	}
	return nil
}

func (c *Ctx) cachedNeed(s string) *Need {
	n := needMemo[s]
	if n == nil {
		n = c.need(s)
		needMemo[s] = n
	}
	return n
}

// owed: whenever the trigger becomes true on a path to an exit with the
// outcome of the function, so does the need.
func (c *Ctx) owed(rule string, a *FnA, name, trig, ns string) {
	construct := fmt.Sprintf("%s: [%s] requires [%s]", name, trig, ns)
	key, _ := mainOutcome(a.f)
	if bad := a.owedBad(c.cachedNeed(trig), c.cachedNeed(ns), key); bad != nil {
		c.add(rule, construct, c.P.Pos(bad.Pos()), false,
			fmt.Sprintf("a path through %s on which [%s] reaches the exit at %s without: %s", name, trig, c.P.Pos(bad.Pos()), ns))
		return
	}
	c.add(rule, construct, c.P.Pos(a.f.Pos()), true, "")
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// openBool writes true and false for the conditions among the values of t.
func openBool(t *Term) *Term {
	as := []*Term{t}
	if t.Op == "phi" {
		as = t.A
	}
	var out []*Term
	for _, a := range as {
		if a.Op == "c" || a.Op == "unk" {
			out = append(out, a)
			continue
		}
		out = append(out, mk("c", "true", 0), mk("c", "false", 0))
	}
	return mkPhi(out)
}

// mainOutcome is the outcome that stands for success.
func mainOutcome(fn *ssa.Function) (sumKey, string) {
	if i := errIndex(fn); i >= 0 {
		return sumKey{i, oNil}, "S"
	} else if i := boolIndex(fn); i >= 0 {
		return sumKey{i, oTrue}, "T"
	}
	return sumKey{-1, 0}, "R"
}

// mineOwed finds what a branch of the function obliges it to do.
// zeroSet: a new object gets a value that it has anyway.
var zeroSet = regexp.MustCompile(`^set new\([^()]*\)(\.\w+)* := (0|nil|false|zero|"")$`)

func mineOwed(a *FnA, evs []*mineEvent, have map[string]bool, valid func(string) (*Need, bool), key sumKey, put func(string)) {
	needs := map[string]*Need{}
	get := func(s string) *Need {
		if n, ok := needs[s]; ok {
			return n
		}
		n, ok := valid(s)
		if !ok {
			n = nil
		}
		needs[s] = n
		return n
	}
	weight := map[string]int{}
	weigh := func(t string) int {
		if w, ok := weight[t]; ok {
			return w
		}
		n, w := get(t), 0
		if n != nil {
			for _, b := range a.rpo {
				if o := a.out[b.Index]; o != nil && n.holds(o.s, nil) {
					w++
				}
			}
		}
		weight[t] = w
		return w
	}
	live := map[string]bool{} // the trigger is possible on a successful path
	isLive := func(t string) bool {
		r, ok := live[t]
		if !ok {
			never := get("call no.such.function()")
			r = a.owedBadAt(nil, nil, get(t), never, key) != nil
			live[t] = r
		}
		return r
	}
	done := map[string]bool{}
	var sinkTrigs []string
	for _, e := range evs {
		if t := e.cands[0]; strings.HasPrefix(t, "call ") && len(sinkTrigs) < 6 {
			if i := strings.IndexByte(t, '('); i > 5 && isSink(t[5:i]) && !have[t] && !have["ok "+t[5:]] && get(t) != nil && isLive(t) {
				sinkTrigs = append(sinkTrigs, t)
			}
		}
	}
	for _, e := range evs {
		skip := strings.HasPrefix(e.cands[0], "set new([") && strings.Contains(e.cands[0], "interface{}") || zeroSet.MatchString(e.cands[0])
		for _, ev := range e.cands {
			if have[ev] || strings.HasPrefix(ev, "call ") && have["ok "+ev[5:]] {
				skip = true
			}
		}
		if skip {
			continue
		}
		var trigs []string
		for _, g := range e.guards {
			t := negFact(g)
			if (!have[t] || a.rewrites(t)) && t != e.cands[0] && get(t) != nil && isLive(t) {
				trigs = append(trigs, t)
			}
		}
		if len(trigs) > 24 {
			continue
		}
		sort.SliceStable(trigs, func(i, j int) bool { return weigh(trigs[i]) > weigh(trigs[j]) })
		// When no decision obliges to it, a step that succeeded or an effect
		// may: a new key is generated => it becomes the current one.
		var weak []string
		for _, t := range e.oks {
			if !have[t] && get(t) != nil && isLive(t) {
				weak = append(weak, t)
			}
		}
		sort.SliceStable(weak, func(i, j int) bool { return weigh(weak[i]) > weigh(weak[j]) })
		if len(weak) > 6 {
			weak = weak[:6]
		}
		if strings.HasPrefix(e.cands[0], "set ") && !strings.HasPrefix(e.cands[0], "set new(") {
			weak = append(weak, sinkTrigs...)
		}
		if len(trigs)+len(weak) == 0 {
			continue
		}
		for _, ev := range e.cands {
			n := get(ev)
			if n == nil {
				continue
			}
			match, edge := a.estPoints(n, nil, 0)
			if len(a.A.estMemo) > 20000 {
				a.A.estMemo = map[estKey]bool{}
			}
			found := 0
			for _, t := range trigs {
				if t == ev || t == negFact(ev) || done[t+" => "+ev] {
					continue
				}
				if a.owedBadAt(match, edge, get(t), n, key) == nil {
					done[t+" => "+ev] = true
					put(t + " => " + ev)
					if found++; found >= 2 {
						break
					}
				}
			}
			for _, t := range weak {
				if found > 0 || strings.HasSuffix(t, ev[strings.IndexByte(ev, ' ')+1:]) {
					break
				}
				if !done[t+" => "+ev] && a.owedBadAt(match, edge, get(t), n, key) == nil {
					done[t+" => "+ev] = true
					put(t + " => " + ev)
					found++
				}
			}
			if found > 0 {
				break
			}
		}
	}
}

var (
	reReading = regexp.MustCompile(`^(true has|false eq\(len|ok encoding/|ok strconv\.|ok encode/)`)
	reQuoted  = regexp.MustCompile(`"[^"]+"`)
)

// aboutValue: the guard is more than the reading of some other setting.
func aboutValue(g, set string) bool {
	if !reReading.MatchString(g) {
		return true
	}
	k := reQuoted.FindString(g)
	return k != "" && strings.Contains(set, k)
}

// rootOp: the kind of the object an assignment goes into.
func rootOp(t *Term) string {
	for t.Op == "fld" || t.Op == "idx" || t.Op == "slc" {
		t = t.A[0]
	}
	return t.Op
}

// rewrites: the fact is about a field of a parameter that the function also
// assigns, so that holding at the end says nothing about an earlier test.
func (a *FnA) rewrites(t string) bool {
	if !strings.Contains(t, "p0.") {
		return false
	}
	for _, o := range a.Occs() {
		if o.Kind == "set" && o.T.Op == "fld" && o.T.A[0].Op == "p" && strings.Contains(t, "p0."+o.T.Sym) {
			return true
		}
	}
	return false
}

// writtenField names the field or variable a store goes to.
func writtenField(t *Term) string {
	switch t.Op {
	case "fld":
		return t.Sym
	case "g":
		return "g:" + t.Sym
	case "idx":
		if w := writtenField(t.A[0]); w != "" {
			return w + "[]"
		}
	}
	return ""
}

// writtenSet: the named field is only given the listed values.
func (c *Ctx) writtenSet(rule string, a *FnA, name, field string, pats []string) {
	var ps []*Need
	for _, s := range pats {
		n := needMemo[s]
		if n == nil {
			n = c.need(s)
			needMemo[s] = n
		}
		ps = append(ps, n)
	}
	construct := fmt.Sprintf("%s assigns %s only as specified", name, field)
	for _, o := range a.Occs() {
		if o.Kind != "set" || writtenField(o.T) != field || initSet(o) {
			continue
		}
		ok := false
		for _, p := range ps {
			f := p.alts[0][0]
			all := func(*Bind) bool { return true }
			if f.t.match(o.T, nil, func(b *Bind) bool { return f.u == nil || f.u.match(o.U, b, all) }) ||
				f.t.onItsOwn(o.T) && (f.u == nil || f.u.match(o.U, nil, all)) {
				ok = true
				break
			}
		}
		if ls := spread(mk("pair", "", 0, o.T, o.U)); !ok && len(ls) > 0 {
			// a choice in the value: each on its own
			ok = true
			for _, l := range ls {
				one := false
				for _, p := range ps {
					f := p.alts[0][0]
					all := func(*Bind) bool { return true }
					one = one || f.t.match(l.A[0], nil, func(b *Bind) bool { return f.u == nil || f.u.match(l.A[1], b, all) })
				}
				ok = ok && one
			}
		}
		if !ok && isCond(o.U) {
			ok = true
			for _, q := range splitSet(o) {
				one := initSet(q)
				for _, p := range ps {
					f := p.alts[0][0]
					all := func(*Bind) bool { return true }
					one = one || f.t.match(q.T, nil, func(b *Bind) bool { return f.u == nil || f.u.match(q.U, b, all) })
				}
				ok = ok && one
			}
		}
		if !ok {
			c.add(rule, construct, c.P.Pos(o.Pos), false, fmt.Sprintf("%s assigns %s := %s at %s%s; specified: %s", name, trunc(o.T.String(), 120), trunc(o.U.String(), 200), c.P.Pos(o.Pos), chain(o), strings.Join(pats, "  or  ")))
			return
		}
	}
	c.add(rule, construct, c.P.Pos(a.f.Pos()), true, fmt.Sprintf("%d forms", len(ps)))
}

// initSet: a new object gets the zero value.
func initSet(o *Occ) bool {
	if !zeroLike(o.U) {
		return false
	}
	t := o.T
	for t.Op == "fld" || t.Op == "idx" {
		t = t.A[0]
	}
	return t.Op == "alloc"
}

func (c *Ctx) guard(rule string, a *FnA, name, kind, pat, ns string) {
	ev := "call " + pat
	if kind == "set" {
		ev = pat
	}
	fp := needMemo[ev]
	if fp == nil {
		fp = c.need(ev)
		needMemo[ev] = fp
	}
	n := needMemo[ns]
	if n == nil {
		n = c.need(ns)
		needMemo[ns] = n
	}
	p := fp.alts[0][0].t
	pu := fp.alts[0][0].u
	construct := fmt.Sprintf("%s: before [%s] needs [%s]", name, pat, ns)
	occs := a.Occs()
	if kind == "set" {
		var more []*Occ
		for _, o := range occs {
			more = append(more, splitSet(o)...)
		}
		if len(more) > 0 {
			occs = append(append([]*Occ(nil), occs...), more...)
		}
	}
	for _, o := range occs {
		switch {
		case kind == "set":
			if o.Kind != "set" || pu != nil && (o.U == nil || !pu.match(o.U, nil, func(*Bind) bool { return true })) {
				continue
			}
		case (o.Kind == "use") != (kind == "use") || o.Kind != "use" && o.Kind != "call" && o.Kind != "defer" && o.Kind != "go":
			continue
		}
		if !p.match(o.T, nil, func(*Bind) bool { return true }) {
			continue
		}
		if st := (&Site{a, o, nil}); n.holds(o.Pre, nil) || st.pathHolds(n) || !mining && st.joinHolds(n) {
			continue
		}
		c.add(rule, construct, c.P.Pos(o.Pos), false, fmt.Sprintf("%s reaches %s at %s%s without: %s", name, trunc(o.T.String(), 160), c.P.Pos(o.Pos), chain(o), ns))
		return
	}
	c.add(rule, construct, c.P.Pos(a.f.Pos()), true, "")
}

func (c *Ctx) closedSet(rule string, a *FnA, name, callee string, pats []string) {
	var ps []*Pat
	for _, s := range pats {
		ps = append(ps, parsePat(c.P, s))
	}
	hit := make([]bool, len(ps))
	for _, o := range a.Occs() {
		if o.Kind != "call" && o.Kind != "defer" && o.Kind != "go" || o.T.Op != "call" || o.T.Sym != callee || skippedCall(o.T) {
			continue
		}
		ok := false
		for i, p := range ps {
			if p.match(o.T, nil, func(*Bind) bool { return true }) {
				hit[i] = true
				ok = true
			}
		}
		if !ok {
			// a choice in an argument: each on its own
			ls := spread(o.T)
			ok = len(ls) > 0
			for _, l := range ls {
				one := false
				for i, p := range ps {
					if p.match(l, nil, func(*Bind) bool { return true }) {
						hit[i], one = true, true
					}
				}
				ok = ok && one
			}
		}
		if !ok {
			c.add(rule, fmt.Sprintf("%s calls %s only as specified", name, callee), c.P.Pos(o.Pos), false,
				fmt.Sprintf("%s calls %s at %s%s; specified: %s", name, trunc(o.T.String(), 240), c.P.Pos(o.Pos), chain(o), strings.Join(pats, "  or  ")))
			return
		}
	}
	for i := range ps {
		if !hit[i] {
			c.add(rule, fmt.Sprintf("%s calls %s only as specified", name, callee), c.P.Pos(a.f.Pos()), false,
				fmt.Sprintf("%s no longer makes the call %s", name, pats[i]))
			return
		}
		if m := ps[i].missed(false); m != "" {
			c.add(rule, fmt.Sprintf("%s calls %s only as specified", name, callee), c.P.Pos(a.f.Pos()), false,
				fmt.Sprintf("%s never passes %s in the call %s", name, m, pats[i]))
			return
		}
	}
	c.add(rule, fmt.Sprintf("%s calls %s only as specified", name, callee), c.P.Pos(a.f.Pos()), true, fmt.Sprintf("%d forms", len(ps)))
}

// ------------------------------------------------------------- generation

func okName(s string) bool {
	for i := 0; i < len(s); i++ {
		if !nameChar(s[i]) || s[i] == '*' {
			return false
		}
	}
	return s != ""
}

func (A *Analysis) patOf(t *Term, root *ssa.Function, d int) string {
	if d > 4 {
		return "_"
	}
	args := func(a []*Term) string {
		var s []string
		for _, x := range a {
			s = append(s, A.patOf(x, root, d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case "p":
		if t.fn == root {
			return fmt.Sprintf("p%d", t.N)
		}
		return "_"
	case "c":
		if strings.HasPrefix(t.Sym, "\"") {
			return t.Sym
		}
		if okName(t.Sym) && !strings.Contains(t.Sym, ":") && !strings.Contains(t.Sym, ".") && !strings.Contains(t.Sym, "/") && t.Sym[0] != 'p' && t.Sym != "_" {
			return t.Sym
		}
		return "_"
	case "g":
		if okName(t.Sym) {
			return "{g:" + t.Sym + "}"
		}
	case "fld":
		b := A.patOf(t.A[0], root, d+1)
		if b[0] == '~' || strings.HasPrefix(b, "phi{") {
			b = "{" + b + "}"
		}
		return b + "." + t.Sym
	case "idx":
		b := A.patOf(t.A[0], root, d+1)
		if b[0] == '~' || strings.HasPrefix(b, "phi{") {
			b = "{" + b + "}"
		}
		return b + "[" + A.patOf(t.A[1], root, d+1) + "]"
	case "slc":
		b := A.patOf(t.A[0], root, d+1)
		if b[0] == '~' || strings.HasPrefix(b, "phi{") {
			b = "{" + b + "}"
		}
		return b + "[" + A.patOf(t.A[1], root, d+1) + " : " + A.patOf(t.A[2], root, d+1) + "]"
	case "alloc":
		if strings.ContainsAny(strings.TrimSuffix(t.Sym, "~*"), ",*|") || strings.Contains(t.Sym, "struct{") {
			if strings.HasPrefix(t.Sym, "struct{") {
				return "new(*" + structFields[t.Sym] + ")"
			}
			return "new(*)"
		}
		return "new(" + strings.TrimSuffix(t.Sym, "~*") + ")"
	case "call":
		if !okName(t.Sym) || t.Sym == "dyn" {
			return "_"
		}
		if fn := A.P.ByName[t.Sym]; fn != nil && A.transparent(fn) {
			return "_"
		}
		s := t.Sym + "(" + args(t.A) + ")"
		if t.N > 0 {
			s += fmt.Sprintf("#%d", t.N)
		}
		return s
	case "bin", "un":
		o := t.Op + ":" + t.Sym
		if !okName(o) {
			o = t.Op + ":*"
		}
		if t.Op == "bin" && commutes(t.Sym) && len(t.A) == 2 {
			x, y := A.patOf(t.A[0], root, d+1), A.patOf(t.A[1], root, d+1)
			if x > y {
				x, y = y, x
			}
			return o + "(" + x + ", " + y + ")"
		}
		return o + "(" + args(t.A) + ")"
	case "as", "is":
		o := t.Op + ":" + t.Sym
		if !okName(o) {
			o = t.Op + ":*"
		}
		return o + "(" + args(t.A) + ")"
	case "ind":
		return fmt.Sprintf("ind(%d)", t.N)
	case "eq", "lt", "not", "recv", "recvok", "has", "more", "list", "cat", "txstmt":
		return t.Op + "(" + args(t.A) + ")"
	case "phi":
		alts := map[string]bool{}
		unk := false
		for _, x := range t.A {
			if x.Op == "unk" {
				unk = true
				continue
			}
			y := A.patOf(x, root, d+1)
			if zeroLike(x) {
				y = "zero"
			}
			if y == "_" {
				return "_"
			}
			alts[y] = true
		}
		var ss []string
		for y := range alts {
			ss = append(ss, y)
		}
		if len(ss) == 0 || len(ss) > 5 || unk && len(ss) == 1 && ss[0] == "zero" {
			return "_"
		}
		sort.Strings(ss)
		return "phi{" + strings.Join(ss, " | ") + "}"
	case "fn", "closure":
		if A.P.BaseExp[t.Sym] && okName(t.Sym) {
			return "fn:" + t.Sym
		}
	}
	return "_"
}

func trivialPat(s string) bool {
	return s == "_" || s == "_.*" || s == ""
}

// informative: the pattern says something specific.
func informative(s string) bool {
	if reCounter.MatchString(s) {
		return false
	}
	for _, w := range reWord.FindAllString(s, -1) {
		switch w {
		case "_", "eq", "nil", "not", "lt", "len", "0", "zero", "ind":
		default:
			return true
		}
	}
	return false
}

// a comparison of something unnamed with a number: a loop or retry counter.
var reCounter = regexp.MustCompile(`^(lt|eq)\(((_|ind\(-?[0-9]+\)), -?[0-9]+|-?[0-9]+, (_|ind\(-?[0-9]+\)))\)$`)

var reWord = regexp.MustCompile(`[A-Za-z0-9_]+`)

// zeroLike: the value a variable has before it is assigned.
func zeroLike(t *Term) bool {
	return t.Op == "c" && (strings.HasPrefix(t.Sym, "zero:") || t.Sym == "nil" || t.Sym == "0" || t.Sym == "false" || t.Sym == `""`)
}

// skippedCall: a call that says nothing about the properties. The lines of the
// status protocols between the programs do.
func skippedCall(t *Term) bool {
	if t.Sym == "fmt.Fprintf" && len(t.A) > 1 && t.A[1].Op == "c" && statusLine.MatchString(t.A[1].Sym) {
		return false
	}
	return skipCall.MatchString(t.Sym)
}

var statusLine = regexp.MustCompile(`^"[A-Z]+:\\t`)

var skipCall = regexp.MustCompile(`^(log\.|fmt\.(Print|Sprint|Errorf|Fprint)|errors\.|len$|cap$|append$|dyn$|min$|max$|ssa:|strings\.(To|Trim)|time\.(Now|Duration)|util/tests|print)`)

// valueOnly: the call is made for its value; it has results but no error.
func (A *Analysis) valueOnly(name string) bool {
	if A.valOnly == nil {
		A.valOnly = map[string]bool{}
		A.errLast = map[string]int{}
		ignored := map[string]bool{}
		for _, fn := range A.P.Fns {
			a := A.fn(fn)
			if a == nil {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					t := a.rawCall(c.Common(), 0)
					if t.Op != "call" {
						continue
					}
					rs := c.Common().Signature().Results()
					if v, ok := in.(*ssa.Call); ok && rs.Len() > 0 && v.Referrers() != nil && len(*v.Referrers()) == 0 {
						ignored[t.Sym] = true // called for its effect
					}
					if rs.Len() > 0 && !isErrorType(rs.At(rs.Len()-1).Type()) {
						A.valOnly[t.Sym] = true
					} else if rs.Len() > 0 {
						A.errLast[t.Sym] = rs.Len()
					}
				}
			}
		}
		for _, k := range []string{"cipher.ECDH"} {
			delete(A.valOnly, k)
		}
		for k := range ignored {
			delete(A.valOnly, k)
		}
	}
	return A.valOnly[name]
}

// factPat renders a fact as need text, "" if unsuitable.
func (A *Analysis) factPat(x *Fact, root *ssa.Function) string {
	if x.V != nil {
		return ""
	}
	k := x.K
	base := strings.TrimPrefix(strings.TrimPrefix(k, "each "), "defer ")
	switch base {
	case "call", "ok", "true", "false", "set", "send", "go", "defer", "fail":
	default:
		return ""
	}
	if strings.HasPrefix(k, "each each") || base == "fail" {
		return ""
	}
	if x.T.Op == "c" {
		return ""
	}
	if x.T.Op == "call" {
		if skippedCall(x.T) && !(base == "defer" || strings.HasPrefix(k, "defer")) && base != "true" && base != "false" {
			return ""
		}
		if strings.HasPrefix(x.T.Sym, "log.") {
			return ""
		}
		if fn := A.P.ByName[x.T.Sym]; fn != nil && A.transparent(fn) {
			return ""
		}
	}
	if base == "call" && (x.T.Op != "call" || A.valueOnly(x.T.Sym)) {
		return ""
	}
	if x.T.Op == "eq" && x.T.A[0].Op == "call" && x.T.A[1].Op == "c" && x.T.A[1].Sym == "nil" {
		A.valueOnly("")
		if n, ok := A.errLast[x.T.A[0].Sym]; ok && n == x.T.A[0].N+1 {
			return "" // the same as an ok fact
		}
	}
	s := A.patOf(x.T, root, 0)
	if trivialPat(s) || !informative(s) {
		return ""
	}
	if base == "set" {
		u := A.patOf(x.U, root, 0)
		if s[0] == '_' {
			return ""
		}
		if u != "_" {
			return k + " " + s + " := " + u
		}
	}
	r := k + " " + s
	return r
}

// perExit mines obligations "E || G1 || ..": E holds at some exits with the
// outcome, and each of the others is excused by a branch fact.
func perExit(a *FnA, label string, key sumKey, valid func(string) (*Need, bool), put func(string)) {
	type exit struct {
		pats   map[string]bool
		guards []string
	}
	isEvent := func(k string) bool {
		switch strings.TrimPrefix(strings.TrimPrefix(k, "each "), "defer ") {
		case "call", "set", "defer", "send", "go":
			return true
		}
		return false
	}
	memo := map[int32]string{}
	pat := func(id int32) string {
		if p, ok := memo[id]; ok {
			return p
		}
		p := ""
		x := factList[id]
		if x.K == "fail" {
			if p = a.A.factPat(mkFact("ok", x.T, nil, nil), a.f); p != "" {
				p = "fail " + p[3:]
			}
		} else {
			p = a.A.factPat(x, a.f)
		}
		memo[id] = p
		return p
	}
	var exits []*exit
	cand := map[string]bool{}
	count := map[string]int{}
	for _, r := range a.rets {
		fs, ok := a.retFacts(r, key)
		if !ok {
			continue
		}
		e := &exit{pats: map[string]bool{}}
		for _, id := range fs {
			p := pat(id)
			if p == "" || e.pats[p] {
				continue
			}
			e.pats[p] = true
			count[p]++
			x := factList[id]
			if x.K == "true" || x.K == "false" || x.K == "fail" {
				e.guards = append(e.guards, p)
			}
			if x.K != "fail" && (label != "N" || isEvent(x.K) && (!strings.HasSuffix(x.K, "set") || lasting(x))) {
				cand[p] = true
			}
		}
		sort.Strings(e.guards)
		exits = append(exits, e)
	}
	if len(exits) < 2 {
		return
	}
	var order []string
	for p := range cand {
		order = append(order, p)
	}
	sort.Strings(order)
	n := 0
	for _, p := range order {
		if n > 200 {
			break
		}
		if strings.HasPrefix(p, "call ") && cand["ok "+p[5:]] {
			continue
		}
		if count[p] == len(exits) {
			if label == "N" {
				if nn, v := valid(p); v && a.exitBad(nn, key) == nil {
					put(" N " + p)
				}
			}
			continue
		}
		var lack []*exit
		inHave := map[string]bool{}
		for _, e := range exits {
			if e.pats[p] {
				for _, g := range e.guards {
					inHave[g] = true
				}
			} else {
				lack = append(lack, e)
			}
		}
		if i := strings.IndexByte(p, ' '); p[:i] == "true" || p[:i] == "false" {
			if len(lack) > 0 && lack[0].pats[map[string]string{"true": "false", "false": "true"}[p[:i]]+p[i:]] {
				continue // tautology
			}
		}
		need := p
		ok := true
		for g := 0; g < 5 && len(lack) > 0; g++ {
			found, best := "", -1
			for _, gp := range lack[0].guards {
				if inHave[gp] {
					continue
				}
				cov := 0
				for _, l := range lack {
					if l.pats[gp] {
						cov++
					}
				}
				if cov > best {
					found, best = gp, cov
				}
			}
			if found == "" {
				ok = false
				break
			}
			need += " || " + found
			var rest []*exit
			for _, l := range lack {
				if !l.pats[found] {
					rest = append(rest, l)
				}
			}
			lack = rest
		}
		if !ok || len(lack) > 0 {
			continue
		}
		if nn, v := valid(need); v && a.exitBad(nn, key) == nil {
			put(" " + label + " " + need)
			n++
		}
	}
}

// lasting: the assignment is visible after a failure: it is to something that
// existed before and not of what the failed call gave.
func lasting(x *Fact) bool {
	t := x.T
	for t.Op == "fld" || t.Op == "idx" || t.Op == "slc" {
		t = t.A[0]
	}
	if t.Op != "p" && t.Op != "g" && t.Op != "fv" {
		return false
	}
	if x.U == nil {
		return true
	}
	u := x.U
	for u.Op == "fld" || u.Op == "idx" || u.Op == "slc" {
		u = u.A[0]
	}
	return u.Op != "call"
}

type mineEvent struct {
	cands  []string
	guards []string
	b      *ssa.BasicBlock
	oks    []string // what has succeeded before
}

func blockReaches(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(x *ssa.BasicBlock) bool
	rec = func(x *ssa.BasicBlock) bool {
		if x == to {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, s := range x.Succs {
			if rec(s) {
				return true
			}
		}
		return false
	}
	return rec(from)
}

// mineEvents lists what happens on some paths of a function, each with the
// negations of the branch facts that hold before it.
func mineEvents(a *FnA) []*mineEvent {
	A, fn := a.A, a.f
	if r, ok := A.mineMemo[a]; ok {
		return r
	}
	var out []*mineEvent
	seen := map[string]bool{}
	negs := func(pre FS) []string {
		var guards []string
		gs := map[string]bool{}
		for _, id := range pre {
			y := factList[id]
			if y.V != nil || y.K != "true" && y.K != "false" && y.K != "fail" {
				continue
			}
			if y.K == "fail" {
				if g := A.factPat(mkFact("ok", y.T, nil, nil), fn); g != "" && !gs[g] {
					gs[g] = true
					guards = append(guards, g)
				}
				continue
			}
			g := A.factPat(y, fn)
			if g == "" || gs[g] {
				continue
			}
			gs[g] = true
			guards = append(guards, negFact(g))
		}
		sort.Strings(guards)
		return guards
	}
	for _, o := range a.Occs() {
		if o.Kind != "call" && o.Kind != "set" || len(o.frames) == 0 {
			continue
		}
		x := mkFact(o.Kind, o.T, o.U, nil)
		e := A.factPat(x, fn)
		if e == "" {
			continue
		}
		if o.Kind == "set" && !strings.Contains(e, "p0") && !strings.Contains(e, "g:") && !strings.Contains(e, "new(") {
			continue
		}
		cands := []string{e}
		if o.Kind == "call" {
			cands = []string{"ok " + e[5:], "true " + e[5:], e}
		}
		ev := &mineEvent{cands, negs(o.Pre), o.frames[0].in.Block(), nil}
		for _, id := range o.Pre {
			if y := factList[id]; y.V == nil && y.K == "ok" && len(ev.oks) < 40 {
				if g := A.factPat(y, fn); g != "" {
					ev.oks = append(ev.oks, g)
				}
			}
		}
		sort.Strings(ev.oks)
		k := e + strings.Join(ev.guards, "|")
		if !seen[k] {
			seen[k] = true
			out = append(out, ev)
			if g := joinGuards(a, o.frames[0].in.Block(), o.Pre); len(g) > 0 {
				// the event is reached when either of several conditions holds
				out = append(out, &mineEvent{cands, g, ev.b, nil})
			}
		}
	}
	for _, b := range a.rpo {
		if len(b.Preds) < 1 || a.out[b.Index] == nil {
			continue
		}
		for pi, p := range b.Preds {
			e := a.edgeOut(p, b, pi)
			if e == nil || a.out[p.Index] == nil || len(p.Succs) < 2 {
				continue
			}
			before := a.out[p.Index].s
			var g []string
			for _, id := range e.s {
				if before.has(int(id)) {
					continue
				}
				x := factList[id]
				if x.V != nil || x.K != "true" && x.K != "false" {
					continue
				}
				f := A.factPat(x, fn)
				if f == "" {
					continue
				}
				if g == nil {
					g = negs(before)
				}
				k := f + strings.Join(g, "|")
				if !seen[k] {
					seen[k] = true
					out = append(out, &mineEvent{[]string{f}, g, b, nil})
				}
			}
		}
	}
	if A.mineMemo == nil {
		A.mineMemo = map[*FnA][]*mineEvent{}
	}
	A.mineMemo[a] = out
	return out
}

// joinGuards: the negations of the conditions on the edges that join right
// before the block: each of them leads to it (a || b).
func joinGuards(a *FnA, b *ssa.BasicBlock, pre FS) []string {
	for i := 0; i < 3 && b != nil && len(b.Preds) == 1 && len(b.Preds[0].Succs) == 1; i++ {
		b = b.Preds[0]
	}
	if b == nil || b.Parent() != a.f {
		return nil
	}
	if len(b.Preds) == 1 {
		return flagGuards(a, b)
	}
	if len(b.Preds) < 2 || len(b.Preds) > 4 {
		return nil
	}
	var out []string
	for pi, p := range b.Preds {
		e := a.edgeOut(p, b, pi)
		if e == nil || a.out[p.Index] == nil || len(p.Succs) != 2 || b.Dominates(p) {
			return nil
		}
		before := a.out[p.Index].s
		n := 0
		for _, id := range e.s {
			x := factList[id]
			if before.has(int(id)) || x.V != nil || x.K != "true" && x.K != "false" {
				continue
			}
			f := a.A.factPat(x, a.f)
			if f == "" {
				continue
			}
			n++
			out = append(out, negFact(f))
		}
		if n == 0 {
			return nil
		}
	}
	sort.Strings(out)
	return out
}

// flagGuards: the block is entered when a flag is set; the conditions under
// which it was set.
func flagGuards(a *FnA, b *ssa.BasicBlock) []string {
	p := b.Preds[0]
	if len(p.Succs) != 2 || p.Idom() == nil || a.out[p.Idom().Index] == nil {
		return nil
	}
	br, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	phi, ok := br.Cond.(*ssa.Phi)
	if !ok || phi.Block() != p || len(phi.Edges) > 5 {
		return nil
	}
	want := p.Succs[0] == b
	before := a.out[p.Idom().Index].s
	var out []string
	for i, v := range phi.Edges {
		k, ok := v.(*ssa.Const)
		if !ok || k.Value == nil || p.Dominates(p.Preds[i]) || a.out[p.Preds[i].Index] == nil {
			return nil
		}
		if constant.BoolVal(k.Value) != want {
			continue
		}
		n := 0
		for _, id := range a.out[p.Preds[i].Index].s {
			x := factList[id]
			if before.has(int(id)) || x.V != nil || x.K != "true" && x.K != "false" {
				continue
			}
			if f := a.A.factPat(x, a.f); f != "" {
				n++
				out = append(out, negFact(f))
			}
		}
		if n == 0 {
			return nil
		}
	}
	sort.Strings(out)
	return out
}

func negFact(f string) string {
	if strings.HasPrefix(f, "true ") {
		return "false " + f[5:]
	}
	if strings.HasPrefix(f, "false ") {
		return "true " + f[6:]
	}
	if strings.HasPrefix(f, "ok ") {
		return "fail " + f[3:]
	}
	if strings.HasPrefix(f, "fail ") {
		return "ok " + f[5:]
	}
	return ""
}

// mineCond finds minimal obligations "event || excuse || ..." of a goal.
func mineCond(A *Analysis, evs []*mineEvent, have map[string]bool, valid func(string) (*Need, bool), goal func(*Need) bool, limit, maxGuards int, put func(string)) {
	tried := map[string]bool{}
	memo := map[string]bool{}
	holds := func(ns string) bool {
		if r, ok := memo[ns]; ok {
			return r
		}
		n, ok := valid(ns)
		r := ok && goal(n)
		memo[ns] = r
		if len(A.estMemo) > 20000 {
			A.estMemo = map[estKey]bool{}
		}
		return r
	}
	count := 0
	for _, e := range evs {
		if count >= limit {
			return
		}
		done := false
		for _, ev := range e.cands {
			if have[ev] || strings.HasPrefix(ev, "call ") && have["ok "+ev[5:]] {
				done = true
			}
		}
		if done {
			continue
		}
		var guards []string
		for _, g := range e.guards {
			if !have[negFact(g)] && g != e.cands[0] {
				guards = append(guards, g)
			}
		}
		if len(guards) == 0 || len(guards) > maxGuards {
			continue
		}
		for _, ev := range e.cands {
			if holds(ev) {
				break
			}
			var gs []string
			for _, g := range guards {
				if g != negFact(ev) {
					gs = append(gs, g)
				}
			}
			if len(gs) == 0 || !holds(ev+" || "+strings.Join(gs, " || ")) {
				continue
			}
			found := 0
			for _, g := range gs {
				ns := ev + " || " + g
				if tried[ns] || found >= 3 {
					continue
				}
				if holds(ns) {
					tried[ns] = true
					if !holds(g) {
						put(ns)
						count++
						found++
					}
				}
			}
			if found > 0 {
				break
			}
			for i := 0; i < len(gs) && len(gs) > 1; {
				r := append(append([]string(nil), gs[:i]...), gs[i+1:]...)
				if holds(ev + " || " + strings.Join(r, " || ")) {
					gs = r
				} else {
					i++
				}
			}
			if len(gs) < 2 {
				break
			}
			ns := ev + " || " + strings.Join(gs, " || ")
			if len(gs) > 4 || tried[ns] || holds(strings.Join(gs, " || ")) {
				continue
			}
			tried[ns] = true
			put(ns)
			count++
			break
		}
	}
}

func genContract(A *Analysis, fn *ssa.Function, P *Program) []string {
	mining = true
	a := A.fn(fn)
	if a == nil {
		return nil
	}
	var out []string
	seen := map[string]bool{}
	put := func(s string) {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	valid := func(ns string) (n *Need, ok bool) {
		defer func() {
			if recover() != nil {
				ok = false
			}
		}()
		return parseNeed(P, ns), true
	}
	type kk struct {
		l   string
		key sumKey
	}
	var keys []kk
	if i := errIndex(fn); i >= 0 {
		keys = append(keys, kk{"S", sumKey{i, oNil}}, kk{"N", sumKey{i, oNonNil}})
	} else if i := boolIndex(fn); i >= 0 {
		keys = append(keys, kk{"T", sumKey{i, oTrue}}, kk{"F", sumKey{i, oFalse}})
	} else {
		keys = append(keys, kk{"R", sumKey{-1, 0}})
	}
	main := len(keys)
	for _, o := range a.valueOutcomes() {
		keys = append(keys, kk{fmt.Sprintf("%s %d", o.kind, o.key.res), o.key})
	}
	all := put
	for i, k := range keys {
		k := k
		put := func(s string) {
			// what holds at every return is said already
			if rest := strings.TrimPrefix(s, " "+k.l+" "); i >= main && seen[" R "+rest] {
				return
			}
			all(s)
		}
		s := a.summary(k.key)
		if s == nil {
			continue
		}
		extra := i >= main
		if extra {
			put(" X " + strings.Replace(k.l, " ", "", 1))
		} else if k.l != "R" {
			put(" X " + k.l)
		}
		if k.l == "N" {
			perExit(a, "N", k.key, valid, put)
			continue
		}
		var ls []string
		have := map[string]bool{}
		for _, id := range s.s {
			x := factList[id]
			p := A.factPat(x, fn)
			if x.K == "fail" && x.V == nil {
				if p = A.factPat(mkFact("ok", x.T, nil, nil), fn); p != "" {
					p = negFact(p)
				}
			}
			if p == "" || have[p] {
				continue
			}
			have[p] = true
			ls = append(ls, p)
		}
		sort.Strings(ls)
		for _, p := range ls {
			if strings.HasPrefix(p, "call ") && have["ok "+p[5:]] {
				continue
			}
			if strings.HasPrefix(p, "each call ") && have["each ok "+p[10:]] {
				continue
			}
			if n, ok := valid(p); ok && a.exitBad(n, k.key) == nil {
				put(" " + k.l + " " + p)
			}
		}
		perExit(a, k.l, k.key, valid, put)
		// conditional obligations
		if k.l == "F" || k.l[0] == 'B' || k.l[0] == 'D' {
			key := k.key
			mineCond(A, mineEvents(a), have, valid, func(n *Need) bool { return a.exitBad(n, key) == nil }, 100000, 16, func(ns string) {
				if !seen[" S "+ns] && !seen[" R "+ns] {
					put(" " + k.l + " " + ns)
				}
			})
		}
		if k.l == "S" || k.l == "R" || k.l == "T" {
			key := k.key
			mineCond(A, mineEvents(a), have, valid, func(n *Need) bool { return a.exitBad(n, key) == nil }, 100000, 16, func(ns string) { put(" " + k.l + " " + ns) })
			mineOwed(a, mineEvents(a), have, valid, key, func(s string) { put(" E " + s) })
		}
	}
	if len(a.loops()) > 0 {
		have := map[string]bool{}
		for s := range seen {
			if i := strings.Index(s, " each "); i > 0 && i <= 3 {
				have[s[i+6:]] = true
			}
		}
		loopGood := func(ns string) bool {
			n, ok := valid(ns)
			if !ok {
				return false
			}
			bad, any := a.loopBad(n, n)
			return any && bad == nil
		}
		for _, e := range mineEvents(a) {
			for _, ev := range e.cands {
				if have[ev] {
					break
				}
				if loopGood(ev) {
					have[ev] = true
					put(" L " + ev)
					break
				}
			}
		}
		mineCond(A, mineEvents(a), have, valid, func(n *Need) bool {
			ev, ok := valid(firstAlt(n.src))
			if !ok {
				return false
			}
			bad, any := a.loopBad(ev, n)
			return any && bad == nil
		}, 100000, 40, func(ns string) { put(" L " + ns) })
	}
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if isErrorType(rs.At(i).Type()) {
			continue
		}
		t := a.retTerm(i)
		if t == nil {
			continue
		}
		p := A.patOf(t, fn, 0)
		if trivialPat(p) || !informative(p) {
			continue
		}
		put(fmt.Sprintf(" V %d %s", i, p))
	}
	for i := 0; i < rs.Len(); i++ {
		if isErrorType(rs.At(i).Type()) {
			continue
		}
		if t := a.failTerm(i); t != nil {
			if p := A.patOf(t, fn, 0); !trivialPat(p) && informative(p) && !strings.HasPrefix(p, "new(") {
				put(fmt.Sprintf(" Y %d %s", i, p))
			}
		}
	}
	// closed sets and guards
	cs := map[string]map[string]bool{}
	bad := map[string]bool{}
	var guardLines []string
	sinks := map[string][]*Occ{}
	for _, o := range a.Occs() {
		if o.Kind != "call" && o.Kind != "defer" && o.Kind != "go" || o.T.Op != "call" {
			continue
		}
		if skippedCall(o.T) || !okName(o.T.Sym) {
			continue
		}
		if g := P.ByName[o.T.Sym]; g != nil && A.transparent(g) {
			continue
		} else if g == nil && A.valueOnly(o.T.Sym) && !reCrypto.MatchString(o.T.Sym) {
			continue
		}
		p := A.patOf(o.T, fn, 0)
		if _, ok := valid("call " + p); !ok {
			bad[o.T.Sym] = true
			continue
		}
		if cs[o.T.Sym] == nil {
			cs[o.T.Sym] = map[string]bool{}
		}
		cs[o.T.Sym][p] = true
		if isSink(o.T.Sym) {
			sinks[p] = append(sinks[p], o)
			for _, id := range o.Pre {
				y := factList[id]
				if y.V != nil {
					continue
				}
				b := strings.TrimPrefix(y.K, "each ")
				if b != "ok" && b != "true" && b != "false" {
					continue
				}
				g := A.factPat(y, fn)
				if g == "" {
					continue
				}
				if _, ok := valid(g); !ok {
					continue
				}
				guardLines = append(guardLines, p+" => "+g)
			}
		}
	}
	var callees []string
	for s := range cs {
		callees = append(callees, s)
	}
	sort.Strings(callees)
	for _, s := range callees {
		if bad[s] {
			continue
		}
		var ps []string
		for p := range cs[s] {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		for _, p := range ps {
			put(" C " + s + " | " + p)
		}
	}
	c := &Ctx{P: P, A: A}
	useLines := map[string]bool{}
	ws := map[string]map[string]bool{}
	setGuards := map[string]bool{}
	setOps := map[string][]*Occ{}
	for _, o := range a.Occs() {
		switch o.Kind {
		case "use":
			p := A.patOf(o.T, fn, 0)
			if trivialPat(p) || !informative(p) || strings.HasPrefix(p, "_[") {
				continue
			}
			if _, ok := valid("call " + p); !ok {
				continue
			}
			for _, id := range o.Pre {
				y := factList[id]
				if y.V != nil || y.K != "true" && y.K != "false" && y.K != "ok" {
					continue
				}
				if y.K != "ok" && !strings.Contains(y.T.String(), "len(") && !mentionsTerm(y.T, o.T.A[0]) {
					continue
				}
				if y.T.Op == "has" {
					continue // a lookup of what is not there does not fail
				}
				if g := A.factPat(y, fn); g != "" {
					if _, ok := valid(g); ok {
						useLines[p+" => "+g] = true
					}
				}
			}
		case "set":
			f := writtenField(o.T)
			if f == "" || !okName(strings.TrimSuffix(f, "[]")) || initSet(o) {
				continue
			}
			s := A.patOf(o.T, fn, 0)
			u := A.patOf(o.U, fn, 0)
			if zeroLike(o.U) {
				u = "zero"
			}
			if ws[f] == nil {
				ws[f] = map[string]bool{}
			}
			l := "set " + s + " := " + u
			if _, ok := valid(l); !ok || u == "_" {
				l = ""
			}
			ws[f][l] = true
			if r := rootOp(o.T); l != "" && s != u && (r == "p" || r == "g") {
				setOps[l] = append(setOps[l], o)
				for _, id := range o.Pre {
					y := factList[id]
					if y.V != nil {
						continue
					}
					b := strings.TrimPrefix(y.K, "each ")
					if b != "ok" && b != "true" && b != "false" {
						continue
					}
					if g := A.factPat(y, fn); g != "" {
						if r == "g" && !aboutValue(g, l) {
							continue // settings are read in any order
						}
						if _, ok := valid(g); ok {
							setGuards[l+" => "+g] = true
						}
					}
				}
			}
		}
	}
	for _, g := range sortedKeysB(setGuards) {
		k := strings.SplitN(g, " => ", 2)
		c.Obls = nil
		c.guard("x", a, "x", "set", k[0], k[1])
		if c.Obls[0].OK {
			put(" G " + g)
		} else {
			delete(setGuards, g)
		}
	}
	for _, l := range mineAlts(c, a, valid) {
		put(" A " + l)
	}
	for _, g := range sortedKeysB(useLines) {
		k := strings.SplitN(g, " => ", 2)
		c.Obls = nil
		c.guard("x", a, "x", "use", k[0], k[1])
		if c.Obls[0].OK {
			put(" U " + g)
		}
	}
	var wf []string
	for f := range ws {
		wf = append(wf, f)
	}
	sort.Strings(wf)
	for _, f := range wf {
		if ws[f][""] || len(ws[f]) > 8 {
			continue
		}
		for _, l := range sortedKeysB(ws[f]) {
			put(" W " + f + " | " + l)
		}
	}
	sort.Strings(guardLines)
	for _, g := range guardLines {
		if seen[" G "+g] {
			continue
		}
		k := strings.SplitN(g, " => ", 2)
		c.Obls = nil
		c.guard("x", a, "x", "call", k[0], k[1])
		if c.Obls[0].OK {
			put(" G " + g)
		}
	}
	var sp []string
	for p := range sinks {
		sp = append(sp, p)
	}
	sort.Strings(sp)
	var evs []*mineEvent
	if len(sp) > 0 || len(setOps) > 0 {
		evs = mineEvents(a)
	}
	var sl []string
	for l := range setOps {
		sl = append(sl, l)
	}
	sort.Strings(sl)
	for _, l := range sl {
		have := map[string]bool{}
		for g := range setGuards {
			if strings.HasPrefix(g, l+" => ") {
				have[g[len(l)+4:]] = true
			}
		}
		var use []*mineEvent
		for _, e := range evs {
			// The order of an assignment and other effects is free: only
			// decisions guard it.
			if k := strings.SplitN(e.cands[0], " ", 2)[0]; k != "ok" && k != "true" && k != "false" {
				continue
			}
			for _, o := range setOps[l] {
				if blockReaches(e.b, o.frames[0].in.Block()) {
					use = append(use, e)
					break
				}
			}
		}
		mineCond(A, use, have, valid, func(n *Need) bool {
			for _, o := range setOps[l] {
				if !n.holds(o.Pre, nil) && !(&Site{a, o, nil}).pathHolds(n) {
					return false
				}
			}
			return true
		}, 30, 16, func(ns string) {
			if strings.HasPrefix(l, "set {g:") {
				for _, n := range strings.Split(ns, " || ") {
					if !aboutValue(n, l) {
						return
					}
				}
			}
			c.Obls = nil
			if c.guard("x", a, "x", "set", l, ns); c.Obls[0].OK {
				put(" G " + l + " => " + ns)
			}
		})
	}
	for _, p := range sp {
		have := map[string]bool{}
		for _, g := range guardLines {
			if strings.HasPrefix(g, p+" => ") {
				have[g[len(p)+4:]] = true
			}
		}
		var use []*mineEvent
		for _, e := range evs {
			for _, o := range sinks[p] {
				if blockReaches(e.b, o.frames[0].in.Block()) {
					use = append(use, e)
					break
				}
			}
		}
		mineCond(A, use, have, valid, func(n *Need) bool {
			for _, o := range sinks[p] {
				if !n.holds(o.Pre, nil) && !(&Site{a, o, nil}).pathHolds(n) {
					return false
				}
			}
			return true
		}, 60, 16, func(ns string) {
			c.Obls = nil
			if c.guard("x", a, "x", "call", p, ns); c.Obls[0].OK {
				put(" G " + p + " => " + ns)
			}
		})
	}
	return out
}

// reCrypto: functions outside the module whose result is worth its arguments.
var reCrypto = regexp.MustCompile(`^(crypto/|golang\.org/x/crypto/|hash\.|.*ed25519|math/big\.)`)

var reSink = regexp.MustCompile(`(^keydb\.KeyDB\.(Add|Del|Set|Remove|Upd|Consume)|^msgdb\.MsgDB\.(Add|Del|Set|Remove|Upd|Retract)|session\.Store\.(Store|Set|Add|Del)|XORKeyStream|ed25519\.(Verify|Sign|GenerateKey)|io\.WriteString|io\.WriteCloser\.(Write|Close)|os\.File\.(Write|Sync)|serviceguard/client\.Client\.(UnlockToken|DelToken)|WalletStore\.(Set|Del|Add)|KeyPool\.(LoadKey|SaveKey)|cache\.Cache\.Set|^delete$|KeyStore\.(Store|Set|Add|Del)|walletstore.*\.(Set|Del|Lock|Unlock|Add)|io\.Writer\.Write|\.Write$|os\.(Rename|Remove|WriteFile|Create|OpenFile)|ioutil\.WriteFile|encdb\.|database/sql\.(DB|Tx|Stmt)\.(Exec|Query|QueryRow|Commit)|net/smtp\.Client\.(Mail|Rcpt|Data|Auth)|os/exec\.Cmd\.(Start|Run|Output)|jsonclient|ServiceClient|\.JSONRPCRequest$|net/http\.(Client\.|SetCookie|ServeFile|ResponseWriter\.Write|Handler\.ServeHTTP)|cipher\.ECDH$|box\.(Open|Seal)|\.Deliver|SendMail|Storage\.|^io\.Copy|^fmt\.Fprint|^msg\.(Encrypt|Decrypt)$|^mix/client\.)`)

func isSink(s string) bool { return reSink.MatchString(s) }

func genAll(A *Analysis, P *Program, globs []string) {
	mining = true
	for _, fn := range P.Fns {
		if fn.Parent() != nil || fn.Synthetic != "" || fn.Name() == "init" {
			continue
		}
		n := fnName(fn)
		ok := false
		for _, g := range globs {
			if globMatch(g, n) {
				ok = true
			}
		}
		if !ok {
			continue
		}
		ls := genContract(A, fn, P)
		if len(ls) == 0 {
			continue
		}
		fmt.Fprintf(os.Stdout, "fn %s :: %s\n", n, sigStr(fn))
		for _, l := range ls {
			if strings.Contains(l, "sync.") && !strings.Contains(l, "tokenLock") && !strings.Contains(l, "sync.WaitGroup") {
				continue // decided by the lock typestate
			}
			fmt.Println(l)
		}
	}
}

func sortedKeysB(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func mentionsTerm(t, x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.A {
		if mentionsTerm(a, x) {
			return true
		}
	}
	return false
}
