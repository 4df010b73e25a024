package main

import (
	"fmt"
	"strconv"
	"strings"
)

// Patterns over terms and facts. Syntax (see DESIGN.md):
//
//	_            any term            $x       any term, bound
//	p0, p1       parameters of the root function (receiver first)
//	~T           contains a subterm matching T
//	{A|B}        alternatives
//	name(a,...)  call or operator; "..." matches any further arguments;
//	             "*" inside the name is a wildcard
//	T.F T[i] T[a:b] T#1   field, element, slice, result index
//	new(type)    an object created in the function
type Pat struct {
	op   string // any var p c call fld idx slc contains alt alloc g fn
	sym  string
	n    int
	a    []*Pat
	rest bool
	src  string
	hit  bool // of an alternative of "every": a value matched it
}

// markAll: the alternatives inside are not judged.
func (p *Pat) markAll() {
	if p.op == "every" {
		for _, q := range p.a {
			q.hit = true
		}
	}
	for _, q := range p.a {
		q.markAll()
	}
}

// missed returns an alternative that no value matched.
func (p *Pat) missed(zero bool) string {
	if p.op == "every" {
		for _, q := range p.a {
			if !q.hit && (q.op != "zero" || zero && len(p.a) == 2) {
				return q.src
			}
		}
	}
	for _, q := range p.a {
		if p.op == "every" && !q.hit {
			continue
		}
		if m := q.missed(zero); m != "" {
			return m
		}
	}
	return ""
}

type parser struct {
	s   string
	i   int
	P   *Program
	err error
}

func (p *parser) ws() {
	for p.i < len(p.s) && (p.s[p.i] == ' ' || p.s[p.i] == '\n' || p.s[p.i] == '\t') {
		p.i++
	}
}

func (p *parser) peek() byte {
	p.ws()
	if p.i < len(p.s) {
		return p.s[p.i]
	}
	return 0
}

func (p *parser) fail(m string) {
	panic(fmt.Sprintf("pattern %q at %d: %s", p.s, p.i, m))
}

func (p *parser) expect(c byte) {
	if p.peek() != c {
		p.fail("expected " + string(c))
	}
	p.i++
}

func nameChar(c byte) bool {
	return c == '_' || c == '/' || c == '.' || c == '-' || c == ':' || c == '$' || c == '*' || c == '&' || c == '+' || c == '^' || c == '%' || c == '!' || c == '<' || c == '>' ||
		c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func (p *parser) term() *Pat {
	t := p.primary()
	for {
		switch p.peek() {
		case '.':
			p.i++
			j := p.i
			for p.i < len(p.s) && (nameChar(p.s[p.i]) && p.s[p.i] != '.') {
				p.i++
			}
			t = &Pat{op: "fld", sym: p.s[j:p.i], a: []*Pat{t}}
		case '[':
			p.i++
			a := p.term()
			if p.peek() == ':' {
				p.i++
				b := p.term()
				p.expect(']')
				t = &Pat{op: "slc", a: []*Pat{t, a, b}}
			} else {
				p.expect(']')
				t = &Pat{op: "idx", a: []*Pat{t, a}}
			}
		case '#':
			p.i++
			j := p.i
			for p.i < len(p.s) && p.s[p.i] >= '0' && p.s[p.i] <= '9' {
				p.i++
			}
			n, _ := strconv.Atoi(p.s[j:p.i])
			t.n = n
		default:
			return t
		}
	}
}

func (p *parser) primary() *Pat {
	c := p.peek()
	switch {
	case c == '~':
		p.i++
		return &Pat{op: "contains", a: []*Pat{p.term()}}
	case strings.HasPrefix(p.s[p.i:], "phi{"):
		p.i += 4
		r := &Pat{op: "every"}
		for {
			p.ws()
			i := p.i
			q := *p.term()
			q.src = strings.TrimSpace(p.s[i:p.i])
			r.a = append(r.a, &q)
			if p.peek() == '|' {
				p.i++
				continue
			}
			p.expect('}')
			return r
		}
	case c == '{':
		p.i++
		r := &Pat{op: "alt"}
		for {
			r.a = append(r.a, p.term())
			if p.peek() == '|' {
				p.i++
				continue
			}
			p.expect('}')
			return r
		}
	case c == '"':
		j := p.i
		p.i++
		for p.s[p.i] != '"' {
			if p.s[p.i] == '\\' {
				p.i++
			}
			p.i++
		}
		p.i++
		q := p.s[j:p.i]
		if u, err := strconv.Unquote(q); err == nil && canonSQL(u) != u {
			q = strconv.Quote(canonSQL(u))
		}
		return &Pat{op: "c", sym: q}
	case c == '@':
		p.i++
		j := p.i
		for p.i < len(p.s) && nameChar(p.s[p.i]) && p.s[p.i] != ':' {
			p.i++
		}
		v, ok := p.P.constValue(p.s[j:p.i])
		if !ok {
			panic(unresolved("constant " + p.s[j:p.i]))
		}
		return &Pat{op: "c", sym: v}
	case c == '-' || c >= '0' && c <= '9':
		j := p.i
		p.i++
		for p.i < len(p.s) && p.s[p.i] >= '0' && p.s[p.i] <= '9' {
			p.i++
		}
		return &Pat{op: "c", sym: p.s[j:p.i]}
	}
	j := p.i
	// type names for new(...) are raw
	for p.i < len(p.s) && nameChar(p.s[p.i]) {
		p.i++
	}
	word := p.s[j:p.i]
	if word == "" {
		p.fail("term expected")
	}
	if p.i < len(p.s) && p.s[p.i] == '(' {
		p.i++
		if word == "new" || word == "any" {
			k := p.i
			depth := 0
			for p.i < len(p.s) {
				ch := p.s[p.i]
				if ch == '(' || ch == '[' || ch == '{' {
					depth++
				}
				if ch == ')' || ch == ']' || ch == '}' {
					if depth == 0 {
						break
					}
					depth--
				}
				if ch == ',' && depth == 0 {
					break
				}
				p.i++
			}
			r := &Pat{op: "alloc", sym: strings.TrimSpace(p.s[k:p.i])}
			r.rest = true
			if p.peek() == ',' {
				p.i++
				r.a = append(r.a, p.term())
			}
			p.expect(')')
			return r
		}
		r := &Pat{op: "call", sym: word}
		for p.peek() != ')' {
			if strings.HasPrefix(p.s[p.i:], "...") {
				p.i += 3
				r.rest = true
				p.ws()
				break
			}
			r.a = append(r.a, p.term())
			if p.peek() == ',' {
				p.i++
			}
		}
		p.expect(')')
		return r
	}
	// not a call: first segment, then fields
	if k := strings.IndexByte(word, '.'); k > 0 && !strings.HasPrefix(word, "g:") && !strings.HasPrefix(word, "fn:") {
		p.i = j + k
		word = word[:k]
	}
	switch {
	case word == "_":
		return &Pat{op: "any"}
	case word == "zero":
		return &Pat{op: "zero"}
	case word[0] == '$':
		return &Pat{op: "var", sym: word}
	case word[0] == 'p' && len(word) > 1 && word[1] >= '0' && word[1] <= '9':
		n, _ := strconv.Atoi(word[1:])
		return &Pat{op: "p", n: n}
	case strings.HasPrefix(word, "g:"):
		return &Pat{op: "g", sym: word[2:]}
	case strings.HasPrefix(word, "fn:"):
		return &Pat{op: "fn", sym: word[3:]}
	}
	return &Pat{op: "c", sym: word}
}

type unresolved string

func globMatch(pat, s string) bool {
	if !strings.Contains(pat, "*") {
		return pat == s
	}
	parts := strings.Split(pat, "*")
	if !strings.HasPrefix(s, parts[0]) {
		return false
	}
	s = s[len(parts[0]):]
	for i, x := range parts[1:] {
		if i == len(parts)-2 {
			return strings.HasSuffix(s, x)
		}
		k := strings.Index(s, x)
		if k < 0 {
			return false
		}
		s = s[k+len(x):]
	}
	return true
}

// Bind is a set of variable bindings (persistent list).
type Bind struct {
	name string
	t    *Term
	next *Bind
}

func (b *Bind) get(n string) *Term {
	for ; b != nil; b = b.next {
		if b.name == n {
			return b.t
		}
	}
	return nil
}

func sameVar(a, b *Term) bool {
	return a == b || erase(a) == erase(b) && (a == erase(a) || b == erase(b))
}

// allocMatch: the pattern names the type of a new variable, and perhaps the
// column it is scanned from.
func allocMatch(p, t string) bool {
	pi, ti := strings.IndexByte(p, '~'), strings.IndexByte(t, '~')
	if pi < 0 {
		if ti >= 0 {
			t = t[:ti]
		}
		return globMatch(p, t)
	}
	if ti < 0 {
		return false
	}
	return p == t || t[ti:] == "~*" && p[:pi] == t[:ti]
}

// match calls k for every way t matches p.
func (p *Pat) match(t *Term, b *Bind, k func(*Bind) bool) bool {
	if t.Op == "unk" && t.Sym == "rec" {
		p.markAll()
		return k(b) // a value that depends on itself around a loop is not judged
	}
	if t.Op == "phi" && p.op != "any" && p.op != "var" && p.op != "every" {
		// what a loop does to the value is not judged
		var as []*Term
		for _, x := range t.A {
			if x.Op != "unk" || x.Sym != "loop" {
				as = append(as, x)
			}
		}
		if len(as) == 1 && len(t.A) > 1 {
			t = as[0]
		}
	}
	switch p.op {
	case "any":
		return k(b)
	case "var":
		if o := b.get(p.sym); o != nil {
			return sameVar(o, t) && k(b)
		}
		return k(&Bind{p.sym, t, b})
	case "alt":
		for _, x := range p.a {
			if x.match(t, b, k) {
				return true
			}
		}
		return false
	case "zero":
		return zeroLike(t) && k(b)
	case "every":
		// every value the term can have is one of those listed
		as := []*Term{t}
		if t.Op == "phi" {
			as = t.A
		}
		hit := false
		for _, x := range as {
			if x.Op == "unk" {
				p.markAll()
				continue
			}
			ok := false
			for _, q := range p.a {
				if q.op == "zero" && zeroLike(x) || q.op != "zero" && q.match(x, b, func(*Bind) bool { return true }) {
					ok = true
					q.hit = true
				}
			}
			if !ok {
				return false
			}
			hit = true
		}
		return hit && k(b)
	case "contains":
		seen := map[*Term]bool{}
		var rec func(x *Term) bool
		rec = func(x *Term) bool {
			if seen[x] {
				return false
			}
			seen[x] = true
			if p.a[0].match(x, b, k) {
				return true
			}
			for _, y := range x.A {
				if rec(y) {
					return true
				}
			}
			return false
		}
		return rec(t)
	case "p":
		return t.Op == "p" && t.N == p.n && k(b)
	case "c":
		return t.Op == "c" && t.Sym == p.sym && k(b)
	case "g":
		return t.Op == "g" && globMatch(p.sym, t.Sym) && k(b)
	case "fn":
		return (t.Op == "fn" || t.Op == "closure") && globMatch(p.sym, t.Sym) && k(b)
	case "fld":
		return t.Op == "fld" && globMatch(p.sym, t.Sym) && p.a[0].match(t.A[0], b, k)
	case "idx":
		return t.Op == "idx" && p.list(t.A, b, k)
	case "slc":
		return t.Op == "slc" && p.list(t.A, b, k)
	case "alloc":
		if t.Op != "alloc" {
			return false
		}
		if strings.HasPrefix(p.sym, "*.") {
			if structFields[t.Sym] != p.sym[1:] {
				return false
			}
		} else if !allocMatch(p.sym, t.Sym) {
			return false
		}
		if len(p.a) == 0 {
			return k(b)
		}
		return len(t.A) == 1 && p.a[0].match(t.A[0], b, k)
	case "call":
		switch t.Op {
		case "call":
			if !globMatch(p.sym, t.Sym) || p.n != t.N {
				return false
			}
			if symmetric[t.Sym] && len(t.A) == 2 && p.list([]*Term{t.A[1], t.A[0]}, b, k) {
				return true
			}
			return p.list(t.A, b, k)
		case "bin", "un", "as", "is":
			if !globMatch(p.sym, t.Op+":"+t.Sym) {
				return false
			}
			if t.Op == "bin" && commutes(t.Sym) && len(p.a) == 2 && len(t.A) == 2 {
				if p.list([]*Term{t.A[1], t.A[0]}, b, k) {
					return true
				}
			}
			return p.list(t.A, b, k)
		case "eq":
			if p.sym != "eq" {
				return false
			}
			if p.list(t.A, b, k) {
				return true
			}
			return p.list([]*Term{t.A[1], t.A[0]}, b, k)
		case "lt", "not", "recv", "recvok", "has", "key", "more", "list", "cat", "phi", "txstmt", "ind":
			if p.sym != t.Op {
				return false
			}
			if t.Op == "ind" {
				if len(p.a) == 1 {
					return p.a[0].match(cInt(int64(t.N)), b, k)
				}
				return k(b)
			}
			return p.list(t.A, b, k)
		}
	}
	return false
}

// symmetric functions of two arguments.
var symmetric = map[string]bool{"bytes.Equal": true, "crypto/hmac.Equal": true, "crypto/subtle.ConstantTimeCompare": true, "reflect.DeepEqual": true}

func (p *Pat) list(a []*Term, b *Bind, k func(*Bind) bool) bool {
	if len(a) < len(p.a) || len(a) > len(p.a) && !p.rest {
		return false
	}
	var rec func(i int, b *Bind) bool
	rec = func(i int, b *Bind) bool {
		if i == len(p.a) {
			return k(b)
		}
		return p.a[i].match(a[i], b, func(b2 *Bind) bool { return rec(i+1, b2) })
	}
	return rec(0, b)
}

// FPat is a fact pattern: kind term [:= term].
type FPat struct {
	strict bool
	memo   []int8
	kinds  []string
	t, u   *Pat
	src    string
}

// Need is a disjunction of conjunctions of fact patterns.
type Need struct {
	trig *Need // the need as a condition
	alts [][]*FPat
	src  string
}

func parseFPat(P *Program, s string) *FPat {
	s = strings.TrimSpace(s)
	f := &FPat{src: s}
	kind := ""
	rest := s
	for {
		i := strings.IndexAny(rest, " ")
		if i < 0 {
			panic("fact pattern without kind: " + s)
		}
		w := rest[:i]
		switch w {
		case "each", "defer":
			kind += w + " "
			if w == "defer" && !strings.HasPrefix(rest[i+1:], "set ") && !strings.HasPrefix(rest[i+1:], "ok ") {
				kind = strings.TrimSpace(kind)
				rest = rest[i+1:]
				goto done
			}
			rest = strings.TrimSpace(rest[i+1:])
			continue
		case "call", "ok", "true", "false", "set", "go", "send", "fail":
			kind += w
			rest = rest[i+1:]
			goto done
		default:
			panic("unknown fact kind in " + s)
		}
	}
done:
	f.kinds = []string{kind}
	parts := strings.SplitN(rest, ":=", 2)
	pp := &parser{s: strings.TrimSpace(parts[0]), P: P}
	f.t = pp.term()
	if pp.peek() != 0 {
		pp.fail("trailing input")
	}
	if len(parts) == 2 {
		pp := &parser{s: strings.TrimSpace(parts[1]), P: P}
		f.u = pp.term()
		if pp.peek() != 0 {
			pp.fail("trailing input")
		}
	}
	return f
}

func splitTop(s, sep string) []string {
	var out []string
	depth, inStr, j := 0, false, 0
	for i := 0; i < len(s); i++ {
		switch {
		case inStr:
			if s[i] == '\\' {
				i++
			} else if s[i] == '"' {
				inStr = false
			}
		case s[i] == '"':
			inStr = true
		case s[i] == '(' || s[i] == '[' || s[i] == '{':
			depth++
		case s[i] == ')' || s[i] == ']' || s[i] == '}':
			depth--
		case depth == 0 && strings.HasPrefix(s[i:], sep):
			out = append(out, s[j:i])
			j = i + len(sep)
			i = j - 1
		}
	}
	return append(out, s[j:])
}

func parseNeed(P *Program, s string) *Need {
	n := &Need{src: strings.Join(strings.Fields(s), " ")}
	for _, alt := range splitTop(s, "||") {
		var conj []*FPat
		for _, c := range splitTop(alt, "&&") {
			c = strings.TrimSpace(c)
			f := P.atoms[c]
			if f == nil {
				f = parseFPat(P, c)
				if P.atoms == nil {
					P.atoms = map[string]*FPat{}
				}
				P.atoms[c] = f
			}
			conj = append(conj, f)
		}
		n.alts = append(n.alts, conj)
	}
	return n
}

// differs: x says that a term equals a constant; then it does not equal the
// other constant the pattern speaks of.
func (f *FPat) differs(x *Fact) *Fact {
	if x.K != "true" || x.V != nil || f.kinds[0] != "false" || f.t.op != "call" || f.t.sym != "eq" || len(f.t.a) != 2 || x.T.Op != "eq" {
		return nil
	}
	for i, c := range f.t.a {
		if c.op != "c" {
			continue
		}
		for j, y := range x.T.A {
			if y.Op == "c" && y.Sym != c.sym && y.Sym != "nil" && c.sym != "nil" && isNumOrStr(y.Sym) && isNumOrStr(c.sym) {
				n := [2]*Term{x.T.A[1-j], x.T.A[1-j]}
				n[i] = mk("c", c.sym, 0)
				return mkFact("false", mk("eq", "", 0, n[0], n[1]), nil, nil)
			}
		}
	}
	return nil
}

// asTrigger: as the condition of an obligation the need means what it says.
func (n *Need) asTrigger() *Need {
	if n.trig == nil {
		n.trig = &Need{src: n.src}
		n.trig.trig = n.trig
		for _, c := range n.alts {
			var conj []*FPat
			for _, f := range c {
				g := *f
				g.strict, g.memo = true, nil
				conj = append(conj, &g)
			}
			n.trig.alts = append(n.trig.alts, conj)
		}
	}
	return n.trig
}

// notSentinel: a call that succeeded did not return the error the pattern
// speaks of.
func (f *FPat) notSentinel(x *Fact) *Fact {
	if x.V != nil || f.kinds[0] != "false" || f.t.op != "call" || f.t.sym != "eq" || len(f.t.a) != 2 {
		return nil
	}
	// what is nil is not the error either
	var none *Term
	if x.K == "true" && x.T.Op == "eq" && len(x.T.A) == 2 {
		for i, t := range x.T.A {
			if t.Op == "c" && t.Sym == "nil" {
				none = x.T.A[1-i]
			}
		}
	}
	if none == nil && (x.K != "ok" || x.T.Op != "call") {
		return nil
	}
	for i, p := range f.t.a {
		for len(p.a) == 1 && p.op != "call" {
			p = p.a[0]
		}
		q := f.t.a[1-i]
		if p.op != "g" || !isSentinel(p.sym) || none == nil && (q.op != "call" || q.sym != x.T.Sym) {
			continue
		}
		n := [2]*Term{}
		if none != nil {
			n[i], n[1-i] = mk("g", p.sym, 0), none
			return mkFact("false", mk("eq", "", 0, n[0], n[1]), nil, nil)
		}
		n[i] = mk("g", p.sym, 0)
		n[1-i] = mkf("call", x.T.Sym, q.n, x.T.fn, x.T.A...)
		return mkFact("false", mk("eq", "", 0, n[0], n[1]), nil, nil)
	}
	return nil
}

func isSentinel(g string) bool {
	i := strings.LastIndexByte(g, '.')
	return strings.HasPrefix(g[i+1:], "Err") || g == "io.EOF"
}

func isNumOrStr(s string) bool {
	if s == "" {
		return false
	}
	return s[0] == '"' || s[0] == '-' || s[0] >= '0' && s[0] <= '9'
}

func (f *FPat) match(x *Fact, b *Bind, k func(*Bind) bool) bool {
	if y := f.differs(x); y != nil && f.match(y, b, k) {
		return true
	}
	if y := f.notSentinel(x); y != nil && !f.strict && f.match(y, b, k) {
		return true
	}
	// what has a type is there
	if x.K == "true" && x.V == nil && x.T.Op == "is" && x.T.A[0].Op == "idx" && f.kinds[0] == "true" && f.t.op == "call" && f.t.sym == "has" {
		if f.match(mkFact("true", mk("has", "", 0, x.T.A[0].A...), nil, nil), b, k) {
			return true
		}
	}
	if x.V != nil || x.K != f.kinds[0] {
		// what was deferred by a helper has happened in its caller
		if x.V != nil || !strings.HasPrefix(f.kinds[0], "defer") {
			return false
		}
		k := strings.TrimPrefix(strings.TrimPrefix(f.kinds[0], "defer"), " ")
		if k == "" {
			k = "call"
		}
		if x.K != k {
			return false
		}
	}
	val := func(b2 *Bind) bool {
		if f.u == nil {
			return k(b2)
		}
		if x.U == nil {
			return false
		}
		return f.u.match(x.U, b2, k)
	}
	return f.t.match(x.T, b, val) || f.u != nil && f.t.onItsOwn(x.T) && val(b)
}

// onItsOwn: the pattern is a field of a field of a new object, and t the same
// field of a new object that has the type of that field: a value built on its
// own and put into the field as a whole.
func (p *Pat) onItsOwn(t *Term) bool {
	if p.op != "fld" || t.Op != "fld" || p.sym != t.Sym || t.A[0].Op != "alloc" {
		return false
	}
	q := p.a[0]
	return q.op == "fld" && q.a[0].op == "alloc" && fieldTypes[q.a[0].sym+"."+q.sym] == t.A[0].Sym
}

func matchConj(c []*FPat, fs FS, b *Bind, k func(*Bind) bool) bool {
	if len(c) == 0 {
		return k(b)
	}
	for _, id := range fs {
		if c[0].match(factList[id], b, func(b2 *Bind) bool { return matchConj(c[1:], fs, b2, k) }) {
			return true
		}
	}
	return false
}

// lit is match without bindings, remembered per fact.
func (f *FPat) lit(id int32) bool {
	if int(id) >= len(f.memo) {
		m := make([]int8, len(factList)+64)
		copy(m, f.memo)
		f.memo = m
	}
	if f.memo[id] == 0 {
		f.memo[id] = 2
		if f.match(factList[id], nil, func(*Bind) bool { return true }) {
			f.memo[id] = 1
		}
	}
	return f.memo[id] == 1
}

func (n *Need) holds(fs FS, b *Bind) bool {
	for _, c := range n.alts {
		if b == nil && len(c) == 1 {
			for _, id := range fs {
				if c[0].lit(id) {
					return true
				}
			}
			continue
		}
		if matchConj(c, fs, b, func(*Bind) bool { return true }) {
			return true
		}
	}
	return false
}
