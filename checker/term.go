package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed symbolic expression. Pointers and the values they
// point to are identified, conversions are dropped, comparisons are put in a
// normal form: a term names *which* value is meant, not how it was written.
type Term struct {
	id  int
	Op  string // p fv g c fld idx slc call bin un phi ind alloc list closure fn as unk
	Sym string
	N   int
	A   []*Term
	fn  *ssa.Function
}

var termTab = map[string]*Term{}
var termCnt int

func mk(op, sym string, n int, a ...*Term) *Term { return mkf(op, sym, n, nil, a...) }

func mkf(op, sym string, n int, fn *ssa.Function, a ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(sym)
	fmt.Fprintf(&b, "|%d", n)
	for _, x := range a {
		fmt.Fprintf(&b, ",%d", x.id)
	}
	k := b.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termCnt++
	t := &Term{id: termCnt, Op: op, Sym: sym, N: n, A: append([]*Term(nil), a...), fn: fn}
	termTab[k] = t
	return t
}

var uniqCnt int

func uniq() int { uniqCnt++; return uniqCnt }

func cInt(i int64) *Term { return mk("c", fmt.Sprint(i), 0) }
func cNil() *Term        { return mk("c", "nil", 0) }
func cBool(b bool) *Term { return mk("c", fmt.Sprint(b), 0) }
func (t *Term) isInt() (int64, bool) {
	if t.Op != "c" {
		return 0, false
	}
	var i int64
	if _, err := fmt.Sscanf(t.Sym, "%d", &i); err != nil || fmt.Sprint(i) != t.Sym {
		return 0, false
	}
	return i, true
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if d > 14 {
		return "…"
	}
	args := func(a []*Term) string {
		s := make([]string, len(a))
		for i, x := range a {
			s[i] = x.str(d + 1)
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case "p":
		return fmt.Sprintf("p%d", t.N)
	case "fv":
		return fmt.Sprintf("fv%d", t.N)
	case "g":
		return "g:" + t.Sym
	case "c":
		return t.Sym
	case "fld":
		return t.A[0].str(d+1) + "." + t.Sym
	case "idx":
		return t.A[0].str(d+1) + "[" + t.A[1].str(d+1) + "]"
	case "slc":
		return t.A[0].str(d+1) + "[" + t.A[1].str(d+1) + ":" + t.A[2].str(d+1) + "]"
	case "call":
		s := t.Sym + "(" + args(t.A) + ")"
		if t.N > 0 {
			s += fmt.Sprintf("#%d", t.N)
		}
		return s
	case "alloc":
		if t.N < 0 {
			if len(t.A) > 0 {
				return "any(" + t.Sym + ", " + args(t.A) + ")"
			}
			return "any(" + t.Sym + ")"
		}
		if len(t.A) > 0 {
			return "new(" + t.Sym + ", " + args(t.A) + ")"
		}
		return "new(" + t.Sym + ")"
	case "closure", "fn":
		return "fn:" + t.Sym
	}
	s := t.Op
	if t.Sym != "" {
		s += ":" + t.Sym
	}
	return s + "(" + args(t.A) + ")"
}

func (t *Term) contains(pred func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(x *Term) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if pred(x) {
			return true
		}
		for _, a := range x.A {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// subst maps parameter / free-variable terms to caller terms.
type subst struct {
	m    map[*Term]*Term
	memo map[*Term]*Term
	comp map[*subst]*subst
	fs   map[*fset]FS
}

func newSubst() *subst { return &subst{m: map[*Term]*Term{}, memo: map[*Term]*Term{}} }

func (s *subst) apply(t *Term) *Term {
	if r, ok := s.memo[t]; ok {
		return r
	}
	if r, ok := s.m[t]; ok {
		s.memo[t] = r
		return r
	}
	if t.Op == "alloc" && t.N >= 0 || t.Op == "unk" && t.N > 0 {
		// objects created by the callee are distinct per call site
		na := make([]*Term, len(t.A))
		for i, a := range t.A {
			na[i] = s.apply(a)
		}
		r := mkf(t.Op, t.Sym, uniq(), t.fn, na...)
		s.memo[t] = r
		return r
	}
	if len(t.A) == 0 {
		return t
	}
	ch := false
	na := make([]*Term, len(t.A))
	for i, a := range t.A {
		na[i] = s.apply(a)
		if na[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, na)
	}
	s.memo[t] = r
	return r
}

// rebuild re-normalises a term with new arguments.
func rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case "phi":
		return mkPhi(a)
	case "eq":
		return mkEq(a[0], a[1])
	case "bin":
		return mkBin(t.Sym, a[0], a[1], commutes(t.Sym))
	case "alloc":
		return mkf("alloc", t.Sym, t.N, t.fn, a...)
	case "cat":
		return mkCat(a...)
	case "slc":
		return mkSlc(a[0], a[1], a[2])
	case "call":
		if t.Sym == "len" && len(a) == 1 {
			return mkLen(a[0])
		}
	}
	return mkf(t.Op, t.Sym, t.N, t.fn, a...)
}

func commutes(op string) bool {
	switch op {
	case "+", "*", "&", "|", "^":
		return true
	}
	return false
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// mkCat is the concatenation of strings: flat, in order, with neighbouring
// constants joined and empty ones left out.
func mkCat(a ...*Term) *Term {
	var u []*Term
	var add func(x *Term)
	add = func(x *Term) {
		if x.Op == "cat" {
			for _, y := range x.A {
				add(y)
			}
			return
		}
		if x.Op == "c" && (x.Sym == `""` || x.Sym == "zero:string") {
			return
		}
		if n := len(u); n > 0 && x.Op == "c" && u[n-1].Op == "c" {
			p, e1 := strconv.Unquote(u[n-1].Sym)
			q, e2 := strconv.Unquote(x.Sym)
			if e1 == nil && e2 == nil {
				u[n-1] = mk("c", fmt.Sprintf("%q", p+q), 0)
				return
			}
		}
		u = append(u, x)
	}
	for _, x := range a {
		add(x)
	}
	switch len(u) {
	case 0:
		return mk("c", `""`, 0)
	case 1:
		return u[0]
	}
	return mk("cat", "", 0, u...)
}

// sprintfCat reads fmt.Sprintf of strings with the verb %s (or %v) only as
// the concatenation it is.
func (f *FnA) sprintfCat(cc *ssa.CallCommon, t *Term) *Term {
	if t.Op != "call" || t.Sym != "fmt.Sprintf" || len(t.A) != 2 || t.A[0].Op != "c" || t.A[1].Op != "list" {
		return nil
	}
	format, err := strconv.Unquote(t.A[0].Sym)
	if err != nil {
		return nil
	}
	sl, ok := cc.Args[1].(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, rr := range *ia.Referrers() {
			if st, ok := rr.(*ssa.Store); ok {
				mi, ok := st.Val.(*ssa.MakeInterface)
				if !ok || !types.Identical(mi.X.Type(), types.Typ[types.String]) {
					return nil
				}
			}
		}
	}
	var parts []*Term
	lit, n := "", 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			lit += string(format[i : i+1])
			continue
		}
		i++
		if i == len(format) {
			return nil
		}
		switch format[i] {
		case '%':
			lit += "%"
		case 's', 'v':
			if n >= len(t.A[1].A) {
				return nil
			}
			parts = append(parts, mk("c", fmt.Sprintf("%q", lit), 0), t.A[1].A[n])
			lit, n = "", n+1
		default:
			return nil
		}
	}
	if n != len(t.A[1].A) {
		return nil
	}
	return mkCat(append(parts, mk("c", fmt.Sprintf("%q", lit), 0))...)
}

func mkPhi(a []*Term) *Term {
	m := map[*Term]bool{}
	var u []*Term
	var add func(x *Term)
	add = func(x *Term) {
		if x.Op == "phi" {
			for _, y := range x.A {
				add(y)
			}
			return
		}
		if !m[x] {
			m[x] = true
			u = append(u, x)
		}
	}
	for _, x := range a {
		add(x)
	}
	if len(u) == 1 {
		return u[0]
	}
	if x := factorCat(u); x != nil {
		return x
	}
	sort.Slice(u, func(i, j int) bool { return u[i].id < u[j].id })
	return mk("phi", "", 0, u...)
}

// factorCat takes the common beginning of alternatives out of a choice
// between concatenations: a+b or a is a+(b or "").
func factorCat(u []*Term) *Term {
	any := false
	parts := make([][]*Term, len(u))
	for i, x := range u {
		parts[i] = []*Term{x}
		if x.Op == "cat" {
			any = true
			parts[i] = x.A
		}
		if parts[i][0] != parts[0][0] {
			return nil
		}
	}
	if !any {
		return nil
	}
	var rests []*Term
	for _, p := range parts {
		rests = append(rests, mkCat(p[1:]...))
	}
	return mkCat(parts[0][0], mkPhi(rests))
}

func mkBin(op string, a, b *Term, comm bool) *Term {
	if ai, ok := a.isInt(); ok {
		if bi, ok := b.isInt(); ok {
			switch op {
			case "+":
				return cInt(ai + bi)
			case "-":
				return cInt(ai - bi)
			case "*":
				return cInt(ai * bi)
			case "|":
				return cInt(ai | bi)
			case "&":
				return cInt(ai & bi)
			case "&^":
				return cInt(ai &^ bi)
			case "^":
				return cInt(ai ^ bi)
			case "/":
				if bi > 0 && ai >= 0 {
					return cInt(ai / bi)
				}
			case "%":
				if bi > 0 && ai >= 0 {
					return cInt(ai % bi)
				}
			}
		}
	}
	if op == "+" {
		if ai, ok := a.isInt(); ok && ai == 0 {
			return b
		}
		if bi, ok := b.isInt(); ok && bi == 0 {
			return a
		}
	}
	if bi, ok := b.isInt(); ok {
		if a.Op == "ind" && (op == "+" || op == "-") {
			if op == "-" {
				bi = -bi
			}
			return mk("ind", a.Sym, a.N+int(bi))
		}
		if op == "-" {
			return mkBin("+", a, cInt(-bi), true)
		}
		if op == "+" && bi == 0 {
			return a
		}
	}
	if comm {
		if _, ok := a.isInt(); ok {
			a, b = b, a
		} else if _, ok := b.isInt(); !ok && a.id > b.id {
			a, b = b, a
		}
		// (x+c1)+c2
		if bi, ok := b.isInt(); ok && op == "+" && a.Op == "bin" && a.Sym == "+" {
			if ci, ok := a.A[1].isInt(); ok {
				return mkBin("+", a.A[0], cInt(ci+bi), true)
			}
		}
		// (c1-x)+c2
		if bi, ok := b.isInt(); ok && op == "+" && a.Op == "bin" && a.Sym == "-" {
			if ci, ok := a.A[0].isInt(); ok {
				return mkBin("-", cInt(ci+bi), a.A[1], false)
			}
		}
	}
	return mk("bin", op, 0, a, b)
}

func mkEq(a, b *Term) *Term {
	// constants last
	if a.Op == "c" && b.Op != "c" {
		a, b = b, a
	} else if a.Op != "c" && b.Op != "c" && a.id > b.id {
		a, b = b, a
	}
	// comparison wrappers
	if a.Op == "call" {
		if bi, ok := b.isInt(); ok {
			switch {
			case a.Sym == "crypto/subtle.ConstantTimeCompare" && bi == 1,
				a.Sym == "bytes.Compare" && bi == 0, a.Sym == "strings.Compare" && bi == 0:
				return mkEq(a.A[0], a.A[1])
			}
		}
	}
	if b.Op == "c" && b.Sym == `""` {
		return mkEq(mkLen(a), cInt(0))
	}
	return mk("eq", "", 0, a, b)
}

func mkLen(x *Term) *Term {
	if x.Op == "slc" {
		hi, lo := x.A[2], x.A[1]
		if hi.Op == "c" && hi.Sym == "end" {
			hi = mkLen(x.A[0])
		}
		if l, ok := lo.isInt(); ok && l == 0 {
			return hi
		}
		if h, ok := hi.isInt(); ok {
			if l, ok := lo.isInt(); ok {
				return cInt(h - l)
			}
		}
		return mkBin("-", hi, lo, false)
	}
	return mk("call", "len", 0, x)
}

// cmp normalises a comparison: result is (term, polarity).
func normCmp(op token.Token, a, b *Term, isInt bool) (*Term, bool) {
	neg := false
	switch op {
	case token.EQL:
		return normEq(a, b, true)
	case token.NEQ:
		return normEq(a, b, false)
	case token.LEQ: // a<=b == !(b<a)
		a, b = b, a
		neg = true
	case token.GTR:
		a, b = b, a
	case token.GEQ:
		neg = true
	}
	// now (a < b) xor neg
	if isInt {
		if ac, ok := a.isInt(); ok {
			if _, ok := b.isInt(); !ok {
				// c < b  ==  !(b < c+1)
				a, b = b, cInt(ac+1)
				neg = !neg
			}
		}
		if bc, ok := b.isInt(); ok && a.Op == "call" && a.Sym == "len" && bc == 1 {
			return mkEq(a, cInt(0)), !neg
		}
		// (x + c) < d  ==  x < d-c
		if bc, ok := b.isInt(); ok && a.Op == "bin" && a.Sym == "+" {
			if cc, ok := a.A[1].isInt(); ok {
				a, b = a.A[0], cInt(bc-cc)
			}
		}
	}
	return mk("lt", "", 0, a, b), !neg
}

func normEq(a, b *Term, pol bool) (*Term, bool) {
	if a.Op == "c" && b.Op != "c" {
		a, b = b, a
	}
	if b.Op == "c" {
		switch b.Sym {
		case "true":
			t, p := boolTerm(a)
			return t, p == pol
		case "false":
			t, p := boolTerm(a)
			return t, p != pol
		}
		if a.Op == "call" && a.Sym == "crypto/subtle.ConstantTimeCompare" {
			if bi, ok := b.isInt(); ok && bi == 0 {
				return mkEq(a.A[0], a.A[1]), !pol
			}
		}
		// of two values it is one if it is not the other
		if bi, ok := b.isInt(); ok && bi > 0 && a.Op == "bin" {
			if m, ok := a.A[1].isInt(); ok && (a.Sym == "%" && m == 2 && bi == 1 || a.Sym == "&" && m == bi && m&(m-1) == 0) {
				return mkEq(a, cInt(0)), !pol
			}
		}
		if bi, ok := b.isInt(); ok && a.Op == "bin" && a.Sym == "+" {
			if cc, ok := a.A[1].isInt(); ok {
				return mkEq(a.A[0], cInt(bi-cc)), pol
			}
		}
	}
	return mkEq(a, b), pol
}

// boolTerm rewrites a boolean-valued term in comparison normal form.
func boolTerm(t *Term) (*Term, bool) {
	switch t.Op {
	case "un":
		if t.Sym == "!" {
			x, p := boolTerm(t.A[0])
			return x, !p
		}
	case "not":
		x, p := boolTerm(t.A[0])
		return x, !p
	case "call":
		switch t.Sym {
		case "bytes.Equal", "crypto/hmac.Equal", "reflect.DeepEqual", "errors.Is", "bytes.EqualFold!":
			if len(t.A) == 2 {
				return mkEq(t.A[0], t.A[1]), true
			}
		case "time.Time.Before":
			if len(t.A) == 2 {
				return mk("call", "time.Time.After", t.N, t.A[1], t.A[0]), true
			}
		}
	}
	return t, true
}

// ---------------------------------------------------------------- values

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		if c.IsNil() {
			return cNil()
		}
		return mk("c", "zero:"+typeStr(c.Type()), 0)
	}
	switch c.Value.Kind() {
	case constant.Int:
		return mk("c", c.Value.ExactString(), 0)
	case constant.String:
		return mk("c", fmt.Sprintf("%q", canonSQL(constant.StringVal(c.Value))), 0)
	case constant.Bool:
		return mk("c", c.Value.String(), 0)
	}
	return mk("c", c.Value.ExactString(), 0)
}

func (f *FnA) term(v ssa.Value) *Term {
	if v == nil {
		return mk("unk", "none", 0)
	}
	if t, ok := f.terms[v]; ok {
		return t
	}
	if f.busy[v] {
		return mk("unk", "rec", 0)
	}
	f.busy[v] = true
	t := f.term0(v)
	delete(f.busy, v)
	f.terms[v] = t
	return t
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// narrows: the type of an integer conversion that can lose bits.
func narrows(x *ssa.Convert) string {
	from, ok1 := x.X.Type().Underlying().(*types.Basic)
	to, ok2 := x.Type().Underlying().(*types.Basic)
	if !ok1 || !ok2 || from.Info()&types.IsInteger == 0 || to.Info()&types.IsInteger == 0 {
		return ""
	}
	sz := types.SizesFor("gc", "amd64")
	if sz.Sizeof(to) >= sz.Sizeof(from) {
		return ""
	}
	return fmt.Sprintf("bits%d", sz.Sizeof(to)*8)
}

func (f *FnA) term0(v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				return paramTerm(x.Parent(), i)
			}
		}
	case *ssa.FreeVar:
		for i, p := range x.Parent().FreeVars {
			if p == x {
				return fvTerm(x.Parent(), i)
			}
		}
	case *ssa.Const:
		return constTerm(x)
	case *ssa.Global:
		return mk("g", shortPath(x.Pkg.Pkg.Path())+"."+globalName(x), 0)
	case *ssa.Function:
		return mkf("fn", fnName(x), 0, x)
	case *ssa.Builtin:
		return mk("fn", x.Name(), 0)
	case *ssa.Alloc:
		return f.allocTerm(x)
	case *ssa.FieldAddr:
		return mk("fld", fieldName(x.X.Type(), x.Field), 0, f.term(x.X))
	case *ssa.Field:
		return mk("fld", fieldName(x.X.Type(), x.Field), 0, f.term(x.X))
	case *ssa.IndexAddr:
		return mk("idx", "", 0, f.term(x.X), f.term(x.Index))
	case *ssa.Index:
		return mk("idx", "", 0, f.term(x.X), f.term(x.Index))
	case *ssa.Lookup:
		return mk("idx", "", 0, f.term(x.X), f.term(x.Index))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			return f.load(x)
		case token.NOT:
			t, p := boolTerm(f.term(x.X))
			if p {
				return mk("not", "", 0, t)
			}
			return t
		case token.ARROW:
			return mk("recv", "", 0, f.term(x.X))
		}
		return mk("un", x.Op.String(), 0, f.term(x.X))
	case *ssa.BinOp:
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			t, p := normCmp(x.Op, f.term(x.X), f.term(x.Y), isIntType(x.X.Type()))
			if !p {
				return mk("not", "", 0, t)
			}
			return t
		}
		if isStringType(x.Type()) {
			return mkCat(f.term(x.X), f.term(x.Y))
		}
		return mkBin(x.Op.String(), f.term(x.X), f.term(x.Y), commutes(x.Op.String()))
	case *ssa.Call:
		return f.callTerm(&x.Call, 0, x)
	case *ssa.Extract:
		switch tu := x.Tuple.(type) {
		case *ssa.Call:
			return f.callTerm(&tu.Call, x.Index, tu)
		case *ssa.Lookup:
			b := mk("idx", "", 0, f.term(tu.X), f.term(tu.Index))
			if x.Index == 0 {
				return b
			}
			return mk("has", "", 0, f.term(tu.X), f.term(tu.Index))
		case *ssa.TypeAssert:
			if x.Index == 0 {
				return mk("as", typeStr(tu.AssertedType), 0, f.term(tu.X))
			}
			return mk("is", typeStr(tu.AssertedType), 0, f.term(tu.X))
		case *ssa.Next:
			if r, ok := tu.Iter.(*ssa.Range); ok {
				m := f.term(r.X)
				switch x.Index {
				case 0:
					return mk("more", "", 0, m)
				case 1:
					return mk("key", "", 0, m)
				default:
					return mk("idx", "", 0, m, mk("key", "", 0, m))
				}
			}
		case *ssa.UnOp:
			if x.Index == 0 {
				return mk("recv", "", 0, f.term(tu.X))
			}
			return mk("recvok", "", 0, f.term(tu.X))
		}
		return mk("unk", "extract", uniq())
	case *ssa.Phi:
		return f.phiTerm(x)
	case *ssa.Convert:
		if n := narrows(x); n != "" {
			return mk("un", n, 0, f.term(x.X))
		}
		return f.term(x.X)
	case *ssa.ChangeType:
		return f.term(x.X)
	case *ssa.MakeInterface:
		return f.term(x.X)
	case *ssa.ChangeInterface:
		return f.term(x.X)
	case *ssa.SliceToArrayPointer:
		return f.term(x.X)
	case *ssa.MultiConvert:
		return f.term(x.X)
	case *ssa.TypeAssert:
		return mk("as", typeStr(x.AssertedType), 0, f.term(x.X))
	case *ssa.Slice:
		return f.sliceTerm(x)
	case *ssa.MakeSlice:
		if l, ok := f.term(x.Len).isInt(); ok && l == 0 {
			return mk("list", "", 0)
		} else if ok && f.term(x.Cap).String() == f.term(x.Len).String() {
			return mk("alloc", fmt.Sprintf("[%d]%s", l, typeStr(x.Type().Underlying().(*types.Slice).Elem())), uniq())
		}
		return mk("alloc", typeStr(x.Type()), uniq(), f.term(x.Len))
	case *ssa.MakeMap:
		return mk("alloc", typeStr(x.Type()), uniq())
	case *ssa.MakeChan:
		return mk("alloc", typeStr(x.Type()), uniq())
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, f.term(b))
		}
		return mkf("closure", fnName(fn), 0, fn, bs...)
	}
	return mk("unk", fmt.Sprintf("%T", v), uniq())
}

func paramTerm(fn *ssa.Function, i int) *Term { return mkf("p", fnKey(fn), i, fn) }
func fvTerm(fn *ssa.Function, i int) *Term    { return mkf("fv", fnKey(fn), i, fn) }

var fnKeys = map[*ssa.Function]string{}

func fnKey(fn *ssa.Function) string {
	if k, ok := fnKeys[fn]; ok {
		return k
	}
	k := fmt.Sprintf("%s@%d", fnName(fn), len(fnKeys))
	fnKeys[fn] = k
	return k
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
		return objName(s.Field(i))
	}
	return fmt.Sprintf("f%d", i)
}

func fieldOwner(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return shortPath(n.Obj().Pkg().Path()) + "." + objName(n.Obj())
	}
	return typeBase(t)
}

// induction recognises a counter.
func induction(x *ssa.Phi) *Term {
	if isIntType(x.Type()) && len(x.Edges) >= 2 {
		var init *Term
		okInd := true
		steps := 0
		for _, e := range x.Edges {
			if b, ok := e.(*ssa.BinOp); ok && (b.Op == token.ADD) && b.X == x {
				if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil && c.Value.ExactString() == "1" {
					steps++
					continue
				}
			}
			if c, ok := e.(*ssa.Const); ok && c.Value != nil {
				t := constTerm(c)
				if init != nil && init != t {
					okInd = false
				}
				init = t
				continue
			}
			if e == ssa.Value(x) {
				continue
			}
			okInd = false
		}
		if okInd && steps > 0 && init != nil {
			if i, ok := init.isInt(); ok {
				return mk("ind", "", int(i))
			}
		}
	}
	return nil
}

// phiLeaves lists the values a phi chooses among: a phi that goes around a loop
// unchanged chooses among what it was set to.
func phiLeaves(x *ssa.Phi) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{x: true}
	var rec func(x *ssa.Phi)
	rec = func(x *ssa.Phi) {
		for _, e := range x.Edges {
			if s, ok := e.(*ssa.Slice); ok && s.Low == nil && s.High == nil && s.Max == nil {
				if _, ok := s.X.Type().Underlying().(*types.Slice); ok {
					if _, ok := s.X.(*ssa.Phi); ok {
						e = s.X
					}
				}
			}
			if seen[e] {
				continue
			}
			seen[e] = true
			if y, ok := e.(*ssa.Phi); ok && induction(y) == nil {
				rec(y)
				continue
			}
			out = append(out, e)
		}
	}
	rec(x)
	return out
}

func (f *FnA) phiTerm(x *ssa.Phi) *Term {
	if t := induction(x); t != nil {
		return t
	}
	var as []*Term
	rec := false
	for _, e := range phiLeaves(x) {
		if f.busy[e] {
			rec = true
			continue
		}
		t := f.term(e)
		if t.contains(func(y *Term) bool { return y.Op == "unk" && y.Sym == "rec" }) {
			rec = true
			continue
		}
		as = append(as, t)
	}
	if len(as) == 0 {
		return mk("unk", "phi", uniq())
	}
	if rec {
		as = append(as, mk("unk", "loop", uniq()))
	}
	return mkPhi(as)
}

func (f *FnA) sliceTerm(x *ssa.Slice) *Term {
	if a, ok := x.X.(*ssa.Alloc); ok && (a.Comment == "varargs" || a.Comment == "slicelit") {
		n := 0
		if p, ok := a.Type().Underlying().(*types.Pointer); ok {
			if ar, ok := p.Elem().Underlying().(*types.Array); ok {
				n = int(ar.Len())
			}
		}
		el := make([]*Term, n)
		for _, r := range *a.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok {
				if c, ok := ia.Index.(*ssa.Const); ok {
					i, _ := constant.Int64Val(c.Value)
					for _, rr := range *ia.Referrers() {
						if st, ok := rr.(*ssa.Store); ok && st.Addr == ia && int(i) < n {
							el[i] = f.term(st.Val)
						}
					}
				}
			}
		}
		for i := range el {
			if el[i] == nil {
				el[i] = mk("unk", "elem", 0)
			}
		}
		return mk("list", "", 0, el...)
	}
	if a, ok := x.X.(*ssa.Alloc); ok && a.Comment == "makeslice" {
		if l, ok := x.High.(*ssa.Const); ok && l.Int64() == 0 {
			return mk("list", "", 0)
		}
	}
	base := f.term(x.X)
	lo, hi := cInt(0), mk("c", "end", 0)
	if x.Low != nil {
		lo = f.term(x.Low)
	}
	if x.High != nil {
		hi = f.term(x.High)
	}
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		if ar, ok := p.Elem().Underlying().(*types.Array); ok {
			if h, ok := hi.isInt(); ok && h == ar.Len() {
				hi = mk("c", "end", 0)
			}
		}
	}
	if l, ok := lo.isInt(); ok && l == 0 && hi.Sym == "end" && hi.Op == "c" {
		return base
	}
	return mkSlc(base, lo, hi)
}

// mkSlc is a part of a value; a part of a part is a part of the whole.
func mkSlc(base, lo, hi *Term) *Term {
	if base.Op == "slc" {
		a, b := base.A[1], base.A[2]
		if hi.Op == "c" && hi.Sym == "end" {
			hi = b
		} else {
			hi = mkBin("+", hi, a, true)
		}
		base, lo = base.A[0], mkBin("+", lo, a, true)
	}
	return mk("slc", "", 0, base, lo, hi)
}

// wholeStores returns the stores directly to an alloc and whether its address
// escapes to code that may write through it.
func (f *FnA) allocInfo(a *ssa.Alloc) *allocInfo {
	if i, ok := f.allocs[a]; ok {
		return i
	}
	inf := &allocInfo{}
	f.allocs[a] = inf
	for _, r := range *a.Referrers() {
		switch y := r.(type) {
		case *ssa.Store:
			if y.Addr == a {
				inf.stores = append(inf.stores, y)
			} else {
				inf.escapes = true
			}
		case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
		case *ssa.Slice:
			inf.sliced = true
		case *ssa.MakeClosure:
			inf.captured = true
			fn := y.Fn.(*ssa.Function)
			for i, b := range y.Bindings {
				if b == a && fvWritten(fn, i, map[*ssa.Function]bool{}) {
					inf.closureWrites = append(inf.closureWrites, fn)
				}
			}
		case ssa.CallInstruction:
			inf.escapes = true
		case *ssa.Return, *ssa.Phi:
			inf.flows = true
		default:
			inf.escapes = true
		}
	}
	// a copy that is changed and stored back is the same object
	if len(inf.stores) > 1 {
		var keep []*ssa.Store
		for _, st := range inf.stores {
			if b := loadedFrom(st.Val); b != nil && b != a && copiedOnlyFrom(b, a) {
				continue
			}
			keep = append(keep, st)
		}
		inf.stores = keep
	}
	// an explicit zero value that everything else follows is the initial value
	for i, st := range inf.stores {
		c, ok := st.Val.(*ssa.Const)
		if !ok || len(inf.stores) < 2 || c.Value != nil && !zeroLike(constTerm(c)) {
			continue
		}
		first := true
		for j, o := range inf.stores {
			if i != j && !dominatesInstr(st, o) {
				first = false
			}
		}
		if first && st.Block() == a.Block() {
			inf.stores = append(append([]*ssa.Store(nil), inf.stores[:i]...), inf.stores[i+1:]...)
			inf.init = st
			break
		}
	}
	return inf
}

func loadedFrom(v ssa.Value) *ssa.Alloc {
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		a, _ := ld.X.(*ssa.Alloc)
		return a
	}
	return nil
}

// copiedOnlyFrom: every whole store to b stores a value loaded from a.
func copiedOnlyFrom(b, a *ssa.Alloc) bool {
	n := 0
	for _, r := range *b.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == b {
			n++
			if loadedFrom(st.Val) != a {
				return false
			}
		}
	}
	return n > 0
}

type allocInfo struct {
	stores        []*ssa.Store
	escapes       bool
	sliced        bool
	captured      bool
	flows         bool
	init          *ssa.Store // of the zero value
	closureWrites []*ssa.Function
}

func fvWritten(fn *ssa.Function, i int, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	fv := fn.FreeVars[i]
	for _, r := range *fv.Referrers() {
		switch y := r.(type) {
		case *ssa.Store:
			return true
		case *ssa.MakeClosure:
			for j, b := range y.Bindings {
				if b == fv && fvWritten(y.Fn.(*ssa.Function), j, seen) {
					return true
				}
			}
		case ssa.CallInstruction:
			return true
		}
	}
	return false
}

// structFields: the field names of a struct type, by the text of the type.
var structFields = map[string]string{}

// fieldTypes: the types of the fields that are structs or arrays.
var fieldTypes = map[string]string{}

// scanTag tells the column a variable is scanned from: "~query.index", where
// query is the field that keeps the prepared statement.
// "~*": it may be scanned from more than one.
func scanTag(a *ssa.Alloc) string {
	switch t := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(type) {
	case *types.Basic:
	case *types.Slice:
		if b, ok := t.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Uint8 {
			return ""
		}
	default:
		return ""
	}
	tag := ""
	for _, r := range *a.Referrers() {
		if c, ok := r.(ssa.CallInstruction); ok {
			for _, x := range c.Common().Args {
				if x == ssa.Value(a) {
					return "~*"
				}
			}
		}
	}
	for _, r := range *a.Referrers() {
		var mi ssa.Value
		switch y := r.(type) {
		case *ssa.MakeInterface:
			mi = y
		default:
			continue
		}
		for _, r := range *mi.Referrers() {
			st, ok := r.(*ssa.Store)
			if !ok {
				continue
			}
			ia, ok := st.Addr.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			c, ok := ia.Index.(*ssa.Const)
			if !ok || c.Value == nil {
				continue
			}
			arr, ok := ia.X.(*ssa.Alloc)
			if !ok {
				continue
			}
			for _, r := range *arr.Referrers() {
				sl, ok := r.(*ssa.Slice)
				if !ok {
					continue
				}
				for _, r := range *sl.Referrers() {
					call, ok := r.(*ssa.Call)
					if !ok {
						continue
					}
					g := call.Call.StaticCallee()
					if g == nil {
						continue
					}
					if n := fnName(g); n != "database/sql.Row.Scan" && n != "database/sql.Rows.Scan" {
						continue
					}
					q := scanQuery(call.Call.Args[0])
					if q == "" || tag != "" && tag != "~"+q+"."+c.Value.ExactString() {
						return "~*"
					}
					tag = "~" + q + "." + c.Value.ExactString()
				}
			}
		}
	}
	return tag
}

func scanQuery(v ssa.Value) string {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		// a variable that is assigned once
		a, ok := u.X.(*ssa.Alloc)
		if !ok {
			return ""
		}
		v = nil
		for _, r := range *a.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
				if c, ok := st.Val.(*ssa.Const); ok && c.Value == nil {
					continue
				}
				if v != nil {
					return ""
				}
				v = st.Val
			}
		}
	}
	if x, ok := v.(*ssa.Extract); ok && x.Index == 0 {
		v = x.Tuple
	}
	c, ok := v.(*ssa.Call)
	if !ok || c.Call.StaticCallee() == nil || len(c.Call.Args) == 0 {
		return ""
	}
	switch fnName(c.Call.StaticCallee()) {
	case "database/sql.Stmt.QueryRow", "database/sql.Stmt.Query":
	default:
		return ""
	}
	u, ok := c.Call.Args[0].(*ssa.UnOp)
	if !ok {
		return ""
	}
	if fa, ok := u.X.(*ssa.FieldAddr); ok {
		return fieldName(fa.X.Type(), fa.Field)
	}
	return ""
}

func (f *FnA) allocTerm(a *ssa.Alloc) *Term {
	t := a.Type().Underlying().(*types.Pointer).Elem()
	if st, ok := t.Underlying().(*types.Struct); ok && structFields[typeStr(t)] == "" {
		var ns []string
		for i := 0; i < st.NumFields(); i++ {
			ns = append(ns, objName(st.Field(i)))
			switch st.Field(i).Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				fieldTypes[typeStr(t)+"."+objName(st.Field(i))] = typeStr(st.Field(i).Type())
			}
		}
		sort.Strings(ns)
		structFields[typeStr(t)] = "." + strings.Join(ns, ".")
	}
	inf := f.allocInfo(a)
	if len(inf.stores) == 1 && !inf.escapes && len(inf.closureWrites) == 0 {
		_, zero := inf.stores[0].Val.(*ssa.Const)
		agg := false
		switch t.Underlying().(type) {
		case *types.Struct, *types.Array:
			agg = true
		}
		if !zero || !inf.sliced && !agg {
			if inf.stores[0].Val != ssa.Value(a) && !(agg && changedCopy(a, inf.stores[0])) {
				return f.term(inf.stores[0].Val)
			}
		}
	}
	if b, _ := f.copyOf(a, true); b != nil {
		return f.term(b)
	}
	if x := f.partOf(a); x != nil {
		return f.term(x)
	}
	if len(inf.stores) == 1 {
		// value receiver / parameter spill stays the parameter
		if p, ok := inf.stores[0].Val.(*ssa.Parameter); ok && len(inf.closureWrites) == 0 {
			return f.term(p)
		}
	}
	return mk("alloc", typeStr(t)+scanTag(a), uniq())
}

// changedCopy: the local starts as a copy of what a pointer points to, and
// fields of it are stored to later: it is not the original any more.
func changedCopy(a *ssa.Alloc, st *ssa.Store) bool {
	ld, ok := st.Val.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return false
	}
	switch ld.X.(type) {
	case *ssa.Parameter, *ssa.UnOp, *ssa.Call, *ssa.Extract, *ssa.Phi:
	default:
		return false
	}
	var written func(v ssa.Value) bool
	written = func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch y := r.(type) {
			case *ssa.Store:
				if y.Addr == v && y != st {
					return true
				}
			case *ssa.FieldAddr:
				if written(y) {
					return true
				}
			}
		}
		return false
	}
	return written(a)
}

// partOf: the field of a new object that a local struct or array becomes at
// its last use.
func (f *FnA) partOf(a *ssa.Alloc) *ssa.FieldAddr {
	switch a.Type().Underlying().(*types.Pointer).Elem().Underlying().(type) {
	case *types.Struct, *types.Array:
	default:
		return nil
	}
	var ld *ssa.UnOp
	for _, r := range *a.Referrers() {
		if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
			if ld != nil {
				return nil
			}
			ld = u
		}
	}
	if ld == nil || len(*ld.Referrers()) != 1 {
		return nil
	}
	st, ok := (*ld.Referrers())[0].(*ssa.Store)
	if !ok || st.Val != ssa.Value(ld) {
		return nil
	}
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok {
		return nil
	}
	root := ssa.Value(fa)
	for {
		x, ok := root.(*ssa.FieldAddr)
		if !ok {
			break
		}
		root = x.X
	}
	if b, ok := root.(*ssa.Alloc); !ok || b == a {
		return nil
	}
	// nothing happens to the local afterwards
	var before func(v ssa.Value, d int) bool
	before = func(v ssa.Value, d int) bool {
		if d > 6 {
			return false
		}
		for _, r := range *v.Referrers() {
			switch y := r.(type) {
			case *ssa.DebugRef:
			case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice:
				if !before(r.(ssa.Value), d+1) {
					return false
				}
			case *ssa.Store:
				if y.Val == v || !dominatesInstr(y, ld) && !earlier(y, ld) {
					return false
				}
			case *ssa.UnOp:
				if y != ld && !dominatesInstr(y, ld) && !earlier(y, ld) {
					return false
				}
			case *ssa.Call:
				if !dominatesInstr(y, ld) && !earlier(y, ld) {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	if !before(a, 0) || !afresh(a, ld) {
		return nil
	}
	return fa
}

// afresh: if ld is done again, then with a new a.
func afresh(a *ssa.Alloc, ld *ssa.UnOp) bool {
	for _, s := range ld.Block().Succs {
		if blockReaches(s, ld.Block()) {
			return a.Block() == ld.Block() || blockReaches(s, a.Block())
		}
	}
	return true
}

// earlier: a is not reached again from b.
func earlier(a, b ssa.Instruction) bool {
	return a.Block() != b.Block() && !blockReaches(b.Block(), a.Block())
}

func dominatesInstr(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, i := range a.Block().Instrs {
			if i == a {
				return true
			}
			if i == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

func (f *FnA) load(x *ssa.UnOp) *Term {
	switch a := x.X.(type) {
	case *ssa.Alloc:
		inf := f.allocInfo(a)
		if len(inf.stores) >= 1 && len(inf.closureWrites) == 0 {
			if len(inf.stores) == 1 || inf.escapes {
				return f.term(a)
			}
			vals, ok := f.reach(x, a)
			if ok {
				var ts []*Term
				for _, v := range vals {
					if v.val == nil {
						ts = append(ts, mk("c", "zero:"+typeStr(x.Type()), 0))
					} else {
						ts = append(ts, f.term(v.val))
					}
				}
				return mkPhi(ts)
			}
		}
		return f.term(a)
	case *ssa.FieldAddr:
		// forward the only, dominating store to a field of a local
		if al, ok := a.X.(*ssa.Alloc); ok {
			if t := f.fieldOf(al, a.Field, x, 0); t != nil {
				return t
			}
		} else if t := f.justStored(a, x); t != nil {
			return t
		}
	}
	return f.term(x.X)
}

// justStored: the value the same field was given before in the same block,
// with nothing in between that could change it.
func (f *FnA) justStored(fa *ssa.FieldAddr, ld *ssa.UnOp) *Term {
	own := false
	for _, r := range *ld.Referrers() {
		switch r.(type) {
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
		default:
			own = true // the value itself is the field
		}
	}
	is := ld.Block().Instrs
	i := len(is) - 1
	for i >= 0 && is[i] != ssa.Instruction(ld) {
		i--
	}
	for i--; i >= 0; i-- {
		switch y := is[i].(type) {
		case *ssa.Store:
			sa, ok := y.Addr.(*ssa.FieldAddr)
			if !ok {
				if _, local := y.Addr.(*ssa.Alloc); local {
					continue
				}
				return nil
			}
			if fieldName(sa.X.Type(), sa.Field) != fieldName(fa.X.Type(), fa.Field) {
				continue
			}
			if f.term(sa.X) != f.term(fa.X) {
				return nil
			}
			if own && !stepOf(y) {
				return nil
			}
			return f.term(y.Val)
		case ssa.CallInstruction, *ssa.RunDefers, *ssa.Select, *ssa.Send:
			return nil
		}
	}
	return nil
}

// stepOf: the store changes a field by an amount (x.f += n).
func stepOf(st *ssa.Store) bool {
	b, ok := st.Val.(*ssa.BinOp)
	if !ok {
		return false
	}
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	for _, o := range []ssa.Value{b.X, b.Y} {
		if u, ok := o.(*ssa.UnOp); ok && u.Op == token.MUL {
			if g, ok := u.X.(*ssa.FieldAddr); ok && g.X == fa.X && g.Field == fa.Field {
				return true
			}
		}
	}
	return false
}

// fieldOf: the value of a field of a local struct, nil if not known.
func (f *FnA) fieldOf(al *ssa.Alloc, field int, at ssa.Instruction, d int) *Term {
	var only *ssa.Store
	n := 0
	for _, r := range *al.Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok || fa.Field != field {
			continue
		}
		for _, rr := range *fa.Referrers() {
			switch st := rr.(type) {
			case *ssa.Store:
				if st.Addr == fa {
					n++
					only = st
				}
			case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr:
			case *ssa.Slice:
				n += 2
			default:
				n += 2
			}
		}
	}
	if n == 1 && dominatesInstr(only, at) && !f.allocInfo(al).escapes {
		return f.term(only.Val)
	}
	if n == 0 && d < 5 {
		// a copy of another local
		if b, ld := f.copyOf(al, false); b != nil && !f.allocInfo(al).escapes {
			return f.fieldOf(b, field, ld, d+1)
		}
	}
	return nil
}

// copyOf: the local that a local is a copy of.
func (f *FnA) copyOf(al *ssa.Alloc, whole bool) (*ssa.Alloc, ssa.Instruction) {
	inf := f.allocInfo(al)
	if len(inf.stores) != 1 || whole && len(inf.closureWrites) > 0 {
		return nil, nil
	}
	ld, ok := inf.stores[0].Val.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return nil, nil
	}
	b, ok := ld.X.(*ssa.Alloc)
	if !ok || b == al || len(f.allocInfo(b).closureWrites) > 0 {
		return nil, nil
	}
	for _, r := range *b.Referrers() {
		if r == ssa.Instruction(ld) || r.Block() != ld.Block() || !dominatesInstr(ld, r) {
			continue
		}
		switch y := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef, *ssa.Return:
			continue
		case *ssa.Store:
			if loadedFrom(y.Val) == al {
				continue
			}
		case *ssa.FieldAddr:
			written := false
			for _, rr := range *y.Referrers() {
				if _, ok := rr.(*ssa.UnOp); !ok {
					written = true
				}
			}
			if !written {
				continue
			}
		}
		return nil, nil
	}
	return b, ld
}

type reachDef struct {
	val   ssa.Value // nil: zero value at entry
	block *ssa.BasicBlock
	st    *ssa.Store
}

// reach computes the stores that may reach a load of a local that go/ssa did
// not lift to a register.
func (f *FnA) reach(ld ssa.Instruction, a *ssa.Alloc) ([]reachDef, bool) {
	if r, ok := f.reachMemo[ld]; ok {
		return r, r != nil
	}
	var out []reachDef
	seen := map[*ssa.BasicBlock]bool{}
	have := map[*ssa.Store]bool{}
	zero := false
	var walk func(b *ssa.BasicBlock, from int)
	walk = func(b *ssa.BasicBlock, from int) {
		for i := from; i >= 0; i-- {
			switch y := b.Instrs[i].(type) {
			case *ssa.Store:
				if y.Addr == a {
					if !have[y] {
						have[y] = true
						out = append(out, reachDef{y.Val, b, y})
					}
					return
				}
			case *ssa.Alloc:
				if y == a {
					if !zero {
						zero = true
						out = append(out, reachDef{nil, b, nil})
					}
					return
				}
			}
		}
		if len(b.Preds) == 0 {
			if !zero {
				zero = true
				out = append(out, reachDef{nil, b, nil})
			}
			return
		}
		for _, p := range b.Preds {
			if !seen[p] {
				seen[p] = true
				walk(p, len(p.Instrs)-1)
			}
		}
	}
	b := ld.Block()
	pos := 0
	for i, in := range b.Instrs {
		if in == ld {
			pos = i
		}
	}
	walk(b, pos-1)
	f.reachMemo[ld] = out
	return out, true
}

// calleeOf resolves the called function, looking through locally bound closures.
func (f *FnA) calleeOf(cc *ssa.CallCommon) (*ssa.Function, []*Term) {
	if cc.IsInvoke() {
		return nil, nil
	}
	if g := cc.StaticCallee(); g != nil {
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			var bs []*Term
			for _, b := range mc.Bindings {
				bs = append(bs, f.term(b))
			}
			return g, bs
		}
		return g, nil
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil, nil
	}
	t := f.term(cc.Value)
	if (t.Op == "closure" || t.Op == "fn") && t.fn != nil {
		return t.fn, t.A
	}
	return nil, nil
}

func ifaceMethodName(cc *ssa.CallCommon) string {
	m := cc.Method
	t := cc.Value.Type()
	pk := ""
	if m.Pkg() != nil {
		pk = shortPath(m.Pkg().Path()) + "."
	}
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			pk = shortPath(n.Obj().Pkg().Path()) + "."
		} else {
			pk = ""
		}
		return pk + objName(n.Obj()) + "." + m.Name()
	}
	if a, ok := t.(*types.Alias); ok {
		return pk + a.Obj().Name() + "." + m.Name()
	}
	return pk + "iface." + m.Name()
}

func (f *FnA) callArgs(cc *ssa.CallCommon) []*Term {
	var as []*Term
	if cc.IsInvoke() {
		as = append(as, f.term(cc.Value))
	}
	for _, a := range cc.Args {
		as = append(as, f.term(a))
	}
	return as
}

// rawCall is the opaque event term of a call.
func (f *FnA) rawCall(cc *ssa.CallCommon, res int) *Term {
	as := f.callArgs(cc)
	if cc.IsInvoke() {
		n := ifaceMethodName(cc)
		if n == "hash.Hash.Sum" && as[len(as)-1].Op == "list" && len(as[len(as)-1].A) == 0 {
			as[len(as)-1] = mk("c", "nil", 0)
		}
		return mk("call", n, res, as...)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" && len(as) == 2 {
			return mkAppend(as[0], as[1])
		}
		return mk("call", b.Name(), res, as...)
	}
	if g, _ := f.calleeOf(cc); g != nil {
		g, as = unbound(f, cc, g, as)
		n := fnName(g)
		if n == "database/sql.Tx.Stmt" && res == 0 && len(as) == 2 {
			return mk("txstmt", "", 0, as[1], as[0])
		}
		return mk("call", n, res, as...)
	}
	// a function kept in a field or a variable
	switch v := cc.Value.(type) {
	case *ssa.Parameter:
		return mk("call", "apply", res, append([]*Term{f.term(v)}, as...)...)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			switch x := v.X.(type) {
			case *ssa.FieldAddr:
				return mk("call", fieldOwner(x.X.Type())+"."+fieldName(x.X.Type(), x.Field), res, append([]*Term{f.term(x.X)}, as...)...)
			case *ssa.Global:
				if x.Pkg != nil {
					return mk("call", shortPath(x.Pkg.Pkg.Path())+"."+objName(x.Object()), res, as...)
				}
			}
		}
	case *ssa.Field:
		return mk("call", fieldOwner(v.X.Type())+"."+fieldName(v.X.Type(), v.Field), res, append([]*Term{f.term(v.X)}, as...)...)
	}
	return mk("call", "dyn", res, append([]*Term{f.term(cc.Value)}, as...)...)
}

// mkAppend: what is appended to nothing is a copy of it, and two lists written
// out are one list.
func mkAppend(a, x *Term) *Term {
	empty := a.Op == "c" && a.Sym == "nil" || a.Op == "list" && len(a.A) == 0
	switch {
	case empty && (x.Op == "list" || x.Op == "call"):
		return x
	case empty:
		return mk("call", "append", 0, mk("c", "nil", 0), x)
	case a.Op == "list" && x.Op == "list":
		return mk("list", "", 0, append(append([]*Term(nil), a.A...), x.A...)...)
	}
	return mk("call", "append", 0, a, x)
}

// unbound sees through method-value wrappers.
func unbound(f *FnA, cc *ssa.CallCommon, g *ssa.Function, as []*Term) (*ssa.Function, []*Term) {
	return g, as
}

func (f *FnA) callTerm(cc *ssa.CallCommon, res int, at ssa.Instruction) *Term {
	if g, bs := f.calleeOf(cc); g != nil && f.A.clear(f.f, g) {
		if ga := f.A.fn(g); ga != nil && ga.done {
			rt := ga.retTerm(res)
			if rt != nil {
				return f.substFor(cc, ga, bs).apply(rt)
			}
		}
	}
	t := f.rawCall(cc, res)
	if t.Sym == "len" && len(t.A) == 1 && t.Op == "call" {
		return mkLen(t.A[0])
	}
	if x := f.sprintfCat(cc, t); x != nil {
		return x
	}
	if x, p := boolTerm(t); x != t && p {
		return x
	}
	return t
}
