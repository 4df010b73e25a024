package main

import (
	_ "embed"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Secret flow: no passphrase, private or symmetric key, and no message
// content, may reach the log, an error value, an argument vector, the
// environment or the standard streams.
//
// Every value carries a set of labels: one for "secret" and one per parameter
// of its function. Functions are summarised by the labels of their results, of
// what they write through their pointer parameters, and of what they pass to a
// sink; the summaries are computed to a fixpoint over the whole module.

//go:embed secrets.txt
var secretsTxt string

const lSecret = uint64(1) << 63

type secretSpec struct {
	param  map[string]map[int]bool
	public map[string]map[int]bool
	result map[string]map[int]bool
	field  map[string]bool
}

func loadSecrets() *secretSpec {
	s := &secretSpec{map[string]map[int]bool{}, map[string]map[int]bool{}, map[string]map[int]bool{}, map[string]bool{}}
	for _, l := range strings.Split(secretsTxt, "\n") {
		w := strings.Fields(l)
		if len(w) == 0 || l[0] == '#' {
			continue
		}
		switch w[0] {
		case "field":
			s.field[w[1]] = true
		case "param", "result", "public":
			m := s.param
			if w[0] == "public" {
				m = s.public
			}
			if w[0] == "result" {
				m = s.result
			}
			i, err := strconv.Atoi(w[2])
			if err != nil {
				panic(l)
			}
			if m[w[1]] == nil {
				m[w[1]] = map[int]bool{}
			}
			m[w[1]][i] = true
		default:
			panic(l)
		}
	}
	return s
}

type memKey struct {
	root ssa.Value
	fld  int
}

type sinkHit struct {
	what string
	pos  token.Pos
	via  string
}

type taintFn struct {
	f    *ssa.Function
	val  map[ssa.Value]uint64
	mem  map[memKey]uint64
	res  []uint64         // labels of the results
	out  map[int]uint64   // labels written through pointer parameter i
	sink map[int]*sinkHit // parameter i reaches a sink
	why  map[ssa.Value]string
}

type taint struct {
	c     *Ctx
	P     *Program
	spec  *secretSpec
	fns   map[*ssa.Function]*taintFn
	impls map[string][]*ssa.Function
	ch    bool
	hits  map[string]*Obl
	sinks int
}

// carriesSecret: only text and bytes can leak.
func carriesSecret(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.Byte || u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil
	case *types.Pointer:
		return carriesSecret(u.Elem())
	case *types.Slice:
		return carriesSecret(u.Elem())
	case *types.Array:
		return carriesSecret(u.Elem())
	case *types.Interface:
		return !isErrorType(t)
	case *types.Struct:
		return true
	case *types.Map:
		return carriesSecret(u.Elem()) || carriesSecret(u.Key())
	case *types.Tuple:
		return true
	case *types.Chan:
		return carriesSecret(u.Elem())
	}
	return false
}

// passOn: functions outside the module whose results (and first argument, for
// the writers) carry what they are given.
func passOn(n string) (result bool, into int) {
	into = -1
	switch n {
	case "append", "copy", "bytes.Buffer.Write", "bytes.Buffer.WriteString", "strings.Builder.WriteString", "strings.Builder.Write",
		"encoding/hex.Encode", "encoding/hex.Decode", "encoding/binary.Write", "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString", "io.Copy":
		return n == "append", 0
	case "io.ReadFull", "io.ReadAtLeast", "bytes.Buffer.Read", "golang.org/x/crypto/curve25519.ScalarMult":
		return false, 1
	}
	for _, p := range []string{"bytes.", "strings.", "strconv.", "encoding/", "bufio.", "io.ReadAll", "io/ioutil.ReadAll", "io.TeeReader", "io.MultiReader", "io.LimitReader", "golang.org/x/crypto/pbkdf2.", "golang.org/x/crypto/hkdf.", "golang.org/x/crypto/scrypt.", "fmt.Sprint", "fmt.Append", "net/url."} {
		if strings.HasPrefix(n, p) {
			if n == "bytes.Equal" || n == "bytes.Compare" || strings.HasPrefix(n, "encoding/binary.Read") {
				return false, -1
			}
			return true, -1
		}
	}
	return false, -1
}

// leakSink: where nothing secret may go, and from which argument on.
func leakSink(n string) (string, int) {
	switch {
	case strings.HasPrefix(n, "log.") && n != "log.Init" && n != "log.SetLogWriter" && n != "log.UseLogger",
		strings.HasPrefix(n, "github.com/cihub/seelog."):
		return "the log", 0
	case n == "fmt.Errorf" || n == "errors.New" || strings.HasPrefix(n, "github.com/agl/ed25519.x"):
		return "an error value", 0
	case n == "fmt.Print" || n == "fmt.Printf" || n == "fmt.Println" || n == "print" || n == "println":
		return "the standard output", 0
	case n == "os/exec.Command" || n == "os/exec.CommandContext" || n == "os.StartProcess" || n == "syscall.Exec":
		return "an argument vector", 0
	case n == "os.Setenv" || n == "syscall.Setenv":
		return "the environment", 0
	case n == "net/http.Get" || n == "net/http.NewRequest" || n == "net/url.Parse":
		return "a URL", 0
	case n == "panic":
		return "a panic message", 0
	}
	return "", 0
}

func (c *Ctx) SecretFlow(rule string) {
	t := &taint{c: c, P: c.P, spec: loadSecrets(), fns: map[*ssa.Function]*taintFn{}, impls: map[string][]*ssa.Function{}, hits: map[string]*Obl{}}
	for _, fn := range c.P.Fns {
		if fn.Blocks == nil || fnPkgName(fnName(fn)) == "log" {
			continue
		}
		if recv := fn.Signature.Recv(); recv != nil && fn.Parent() == nil {
			t.impls[fn.Name()] = append(t.impls[fn.Name()], fn)
		}
		t.fns[fn] = &taintFn{f: fn, val: map[ssa.Value]uint64{}, mem: map[memKey]uint64{}, out: map[int]uint64{}, sink: map[int]*sinkHit{}, why: map[ssa.Value]string{}, res: make([]uint64, fn.Signature.Results().Len())}
	}
	for i := 0; i < 30; i++ {
		t.ch = false
		for _, fn := range c.P.Fns {
			if tf := t.fns[fn]; tf != nil {
				t.run(tf)
			}
		}
		if !t.ch {
			break
		}
	}
	n := 0
	for _, fn := range c.P.Fns {
		if t.fns[fn] == nil {
			continue
		}
		n++
		k := fnName(fn)
		if o := t.hits[k]; o != nil {
			c.add(rule, o.Construct, o.Where, false, o.Detail)
		} else if fn.Parent() == nil {
			c.add(rule, k+" leaks no secret", c.P.Pos(fn.Pos()), true, "")
		}
	}
	c.Notes = append(c.Notes, fmt.Sprintf("secret flow: %d functions", n))
}

func (t *taint) set(tf *taintFn, v ssa.Value, l uint64, why string) {
	if l == 0 || tf.val[v]&l == l {
		return
	}
	if l&lSecret != 0 && tf.why[v] == "" {
		tf.why[v] = why
	}
	tf.val[v] |= l
	t.ch = true
}

// addr resolves an address to its root object and first field.
func addr(v ssa.Value) memKey {
	fld := -1
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			fld = x.Field
			v = x.X
			continue
		case *ssa.IndexAddr:
			v = x.X
			continue
		case *ssa.Slice:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.Convert:
			v = x.X
			continue
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.UnOp:
			if x.Op == token.MUL {
				v = x.X
				continue
			}
		}
		return memKey{v, fld}
	}
}

func (t *taint) store(tf *taintFn, a ssa.Value, l uint64, why string) {
	if l == 0 {
		return
	}
	k := addr(a)
	if _, ok := k.root.(*ssa.Global); ok {
		return
	}
	if tf.mem[k]&l != l {
		tf.mem[k] |= l
		if tf.why[k.root] == "" {
			tf.why[k.root] = why
		}
		t.ch = true
	}
	if p, ok := k.root.(*ssa.Parameter); ok {
		for i, q := range tf.f.Params {
			if q == p && tf.out[i]&l != l && k.fld < 0 {
				tf.out[i] |= l
				t.ch = true
			}
		}
	}
}

func (t *taint) load(tf *taintFn, a ssa.Value) uint64 {
	k := addr(a)
	l := tf.mem[k]
	if k.fld >= 0 {
		l |= tf.mem[memKey{k.root, -1}]
	} else {
		for i := 0; i < 64; i++ {
			if m, ok := tf.mem[memKey{k.root, i}]; ok {
				l |= m
			}
		}
	}
	return l
}

func (t *taint) get(tf *taintFn, v ssa.Value) (l uint64) {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return 0
	}
	l = tf.val[v]
	if _, ok := v.Type().Underlying().(*types.Pointer); ok {
		l |= t.load(tf, v)
	} else if _, ok := v.Type().Underlying().(*types.Slice); ok {
		l |= t.load(tf, v)
	}
	return l
}

func (t *taint) whyOf(tf *taintFn, v ssa.Value) string {
	if w := tf.why[v]; w != "" {
		return w
	}
	return tf.why[addr(v).root]
}

func (t *taint) run(tf *taintFn) {
	fn := tf.f
	name := fnName(fn)
	for i, p := range fn.Params {
		if i < 62 && carriesSecret(p.Type()) {
			t.set(tf, p, 1<<uint(i), "")
		}
		if t.spec.param[name][i] {
			t.set(tf, p, lSecret, "parameter "+p.Name()+" of "+name)
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			t.step(tf, in)
		}
	}
}

func (t *taint) step(tf *taintFn, in ssa.Instruction) {
	flow := func(v ssa.Value, from ...ssa.Value) {
		if !carriesSecret(v.Type()) {
			return
		}
		for _, x := range from {
			t.set(tf, v, t.get(tf, x), t.whyOf(tf, x))
		}
	}
	switch x := in.(type) {
	case *ssa.Phi:
		flow(x, x.Edges...)
	case *ssa.BinOp:
		flow(x, x.X, x.Y)
	case *ssa.Convert:
		flow(x, x.X)
	case *ssa.ChangeType:
		flow(x, x.X)
	case *ssa.ChangeInterface:
		flow(x, x.X)
	case *ssa.MakeInterface:
		flow(x, x.X)
		if f := t.shows(x.X.Type(), true, 0); f != "" {
			t.set(tf, x, lSecret, "field "+f)
		}
	case *ssa.SliceToArrayPointer:
		flow(x, x.X)
	case *ssa.TypeAssert:
		flow(x, x.X)
	case *ssa.Slice:
		flow(x, x.X)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if carriesSecret(x.Type()) {
				l, w := t.callRes(tf, c.Common(), x.Index)
				t.set(tf, x, l, w)
			}
		} else {
			flow(x, x.Tuple)
		}
	case *ssa.Range:
		flow(x, x.X)
	case *ssa.Next:
		flow(x, x.Iter)
	case *ssa.Lookup:
		flow(x, x.X)
	case *ssa.Index:
		flow(x, x.X)
	case *ssa.IndexAddr:
		flow(x, x.X)
	case *ssa.FieldAddr:
		t.field(tf, x, x.X, x.Field)
		if k := addr(x); !isParamLike(k.root) && !moduleStruct(x.X.Type()) {
			flow(x, x.X)
		}
	case *ssa.Field:
		t.field(tf, x, x.X, x.Field)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			if carriesSecret(x.Type()) {
				t.set(tf, x, t.load(tf, x.X), t.whyOf(tf, x.X))
				if _, isStruct := x.Type().Underlying().(*types.Struct); !isStruct {
					t.set(tf, x, tf.val[x.X], t.whyOf(tf, x.X))
				}
			}
		case token.ARROW:
			flow(x, x.X)
		}
	case *ssa.Store:
		if carriesSecret(x.Val.Type()) {
			t.store(tf, x.Addr, t.get(tf, x.Val), t.whyOf(tf, x.Val))
		}
		t.fieldStoreSink(tf, x)
	case *ssa.MapUpdate:
		t.store(tf, x.Map, t.get(tf, x.Value)|t.get(tf, x.Key), t.whyOf(tf, x.Value))
		t.set(tf, x.Map, t.get(tf, x.Value)|t.get(tf, x.Key), t.whyOf(tf, x.Value))
	case *ssa.MakeClosure:
		// free variables see what the enclosing function put there
		if g, ok := x.Fn.(*ssa.Function); ok {
			if ga := t.fns[g]; ga != nil {
				for i, fv := range g.FreeVars {
					if t.get(tf, x.Bindings[i])&lSecret != 0 {
						t.set(ga, fv, lSecret, t.whyOf(tf, x.Bindings[i]))
					}
				}
			}
		}
	case *ssa.Panic:
		t.check(tf, x.X, "a panic message", x.Pos(), "")
	case *ssa.Return:
		for i, r := range x.Results {
			if !carriesSecret(r.Type()) || t.spec.public[fnName(tf.f)][i] {
				continue
			}
			l := t.get(tf, r)
			if tf.res[i]&l != l {
				if os.Getenv("MC_TAINT") != "" && l&lSecret != 0 && tf.res[i]&lSecret == 0 {
					fmt.Println("secret result", fnName(tf.f), i, t.whyOf(tf, r))
				}
				tf.res[i] |= l
				t.ch = true
			}
		}
	case ssa.CallInstruction:
		t.call(tf, x)
	}
}

// shows: printing a value of the type prints this secret field.
func (t *taint) shows(ty types.Type, top bool, d int) string {
	if p, ok := ty.Underlying().(*types.Pointer); ok && top {
		ty = p.Elem()
	}
	if !moduleStruct(ty) || d > 4 {
		return ""
	}
	st, ok := ty.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		f := typeFieldName(ty, i)
		ft := st.Field(i).Type()
		if _, ptr := ft.Underlying().(*types.Pointer); ptr {
			continue // printed as an address
		}
		if t.spec.field[f] {
			return f
		}
		if r := t.shows(ft, false, d+1); r != "" {
			return r
		}
	}
	return ""
}

// moduleStruct: its secret fields are listed one by one.
func moduleStruct(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && inModule(n.Obj().Pkg())
}

func isParamLike(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		return true
	}
	return false
}

func (t *taint) field(tf *taintFn, v ssa.Value, base ssa.Value, i int) {
	f := typeFieldName(base.Type(), i)
	if t.spec.field[f] {
		t.set(tf, v, lSecret, "field "+f)
	}
}

func typeFieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok {
		return ""
	}
	pk := ""
	if n.Obj().Pkg() != nil {
		pk = shortPath(n.Obj().Pkg().Path()) + "."
	}
	return pk + objName(n.Obj()) + "." + fieldName(t, i)
}

// fieldStoreSink: the fields that become argv and environment.
func (t *taint) fieldStoreSink(tf *taintFn, x *ssa.Store) {
	fa, ok := x.Addr.(*ssa.FieldAddr)
	if !ok {
		return
	}
	switch typeFieldName(fa.X.Type(), fa.Field) {
	case "os/exec.Cmd.Args", "os/exec.Cmd.Env", "os/exec.Cmd.Path", "os/exec.Cmd.Dir":
		t.check(tf, x.Val, "the arguments or environment of a child process", x.Pos(), "")
	}
}

func (t *taint) check(tf *taintFn, v ssa.Value, what string, pos token.Pos, via string) {
	if !carriesSecret(v.Type()) {
		return
	}
	l := t.get(tf, v)
	if l&lSecret != 0 {
		k := fnName(tf.f)
		if t.hits[k] == nil {
			t.hits[k] = &Obl{Construct: k + " leaks no secret", Where: t.P.Pos(pos), Detail: fmt.Sprintf("%s passes a secret (%s) to %s at %s%s", k, t.whyOf(tf, v), what, t.P.Pos(pos), via)}
		}
	}
	for i := range tf.f.Params {
		if i < 62 && l&(1<<uint(i)) != 0 && tf.sink[i] == nil {
			tf.sink[i] = &sinkHit{what, pos, via}
			t.ch = true
		}
	}
}

func (t *taint) callees(cc *ssa.CallCommon) []*ssa.Function {
	if cc.IsInvoke() {
		var out []*ssa.Function
		it, ok := cc.Value.Type().Underlying().(*types.Interface)
		if !ok {
			return nil
		}
		for _, g := range t.impls[cc.Method.Name()] {
			if types.Implements(g.Signature.Recv().Type(), it) {
				out = append(out, g)
			}
		}
		return out
	}
	if g := cc.StaticCallee(); g != nil {
		return []*ssa.Function{g}
	}
	return nil
}

func callArgVals(cc *ssa.CallCommon) []ssa.Value {
	if cc.IsInvoke() {
		return append([]ssa.Value{cc.Value}, cc.Args...)
	}
	return cc.Args
}

func taintCallee(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return ifaceMethodName(cc)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	if g := cc.StaticCallee(); g != nil {
		return fnName(g)
	}
	return "?"
}

// callRes gives the labels of one result.
func (t *taint) callRes(tf *taintFn, cc *ssa.CallCommon, res int) (uint64, string) {
	n := taintCallee(cc)
	if t.spec.result[n][res] {
		return lSecret, "result of " + n
	}
	args := callArgVals(cc)
	var l uint64
	why := ""
	inMod := false
	for _, g := range t.callees(cc) {
		ga := t.fns[g]
		if ga == nil {
			continue
		}
		inMod = true
		if t.spec.result[fnName(g)][res] {
			return lSecret, "result of " + fnName(g)
		}
		if res >= len(ga.res) {
			continue
		}
		r := ga.res[res]
		if r&lSecret != 0 {
			l |= lSecret
			why = "result of " + fnName(g)
		}
		for i, a := range args {
			if i < 62 && r&(1<<uint(i)) != 0 {
				la := t.get(tf, a)
				l |= la
				if la&lSecret != 0 && why == "" {
					why = t.whyOf(tf, a)
				}
			}
		}
	}
	if inMod {
		return l, why
	}
	if r, _ := passOn(n); r {
		for _, a := range args {
			if carriesSecret(a.Type()) {
				la := t.get(tf, a)
				l |= la
				if la&lSecret != 0 && why == "" {
					why = t.whyOf(tf, a)
				}
			}
		}
	}
	return l, why
}

func (t *taint) call(tf *taintFn, in ssa.CallInstruction) {
	cc := in.Common()
	n := taintCallee(cc)
	args := callArgVals(cc)
	if v, ok := in.(*ssa.Call); ok && cc.Signature().Results().Len() == 1 && carriesSecret(v.Type()) {
		l, w := t.callRes(tf, cc, 0)
		t.set(tf, v, l, w)
	}
	if what, from := leakSink(n); what != "" {
		for i, a := range args {
			if i >= from {
				t.check(tf, a, what, in.Pos(), "")
			}
		}
		return
	}
	inMod := false
	for _, g := range t.callees(cc) {
		ga := t.fns[g]
		if ga == nil {
			continue
		}
		inMod = true
		for i, h := range ga.sink {
			if i < len(args) {
				t.check(tf, args[i], h.what, in.Pos(), fmt.Sprintf(", through %s at %s%s", fnName(g), t.P.Pos(h.pos), h.via))
			}
		}
		for i, l := range ga.out {
			if i >= len(args) {
				continue
			}
			var r uint64
			why := ""
			if l&lSecret != 0 {
				r, why = lSecret, fnName(g)
			}
			for j, a := range args {
				if j != i && j < 62 && l&(1<<uint(j)) != 0 {
					r |= t.get(tf, a)
					if why == "" {
						why = t.whyOf(tf, a)
					}
				}
			}
			t.store(tf, args[i], r, why)
		}
	}
	if inMod {
		return
	}
	if _, into := passOn(n); into >= 0 && into < len(args) {
		for j, a := range args {
			if j != into && carriesSecret(a.Type()) {
				t.store(tf, args[into], t.get(tf, a), t.whyOf(tf, a))
			}
		}
	}
}

// genSecrets prints the parameters and results that look secret by name (used
// once, to write secrets.txt; reviewed by hand).
func genSecrets(P *Program) {
	is := func(n string) bool {
		n = strings.ToLower(n)
		if strings.Contains(n, "hash") && !strings.Contains(n, "rootkeyhash") || strings.Contains(n, "pub") || strings.Contains(n, "query") {
			return false
		}
		for _, s := range []string{"passphrase", "privkey", "privatekey", "priv", "secret", "rootkey", "chainkey", "messagekey", "walletkey", "plainmsg", "sendkey", "recvkey", "cryptokey", "hmackey", "mysecret", "oldowner"} {
			if strings.Contains(n, s) {
				return true
			}
		}
		return false
	}
	for _, fn := range P.Fns {
		if fn.Parent() != nil || fn.Synthetic != "" {
			continue
		}
		for i, p := range fn.Params {
			if is(p.Name()) && carriesSecret(p.Type()) {
				if _, st := derefStruct(p.Type()); !st {
					fmt.Printf("param %s %d %s %s\n", fnName(fn), i, p.Name(), p.Type())
				}
			}
		}
		rs := fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			if is(rs.At(i).Name()) || is(fn.Name()) && i == 0 {
				if _, st := derefStruct(rs.At(i).Type()); !st && carriesSecret(rs.At(i).Type()) {
					fmt.Printf("result %s %d %s %s\n", fnName(fn), i, rs.At(i).Name(), rs.At(i).Type())
				}
			}
		}
	}
	for _, p := range P.Pkgs {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			if st, ok := tn.Type().Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					f := st.Field(i)
					if is(f.Name()) && carriesSecret(f.Type()) {
						if _, s := derefStruct(f.Type()); !s {
							fmt.Printf("field %s %s\n", typeFieldName(tn.Type(), i), f.Type())
						}
					}
				}
			}
		}
	}
}

func derefStruct(t types.Type) (*types.Struct, bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}
