package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// The mapping of the characters of an identity is a function of one character
// that compares it with constants. It is decided cell by cell: the constants
// cut the characters into cells, within a cell every comparison has one
// outcome, so one path is taken and the result is a constant or the character
// at a fixed distance.

type runeCell struct {
	lo, hi int64
	img    int64 // image of lo
	same   bool  // the image of the cell moves with the character
	refuse bool  // an error is recorded
	ok     bool  // decided
}

type runeEval struct {
	f    *ssa.Function
	r    int64
	env  map[ssa.Value]int64
	cell [2]int64
}

// runeTable gives the cells of f, nil if f is not of the kind decided.
func runeTable(f *ssa.Function) []runeCell {
	if len(f.Params) != 1 || len(f.Blocks) == 0 {
		return nil
	}
	ks := map[int64]bool{}
	for i := int64(0); i < 256; i++ {
		ks[i] = true
	}
	var cs []int64
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				c, ok := (*op).(*ssa.Const)
				if !ok || c.Value == nil {
					continue
				}
				switch c.Value.Kind() {
				case constant.Int:
					if n, ok := constant.Int64Val(c.Value); ok && n > -unicode.MaxRune && n < 2*unicode.MaxRune {
						cs = append(cs, n)
					}
				case constant.String:
					for _, r := range constant.StringVal(c.Value) {
						cs = append(cs, int64(r))
					}
				}
			}
		}
	}
	if len(cs) > 300 {
		return nil
	}
	for _, a := range cs {
		for _, d := range append([]int64{0}, cs...) {
			for _, e := range []int64{-1, 0, 1} {
				ks[a+d+e] = true
				ks[a-d+e] = true
			}
		}
	}
	ks[unicode.MaxRune+1] = true
	var cut []int64
	for k := range ks {
		if k >= 0 && k <= unicode.MaxRune+1 {
			cut = append(cut, k)
		}
	}
	sort.Slice(cut, func(i, j int) bool { return cut[i] < cut[j] })
	var out []runeCell
	for i := 0; i+1 < len(cut); i++ {
		c := runeCell{lo: cut[i], hi: cut[i+1] - 1}
		a, ra, ok := evalRune(f, c.lo, c.hi)
		if ok {
			b, rb, okb := evalRune(f, c.hi, c.hi)
			c.ok = okb && ra == rb && (a == b || b-a == c.hi-c.lo)
			c.img, c.refuse, c.same = a, ra, a != b
		}
		out = append(out, c)
	}
	return out
}

// evalRune follows the only path the character can take.
func evalRune(f *ssa.Function, r, hi int64) (img int64, refuse, ok bool) {
	env := map[ssa.Value]int64{f.Params[0]: r}
	const some = int64(1) << 40 // a value that is not nil
	get := func(v ssa.Value) (int64, bool) {
		if c, isc := v.(*ssa.Const); isc {
			if c.Value == nil {
				return 0, true
			}
			switch c.Value.Kind() {
			case constant.Int:
				return constant.Int64Val(c.Value)
			case constant.Bool:
				if constant.BoolVal(c.Value) {
					return 1, true
				}
				return 0, true
			}
			return 0, false
		}
		n, ok := env[v]
		return n, ok
	}
	b2i := func(b bool) int64 {
		if b {
			return 1
		}
		return 0
	}
	str := func(v ssa.Value) (string, bool) {
		c, ok := v.(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.String {
			return "", false
		}
		return constant.StringVal(c.Value), true
	}
	b := f.Blocks[0]
	var prev *ssa.BasicBlock
	for steps := 0; steps < 2000; steps++ {
		var next *ssa.BasicBlock
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.DebugRef:
			case *ssa.Phi:
				for i, p := range b.Preds {
					if p == prev {
						if n, ok := get(x.Edges[i]); ok {
							env[x] = n
						}
						break
					}
				}
			case *ssa.BinOp:
				a, ok1 := get(x.X)
				c, ok2 := get(x.Y)
				if !ok1 || !ok2 {
					return 0, false, false
				}
				switch x.Op {
				case token.EQL:
					env[x] = b2i(a == c)
				case token.NEQ:
					env[x] = b2i(a != c)
				case token.LSS:
					env[x] = b2i(a < c)
				case token.LEQ:
					env[x] = b2i(a <= c)
				case token.GTR:
					env[x] = b2i(a > c)
				case token.GEQ:
					env[x] = b2i(a >= c)
				case token.ADD:
					env[x] = a + c
				case token.SUB:
					env[x] = a - c
				default:
					return 0, false, false
				}
			case *ssa.UnOp:
				switch x.Op {
				case token.NOT:
					a, ok := get(x.X)
					if !ok {
						return 0, false, false
					}
					env[x] = 1 - a
				case token.MUL:
					// what is read is opaque
				default:
					return 0, false, false
				}
			case *ssa.Convert:
				if n, ok := get(x.X); ok && narrowsNot(x) {
					env[x] = n
				}
			case *ssa.ChangeType:
				if n, ok := get(x.X); ok {
					env[x] = n
				}
			case *ssa.MakeInterface, *ssa.Alloc, *ssa.IndexAddr, *ssa.Slice, *ssa.FieldAddr:
				if _, ok := in.(*ssa.MakeInterface); ok {
					env[x.(ssa.Value)] = some
				}
			case *ssa.Call:
				g := x.Call.StaticCallee()
				if g == nil {
					return 0, false, false
				}
				switch n := fnName(g); n {
				case "fmt.Errorf", "errors.New":
					env[x] = some
				case "strings.ContainsRune", "strings.IndexRune", "strings.IndexByte":
					s, ok1 := str(x.Call.Args[0])
					c, ok2 := get(x.Call.Args[1])
					if !ok1 || !ok2 {
						return 0, false, false
					}
					if n == "strings.ContainsRune" {
						env[x] = b2i(strings.ContainsRune(s, rune(c)))
					} else {
						env[x] = int64(strings.IndexRune(s, rune(c)))
					}
				case "unicode.ToLower", "unicode.IsLower", "unicode.IsUpper", "unicode.IsDigit", "unicode.IsLetter":
					c, ok := get(x.Call.Args[0])
					if !ok || hi > 255 {
						return 0, false, false
					}
					switch n {
					case "unicode.ToLower":
						env[x] = int64(unicode.ToLower(rune(c)))
					case "unicode.IsLower":
						env[x] = b2i(unicode.IsLower(rune(c)))
					case "unicode.IsUpper":
						env[x] = b2i(unicode.IsUpper(rune(c)))
					case "unicode.IsDigit":
						env[x] = b2i(unicode.IsDigit(rune(c)))
					case "unicode.IsLetter":
						env[x] = b2i(unicode.IsLetter(rune(c)))
					}
				default:
					return 0, false, false
				}
			case *ssa.Store:
				// an error left behind
				switch x.Addr.(type) {
				case *ssa.FreeVar, *ssa.Global:
					if n, ok := get(x.Val); !ok || !isErrorType(x.Val.Type()) {
						return 0, false, false
					} else if n == some {
						refuse = true
					} else {
						return 0, false, false
					}
				}
			case *ssa.If:
				n, ok := get(x.Cond)
				if !ok {
					return 0, false, false
				}
				next = b.Succs[1]
				if n != 0 {
					next = b.Succs[0]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				if len(x.Results) != 1 {
					return 0, false, false
				}
				n, ok := get(x.Results[0])
				return n, refuse, ok
			default:
				return 0, false, false
			}
		}
		if next == nil {
			return 0, false, false
		}
		prev, b = b, next
	}
	return 0, false, false
}

func narrowsNot(x *ssa.Convert) bool {
	_, ok := x.X.Type().Underlying().(*types.Basic)
	return ok && (narrows(x) == "" || narrows(x) == "32")
}

// lookAlike is the canonical form of the characters that look alike.
var lookAlike = map[int64]int64{'0': 'o', '1': 'l', 'j': 'i'}

// IdentityMapping: the mapping of the characters of the localpart of an
// identity sends characters that look alike to one of them, keeps the others
// of the alphabet, and refuses all that are not in it. It follows that mapping
// twice is mapping once: every image is its own image, has the length of its
// preimage, is lower case, and '-' and '.', about which further checks are
// made before, are images of themselves alone.
func (c *Ctx) IdentityMapping(rule string) {
	n := 0
	for _, fn := range c.P.Fns {
		if fnPkg(fn) == nil || shortPath(fnPkg(fn).Path()) != "uid/identity" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || fnName(call.Call.StaticCallee()) != "strings.Map" {
					continue
				}
				var g *ssa.Function
				switch v := call.Call.Args[0].(type) {
				case *ssa.MakeClosure:
					g, _ = v.Fn.(*ssa.Function)
				case *ssa.Function:
					g = v
				}
				if g == nil {
					continue
				}
				cells := runeTable(g)
				if cells == nil {
					c.Notes = append(c.Notes, "the character mapping at "+c.P.Pos(in.Pos())+" is not of the kind that is decided")
					continue
				}
				n++
				c.runeCells(rule, fn, g, cells)
			}
		}
	}
	if n == 0 {
		c.Notes = append(c.Notes, "no character mapping was found in uid/identity")
		c.add(rule, "character mapping of identities", "", true, "not found as a function of one character; decided by the contracts only")
	}
}

func (c *Ctx) runeCells(rule string, fn, g *ssa.Function, cells []runeCell) {
	pos := c.P.Pos(g.Pos())
	name := fnName(fn)
	undecided := 0
	for _, x := range cells {
		if x.lo >= 'A' && x.lo <= 'Z' {
			continue // not after the conversion to lower case
		}
		if !x.ok || x.img == -1 && !x.refuse {
			undecided++
			continue
		}
		in := x.lo == x.hi && (x.lo >= 'a' && x.lo <= 'z' || x.lo >= '0' && x.lo <= '9' || x.lo == '-' || x.lo == '.')
		what := fmt.Sprintf("%q", rune(x.lo))
		if x.hi != x.lo {
			what = fmt.Sprintf("U+%04X..U+%04X", x.lo, x.hi)
		}
		switch {
		case in && x.refuse:
			c.add(rule, name+": character "+what, pos, false, "the character is in the alphabet of identities and is refused")
		case !in && !x.refuse:
			c.add(rule, name+": character "+what, pos, false, "the character is not in the alphabet of identities and is not refused")
		case in:
			want := x.lo
			if y, ok := lookAlike[x.lo]; ok {
				want = y
			}
			if x.img != want {
				c.add(rule, name+": character "+what, pos, false, fmt.Sprintf("the character is mapped to %q, its canonical form is %q", rune(x.img), rune(want)))
				continue
			}
			c.add(rule, name+": character "+what, pos, true, "")
		default:
			c.add(rule, name+": character "+what, pos, true, "")
		}
	}
	if undecided > 0 {
		c.Notes = append(c.Notes, fmt.Sprintf("%s: %d cells of characters are not decided", name, undecided))
	}
}
