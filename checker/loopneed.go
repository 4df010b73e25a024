package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// natLoop is a natural loop: its header and its blocks.
type natLoop struct {
	h    *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

func (f *FnA) loops() []natLoop {
	if f.loopsDone {
		return f.loopList
	}
	f.loopsDone = true
	for _, h := range f.rpo {
		if f.out[h.Index] == nil {
			continue
		}
		l := natLoop{h, map[*ssa.BasicBlock]bool{h: true}}
		has := false
		for _, p := range h.Preds {
			if h.Dominates(p) && f.out[p.Index] != nil {
				has = true
				collectLoop(p, l.body)
			}
		}
		if has {
			f.loopList = append(f.loopList, l)
		}
	}
	return f.loopList
}

// loopBad returns the end of an iteration, of an innermost loop in which ev
// happens, that lacks the need.
func (f *FnA) loopBad(ev, n *Need) (bad *ssa.BasicBlock, any bool) {
	if len(f.loops()) == 0 {
		return nil, false
	}
	em, ee := f.estPoints(ev, nil, 0)
	inner := map[*ssa.BasicBlock]natLoop{}
	for b, m := range em {
		starts := m && b.Index != 0
		for pi, p := range b.Preds {
			// where it happens, not where it is still known
			if starts && (em[p] || ee[[2]int{b.Index, pi}]) {
				starts = false
			}
		}
		if !starts {
			continue
		}
		var best *natLoop
		for i := range f.loopList {
			l := &f.loopList[i]
			if l.body[b] && !em[l.h] && (best == nil || len(l.body) < len(best.body)) {
				best = l
			}
		}
		if best != nil {
			inner[best.h] = *best
		}
	}
	if len(inner) == 0 {
		return nil, false
	}
	match, edge := f.estPoints(n, nil, 0)
	for _, l := range f.loopList {
		if _, ok := inner[l.h]; !ok {
			continue
		}
		bits := map[*ssa.BasicBlock]bool{}
		for b := range l.body {
			bits[b] = true
		}
		for ch := true; ch; {
			ch = false
			for _, b := range f.rpo {
				if !l.body[b] || f.out[b.Index] == nil {
					continue
				}
				v := match[b]
				if !v && b != l.h {
					v = true
					for pi, p := range b.Preds {
						if f.edgeOut(p, b, pi) == nil || bits[p] || edge[[2]int{b.Index, pi}] {
							continue
						}
						v = false
						break
					}
				}
				if v != bits[b] {
					bits[b] = v
					ch = true
				}
			}
		}
		for pi, p := range l.h.Preds {
			if !l.h.Dominates(p) || f.edgeOut(p, l.h, pi) == nil || bits[p] || edge[[2]int{l.h.Index, pi}] {
				continue
			}
			if !mining && f.joinEst(n, p, false, nil, nil, 0, nil) {
				continue
			}
			return p, true
		}
	}
	return nil, true
}

func firstAlt(ns string) string {
	if i := strings.Index(ns, " || "); i > 0 {
		return ns[:i]
	}
	return ns
}

// loopNeed: every iteration that is completed has done what it must do.
func (c *Ctx) loopNeed(rule string, a *FnA, name, ns string) {
	construct := fmt.Sprintf("%s iteration needs [%s]", name, ns)
	bad, _ := a.loopBad(c.cachedNeed(firstAlt(ns)), c.cachedNeed(ns))
	if bad != nil {
		pos := ""
		for _, in := range bad.Instrs {
			if in.Pos().IsValid() {
				pos = c.P.Pos(in.Pos())
			}
		}
		if pos == "" {
			pos = c.P.Pos(a.f.Pos())
		}
		c.add(rule, construct, pos, false, fmt.Sprintf("a path through the body of a loop of %s completes an iteration (at %s) without: %s", name, pos, ns))
		return
	}
	c.add(rule, construct, c.P.Pos(a.f.Pos()), true, "")
}
