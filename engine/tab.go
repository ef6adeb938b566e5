package main

import (
	"fmt"
	"math"
	"strings"
)

// Tables: a term that depends on a single input variable with a small range can be kept as
// the table of its values (indexed by the value of the variable) instead of an expression.
// vrt.Tab introduces such a variable; everything computed from it (and constants) alone is
// tabulated, which makes chains of float divisions decidable: the solver sees a partition
// of the variable's range instead of bit-blasted dividers.

const tabMax = 1 << 14

func (T *Terms) mkTab(kind Kind, w uint8, x *Term, tab []uint64) *Term {
	same := true
	for _, v := range tab[1:] {
		if v != tab[0] {
			same = false
			break
		}
	}
	if same {
		switch kind {
		case KBool:
			return mkBool(tab[0] != 0)
		case KFP:
			return FP(w, tab[0])
		default:
			return BV(w, tab[0])
		}
	}
	h1, h2 := mix(x.h1, uint64(kind)*64+uint64(w)), mix(x.h2+5, uint64(len(tab)))
	for _, v := range tab {
		h1 = mix(h1, v+1)
		h2 = mix(h2^v, 0x51ed2701)
	}
	k := tkey{OTab, kind, w, x, nil, nil, h1 ^ h2}
	if t, ok := T.tab[k]; ok {
		return t
	}
	t := &Term{op: OTab, kind: kind, w: w, a: x, val: h1 ^ h2, id: T.nextID, tab: tab, depth: 1, h1: h1, h2: h2}
	T.nextID++
	if kind == KBV {
		f := func(v uint64) int64 {
			if w == 64 {
				return int64(v)
			}
			return int64(v)
		}
		t.lo, t.hi = math.MaxInt64, math.MinInt64
		for _, v := range tab {
			t.lo, t.hi = min(t.lo, f(v)), max(t.hi, f(v))
		}
	}
	T.tab[k] = t
	return t
}

// tabulate evaluates an operation over tables of the same variable and constants.
func (T *Terms) tabulate(op Op, kind Kind, w uint8, val uint64, args [3]*Term) *Term {
	var x *Term
	n := 0
	for _, a := range args {
		if a == nil || a.op == OConst {
			continue
		}
		if a.op != OTab || (x != nil && x != a.a) {
			return nil
		}
		x, n = a.a, len(a.tab)
	}
	if x == nil {
		return nil
	}
	out := make([]uint64, n)
	var cs [3]*Term
	for i, a := range args {
		if a != nil {
			if a.op == OConst {
				cs[i] = a
			} else {
				cs[i] = &Term{op: OConst, kind: a.kind, w: a.w}
			}
		}
	}
	t := &Term{op: op, kind: kind, w: w, a: cs[0], b: cs[1], c: cs[2], val: val}
	save := T.gen
	for i := 0; i < n; i++ {
		for j, a := range args {
			if a != nil && a.op == OTab {
				cs[j].val = a.tab[i]
			}
		}
		t.evGen = save - 1
		out[i] = T.Eval(t)
	}
	return T.mkTab(kind, w, x, out)
}

func (t *Term) at(v uint64) uint64 {
	if v >= uint64(len(t.tab)) {
		v = uint64(len(t.tab)) - 1
	}
	return t.tab[v]
}

func (t *Term) tabConst(v uint64) string {
	switch t.kind {
	case KBool:
		return constText(mkBool(v != 0))
	case KFP:
		return constText(FP(t.w, v))
	}
	return constText(BV(t.w, v))
}

// tabText writes a table as a decision over runs of equal values.
func (t *Term) tabText(x string) string {
	type run struct {
		from int
		v    uint64
	}
	var runs []run
	for i, v := range t.tab {
		if i == 0 || runs[len(runs)-1].v != v {
			runs = append(runs, run{i, v})
		}
	}
	if t.kind == KBool {
		var sb strings.Builder
		sb.WriteString("(or false")
		for i, r := range runs {
			if r.v == 0 {
				continue
			}
			switch {
			case i+1 == len(runs):
				fmt.Fprintf(&sb, " (bvule %s %s)", constText(BV(t.a.w, uint64(r.from))), x)
			case runs[i+1].from == r.from+1:
				fmt.Fprintf(&sb, " (= %s %s)", constText(BV(t.a.w, uint64(r.from))), x)
			default:
				fmt.Fprintf(&sb, " (and (bvule %s %s) (bvult %s %s))", constText(BV(t.a.w, uint64(r.from))), x, x, constText(BV(t.a.w, uint64(runs[i+1].from))))
			}
		}
		sb.WriteString(")")
		return sb.String()
	}
	var build func(lo, hi int) string
	build = func(lo, hi int) string {
		if hi-lo == 1 {
			return t.tabConst(runs[lo].v)
		}
		m := (lo + hi) / 2
		return "(ite (bvult " + x + " " + constText(BV(t.a.w, uint64(runs[m].from))) + ") " + build(lo, m) + " " + build(m, hi) + ")"
	}
	return build(0, len(runs))
}

// tabString is the text of each value of a table; paths fork on its length.
func (in *Interp) tabString(t *Term, f func(uint64) string) Value {
	in.noSpec()
	T := in.T
	texts := make([]string, len(t.tab))
	lens := make([]uint64, len(t.tab))
	for i, v := range t.tab {
		texts[i] = f(v)
		lens[i] = uint64(len(texts[i]))
	}
	n := in.concretize(T.mkTab(KBV, 64, t.a, lens))
	out := make([]*Term, n)
	for j := range out {
		col := make([]uint64, len(texts))
		for i, s := range texts {
			if uint64(len(s)) == n {
				col[i] = uint64(s[j])
			}
		}
		// values of other lengths do not occur on this path
		for i, s := range texts {
			if uint64(len(s)) != n {
				col[i] = col[max(i-1, 0)]
			}
		}
		out[j] = T.mkTab(KBV, 8, t.a, col)
	}
	return mkStr(out)
}

// foldTabs joins the conditions that are tables of the same variable.
func (T *Terms) foldTabs(cs []*Term) []*Term {
	n := 0
	for _, c := range cs {
		if c.op == OTab {
			n++
		}
	}
	if n < 2 {
		return cs
	}
	by := map[*Term]*Term{}
	var out []*Term
	for _, c := range cs {
		if c.op != OTab {
			out = append(out, c)
			continue
		}
		x := c.a
		if d, ok := by[x]; ok {
			if d.isFalse() {
				continue
			}
			c = T.And(d, c)
		}
		by[x] = c
	}
	for _, c := range cs {
		if c.op == OTab {
			if d := by[c.a]; d != nil {
				if !d.isTrue() {
					out = append(out, d)
				}
				by[c.a] = nil
			}
		}
	}
	return out
}
