package main

import (
	"fmt"
	"math"
	"math/bits"
)

// Op is a term operator.
type Op uint8

const (
	OConst Op = iota
	OVar
	// bool
	ONot
	OAnd
	OOr
	OIte // any kind
	OEq  // bv or bool args
	// bv
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	OShl
	OLshr
	OAshr
	OConcat
	OExtract // val = hi<<8|lo
	OBound   // a, known to be at most val by an assumption of the path
	OSExt
	OUlt
	OUle
	OSlt
	OSle
	// fp
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFSqrt
	OFLt
	OFLe
	OFEq
	OFIsNaN
	OFIsInf
	OFRound // val: 0 floor 1 ceil 2 trunc 3 roundAwayHalf 4 roundEven
	OFFromBits
	OFToBits
	OFFromS
	OFFromU
	OFToS // w = result width (value already wrapped to amd64 semantics)
	OFToU
	OFCvt // f32<->f64
	OTab  // table over the variable a
)

// Kind is a term sort.
type Kind uint8

const (
	KBool Kind = iota
	KBV
	KFP
)

// Term is an immutable (hash-consed per path when symbolic) expression.
type Term struct {
	op      Op
	kind    Kind
	w       uint8
	a, b, c *Term
	val     uint64 // const value / extract bounds / var index / round mode
	id      uint32
	lo, hi  int64 // interval: unsigned reading for w<64, signed for w==64 (BV only)
	h1, h2  uint64

	name string   // var
	tab  []uint64 // OTab

	evGen uint32
	evVal uint64
	vars  []int32
	vdone bool
	depth int32
}

func maskW(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func signExt(v uint64, w uint8) int64 {
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

// ---------- constants (shared between workers, immutable) ----------

var smallConst [65][]*Term
var termTrue = &Term{op: OConst, kind: KBool, w: 1, val: 1, h1: 0x9e3779b97f4a7c15, h2: 3}
var termFalse = &Term{op: OConst, kind: KBool, w: 1, val: 0, h1: 0x7f4a7c159e3779b9, h2: 5}

func init() {
	for _, w := range []uint8{1, 8, 16, 32, 64} {
		n := 1024
		if w == 1 {
			n = 2
		}
		if w == 8 {
			n = 256
		}
		smallConst[w] = make([]*Term, n)
		for i := range smallConst[w] {
			smallConst[w][i] = newConst(w, uint64(i))
		}
	}
}

func mix(a, b uint64) uint64 {
	hi, lo := bits.Mul64(a^0x9E3779B97F4A7C15, b^0xD6E8FEB86659FD93)
	return hi ^ lo ^ bits.RotateLeft64(a, 23)
}

func newConst(w uint8, v uint64) *Term {
	v &= maskW(w)
	t := &Term{op: OConst, kind: KBV, w: w, val: v}
	if w == 64 {
		t.lo, t.hi = int64(v), int64(v)
	} else {
		t.lo, t.hi = int64(v), int64(v)
	}
	t.h1 = mix(v+1, uint64(w)*7+1)
	t.h2 = mix(v^0x1234567, uint64(w)*13+5)
	return t
}

// BV returns a bit-vector constant.
func BV(w uint8, v uint64) *Term {
	v &= maskW(w)
	if s := smallConst[w]; v < uint64(len(s)) {
		return s[v]
	}
	return newConst(w, v)
}

func mkBool(b bool) *Term {
	if b {
		return termTrue
	}
	return termFalse
}

// FP64 / FP32 constants hold raw bits.
func FP(w uint8, rawbits uint64) *Term {
	t := &Term{op: OConst, kind: KFP, w: w, val: rawbits}
	t.h1 = mix(rawbits+17, uint64(w)*7+3)
	t.h2 = mix(rawbits^0x7654321, uint64(w)*13+9)
	return t
}
func FPf(w uint8, f float64) *Term {
	if w == 32 {
		return FP(32, uint64(math.Float32bits(float32(f))))
	}
	return FP(64, math.Float64bits(f))
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.kind == KBool && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.kind == KBool && t.val == 0 }

func (t *Term) sval() int64 { return signExt(t.val, t.w) }
func (t *Term) fval() float64 {
	if t.w == 32 {
		return float64(math.Float32frombits(uint32(t.val)))
	}
	return math.Float64frombits(t.val)
}

// ---------- term table (per worker, per path) ----------

type tkey struct {
	op      Op
	kind    Kind
	w       uint8
	a, b, c *Term
	val     uint64
}
type ckey struct {
	kind Kind
	w    uint8
	val  uint64
}

// Terms builds terms for one path.
type Terms struct {
	tab    map[tkey]*Term
	consts map[ckey]*Term
	nextID uint32
	vars   []*Term
	byName map[string]*Term
	model  []uint64 // current model by var index
	gen    uint32
}

func NewTerms() *Terms {
	return &Terms{tab: map[tkey]*Term{}, consts: map[ckey]*Term{}, byName: map[string]*Term{}, gen: 1}
}

func (T *Terms) reset() {
	if len(T.tab) > 0 {
		T.tab = make(map[tkey]*Term)
	}
	if len(T.consts) > 4096 {
		T.consts = make(map[ckey]*Term)
	}
	T.vars = T.vars[:0]
	T.byName = map[string]*Term{}
	T.model = T.model[:0]
	T.nextID = 1
	T.gen++
}

func (T *Terms) intern(t *Term) *Term {
	if t == nil || t.op != OConst || t.kind == KBool {
		return t
	}
	k := ckey{t.kind, t.w, t.val}
	if c, ok := T.consts[k]; ok {
		return c
	}
	T.consts[k] = t
	return t
}

func (T *Terms) mk(op Op, kind Kind, w uint8, a, b, c *Term, val uint64) *Term {
	if (a != nil && a.op == OTab) || (b != nil && b.op == OTab) || (c != nil && c.op == OTab) {
		if t := T.tabulate(op, kind, w, val, [3]*Term{a, b, c}); t != nil {
			return t
		}
	}
	a, b, c = T.intern(a), T.intern(b), T.intern(c)
	k := tkey{op, kind, w, a, b, c, val}
	if t, ok := T.tab[k]; ok {
		return t
	}
	t := &Term{op: op, kind: kind, w: w, a: a, b: b, c: c, val: val, id: T.nextID}
	T.nextID++
	h1, h2 := mix(uint64(op)*31+uint64(w), val+uint64(kind)), mix(val+77, uint64(op)*17+uint64(w)*3)
	for i, x := range [3]*Term{a, b, c} {
		if x != nil {
			h1 = mix(h1, x.h1+uint64(i))
			h2 = mix(h2+uint64(i), x.h2)
			if x.depth >= t.depth {
				t.depth = x.depth + 1
			}
		}
	}
	t.h1, t.h2 = h1, h2
	if kind == KBV {
		t.setRange()
	}
	T.tab[k] = t
	return t
}

func hashName(s string) (uint64, uint64) {
	h := uint64(14695981039346656037)
	g := uint64(1099511628211)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
		g = mix(g, uint64(s[i])+1)
	}
	return h, g
}

// NewVar declares (or returns) the input variable of that name.
func (T *Terms) NewVar(name string, kind Kind, w uint8) *Term {
	if v, ok := T.byName[name]; ok {
		if v.kind != kind || v.w != w {
			panic("two input variables named " + name)
		}
		return v
	}
	v := &Term{op: OVar, kind: kind, w: w, name: name, val: uint64(len(T.vars)), id: T.nextID}
	T.nextID++
	v.h1, v.h2 = hashName(name)
	v.h1 = mix(v.h1, uint64(w))
	if kind == KBV {
		fullRange(v)
	}
	v.vars = []int32{int32(len(T.vars))}
	v.vdone = true
	T.vars = append(T.vars, v)
	T.model = append(T.model, 0)
	T.byName[name] = v
	return v
}

func fullRange(t *Term) {
	if t.w == 64 {
		t.lo, t.hi = math.MinInt64, math.MaxInt64
	} else {
		t.lo, t.hi = 0, int64(maskW(t.w))
	}
}

func addOv(a, b int64) (int64, bool) {
	s := a + b
	return s, (a > 0 && b > 0 && s < 0) || (a < 0 && b < 0 && s >= 0)
}

func (t *Term) setRange() {
	fullRange(t)
	max := t.hi
	a, b := t.a, t.b
	switch t.op {
	case OConcat:
		// a high, b low
		if b.w < 64 && a.w < 64 {
			if t.w < 64 || a.hi < (int64(1)<<(63-b.w)) {
				t.lo = a.lo<<b.w + b.lo
				t.hi = a.hi<<b.w + b.hi
			}
		}
	case OExtract:
		hi, lo := uint8(t.val>>8), uint8(t.val)
		if a.lo >= 0 {
			l, h := a.lo>>lo, a.hi>>lo
			if hi-lo+1 >= 63 || h < (int64(1)<<(hi-lo+1)) {
				if t.w < 64 {
					t.lo, t.hi = l, h
				}
			}
		}
	case OBound:
		t.lo, t.hi = a.lo, min(a.hi, int64(t.val))
	case OSExt:
		half := int64(1) << (a.w - 1)
		if a.hi < half {
			t.lo, t.hi = a.lo, a.hi
		} else if t.w == 64 {
			t.lo, t.hi = -half, half-1
		}
	case OIte:
		t.lo, t.hi = b.lo, b.hi
		if t.c.lo < t.lo {
			t.lo = t.c.lo
		}
		if t.c.hi > t.hi {
			t.hi = t.c.hi
		}
	case OAdd:
		l, o1 := addOv(a.lo, b.lo)
		h, o2 := addOv(a.hi, b.hi)
		if !o1 && !o2 && (t.w == 64 || h <= max) {
			t.lo, t.hi = l, h
		}
	case OSub:
		if b.lo != math.MinInt64 && b.hi != math.MinInt64 {
			l, o1 := addOv(a.lo, -b.hi)
			h, o2 := addOv(a.hi, -b.lo)
			if !o1 && !o2 && (t.w == 64 || l >= 0) {
				t.lo, t.hi = l, h
			}
		}
	case OMul:
		if a.lo >= 0 && b.lo >= 0 {
			hi, lo := bits.Mul64(uint64(a.hi), uint64(b.hi))
			if hi == 0 && lo <= uint64(max) {
				t.lo, t.hi = a.lo*b.lo, int64(lo)
			}
		} else if t.w == 64 && b.isConst() {
			k := b.sval()
			if k > 0 && a.lo > math.MinInt64/k && a.hi < math.MaxInt64/k {
				t.lo, t.hi = a.lo*k, a.hi*k
			}
		}
	case OUDiv:
		if a.lo >= 0 && b.lo > 0 {
			t.lo, t.hi = a.lo/b.hi, a.hi/b.lo
		}
	case OSDiv:
		if t.w == 64 && b.isConst() && b.sval() > 0 {
			t.lo, t.hi = a.lo/b.sval(), a.hi/b.sval()
		}
	case OURem:
		if b.lo > 0 && a.lo >= 0 {
			t.lo, t.hi = 0, b.hi-1
			if a.hi < t.hi {
				t.hi = a.hi
			}
		}
	case OSRem:
		if t.w == 64 && b.isConst() && b.sval() > 0 {
			k := b.sval()
			t.lo, t.hi = -(k - 1), k-1
			if a.lo >= 0 {
				t.lo = 0
				if a.hi < t.hi {
					t.hi = a.hi
				}
			}
		}
	case OBAnd:
		if a.lo >= 0 && b.lo >= 0 {
			t.lo = 0
			t.hi = a.hi
			if b.hi < t.hi {
				t.hi = b.hi
			}
		} else if b.isConst() && b.lo >= 0 {
			t.lo, t.hi = 0, b.hi
		}
	case OBOr, OBXor:
		if a.lo >= 0 && b.lo >= 0 {
			m := uint64(a.hi | b.hi)
			n := bits.Len64(m)
			t.lo = 0
			if n < 63 {
				t.hi = int64(1)<<n - 1
			} else {
				t.hi = math.MaxInt64
			}
			if t.w < 64 && t.hi > max {
				t.hi = max
			}
		}
	case OAshr:
		if t.w == 64 && b.isConst() && b.val < 64 {
			t.lo, t.hi = a.lo>>b.val, a.hi>>b.val
		}
	case OLshr:
		if a.lo >= 0 && b.isConst() && b.val < 64 {
			t.lo, t.hi = a.lo>>b.val, a.hi>>b.val
		} else if a.lo >= 0 {
			t.lo, t.hi = 0, a.hi
		}
	}
}

// ---------- boolean constructors ----------

func (T *Terms) Not(a *Term) *Term {
	if a.isConst() {
		return mkBool(a.val == 0)
	}
	if a.op == ONot {
		return a.a
	}
	return T.mk(ONot, KBool, 1, a, nil, nil, 0)
}

func (T *Terms) And(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 0 {
			return termFalse
		}
		return b
	}
	if b.isConst() {
		if b.val == 0 {
			return termFalse
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return termFalse
	}
	return T.mk(OAnd, KBool, 1, a, b, nil, 0)
}

func (T *Terms) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 1 {
			return termTrue
		}
		return b
	}
	if b.isConst() {
		if b.val == 1 {
			return termTrue
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return termTrue
	}
	return T.mk(OOr, KBool, 1, a, b, nil, 0)
}

func (T *Terms) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.val == 1 {
			return a
		}
		return b
	}
	if a == b || (a.isConst() && b.isConst() && a.val == b.val) {
		return a
	}
	if c.op == ONot {
		return T.Ite(c.a, b, a)
	}
	if a.kind == KBool {
		if a.isConst() {
			if a.val == 1 {
				return T.Or(c, b)
			}
			return T.And(T.Not(c), b)
		}
		if b.isConst() {
			if b.val == 1 {
				return T.Or(T.Not(c), a)
			}
			return T.And(c, a)
		}
	}
	if a.op == OIte && a.a == c {
		a = a.b
	}
	if b.op == OIte && b.a == c {
		b = b.c
	}
	if a == b {
		return a
	}
	return T.mk(OIte, a.kind, a.w, c, a, b, 0)
}

func (T *Terms) Eq(a, b *Term) *Term {
	if a.kind != b.kind || a.w != b.w {
		panic(fmt.Sprintf("Eq of different sorts: %d/%d %d/%d", a.kind, a.w, b.kind, b.w))
	}
	if a.kind == KFP {
		panic("Eq of floats")
	}
	if a == b {
		return termTrue
	}
	if a.isConst() && b.isConst() {
		return mkBool(a.val == b.val)
	}
	if a.kind == KBool {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 1 {
				return a
			}
			return T.Not(a)
		}
		return T.mk(OEq, KBool, 1, a, b, nil, 0)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		v := int64(b.val)
		if b.w < 64 || true {
			if v < a.lo || v > a.hi {
				return termFalse
			}
		}
		switch a.op {
		case OBound:
			return T.Eq(a.a, b)
		case OConcat:
			lw := a.b.w
			return T.And(T.Eq(a.a, BV(a.a.w, b.val>>lw)), T.Eq(a.b, BV(lw, b.val)))
		case OSExt:
			iw := a.a.w
			low := b.val & maskW(iw)
			if uint64(signExt(low, iw))&maskW(a.w) != b.val {
				return termFalse
			}
			return T.Eq(a.a, BV(iw, low))
		case OIte:
			if a.b.isConst() || a.c.isConst() {
				if a.b.isConst() && a.c.isConst() || a.depth < 200 {
					return T.Ite(a.a, T.Eq(a.b, b), T.Eq(a.c, b))
				}
			}
		case OAdd:
			if a.b.isConst() {
				return T.Eq(a.a, BV(a.w, b.val-a.b.val))
			}
		case OBXor:
			if a.b.isConst() {
				return T.Eq(a.a, BV(a.w, b.val^a.b.val))
			}
		case OBNot:
			return T.Eq(a.a, BV(a.w, ^b.val))
		}
	} else {
		// equal-shaped concatenations
		if a.op == OConcat && b.op == OConcat && a.b.w == b.b.w {
			return T.And(T.Eq(a.a, b.a), T.Eq(a.b, b.b))
		}
		if a.op == OSExt && b.op == OSExt && a.a.w == b.a.w {
			return T.Eq(a.a, b.a)
		}
		if a.hi < b.lo || b.hi < a.lo {
			return termFalse
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return T.mk(OEq, KBool, 1, a, b, nil, 0)
}

// ---------- bit-vector constructors ----------

func (T *Terms) Add(a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return BV(w, a.val+b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if a.op == OAdd && a.b.isConst() {
			return T.Add(a.a, BV(w, a.b.val+b.val))
		}
		return T.mk(OAdd, KBV, w, a, b, nil, 0)
	}
	// (x + c) + y -> (x + y) + c
	if a.op == OAdd && a.b.isConst() {
		return T.Add(T.Add(a.a, b), a.b)
	}
	if b.op == OAdd && b.b.isConst() {
		return T.Add(T.Add(a, b.a), b.b)
	}
	// (x - y) + y
	if a.op == OSub && a.b == b {
		return a.a
	}
	if b.op == OSub && b.b == a {
		return b.a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.mk(OAdd, KBV, w, a, b, nil, 0)
}

func (T *Terms) Sub(a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return BV(w, a.val-b.val)
	}
	if a == b {
		return BV(w, 0)
	}
	if b.isConst() {
		return T.Add(a, BV(w, -b.val))
	}
	if a.op == OAdd {
		if a.b == b {
			return a.a
		}
		if a.a == b {
			return a.b
		}
		if a.b.isConst() && b.op == OAdd && b.b.isConst() {
			return T.Add(T.Sub(a.a, b.a), BV(w, a.b.val-b.b.val))
		}
		if a.b.isConst() {
			return T.Add(T.Sub(a.a, b), a.b)
		}
	}
	if b.op == OAdd && b.b.isConst() {
		return T.Add(T.Sub(a, b.a), BV(w, -b.b.val))
	}
	return T.mk(OSub, KBV, w, a, b, nil, 0)
}

func (T *Terms) Neg(a *Term) *Term { return T.Sub(BV(a.w, 0), a) }

func (T *Terms) Mul(a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return BV(w, a.val*b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return b
		}
		if b.val == 1 {
			return a
		}
		if b.val&(b.val-1) == 0 {
			return T.Shl(a, BV(w, uint64(bits.TrailingZeros64(b.val))))
		}
		if a.op == OMul && a.b.isConst() {
			return T.Mul(a.a, BV(w, a.b.val*b.val))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return T.mk(OMul, KBV, w, a, b, nil, 0)
}

// Div/rem callers guarantee a non-zero divisor on the path.
func (T *Terms) UDiv(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.val != 0 {
		return BV(a.w, a.val/b.val)
	}
	if b.isConst() && b.val == 1 {
		return a
	}
	if b.isConst() && b.val != 0 && b.val&(b.val-1) == 0 {
		return T.Lshr(a, BV(a.w, uint64(bits.TrailingZeros64(b.val))))
	}
	if b.isConst() && b.w == 64 && int64(b.val) > 1 {
		if q, _, ok := T.splitDiv(a, int64(b.val)); ok {
			return q
		}
		if a.lo >= 0 && a.hi < int64(b.val) {
			return BV(64, 0)
		}
	}
	return T.mk(OUDiv, KBV, a.w, a, b, nil, 0)
}
func (T *Terms) URem(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.val != 0 {
		return BV(a.w, a.val%b.val)
	}
	if b.isConst() && b.val != 0 && b.val&(b.val-1) == 0 {
		return T.BAnd(a, BV(a.w, b.val-1))
	}
	if b.isConst() && a.lo >= 0 && a.hi < int64(b.val) && int64(b.val) > 0 {
		return a
	}
	if b.isConst() && b.w == 64 && int64(b.val) > 1 {
		if _, r, ok := T.splitDiv(a, int64(b.val)); ok {
			return r
		}
	}
	return T.mk(OURem, KBV, a.w, a, b, nil, 0)
}

func (t *Term) nonNeg() bool { // as signed value of width w
	if t.w == 64 {
		return t.lo >= 0
	}
	return t.hi < int64(1)<<(t.w-1)
}

func (T *Terms) SDiv(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.val != 0 {
		x, y := a.sval(), b.sval()
		if y == -1 {
			return BV(a.w, uint64(-x))
		}
		return BV(a.w, uint64(x/y))
	}
	if a.nonNeg() && b.nonNeg() {
		return T.UDiv(a, b)
	}
	return T.mk(OSDiv, KBV, a.w, a, b, nil, 0)
}
func (T *Terms) SRem(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.val != 0 {
		x, y := a.sval(), b.sval()
		if y == -1 {
			return BV(a.w, 0)
		}
		return BV(a.w, uint64(x%y))
	}
	if a.nonNeg() && b.nonNeg() {
		return T.URem(a, b)
	}
	return T.mk(OSRem, KBV, a.w, a, b, nil, 0)
}

// segments of a term from high to low
func flatten(t *Term, out []*Term) []*Term {
	if t.op == OConcat {
		out = flatten(t.a, out)
		return flatten(t.b, out)
	}
	return append(out, t)
}

// combine two terms piecewise when every piece resolves; op is BAnd/BOr/BXor
func (T *Terms) segCombine(op Op, a, b *Term) (*Term, bool) {
	if a.op != OConcat && b.op != OConcat && !a.isConst() && !b.isConst() {
		return nil, false
	}
	sa, sb := flatten(a, nil), flatten(b, nil)
	if len(sa) > 16 || len(sb) > 16 {
		return nil, false
	}
	// cut points
	var res *Term
	ia, ib := len(sa)-1, len(sb)-1
	oa, ob := uint8(0), uint8(0) // consumed low bits of current segment
	for ia >= 0 && ib >= 0 {
		ta, tb := sa[ia], sb[ib]
		n := ta.w - oa
		if tb.w-ob < n {
			n = tb.w - ob
		}
		// const pieces: cut into uniform runs
		var pa, pb *Term
		cut := func(t *Term, o uint8) {
			if t.isConst() {
				v := t.val >> o
				run := uint8(0)
				if v&1 == 0 {
					run = uint8(bits.TrailingZeros64(v | 1<<63))
				} else {
					run = uint8(bits.TrailingZeros64(^v | 1<<63))
				}
				if v == 0 {
					run = 64
				}
				if run < n && run > 0 {
					n = run
				}
			}
		}
		bothConst := ta.isConst() && tb.isConst()
		if !bothConst {
			cut(ta, oa)
			cut(tb, ob)
		}
		pa = T.Extract(oa+n-1, oa, ta)
		pb = T.Extract(ob+n-1, ob, tb)
		var p *Term
		switch {
		case pa.isConst() && pb.isConst():
			switch op {
			case OBAnd:
				p = BVany(n, pa.val&pb.val)
			case OBOr:
				p = BVany(n, pa.val|pb.val)
			case OBXor:
				p = BVany(n, pa.val^pb.val)
			}
		case pa == pb:
			if op == OBXor {
				p = BVany(n, 0)
			} else {
				p = pa
			}
		default:
			if pa.isConst() {
				pa, pb = pb, pa
			}
			if !pb.isConst() {
				return nil, false
			}
			ones := pb.val == maskW(n)
			switch {
			case op == OBAnd && pb.val == 0:
				p = pb
			case op == OBAnd && ones:
				p = pa
			case op == OBOr && pb.val == 0:
				p = pa
			case op == OBOr && ones:
				p = pb
			case op == OBXor && pb.val == 0:
				p = pa
			default:
				return nil, false
			}
		}
		if res == nil {
			res = p
		} else {
			res = T.Concat(p, res)
		}
		oa += n
		ob += n
		if oa == ta.w {
			ia--
			oa = 0
		}
		if ob == tb.w {
			ib--
			ob = 0
		}
	}
	return res, true
}

// BVany builds constants of odd widths too.
func BVany(w uint8, v uint64) *Term {
	v &= maskW(w)
	if s := smallConst[w]; s != nil && v < uint64(len(s)) {
		return s[v]
	}
	return newConst(w, v)
}

func (T *Terms) bitop(op Op, a, b *Term) *Term {
	w := a.w
	if a.isConst() {
		a, b = b, a
	}
	if a.isConst() && b.isConst() {
		switch op {
		case OBAnd:
			return BVany(w, a.val&b.val)
		case OBOr:
			return BVany(w, a.val|b.val)
		default:
			return BVany(w, a.val^b.val)
		}
	}
	if a == b {
		if op == OBXor {
			return BVany(w, 0)
		}
		return a
	}
	if b.isConst() {
		all := b.val == maskW(w)
		switch {
		case b.val == 0 && op == OBAnd:
			return b
		case b.val == 0:
			return a
		case all && op == OBAnd:
			return a
		case all && op == OBOr:
			return b
		case all && op == OBXor:
			return T.BNot(a)
		}
		if a.op == op && a.b.isConst() {
			return T.bitop(op, a.a, T.bitop(op, a.b, b))
		}
	}
	if r, ok := T.segCombine(op, a, b); ok {
		return r
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return T.mk(op, KBV, w, a, b, nil, 0)
}
func (T *Terms) BAnd(a, b *Term) *Term { return T.bitop(OBAnd, a, b) }
func (T *Terms) BOr(a, b *Term) *Term  { return T.bitop(OBOr, a, b) }
func (T *Terms) BXor(a, b *Term) *Term { return T.bitop(OBXor, a, b) }
func (T *Terms) BNot(a *Term) *Term {
	if a.isConst() {
		return BVany(a.w, ^a.val)
	}
	if a.op == OBNot {
		return a.a
	}
	return T.mk(OBNot, KBV, a.w, a, nil, nil, 0)
}

func (T *Terms) Concat(hi, lo *Term) *Term {
	w := hi.w + lo.w
	if hi.isConst() && lo.isConst() {
		return BVany(w, hi.val<<lo.w|lo.val)
	}
	// merge adjacent extracts
	if hi.op == OExtract && lo.op == OExtract && hi.a == lo.a {
		hh, hl := uint8(hi.val>>8), uint8(hi.val)
		lh, ll := uint8(lo.val>>8), uint8(lo.val)
		if hl == lh+1 {
			return T.Extract(hh, ll, hi.a)
		}
	}
	// right-associate: (x . c1) . c2 with constants merge
	if lo.isConst() && hi.op == OConcat && hi.b.isConst() {
		return T.Concat(hi.a, BVany(hi.b.w+lo.w, hi.b.val<<lo.w|lo.val))
	}
	if hi.isConst() && lo.op == OConcat && lo.a.isConst() {
		return T.Concat(BVany(hi.w+lo.a.w, hi.val<<lo.a.w|lo.a.val), lo.b)
	}
	if hi.op == OConcat { // canonical: right-nested
		return T.Concat(hi.a, T.Concat(hi.b, lo))
	}
	if hi.op == OExtract && lo.op == OConcat && lo.a.op == OExtract && lo.a.a == hi.a && uint8(hi.val) == uint8(lo.a.val>>8)+1 {
		return T.Concat(T.Extract(uint8(hi.val>>8), uint8(lo.a.val), hi.a), lo.b)
	}
	return T.mk(OConcat, KBV, w, hi, lo, nil, 0)
}

func (T *Terms) Extract(hi, lo uint8, t *Term) *Term {
	if lo == 0 && hi == t.w-1 {
		return t
	}
	w := hi - lo + 1
	switch t.op {
	case OConst:
		return BVany(w, t.val>>lo)
	case OExtract:
		base := uint8(t.val)
		return T.Extract(hi+base, lo+base, t.a)
	case OConcat:
		lw := t.b.w
		if hi < lw {
			return T.Extract(hi, lo, t.b)
		}
		if lo >= lw {
			return T.Extract(hi-lw, lo-lw, t.a)
		}
		return T.Concat(T.Extract(hi-lw, 0, t.a), T.Extract(lw-1, lo, t.b))
	case OBound:
		if w < t.w {
			return T.Extract(hi, lo, t.a)
		}
	case OSExt:
		if hi < t.a.w {
			return T.Extract(hi, lo, t.a)
		}
	case OBAnd, OBOr, OBXor:
		return T.bitop(t.op, T.Extract(hi, lo, t.a), T.Extract(hi, lo, t.b))
	case OBNot:
		return T.BNot(T.Extract(hi, lo, t.a))
	case OIte:
		if t.b.isConst() || t.c.isConst() {
			return T.Ite(t.a, T.Extract(hi, lo, t.b), T.Extract(hi, lo, t.c))
		}
	case OAdd, OSub, OMul:
		if lo == 0 {
			a, b := T.Extract(hi, 0, t.a), T.Extract(hi, 0, t.b)
			switch t.op {
			case OAdd:
				return T.Add(a, b)
			case OSub:
				return T.Sub(a, b)
			default:
				return T.Mul(a, b)
			}
		}
	}
	// known-zero high part
	if t.lo >= 0 && (t.hi>>lo) == 0 {
		return BVany(w, 0)
	}
	return T.mk(OExtract, KBV, w, t, nil, nil, uint64(hi)<<8|uint64(lo))
}

func (T *Terms) ZExt(t *Term, w uint8) *Term {
	if w == t.w {
		return t
	}
	if t.isConst() {
		return BV(w, t.val)
	}
	return T.Concat(BVany(w-t.w, 0), t)
}
func (T *Terms) SExt(t *Term, w uint8) *Term {
	if w == t.w {
		return t
	}
	if t.isConst() {
		return BV(w, uint64(signExt(t.val, t.w)))
	}
	if t.nonNeg() {
		return T.ZExt(t, w)
	}
	if t.op == OSExt {
		return T.SExt(t.a, w)
	}
	return T.mk(OSExt, KBV, w, t, nil, nil, 0)
}

// shifts: amounts are already the same width; amounts >= w give 0 / sign
func (T *Terms) Shl(a, b *Term) *Term {
	w := a.w
	if b.isConst() {
		if b.val >= uint64(w) {
			return BV(w, 0)
		}
		if b.val == 0 {
			return a
		}
		if a.isConst() {
			return BV(w, a.val<<b.val)
		}
		k := uint8(b.val)
		return T.Concat(T.Extract(w-1-k, 0, a), BVany(k, 0))
	}
	return T.mk(OShl, KBV, w, a, b, nil, 0)
}
func (T *Terms) Lshr(a, b *Term) *Term {
	w := a.w
	if b.isConst() {
		if b.val >= uint64(w) {
			return BV(w, 0)
		}
		if b.val == 0 {
			return a
		}
		if a.isConst() {
			return BV(w, a.val>>b.val)
		}
		k := uint8(b.val)
		return T.Concat(BVany(k, 0), T.Extract(w-1, k, a))
	}
	return T.mk(OLshr, KBV, w, a, b, nil, 0)
}
func (T *Terms) Ashr(a, b *Term) *Term {
	w := a.w
	if a.nonNeg() {
		return T.Lshr(a, b)
	}
	if b.isConst() {
		k := b.val
		if k >= uint64(w) {
			k = uint64(w) - 1
		}
		if k == 0 {
			return a
		}
		if a.isConst() {
			return BV(w, uint64(a.sval()>>k))
		}
		return T.SExt(T.Extract(w-1, uint8(k), a), w)
	}
	return T.mk(OAshr, KBV, w, a, b, nil, 0)
}

// knownHighZeros returns how many high bits are known zero.
func (t *Term) highZeros() uint8 {
	if t.lo < 0 {
		return 0
	}
	n := uint8(bits.Len64(uint64(t.hi)))
	if n >= t.w {
		return 0
	}
	return t.w - n
}

func (T *Terms) Ult(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return mkBool(a.val < b.val)
	}
	if a == b {
		return termFalse
	}
	if b.isConst() && b.val == 0 {
		return termFalse
	}
	if a.isConst() && a.val == maskW(a.w) {
		return termFalse
	}
	if a.lo >= 0 && b.lo >= 0 {
		if a.hi < b.lo {
			return termTrue
		}
		if a.lo >= b.hi {
			return termFalse
		}
	} else if a.lo >= 0 && b.isConst() && b.lo < 0 { // b huge
		return termTrue
	} else if b.lo >= 0 && b.hi >= 0 && a.isConst() && a.lo < 0 {
		return termFalse
	}
	if b.isConst() && b.val == 1 {
		return T.Eq(a, BVany(a.w, 0))
	}
	if z := min(a.highZeros(), b.highZeros()); z > 0 && z < a.w {
		return T.Ult(T.Extract(a.w-z-1, 0, a), T.Extract(a.w-z-1, 0, b))
	}
	if a.op == OIte && a.b.isConst() && a.c.isConst() && b.isConst() {
		return T.Ite(a.a, T.Ult(a.b, b), T.Ult(a.c, b))
	}
	return T.mk(OUlt, KBool, 1, a, b, nil, 0)
}
func (T *Terms) Ule(a, b *Term) *Term {
	return T.Not(T.Ult(b, a))
}
func (T *Terms) Slt(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return mkBool(a.sval() < b.sval())
	}
	if a == b {
		return termFalse
	}
	if a.nonNeg() && b.nonNeg() {
		return T.Ult(a, b)
	}
	if a.w == 64 {
		if a.hi < b.lo {
			return termTrue
		}
		if a.lo >= b.hi {
			return termFalse
		}
	}
	if a.op == OSExt && b.isConst() {
		iw := a.a.w
		lim := int64(1) << (iw - 1)
		v := b.sval()
		if v >= lim {
			return termTrue
		}
		if v < -lim {
			return termFalse
		}
		return T.Slt(a.a, BVany(iw, uint64(v)))
	}
	if b.op == OSExt && a.isConst() {
		iw := b.a.w
		lim := int64(1) << (iw - 1)
		v := a.sval()
		if v < -lim {
			return termTrue
		}
		if v >= lim {
			return termFalse
		}
		return T.Slt(BVany(iw, uint64(v)), b.a)
	}
	if a.op == OSExt && b.op == OSExt && a.a.w == b.a.w {
		return T.Slt(a.a, b.a)
	}
	if a.op == OIte && a.b.isConst() && a.c.isConst() && b.isConst() {
		return T.Ite(a.a, T.Slt(a.b, b), T.Slt(a.c, b))
	}
	return T.mk(OSlt, KBool, 1, a, b, nil, 0)
}
func (T *Terms) Sle(a, b *Term) *Term { return T.Not(T.Slt(b, a)) }

// ---------- floating point ----------

const maxExact = int64(1) << 53

// integral float known to be exactly the signed integer term n (64 bit)
func (T *Terms) exactInt(t *Term) (*Term, bool) {
	if t.w != 64 {
		return nil, false
	}
	if t.isConst() {
		f := t.fval()
		if f == math.Trunc(f) && math.Abs(f) <= float64(maxExact) && !(f == 0 && math.Signbit(f)) {
			return BV(64, uint64(int64(f))), true
		}
		return nil, false
	}
	if t.op == OFFromS && t.a.w == 64 && t.a.lo >= -maxExact && t.a.hi <= maxExact {
		return t.a, true
	}
	return nil, false
}

func inExact(t *Term) bool { return t.lo >= -maxExact && t.hi <= maxExact }

func fbin(op Op, w uint8, x, y float64) *Term {
	if w == 32 {
		a, b := float32(x), float32(y)
		var r float32
		switch op {
		case OFAdd:
			r = a + b
		case OFSub:
			r = a - b
		case OFMul:
			r = a * b
		case OFDiv:
			r = a / b
		}
		return FP(32, uint64(math.Float32bits(r)))
	}
	var r float64
	switch op {
	case OFAdd:
		r = x + y
	case OFSub:
		r = x - y
	case OFMul:
		r = x * y
	case OFDiv:
		r = x / y
	}
	return FP(64, math.Float64bits(r))
}

// few says that t is a choice between at most four constants.
func few(t *Term) bool { return t.op == OIte && leaves(t, 4) > 0 }

func leaves(t *Term, max int) int {
	if t.isConst() {
		return 1
	}
	if t.op != OIte || max < 2 {
		return 0
	}
	n := leaves(t.b, max-1)
	if n == 0 {
		return 0
	}
	m := leaves(t.c, max-n)
	if m == 0 {
		return 0
	}
	return n + m
}

func (T *Terms) pushIte(t *Term, f func(*Term) *Term) *Term {
	if t.op == OIte {
		return T.Ite(t.a, T.pushIte(t.b, f), T.pushIte(t.c, f))
	}
	return f(t)
}

func (T *Terms) FBin(op Op, a, b *Term) *Term {
	if b.isConst() && few(a) {
		return T.pushIte(a, func(x *Term) *Term { return T.FBin(op, x, b) })
	}
	if a.isConst() && few(b) {
		return T.pushIte(b, func(x *Term) *Term { return T.FBin(op, a, x) })
	}
	if a.isConst() && b.isConst() {
		return fbin(op, a.w, a.fval(), b.fval())
	}
	if op == OFMul && a.isConst() && a.fval() == 1 {
		return b
	}
	if (op == OFMul || op == OFDiv) && b.isConst() && b.fval() == 1 {
		return a
	}
	if a.w == 64 && (op == OFAdd || op == OFSub || op == OFMul) {
		if x, ok := T.exactInt(a); ok {
			if y, ok := T.exactInt(b); ok {
				var r *Term
				switch op {
				case OFAdd:
					r = T.Add(x, y)
				case OFSub:
					r = T.Sub(x, y)
				case OFMul:
					// -0 results are possible only with a zero and a negative factor
					if x.lo >= 0 && y.lo >= 0 || x.lo > 0 || y.lo > 0 {
						r = T.Mul(x, y)
					}
				}
				if r != nil && inExact(r) {
					return T.FFromS(r, 64)
				}
			}
		}
	}
	return T.mk(op, KFP, a.w, a, b, nil, 0)
}
func (T *Terms) FNeg(a *Term) *Term {
	if few(a) {
		return T.pushIte(a, T.FNeg)
	}
	if a.isConst() {
		return FP(a.w, a.val^(1<<(a.w-1)))
	}
	if a.op == OFNeg {
		return a.a
	}
	if x, ok := T.exactInt(a); ok && (x.lo > 0 || x.hi < 0) {
		return T.FFromS(T.Neg(x), 64)
	}
	return T.mk(OFNeg, KFP, a.w, a, nil, nil, 0)
}
func (T *Terms) FAbs(a *Term) *Term {
	if few(a) {
		return T.pushIte(a, T.FAbs)
	}
	if a.isConst() {
		return FP(a.w, a.val&^(1<<(a.w-1)))
	}
	if x, ok := T.exactInt(a); ok && x.lo >= 0 {
		return a
	}
	return T.mk(OFAbs, KFP, a.w, a, nil, nil, 0)
}
func (T *Terms) FSqrt(a *Term) *Term {
	if a.isConst() {
		return FPf(a.w, math.Sqrt(a.fval()))
	}
	return T.mk(OFSqrt, KFP, a.w, a, nil, nil, 0)
}
func (T *Terms) FCmp(op Op, a, b *Term) *Term {
	if b.isConst() && few(a) {
		return T.pushIte(a, func(x *Term) *Term { return T.FCmp(op, x, b) })
	}
	if a.isConst() && few(b) {
		return T.pushIte(b, func(x *Term) *Term { return T.FCmp(op, a, x) })
	}
	if a.isConst() && b.isConst() {
		x, y := a.fval(), b.fval()
		switch op {
		case OFLt:
			return mkBool(x < y)
		case OFLe:
			return mkBool(x <= y)
		default:
			return mkBool(x == y)
		}
	}
	if a.op == OFNeg {
		if x, ok := T.exactInt(a.a); ok {
			a = T.FFromS(T.Neg(x), 64)
		}
	}
	if b.op == OFNeg {
		if x, ok := T.exactInt(b.a); ok {
			b = T.FFromS(T.Neg(x), 64)
		}
	}
	if x, ok := T.exactInt(a); ok {
		if y, ok := T.exactInt(b); ok {
			switch op {
			case OFLt:
				return T.Slt(x, y)
			case OFLe:
				return T.Sle(x, y)
			default:
				return T.Eq(x, y)
			}
		}
		if b.isConst() {
			f := b.fval()
			if f != f {
				return termFalse
			}
			// integer vs non-integral / huge constant
			if f > float64(maxExact) {
				return mkBool(op != OFEq)
			}
			if f < -float64(maxExact) {
				return termFalse
			}
			if f != math.Trunc(f) {
				fl := BV(64, uint64(int64(math.Floor(f))))
				if op == OFEq {
					return termFalse
				}
				return T.Sle(x, fl)
			}
			if f == 0 { // -0
				return T.FCmp(op, a, FPf(64, 0))
			}
		}
	}
	if y, ok := T.exactInt(b); ok && a.isConst() {
		f := a.fval()
		if f != f {
			return termFalse
		}
		if f > float64(maxExact) {
			return termFalse
		}
		if f < -float64(maxExact) {
			return mkBool(op != OFEq)
		}
		if f != math.Trunc(f) {
			if op == OFEq {
				return termFalse
			}
			return T.Sle(BV(64, uint64(int64(math.Ceil(f)))), y)
		}
		if f == 0 {
			return T.FCmp(op, FPf(64, 0), b)
		}
	}
	if a == b {
		if op == OFLt {
			return termFalse
		}
		return T.Not(T.FIsNaN(a))
	}
	return T.mk(op, KBool, 1, a, b, nil, 0)
}
func (T *Terms) FIsNaN(a *Term) *Term {
	if a.isConst() {
		return mkBool(a.fval() != a.fval())
	}
	if a.op == OFFromS || a.op == OFFromU {
		return termFalse
	}
	return T.mk(OFIsNaN, KBool, 1, a, nil, nil, 0)
}
func (T *Terms) FIsInf(a *Term) *Term {
	if a.isConst() {
		return mkBool(math.IsInf(a.fval(), 0))
	}
	if (a.op == OFFromS || a.op == OFFromU) && a.w == 64 {
		return termFalse
	}
	return T.mk(OFIsInf, KBool, 1, a, nil, nil, 0)
}

func froundNative(mode uint64, f float64) float64 {
	switch mode {
	case 0:
		return math.Floor(f)
	case 1:
		return math.Ceil(f)
	case 2:
		return math.Trunc(f)
	case 3:
		return math.Round(f)
	default:
		return math.RoundToEven(f)
	}
}
func (T *Terms) FRound(mode uint64, a *Term) *Term {
	if few(a) {
		return T.pushIte(a, func(x *Term) *Term { return T.FRound(mode, x) })
	}
	if a.isConst() {
		return FPf(a.w, froundNative(mode, a.fval()))
	}
	if _, ok := T.exactInt(a); ok {
		return a
	}
	return T.mk(OFRound, KFP, a.w, a, nil, nil, mode)
}
func (T *Terms) FFromBits(a *Term) *Term {
	if a.isConst() {
		return FP(a.w, a.val)
	}
	if a.op == OFToBits {
		return a.a
	}
	return T.mk(OFFromBits, KFP, a.w, a, nil, nil, 0)
}
func (T *Terms) FToBits(a *Term) *Term {
	if a.isConst() {
		return BV(a.w, a.val)
	}
	switch a.op {
	case OFFromBits:
		return a.a
	case OFNeg:
		return T.BXor(T.FToBits(a.a), BV(a.w, 1<<(a.w-1)))
	case OFAbs:
		return T.BAnd(T.FToBits(a.a), BV(a.w, maskW(a.w)>>1))
	case OIte:
		return T.Ite(a.a, T.FToBits(a.b), T.FToBits(a.c))
	}
	return T.mk(OFToBits, KBV, a.w, a, nil, nil, 0)
}
func (T *Terms) FFromS(a *Term, w uint8) *Term {
	if few(a) {
		return T.pushIte(a, func(x *Term) *Term { return T.FFromS(x, w) })
	}
	if a.isConst() {
		if w == 32 {
			return FP(32, uint64(math.Float32bits(float32(a.sval()))))
		}
		return FP(64, math.Float64bits(float64(a.sval())))
	}
	if a.w < 64 {
		a = T.SExt(a, 64)
	}
	return T.mk(OFFromS, KFP, w, a, nil, nil, 0)
}
func (T *Terms) FFromU(a *Term, w uint8) *Term {
	if a.isConst() {
		if w == 32 {
			return FP(32, uint64(math.Float32bits(float32(a.val))))
		}
		return FP(64, math.Float64bits(float64(a.val)))
	}
	if a.w < 64 {
		return T.FFromS(T.ZExt(a, 64), w)
	}
	if a.lo >= 0 {
		return T.FFromS(a, w)
	}
	return T.mk(OFFromU, KFP, w, a, nil, nil, 0)
}

func cvtF2S(f float64) int64 { // amd64 cvttsd2si
	if f != f || f >= 9223372036854775808.0 || f < -9223372036854775808.0 {
		return math.MinInt64
	}
	return int64(f)
}
func cvtF2U(f float64) uint64 { // amd64 go: values >= 2^63 handled separately
	if f < 9223372036854775808.0 {
		return uint64(cvtF2S(f))
	}
	if f != f {
		return 1 << 63
	}
	return uint64(cvtF2S(f-9223372036854775808.0)) ^ (1 << 63)
}

// FToS converts to a signed 64-bit value (amd64 semantics); callers truncate.
func (T *Terms) FToS(a *Term) *Term {
	if few(a) {
		return T.pushIte(a, T.FToS)
	}
	if a.isConst() {
		return BV(64, uint64(cvtF2S(a.fval())))
	}
	if x, ok := T.exactInt(a); ok {
		return x
	}
	if a.op == OFNeg {
		if x, ok := T.exactInt(a.a); ok {
			return T.Neg(x)
		}
	}
	if x, ok := T.affToS(a); ok {
		return x
	}
	return T.mk(OFToS, KBV, 64, a, nil, nil, 0)
}
func (T *Terms) FToU(a *Term) *Term {
	if a.isConst() {
		return BV(64, cvtF2U(a.fval()))
	}
	if x, ok := T.exactInt(a); ok {
		return x
	}
	return T.mk(OFToU, KBV, 64, a, nil, nil, 0)
}
func (T *Terms) FCvt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return FPf(w, a.fval())
	}
	if a.op == OFCvt && a.a.w == w && w == 32 {
		return a.a // f32 -> f64 -> f32
	}
	return T.mk(OFCvt, KFP, w, a, nil, nil, 0)
}

// ---------- evaluation under the current model ----------

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// Eval returns the value of t under T.model.
func (T *Terms) Eval(t *Term) uint64 {
	if t.op == OConst {
		return t.val
	}
	if t.op == OVar {
		return T.model[t.val]
	}
	if t.op == OTab {
		return t.at(T.model[t.a.val])
	}
	if t.evGen == T.gen {
		return t.evVal
	}
	var r uint64
	fl := func(x *Term) float64 {
		v := T.Eval(x)
		if x.w == 32 {
			return float64(math.Float32frombits(uint32(v)))
		}
		return math.Float64frombits(v)
	}
	fb := func(w uint8, f float64) uint64 {
		if w == 32 {
			return uint64(math.Float32bits(float32(f)))
		}
		return math.Float64bits(f)
	}
	switch t.op {
	case ONot:
		r = 1 - T.Eval(t.a)
	case OAnd:
		r = T.Eval(t.a)
		if r == 1 {
			r = T.Eval(t.b)
		}
	case OOr:
		r = T.Eval(t.a)
		if r == 0 {
			r = T.Eval(t.b)
		}
	case OIte:
		if T.Eval(t.a) == 1 {
			r = T.Eval(t.b)
		} else {
			r = T.Eval(t.c)
		}
	case OEq:
		r = b2u(T.Eval(t.a) == T.Eval(t.b))
	case OAdd:
		r = (T.Eval(t.a) + T.Eval(t.b)) & maskW(t.w)
	case OSub:
		r = (T.Eval(t.a) - T.Eval(t.b)) & maskW(t.w)
	case OMul:
		r = (T.Eval(t.a) * T.Eval(t.b)) & maskW(t.w)
	case OUDiv:
		y := T.Eval(t.b)
		if y == 0 {
			r = maskW(t.w)
		} else {
			r = T.Eval(t.a) / y
		}
	case OURem:
		y := T.Eval(t.b)
		if y == 0 {
			r = T.Eval(t.a)
		} else {
			r = T.Eval(t.a) % y
		}
	case OSDiv:
		x, y := signExt(T.Eval(t.a), t.w), signExt(T.Eval(t.b), t.w)
		switch y {
		case 0:
			if x >= 0 {
				r = maskW(t.w)
			} else {
				r = 1
			}
		case -1:
			r = uint64(-x) & maskW(t.w)
		default:
			r = uint64(x/y) & maskW(t.w)
		}
	case OSRem:
		x, y := signExt(T.Eval(t.a), t.w), signExt(T.Eval(t.b), t.w)
		switch y {
		case 0:
			r = uint64(x) & maskW(t.w)
		case -1:
			r = 0
		default:
			r = uint64(x%y) & maskW(t.w)
		}
	case OBAnd:
		r = T.Eval(t.a) & T.Eval(t.b)
	case OBOr:
		r = T.Eval(t.a) | T.Eval(t.b)
	case OBXor:
		r = T.Eval(t.a) ^ T.Eval(t.b)
	case OBNot:
		r = ^T.Eval(t.a) & maskW(t.w)
	case OShl:
		s := T.Eval(t.b)
		if s < uint64(t.w) {
			r = (T.Eval(t.a) << s) & maskW(t.w)
		}
	case OLshr:
		s := T.Eval(t.b)
		if s < uint64(t.w) {
			r = T.Eval(t.a) >> s
		}
	case OAshr:
		s := T.Eval(t.b)
		if s > 63 {
			s = 63
		}
		r = uint64(signExt(T.Eval(t.a), t.w)>>s) & maskW(t.w)
	case OConcat:
		r = T.Eval(t.a)<<t.b.w | T.Eval(t.b)
	case OBound:
		r = T.Eval(t.a)
	case OExtract:
		r = (T.Eval(t.a) >> uint8(t.val)) & maskW(t.w)
	case OSExt:
		r = uint64(signExt(T.Eval(t.a), t.a.w)) & maskW(t.w)
	case OUlt:
		r = b2u(T.Eval(t.a) < T.Eval(t.b))
	case OUle:
		r = b2u(T.Eval(t.a) <= T.Eval(t.b))
	case OSlt:
		r = b2u(signExt(T.Eval(t.a), t.a.w) < signExt(T.Eval(t.b), t.a.w))
	case OSle:
		r = b2u(signExt(T.Eval(t.a), t.a.w) <= signExt(T.Eval(t.b), t.a.w))
	case OFAdd, OFSub, OFMul, OFDiv:
		r = fbin(t.op, t.w, fl(t.a), fl(t.b)).val
	case OFNeg:
		r = T.Eval(t.a) ^ (1 << (t.w - 1))
	case OFAbs:
		r = T.Eval(t.a) &^ (1 << (t.w - 1))
	case OFSqrt:
		r = fb(t.w, math.Sqrt(fl(t.a)))
	case OFLt:
		r = b2u(fl(t.a) < fl(t.b))
	case OFLe:
		r = b2u(fl(t.a) <= fl(t.b))
	case OFEq:
		r = b2u(fl(t.a) == fl(t.b))
	case OFIsNaN:
		f := fl(t.a)
		r = b2u(f != f)
	case OFIsInf:
		r = b2u(math.IsInf(fl(t.a), 0))
	case OFRound:
		r = fb(t.w, froundNative(t.val, fl(t.a)))
	case OFFromBits, OFToBits:
		r = T.Eval(t.a)
	case OFFromS:
		if t.w == 32 {
			r = uint64(math.Float32bits(float32(int64(T.Eval(t.a)))))
		} else {
			r = math.Float64bits(float64(int64(T.Eval(t.a))))
		}
	case OFFromU:
		if t.w == 32 {
			r = uint64(math.Float32bits(float32(T.Eval(t.a))))
		} else {
			r = math.Float64bits(float64(T.Eval(t.a)))
		}
	case OFToS:
		r = uint64(cvtF2S(fl(t.a)))
	case OFToU:
		r = cvtF2U(fl(t.a))
	case OFCvt:
		r = fb(t.w, fl(t.a))
	default:
		panic("eval: unknown op")
	}
	t.evGen = T.gen
	t.evVal = r
	return r
}

// setModel installs a model given by variable names.
func (T *Terms) invalidate() { T.gen++ }

// varsOf returns the sorted variable indexes of t.
func varsOf(t *Term) []int32 {
	if t == nil || t.op == OConst {
		return nil
	}
	if t.vdone {
		return t.vars
	}
	r := varsOf(t.a)
	r = mergeVars(r, varsOf(t.b))
	r = mergeVars(r, varsOf(t.c))
	t.vars = r
	t.vdone = true
	return r
}

func mergeVars(a, b []int32) []int32 {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	// subset fast path
	out := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] < b[j]:
			out = append(out, a[i])
			i++
		case a[i] > b[j]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	if len(out) == len(a) {
		return a
	}
	if len(out) == len(b) {
		return b
	}
	return out
}
