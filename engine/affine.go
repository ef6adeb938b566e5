package main

import (
	"math"
	"math/big"
)

// Float terms made of integers by sums and by products and quotients with constants are
// also tracked as exact affine forms with a bound on the accumulated rounding error, and
// as float intervals (rounding is monotone, so rounding the end points is exact). Both
// only serve to recognise conversions back to integers whose result is certain.

type affForm struct {
	at  []*Term // integer atoms
	co  []*big.Rat
	c   *big.Rat
	err float64
}

func (f *affForm) add(t *Term, k *big.Rat) {
	for i, a := range f.at {
		if a == t {
			f.co[i] = new(big.Rat).Add(f.co[i], k)
			return
		}
	}
	f.at = append(f.at, t)
	f.co = append(f.co, k)
}

func (f *affForm) scale(k *big.Rat) *affForm {
	r := &affForm{c: new(big.Rat).Mul(f.c, k)}
	for i, a := range f.at {
		r.at = append(r.at, a)
		r.co = append(r.co, new(big.Rat).Mul(f.co[i], k))
	}
	kf, _ := k.Float64()
	r.err = f.err * math.Abs(kf) * (1 + 1e-9)
	return r
}

func (f *affForm) plus(g *affForm) *affForm {
	r := &affForm{c: new(big.Rat).Add(f.c, g.c), err: (f.err + g.err) * (1 + 1e-9)}
	for i, a := range f.at {
		r.add(a, f.co[i])
	}
	for i, a := range g.at {
		r.add(a, g.co[i])
	}
	return r
}

// bound is the largest magnitude of the real value.
func (f *affForm) bound() float64 {
	s, _ := f.c.Float64()
	s = math.Abs(s)
	for i, a := range f.at {
		k, _ := f.co[i].Float64()
		s += math.Abs(k) * math.Max(math.Abs(float64(a.lo)), math.Abs(float64(a.hi)))
	}
	return s*(1+1e-9) + f.err
}

func (f *affForm) rounded() *affForm {
	f.err += f.bound()*0x1p-53*(1+1e-9) + 1e-300
	return f
}

func finite(x float64) bool { return !math.IsNaN(x) && !math.IsInf(x, 0) }

func ratOf(x float64) *big.Rat { return new(big.Rat).SetFloat64(x) }

// linear splits an integer term into atoms; the value cannot wrap when inExact holds for
// all parts.
func (T *Terms) linear(t *Term, k *big.Rat, f *affForm) {
	switch {
	case t.isConst():
		f.c = new(big.Rat).Add(f.c, new(big.Rat).Mul(k, new(big.Rat).SetInt64(t.sval())))
		return
	case t.op == OAdd && inExact(t) && inExact(t.a) && inExact(t.b):
		T.linear(t.a, k, f)
		T.linear(t.b, k, f)
		return
	case t.op == OSub && inExact(t) && inExact(t.a) && inExact(t.b):
		T.linear(t.a, k, f)
		T.linear(t.b, new(big.Rat).Neg(k), f)
		return
	case t.op == OMul && inExact(t) && inExact(t.a) && inExact(t.b):
		if t.b.isConst() {
			T.linear(t.a, new(big.Rat).Mul(k, new(big.Rat).SetInt64(t.b.sval())), f)
			return
		}
		if t.a.isConst() {
			T.linear(t.b, new(big.Rat).Mul(k, new(big.Rat).SetInt64(t.a.sval())), f)
			return
		}
	}
	f.add(t, k)
}

func (T *Terms) affine(t *Term, depth int) *affForm {
	if t.w != 64 || depth > 12 {
		return nil
	}
	if t.isConst() {
		x := t.fval()
		if !finite(x) {
			return nil
		}
		return &affForm{c: ratOf(x)}
	}
	if x, ok := T.exactInt(t); ok {
		f := &affForm{c: new(big.Rat)}
		T.linear(x, big.NewRat(1, 1), f)
		return f
	}
	switch t.op {
	case OFAdd, OFSub:
		f, g := T.affine(t.a, depth+1), T.affine(t.b, depth+1)
		if f == nil || g == nil {
			return nil
		}
		if t.op == OFSub {
			g = g.scale(big.NewRat(-1, 1))
		}
		r := f.plus(g)
		// the operands were bounded before terms cancelled; their float sum is exact
		// or rounded to the magnitude of the result
		return r.rounded()
	case OFMul, OFDiv:
		a, b := t.a, t.b
		if a.isConst() && t.op == OFMul {
			a, b = b, a
		}
		if !b.isConst() || !finite(b.fval()) || b.fval() == 0 {
			return nil
		}
		f := T.affine(a, depth+1)
		if f == nil {
			return nil
		}
		k := ratOf(b.fval())
		if t.op == OFDiv {
			k = new(big.Rat).Inv(k)
		}
		return f.scale(k).rounded()
	case OFNeg:
		f := T.affine(t.a, depth+1)
		if f == nil {
			return nil
		}
		return f.scale(big.NewRat(-1, 1))
	}
	return nil
}

// integer gives the integer the form certainly rounds to (half away from zero or to even,
// both agree because the value is far from a half).
func (f *affForm) integer(T *Terms) (*Term, bool) {
	if f.err >= 0.4 || f.bound() > 1<<52 {
		return nil, false
	}
	r := BV(64, 0)
	slack := f.err
	for i, a := range f.at {
		k, _ := f.co[i].Float64()
		n := math.Round(k)
		d, _ := new(big.Rat).Sub(f.co[i], ratOf(n)).Float64()
		slack += math.Abs(d) * math.Max(math.Abs(float64(a.lo)), math.Abs(float64(a.hi))) * (1 + 1e-9)
		if math.Abs(n) > 1<<52 {
			return nil, false
		}
		r = T.Add(r, T.Mul(a, BV(64, uint64(int64(n)))))
	}
	// the constant may be inexact in the decimal places
	n, _ := f.c.Float64()
	m := math.Round(n)
	if d := math.Abs(n-m) + slack; d >= 0.4 {
		return nil, false
	}
	return T.Add(r, BV(64, uint64(int64(m)))), true
}

// finterval bounds a float term.
func (T *Terms) finterval(t *Term, depth int) (lo, hi float64, ok bool) {
	if t.w != 64 || depth > 12 {
		return
	}
	if t.isConst() {
		x := t.fval()
		return x, x, finite(x)
	}
	if x, isInt := T.exactInt(t); isInt {
		return float64(x.lo), float64(x.hi), true
	}
	switch t.op {
	case OFAdd, OFSub:
		a, b, ok1 := T.finterval(t.a, depth+1)
		c, d, ok2 := T.finterval(t.b, depth+1)
		if !ok1 || !ok2 {
			return
		}
		if t.op == OFSub {
			c, d = -d, -c
		}
		lo, hi = a+c, b+d
	case OFMul, OFDiv:
		x, y := t.a, t.b
		if x.isConst() && t.op == OFMul {
			x, y = y, x
		}
		if !y.isConst() || !finite(y.fval()) || y.fval() == 0 {
			return
		}
		a, b, ok1 := T.finterval(x, depth+1)
		if !ok1 {
			return
		}
		k := y.fval()
		if t.op == OFMul {
			lo, hi = a*k, b*k
		} else {
			lo, hi = a/k, b/k
		}
		if k < 0 {
			lo, hi = hi, lo
		}
	case OFRound:
		a, b, ok1 := T.finterval(t.a, depth+1)
		if !ok1 {
			return
		}
		lo, hi = froundNative(t.val, a), froundNative(t.val, b)
	default:
		return
	}
	return lo, hi, finite(lo) && finite(hi)
}

// affToS converts a float term to an integer when the result is certain.
func (T *Terms) affToS(t *Term) (*Term, bool) {
	if t.w != 64 {
		return nil, false
	}
	if lo, hi, ok := T.finterval(t, 0); ok && math.Abs(lo) < 1<<52 && math.Abs(hi) < 1<<52 && math.Trunc(lo) == math.Trunc(hi) {
		return BV(64, uint64(int64(lo))), true
	}
	switch t.op {
	case OFRound:
		if t.val == 3 || t.val == 4 {
			if f := T.affine(t.a, 0); f != nil {
				if n, ok := f.integer(T); ok {
					return n, true
				}
			}
		}
	case OFDiv:
		// the quotient of integers this small does not round up to the next integer
		n, ok1 := T.exactInt(t.a)
		k, ok2 := T.exactInt(t.b)
		if ok1 && ok2 && k.isConst() && k.sval() >= 1 && n.lo > -1<<50 && n.hi < 1<<50 {
			return T.SDiv(n, k), true
		}
	case OFAdd:
		// n + y truncates to n when 0 <= y < 1 with room for rounding
		a, b := t.a, t.b
		if _, ok := T.exactInt(a); !ok {
			a, b = b, a
		}
		n, ok := T.exactInt(a)
		if !ok || n.lo < 0 || n.hi > 1<<32 {
			return nil, false
		}
		lo, hi, ok := T.finterval(b, 0)
		if ok && lo >= 0 && 1-hi > math.Nextafter(float64(n.hi+1), math.Inf(1))-float64(n.hi+1) {
			return n, true
		}
	}
	return nil, false
}

// splitDiv writes t as k*q + r with 0 <= r < k when the linear form of t shows both.
func (T *Terms) splitDiv(t *Term, k int64) (q, r *Term, ok bool) {
	if t.w != 64 || k <= 1 || !inExact(t) || t.lo < 0 {
		return
	}
	switch t.op {
	case OAdd, OSub, OMul:
	default:
		return
	}
	f := &affForm{c: new(big.Rat)}
	T.linear(t, big.NewRat(1, 1), f)
	if len(f.at) > 6 || !f.c.IsInt() || !f.c.Num().IsInt64() {
		return
	}
	c := f.c.Num().Int64()
	qc := c / k
	if c%k < 0 {
		qc--
	}
	lo := c - qc*k
	hi := lo
	q, r = BV(64, uint64(qc)), BV(64, uint64(lo))
	some := false
	for i, a := range f.at {
		co := f.co[i]
		if !co.IsInt() || !co.Num().IsInt64() {
			return nil, nil, false
		}
		m := co.Num().Int64()
		if m == 0 {
			continue
		}
		if m%k == 0 {
			q = T.Add(q, T.Mul(a, BV(64, uint64(m/k))))
			some = true
			continue
		}
		x, y := float64(m)*float64(a.lo), float64(m)*float64(a.hi)
		if x > y {
			x, y = y, x
		}
		if math.Abs(x) > float64(k)*2 || math.Abs(y) > float64(k)*2 || math.Abs(y) > 1<<60 {
			return nil, nil, false
		}
		lo += min(m*a.lo, m*a.hi)
		hi += max(m*a.lo, m*a.hi)
		r = T.Add(r, T.Mul(a, BV(64, uint64(m))))
	}
	if !some || lo < 0 || hi >= k {
		return nil, nil, false
	}
	return q, r, true
}
