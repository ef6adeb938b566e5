package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (c *compiler) instr(i ssa.Instruction) insFn {
	switch x := i.(type) {
	case *ssa.Alloc:
		ti := tinfoOf(x.Type().Underlying().(*types.Pointer).Elem())
		dst := c.reg[x]
		return func(in *Interp, fr *Frame) {
			fr.regs[dst] = Ptr{in.newObjSlots(ti.zeroSlots()), 0}
		}
	case *ssa.Store:
		a, v := c.opnd(x.Addr), c.opnd(x.Val)
		return func(in *Interp, fr *Frame) {
			in.store(a.get(in, fr), v.get(in, fr))
		}
	case *ssa.UnOp:
		return c.unop(x)
	case *ssa.BinOp:
		dst, a, b := c.reg[x], c.opnd(x.X), c.opnd(x.Y)
		f := binop(x.Op, x.X.Type(), x.Y.Type())
		return func(in *Interp, fr *Frame) {
			fr.regs[dst] = f(in, in.fx(a.get(in, fr)), in.fx(b.get(in, fr)))
		}
	case *ssa.Call:
		dst := c.reg[x]
		call := c.call(&x.Call)
		pos := x.Pos()
		return func(in *Interp, fr *Frame) {
			fr.pos = pos
			fr.regs[dst] = call(in, fr)
		}
	case *ssa.Defer:
		return c.deferIns(&x.Call)
	case *ssa.RunDefers:
		return func(in *Interp, fr *Frame) {
			in.runDefers(fr)
			if fr.panicking {
				panic(fr.pv)
			}
		}
	case *ssa.Go:
		return func(in *Interp, fr *Frame) { in.unsupported("go statement") }
	case *ssa.Send:
		return func(in *Interp, fr *Frame) { in.unsupported("channel send") }
	case *ssa.Select:
		return func(in *Interp, fr *Frame) { in.unsupported("select") }
	case *ssa.MakeChan:
		dst := c.reg[x]
		return func(in *Interp, fr *Frame) { fr.regs[dst] = Ptr{in.newObj(1), 0} }
	case *ssa.FieldAddr:
		dst, a := c.reg[x], c.opnd(x.X)
		st := tinfoOf(x.X.Type().Underlying().(*types.Pointer).Elem())
		off := st.offs[x.Field]
		return func(in *Interp, fr *Frame) {
			switch p := a.get(in, fr).(type) {
			case Ptr:
				if p.obj == nil {
					in.rtPanic("invalid memory address or nil pointer dereference")
				}
				fr.regs[dst] = Ptr{p.obj, p.off + off}
			case *SymPtr:
				q := *p
				q.add += off
				fr.regs[dst] = &q
			default:
				in.unsupported("FieldAddr of %T", p)
			}
		}
	case *ssa.Field:
		dst, a := c.reg[x], c.opnd(x.X)
		st := tinfoOf(x.X.Type())
		off := st.offs[x.Field]
		f := st.fields[x.Field]
		return func(in *Interp, fr *Frame) {
			ag := a.get(in, fr).(Agg)
			if f.isAgg() {
				fr.regs[dst] = ag[off : off+f.n : off+f.n]
			} else {
				fr.regs[dst] = ag[off]
			}
		}
	case *ssa.IndexAddr:
		return c.indexAddr(x)
	case *ssa.Index:
		dst, a, idx := c.reg[x], c.opnd(x.X), c.opnd(x.Index)
		xt := tinfoOf(x.X.Type())
		su := isSignedT(x.Index.Type())
		if xt.k == kString {
			return func(in *Interp, fr *Frame) {
				fr.regs[dst] = in.strIndex(a.get(in, fr), idx.get(in, fr).(*Term), su)
			}
		}
		et := xt.elem
		return func(in *Interp, fr *Frame) {
			ag := a.get(in, fr).(Agg)
			k := in.boundsIdx(idx.get(in, fr).(*Term), xt.length, su)
			if !k.isConst() {
				o := in.newObjSlots(append([]Value(nil), ag...))
				fr.regs[dst] = in.loadSym(&SymPtr{obj: o, stride: et.n, n: xt.length, idx: k}, et)
				return
			}
			i := int(k.val)
			if et.isAgg() {
				fr.regs[dst] = ag[i*et.n : (i+1)*et.n]
			} else {
				fr.regs[dst] = ag[i]
			}
		}
	case *ssa.Extract:
		dst, a, k := c.reg[x], c.opnd(x.Tuple), x.Index
		return func(in *Interp, fr *Frame) {
			fr.regs[dst] = a.get(in, fr).(Tuple)[k]
		}
	case *ssa.ChangeType, *ssa.ChangeInterface:
		var ov ssa.Value
		if y, ok := i.(*ssa.ChangeType); ok {
			ov = y.X
		} else {
			ov = i.(*ssa.ChangeInterface).X
		}
		dst, a := c.reg[i.(ssa.Value)], c.opnd(ov)
		return func(in *Interp, fr *Frame) { fr.regs[dst] = a.get(in, fr) }
	case *ssa.Convert:
		dst, a := c.reg[x], c.opnd(x.X)
		f := convert(x.X.Type(), x.Type())
		return func(in *Interp, fr *Frame) { fr.regs[dst] = f(in, a.get(in, fr)) }
	case *ssa.MultiConvert:
		dst, a := c.reg[x], c.opnd(x.X)
		f := convert(x.X.Type(), x.Type())
		return func(in *Interp, fr *Frame) { fr.regs[dst] = f(in, a.get(in, fr)) }
	case *ssa.MakeInterface:
		dst, a := c.reg[x], c.opnd(x.X)
		t := canon(x.X.Type())
		return func(in *Interp, fr *Frame) { fr.regs[dst] = Iface{t, a.get(in, fr)} }
	case *ssa.MakeClosure:
		dst := c.reg[x]
		fn := x.Fn.(*ssa.Function)
		var bs []opnd
		for _, b := range x.Bindings {
			bs = append(bs, c.opnd(b))
		}
		return func(in *Interp, fr *Frame) {
			cl := &Closure{fn: fn}
			for i := range bs {
				cl.free = append(cl.free, bs[i].get(in, fr))
			}
			fr.regs[dst] = cl
		}
	case *ssa.MakeMap:
		dst := c.reg[x]
		return func(in *Interp, fr *Frame) {
			fr.regs[dst] = in.newMap()
		}
	case *ssa.MakeSlice:
		dst, l, cp := c.reg[x], c.opnd(x.Len), c.opnd(x.Cap)
		et := tinfoOf(x.Type().Underlying().(*types.Slice).Elem())
		ls, cs := isSignedT(x.Len.Type()), isSignedT(x.Cap.Type())
		return func(in *Interp, fr *Frame) {
			fr.regs[dst] = in.makeSlice(et, in.widen(l.get(in, fr).(*Term), ls), in.widen(cp.get(in, fr).(*Term), cs))
		}
	case *ssa.Slice:
		return c.sliceIns(x)
	case *ssa.SliceToArrayPointer:
		dst, a := c.reg[x], c.opnd(x.X)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		return func(in *Interp, fr *Frame) {
			s := a.get(in, fr).(Slice)
			if int(n) > s.len {
				in.rtPanic("cannot convert slice to array pointer: length out of range")
			}
			if s.obj == nil {
				fr.regs[dst] = Ptr{}
				return
			}
			fr.regs[dst] = Ptr{s.obj, s.off}
		}
	case *ssa.Lookup:
		dst, m, k := c.reg[x], c.opnd(x.X), c.opnd(x.Index)
		if tinfoOf(x.X.Type()).k == kString {
			su := isSignedT(x.Index.Type())
			return func(in *Interp, fr *Frame) {
				fr.regs[dst] = in.strIndex(m.get(in, fr), k.get(in, fr).(*Term), su)
			}
		}
		et := tinfoOf(x.X.Type().Underlying().(*types.Map).Elem())
		commaok := x.CommaOk
		return func(in *Interp, fr *Frame) {
			v, ok := in.mapGet(m.get(in, fr).(*MapObj), k.get(in, fr))
			if !ok {
				v = et.zeroValue()
			}
			if commaok {
				fr.regs[dst] = Tuple{v, mkBool(ok)}
			} else {
				fr.regs[dst] = v
			}
		}
	case *ssa.MapUpdate:
		m, k, v := c.opnd(x.Map), c.opnd(x.Key), c.opnd(x.Value)
		return func(in *Interp, fr *Frame) {
			in.mapSet(m.get(in, fr).(*MapObj), k.get(in, fr), v.get(in, fr))
		}
	case *ssa.Range:
		dst, a := c.reg[x], c.opnd(x.X)
		return func(in *Interp, fr *Frame) {
			v := a.get(in, fr)
			if m, ok := v.(*MapObj); ok {
				fr.regs[dst] = &mapIter{m: m}
			} else {
				fr.regs[dst] = &mapIter{s: v}
			}
		}
	case *ssa.Next:
		dst, a := c.reg[x], c.opnd(x.Iter)
		if x.IsString {
			return func(in *Interp, fr *Frame) {
				in.noSpec()
				it := a.get(in, fr).(*mapIter)
				fr.regs[dst] = in.strNext(it)
			}
		}
		tt := x.Type().(*types.Tuple)
		zero := func(t types.Type) Value {
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				return nil
			}
			return tinfoOf(t).zeroValue()
		}
		return func(in *Interp, fr *Frame) {
			in.noSpec()
			it := a.get(in, fr).(*mapIter)
			for it.m != nil && it.i < len(it.m.keys) {
				k := it.i
				it.i++
				if it.m.dead[k] {
					continue
				}
				fr.regs[dst] = Tuple{termTrue, it.m.keys[k], it.m.vals[k]}
				return
			}
			fr.regs[dst] = Tuple{termFalse, zero(tt.At(1).Type()), zero(tt.At(2).Type())}
		}
	case *ssa.TypeAssert:
		return c.typeAssert(x)
	}
	return func(in *Interp, fr *Frame) { in.unsupported("instruction %T", i) }
}

func isSignedT(t types.Type) bool {
	return tinfoOf(t).k == kInt
}

func (in *Interp) widen(t *Term, signed bool) *Term {
	if t.w == 64 {
		return t
	}
	if signed {
		return in.T.SExt(t, 64)
	}
	return in.T.ZExt(t, 64)
}

// boundsIdx returns the 64-bit index after checking 0 <= idx < n.
func (in *Interp) boundsIdx(idx *Term, n int, signed bool) *Term {
	idx = in.fx(idx).(*Term)
	if idx.isConst() {
		var v int64
		if signed {
			v = idx.sval()
		} else {
			v = int64(idx.val)
		}
		if v < 0 || v >= int64(n) {
			in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", v, n))
		}
		return BV(64, uint64(v))
	}
	k := in.widen(idx, signed)
	ok := in.T.Ult(k, BV(64, uint64(n)))
	if !in.branchChk(ok) {
		if in.spec == 0 && in.ex != nil {
			in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", in.pickQuiet(idx), n))
		}
		in.rtPanic(fmt.Sprintf("index out of range [?] with length %d", n))
	}
	if k.isConst() {
		return k
	}
	return k
}

func (in *Interp) strIndex(s Value, idx *Term, signed bool) *Term {
	n := strLen(s)
	k := in.boundsIdx(idx, n, signed)
	if k.isConst() {
		return strAt(s, int(k.val))
	}
	b := strBytes(s)
	vals := make([]Value, len(b))
	for i := range b {
		vals[i] = b[i]
	}
	v, ok := in.iteTree(k, vals)
	if !ok {
		in.unsupported("string index")
	}
	return v.(*Term)
}

// iteTree selects vals[k] for k within [0,len(vals)).
func (in *Interp) iteTree(k *Term, vals []Value) (Value, bool) {
	lo, hi := 0, len(vals)-1
	if k.lo > int64(lo) {
		lo = int(k.lo)
	}
	if k.hi < int64(hi) && k.hi >= 0 {
		hi = int(k.hi)
	}
	if lo > hi {
		return vals[0], true
	}
	// runs of equal values
	type run struct {
		start int
		v     Value
	}
	var runs []run
	for i := lo; i <= hi; i++ {
		if len(runs) > 0 && sameVal(runs[len(runs)-1].v, vals[i]) {
			continue
		}
		runs = append(runs, run{i, vals[i]})
	}
	var build func(a, b int) (Value, bool)
	build = func(a, b int) (Value, bool) {
		if a == b {
			return runs[a].v, true
		}
		m := (a + b + 1) / 2
		l, ok := build(a, m-1)
		if !ok {
			return nil, false
		}
		r, ok := build(m, b)
		if !ok {
			return nil, false
		}
		return in.mergeVal(in.T.Ult(k, BV(64, uint64(runs[m].start))), l, r)
	}
	return build(0, len(runs)-1)
}

func sameVal(a, b Value) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && (x == y || x.isConst() && y.isConst() && x.val == y.val && x.w == y.w && x.kind == y.kind)
	case string:
		y, ok := b.(string)
		return ok && x == y
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x == y
	}
	return false
}

// ---------- memory ----------

func (in *Interp) load(p Value, ti *tinfo) Value {
	switch p := p.(type) {
	case Ptr:
		if p.obj == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		if ti.isAgg() {
			if p.off+ti.n > len(p.obj.slots) {
				in.unsupported("load past object")
			}
			return Agg(append([]Value(nil), p.obj.slots[p.off:p.off+ti.n]...))
		}
		if p.off >= len(p.obj.slots) {
			in.unsupported("load past object (zero-size)")
		}
		v := p.obj.slots[p.off]
		if t, ok := v.(*Term); ok && t.w == ti.w {
			// reinterpretation through unsafe.Pointer
			if t.kind == KBV && ti.k == kFloat {
				return in.T.FFromBits(t)
			}
			if t.kind == KFP && (ti.k == kInt || ti.k == kUint) {
				return in.T.FToBits(t)
			}
		}
		return v
	case *SymPtr:
		return in.loadSym(p, ti)
	}
	in.unsupported("load from %T", p)
	return nil
}

func (in *Interp) loadSym(p *SymPtr, ti *tinfo) Value {
	k := p.idx
	if p.n > 0 && p.n <= 4096 {
		okAll := true
		out := make([]Value, ti.n)
		vals := make([]Value, p.n)
		for j := 0; j < ti.n && okAll; j++ {
			for i := 0; i < p.n; i++ {
				vals[i] = p.obj.slots[p.base+i*p.stride+p.add+j]
			}
			v, ok := in.iteTree(k, vals)
			if !ok {
				okAll = false
				break
			}
			out[j] = v
		}
		if okAll {
			if ti.isAgg() {
				return Agg(out)
			}
			return out[0]
		}
	}
	i := int(in.concretize(k))
	return in.load(Ptr{p.obj, p.base + i*p.stride + p.add}, ti)
}

func (in *Interp) store(p Value, v Value) {
	switch p := p.(type) {
	case Ptr:
		if p.obj == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		if a, ok := v.(Agg); ok {
			for i, x := range a {
				in.setSlot(p.obj, p.off+i, x)
			}
			return
		}
		in.setSlot(p.obj, p.off, v)
		return
	case *SymPtr:
		if t, ok := v.(*Term); ok && p.n <= 128 {
			good := true
			for i := 0; i < p.n; i++ {
				o, ok := p.obj.slots[p.base+i*p.stride+p.add].(*Term)
				if !ok || o.kind != t.kind || o.w != t.w {
					good = false
				}
			}
			if good {
				for i := 0; i < p.n; i++ {
					sl := p.base + i*p.stride + p.add
					c := in.T.Eq(p.idx, BV(64, uint64(i)))
					if c.isFalse() {
						continue
					}
					in.setSlot(p.obj, sl, in.T.Ite(c, t, p.obj.slots[sl].(*Term)))
				}
				return
			}
		}
		i := int(in.concretize(p.idx))
		in.store(Ptr{p.obj, p.base + i*p.stride + p.add}, v)
		return
	}
	in.unsupported("store to %T", p)
}

func (c *compiler) indexAddr(x *ssa.IndexAddr) insFn {
	dst, a, idx := c.reg[x], c.opnd(x.X), c.opnd(x.Index)
	su := isSignedT(x.Index.Type())
	var et *tinfo
	alen := -1
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		et = tinfoOf(u.Elem())
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		et = tinfoOf(at.Elem())
		alen = int(at.Len())
	}
	st := et.n
	return func(in *Interp, fr *Frame) {
		iv := idx.get(in, fr).(*Term)
		switch s := a.get(in, fr).(type) {
		case Slice:
			k := in.boundsIdx(iv, s.len, su)
			if k.isConst() {
				fr.regs[dst] = Ptr{s.obj, s.off + int(k.val)*st}
				return
			}
			fr.regs[dst] = &SymPtr{obj: s.obj, base: s.off, stride: st, n: s.len, idx: k}
		case Ptr:
			if s.obj == nil {
				in.rtPanic("invalid memory address or nil pointer dereference")
			}
			k := in.boundsIdx(iv, alen, su)
			if k.isConst() {
				fr.regs[dst] = Ptr{s.obj, s.off + int(k.val)*st}
				return
			}
			fr.regs[dst] = &SymPtr{obj: s.obj, base: s.off, stride: st, n: alen, idx: k}
		case *SymPtr:
			k := in.boundsIdx(iv, alen, su)
			i := 0
			if k.isConst() {
				i = int(k.val)
			} else {
				i = int(in.concretize(k))
			}
			q := *s
			q.add += i * st
			fr.regs[dst] = &q
		default:
			in.unsupported("IndexAddr of %T", s)
		}
	}
}

func (in *Interp) makeSlice(et *tinfo, l, cp *Term) Slice {
	if l.isConst() && cp.isConst() {
		n, m := l.sval(), cp.sval()
		if n < 0 || n > 1<<46 {
			in.rtPanic("makeslice: len out of range")
		}
		if m < n || m > 1<<46 {
			in.rtPanic("makeslice: cap out of range")
		}
		in.checkAlloc(m, et)
		return in.mkSlice(et, int(n), int(m))
	}
	in.noSpec()
	// negative or absurd sizes panic
	big := BV(64, 1<<46)
	if !in.branch(in.T.Ule(l, big)) {
		in.rtPanic("makeslice: len out of range")
	}
	if cp != l && !in.branch(in.T.And(in.T.Ule(cp, big), in.T.Ule(l, cp))) {
		in.rtPanic("makeslice: cap out of range")
	}
	n := in.concretizeSize(l, et)
	m := n
	if cp != l {
		m = in.concretizeSize(cp, et)
	}
	in.checkAlloc(int64(m), et)
	return in.mkSlice(et, n, m)
}

// allocLimit is in slots (elements); larger allocations stop the path.
func (in *Interp) checkAlloc(n int64, et *tinfo) {
	lim := int64(8 << 20)
	if in.ex != nil && in.ex.allocLimit > 0 {
		lim = in.ex.allocLimit
	}
	sz := int64(et.n)
	if sz == 0 {
		return
	}
	if n > lim/sz {
		in.noSpec()
		panic(pathStop{"alloc", fmt.Sprintf("allocation of %d elements in %s", n, in.whereAmI())})
	}
}

func (in *Interp) concretizeSize(t *Term, et *tinfo) int {
	if t.isConst() {
		return int(t.val)
	}
	lim := int64(8 << 20)
	if in.ex != nil && in.ex.allocLimit > 0 {
		lim = in.ex.allocLimit
	}
	sz := int64(et.n)
	if sz == 0 {
		sz = 1
	}
	if in.branch(in.T.Ult(BV(64, uint64(lim/sz)), t)) {
		panic(pathStop{"alloc", "allocation of symbolic size in " + in.whereAmI()})
	}
	// small sizes are enumerated one by one; one representative stands for the rest
	if in.branch(in.T.Ult(BV(64, 600), t)) {
		v := in.pickOne(t)
		return int(v)
	}
	return int(in.concretize(t))
}

func (in *Interp) mkSlice(et *tinfo, n, m int) Slice {
	slots := make([]Value, m*et.n)
	if et.n == 1 && !et.isAgg() {
		z := et.zero
		for i := range slots {
			slots[i] = z
		}
	} else if et.n > 0 {
		z := et.flatZero()
		for i := 0; i < m; i++ {
			copy(slots[i*et.n:], z)
		}
	}
	return Slice{in.newObjSlots(slots), 0, n, m}
}

func (c *compiler) sliceIns(x *ssa.Slice) insFn {
	dst, a := c.reg[x], c.opnd(x.X)
	var lo, hi, mx *opnd
	var los, his, mxs bool
	if x.Low != nil {
		o := c.opnd(x.Low)
		lo = &o
		los = isSignedT(x.Low.Type())
	}
	if x.High != nil {
		o := c.opnd(x.High)
		hi = &o
		his = isSignedT(x.High.Type())
	}
	if x.Max != nil {
		o := c.opnd(x.Max)
		mx = &o
		mxs = isSignedT(x.Max.Type())
	}
	isStr := tinfoOf(x.X.Type()).k == kString
	st := 1
	alen := 0
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		st = tinfoOf(u.Elem()).n
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		st = tinfoOf(at.Elem()).n
		alen = int(at.Len())
	}
	return func(in *Interp, fr *Frame) {
		v := a.get(in, fr)
		var obj *Obj
		off, ln, cp := 0, 0, 0
		switch s := v.(type) {
		case string, *SStr:
			ln = strLen(v)
			cp = ln
		case Slice:
			obj, off, ln, cp = s.obj, s.off, s.len, s.cap
		case Ptr:
			if s.obj == nil {
				in.rtPanic("invalid memory address or nil pointer dereference")
			}
			obj, off, ln, cp = s.obj, s.off, alen, alen
		default:
			in.unsupported("slice of %T", v)
		}
		_ = isStr
		l, h, m := BV(64, 0), BV(64, uint64(ln)), BV(64, uint64(cp))
		if lo != nil {
			l = in.widen(lo.get(in, fr).(*Term), los)
		}
		if hi != nil {
			h = in.widen(hi.get(in, fr).(*Term), his)
		}
		if mx != nil {
			m = in.widen(mx.get(in, fr).(*Term), mxs)
		}
		var li, hv, mi int
		if l.isConst() && h.isConst() && m.isConst() {
			ls, hs, ms := l.sval(), h.sval(), m.sval()
			if ms < 0 || ms > int64(cp) || hs < 0 || hs > ms || ls < 0 || ls > hs {
				in.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", ls, hs, ms, cp))
			}
			li, hv, mi = int(ls), int(hs), int(ms)
		} else {
			T := in.T
			ok := T.Ule(m, BV(64, uint64(cp)))
			ok = T.And(ok, T.Ule(h, m))
			ok = T.And(ok, T.Ule(l, h))
			if !in.branchChk(ok) {
				in.rtPanic(fmt.Sprintf("slice bounds out of range with capacity %d", cp))
			}
			li, hv, mi = int(in.concretize(l)), int(in.concretize(h)), int(in.concretize(m))
		}
		switch v.(type) {
		case string, *SStr:
			fr.regs[dst] = strSlice(v, li, hv)
		default:
			if obj == nil {
				fr.regs[dst] = Slice{}
				return
			}
			fr.regs[dst] = Slice{obj, off + li*st, hv - li, mi - li}
		}
	}
}

// ---------- maps ----------

func (in *Interp) newMap() *MapObj {
	return &MapObj{idx: map[any]int{}, epoch: in.epoch}
}

type keyC struct {
	k Kind
	w uint8
	v uint64
}
type keyI struct {
	t types.Type
	v any
}
type keyS string

// hashKey returns a comparable Go key for concrete values.
func hashKey(v Value) (any, bool) {
	switch x := v.(type) {
	case *Term:
		if !x.isConst() {
			return nil, false
		}
		if x.kind == KFP {
			f := x.fval()
			if f == 0 {
				return keyC{KFP, x.w, 0}, true
			}
		}
		return keyC{x.kind, x.w, x.val}, true
	case string:
		return x, true
	case *SStr:
		return nil, false
	case Ptr:
		return x, true
	case *Closure, *MapObj:
		return x, true
	case Iface:
		if x.t == nil {
			return keyI{}, true
		}
		k, ok := hashKey(x.v)
		if !ok {
			return nil, false
		}
		return keyI{x.t, k}, true
	case Agg:
		s := ""
		for _, e := range x {
			k, ok := hashKey(e)
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("%T|%v;", k, k)
		}
		return keyS(s), true
	}
	return nil, false
}

func (in *Interp) mapFind(m *MapObj, k Value) int {
	if m == nil {
		return -1
	}
	if i, ok := k.(Iface); ok && i.t != nil {
		switch tinfoOf(i.t).k {
		case kSlice, kMap, kFunc:
			in.rtPanic("hash of unhashable type")
		}
	}
	h, conc := hashKey(k)
	if conc {
		if i, ok := m.idx[h]; ok {
			return i
		}
		if m.nsym == 0 {
			return -1
		}
	}
	for i := range m.keys {
		if m.dead[i] {
			continue
		}
		if conc {
			if _, c2 := hashKey(m.keys[i]); c2 {
				continue
			}
		}
		if in.branch(in.eq(m.keys[i], k)) {
			return i
		}
	}
	return -1
}

func (in *Interp) mapGet(m *MapObj, k Value) (Value, bool) {
	i := in.mapFind(m, k)
	if i < 0 {
		return nil, false
	}
	return m.vals[i], true
}

func (in *Interp) mapTouch(m *MapObj) {
	in.noSpec()
	if m.epoch == 0 && in.epoch != 0 {
		if in.watch {
			in.sharedWrite(m)
		}
		cp := *m
		cp.keys = append([]Value(nil), m.keys...)
		cp.vals = append([]Value(nil), m.vals...)
		cp.dead = append([]bool(nil), m.dead...)
		cp.idx = map[any]int{}
		for k, v := range m.idx {
			cp.idx[k] = v
		}
		in.mapJrnl = append(in.mapJrnl, mapJournal{m, cp})
		m.epoch = in.epoch
	}
}

func (in *Interp) mapSet(m *MapObj, k, v Value) {
	if m == nil {
		in.userPanic(in.rtErrorPlain("assignment to entry in nil map"))
	}
	in.mapTouch(m)
	i := in.mapFind(m, k)
	if i >= 0 {
		m.vals[i] = v
		return
	}
	h, conc := hashKey(k)
	if conc {
		m.idx[h] = len(m.keys)
	} else {
		m.nsym++
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
	m.dead = append(m.dead, false)
	m.n++
}

func (in *Interp) rtErrorPlain(s string) Iface {
	f := in.rtError("")
	f.v = s
	return f
}

func (in *Interp) mapDelete(m *MapObj, k Value) {
	if m == nil {
		return
	}
	in.mapTouch(m)
	i := in.mapFind(m, k)
	if i < 0 {
		return
	}
	h, conc := hashKey(m.keys[i])
	if conc {
		delete(m.idx, h)
	} else {
		m.nsym--
	}
	m.dead[i] = true
	m.n--
}

// ---------- equality ----------

func (in *Interp) eq(a, b Value) *Term {
	T := in.T
	switch x := a.(type) {
	case *Term:
		y := b.(*Term)
		if x.kind == KFP {
			return T.FCmp(OFEq, x, y)
		}
		return T.Eq(x, y)
	case string:
		if y, ok := b.(string); ok {
			return mkBool(x == y)
		}
		return in.strEq(a, b)
	case *SStr:
		return in.strEq(a, b)
	case Ptr:
		if y, ok := b.(Ptr); ok {
			return mkBool(x == y)
		}
		if y, ok := b.(*SymPtr); ok {
			return in.symPtrEq(y, x)
		}
	case *SymPtr:
		if y, ok := b.(Ptr); ok {
			return in.symPtrEq(x, y)
		}
	case Slice:
		y := b.(Slice)
		return mkBool(x.obj == nil && y.obj == nil)
	case *MapObj:
		return mkBool(x == b.(*MapObj))
	case *Closure:
		y := b.(*Closure)
		return mkBool(x == nil && y == nil)
	case Iface:
		y := b.(Iface)
		if x.t != y.t {
			return termFalse
		}
		if x.t == nil {
			return termTrue
		}
		if !comparable(x.t) {
			in.userPanic(in.rtError("comparing uncomparable type " + x.t.String()))
		}
		return in.eq(x.v, y.v)
	case Agg:
		y := b.(Agg)
		r := termTrue
		for i := range x {
			r = T.And(r, in.eq(x[i], y[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	}
	in.unsupported("== on %T and %T", a, b)
	return nil
}

var comparableCache sync.Map

func comparable(t types.Type) bool {
	if v, ok := comparableCache.Load(t); ok {
		return v.(bool)
	}
	r := types.Comparable(t)
	comparableCache.Store(t, r)
	return r
}

func (in *Interp) symPtrEq(x *SymPtr, y Ptr) *Term {
	if y.obj != x.obj {
		return termFalse
	}
	d := y.off - x.base - x.add
	if x.stride == 0 || d%x.stride != 0 || d < 0 {
		return termFalse
	}
	return in.T.Eq(x.idx, BV(64, uint64(d/x.stride)))
}

func (in *Interp) strEq(a, b Value) *Term {
	n := strLen(a)
	if n != strLen(b) {
		return termFalse
	}
	r := termTrue
	for i := 0; i < n; i++ {
		r = in.T.And(r, in.T.Eq(strAt(a, i), strAt(b, i)))
		if r.isFalse() {
			return r
		}
	}
	return r
}

func (in *Interp) strLess(a, b Value) *Term {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return mkBool(x < y)
		}
	}
	n, m := strLen(a), strLen(b)
	k := min(n, m)
	r := mkBool(n < m)
	for i := k - 1; i >= 0; i-- {
		x, y := strAt(a, i), strAt(b, i)
		r = in.T.Ite(in.T.Ult(x, y), termTrue, in.T.And(in.T.Eq(x, y), r))
	}
	return r
}

// ---------- unary / binary ----------

func (c *compiler) unop(x *ssa.UnOp) insFn {
	dst, a := c.reg[x], c.opnd(x.X)
	ti := tinfoOf(x.X.Type())
	switch x.Op {
	case token.MUL:
		et := tinfoOf(x.X.Type().Underlying().(*types.Pointer).Elem())
		if !et.isAgg() && (et.w != 64 && et.w != 32 || et.k == kPtr) {
			return func(in *Interp, fr *Frame) {
				if p, ok := a.get(in, fr).(Ptr); ok && p.obj != nil && p.off < len(p.obj.slots) {
					fr.regs[dst] = p.obj.slots[p.off]
					return
				}
				fr.regs[dst] = in.load(a.get(in, fr), et)
			}
		}
		return func(in *Interp, fr *Frame) { fr.regs[dst] = in.load(a.get(in, fr), et) }
	case token.NOT:
		return func(in *Interp, fr *Frame) { fr.regs[dst] = in.T.Not(a.get(in, fr).(*Term)) }
	case token.SUB:
		if ti.k == kFloat {
			return func(in *Interp, fr *Frame) { fr.regs[dst] = in.T.FNeg(a.get(in, fr).(*Term)) }
		}
		return func(in *Interp, fr *Frame) { fr.regs[dst] = in.T.Neg(a.get(in, fr).(*Term)) }
	case token.XOR:
		return func(in *Interp, fr *Frame) { fr.regs[dst] = in.T.BNot(a.get(in, fr).(*Term)) }
	}
	return func(in *Interp, fr *Frame) { in.unsupported("unop %s", x.Op) }
}

func binop(op token.Token, xt, yt types.Type) func(in *Interp, a, b Value) Value {
	ti := tinfoOf(xt)
	yi := tinfoOf(yt)
	switch op {
	case token.EQL:
		return func(in *Interp, a, b Value) Value { return in.eqMixed(a, b) }
	case token.NEQ:
		return func(in *Interp, a, b Value) Value { return in.T.Not(in.eqMixed(a, b)) }
	case token.SHL, token.SHR:
		ysigned := yi.k == kInt
		xsigned := ti.k == kInt
		return func(in *Interp, a, b Value) Value {
			return in.shift(op == token.SHL, a.(*Term), b.(*Term), xsigned, ysigned)
		}
	}
	switch ti.k {
	case kString:
		switch op {
		case token.ADD:
			return func(in *Interp, a, b Value) Value { return strConcat(a, b) }
		case token.LSS:
			return func(in *Interp, a, b Value) Value { return in.strLess(a, b) }
		case token.GTR:
			return func(in *Interp, a, b Value) Value { return in.strLess(b, a) }
		case token.LEQ:
			return func(in *Interp, a, b Value) Value { return in.T.Not(in.strLess(b, a)) }
		case token.GEQ:
			return func(in *Interp, a, b Value) Value { return in.T.Not(in.strLess(a, b)) }
		}
	case kFloat:
		switch op {
		case token.ADD:
			return func(in *Interp, a, b Value) Value { return in.T.FBin(OFAdd, a.(*Term), b.(*Term)) }
		case token.SUB:
			return func(in *Interp, a, b Value) Value { return in.T.FBin(OFSub, a.(*Term), b.(*Term)) }
		case token.MUL:
			return func(in *Interp, a, b Value) Value { return in.T.FBin(OFMul, a.(*Term), b.(*Term)) }
		case token.QUO:
			return func(in *Interp, a, b Value) Value { return in.T.FBin(OFDiv, a.(*Term), b.(*Term)) }
		case token.LSS:
			return func(in *Interp, a, b Value) Value { return in.T.FCmp(OFLt, a.(*Term), b.(*Term)) }
		case token.GTR:
			return func(in *Interp, a, b Value) Value { return in.T.FCmp(OFLt, b.(*Term), a.(*Term)) }
		case token.LEQ:
			return func(in *Interp, a, b Value) Value { return in.T.FCmp(OFLe, a.(*Term), b.(*Term)) }
		case token.GEQ:
			return func(in *Interp, a, b Value) Value { return in.T.FCmp(OFLe, b.(*Term), a.(*Term)) }
		}
	case kInt, kUint:
		sg := ti.k == kInt
		tt := func(f func(T *Terms, a, b *Term) *Term) func(in *Interp, a, b Value) Value {
			return func(in *Interp, a, b Value) Value { return f(in.T, a.(*Term), b.(*Term)) }
		}
		switch op {
		case token.ADD:
			return tt((*Terms).Add)
		case token.SUB:
			return tt((*Terms).Sub)
		case token.MUL:
			return tt((*Terms).Mul)
		case token.AND:
			return tt((*Terms).BAnd)
		case token.OR:
			return tt((*Terms).BOr)
		case token.XOR:
			return tt((*Terms).BXor)
		case token.AND_NOT:
			return tt(func(T *Terms, a, b *Term) *Term { return T.BAnd(a, T.BNot(b)) })
		case token.QUO, token.REM:
			quo := op == token.QUO
			return func(in *Interp, a, b Value) Value {
				x, y := a.(*Term), b.(*Term)
				if y.isConst() {
					if y.val == 0 {
						in.rtPanic("integer divide by zero")
					}
				} else if in.branchChk(in.T.Eq(y, BVany(y.w, 0))) {
					in.rtPanic("integer divide by zero")
				}
				switch {
				case sg && quo:
					return in.T.SDiv(x, y)
				case sg:
					return in.T.SRem(x, y)
				case quo:
					return in.T.UDiv(x, y)
				default:
					return in.T.URem(x, y)
				}
			}
		}
		lt, le := (*Terms).Ult, (*Terms).Ule
		if sg {
			lt, le = (*Terms).Slt, (*Terms).Sle
		}
		switch op {
		case token.LSS:
			return tt(lt)
		case token.LEQ:
			return tt(le)
		case token.GTR:
			return tt(func(T *Terms, a, b *Term) *Term { return lt(T, b, a) })
		case token.GEQ:
			return tt(func(T *Terms, a, b *Term) *Term { return le(T, b, a) })
		}
	case kBool:
		switch op {
		case token.AND, token.LAND:
			return func(in *Interp, a, b Value) Value { return in.T.And(a.(*Term), b.(*Term)) }
		case token.OR, token.LOR:
			return func(in *Interp, a, b Value) Value { return in.T.Or(a.(*Term), b.(*Term)) }
		case token.XOR:
			return func(in *Interp, a, b Value) Value { return in.T.Not(in.T.Eq(a.(*Term), b.(*Term))) }
		}
	}
	return func(in *Interp, a, b Value) Value {
		in.unsupported("binop %s on %s", op, xt)
		return nil
	}
}

// eqMixed handles comparisons where one side is a nil constant of another representation.
func (in *Interp) eqMixed(a, b Value) *Term {
	if x, ok := a.(Iface); ok {
		if _, ok := b.(Iface); !ok {
			// interface compared with concrete value (ssa normally converts)
			_ = x
			in.unsupported("mixed comparison")
		}
	}
	return in.eq(a, b)
}

func (in *Interp) shift(left bool, x, y *Term, xs, ys bool) *Term {
	T := in.T
	if ys && !y.nonNeg() {
		if in.branchChk(T.Slt(y, BVany(y.w, 0))) {
			in.rtPanic("negative shift amount")
		}
	}
	var amt *Term
	w := x.w
	switch {
	case y.w == w:
		amt = y
	case y.w < w:
		amt = T.ZExt(y, w)
	default:
		if y.isConst() {
			v := y.val
			if v > uint64(w) {
				v = uint64(w)
			}
			amt = BV(w, v)
		} else if y.hi <= int64(maskW(w)>>1) && y.lo >= 0 {
			amt = T.Extract(w-1, 0, y)
		} else {
			amt = T.Ite(T.Ult(y, BVany(y.w, uint64(w))), T.Extract(w-1, 0, y), BV(w, uint64(w)))
		}
	}
	if left {
		return T.Shl(x, amt)
	}
	if xs {
		return T.Ashr(x, amt)
	}
	return T.Lshr(x, amt)
}

// ---------- conversions ----------

func convert(from, to types.Type) func(in *Interp, v Value) Value {
	f, t := tinfoOf(from), tinfoOf(to)
	id := func(in *Interp, v Value) Value { return v }
	isNum := func(k kind) bool { return k == kInt || k == kUint }
	switch {
	case isNum(f.k) && isNum(t.k):
		sg := f.k == kInt
		return func(in *Interp, v Value) Value {
			x := v.(*Term)
			return in.intConv(x, t.w, sg)
		}
	case isNum(f.k) && t.k == kFloat:
		sg := f.k == kInt
		return func(in *Interp, v Value) Value {
			if sg {
				return in.T.FFromS(v.(*Term), t.w)
			}
			return in.T.FFromU(v.(*Term), t.w)
		}
	case f.k == kFloat && isNum(t.k):
		u64 := t.k == kUint && t.w == 64
		return func(in *Interp, v Value) Value {
			if u64 {
				return in.T.FToU(v.(*Term))
			}
			return in.intConv(in.T.FToS(v.(*Term)), t.w, true)
		}
	case f.k == kFloat && t.k == kFloat:
		return func(in *Interp, v Value) Value { return in.T.FCvt(v.(*Term), t.w) }
	case isNum(f.k) && t.k == kString:
		sg := f.k == kInt
		return func(in *Interp, v Value) Value {
			x := in.widen(v.(*Term), sg)
			return in.runeToStr(x)
		}
	case f.k == kString && t.k == kSlice:
		et := tinfoOf(to.Underlying().(*types.Slice).Elem())
		if et.w == 8 {
			return func(in *Interp, v Value) Value { return in.bytesSlice(strBytes(v)) }
		}
		return func(in *Interp, v Value) Value { return in.strToRunes(v) }
	case f.k == kSlice && t.k == kString:
		et := tinfoOf(from.Underlying().(*types.Slice).Elem())
		if et.w == 8 {
			return func(in *Interp, v Value) Value { return in.sliceStr(v.(Slice)) }
		}
		return func(in *Interp, v Value) Value { return in.runesToStr(v.(Slice)) }
	case f.k == kString && t.k == kString, f.k == kPtr && t.k == kPtr:
		return id
	case f.k == t.k:
		return id
	}
	return func(in *Interp, v Value) Value {
		in.unsupported("conversion %s -> %s", from, to)
		return nil
	}
}

func (in *Interp) intConv(x *Term, w uint8, signed bool) *Term {
	switch {
	case x.w == w:
		return x
	case x.w > w:
		return in.T.Extract(w-1, 0, x)
	case signed:
		return in.T.SExt(x, w)
	default:
		return in.T.ZExt(x, w)
	}
}

func (in *Interp) bytesSlice(b []*Term) Slice {
	slots := make([]Value, len(b))
	for i, t := range b {
		slots[i] = t
	}
	return Slice{in.newObjSlots(slots), 0, len(b), len(b)}
}

func (in *Interp) sliceTerms(s Slice) []*Term {
	out := make([]*Term, s.len)
	for i := 0; i < s.len; i++ {
		out[i] = s.obj.slots[s.off+i].(*Term)
	}
	return out
}

func (in *Interp) sliceStr(s Slice) Value { return mkStr(in.sliceTerms(s)) }

// encode one rune (32-bit term)
func (in *Interp) encodeRune(r *Term) []*Term {
	if r.isConst() {
		var out []*Term
		for _, b := range []byte(string(rune(int32(r.sval())))) {
			out = append(out, BV(8, uint64(b)))
		}
		return out
	}
	T := in.T
	r = in.intConv(r, 32, true)
	ex := func(hi, lo uint8, w uint8) *Term { return T.ZExt(T.Extract(hi, lo, r), w) }
	or := func(a *Term, c uint64) *Term { return T.BOr(a, BV(8, c)) }
	if in.branch(T.Ult(r, BV(32, 0x80))) {
		return []*Term{T.Extract(7, 0, r)}
	}
	if in.branch(T.Ult(r, BV(32, 0x800))) {
		return []*Term{or(ex(10, 6, 8), 0xC0), or(ex(5, 0, 8), 0x80)}
	}
	bad := T.Or(T.Ult(BV(32, 0x10FFFF), r), T.And(T.Ule(BV(32, 0xD800), r), T.Ule(r, BV(32, 0xDFFF))))
	if in.branch(bad) {
		return []*Term{BV(8, 0xEF), BV(8, 0xBF), BV(8, 0xBD)}
	}
	if in.branch(T.Ult(r, BV(32, 0x10000))) {
		return []*Term{or(ex(15, 12, 8), 0xE0), or(ex(11, 6, 8), 0x80), or(ex(5, 0, 8), 0x80)}
	}
	return []*Term{or(ex(20, 18, 8), 0xF0), or(ex(17, 12, 8), 0x80), or(ex(11, 6, 8), 0x80), or(ex(5, 0, 8), 0x80)}
}

func (in *Interp) runeToStr(x *Term) Value {
	if x.isConst() {
		v := x.sval()
		if v < 0 || v > utf8.MaxRune {
			return "\uFFFD"
		}
		return string(rune(v))
	}
	if x.w > 32 {
		if in.branch(in.T.Ult(BV(x.w, 0x10FFFF), x)) {
			return "\uFFFD"
		}
		x = in.T.Extract(31, 0, x)
	}
	return mkStr(in.encodeRune(x))
}

func (in *Interp) runesToStr(s Slice) Value {
	var out []*Term
	for i := 0; i < s.len; i++ {
		out = append(out, in.encodeRune(s.obj.slots[s.off+i].(*Term))...)
	}
	return mkStr(out)
}

// decodeRune decodes the first rune of the byte terms; returns a 32-bit rune and size.
func (in *Interp) decodeRune(b []*Term) (*Term, int) {
	if b[0].isConst() {
		// fully concrete prefix?
		var buf [4]byte
		n := 0
		for n < 4 && n < len(b) && b[n].isConst() {
			buf[n] = byte(b[n].val)
			n++
		}
		if buf[0] < 0x80 || n == 4 || n == len(b) || utf8.FullRune(buf[:n]) {
			r, sz := utf8.DecodeRune(buf[:n])
			return BV(32, uint64(uint32(r))), sz
		}
	}
	T := in.T
	bad := BV(32, 0xFFFD)
	if in.branch(T.Ult(b[0], BV(8, 0x80))) {
		return T.ZExt(b[0], 32), 1
	}
	between := func(t *Term, lo, hi uint64) *Term {
		return T.And(T.Ule(BV(8, lo), t), T.Ule(t, BV(8, hi)))
	}
	cont := func(t *Term) *Term { return between(t, 0x80, 0xBF) }
	low := func(t *Term, n uint8) *Term { return T.Extract(n-1, 0, t) }
	cat := func(ts ...*Term) *Term {
		r := ts[0]
		for _, t := range ts[1:] {
			r = T.Concat(r, t)
		}
		return T.ZExt(r, 32)
	}
	b0 := b[0]
	if in.branch(T.Not(between(b0, 0xC2, 0xF4))) {
		return bad, 1
	}
	if len(b) < 2 {
		return bad, 1
	}
	if in.branch(T.Ult(b0, BV(8, 0xE0))) {
		if in.branch(cont(b[1])) {
			return cat(low(b0, 5), low(b[1], 6)), 2
		}
		return bad, 1
	}
	lo2 := T.Ite(T.Eq(b0, BV(8, 0xE0)), BV(8, 0xA0), T.Ite(T.Eq(b0, BV(8, 0xF0)), BV(8, 0x90), BV(8, 0x80)))
	hi2 := T.Ite(T.Eq(b0, BV(8, 0xED)), BV(8, 0x9F), T.Ite(T.Eq(b0, BV(8, 0xF4)), BV(8, 0x8F), BV(8, 0xBF)))
	if !in.branch(T.And(T.Ule(lo2, b[1]), T.Ule(b[1], hi2))) {
		return bad, 1
	}
	if len(b) < 3 || !in.branch(cont(b[2])) {
		return bad, 1
	}
	if in.branch(T.Ult(b0, BV(8, 0xF0))) {
		return cat(low(b0, 4), low(b[1], 6), low(b[2], 6)), 3
	}
	if len(b) < 4 || !in.branch(cont(b[3])) {
		return bad, 1
	}
	return cat(low(b0, 3), low(b[1], 6), low(b[2], 6), low(b[3], 6)), 4
}

func (in *Interp) strToRunes(v Value) Slice {
	b := strBytes(v)
	var out []*Term
	for len(b) > 0 {
		r, n := in.decodeRune(b)
		out = append(out, r)
		b = b[n:]
	}
	return in.bytesSlice(out)
}

func (in *Interp) strNext(it *mapIter) Tuple {
	n := strLen(it.s)
	if it.i >= n {
		return Tuple{termFalse, BV(64, 0), BV(32, 0)}
	}
	i := it.i
	if s, ok := it.s.(string); ok {
		r, sz := utf8.DecodeRuneInString(s[i:])
		it.i += sz
		return Tuple{termTrue, BV(64, uint64(i)), BV(32, uint64(uint32(r)))}
	}
	r, sz := in.decodeRune(it.s.(*SStr).b[i:])
	it.i += sz
	return Tuple{termTrue, BV(64, uint64(i)), r}
}

// ---------- type assertions ----------

func (c *compiler) typeAssert(x *ssa.TypeAssert) insFn {
	dst, a := c.reg[x], c.opnd(x.X)
	at := canon(x.AssertedType)
	ti := tinfoOf(at)
	commaok := x.CommaOk
	isI := ti.k == kIface
	var it *types.Interface
	if isI {
		it = at.Underlying().(*types.Interface)
	}
	cache := map[types.Type]bool{}
	_ = cache
	return func(in *Interp, fr *Frame) {
		v := a.get(in, fr).(Iface)
		ok := false
		if v.t != nil {
			if isI {
				ok = implements(v.t, it)
			} else {
				ok = v.t == at
			}
		}
		if commaok {
			if ok {
				if isI {
					fr.regs[dst] = Tuple{v, termTrue}
				} else {
					fr.regs[dst] = Tuple{v.v, termTrue}
				}
			} else {
				fr.regs[dst] = Tuple{ti.zeroValue(), termFalse}
			}
			return
		}
		if !ok {
			s := "nil"
			if v.t != nil {
				s = v.t.String()
			}
			in.userPanic(in.rtErrorPlain("interface conversion: interface is " + s + ", not " + at.String()))
		}
		if isI {
			fr.regs[dst] = v
		} else {
			fr.regs[dst] = v.v
		}
	}
}
