package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type implKey struct {
	t types.Type
	i *types.Interface
}

var implCache sync.Map

func implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if v, ok := implCache.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(t, it)
	implCache.Store(k, r)
	return r
}

type methKey struct {
	t    types.Type
	m    *types.Func
	name string
}

var methCache sync.Map
var theProg *ssa.Program

func lookupMethod(t types.Type, m *types.Func) *fnRef {
	k := methKey{t, m, ""}
	if v, ok := methCache.Load(k); ok {
		r, _ := v.(*fnRef)
		return r
	}
	var r *fnRef
	sel := theProg.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel != nil {
		if fn := theProg.MethodValue(sel); fn != nil {
			r = refOf(fn)
		}
	}
	methCache.Store(k, r)
	return r
}

// lookupNamed finds a method by name (exported).
func lookupNamed(t types.Type, name string) *fnRef {
	k := methKey{t, nil, name}
	if v, ok := methCache.Load(k); ok {
		r, _ := v.(*fnRef)
		return r
	}
	var r *fnRef
	ms := theProg.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			if fn := theProg.MethodValue(ms.At(i)); fn != nil {
				r = refOf(fn)
			}
			break
		}
	}
	methCache.Store(k, r)
	return r
}

func (c *compiler) args(cc *ssa.CallCommon) []opnd {
	var out []opnd
	for _, a := range cc.Args {
		out = append(out, c.opnd(a))
	}
	return out
}

func (c *compiler) call(cc *ssa.CallCommon) func(in *Interp, fr *Frame) Value {
	args := c.args(cc)
	getArgs := func(in *Interp, fr *Frame) []Value {
		out := make([]Value, len(args))
		for i := range args {
			out[i] = args[i].get(in, fr)
		}
		return out
	}
	if cc.IsInvoke() {
		recv := c.opnd(cc.Value)
		m := cc.Method
		return func(in *Interp, fr *Frame) Value {
			iv := recv.get(in, fr).(Iface)
			if iv.t == nil {
				in.rtPanic("invalid memory address or nil pointer dereference")
			}
			r := lookupMethod(iv.t, m)
			if r == nil {
				in.unsupported("method %s on %s", m.Name(), iv.t)
			}
			as := make([]Value, 1+len(args))
			as[0] = iv.v
			for i := range args {
				as[i+1] = args[i].get(in, fr)
			}
			return in.callRef(r, as, nil)
		}
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		return c.builtin(f, cc, getArgs)
	case *ssa.Function:
		var ref *fnRef
		return func(in *Interp, fr *Frame) Value {
			r := ref
			if r == nil {
				r = refOf(f)
				ref = r
			}
			return in.callRef(r, getArgs(in, fr), nil)
		}
	}
	fv := c.opnd(cc.Value)
	return func(in *Interp, fr *Frame) Value {
		cl, ok := fv.get(in, fr).(*Closure)
		if !ok {
			in.unsupported("call of %T", fv.get(in, fr))
		}
		if cl == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		return in.callClosure(cl, getArgs(in, fr))
	}
}

func (c *compiler) deferIns(cc *ssa.CallCommon) insFn {
	args := c.args(cc)
	if cc.IsInvoke() {
		recv := c.opnd(cc.Value)
		m := cc.Method
		return func(in *Interp, fr *Frame) {
			in.noSpec()
			iv := recv.get(in, fr).(Iface)
			if iv.t == nil {
				in.rtPanic("invalid memory address or nil pointer dereference")
			}
			r := lookupMethod(iv.t, m)
			as := []Value{iv.v}
			for i := range args {
				as = append(as, args[i].get(in, fr))
			}
			fr.defers = append(fr.defers, deferred{inv: func(in *Interp) { in.callRef(r, as, nil) }})
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		// defer close(ch) / print etc.
		call := c.builtin(b, cc, func(in *Interp, fr *Frame) []Value {
			out := make([]Value, len(args))
			for i := range args {
				out[i] = args[i].get(in, fr)
			}
			return out
		})
		return func(in *Interp, fr *Frame) {
			fr.defers = append(fr.defers, deferred{inv: func(in *Interp) { call(in, fr) }})
		}
	}
	fv := c.opnd(cc.Value)
	return func(in *Interp, fr *Frame) {
		in.noSpec()
		cl := fv.get(in, fr).(*Closure)
		as := make([]Value, len(args))
		for i := range args {
			as[i] = args[i].get(in, fr)
		}
		fr.defers = append(fr.defers, deferred{fn: cl, args: as})
	}
}

func (c *compiler) builtin(b *ssa.Builtin, cc *ssa.CallCommon, getArgs func(in *Interp, fr *Frame) []Value) func(in *Interp, fr *Frame) Value {
	name := b.Name()
	var t0 types.Type
	if len(cc.Args) > 0 {
		t0 = cc.Args[0].Type()
	}
	switch name {
	case "len", "cap":
		a := c.opnd(cc.Args[0])
		isCap := name == "cap"
		return func(in *Interp, fr *Frame) Value {
			switch v := a.get(in, fr).(type) {
			case string:
				return BV(64, uint64(len(v)))
			case *SStr:
				return BV(64, uint64(len(v.b)))
			case Slice:
				if isCap {
					return BV(64, uint64(v.cap))
				}
				return BV(64, uint64(v.len))
			case *MapObj:
				if v == nil {
					return BV(64, 0)
				}
				return BV(64, uint64(v.n))
			case Agg, Ptr:
				t := t0.Underlying()
				if p, ok := t.(*types.Pointer); ok {
					t = p.Elem().Underlying()
				}
				if at, ok := t.(*types.Array); ok {
					return BV(64, uint64(at.Len()))
				}
			}
			in.unsupported("len/cap of %s", t0)
			return nil
		}
	case "append":
		st, ok := t0.Underlying().(*types.Slice)
		if !ok {
			break
		}
		et := tinfoOf(st.Elem())
		a, b2 := c.opnd(cc.Args[0]), c.opnd(cc.Args[1])
		return func(in *Interp, fr *Frame) Value {
			s := a.get(in, fr).(Slice)
			switch y := b2.get(in, fr).(type) {
			case Slice:
				return in.appendSlots(s, et, y.len, func(k int) Value { return y.obj.slots[y.off+k] })
			case string:
				return in.appendSlots(s, et, len(y), func(k int) Value { return BV(8, uint64(y[k])) })
			case *SStr:
				return in.appendSlots(s, et, len(y.b), func(k int) Value { return y.b[k] })
			}
			in.unsupported("append of %T", b2.get(in, fr))
			return nil
		}
	case "copy":
		et := tinfoOf(t0.Underlying().(*types.Slice).Elem())
		a, b2 := c.opnd(cc.Args[0]), c.opnd(cc.Args[1])
		return func(in *Interp, fr *Frame) Value {
			d := a.get(in, fr).(Slice)
			return in.copySlice(d, b2.get(in, fr), et)
		}
	case "delete":
		return func(in *Interp, fr *Frame) Value {
			as := getArgs(in, fr)
			in.mapDelete(as[0].(*MapObj), as[1])
			return nil
		}
	case "clear":
		return func(in *Interp, fr *Frame) Value {
			in.noSpec()
			switch v := getArgs(in, fr)[0].(type) {
			case *MapObj:
				if v != nil {
					in.mapTouch(v)
					v.keys, v.vals, v.dead, v.idx, v.n, v.nsym = nil, nil, nil, map[any]int{}, 0, 0
				}
			case Slice:
				et := tinfoOf(t0.Underlying().(*types.Slice).Elem())
				z := et.zeroSlots()
				for i := 0; i < v.len; i++ {
					for j := range z {
						in.setSlot(v.obj, v.off+i*et.n+j, z[j])
					}
				}
			}
			return nil
		}
	case "panic":
		return func(in *Interp, fr *Frame) Value {
			in.userPanic(getArgs(in, fr)[0].(Iface))
			return nil
		}
	case "recover":
		return func(in *Interp, fr *Frame) Value {
			in.noSpec()
			return in.doRecover()
		}
	case "print", "println":
		return func(in *Interp, fr *Frame) Value { return nil }
	case "close":
		return func(in *Interp, fr *Frame) Value { in.unsupported("close"); return nil }
	case "min", "max":
		ti := tinfoOf(t0)
		isMin := name == "min"
		return func(in *Interp, fr *Frame) Value {
			as := getArgs(in, fr)
			r := as[0]
			for _, x := range as[1:] {
				switch ti.k {
				case kInt, kUint:
					var lt *Term
					a, b := x.(*Term), r.(*Term)
					if !isMin {
						a, b = b, a
					}
					if ti.k == kInt {
						lt = in.T.Slt(a, b)
					} else {
						lt = in.T.Ult(a, b)
					}
					r = in.T.Ite(lt, x.(*Term), r.(*Term))
				default:
					in.unsupported("min/max on %s", ti.t)
				}
			}
			return r
		}
	case "String": // unsafe.String
		return func(in *Interp, fr *Frame) Value {
			as := getArgs(in, fr)
			n := int(in.concretize(as[1].(*Term)))
			if n == 0 {
				return ""
			}
			p := as[0].(Ptr)
			out := make([]*Term, n)
			for i := range out {
				out[i] = p.obj.slots[p.off+i].(*Term)
			}
			return mkStr(out)
		}
	case "SliceData":
		return func(in *Interp, fr *Frame) Value {
			s := getArgs(in, fr)[0].(Slice)
			return Ptr{s.obj, s.off}
		}
	case "StringData":
		return func(in *Interp, fr *Frame) Value {
			b := strBytes(getArgs(in, fr)[0])
			if len(b) == 0 {
				return Ptr{}
			}
			return Ptr{in.bytesSlice(b).obj, 0}
		}
	case "Slice":
		return func(in *Interp, fr *Frame) Value {
			as := getArgs(in, fr)
			n := int(in.concretize(in.widen(as[1].(*Term), true)))
			p := as[0].(Ptr)
			if p.obj == nil {
				return Slice{}
			}
			return Slice{p.obj, p.off, n, n}
		}
	case "ssa:wrapnilchk":
		return func(in *Interp, fr *Frame) Value {
			as := getArgs(in, fr)
			if p, ok := as[0].(Ptr); ok && p.obj == nil {
				in.rtPanic("value method called using nil pointer")
			}
			return as[0]
		}
	case "ssa:deferstack":
		return func(in *Interp, fr *Frame) Value { return nil }
	}
	return func(in *Interp, fr *Frame) Value {
		in.unsupported("builtin %s", name)
		return nil
	}
}

func (in *Interp) appendSlots(s Slice, et *tinfo, n int, get func(k int) Value) Slice {
	if n == 0 {
		return s
	}
	nl := s.len + n
	if nl <= s.cap {
		base := s.off + s.len*et.n
		if n*et.n == 1 {
			in.setSlot(s.obj, base, get(0))
		} else {
			// the source may alias
			tmp := make([]Value, n*et.n)
			for k := range tmp {
				tmp[k] = get(k)
			}
			for k := range tmp {
				in.setSlot(s.obj, base+k, tmp[k])
			}
		}
		return Slice{s.obj, s.off, nl, s.cap}
	}
	nc := s.cap * 2
	if s.cap > 256 {
		nc = s.cap + s.cap/4 + 192
	}
	if nc < nl {
		nc = nl
	}
	if nc < 4 && et.n > 0 {
		nc = 4
	}
	in.checkAlloc(int64(nc), et)
	slots := make([]Value, nc*et.n)
	if s.len > 0 {
		copy(slots, s.obj.slots[s.off:s.off+s.len*et.n])
	}
	base := s.len * et.n
	for k := 0; k < n*et.n; k++ {
		slots[base+k] = get(k)
	}
	if et.n == 1 && !et.isAgg() {
		for k := nl; k < nc; k++ {
			slots[k] = et.zero
		}
	} else if et.n > 0 {
		z := et.flatZero()
		for k := nl; k < nc; k++ {
			copy(slots[k*et.n:], z)
		}
	}
	return Slice{in.newObjSlots(slots), 0, nl, nc}
}

func (in *Interp) copySlice(d Slice, src Value, et *tinfo) Value {
	n := d.len
	switch y := src.(type) {
	case Slice:
		if y.len < n {
			n = y.len
		}
		if n == 0 {
			return BV(64, 0)
		}
		tmp := make([]Value, n*et.n)
		copy(tmp, y.obj.slots[y.off:y.off+n*et.n])
		for k := range tmp {
			in.setSlot(d.obj, d.off+k, tmp[k])
		}
	case string, *SStr:
		if l := strLen(y); l < n {
			n = l
		}
		for k := 0; k < n; k++ {
			in.setSlot(d.obj, d.off+k, strAt(y, k))
		}
	default:
		in.unsupported("copy from %T", src)
	}
	return BV(64, uint64(n))
}

var _ = fmt.Sprint
