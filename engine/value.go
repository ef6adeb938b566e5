package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is a runtime value:
//
//	*Term   booleans, integers, floats
//	string / *SStr
//	Ptr / *SymPtr
//	Slice
//	*MapObj
//	Iface
//	*Closure
//	Agg     structs and arrays, flattened
//	Tuple   multiple results
type Value interface{}

// SStr is a string with at least one symbolic byte.
type SStr struct{ b []*Term }

// Obj is an allocation: a flat sequence of slots.
type Obj struct {
	slots []Value
	epoch uint32
	host  any
	id    int
}

// Ptr points to a slot of an object.
type Ptr struct {
	obj *Obj
	off int
}

// SymPtr is &base[idx] + add, with idx in [0,n) on this path.
type SymPtr struct {
	obj    *Obj
	base   int
	stride int
	n      int
	add    int
	idx    *Term
}

// Slice value; offsets in slots, len/cap in elements.
type Slice struct {
	obj           *Obj
	off, len, cap int
}

type MapObj struct {
	keys  []Value
	vals  []Value
	dead  []bool
	idx   map[any]int
	n     int
	nsym  int
	epoch uint32
}

type Iface struct {
	t types.Type // canonical
	v Value
}

type Closure struct {
	fn   *ssa.Function
	free []Value
	bi   *ssa.Builtin
	host func(in *Interp, args []Value) Value
}

type Agg []Value
type Tuple []Value

type mapIter struct {
	m *MapObj
	i int
	s Value // string iteration
}

// ---------- type information ----------

type kind uint8

const (
	kBool kind = iota
	kInt       // signed
	kUint
	kFloat
	kString
	kPtr
	kSlice
	kMap
	kFunc
	kIface
	kStruct
	kArray
	kChan
	kTuple
	kOther
)

type tinfo struct {
	t      types.Type // canonical
	k      kind
	w      uint8 // scalar width
	n      int   // flat slots
	elem   *tinfo
	length int
	offs   []int
	fields []*tinfo
	zero   Value // for non aggregates
	zflat  []Value
}

var tiMu sync.RWMutex
var tiByPtr = map[types.Type]*tinfo{}
var tiCanon typeutil.Map
var canonByPtr = map[types.Type]types.Type{}

// canon returns the canonical representative of identical types.
func canon(t types.Type) types.Type {
	return tinfoOf(t).t
}

func tinfoOf(t types.Type) *tinfo {
	tiMu.RLock()
	ti := tiByPtr[t]
	tiMu.RUnlock()
	if ti != nil {
		return ti
	}
	tiMu.Lock()
	defer tiMu.Unlock()
	return tinfoLocked(t)
}

func tinfoLocked(t types.Type) *tinfo {
	if ti := tiByPtr[t]; ti != nil {
		return ti
	}
	if v := tiCanon.At(t); v != nil {
		ti := v.(*tinfo)
		tiByPtr[t] = ti
		return ti
	}
	ti := &tinfo{t: t}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		ti.n = 1
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			ti.k, ti.w, ti.zero = kBool, 1, termFalse
		case types.Int, types.Int64, types.UntypedInt:
			ti.k, ti.w = kInt, 64
		case types.Int32, types.UntypedRune:
			ti.k, ti.w = kInt, 32
		case types.Int16:
			ti.k, ti.w = kInt, 16
		case types.Int8:
			ti.k, ti.w = kInt, 8
		case types.Uint, types.Uint64, types.Uintptr:
			ti.k, ti.w = kUint, 64
		case types.Uint32:
			ti.k, ti.w = kUint, 32
		case types.Uint16:
			ti.k, ti.w = kUint, 16
		case types.Uint8:
			ti.k, ti.w = kUint, 8
		case types.Float64, types.UntypedFloat:
			ti.k, ti.w, ti.zero = kFloat, 64, FPf(64, 0)
		case types.Float32:
			ti.k, ti.w, ti.zero = kFloat, 32, FPf(32, 0)
		case types.String, types.UntypedString:
			ti.k, ti.zero = kString, ""
		case types.UnsafePointer:
			ti.k, ti.zero = kPtr, Ptr{}
		case types.UntypedNil:
			ti.k, ti.zero = kPtr, Ptr{}
		default:
			ti.k = kOther
		}
		if ti.k == kInt || ti.k == kUint {
			ti.zero = BV(ti.w, 0)
		}
	case *types.Pointer:
		ti.k, ti.n, ti.zero = kPtr, 1, Ptr{}
	case *types.Slice:
		ti.k, ti.n, ti.zero = kSlice, 1, Slice{}
	case *types.Map:
		ti.k, ti.n, ti.zero = kMap, 1, (*MapObj)(nil)
	case *types.Signature:
		ti.k, ti.n, ti.zero = kFunc, 1, (*Closure)(nil)
	case *types.Interface:
		ti.k, ti.n, ti.zero = kIface, 1, Iface{}
	case *types.Chan:
		ti.k, ti.n, ti.zero = kChan, 1, Ptr{}
	case *types.Struct:
		ti.k = kStruct
		for i := 0; i < u.NumFields(); i++ {
			f := tinfoLocked(u.Field(i).Type())
			ti.offs = append(ti.offs, ti.n)
			ti.fields = append(ti.fields, f)
			ti.n += f.n
		}
	case *types.Array:
		ti.k = kArray
		ti.elem = tinfoLocked(u.Elem())
		ti.length = int(u.Len())
		ti.n = ti.length * ti.elem.n
	case *types.Tuple:
		ti.k = kTuple
		ti.n = u.Len()
	default:
		ti.k = kOther
		ti.n = 1
	}
	tiCanon.Set(t, ti)
	tiByPtr[t] = ti
	return ti
}

func (ti *tinfo) isAgg() bool { return ti.k == kStruct || ti.k == kArray }

// zeroSlots returns a fresh slot vector of zero values.
func (ti *tinfo) zeroSlots() []Value {
	out := make([]Value, ti.n)
	ti.fillZero(out)
	return out
}

func (ti *tinfo) flatZero() []Value {
	if ti.zflat == nil {
		z := make([]Value, ti.n)
		ti.fillZero0(z)
		tiMu.Lock()
		ti.zflat = z
		tiMu.Unlock()
	}
	return ti.zflat
}

func (ti *tinfo) fillZero(out []Value) {
	if !ti.isAgg() {
		out[0] = ti.zero
		return
	}
	if ti.n == 0 {
		return
	}
	if ti.n > 4096 {
		ti.fillZero0(out)
		return
	}
	copy(out, ti.flatZero())
}

func (ti *tinfo) fillZero0(out []Value) {
	switch ti.k {
	case kStruct:
		for i, f := range ti.fields {
			f.fillZero0(out[ti.offs[i] : ti.offs[i]+f.n])
		}
	case kArray:
		if ti.elem.n == 1 && !ti.elem.isAgg() {
			for i := range out {
				out[i] = ti.elem.zero
			}
			return
		}
		for i := 0; i < ti.length; i++ {
			ti.elem.fillZero0(out[i*ti.elem.n : (i+1)*ti.elem.n])
		}
	default:
		out[0] = ti.zero
	}
}

func (ti *tinfo) zeroValue() Value {
	if ti.isAgg() {
		return Agg(ti.zeroSlots())
	}
	return ti.zero
}

// ---------- strings ----------

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen of %T", v))
}

func strAt(v Value, i int) *Term {
	switch s := v.(type) {
	case string:
		return BV(8, uint64(s[i]))
	case *SStr:
		return s.b[i]
	}
	panic("strAt")
}

func strBytes(v Value) []*Term {
	switch s := v.(type) {
	case string:
		out := make([]*Term, len(s))
		for i := 0; i < len(s); i++ {
			out[i] = BV(8, uint64(s[i]))
		}
		return out
	case *SStr:
		return s.b
	}
	panic(fmt.Sprintf("strBytes of %T", v))
}

func mkStr(b []*Term) Value {
	for _, t := range b {
		if !t.isConst() {
			return &SStr{b}
		}
	}
	out := make([]byte, len(b))
	for i, t := range b {
		out[i] = byte(t.val)
	}
	return string(out)
}

func strSlice(v Value, lo, hi int) Value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *SStr:
		return mkStr(s.b[lo:hi:hi])
	}
	panic("strSlice")
}

func strConcat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	} else if y, ok := b.(string); ok && y == "" {
		return a
	}
	x, y := strBytes(a), strBytes(b)
	out := make([]*Term, 0, len(x)+len(y))
	out = append(append(out, x...), y...)
	return &SStr{out}
}

func isConcreteStr(v Value) (string, bool) {
	s, ok := v.(string)
	return s, ok
}
