package main

import (
	"fmt"
	"go/types"
)

// nativeArg converts a concrete value of an unnamed basic type to Go.
func nativeArg(v Iface) (any, bool) {
	if v.t == nil {
		return nil, true
	}
	b, ok := v.t.(*types.Basic)
	if !ok {
		return nativeBytes(v)
	}
	switch x := v.v.(type) {
	case string:
		return x, true
	case *Term:
		if !x.isConst() {
			return nil, false
		}
		switch b.Kind() {
		case types.Bool:
			return x.val == 1, true
		case types.Int:
			return int(x.sval()), true
		case types.Int64:
			return x.sval(), true
		case types.Int32:
			return int32(x.sval()), true
		case types.Int16:
			return int16(x.sval()), true
		case types.Int8:
			return int8(x.sval()), true
		case types.Uint:
			return uint(x.val), true
		case types.Uint64:
			return x.val, true
		case types.Uint32:
			return uint32(x.val), true
		case types.Uint16:
			return uint16(x.val), true
		case types.Uint8:
			return uint8(x.val), true
		case types.Uintptr:
			return uintptr(x.val), true
		case types.Float64:
			return x.fval(), true
		case types.Float32:
			return float32(x.fval()), true
		}
	}
	return nil, false
}

// nativeBytes converts concrete arrays and slices of bytes.
func nativeBytes(v Iface) (any, bool) {
	var el types.Type
	var ts []Value
	switch t := v.t.(type) {
	case *types.Array:
		el = t.Elem()
		a, ok := v.v.(Agg)
		if !ok {
			return nil, false
		}
		ts = a
	case *types.Slice:
		el = t.Elem()
		s, ok := v.v.(Slice)
		if !ok || s.obj == nil && s.len > 0 {
			return nil, false
		}
		if s.len > 0 {
			ts = s.obj.slots[s.off : s.off+s.len]
		}
	}
	if b, ok := el.(*types.Basic); !ok || b.Kind() != types.Uint8 {
		return nil, false
	}
	out := make([]byte, len(ts))
	for i, x := range ts {
		t, ok := x.(*Term)
		if !ok || !t.isConst() {
			return nil, false
		}
		out[i] = byte(t.val)
	}
	return out, true
}

func (in *Interp) nativeArgs(s Slice) ([]any, bool) {
	out := make([]any, s.len)
	for i := 0; i < s.len; i++ {
		v, ok := nativeArg(s.obj.slots[s.off+i].(Iface))
		if !ok {
			return nil, false
		}
		out[i] = v
	}
	return out, true
}

func (in *Interp) fmtSprint(s Slice) (Value, bool) {
	if as, ok := in.nativeArgs(s); ok {
		return fmt.Sprint(as...), true
	}
	return in.model("Sprint", s), true
}

func (in *Interp) fmtSprintf(f Value, s Slice) (Value, bool) {
	if fs, ok := f.(string); ok {
		if as, ok := in.nativeArgs(s); ok {
			return fmt.Sprintf(fs, as...), true
		}
	}
	return in.model("Sprintf", f, s), true
}

// nativeVerb formats one operand of a concrete (possibly named) basic type;
// models.nativeVerb(verb string, v any) (string, bool)
func nativeVerb(in *Interp, a []Value) (Value, bool) {
	verb, ok := a[0].(string)
	v := a[1].(Iface)
	if ok && v.t != nil {
		if b, isB := v.t.Underlying().(*types.Basic); isB {
			if n, ok := nativeArg(Iface{types.Typ[b.Kind()], v.v}); ok {
				return Tuple{fmt.Sprintf(verb, n), termTrue}, true
			}
		} else if n, ok := nativeBytes(v); ok {
			return Tuple{fmt.Sprintf(verb, n), termTrue}, true
		}
	}
	return Tuple{"", termFalse}, true
}
