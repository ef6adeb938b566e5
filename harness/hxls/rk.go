package hxls

import (
	"fmt"
	"math"

	"github.com/pbnjay/grate/xls"
	"verifh/build"
	"verifh/vrt"
)

// RKValue: every packed number decodes to the value the format defines.
func RKValue() {
	v := vrt.U32("rk")
	n := xls.RKNumber(v)
	w := rkValue(v)
	vrt.Assert(n.IsInteger() == (w.typ == "integer"), "a packed number has the wrong kind")
	f := math.Float64frombits(w.f)
	if n.IsInteger() {
		vrt.Assert(int64(n.Int()) == w.i, "a packed integer has another value")
		vrt.Assert(n.Float64() == float64(w.i), "a packed integer has another value as a float")
		vrt.Reach("integer")
		return
	}
	g := n.Float64()
	vrt.Assert(g == f || g != g && f != f, "a packed float has another value")
	vrt.Assert(math.Signbit(f) == math.Signbit(g) || f != f, "a packed float has another sign")
	vrt.Reach("float")
}

// RKText: the display of packed numbers is that of their value, for whole numbers of
// every sign and size and a list of floats and hundredths.
func RKText() {
	if vrt.Bool("integer") {
		v := vrt.U32("rk")&^3 | 2
		s := xls.RKNumber(v).String()
		neg := len(s) > 0 && s[0] == '-'
		if neg {
			s = s[1:]
		}
		x := int64(0)
		vrt.Assert(len(s) > 0 && len(s) < 12, "a packed integer has no or a long display")
		for i := 0; i < len(s); i++ {
			vrt.Assert(s[i] >= '0' && s[i] <= '9', "a packed integer is displayed with other characters")
			vrt.Assert(i > 0 || s[i] != '0' || len(s) == 1, "a packed integer is displayed with leading zeros")
			x = x*10 + int64(s[i]-'0')
		}
		if neg {
			x = -x
		}
		vrt.Assert(x == int64(int32(v)>>2), "a packed integer is displayed as another number")
		vrt.Reach("integer")
		return
	}
	list := []uint32{0, 1, 3, 7, 0x3ff00000, 0x3ff00001, 0xbff00000, 400<<2 | 3, 401<<2 | 3, 0xfffffe6f, 0x40590000, 0x7fe00000, 0x7ffffffc, 0x1}
	v := list[vrt.Choice("v", len(list))]
	vrt.Assert(xls.RKNumber(v).String() == fmt.Sprint(math.Float64frombits(rkValue(v).f)), "a packed float is displayed as another number")
	vrt.Reach("float")
}

// RKReaders: the single and the multi-number record agree on every packed number.
func RKReaders() {
	n := 3
	v := vrt.U32("rk")
	at := vrt.Choice("at", n)
	multi := build.Cat(build.W16(1), build.W16(0))
	for i := 0; i < n; i++ {
		x := uint32(i)<<2 | 2
		if i == at {
			x = v
		}
		multi = append(multi, build.Cat(build.W16(0), build.W32(x))...)
	}
	multi = append(multi, build.W16(uint16(n-1))...)
	c := sheet(nil, build.Cat(
		build.Rec(build.RRK, build.Cell(0, uint16(at), 0), build.W32(v)),
		build.Rec(build.RMulRk, multi)))
	w := rkValue(v)
	first := make([]want, at)
	second := make([]want, n)
	for i := range second {
		second[i] = want{typ: "integer", i: int64(i)}
	}
	second[at] = w
	vrt.Assert(c.Next(), "a row is missing")
	row(c, append(first, w))
	vrt.Assert(c.Next(), "a row is missing")
	row(c, second)
	vrt.Reach("read")
	// the value of the single record, behind blank cells
	c = sheet(nil, build.Rec(build.RRK, build.Cell(0, 0, 0), build.W32(v)))
	vrt.Assert(c.Next(), "a row is missing")
	row(c, []want{w})
}
