package hcommon

import (
	"math"
	"time"

	"github.com/pbnjay/grate/commonxl"
	"verifh/vrt"
)

// NewCell: every value a caller can pass keeps its value.
func NewCellInts() {
	x := vrt.U64("x")
	var v interface{}
	want := int64(0)
	big := false
	switch vrt.Choice("t", 10) {
	case 0:
		v, want = int(x), int64(x)
	case 1:
		v, want = int8(x), int64(int8(x))
	case 2:
		v, want = int16(x), int64(int16(x))
	case 3:
		v, want = int32(x), int64(int32(x))
	case 4:
		v, want = int64(x), int64(x)
	case 5:
		v, want = uint8(x), int64(uint8(x))
	case 6:
		v, want = uint16(x), int64(uint16(x))
	case 7:
		v, want = uint32(x), int64(uint32(x))
	case 8:
		v, want, big = uint(x), int64(x), x > math.MaxInt64
	case 9:
		v, want, big = uint64(x), int64(x), x > math.MaxInt64
	}
	c := commonxl.NewCell(v)
	if big {
		vrt.Reach("big")
		f, ok := c.Value().(float64)
		vrt.Assert(ok && f == float64(x) && c.Type() == commonxl.FloatCell, "large unsigned value changed")
		return
	}
	i, ok := c.Value().(int64)
	vrt.Assert(ok && i == want && c.Type() == commonxl.IntegerCell, "integer changed")
	vrt.Reach("int")
}

type str string

func (s str) String() string { return string(s) }

func NewCellOthers() {
	n := vrt.Choice("n", 3)
	b := vrt.Bytes("b", n)
	var c commonxl.Cell
	var want interface{}
	typ := commonxl.StringCell
	switch vrt.Choice("t", 9) {
	case 0:
		c, want = commonxl.NewCell(string(b)), string(b)
	case 1:
		c, want = commonxl.NewCell(b), string(b)
	case 2:
		u := make([]uint16, n)
		w := make([]rune, n)
		for i := range u {
			u[i] = vrt.U16("u" + dig(i))
			vrt.Assume(u[i] < 0xd800 || u[i] > 0xdfff)
			w[i] = rune(u[i])
		}
		c, want = commonxl.NewCell(u), string(w)
	case 3:
		w := make([]rune, n)
		for i := range w {
			w[i] = rune(vrt.U16("u" + dig(i)))
			vrt.Assume(w[i] < 0xd800 || w[i] > 0xdfff)
		}
		c, want = commonxl.NewCell(w), string(w)
	case 4:
		c, want = commonxl.NewCell(str(b)), string(b)
	case 5:
		x := vrt.Bool("bool")
		c, want, typ = commonxl.NewCell(x), x, commonxl.BooleanCell
	case 6:
		x := vrt.F64("f")
		c, want, typ = commonxl.NewCell(x), x, commonxl.FloatCell
	case 7:
		x := float32(vrt.F64("f"))
		c, want, typ = commonxl.NewCell(x), float64(x), commonxl.FloatCell
	case 8:
		x := time.Unix(int64(vrt.U32("unix")), 0).UTC()
		c, want, typ = commonxl.NewCell(x), x, commonxl.DateCell
	}
	if want == "" {
		vrt.Reach("blank")
		vrt.Assert(c.Type() == commonxl.BlankCell && (c.Value() == nil || c.Value() == ""), "empty text is not blank")
		return
	}
	vrt.Assert(c.Type() == typ && same(want, c.Value()), "value changed")
	vrt.Reach("value")
}

// Coerce: a value stored under a format of each type.
func Coerce() {
	f := &commonxl.Formatter{}
	to := commonxl.CellType(vrt.Choice("to", 5) + 1) // integer, float, string, boolean, date
	kind := vrt.Choice("kind", 6)
	var v interface{}
	switch kind {
	case 0:
		v = vrt.I64("i")
	case 1:
		v = vrt.F64("f")
	case 2:
		v = vrt.Bool("b")
	case 3:
		v = words[vrt.Choice("w", len(words))]
	case 4:
		v = ""
	case 5:
		v = time.Unix(int64(vrt.U32("t")), 0).UTC()
	}
	if to == commonxl.StringCell && kind < 2 {
		// the text of a number: whole numbers only
		v = int64(vrt.Int("small", -2000, 100000))
		if kind == 1 {
			v = float64(v.(int64))
		}
	}
	if to == commonxl.DateCell && kind < 2 {
		v = int64(vrt.Int("day", 61, 60000))
		if kind == 1 {
			v = float64(v.(int64))
		}
	}
	c := commonxl.NewCellWithType(v, to, f)
	got := c.Value()
	switch x := v.(type) {
	case int64:
		switch to {
		case commonxl.IntegerCell:
			vrt.Assert(same(got, x) && c.Type() == to, "integer changed")
		case commonxl.FloatCell:
			vrt.Assert(same(got, float64(x)) && c.Type() == to, "integer changed as a float")
		case commonxl.BooleanCell:
			vrt.Assert(same(got, x != 0) && c.Type() == to, "integer changed as a boolean")
		case commonxl.StringCell:
			vrt.Assert(c.Type() == to && number(got) == x, "integer changed as a text")
		case commonxl.DateCell:
			d, ok := got.(time.Time)
			vrt.Assert(ok && c.Type() == to && d.Unix() == (x-25569)*86400, "integer changed as a date")
		}
	case float64:
		switch to {
		case commonxl.IntegerCell:
			i, ok := got.(int64)
			if ok {
				vrt.Assert(c.Type() == to, "integer without the integer type")
				t := float64(i) - x
				vrt.Assert(t < 1 && t > -1, "float changed by more than its fraction")
				vrt.Assert(x < 0 || t <= 0, "float grew")
				vrt.Assert(x > 0 || t >= 0, "float shrank")
				vrt.Reach("truncated")
			} else {
				vrt.Assert(same(got, x) && c.Type() == commonxl.FloatCell, "float lost")
				vrt.Assert(!(x > -9e18 && x < 9e18), "float kept where an integer fits")
				vrt.Reach("kept")
			}
		case commonxl.FloatCell:
			vrt.Assert(same(got, x) && c.Type() == to, "float changed")
		case commonxl.BooleanCell:
			vrt.Assert(same(got, x != 0) && c.Type() == to, "float changed as a boolean")
		case commonxl.StringCell:
			vrt.Assert(c.Type() == to && (number(got) == int64(x) || x >= 1e6 || x <= -1e6), "float changed as a text")
		case commonxl.DateCell:
			d, ok := got.(time.Time)
			vrt.Assert(ok && c.Type() == to && d.Unix() == (int64(x)-25569)*86400, "float changed as a date")
		}
	case bool:
		n := int64(0)
		if x {
			n = 1
		}
		switch to {
		case commonxl.IntegerCell:
			vrt.Assert(same(got, n) && c.Type() == to, "boolean changed as an integer")
		case commonxl.FloatCell:
			vrt.Assert(same(got, float64(n)) && c.Type() == to, "boolean changed as a float")
		case commonxl.StringCell:
			vrt.Assert(same(got, map[bool]string{true: "TRUE", false: "FALSE"}[x]) && c.Type() == to, "boolean changed as a text")
		default:
			vrt.Assert(same(got, x) && c.Type() == commonxl.BooleanCell, "boolean changed")
		}
	case string:
		if x == "" {
			vrt.Assert(c.Type() == commonxl.BlankCell && (got == nil || got == ""), "blank changed")
			return
		}
		w := word[x]
		switch {
		case to == commonxl.IntegerCell && w.isInt:
			vrt.Assert(same(got, w.i) || same(got, x), "whole number in a text changed")
		case to == commonxl.FloatCell && w.isNum:
			vrt.Assert(same(got, w.f) || same(got, x), "number in a text changed")
		case to == commonxl.BooleanCell && w.isBool:
			vrt.Assert(same(got, w.b) || same(got, x), "boolean in a text changed")
		default:
			vrt.Assert(same(got, x) && c.Type() == commonxl.StringCell, "text lost")
			vrt.Reach("text")
		}
	case time.Time:
		if to == commonxl.StringCell {
			vrt.Assert(c.Type() == to, "date as a text has the wrong type")
		} else {
			vrt.Assert(same(got, x) && c.Type() == commonxl.DateCell, "date lost")
		}
	}
	vrt.Reach("checked")
}

type wordInfo struct {
	isInt, isNum, isBool bool
	i                    int64
	f                    float64
	b                    bool
}

var words = []string{"abc", "12", "-7", "1.5", "1e3", "yes", "OFF", "12x", " 4", "0", "99999999999999999999", "N/A", "#DIV/0!"}
var word = map[string]wordInfo{
	"12":                   {isInt: true, isNum: true, i: 12, f: 12},
	"-7":                   {isInt: true, isNum: true, i: -7, f: -7},
	"1.5":                  {isNum: true, f: 1.5},
	"1e3":                  {isNum: true, f: 1000},
	"yes":                  {isBool: true, b: true},
	"OFF":                  {isBool: true},
	"0":                    {isInt: true, isNum: true, isBool: true},
	"99999999999999999999": {isNum: true, f: 1e20},
}

// number reads a decimal text.
func number(v interface{}) int64 {
	s, ok := v.(string)
	if !ok || s == "" {
		return math.MinInt64
	}
	neg := s[0] == '-'
	if neg {
		s = s[1:]
	}
	n := int64(0)
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return math.MinInt64
		}
		n = n*10 + int64(s[i]-'0')
	}
	if neg {
		n = -n
	}
	return n
}

func cmpCell(id string, kinds int) (commonxl.Cell, interface{}) {
	switch vrt.Choice("kind"+id, kinds) {
	case 0:
		v := vrt.I64("i" + id)
		return commonxl.NewCell(v), v
	case 1:
		v := vrt.F64("f" + id)
		vrt.Assume(v == v)
		return commonxl.NewCell(v), v
	case 2:
		v := vrt.Bool("b" + id)
		return commonxl.NewCell(v), v
	case 3:
		return nil, nil
	case 4:
		return commonxl.NewCell(""), nil
	case 5:
		v := vrt.Str("s"+id, vrt.Choice("len"+id, 3))
		return commonxl.NewCell(v), v
	case 6:
		v := words[vrt.Choice("w"+id, len(words))]
		return commonxl.NewCell(v), v
	default:
		v := time.Unix(int64(vrt.U32("t"+id)), 0).UTC()
		return commonxl.NewCell(v), v
	}
}

// CompareNumbers and CompareKinds: comparison laws over pairs of cells.
func CompareNumbers() { compare(3) }
func CompareKinds() {
	a, va := cmpKinds("a")
	b, vb := cmpKinds("b")
	laws(a, b, va, vb)
}

// cmpKinds are cells whose texts are concrete, so that every pair can be printed.
func cmpKinds(id string) (commonxl.Cell, interface{}) {
	nums := []int64{-3, 0, 1, 12, 100000}
	switch vrt.Choice("kind"+id, 8) {
	case 0:
		v := nums[vrt.Choice("i"+id, len(nums))]
		return commonxl.NewCell(v), v
	case 1:
		v := []float64{-3, -0.5, 0, 1, 12, 1.5, 1e20, math.Inf(1)}[vrt.Choice("f"+id, 8)]
		return commonxl.NewCell(v), v
	case 2:
		v := vrt.Bool("b" + id)
		return commonxl.NewCell(v), v
	case 3:
		return nil, nil
	case 4:
		return commonxl.NewCell(""), nil
	case 5:
		v := words[vrt.Choice("w"+id, len(words))]
		return commonxl.NewCell(v), v
	case 6:
		v := words[vrt.Choice("w"+id, 3)]
		c := commonxl.NewCell(v)
		c.SetURL("http://x/")
		return c, v
	default:
		v := time.Unix([]int64{0, 86400, 1000000000}[vrt.Choice("t"+id, 3)], 0).UTC()
		return commonxl.NewCell(v), v
	}
}

func compare(kinds int) {
	a, va := cmpCell("a", kinds)
	b, vb := cmpCell("b", kinds)
	laws(a, b, va, vb)
}

func laws(a, b commonxl.Cell, va, vb interface{}) {
	eq, eq2 := a.Equal(b), b.Equal(a)
	lt, gt := a.Less(b), b.Less(a)
	vrt.Assert(eq == eq2, "equality is not symmetric")
	vrt.Assert(a.Equal(a) && b.Equal(b), "a cell does not equal itself")
	vrt.Assert(!(lt && gt), "both cells are less than each other")
	vrt.Assert(!a.Less(a) && !b.Less(b), "a cell is less than itself")
	switch x := va.(type) {
	case int64:
		switch y := vb.(type) {
		case int64:
			vrt.Assert(eq == (x == y), "integer equality is wrong")
			vrt.Assert(lt == (x < y), "integer order is wrong")
		case float64:
			vrt.Assert(eq == (float64(x) == y), "integer and float equality is wrong")
			vrt.Assert(lt == (float64(x) < y) && gt == (y < float64(x)), "integer and float order is wrong")
		}
	case float64:
		switch y := vb.(type) {
		case float64:
			vrt.Assert(eq == (x == y), "float equality is wrong")
			vrt.Assert(lt == (x < y), "float order is wrong")
		}
	case string:
		if y, ok := vb.(string); ok {
			vrt.Assert(eq == (x == y), "text equality is wrong")
			vrt.Assert(lt == (x < y), "text order is wrong")
		}
	case time.Time:
		if y, ok := vb.(time.Time); ok {
			vrt.Assert(eq == x.Equal(y), "date equality is wrong")
			vrt.Assert(lt == x.Before(y), "date order is wrong")
		}
	}
	vrt.Reach("compared")
}

// CompareTexts: symbolic texts and dates.
func CompareTexts() {
	var cs [2]commonxl.Cell
	var vs [2]interface{}
	k := vrt.Choice("k", 2)
	for i := range cs {
		if k == 0 {
			vs[i] = vrt.Str("s"+dig(i), 1+vrt.Choice("len"+dig(i), 2))
		} else {
			vs[i] = time.Unix(int64(vrt.U32("t"+dig(i))), 0).UTC()
		}
		cs[i] = commonxl.NewCell(vs[i])
	}
	laws(cs[0], cs[1], vs[0], vs[1])
}
