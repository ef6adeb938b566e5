package hxls

import (
	"verifh/build"
	"verifh/vrt"
)

// split cuts a string of characters into a first part and continuations. Each
// continuation starts with a flags byte for its own width.
func split(name string, u []uint16, wide bool, cuts int) (first []byte, conts [][]byte) {
	pos := 0
	var parts [][]byte
	for i := 0; i < cuts && pos < len(u); i++ {
		n := vrt.Choice(name+"cut"+id(i), len(u)-pos+1)
		if n == len(u)-pos {
			break
		}
		parts = append(parts, build.Chars(u[pos:pos+n], wide))
		pos += n
		wide = vrt.Bool(name + "width" + id(i))
		for _, c := range u[pos:] {
			vrt.Assume(wide || c < 256)
		}
	}
	parts = append(parts, build.Chars(u[pos:], wide))
	return parts[0], parts[1:]
}

// widths lists the flags of the continuations of split in the same order.
func widths(name string, n int) []byte {
	var r []byte
	for i := 0; i < n; i++ {
		f := byte(0)
		if vrt.Bool(name + "width" + id(i)) {
			f = 1
		}
		r = append(r, f)
	}
	return r
}

// result makes the records of one formula cell of every result kind.
func result(n string, row, col uint16, max, cuts int) ([]byte, want) {
	at := build.Cell(row, col, vrt.U16("xf"+n))
	tail := build.Cat(build.W16(0), build.W32(0), build.W16(0)) // flags, chain, empty expression
	switch vrt.Choice("kind"+n, 5) {
	case 0:
		v := vrt.U64("num" + n)
		vrt.Assume(v>>48 != 0xffff)
		return build.Rec(build.RFormula, at, build.W64(v), tail), want{typ: "float", f: v}
	case 1:
		v := vrt.Bool("bool" + n)
		x := byte(0)
		if v {
			x = 1
		}
		return build.Rec(build.RFormula, at, []byte{1, 0, x, 0, 0, 0, 0xff, 0xff}, tail), want{typ: "boolean", b: v}
	case 2:
		k := vrt.Choice("err"+n, len(errCodes))
		return build.Rec(build.RFormula, at, []byte{2, 0, errCodes[k], 0, 0, 0, 0xff, 0xff}, tail), want{typ: "string", s: errTexts[k]}
	case 3:
		return build.Rec(build.RFormula, at, []byte{3, 0, 0, 0, 0, 0, 0xff, 0xff}, tail), want{}
	default:
		wide := vrt.Bool("wide" + n)
		u := chars("c"+n, 1+vrt.Choice("len"+n, max), wide)
		rec := build.Rec(build.RFormula, at, []byte{0, 0, 0, 0, 0, 0, 0xff, 0xff}, tail)
		switch vrt.Choice("between"+n, 3) {
		case 1:
			rec = append(rec, build.Rec(build.RArray, make([]byte, 14))...)
		case 2:
			rec = append(rec, build.Rec(build.RShrFmla, make([]byte, 10))...)
		}
		first, conts := split(n, u, wide, cuts)
		flag := byte(0)
		if wide {
			flag = 1
		}
		rec = append(rec, build.Rec(build.RString, build.W16(uint16(len(u))), []byte{flag}, first)...)
		for i, f := range widths(n, len(conts)) {
			rec = append(rec, build.Rec(build.RContinue, []byte{f}, conts[i])...)
		}
		return rec, want{typ: "string", s: text(u)}
	}
}

// Formulas: a formula of every result kind, with texts of symbolic characters cut at
// every place into up to three records of either width, next to a number.
func Formulas() {
	n, cuts := 3, 2
	if vrt.Thorough() {
		n, cuts = 5, 3
	}
	r, col := vrt.Choice("row", 2), vrt.Choice("col", 2)
	rec, w := result("", uint16(r), uint16(col), n, cuts)
	var grid [2][3]want
	grid[r][col] = w
	grid[1][2] = want{typ: "integer", i: 5}
	c := sheet(nil, build.Cat(rec, build.Rec(build.RRK, build.Cell(1, 2, 0), build.W32(5<<2|2))))
	for i := 0; c.Next(); i++ {
		vrt.Assert(i < 2, "the sheet is larger than its cells")
		row(c, grid[i][:])
	}
}

// FormulaPairs: two formulas in either order keep their own results.
func FormulaPairs() {
	var grid [1][2]want
	first := vrt.Choice("first", 2)
	r1, w1 := result("a", 0, uint16(first), 1, 1)
	r2, w2 := result("b", 0, uint16(1-first), 1, 1)
	grid[0][first], grid[0][1-first] = w1, w2
	c := sheet(nil, build.Cat(r1, r2))
	if c.Next() {
		row(c, grid[0][:])
	}
	vrt.Reach("read")
}

// FormulaLong: texts beyond one record: 9000 to 32767 characters with symbolic ones at
// both sides of the cuts.
func FormulaLong() {
	vrt.NoMerge()
	total := []int{8219, 8220, 9000, 32767}[vrt.Choice("total", 4)]
	wide := vrt.Bool("wide")
	per := 8221
	if wide {
		per = 4110
	}
	u := make([]uint16, total)
	for i := range u {
		u[i] = 'x'
	}
	for _, i := range []int{0, per - 1, per, total - 1} {
		if i < total {
			u[i] = uint16(vrt.Byte("c" + id(i)))
		}
	}
	flag := byte(0)
	if wide {
		flag = 1
	}
	body := build.Rec(build.RFormula, build.Cell(0, 0, 0), []byte{0, 0, 0, 0, 0, 0, 0xff, 0xff}, make([]byte, 8))
	n := per
	if n > total {
		n = total
	}
	body = append(body, build.Rec(build.RString, build.W16(uint16(total)), []byte{flag}, build.Chars(u[:n], wide))...)
	for p := n; p < total; p += n {
		if n = per + 1; n > total-p {
			n = total - p
		}
		body = append(body, build.Rec(build.RContinue, []byte{flag}, build.Chars(u[p:p+n], wide))...)
	}
	c := sheet(nil, body)
	vrt.Assert(c.Next(), "a row is missing")
	row(c, []want{{typ: "string", s: text(u)}})
}
