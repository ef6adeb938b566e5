// Package hxls checks the reader of binary workbooks (package xls).
package hxls

import (
	"math"
	"strconv"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/xls"
	"verifh/build"
	"verifh/par"
	"verifh/vrt"
)

func id(i int) string { return strconv.Itoa(i) }

// open opens a workbook file that must be accepted.
func open(data []byte) grate.Source {
	vrt.AllocLimit(64 << 20)
	src, err := xls.Open(par.File(vrt.File("f.xls", data)))
	vrt.Assert(err == nil, "a valid workbook is refused")
	return src
}

// sheet opens the sheet S of a workbook with the given globals and sheet records.
func sheet(globals, body []byte) grate.Collection {
	c, err := open(build.OneSheet(globals, body)).Get("S")
	vrt.Assert(err == nil, "a valid sheet is refused")
	return c
}

// want is the expected content of a cell.
type want struct {
	typ string // "" for cells that were never written
	i   int64
	f   uint64
	b   bool
	s   string
}

var errCodes = []byte{0x00, 0x07, 0x0F, 0x17, 0x1D, 0x24, 0x2A}
var errTexts = []string{"#NULL!", "#DIV/0!", "#VALUE!", "#REF!", "#NAME?", "#NUM!", "#N/A"}

// rkValue is what the format defines for a packed number.
func rkValue(rk uint32) want {
	if rk&3 == 2 {
		return want{typ: "integer", i: int64(int32(rk) >> 2)}
	}
	f := math.Float64frombits(uint64(rk&^3) << 32)
	if rk&2 != 0 {
		f = float64(int32(rk) >> 2)
	}
	if rk&1 != 0 {
		f /= 100
	}
	return want{typ: "float", f: math.Float64bits(f)}
}

// cell makes a record of every cell kind and tells what it stores where.
func cell(n string, kinds, errs int, row, col uint16, strs []string) (rec []byte, w []want) {
	at := build.Cell(row, col, vrt.U16("xf"+n))
	switch vrt.Choice("kind"+n, kinds) {
	case 0:
		v := vrt.U64("num" + n)
		return build.Rec(build.RNumber, at, build.W64(v)), []want{{typ: "float", f: v}}
	case 1:
		v := vrt.Bool("bool" + n)
		x := byte(0)
		if v {
			x = 1
		}
		return build.Rec(build.RBoolErr, at, []byte{x, 0}), []want{{typ: "boolean", b: v}}
	case 2:
		k := vrt.Choice("err"+n, errs)
		return build.Rec(build.RBoolErr, at, []byte{errCodes[k], 1}), []want{{typ: "string", s: errTexts[k]}}
	case 3:
		k := vrt.Choice("sst"+n, len(strs))
		w := want{typ: "string", s: strs[k]}
		if w.s == "" {
			w.typ = ""
		}
		return build.Rec(build.RLabelSst, at, build.W32(uint32(k))), []want{w}
	case 4:
		return build.Rec(build.RBlank, at), []want{{}}
	case 5:
		v := vrt.U32("rk" + n)
		return build.Rec(build.RRK, at, build.W32(v)), []want{rkValue(v)}
	default:
		v1, v2 := vrt.U32("rk"+n), vrt.U32("rx"+n)
		return build.Rec(build.RMulRk, at[:4], at[4:], build.W32(v1), build.W16(vrt.U16("xg"+n)), build.W32(v2), build.W16(col+1)),
			[]want{rkValue(v1), rkValue(v2)}
	}
}

// row compares a row of the sheet with what its cells must hold. Texts are compared in
// rows without numbers (C16 to C20 decide their texts), and values up to the first blank.
func row(c grate.Collection, w []want) {
	types := c.Types()
	number, lead := false, true
	for i, t := range types {
		if i >= len(w) || w[i].typ == "" {
			vrt.Assert(t == "blank", "a cell that was not written has content")
			continue
		}
		vrt.Assert(t == w[i].typ, "a cell has the wrong type")
		if t == "float" || t == "integer" {
			number = true
		}
	}
	for i := len(types); i < len(w); i++ {
		vrt.Assert(w[i].typ == "", "a cell is missing")
	}
	var args []interface{}
	var ints [8]int64
	var floats [8]float64
	var bools [8]bool
	var strs [8]string
	for i := 0; lead && i < len(types) && i < len(w) && i < 8; i++ {
		switch w[i].typ {
		case "integer":
			args = append(args, &ints[i])
		case "float":
			args = append(args, &floats[i])
		case "boolean":
			args = append(args, &bools[i])
		case "string":
			args = append(args, &strs[i])
		default:
			lead = false
		}
	}
	err := c.Scan(args...)
	vrt.Assert(err == nil, "a row cannot be scanned into its types")
	for i := range args {
		f := math.Float64frombits(w[i].f)
		vrt.Assert(ints[i] == w[i].i, "an integer cell has another value")
		vrt.Assert(floats[i] == f || floats[i] != floats[i] && f != f, "a number cell has another value")
		vrt.Assert(bools[i] == w[i].b, "a boolean cell has another value")
		vrt.Assert(strs[i] == w[i].s, "a text cell has another text")
		vrt.Reach(w[i].typ)
	}
	if number {
		return
	}
	for i, s := range c.Strings() {
		if i >= len(w) || w[i].typ == "" {
			vrt.Assert(s == "", "a cell that was not written shows a text")
		} else if w[i].typ == "string" {
			vrt.Assert(s == w[i].s, "a text cell shows another text")
		} else if w[i].typ == "boolean" {
			vrt.Assert(s == map[bool]string{true: "TRUE", false: "FALSE"}[w[i].b] || s == strconv.FormatBool(w[i].b), "a boolean cell shows another value")
		}
	}
}

var words = []string{"", "a", "Zwei"}

func table() []byte {
	var s [][]uint16
	for _, w := range words {
		s = append(s, build.U16s(w))
	}
	return build.SST(false, s...)
}

// CellKinds: one record of every kind in the first column of any row, every value.
func CellKinds() {
	rows := []uint16{0, 1, 2, 1000}
	r := rows[vrt.Choice("row", len(rows))]
	rec, w := cell("", 7, 7, r, 0, words)
	body := rec
	switch vrt.Choice("dims", 3) {
	case 1:
		body = build.Cat(build.Dims(uint32(r)+1, 1), rec)
	case 2:
		body = build.Cat(build.Dims(2, 2), rec)
	}
	c := sheet(table(), body)
	n := 0
	for ; c.Next(); n++ {
		if n == int(r) {
			row(c, w)
		} else {
			row(c, nil)
		}
	}
	if w[0].typ != "" {
		vrt.Assert(n > int(r), "the row of a cell is missing")
	}
}

// CellLast: a record in the last row.
func CellLast() {
	rec, w := cell("", 6, 7, 65535, 0, words)
	c := sheet(table(), build.Cat(build.Dims(1, 1), rec))
	n := 0
	for ; c.Next(); n++ {
		if n == 0 || n == 65534 {
			row(c, nil)
		} else if n == 65535 {
			row(c, w)
		}
	}
	if w[0].typ != "" {
		vrt.Assert(n == 65536, "the row of a cell is missing")
	}
}

// CellPairs: two records of any kind at any two positions, in any order: every cell of
// the sheet shows what the later record stored there, or nothing.
func CellPairs() {
	max := 2
	if vrt.Thorough() {
		max = 3
	}
	var grid [4][5]want
	var body []byte
	switch vrt.Choice("dims", 3) {
	case 1:
		body = build.Dims(3, 4)
	case 2:
		body = build.Dims(1, 1)
	}
	for k := 0; k < 2; k++ {
		r, col := vrt.Choice("row"+id(k), 2), vrt.Choice("col"+id(k), max)
		rec, w := cell(id(k), 7, 2, uint16(r), uint16(col), words[:2])
		body = append(body, rec...)
		for i, x := range w {
			if x.typ != "" {
				grid[r][col+i] = x
			}
		}
	}
	c := sheet(table(), body)
	n := 0
	for ; c.Next(); n++ {
		vrt.Assert(n < 4, "the sheet is larger than its cells")
		row(c, grid[n][:])
	}
	for ; n < 4; n++ {
		for i := range grid[n] {
			vrt.Assert(grid[n][i].typ == "", "a row is missing")
		}
	}
}

// CellFar: a cell in the last columns, with declared dimensions or without.
func CellFar() {
	cols := []uint16{3, 127, 254, 255}
	col := cols[vrt.Choice("col", len(cols))]
	r := uint16(vrt.Choice("row", 2))
	rec, w := cell("", 6, 7, r, col, words)
	body := rec
	switch vrt.Choice("dims", 3) {
	case 1:
		body = build.Cat(build.Dims(2, 256), rec)
	case 2:
		body = build.Cat(build.Dims(1, 2), rec)
	}
	c := sheet(table(), body)
	for n := 0; c.Next(); n++ {
		if n == int(r) {
			row(c, append(make([]want, col), w...))
			vrt.Reach("cell")
		} else {
			row(c, nil)
		}
	}
}

// CellRow: a row of up to 256 numbers in one or two packed records or in single ones, with
// symbolic numbers at the ends and in the middle.
func CellRow() {
	n := []int{2, 127, 128, 255, 256}[vrt.Choice("n", 5)]
	split := n
	if vrt.Choice("two", 2) == 1 {
		split = n / 2
	}
	single := vrt.Choice("single", 2) == 1
	v := make([]uint32, n)
	for i := range v {
		v[i] = uint32(i)
		if i < 2 || i == n/2 || i >= n-2 {
			v[i] = vrt.U32("v"+id(i)) >> 3
		}
	}
	var body []byte
	for from := 0; from < n; {
		to := split
		if from >= split {
			to = n
		}
		if single {
			to = from + 1
		}
		if to == from+1 {
			body = append(body, build.Rec(build.RRK, build.Cell(0, uint16(from), 0), build.W32(v[from]<<2|2))...)
		} else {
			d := build.Cat(build.W16(0), build.W16(uint16(from)))
			for i := from; i < to; i++ {
				d = append(d, build.Cat(build.W16(0), build.W32(v[i]<<2|2))...)
			}
			body = append(body, build.Rec(build.RMulRk, d, build.W16(uint16(to-1)))...)
		}
		from = to
	}
	if vrt.Choice("dims", 2) == 1 {
		body = build.Cat(build.Dims(1, uint16(n)), body)
	}
	c := sheet(nil, body)
	vrt.Assert(c.Next(), "the row of a cell is missing")
	types := c.Types()
	vrt.Assert(len(types) >= n, "a cell is missing")
	got := make([]int64, n)
	args := make([]interface{}, n)
	for i := range args {
		vrt.Assert(types[i] == "integer", "a cell has the wrong type")
		args[i] = &got[i]
	}
	vrt.Assert(c.Scan(args...) == nil, "a row cannot be scanned into its types")
	for i := range got {
		vrt.Assert(got[i] == int64(v[i]), "an integer cell has another value")
	}
	for i := n; i < len(types); i++ {
		vrt.Assert(types[i] == "blank", "a cell that was not written has content")
	}
	vrt.Reach("row")
}
