// Package hcross stores the same table in a binary workbook and in a package, and compares
// what the two readers deliver.
package hcross

import (
	"math"
	"strconv"
	"time"

	"github.com/pbnjay/grate"
	_ "github.com/pbnjay/grate/simple"
	_ "github.com/pbnjay/grate/xls"
	_ "github.com/pbnjay/grate/xlsx"
	"verifh/build"
	"verifh/vrt"
)

// item is one cell in both encodings.
type item struct {
	xls            func(row, col, xf uint16) []byte
	typ, xml       string
	kind           string
	val            float64
	formula, empty bool
}

var errCodes = []byte{0x00, 0x07, 0x0F, 0x17, 0x1D, 0x24, 0x2A}
var errTexts = []string{"#NULL!", "#DIV/0!", "#VALUE!", "#REF!", "#NAME?", "#NUM!", "#N/A"}

var numbers = []struct {
	xml string
	val float64
}{{"0", 0}, {"1", 1}, {"-7", -7}, {"0.5", 0.5}, {"-1234.5678", -1234.5678}, {"43831.75", 43831.75}, {"61", 61}, {"1E+20", 1e20}, {"1.5E-7", 1.5e-7},
	{"999999.995", 999999.995}, {"2958465", 2958465}, {"-0.004", -0.004}, {"33.333333333333336", 33.333333333333336}, {"12345678901", 12345678901}}

func tail() []byte { return make([]byte, 8) }

func special(b ...byte) []byte { return build.Cat(b, make([]byte, 6-len(b)), []byte{0xff, 0xff}) }

// number is a number stored directly or as the result of a formula.
func number(k, how int) item {
	n := numbers[k]
	it := item{typ: "", xml: n.xml, kind: "number", val: n.val, formula: how == 1}
	it.xls = func(r, c, xf uint16) []byte {
		v := build.W64(math.Float64bits(n.val))
		if how == 1 {
			return build.Rec(build.RFormula, build.Cell(r, c, xf), v, tail())
		}
		return build.Rec(build.RNumber, build.Cell(r, c, xf), v)
	}
	return it
}

// other is a cell that is not a number.
func other(n string, strings *[]string) item {
	how := vrt.Choice("how"+n, 2)
	it := item{formula: how == 1}
	switch vrt.Choice("kind"+n, 4) {
	case 0:
		b := byte(vrt.Choice("b"+n, 2))
		it.kind, it.typ, it.xml = "boolean", "b", string('0'+rune(b))
		it.xls = func(r, c, xf uint16) []byte {
			if how == 1 {
				return build.Rec(build.RFormula, build.Cell(r, c, xf), special(1, 0, b), tail())
			}
			return build.Rec(build.RBoolErr, build.Cell(r, c, xf), []byte{b, 0})
		}
	case 1:
		k := vrt.Choice("e"+n, len(errCodes))
		it.kind, it.typ, it.xml = "error", "e", errTexts[k]
		it.xls = func(r, c, xf uint16) []byte {
			if how == 1 {
				return build.Rec(build.RFormula, build.Cell(r, c, xf), special(2, 0, errCodes[k]), tail())
			}
			return build.Rec(build.RBoolErr, build.Cell(r, c, xf), []byte{errCodes[k], 1})
		}
	case 2:
		u := char(n)
		if how == 1 {
			it.typ, it.xml = "str", text(u)
		} else {
			*strings = append(*strings, text(u))
			it.typ, it.xml = "s", strconv.Itoa(len(*strings)-1)
		}
		it.kind = "text"
		at := uint32(len(*strings) - 1)
		it.xls = func(r, c, xf uint16) []byte {
			if how == 1 {
				return build.Cat(build.Rec(build.RFormula, build.Cell(r, c, xf), special(0), tail()), build.Rec(build.RString, build.Long(u, true)))
			}
			return build.Rec(build.RLabelSst, build.Cell(r, c, xf), build.W32(at))
		}
		if how == 0 {
			pool = append(pool, u)
		}
	default:
		it.kind, it.empty = "blank", true
		it.xls = func(r, c, xf uint16) []byte {
			if how == 1 {
				return build.Rec(build.RFormula, build.Cell(r, c, xf), special(3), tail())
			}
			return build.Rec(build.RBlank, build.Cell(r, c, xf))
		}
	}
	return it
}

// pool are the shared strings as they are in the binary workbook.
var pool [][]uint16

func text(u []uint16) string {
	r := ""
	for _, c := range u {
		r += string(rune(c))
	}
	return r
}

// char is a text with one symbolic character between two letters.
func char(n string) []uint16 {
	c := vrt.U16("c" + n)
	switch vrt.Choice("class"+n, 3) {
	case 0:
		vrt.Assume(c >= ' ' && c < 0x7f && c != '<' && c != '&' && c != '>')
	case 1:
		vrt.Assume(c >= 0xa0 && c < 0x800)
	default:
		vrt.Assume(c >= 0x800 && c < 0xd800)
	}
	return []uint16{'a', c, 'z'}
}

func at(r, c int) string { return string(rune('A'+c)) + strconv.Itoa(r+1) }

// xml is the cell in a package.
func (it item) cell(r, c, style int) string {
	f := ""
	if it.formula {
		f = "<f>1+1</f>"
	}
	t := ""
	if it.typ != "" {
		t = ` t="` + it.typ + `"`
	}
	s := `<c r="` + at(r, c) + `" s="` + strconv.Itoa(style) + `"` + t
	if it.empty {
		return s + "/>"
	}
	return s + ">" + f + "<v>" + it.xml + "</v></c>"
}

// both writes the two files.
type both struct {
	rows, cols int
	ids        []int          // number format of every style
	codes      map[int]string // defined formats
	order      []int          // and their order
	d1904      bool
	strings    []string
	recs       []byte
	xml        []string // one text per row
	moreX      string   // behind the rows
	rels       string
	link       string
}

func (b *both) put(r, c, style int, it item) {
	b.recs = append(b.recs, it.xls(uint16(r), uint16(c), uint16(style))...)
	b.xml[r] += it.cell(r, c, style)
}

func table(rows, cols int) *both {
	pool = nil
	return &both{rows: rows, cols: cols, xml: make([]string, rows), ids: []int{0}}
}

func (b *both) open() (x, y grate.Collection) {
	var g []byte
	if b.d1904 {
		g = append(g, build.Rec(build.RDate1904, build.W16(1))...)
	}
	styles := ""
	for _, id := range b.order {
		g = append(g, build.Rec(build.RFormat, build.W16(uint16(id)), build.Long(build.U16s(b.codes[id]), false))...)
		styles += `<numFmt numFmtId="` + strconv.Itoa(id) + `" formatCode="` + quote(b.codes[id]) + `"/>`
	}
	styles = "<numFmts>" + styles + "</numFmts><cellXfs>"
	for _, id := range b.ids {
		g = append(g, build.Rec(build.RXF, build.W16(0), build.W16(uint16(id)), make([]byte, 16))...)
		styles += `<xf numFmtId="` + strconv.Itoa(id) + `" applyNumberFormat="1"/>`
	}
	if len(pool) > 0 {
		g = append(g, build.SST(true, pool...)...)
	}
	xls := build.OneSheet(g, build.Cat(build.Dims(uint32(b.rows), uint16(b.cols)), b.recs))
	p := build.XLSX{Styles: styles + "</cellXfs>"}
	if b.d1904 {
		p.Workbook = `<workbookPr date1904="1"/>`
	}
	for _, s := range b.strings {
		p.Strings += "<si><t>" + s + "</t></si>"
	}
	body := `<dimension ref="A1:` + at(b.rows-1, b.cols-1) + `"/><sheetData>`
	for i, r := range b.xml {
		if r != "" {
			body += `<row r="` + strconv.Itoa(i+1) + `">` + r + "</row>"
		}
	}
	p.Sheets = []build.XS{{Name: "S", Body: body + "</sheetData>" + b.moreX, Rels: b.rels}}
	return sheet(vrt.File("f.xls", xls)), sheet(p.File("f.xlsx"))
}

func quote(s string) string {
	r := ""
	for i := 0; i < len(s); i++ {
		if s[i] == '"' {
			r += "&quot;"
		} else {
			r += s[i : i+1]
		}
	}
	return r
}

func sheet(path string) grate.Collection {
	src, err := grate.Open(path)
	vrt.Assert(err == nil, "a valid workbook is refused")
	names, err := src.List()
	vrt.Assert(err == nil && len(names) == 1 && names[0] == "S", "the sheets of a workbook are listed in another way")
	c, err := src.Get("S")
	vrt.Assert(err == nil, "a valid sheet is refused")
	return c
}

func failed(s string) bool {
	for _, e := range errTexts {
		if s == e {
			return true
		}
	}
	return false
}

// same compares everything that the two readers deliver.
func same(b *both) {
	x, y := b.open()
	vrt.Assert(x.IsEmpty() == y.IsEmpty(), "the same table is empty in one of the formats only")
	for n := 0; ; n++ {
		more := x.Next()
		vrt.Assert(more == y.Next(), "the same table has another number of rows")
		if !more {
			vrt.Assert(n == b.rows, "the table has another number of rows than it declares")
			break
		}
		sx, sy := x.Strings(), y.Strings()
		tx, ty := x.Types(), y.Types()
		fx, fy := x.Formats(), y.Formats()
		vrt.Assert(len(sx) == len(sy) && len(tx) == len(ty) && len(fx) == len(fy), "the same table has another number of columns")
		for i := range sx {
			if sx[i] == sy[i]+b.link && b.link != "" {
				continue // the reader of binary workbooks shows the address too
			}
			vrt.Assert(sx[i] == sy[i], "the same cell is shown differently")
			if b.link != "" {
				continue // packages give the address to all cells of a range
			}
			vrt.Assert(tx[i] == ty[i], "the same cell has different types")
			if tx[i] != "blank" && !failed(sx[i]) { // errors of binary workbooks have no format
				vrt.Assert(fx[i] == fy[i], "the same cell has different number formats")
			}
		}
		vrt.Assert(b.link != "" || scan(x) == scan(y), "the same row is scanned differently")
	}
	vrt.Assert(x.Err() == nil && y.Err() == nil, "a valid table is in error")
	vrt.Reach("same")
}

// scan delivers the values of the row up to the first blank.
func scan(c grate.Collection) string {
	var p []interface{}
	for _, t := range c.Types() {
		if t == "blank" {
			break
		}
		switch t {
		case "boolean":
			p = append(p, new(bool))
		case "integer":
			p = append(p, new(int64))
		case "float":
			p = append(p, new(float64))
		case "date":
			p = append(p, new(time.Time))
		default:
			p = append(p, new(string))
		}
	}
	if err := c.Scan(p...); err != nil {
		return "error"
	}
	r := ""
	for _, v := range p {
		switch v := v.(type) {
		case *bool:
			r += strconv.FormatBool(*v) + "|"
		case *int64:
			r += strconv.FormatInt(*v, 10) + "|"
		case *float64:
			r += strconv.FormatUint(math.Float64bits(*v), 16) + "|"
		case *time.Time:
			r += strconv.FormatInt(v.UnixNano(), 10) + "|"
		case *string:
			r += *v + "|"
		}
	}
	return r
}

var builtin = []int{0, 1, 2, 3, 4, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 37, 38, 39, 40, 45, 46, 47, 48, 49}
var codes = []string{"yyyy-mm-dd", "0.000", `"n "0`, "hh:mm:ss", "#,##0", "0.0%", "# ?/?", "[Red]0", "0;-0;zero", "General"}

// style gives the second style of the workbook a format.
func (b *both) style(k int) {
	id := 0
	if k < len(builtin) {
		id = builtin[k]
	} else {
		id = 164 + k - len(builtin)
		b.codes = map[int]string{id: codes[k-len(builtin)]}
		b.order = []int{id}
	}
	b.ids = []int{0, id}
}

// Numbers: a number under every format and both date systems.
func Numbers() {
	b := table(1, 2)
	k := vrt.Choice("style", len(builtin)+len(codes))
	b.style(k)
	b.d1904 = vrt.Choice("1904", 2) == 1
	n := 5
	if vrt.Thorough() {
		n = len(numbers)
	}
	b.put(0, 0, 1, number((vrt.Choice("n", n)+k)%len(numbers), vrt.Choice("how", 2)))
	b.put(0, 1, 0, number(1, 0))
	same(b)
}

// Cells: two cells of any other kind, under a format.
func Cells() {
	b := table(1, 3)
	b.style([]int{0, 2, 10, len(builtin) - 1, len(builtin)}[vrt.Choice("style", 5)])
	b.put(0, 0, 1, other("a", &b.strings))
	if vrt.Thorough() {
		b.put(0, 1, 0, other("b", &b.strings))
	} else {
		b.put(0, 1, 0, number(3, 0))
	}
	b.put(0, 2, 1, number(6, 0))
	same(b)
}

// Gaps: a grid in which any of the cells are missing.
func Gaps() {
	rows, cols := 2, 3
	if vrt.Thorough() {
		rows = 3
	}
	b := table(rows, cols)
	for i := 0; i < rows; i++ {
		for j := 0; j < cols; j++ {
			if vrt.Choice("at"+at(i, j), 2) == 1 {
				b.put(i, j, 0, number((i*cols+j)%len(numbers), 0))
			}
		}
	}
	same(b)
}

// Merges: a grid with a merged range, whose first cell may have a value.
func Merges() {
	rows, cols := 3, 3
	b := table(rows, cols)
	r0, c0 := vrt.Choice("r0", rows), vrt.Choice("c0", cols)
	r1, c1 := r0+vrt.Choice("h", rows-r0), c0+vrt.Choice("w", cols-c0)
	vrt.Assume(r1 > r0 || c1 > c0)
	full := vrt.Choice("first", 2) == 1
	for i := 0; i < rows; i++ {
		for j := 0; j < cols; j++ {
			first := i == r0 && j == c0
			in := i >= r0 && i <= r1 && j >= c0 && j <= c1
			if !in || first && full {
				b.put(i, j, 0, number(1, 0))
			}
		}
	}
	b.recs = append(b.recs, build.Rec(build.RMerge, build.W16(1), build.W16(uint16(r0)), build.W16(uint16(r1)), build.W16(uint16(c0)), build.W16(uint16(c1)))...)
	b.moreX = `<mergeCells><mergeCell ref="` + at(r0, c0) + ":" + at(r1, c1) + `"/></mergeCells>`
	same(b)
}

var classURL = []byte{0xE0, 0xC9, 0xEA, 0x79, 0xF9, 0xBA, 0xCE, 0x11, 0x8C, 0x82, 0x00, 0xAA, 0x00, 0x4B, 0xA9, 0x0B}
var classLink = []byte{0xD0, 0xC9, 0xEA, 0x79, 0xF9, 0xBA, 0xCE, 0x11, 0x8C, 0x82, 0x00, 0xAA, 0x00, 0x4B, 0xA9, 0x0B}

// Links: links on a range of cells that have values of every kind.
func Links() {
	b := table(2, 2)
	it := other("a", &b.strings)
	vrt.Assume(!it.empty)
	b.put(0, 0, 0, it)
	b.put(0, 1, 0, number(4, 0))
	b.put(1, 0, 0, number(1, 1))
	b.put(1, 1, 0, number(5, 0))
	r := [4]int{vrt.Choice("r0", 2), 1, vrt.Choice("c0", 2), 1}
	if vrt.Choice("single", 2) == 1 {
		r[1], r[3] = r[0], r[2]
	}
	u := build.Cat(build.Chars(build.U16s("http://x/?y"), true), build.W16(0))
	b.recs = append(b.recs, build.Rec(build.RHLink, build.W16(uint16(r[0])), build.W16(uint16(r[1])), build.W16(uint16(r[2])), build.W16(uint16(r[3])), classLink,
		build.W32(2), build.W32(3), classURL, build.W32(uint32(len(u))), u)...)
	ref := at(r[0], r[2])
	if r[0] != r[1] || r[2] != r[3] {
		ref += ":" + at(r[1], r[3])
	}
	b.moreX = `<hyperlinks><hyperlink ref="` + ref + `" r:id="rId1"/></hyperlinks>`
	b.link = " <http://x/?y>"
	b.rels = build.LinkRel("rId1", "http://x/?y")
	same(b)
}

// Sheets: workbooks with several sheets list them in the same order and deliver each.
func Sheets() {
	n := 2 + vrt.Choice("n", 2)
	var xs []build.XSheet
	var p build.XLSX
	names := []string{"One", "two words", "T.3"}
	rot := vrt.Choice("rot", n)
	for i := 0; i < n; i++ {
		name := names[(i+rot)%n]
		it := number(i, vrt.Choice("how"+at(i, 0), 2))
		xs = append(xs, build.XSheet{Name: build.U16s(name), Body: it.xls(uint16(i), 0, 0)})
		p.Sheets = append(p.Sheets, build.XS{Name: name, Body: "<sheetData>" + `<row r="` + strconv.Itoa(i+1) + `">` + it.cell(i, 0, 0) + "</row></sheetData>"})
	}
	var order []int
	if vrt.Choice("stored", 2) == 1 {
		for i := n - 1; i >= 0; i-- {
			order = append(order, i)
		}
	}
	a, err := grate.Open(vrt.File("f.xls", build.CFB("Workbook", build.Workbook(nil, xs, order))))
	vrt.Assert(err == nil, "a valid workbook is refused")
	b, err := grate.Open(p.File("f.xlsx"))
	vrt.Assert(err == nil, "a valid workbook is refused")
	la, e1 := a.List()
	lb, e2 := b.List()
	vrt.Assert(e1 == nil && e2 == nil && len(la) == n && len(lb) == n, "the same workbook has other sheets")
	for i := range la {
		vrt.Assert(la[i] == lb[i], "the same workbook has other sheets")
		x, e1 := a.Get(la[i])
		y, e2 := b.Get(la[i])
		vrt.Assert(e1 == nil && e2 == nil, "a valid sheet is refused")
		for {
			more := x.Next()
			vrt.Assert(more == y.Next(), "the same table has another number of rows")
			if !more {
				break
			}
			vrt.Assert(scan(x) == scan(y), "the same row is scanned differently")
			vrt.Assert(join(x.Strings()) == join(y.Strings()), "the same cell is shown differently")
		}
	}
	vrt.Reach("sheets")
}

func join(s []string) string {
	r := ""
	for _, x := range s {
		r += x + "|"
	}
	return r
}
