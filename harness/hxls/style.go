package hxls

import (
	"time"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/commonxl"
	"verifh/build"
	"verifh/vrt"
)

const (
	base1900 = -2209161600 // 1899-12-30
	base1904 = -2082844800 // 1904-01-01
)

func xf(f uint16) []byte { return build.Rec(build.RXF, build.W16(0), build.W16(f), make([]byte, 16)) }

// customs are the formats that the workbooks of this file define.
var customs = map[uint16]string{164: "0.000", 165: "yyyy/mm/dd", 65535: "0.0%"}

// Styles: a table of three style entries, one of them with any 16-bit format, defined
// before or after the formats themselves, and cells with any style index.
func Styles() {
	rot := vrt.Choice("rot", 3)
	var sel [3]uint16
	sel[rot], sel[(rot+1)%3], sel[(rot+2)%3] = vrt.U16("format"), 10, 164
	var xfs, fmts []byte
	for i := range sel {
		xfs = append(xfs, xf(sel[i])...)
	}
	for _, f := range []uint16{164, 165, 65535} {
		fmts = append(fmts, build.Rec(build.RFormat, build.W16(f), build.Long(build.U16s(customs[f]), f == 165))...)
	}
	globals := build.Cat(fmts, xfs)
	if vrt.Choice("late", 2) == 1 {
		globals = build.Cat(xfs, fmts)
	}
	at := vrt.U16("style")
	want := uint16(0)
	switch at {
	case 0, 1, 2:
		want = sel[at]
		vrt.Reach("styled")
	default:
		vrt.Reach("unstyled")
	}
	var body []byte
	var val interface{} = 43831.0
	switch vrt.Choice("kind", 4) {
	case 0:
		val = int64(43831)
		body = build.Rec(build.RRK, build.Cell(0, 0, at), build.W32(43831<<2|2))
	case 1:
		body = build.Rec(build.RNumber, build.Cell(0, 0, at), build.W64(0x40e566e000000000))
	case 2:
		body = build.Rec(build.RFormula, build.Cell(0, 0, at), build.W64(0x40e566e000000000), make([]byte, 8))
	case 3:
		val = int64(43831)
		body = build.Rec(build.RMulRk, build.W16(0), build.W16(0), build.W16(at), build.W32(43831<<2|2), build.W16(0), build.W32(2), build.W16(1))
	}
	c := sheet(globals, body)
	ref := &commonxl.Formatter{}
	for f, code := range customs {
		ref.Add(f, code)
	}
	exp := commonxl.Sheet{Formatter: ref}
	exp.Put(0, 0, val, want)
	exp.Next()
	vrt.Assert(c.Next(), "a row is missing")
	vrt.Assert(c.Formats()[0] == exp.Formats()[0], "a cell has another number format")
	if want == 164 || want == 14 {
		vrt.Assert(c.Formats()[0] == map[uint16]string{14: "mm-dd-yy", 164: "164"}[want], "a cell has another number format")
		vrt.Reach("named")
	}
	vrt.Assert(c.Strings()[0] == exp.Strings()[0], "a cell is shown under another number format")
	vrt.Assert(c.Types()[0] == exp.Types()[0], "a cell has the type of another number format")
	if val == int64(43831) && want == 0 {
		vrt.Assert(c.Strings()[0] == "43831", "a cell without style is shown under a number format")
	}
}

// dated is a workbook with one date cell and the date cell itself.
func dated(n string) (data []byte, unix int64) {
	day := vrt.Int("day"+n, 61, 2957003)
	var globals []byte
	unix = base1900 + 86400*int64(day)
	switch vrt.Choice("mode"+n, 3) {
	case 0:
		globals = build.Rec(build.RDate1904, build.W16(0))
	case 1:
		globals = build.Rec(build.RDate1904, build.W16(1))
		unix = base1904 + 86400*int64(day)
	}
	if vrt.Choice("place"+n, 2) == 0 {
		globals = build.Cat(globals, xf(0), xf(14))
	} else {
		globals = build.Cat(xf(0), xf(14), globals)
	}
	return build.OneSheet(globals, build.Rec(build.RRK, build.Cell(0, 0, 1), build.W32(uint32(day)<<2|2))), unix
}

func date(src grate.Source, unix int64) {
	c, err := src.Get("S")
	vrt.Assert(err == nil, "a valid sheet is refused")
	vrt.Assert(c.Next(), "a row is missing")
	vrt.Assert(c.Types()[0] == "date", "a date cell has another type")
	var t time.Time
	err = c.Scan(&t)
	vrt.Assert(err == nil && t.Unix() == unix, "a date counts from another day")
	vrt.Reach("date")
}

// DateSystem: two workbooks opened together, each with its own or no date system.
func DateSystem() {
	d1, u1 := dated("a")
	d2, u2 := dated("b")
	a, b := open(d1), open(d2)
	if vrt.Choice("order", 2) == 0 {
		date(a, u1)
		date(b, u2)
	} else {
		date(b, u2)
		b.Close()
		date(a, u1)
	}
}

// DateText: the shown date follows the date system too.
func DateText() {
	day := vrt.Choice("day", 3)
	serial := []uint32{61, 1462, 43831}[day]
	sys := vrt.Choice("1904", 2)
	globals := build.Cat(build.Rec(build.RDate1904, build.W16(uint16(sys))), build.Rec(build.RFormat, build.W16(164), build.Long(build.U16s("yyyy-mm-dd"), false)), xf(164))
	c := sheet(globals, build.Rec(build.RRK, build.Cell(0, 0, 0), build.W32(serial<<2|2)))
	want := [][]string{{"1900-03-01", "1904-01-01", "2020-01-01"}, {"1904-03-02", "1908-01-02", "2024-01-02"}}
	vrt.Assert(c.Next(), "a row is missing")
	vrt.Assert(c.Strings()[0] == want[sys][day], "a date is shown counted from another day")
	vrt.Reach("date")
}

// DateTwice: of several declarations of the date system the last one counts.
func DateTwice() {
	n := 2 + vrt.Choice("n", 2)
	last := 0
	globals := build.Cat(xf(0), xf(14))
	for i := 0; i < n; i++ {
		last = vrt.Choice("mode"+id(i), 2)
		globals = build.Cat(globals, build.Rec(build.RDate1904, build.W16(uint16(last))))
	}
	day := vrt.Int("day", 61, 2957003)
	src := open(build.OneSheet(globals, build.Rec(build.RRK, build.Cell(0, 0, 1), build.W32(uint32(day)<<2|2))))
	base := int64(base1900)
	if last == 1 {
		base = base1904
	}
	date(src, base+86400*int64(day))
}
