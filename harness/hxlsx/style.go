package hxlsx

import (
	"time"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/commonxl"
	"github.com/pbnjay/grate/xlsx"
	"verifh/build"
	"verifh/vrt"
)

// customs are the formats that the packages of this file define.
var customs = []struct {
	id   uint16
	code string
}{{164, "yyyy-mm-dd"}, {165, "0.00"}, {40000, "hh:mm"}, {65535, "0"}}

func formatter() *commonxl.Formatter {
	f := &commonxl.Formatter{}
	for _, c := range customs {
		f.Add(c.id, c.code)
	}
	return f
}

// formats to choose from: general, built-in, custom and unknown ones.
var ids = []uint16{0, 1, 2, 9, 14, 22, 49, 164, 165, 166, 32767, 40000, 65535}

// xf is a style entry; the id and flag may be left out.
func xf(id, apply, base string) string {
	s := `<xf fontId="0"`
	if id != "" {
		s += ` numFmtId="` + id + `"`
	}
	if apply != "" {
		s += ` applyNumberFormat="` + apply + `"`
	}
	if base != "" {
		s += ` xfId="` + base + `"`
	}
	return s + `/>`
}

// like compares a cell with the same value put into a sheet under the format.
func like(c grate.Collection, want uint16, val float64) {
	vrt.Assert(c.Next(), "a row is missing")
	f := formatter()
	exp := &commonxl.Sheet{Formatter: f}
	exp.Put(0, 0, val, want)
	exp.Next()
	vrt.Assert(c.Formats()[0] == exp.Formats()[0], "a cell has another number format than its style")
	vrt.Assert(c.Types()[0] == exp.Types()[0], "a cell has the type of another number format")
	vrt.Assert(c.Strings()[0] == exp.Strings()[0], "a cell is shown under another number format")
}

func styled(numFmts, bases, xfs, index string) grate.Collection {
	x := one(data(row("1", cell("A1", "", index, v("43831.5")))))
	x.Styles = numFmts + `<fonts count="1"><font/></fonts>` + bases + xfs + `<dxfs count="1"><dxf><numFmt numFmtId="1" formatCode="@"/></dxf></dxfs>`
	return open(x)
}

func customXML() string {
	s := `<numFmts count="4">`
	for _, c := range customs {
		s += `<numFmt numFmtId="` + num(int(c.id)) + `" formatCode="` + c.code + `"/>`
	}
	return s + `</numFmts>`
}

// Styles: every style index over a table of entries with their own, inherited and
// removed formats.
func Styles() {
	fs, basis := []uint16{0, 166, 40000}, []uint16{14, 165}
	if vrt.Thorough() {
		fs, basis = ids, []uint16{0, 14, 165, 40000}
	}
	f, base := uint16(0), basis[vrt.Choice("base", len(basis))]
	flags := []string{"", "0", "1"}
	bflag, flag := vrt.Choice("bflag", 3), vrt.Choice("flag", 3)
	own := vrt.Choice("own", 2)
	bid := vrt.Choice("xfId", 4)
	at := vrt.Choice("at", 3)

	// the first base style has a number format, drops it, or has none
	first := vrt.Choice("first", 3)
	none := []uint16{1, 0, 0}[first]
	inherit := []uint16{none, base, 0, none}[bid] // the last stands for no base: entry 0
	if bid == 1 && bflag == 1 {
		inherit = 0
	}
	want := inherit
	idtext := ""
	if own == 1 {
		f = fs[vrt.Choice("f", len(fs))]
		idtext = num(int(f))
		want = f
	}
	if flag == 1 {
		want = 0
	}
	bases := `<cellStyleXfs count="2">` + xf([]string{"1", "1", ""}[first], []string{"", "0", "1"}[first], "") + xf(num(int(base)), flags[bflag], "") + `</cellStyleXfs>`
	xfs := ""
	for i := 0; i < 3; i++ {
		if i == at {
			xfs += xf(idtext, flags[flag], []string{"0", "1", "7", ""}[bid])
		} else {
			xfs += xf("2", "1", "0")
		}
	}
	xfs = `<cellXfs count="3">` + xfs + `</cellXfs>`
	if vrt.Choice("styles", 2) == 1 {
		xfs += `<cellStyles count="1"><cellStyle name="Normal" xfId="0" builtinId="0"/></cellStyles>`
	}
	index := num(at)
	if at == 0 && vrt.Choice("index", 2) == 1 {
		index = ""
	}
	like(styled(customXML(), bases, xfs, index), want, 43831.5)
	vrt.Reach("styled")
}

// NoStyle: indexes outside of the table, and packages without one.
func NoStyle() {
	index := []string{"1", "2", "255", "65536", "4294967296", "18446744073709551615", "-1", "-9223372036854775808"}[vrt.Choice("index", 8)]
	var c grate.Collection
	if vrt.Choice("table", 2) == 1 {
		c = styled(customXML(), `<cellStyleXfs>`+xf("14", "1", "")+`</cellStyleXfs>`, `<cellXfs count="1">`+xf("14", "1", "0")+`</cellXfs>`, index)
	} else {
		c = open(one(data(row("1", cell("A1", "", index, v("43831.5"))))))
	}
	like(c, 0, 43831.5)
	vrt.Reach("general")
}

// Format: every 16-bit format id in a style entry.
func Format() {
	n := 1 + vrt.Choice("digits", 5)
	b := vrt.Bytes("id", n)
	f := 0
	for i := range b {
		vrt.Assume(b[i] >= '0' && b[i] <= '9' && (i > 0 || n == 1 || b[i] > '0'))
		f = f*10 + int(b[i]-'0')
	}
	vrt.Assume(f < 65536)
	x := styled(customXML(), "", `<cellXfs count="2">`+xf("0", "", "")+xf(string(b), "1", "")+`</cellXfs>`, "1")
	vrt.Assert(x.Next(), "a row is missing")
	s := &commonxl.Sheet{Formatter: formatter()}
	s.Put(0, 0, 43831.5, uint16(f))
	s.Next()
	vrt.Assert(x.Types()[0] == s.Types()[0], "a cell has the type of another number format")
	vrt.Reach("format")
}

const (
	base1900 = -2209161600 // 1899-12-30
	base1904 = -2082844800
)

// DateSystem: two packages with their own or no date system, opened together.
func DateSystem() {
	var src [2]grate.Source
	var day [2]int
	var mode [2]bool
	days := []int{61, 100, 1462, 43831, 60000}
	for k := range src {
		day[k] = days[vrt.Choice("day"+id(k), len(days))]
		x := one(data(row("1", cell("A1", "", "1", v(num(day[k]))))))
		x.Styles = `<cellXfs count="2">` + xf("0", "", "") + xf("14", "1", "") + `</cellXfs>`
		m := vrt.Choice("mode"+id(k), 6)
		x.Workbook = []string{"", `<workbookPr/>`, `<workbookPr date1904="0"/>`, `<workbookPr date1904="false" codeName="x"/>`, `<workbookPr codeName="ThisWorkbook" date1904="1"/>`, `<fileVersion/><workbookPr date1904="true"></workbookPr>`}[m]
		mode[k] = m > 3
		if k == 0 && m%2 == 0 {
			// chosen elements for the first package keep the product small
			vrt.Assume(day[0] > 99)
		}
		var err error
		src[k], err = xlsx.Open(x.File("f" + id(k) + ".xlsx"))
		vrt.Assert(err == nil, "a healthy package cannot be opened")
	}
	for k := range src {
		if vrt.Choice("order", 2) == 1 {
			k = 1 - k
		}
		c := get(src[k], "S")
		vrt.Assert(c.Next(), "a row is missing")
		vrt.Assert(c.Types()[0] == "date", "a date cell has another type")
		var t time.Time
		err := c.Scan(&t)
		base := int64(base1900)
		if mode[k] {
			base = base1904
		}
		vrt.Assert(err == nil && t.Unix() == base+86400*int64(day[k]), "a date counts from another day")
	}
	vrt.Reach("date")
}

var _ build.XLSX
