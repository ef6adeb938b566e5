package hxlsx

import (
	"verifh/build"
	"verifh/vrt"
)

// Empty: sheets with no or one cell of every kind anywhere, cells without values, rows
// without cells and declared sizes are empty exactly without a value.
func Empty() {
	at := []struct{ row, ref string }{{"1", "A1"}, {"1", "B1"}, {"3", "A3"}, {"4", "F4"}, {"1", "ZZ1"}}[vrt.Choice("at", 5)]
	has := true
	rows := ""
	b := []byte{vrt.Byte("c")}
	vrt.Assume(b[0] > ' ' && b[0] < 0x7F && b[0] != '<' && b[0] != '&' && b[0] != '>')
	t := string(b)
	switch vrt.Choice("what", 11) {
	case 0:
		has = false
	case 1:
		rows, has = `<row r="`+at.row+`"/>`, false
	case 2:
		rows, has = row(at.row, cell(at.ref, "", "1", "")), false
	case 3:
		rows, has = row(at.row, cell(at.ref, "", "", "<v></v>")), false
	case 4:
		rows, has = row(at.row, `<c r="`+at.ref+`" s="1"/>`), false
	case 5:
		rows = row(at.row, cell(at.ref, "str", "", v(t)))
	case 6:
		rows = row(at.row, cell(at.ref, "inlineStr", "", "<is><t>"+t+"</t></is>"))
	case 7:
		rows = row(at.row, cell(at.ref, "s", "", v("0")))
	case 8:
		rows = row(at.row, cell(at.ref, "", "", v("0")))
	case 9:
		rows = row(at.row, cell(at.ref, "b", "", v("0")))
	case 10:
		rows = row(at.row, cell(at.ref, "e", "", v("#N/A")))
	}
	dim := []string{"", "A1", "A1:B2", "A1:A3", "B2:C9"}[vrt.Choice("dim", 5)]
	body := data(rows)
	if dim != "" {
		body = `<dimension ref="` + dim + `"/>` + body
	}
	x := one(body)
	x.Strings = "<si><t>" + t + "</t></si>"
	x.Styles = `<cellXfs><xf numFmtId="0"/><xf numFmtId="2"/></cellXfs>`
	c := open(x)
	vrt.Assert(c.IsEmpty() == !has, "a sheet is empty exactly without values")
	for c.Next() {
		for _, t := range c.Types() {
			vrt.Assert(has || t == "blank", "an empty sheet shows values")
		}
		vrt.Assert(c.IsEmpty() == !has, "reading a sheet changes whether it is empty")
	}
	if has {
		vrt.Reach("values")
	} else {
		vrt.Reach("empty")
	}
}

var _ build.XLSX
