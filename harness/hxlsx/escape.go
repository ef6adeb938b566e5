package hxlsx

import "verifh/vrt"

// digit is the hexadecimal digit of a number below 16.
func digit(n byte, lower bool) byte {
	d := '0' + n
	if n > 9 {
		d = 'A' + n - 10
		if lower {
			d = 'a' + n - 10
		}
	}
	return d
}

// Escapes: characters may be written as _xHHHH_ in the texts of a workbook,
// and texts that only resemble this are shown as they are.
func Escapes() {
	var text, xml string
	switch k := vrt.Choice("form", 4); k {
	case 0, 1:
		n := vrt.U16("code")
		if vrt.Choice("wide", 2) == 0 {
			vrt.Assume(n < 0x100)
		} else {
			vrt.Assume(n >= 0xfc0 && n < 0x1040 || n >= 0xd780 && n < 0xd800 || n >= 0xe000 && n < 0xe080)
		}
		low := vrt.Choice("lower", 2) == 1
		esc := "_x" + string([]byte{digit(byte(n>>12), low), digit(byte(n>>8)&15, low), digit(byte(n>>4)&15, low), digit(byte(n)&15, low)}) + "_"
		text, xml = string(rune(n)), esc
		if k == 1 {
			// the underline is escaped so that what follows is shown
			text, xml = "_x000D_"+text+"_", "_x005F_x000D_"+esc+"_"
		}
	case 2:
		a, b := symbol("a", vrt.Choice("na", 2), "<&]>_"), symbol("b", vrt.Choice("nb", 2), "<&]>")
		text, xml = a+"\n"+b+"\t", a+"_x000A_"+b+"_x0009_"
	case 3:
		b := symbol("b", 4, "<&]>")
		hex := true
		for i := range b {
			hex = hex && (b[i] >= '0' && b[i] <= '9' || b[i] >= 'A' && b[i] <= 'F' || b[i] >= 'a' && b[i] <= 'f')
		}
		vrt.Assume(!hex)
		near := []string{"_x" + b + "_", "_x00" + b[:1] + "_", "x000A_", "_x000A", "_X000A_", "_x0000A_", "_x", "_", "__x00_", "_xD83D_"}
		text = near[vrt.Choice("near", len(near))]
		vrt.Assume(b[0] != '_' || b[1] != 'x')
		xml = text
	}
	c, strings := textCell("A1", xml)
	switch vrt.Choice("kind", 8) {
	case 6, 7:
		return // errors and numbers
	}
	x := one(data(row("1", c+cell("C1", "str", "", v("z")))))
	x.Strings = strings
	txt, typ := grid(open(x))
	vrt.Assert(len(txt) == 1 && len(txt[0]) == 3, "a sheet has another size")
	vrt.Assert(txt[0][0] == text, "a cell shows another text than stored")
	vrt.Assert(typ[0][0] == "string", "a text cell has another type")
	vrt.Assert(txt[0][2] == "z", "a neighbour shows another text")
	vrt.Reach("escaped")
}
