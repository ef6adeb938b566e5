package hxls

import (
	"verifh/build"
	"verifh/vrt"
)

// Empty: sheets with no or one cell of every kind anywhere, blank records and declared
// sizes are empty exactly without a value.
func Empty() {
	strs := []string{"x", ""}
	globals := build.SST(false, build.U16s("x"), nil)
	at := [][2]uint16{{0, 0}, {0, 1}, {2, 0}, {3, 5}, {0, 255}}[vrt.Choice("at", 5)]
	var body []byte
	has := false
	switch vrt.Choice("what", 3) {
	case 1:
		body = build.Rec(build.RBlank, build.Cell(vrt.U16("br")&3, vrt.U16("bc")&3, vrt.U16("bx")))
	case 2:
		rec, w := cell("c", 7, 2, at[0], at[1]&^1, strs)
		body = rec
		for _, x := range w {
			has = has || x.typ != ""
		}
	}
	if vrt.Choice("dims", 2) == 1 {
		d := [][2]int{{0, 0}, {1, 1}, {1, 3}, {4, 1}, {5, 6}}[vrt.Choice("size", 5)]
		body = build.Cat(build.Dims(uint32(d[0]), uint16(d[1])), body)
	}
	c := sheet(globals, body)
	vrt.Assert(c.IsEmpty() == !has, "a sheet is empty exactly without values")
	for c.Next() {
		for _, t := range c.Types() {
			vrt.Assert(has || t == "blank", "an empty sheet shows values")
		}
		vrt.Assert(c.IsEmpty() == !has, "reading a sheet changes whether it is empty")
	}
	if has {
		vrt.Reach("values")
	} else {
		vrt.Reach("empty")
	}
}
