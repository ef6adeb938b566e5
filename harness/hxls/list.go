package hxls

import (
	"unicode/utf16"

	"github.com/pbnjay/grate/xls"
	"verifh/build"
	"verifh/vrt"
)

// chars are n symbolic UTF-16 units in the given width.
func chars(name string, n int, wide bool) []uint16 {
	var r []uint16
	for i := 0; i < n; i++ {
		if wide {
			r = append(r, vrt.U16(name+id(i)))
		} else {
			r = append(r, uint16(vrt.Byte(name+id(i))))
		}
	}
	return r
}

func text(u []uint16) string { return string(utf16.Decode(u)) }

var orders = [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}

// Sheets: three sheets with symbolic visibility and kind, with their sections in any
// order, one of them with an embedded chart or a nested section.
func Sheets() {
	order := orders[vrt.Choice("order", len(orders))]
	names := []string{"one", "Two", "Ā3"}
	embed := vrt.Choice("embed", 4)
	depth := vrt.Choice("depth", 2)
	after := vrt.Bool("after")
	var sheets []build.XSheet
	var vals []uint32
	for i := 0; i < 3; i++ {
		v := vrt.U32("v"+id(i))&^3 | 2
		vals = append(vals, v)
		cell := build.Rec(build.RRK, build.Cell(0, 0, 0), build.W32(v))
		chart := []byte{}
		if i == embed {
			inner := build.Rec(build.RNumber, build.Cell(0, 0, 0), build.W64(1))
			if depth == 1 {
				inner = build.Cat(build.BOF(0x20), inner, build.EOF(), inner)
			}
			chart = build.Cat(build.BOF(0x20), build.Dims(7, 7), inner, build.EOF())
			if after {
				chart, cell = cell, chart
			}
		}
		u := utf16.Encode([]rune(names[i]))
		sheets = append(sheets, build.XSheet{Name: u, Wide: i == 2, Hidden: vrt.Byte("hidden" + id(i)), Body: build.Cat(chart, cell)})
	}
	src := open(build.CFB("Workbook", build.Workbook(nil, sheets, order)))
	wb := src.(*xls.WorkBook)
	list, err := wb.List()
	vrt.Assert(err == nil, "the sheets cannot be listed")
	hidden, err := wb.ListHidden()
	vrt.Assert(err == nil, "the hidden sheets cannot be listed")
	vrt.Assert(len(list)+len(hidden) == 3, "a sheet is listed twice or never")
	for i, s := range sheets {
		if s.Hidden&3 == 0 {
			vrt.Assert(len(list) > 0 && list[0] == names[i], "a visible sheet is not listed at its place")
			list = list[1:]
			vrt.Reach("visible")
		} else {
			vrt.Assert(len(hidden) > 0 && hidden[0] == names[i], "a hidden sheet is not listed at its place")
			hidden = hidden[1:]
			vrt.Reach("hidden")
		}
		c, err := wb.Get(names[i])
		vrt.Assert(err == nil, "a listed sheet cannot be opened")
		vrt.Assert(c.Next(), "a sheet has no rows")
		row(c, []want{rkValue(vals[i])})
		vrt.Assert(len(c.Types()) == 1, "a sheet shows cells of another section")
		vrt.Assert(!c.Next(), "a sheet shows rows of another section")
	}
	for _, n := range []string{"", "tWO", "one ", "3", "on"} {
		_, err := wb.Get(n)
		vrt.Assert(err != nil, "an unknown sheet is opened")
	}
}

// Names: two sheets with symbolic names of 0 to 2 characters in either width.
func Names() {
	var sheets []build.XSheet
	var names []string
	for i := 0; i < 2; i++ {
		wide := vrt.Bool("wide" + id(i))
		u := chars("n"+id(i), vrt.Choice("len"+id(i), 3), wide)
		for _, c := range u {
			vrt.Assume(c < 0xD800 || c > 0xDFFF)
		}
		names = append(names, text(u))
		sheets = append(sheets, build.XSheet{Name: u, Wide: wide, Hidden: byte(i),
			Body: build.Rec(build.RRK, build.Cell(0, 0, 0), build.W32(uint32(i)<<2|2))})
	}
	vrt.Assume(names[0] != names[1])
	wb := open(build.CFB("Workbook", build.Workbook(nil, sheets, nil))).(*xls.WorkBook)
	list, _ := wb.List()
	hidden, _ := wb.ListHidden()
	vrt.Assert(len(list) == 1 && list[0] == names[0], "a sheet is listed under another name")
	vrt.Assert(len(hidden) == 1 && hidden[0] == names[1], "a hidden sheet is listed under another name")
	for i, n := range names {
		c, err := wb.Get(n)
		vrt.Assert(err == nil, "a listed sheet cannot be opened")
		vrt.Assert(c.Next(), "a sheet has no rows")
		row(c, []want{{typ: "integer", i: int64(i)}})
	}
	other := vrt.Str("other", vrt.Choice("olen", 3))
	if other != names[0] && other != names[1] {
		_, err := wb.Get(other)
		vrt.Assert(err != nil, "an unknown sheet is opened")
		vrt.Reach("unknown")
	}
}
