package hxls

import (
	"verifh/build"
	"verifh/par"
	"verifh/vrt"
)

// parts are the records of a workbook that uses every kind of cell.
func parts() (globals, body [][]byte) {
	globals = [][]byte{build.Rec(build.RCodePage, build.W16(1200)), build.Rec(build.RDate1904, build.W16(1)),
		build.Rec(build.RFormat, build.W16(164), build.Long(build.U16s("0.0"), true)), xf(0), xf(164), xf(14),
		build.Cat(build.SST(true, build.U16s("ab"), build.U16s("c")), build.Rec(build.RContinue, build.Long(build.U16s("d"), false)))}
	l := link{kind: 1, target: build.U16s("t"), display: build.U16s("d")}
	body = [][]byte{build.Rec(build.RWsBool, build.W16(0)), build.Dims(3, 4),
		build.Rec(build.RRK, build.Cell(0, 0, 1), build.W32(6)),
		build.Rec(build.RMulRk, build.W16(1), build.W16(0), build.W16(2), build.W32(6), build.W16(1), build.W32(7), build.W16(1)),
		build.Rec(build.RBoolErr, build.Cell(0, 1, 0), []byte{1, 0}),
		build.Rec(build.RNumber, build.Cell(0, 2, 0), build.W64(0x3ff8000000000000)),
		build.Rec(build.RFormula, build.Cell(2, 0, 0), []byte{0, 0, 0, 0, 0, 0, 0xff, 0xff}, make([]byte, 8)),
		build.Rec(build.RString, build.Long(build.U16s("xy"), false)),
		build.Rec(build.RFormula, build.Cell(2, 3, 0), build.W64(0x3ff8000000000000), make([]byte, 8)),
		build.Rec(build.RLabelSst, build.Cell(2, 1, 0), build.W32(1)),
		build.Cat(build.BOF(0x20), build.Rec(build.RNumber, build.Cell(9, 9, 0), build.W64(0)), build.EOF()),
		l.rec([4]uint16{2, 2, 2, 2}), merge([4]uint16{1, 2, 2, 2})}
	return
}

func assembled(globals, body [][]byte) []byte {
	sheets := []build.XSheet{{Name: build.U16s("S"), Body: build.Cat(body...)}, {Name: build.U16s("T"), Wide: true, Body: build.Rec(build.RRK, build.Cell(0, 0, 1), build.W32(10))}}
	return build.CFB("Workbook", build.Workbook(build.Cat(globals...), sheets, nil))
}

// insert puts a record in front of record i.
func insert(list [][]byte, i int, rec []byte) [][]byte {
	return append(append(append([][]byte{}, list[:i]...), rec), list[i:]...)
}

// Foreign: a record of a type that holds neither cells nor the data for them, with any
// contents and with or without continuation, between any two records.
func Foreign() {
	globals, body := parts()
	plain := assembled(globals, body)
	typ := vrt.U16("type")
	for _, t := range types {
		vrt.Assume(typ != t)
	}
	// cells that are not delivered, row sizes, protection
	for _, t := range []uint16{build.RBlank, 0x00BE, 0x0204, 0x00D6, build.RRow, 0x0800} {
		vrt.Assume(typ != t)
	}
	rec := build.Rec(typ, vrt.Bytes("p", []int{0, 1, 6, 20}[vrt.Choice("n", 4)]))
	if vrt.Choice("continued", 2) == 1 {
		rec = build.Cat(rec, build.Rec(build.RContinue, vrt.Bytes("q", 3)))
	}
	if vrt.Choice("where", 2) == 0 {
		globals = insert(globals, vrt.Choice("at", len(globals)+1), rec)
	} else {
		i := vrt.Choice("before", len(body)+1)
		// only the records of an array or shared formula are between a formula and its text
		vrt.Assume(i != 7 || typ == build.RArray || typ == build.RShrFmla || typ == 0x0236)
		body = insert(body, i, rec)
	}
	par.Same(vrt.File("f.xls", plain), vrt.File("g.xls", assembled(globals, body)))
}

// Layout: the sizes of rows and sheet options say nothing about the cells.
func Layout() {
	globals, body := parts()
	plain := assembled(globals, body)
	w := vrt.U16("options")
	dialog := vrt.Choice("dialog", 2) == 1
	vrt.Assume(dialog == (w&0x10 != 0))
	body[0] = build.Rec(build.RWsBool, build.W16(w))
	r := uint16(vrt.Choice("row", 3))
	row := build.Rec(build.RRow, build.W16(r), build.W16(0), build.W16(4), vrt.Bytes("h", 6), vrt.Bytes("flags", 4))
	body = insert(body, 2+vrt.Choice("at", 3), row)
	file := assembled(globals, body)
	if dialog {
		wb := open(file)
		_, err := wb.Get("S")
		vrt.Assert(err != nil, "a dialog is shown as a sheet")
		c, err := wb.Get("T")
		vrt.Assert(err == nil && c.Next(), "a sheet beside a dialog is lost")
		vrt.Reach("dialog")
		return
	}
	par.Same(vrt.File("f.xls", plain), vrt.File("g.xls", file))
}
