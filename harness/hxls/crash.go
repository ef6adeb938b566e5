package hxls

import (
	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/xls"
	"verifh/build"
	"verifh/par"
	"verifh/vrt"
)

// visit opens a workbook stream and reads every sheet; only damage may stop it.
func visit(stream []byte, strs bool) {
	vrt.AllocLimit(64 << 20)
	src, err := xls.Open(par.File(vrt.File("f.xls", build.CFB("Workbook", stream))))
	if err != nil {
		vrt.Reach("refused")
		released()
		return
	}
	vrt.Reach("opened")
	wb := src.(*xls.WorkBook)
	list, err := wb.List()
	vrt.Assert(err == nil, "an opened workbook cannot be listed")
	hidden, err := wb.ListHidden()
	vrt.Assert(err == nil, "an opened workbook cannot be listed")
	for _, n := range append(list, hidden...) {
		c, err := wb.Get(n)
		if err != nil {
			vrt.Reach("sheet-refused")
			continue
		}
		read(c, strs)
	}
	wb.Get("no such sheet")
	vrt.Assert(wb.Close() == nil, "an opened workbook cannot be closed")
	released()
}

func read(c grate.Collection, strs bool) {
	for n := 0; c.Next(); n++ {
		vrt.Assert(n < 65536, "a sheet has more rows than the format allows")
		if n < 20 {
			c.Types()
			c.Formats()
			if strs {
				c.Strings()
			}
		}
	}
	c.IsEmpty()
	c.Err()
	vrt.Reach("sheet-read")
}

func symbytes(name string, n int) []byte {
	r := make([]byte, n)
	for i := range r {
		r[i] = vrt.Byte(name + id(i))
	}
	return r
}

// some is one of the listed values.
func some(name string, vals ...uint32) uint32 { return vals[vrt.Choice(name, len(vals))] }

var types = []uint16{build.RBOF, build.REOF, build.RFilePass, build.RSST, build.RContinue, build.RCodePage, build.RDate1904, build.RFormat, build.RXF, build.RBound,
	build.RWsBool, build.RDims, build.RBoolErr, build.RMulRk, build.RNumber, build.RRK, build.RFormula, build.RString, build.RLabelSst, build.RHLink, build.RMerge}

// CrashType: one record of any 16-bit type with any short payload, in the globals or
// in the sheet, with a correct or a wrong size.
func CrashType() {
	typ := vrt.U16("type")
	n := vrt.Choice("n", 17)
	// tables and dimensions have their own harnesses
	vrt.Assume(typ != build.RSST || n <= 8)
	vrt.Assume(typ != build.RDims || n < 12)
	vrt.Assume(typ != build.RMerge || n < 10)
	p := symbytes("p", n)
	for i := 0; i < n && i < 4; i++ {
		// positions and counts far out are left to other harnesses
		if i&1 == 1 {
			vrt.Assume(p[i] == 0)
		} else {
			vrt.Assume(p[i] < 3)
		}
	}
	rec := build.Cat(build.W16(typ), build.W16(uint16(n)), p)
	cell := build.Rec(build.RRK, build.Cell(0, 0, 0), build.W32(6))
	if vrt.Choice("where", 2) == 0 {
		visit(build.Workbook(rec, []build.XSheet{{Name: build.U16s("S"), Body: cell}}, nil), false)
	} else {
		visit(build.Workbook(nil, []build.XSheet{{Name: build.U16s("S"), Body: build.Cat(rec, cell)}}, nil), false)
	}
}

// CrashSize: every declared record size, in a stream that ends anywhere.
func CrashSize() {
	typ := types[vrt.Choice("type", len(types))]
	n := vrt.Choice("n", 6) * 4
	rec := build.Cat(build.W16(typ), build.W16(vrt.U16("size")), make([]byte, n))
	w := build.Workbook(nil, []build.XSheet{{Name: build.U16s("S"), Body: rec}}, nil)
	if vrt.Choice("end", 2) == 1 {
		w = w[:len(w)-4]
	}
	visit(w, true)
}

// CrashCut: a workbook of all records cut after any byte.
func CrashCut() {
	w := everything()
	n := vrt.Int("n", 0, len(w))
	visit(w[:n], true)
}

// everything is a workbook that uses every record type.
func everything() []byte {
	globals := build.Cat(build.Rec(build.RCodePage, build.W16(1200)), build.Rec(build.RDate1904, build.W16(0)),
		build.Rec(build.RFormat, build.W16(164), build.Long(build.U16s("0.0"), true)), xf(0), xf(164),
		build.SST(true, build.U16s("ab"), build.U16s("c")), build.Rec(build.RContinue, build.Long(build.U16s("d"), false)))
	l := link{kind: 1, target: build.U16s("t"), display: build.U16s("d")}
	body := build.Cat(build.Rec(build.RWsBool, build.W16(0)), build.Dims(3, 3),
		build.Rec(build.RRK, build.Cell(0, 0, 1), build.W32(6)),
		build.Rec(build.RMulRk, build.W16(1), build.W16(0), build.W16(0), build.W32(6), build.W16(1), build.W32(7), build.W16(1)),
		build.Rec(build.RBoolErr, build.Cell(0, 1, 0), []byte{1, 0}),
		build.Rec(build.RNumber, build.Cell(0, 2, 0), build.W64(0x3ff8000000000000)),
		build.Rec(build.RFormula, build.Cell(2, 0, 0), []byte{0, 0, 0, 0, 0, 0, 0xff, 0xff}, make([]byte, 8)),
		build.Rec(build.RString, build.Long(build.U16s("xy"), false)),
		build.Rec(build.RLabelSst, build.Cell(2, 1, 0), build.W32(1)),
		build.BOF(0x20), build.Rec(build.RNumber, build.Cell(9, 9, 0), build.W64(0)), build.EOF(),
		l.rec([4]uint16{2, 2, 2, 2}), merge([4]uint16{1, 2, 2, 2}))
	return build.Workbook(globals, []build.XSheet{{Name: build.U16s("S"), Body: body}, {Name: build.U16s("T"), Wide: true, Hidden: 1, Body: body[:14]}}, nil)
}

// CrashByte: a workbook of all records with any one byte (thorough: two neighbours)
// replaced by any value.
func CrashByte() {
	w := everything()
	p := vrt.Choice("at", len(w))
	w[p] = vrt.Byte("x")
	if vrt.Thorough() && p+1 < len(w) {
		w[p+1] = vrt.Byte("y")
	}
	visit(w, false)
}

// CrashPlaces: cells of every kind far out, with and without (odd) dimensions.
func CrashPlaces() {
	rows := []uint16{0, 1, 300, 65535}
	cols := []uint16{0, 2, 254, 255, 256, 65535}
	r, c := rows[vrt.Choice("row", len(rows))], cols[vrt.Choice("col", len(cols))]
	if r >= 300 {
		vrt.Assume(c == 0 || c > 255)
	}
	var rec []byte
	at := build.Cell(r, c, vrt.U16("xf"))
	switch vrt.Choice("kind", 6) {
	case 0:
		rec = build.Rec(build.RNumber, at, build.W64(0x3ff8000000000000))
	case 1:
		rec = build.Rec(build.RBoolErr, at, []byte{vrt.Byte("v"), vrt.Byte("e")})
	case 2:
		rec = build.Rec(build.RLabelSst, at, build.W32(1))
	case 3:
		rec = build.Rec(build.RMulRk, at[:4], at[4:], build.W32(6), build.W16(0), build.W32(vrt.U32("rk")), build.W16(vrt.U16("last")))
	case 4:
		rec = build.Rec(build.RFormula, at, []byte{vrt.Byte("k"), 0, vrt.Byte("v"), 0, 0, 0, 0xff, 0xff}, make([]byte, 8), build.Rec(build.RString, build.W16(1), []byte{0, 'x'}))
	case 5:
		rec = build.Rec(build.RRK, at, build.W32(6))
	}
	body := rec
	dims := vrt.Choice("dims", 4)
	if r >= 300 {
		vrt.Assume(dims == 0)
	}
	switch dims {
	case 1:
		body = build.Cat(build.Dims(2, uint16(some("dcols", 0, 1, 255, 256, 257, 65535))), rec)
	case 2:
		vrt.Assume(c == 0 || c > 255)
		body = build.Cat(build.Dims(some("drows", 0, 1, 0xFFFFFFFF), 1), rec)
	case 3:
		body = build.Cat(rec, build.Rec(build.RDims, build.W32(vrt.U32("d0")), build.W32(2), build.W16(vrt.U16("d1")), build.W16(1)), build.Dims(1, 2))
	}
	visit(build.Workbook(table(), []build.XSheet{{Name: build.U16s("S"), Body: body}}, nil), false)
}

// CrashDims: declared dimensions inside and beyond the limits of the format, in sheets
// with few columns or few rows.
func CrashDims() {
	vrt.NoMerge()
	rows, cols := uint32(vrt.Choice("r", 6)), uint16(vrt.Choice("c", 2))
	switch vrt.Choice("case", 4) {
	case 1:
		rows = vrt.U32("rows")
		vrt.Assume(rows > 65536)
	case 2:
		rows = 65535 + rows&1
	case 3:
		rows, cols = rows&1, 255+cols
		if vrt.Choice("beyond", 2) == 1 {
			cols = vrt.U16("cols")
			vrt.Assume(cols > 256)
		}
	}
	visit(build.Workbook(nil, []build.XSheet{{Name: build.U16s("S"), Body: build.Dims(rows, cols)}}, nil), true)
}

// CrashIndex: shared string and style indexes of any value over small tables.
func CrashIndex() {
	var body []byte
	if vrt.Choice("kind", 2) == 0 {
		body = build.Rec(build.RLabelSst, build.Cell(0, 0, vrt.U16("xf")), build.W32(vrt.U32("sst")))
	} else {
		body = build.Rec(build.RRK, build.Cell(0, 0, vrt.U16("xf")), build.W32(6))
	}
	g := build.Cat(xf(vrt.U16("f0")), xf(2))
	if vrt.Choice("table", 2) == 1 {
		g = append(g, table()...)
	}
	visit(build.Workbook(g, []build.XSheet{{Name: build.U16s("S"), Body: body}}, nil), true)
}

// sized keeps the bytes of string tables, which are sizes or flags, small or large.
func sized(b []byte) []byte {
	for i := range b {
		vrt.Assume(b[i] < 16 || b[i] == 127)
	}
	return b
}

// CrashTable: a shared string table over up to three records; its counts are any, the
// bytes of its strings (sizes, flags and characters) small or large.
func CrashTable() {
	max, conts := uint32(13), []int{0, 3, 2}
	if vrt.Thorough() {
		max, conts = 18, []int{0, 5, 3}
	}
	n := vrt.Choice("records", 3)
	a := symbytes("a", int(some("n0", 0, 7, 8, 9, 11, max)))
	if len(a) > 9 {
		vrt.Assume(a[9] == 0 || a[9] == 255 && a[8] == 255)
		sized(a[10:])
		vrt.Assume(a[9] != 0 || a[8] < 16)
	}
	g := build.Rec(build.RSST, a)
	for i := 1; i <= n; i++ {
		g = append(g, build.Rec(build.RContinue, sized(symbytes(id(i)+"c", vrt.Choice("n"+id(i), conts[i]))))...)
	}
	visit(build.Workbook(g, []build.XSheet{{Name: build.U16s("S"), Body: build.Rec(build.RLabelSst, build.Cell(0, 0, 0), build.W32(vrt.U32("sst")))}}, nil), false)
}

// CrashResult: formula results of any 8 bytes.
func CrashResult() {
	f := build.Rec(build.RFormula, build.Cell(0, 0, 0), symbytes("v", 8), make([]byte, 8))
	visit(build.Workbook(nil, []build.XSheet{{Name: build.U16s("S"), Body: f}}, nil), false)
}

// CrashString: string results of any length and encoding, over any number of short
// continuations, with and without a formula in front.
func CrashString() {
	d := build.Cat(build.W16(uint16(some("len", 0, 1, 2, 3, 4, 5, 40, 32767, 32768, 65535))), []byte{vrt.Byte("flags"), 'a', 0, 'b'})
	s := build.Rec(build.RString, d[:some("n", 0, 2, 3, 4, 6)])
	conts := vrt.Choice("conts", 3)
	for i := 0; i < conts; i++ {
		s = append(s, build.Rec(build.RContinue, []byte{vrt.Byte("c" + id(i)), 'c', 0}[:some("n"+id(i), 0, 1, 2, 3)])...)
	}
	if vrt.Choice("formula", 2) == 1 {
		s = append(build.Rec(build.RFormula, build.Cell(0, 0, 0), []byte{0, 0, 0, 0, 0, 0, 0xff, 0xff}, make([]byte, 8)), s...)
	}
	visit(build.Workbook(nil, []build.XSheet{{Name: build.U16s("S"), Body: s}}, nil), false)
}

// CrashLink: hyperlinks with any flags and up to three (thorough four) small or arbitrary words
// behind them, cut anywhere.
func CrashLink() {
	var d []byte
	n := 3
	if vrt.Thorough() {
		n = 4
	}
	anys := 0
	for i := 0; i < n; i++ {
		switch k := vrt.Choice("w"+id(i), 5); k {
		case 3:
			anys++
			vrt.Assume(anys < 2)
			if !vrt.Thorough() {
				vrt.Assume(i < 3)
			}
			d = append(d, build.W32(vrt.U32("any"))...)
		case 4:
			d = append(append(d, []([]byte){classURL, classFile}[vrt.Choice("class"+id(i), 2)]...), make([]byte, 4)...)
			i = n
		default:
			d = append(d, build.W32(uint32(k))...)
		}
	}
	rec := build.Rec(build.RHLink, make([]byte, 8), classLink, build.W32(2), build.W32(vrt.U32("flags")), d[:len(d)-vrt.Choice("cut", 6)])
	visit(build.Workbook(nil, []build.XSheet{{Name: build.U16s("S"), Body: rec}}, nil), false)
}

// CrashLinkShort: hyperlink records cut within their fixed part.
func CrashLinkShort() {
	rec := build.Cat(make([]byte, 8), classLink, build.W32(vrt.U32("version")), build.W32(vrt.U32("flags")))
	rec = build.Rec(build.RHLink, rec[:vrt.Choice("n", len(rec)+1)])
	visit(build.Workbook(nil, []build.XSheet{{Name: build.U16s("S"), Body: rec}}, nil), false)
}

// CrashMoniker: URL and file targets with any lengths.
func CrashMoniker() {
	text := make([]byte, 40)
	for i := range text {
		text[i] = "ab\x00"[i%3]
	}
	var d []byte
	if vrt.Choice("class", 2) == 0 {
		d = build.Cat(classURL, build.W32(vrt.U32("len")), text[:some("n", 0, 1, 8, 26, 40)])
	} else {
		d = build.Cat(classFile, build.W16(0), build.W32(vrt.U32("len")), text[:some("n", 0, 1, 5, 23, 24, 28, 30)])
		d = append(d, build.Cat(build.W32(vrt.U32("len2")), text[:some("m", 0, 5, 6, 7, 12)])...)
	}
	flags := []uint32{1, 9, 0x11}[vrt.Choice("flags", 3)]
	rec := build.Rec(build.RHLink, make([]byte, 8), classLink, build.W32(2), build.W32(flags), d)
	visit(build.Workbook(nil, []build.XSheet{{Name: build.U16s("S"), Body: rec}}, nil), false)
}

// CrashRanges: merged and linked ranges in any order of their corners, inside and
// outside of the sheet, with counts that do not match.
func CrashRanges() {
	vals := []uint32{0, 2, 255, 256, 65535}
	var rec []byte
	dims := vrt.Choice("dims", 3)
	switch kind := vrt.Choice("kind", 4); kind {
	case 0, 1:
		r1, r2 := some("r1", 0, 2, 65535), some("r2", 0, 1, 65535)
		c1, c2 := some("c1", vals...), some("c2", vals...)
		if r2 == 65535 {
			// a range of all rows of a sheet without them takes the reader seconds
			vrt.Assume(r1 == 0 && dims != 0 || r1 == r2 && (c2 == 0 || c1 > 255))
		}
		e := [4]uint16{uint16(r1), uint16(r2), uint16(c1), uint16(c2)}
		if kind == 0 {
			rec = merge(e)
		} else {
			rec = link{kind: 1, target: build.U16s("t")}.rec(e)
		}
	case 2:
		rec = merge([4]uint16{0, 1, 0, 1})
		rec[4], rec[5] = vrt.Byte("count"), vrt.Byte("count2")
	case 3:
		rec = merge([4]uint16{0, 1, 0, 1}, [4]uint16{0, 1, 3, 3})
		rec = build.Rec(build.RMerge, rec[4:4+vrt.Choice("n", 19)])
	}
	body := rec
	switch dims {
	case 1:
		body = build.Cat(build.Dims(3, 3), rec)
	case 2:
		body = build.Cat(build.Dims(1, 1), rec)
	}
	visit(build.Workbook(nil, []build.XSheet{{Name: build.U16s("S"), Body: body}}, nil), true)
}

// CrashStructure: any sequence of section records and a few others; sheets with any
// position in the stream.
func CrashStructure() {
	n := 4
	if vrt.Thorough() {
		n = 5
	}
	recs := [][]byte{
		build.BOF(5), build.EOF(), build.BOF(0x20),
		build.Rec(build.RBound, build.W32(vrt.U32("pos")), []byte{0, 0}, build.Short(build.U16s("S"), false)),
		build.Rec(build.RContinue, []byte{1, 'x', 0}),
		build.Rec(build.RString, build.W16(2), []byte{0, 'a'}),
		build.Rec(build.RRK, build.Cell(0, 0, 0), build.W32(6)),
		build.Rec(build.RSST, build.W32(1), build.W32(1), build.W16(2), []byte{0, 'a'}),
	}
	var w []byte
	if vrt.Choice("begin", 2) == 1 {
		w = build.Cat(recs[0], recs[3])
	}
	for i := 0; i < n; i++ {
		w = append(w, recs[vrt.Choice("rec"+id(i), len(recs))]...)
	}
	visit(w, true)
}

// CrashFilePass: encryption records of every kind, size and version, and with any
// verifier.
func CrashFilePass() {
	var p []byte
	if vrt.Choice("case", 2) == 0 {
		n := some("n", 0, 1, 2, 3, 6, 10, 53, 54, 55, 60)
		p = make([]byte, n)
		for i := 0; i < 6 && i < len(p); i++ {
			p[i] = vrt.Byte("p" + id(i))
		}
	} else {
		p = build.Cat(build.W16(1), build.RC4Header("VelvetSweatshop", make([]byte, 16), make([]byte, 16)))
		for i := 38; i < 54; i++ {
			p[i] = vrt.Byte("p" + id(i))
		}
	}
	visit(build.Workbook(build.Rec(build.RFilePass, p), []build.XSheet{{Name: build.U16s("S")}}, nil), false)
}

// CrashEncrypted: an encrypted stream with a record of any type and size behind its
// encryption record, cut anywhere.
func CrashEncrypted() {
	salt := make([]byte, 16)
	pass := build.Rec(build.RFilePass, build.W16(1), build.RC4Header("VelvetSweatshop", salt, salt))
	n := some("n", 0, 1, 3, 4, 5, 9)
	w := build.Cat(build.BOF(5), pass, build.W16(vrt.U16("type")), build.W16(vrt.U16("size")), make([]byte, n))
	if vrt.Choice("more", 2) == 1 {
		w = append(w, build.Rec(build.RBound, make([]byte, some("m", 0, 3, 4, 8)))...)
		w = append(w, make([]byte, 2*vrt.Choice("tail", 3))...)
	}
	visit(w, false)
}

// CrashEncryptedCut: an encrypted workbook of all records cut after any byte,
// or with another byte at any place of its globals.
func CrashEncryptedCut() {
	salt := make([]byte, 16)
	pass := build.Rec(build.RFilePass, build.W16(1), build.RC4Header("VelvetSweatshop", salt, salt))
	w := build.Workbook(build.Cat(pass, xf(0)), []build.XSheet{{Name: build.U16s("S"), Body: build.Rec(build.RRK, build.Cell(0, 0, 0), build.W32(6))}}, nil)
	w = build.Encrypt(w, "VelvetSweatshop", salt)
	n := vrt.Int("n", 0, len(w))
	if vrt.Choice("cut", 2) == 1 {
		w = w[:n]
	} else {
		// salt and verifier are left out: they decide on every byte behind them
		p := vrt.Choice("at", len(w)-34)
		vrt.Assume(p < 30 || p > 77)
		w[p] = vrt.Byte("x")
	}
	visit(w, false)
}
