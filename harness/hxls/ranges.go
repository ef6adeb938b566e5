package hxls

import (
	"github.com/pbnjay/grate"
	"verifh/build"
	"verifh/vrt"
)

func merge(r ...[4]uint16) []byte {
	d := build.W16(uint16(len(r)))
	for _, x := range r {
		d = append(d, build.Cat(build.W16(x[0]), build.W16(x[1]), build.W16(x[2]), build.W16(x[3]))...)
	}
	return build.Rec(build.RMerge, d)
}

// mark puts the markers of a range (first row, last row, first column, last column)
// into the expected texts.
func mark(grid [][]string, r [4]int, keep bool) {
	for i := r[0]; i <= r[1]; i++ {
		for j := r[2]; j <= r[3]; j++ {
			m := ""
			switch {
			case i == r[0] && j == r[2] || keep && grid[i][j] != "":
				continue
			case j == r[2] && i == r[1]:
				m = grate.EndRowMerged
			case j == r[2]:
				m = grate.ContinueRowMerged
			case j == r[3]:
				m = grate.EndColumnMerged
			default:
				m = grate.ContinueColumnMerged
			}
			grid[i][j] = m
		}
	}
}

func texts(rows, cols int) [][]string {
	g := make([][]string, rows)
	for i := range g {
		g[i] = make([]string, cols)
	}
	return g
}

// show compares the texts of a whole sheet.
func show(c grate.Collection, grid [][]string) {
	n := 0
	for ; c.Next(); n++ {
		strs := c.Strings()
		for i, s := range strs {
			if n >= len(grid) || i >= len(grid[n]) {
				vrt.Assert(s == "", "a cell outside of the expected ones changed")
			} else {
				vrt.Assert(s == grid[n][i], "a cell shows another text")
			}
		}
		for i := len(strs); n < len(grid) && i < len(grid[n]); i++ {
			vrt.Assert(grid[n][i] == "", "a cell is missing")
		}
	}
	for ; n < len(grid); n++ {
		for _, s := range grid[n] {
			vrt.Assert(s == "", "a row is missing")
		}
	}
	vrt.Reach("shown")
}

// letters fills the cells in the given mask of a sheet with one shared string each.
func letters(rows, cols int, grid [][]string, at func(r, c int) bool) (globals, body []byte) {
	var strs [][]uint16
	for i := 0; i < rows; i++ {
		for j := 0; j < cols; j++ {
			if !at(i, j) {
				continue
			}
			u := []uint16{uint16('a' + len(strs))}
			grid[i][j] = text(u)
			body = append(body, build.Rec(build.RLabelSst, build.Cell(uint16(i), uint16(j), 0), build.W32(uint32(len(strs))))...)
			strs = append(strs, u)
		}
	}
	return build.SST(false, strs...), body
}

// Merged: one merged range anywhere in a sheet of 4x4 cells, with values in the first
// column, in its top-left cell and right outside of it.
func Merged() {
	n := 4
	r := [4]int{vrt.Int("r1", 0, n-1), vrt.Int("r2", 0, n-1), vrt.Int("c1", 0, n-1), vrt.Int("c2", 0, n-1)}
	vrt.Assume(r[0] <= r[1] && r[2] <= r[3])
	grid := texts(n, n)
	globals, body := letters(n, n, grid, func(i, j int) bool {
		return i == r[0] && j == r[2] || i < r[0] || i > r[1] || j < r[2] || j > r[3]
	})
	if vrt.Bool("dims") {
		body = build.Cat(build.Dims(uint32(n), uint16(n)), body)
	}
	body = append(body, merge([4]uint16{uint16(r[0]), uint16(r[1]), uint16(r[2]), uint16(r[3])})...)
	mark(grid, r, false)
	show(sheet(globals, body), grid)
}

// MergedTwo: two ranges that do not overlap, in one record or in two.
func MergedTwo() {
	n := 3
	var r [2][4]int
	for k := range r {
		r[k] = [4]int{vrt.Int("r1"+id(k), 0, n-1), vrt.Int("r2"+id(k), 0, n-1), vrt.Int("c1"+id(k), 0, n-1), vrt.Int("c2"+id(k), 0, n-1)}
		vrt.Assume(r[k][0] <= r[k][1] && r[k][2] <= r[k][3])
	}
	vrt.Assume(r[0][1] < r[1][0] || r[1][1] < r[0][0] || r[0][3] < r[1][2] || r[1][3] < r[0][2])
	grid := texts(n, n)
	globals, body := letters(n, n, grid, func(i, j int) bool {
		for _, x := range r {
			if i == x[0] && j == x[2] {
				return true
			}
			if i >= x[0] && i <= x[1] && j >= x[2] && j <= x[3] {
				return false
			}
		}
		return true
	})
	body = build.Cat(build.Dims(uint32(n), uint16(n)), body)
	var e [2][4]uint16
	for k := range r {
		e[k] = [4]uint16{uint16(r[k][0]), uint16(r[k][1]), uint16(r[k][2]), uint16(r[k][3])}
		mark(grid, r[k], false)
	}
	if vrt.Bool("one") {
		body = append(body, merge(e[0], e[1])...)
	} else {
		body = append(body, merge(e[0])...)
		body = append(body, merge(e[1])...)
	}
	show(sheet(globals, body), grid)
}

// MergedFull: ranges over full rows or full columns, with the values that stand for
// the last row and column of the format.
func MergedFull() {
	n := 3
	r := [4]int{vrt.Int("r1", 0, n-1), vrt.Int("r2", 0, n-1), vrt.Int("c1", 0, n-1), vrt.Int("c2", 0, n-1)}
	vrt.Assume(r[0] <= r[1] && r[2] <= r[3])
	e := [4]uint16{uint16(r[0]), uint16(r[1]), uint16(r[2]), uint16(r[3])}
	k := vrt.Choice("full", 3)
	if k != 0 {
		e[1], r[1] = 0xFFFF, n-1
	}
	if k != 1 {
		e[3], r[3] = 0xFF, n-1
	}
	grid := texts(n, n)
	globals, body := letters(n, n, grid, func(i, j int) bool { return i == r[0] && j == r[2] })
	body = build.Cat(build.Dims(uint32(n), uint16(n)), body, merge(e))
	mark(grid, r, false)
	show(sheet(globals, body), grid)
}

var classURL = []byte{0xE0, 0xC9, 0xEA, 0x79, 0xF9, 0xBA, 0xCE, 0x11, 0x8C, 0x82, 0x00, 0xAA, 0x00, 0x4B, 0xA9, 0x0B}
var classFile = []byte{0x03, 0x03, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0xc0, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x46}
var classLink = []byte{0xD0, 0xC9, 0xEA, 0x79, 0xF9, 0xBA, 0xCE, 0x11, 0x8C, 0x82, 0x00, 0xAA, 0x00, 0x4B, 0xA9, 0x0B}

// hstr is a string of a hyperlink: length with the final zero, then the characters.
func hstr(u []uint16) []byte {
	return build.Cat(build.W32(uint32(len(u)+1)), build.Chars(u, true), build.W16(0))
}

// link describes a hyperlink record.
type link struct {
	display, frame, location []uint16 // nil: absent
	kind                     int      // 0 none, 1 URL, 2 URL with the trailing fields, 3 short file path, 4 unicode file path, 5 text
	target                   []uint16
}

func (l link) rec(r [4]uint16) []byte {
	flags := uint32(0)
	var d []byte
	if l.display != nil {
		flags |= 0x14
		d = append(d, hstr(l.display)...)
	}
	if l.frame != nil {
		flags |= 0x80
		d = append(d, hstr(l.frame)...)
	}
	if l.kind != 0 {
		flags |= 1
	}
	switch l.kind {
	case 1:
		u := build.Cat(build.Chars(l.target, true), build.W16(0))
		d = append(d, build.Cat(classURL, build.W32(uint32(len(u))), u)...)
	case 2:
		u := build.Cat(build.Chars(l.target, true), build.W16(0), make([]byte, 24))
		d = append(d, build.Cat(classURL, build.W32(uint32(len(u))), u)...)
	case 3:
		d = append(d, build.Cat(classFile, build.W16(0), build.W32(uint32(len(l.target)+1)), build.Chars(l.target, false), []byte{0}, build.W16(0xFFFF), build.W16(0xDEAD), make([]byte, 20), build.W32(0))...)
	case 4:
		u := build.Chars(l.target, true)
		d = append(d, build.Cat(classFile, build.W16(0), build.W32(4), []byte{'s', 'h', 'o', 0}, build.W16(0xFFFF), build.W16(0xDEAD), make([]byte, 20),
			build.W32(uint32(6+len(u))), build.W32(uint32(len(u))), build.W16(3), u)...)
	case 5:
		flags |= 0x100
		d = append(d, hstr(l.target)...)
	}
	if l.location != nil {
		flags |= 8
		d = append(d, hstr(l.location)...)
	}
	return build.Rec(build.RHLink, build.W16(r[0]), build.W16(r[1]), build.W16(r[2]), build.W16(r[3]), classLink, build.W32(2), build.W32(flags), d)
}

// shows is the text of the cell of the link.
func (l link) shows(content string) string {
	if len(l.display) > 0 {
		content = text(l.display)
	}
	t := text(l.target)
	if l.kind == 0 {
		t = text(l.location)
	} else if l.location != nil {
		t += "#" + text(l.location)
	}
	return content + " <" + t + ">"
}

// word is n symbolic characters that are neither blank nor zero. Characters of 8 bits
// are ASCII: those beyond depend on the code page of the writer.
func word(name string, n int, wide bool) []uint16 {
	u := chars(name, n, wide)
	for i, c := range u {
		vrt.Assume(c > ' ' && (wide || c < 127))
		if i == 0 && n == 1 {
			vrt.Assume(c < 0x80) // the other classes are left to the text with two characters
		}
	}
	return u
}

// Links: hyperlinks of every kind on a cell with or without a value.
func Links() {
	var l link
	l.kind = vrt.Choice("kind", 6)
	long := vrt.Choice("long", 4) // the text with two characters
	n := func(i int) int {
		if i == long {
			return 2
		}
		return 1
	}
	l.target = []uint16{}
	if l.kind != 0 {
		l.target = word("t", n(0), l.kind != 3)
	}
	if vrt.Choice("display", 2) == 1 {
		l.display = word("d", n(1), true)
	}
	if vrt.Choice("frame", 2) == 1 {
		l.frame = word("f", n(2), true)
	}
	if vrt.Choice("location", 2) == 1 || l.kind == 0 {
		l.location = word("l", n(3), true)
	}
	grid := texts(2, 2)
	content := vrt.Bool("content")
	globals, body := letters(2, 2, grid, func(i, j int) bool { return content || i == j })
	if vrt.Bool("dims") {
		body = build.Cat(build.Dims(2, 2), body)
	}
	r, c := vrt.Choice("row", 2), 1
	if vrt.Thorough() {
		c = vrt.Choice("col", 2)
	}
	body = append(body, l.rec([4]uint16{uint16(r), uint16(r), uint16(c), uint16(c)})...)
	grid[r][c] = l.shows(grid[r][c])
	show(sheet(globals, body), grid)
}

// LinkRange: a link on a range: the first cell shows it, cells with content keep it.
func LinkRange() {
	n := 3
	r := [4]int{vrt.Int("r1", 0, n-1), vrt.Int("r2", 0, n-1), vrt.Int("c1", 0, n-1), vrt.Int("c2", 0, n-1)}
	vrt.Assume(r[0] <= r[1] && r[2] <= r[3])
	grid := texts(n, n)
	step := 1 + vrt.Choice("step", 3)
	globals, body := letters(n, n, grid, func(i, j int) bool { return (n*i+j)%step == 0 })
	l := link{kind: 1, target: []uint16{'u'}}
	if vrt.Bool("display") {
		l.display = []uint16{'D'}
	}
	body = build.Cat(build.Dims(3, 3), body, l.rec([4]uint16{uint16(r[0]), uint16(r[1]), uint16(r[2]), uint16(r[3])}))
	grid[r[0]][r[2]] = l.shows(grid[r[0]][r[2]])
	mark(grid, r, true)
	show(sheet(globals, body), grid)
}

// LinkNumber: a link without a display text on a number keeps the shown number.
func LinkNumber() {
	l := link{kind: 1, target: word("t", 1, true)}
	k := vrt.Choice("k", 4)
	cell := [][]byte{
		build.Rec(build.RRK, build.Cell(0, 0, 0), build.W32(42<<2|2)),
		build.Rec(build.RNumber, build.Cell(0, 0, 0), build.W64(0x3ff8000000000000)),
		build.Rec(build.RBoolErr, build.Cell(0, 0, 0), []byte{0x2A, 1}),
		build.Rec(build.RRK, build.Cell(0, 0, 1), build.W32(42<<2|2)),
	}[k]
	xfs := build.Cat(build.Rec(build.RXF, build.W16(0), build.W16(0), make([]byte, 16)), build.Rec(build.RXF, build.W16(0), build.W16(10), make([]byte, 16)))
	show(sheet(xfs, build.Cat(cell, l.rec([4]uint16{}))), [][]string{{l.shows([]string{"42", "1.5", "#N/A", "4200.00%"}[k])}})
}

// LinkAny: a link without a display text on a cell of any kind and format keeps the
// text that the cell shows without the link.
func LinkAny() {
	k := vrt.Choice("k", 7)
	i := vrt.Choice("val", []int{4, 6, 2, 7, 3, 6, 1}[k])
	val := build.W64([]uint64{0x3ff8000000000000, 0xc000000000000000, 0x3e7ad7f29abcaf48, 0x40e57c1800000000, 0, 0x41dfffffffc00000}[i%6])
	style := vrt.Choice("style", 8)
	at := build.Cell(0, 0, uint16(style))
	cell := [][]byte{
		build.Rec(build.RRK, at, build.W32([]uint32{2, 44000<<2 | 2, 12345<<2 | 3, 0xffffff86}[i%4])),
		build.Rec(build.RNumber, at, val),
		build.Rec(build.RBoolErr, at, []byte{byte(i), 0}),
		build.Rec(build.RBoolErr, at, []byte{[]byte{0, 7, 15, 0x17, 0x1d, 0x24, 0x2a}[i], 1}),
		build.Rec(build.RLabelSst, at, build.W32(0)),
		build.Rec(build.RFormula, at, val, make([]byte, 8)),
		build.Cat(build.Rec(build.RFormula, at, []byte{0, 0, 0, 0, 0, 0, 0xff, 0xff}, make([]byte, 8)), build.Rec(build.RString, build.Long(build.U16s("5"), false))),
	}[k]
	globals := [][]byte{build.Rec(build.RFormat, build.W16(164), build.Long(build.U16s("0.0 x"), false)), build.SST(false, build.U16s([]string{"ab", "5", " "}[i%3]))}
	for _, f := range []uint16{0, 10, 14, 49, 60, 164, 200} {
		globals = append(globals, build.Rec(build.RXF, build.W16(0), build.W16(f), make([]byte, 16)))
	}
	l := link{kind: 1, target: build.U16s("u")}
	c := sheet(build.Cat(globals...), build.Cat(build.Dims(1, 1), cell))
	vrt.Assert(c.Next(), "a row is missing")
	show(sheet(build.Cat(globals...), build.Cat(build.Dims(1, 1), cell, l.rec([4]uint16{}))), [][]string{{l.shows(c.Strings()[0])}})
}

// MergedMany: records of up to the 1027 ranges that fit into one; every row has a range
// over some of its columns, one of them with symbolic columns.
func MergedMany() {
	n := []int{200, 255, 256, 257, 512, 1027}[vrt.Choice("ranges", 6)]
	at := []int{0, 199, n - 1}[vrt.Choice("at", 3)]
	c1, c2 := vrt.Choice("c1", 3), vrt.Choice("c2", 3)
	vrt.Assume(c1 <= c2)
	grid := texts(n, 3)
	var body []byte
	var e [][4]uint16
	for i := 0; i < n; i++ {
		r := [4]int{i, i, 0, 1}
		if i == at {
			r = [4]int{i, i, c1, c2}
		}
		body = append(body, build.Rec(build.RLabelSst, build.Cell(uint16(i), uint16(r[2]), 0), build.W32(0))...)
		grid[i][r[2]] = "a"
		mark(grid, r, false)
		e = append(e, [4]uint16{uint16(r[0]), uint16(r[1]), uint16(r[2]), uint16(r[3])})
	}
	body = build.Cat(build.Dims(uint32(n), 3), body, merge(e...))
	show(sheet(build.SST(false, build.U16s("a")), body), grid)
}
