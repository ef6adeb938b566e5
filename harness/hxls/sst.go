package hxls

import (
	"verifh/build"
	"verifh/vrt"
)

// sstr is one string of a shared string table.
type sstr struct {
	u    []uint16
	wide bool
	runs int // rich text runs, -1: absent
	ext  int // bytes of phonetic data, -1: absent
}

// piece is a part of the table; continuations that begin inside of characters have a
// flags byte, all others do not.
type piece struct {
	data  []byte
	chars bool // the piece continues characters
	flags byte
}

// encode appends a string to the pieces, cut at the given byte position of its
// characters and trailing data (negative: uncut); the rest continues with width w2.
func encode(parts []piece, s sstr, cut int, w2 bool) []piece {
	flags := byte(0)
	if s.wide {
		flags = 1
	}
	var head, tail []byte
	if s.runs >= 0 {
		flags |= 8
	}
	if s.ext >= 0 {
		flags |= 4
	}
	head = build.Cat(build.W16(uint16(len(s.u))), []byte{flags})
	if s.runs >= 0 {
		head = append(head, build.W16(uint16(s.runs))...)
		for i := 0; i < 4*s.runs; i++ {
			tail = append(tail, byte(0xA0+i))
		}
	}
	if s.ext >= 0 {
		head = append(head, build.W32(uint32(s.ext))...)
		for i := 0; i < s.ext; i++ {
			tail = append(tail, byte(0xC0+i))
		}
	}
	last := len(parts) - 1
	parts[last].data = append(parts[last].data, head...)
	switch {
	case cut < 0:
		parts[last].data = append(parts[last].data, build.Cat(build.Chars(s.u, s.wide), tail)...)
	case cut < len(s.u):
		parts[last].data = append(parts[last].data, build.Chars(s.u[:cut], s.wide)...)
		f := byte(0)
		if w2 {
			f = 1
		}
		parts = append(parts, piece{data: build.Cat(build.Chars(s.u[cut:], w2), tail), chars: true, flags: f})
	default:
		k := cut - len(s.u)
		parts[last].data = append(parts[last].data, build.Cat(build.Chars(s.u, s.wide), tail[:k])...)
		parts = append(parts, piece{data: append([]byte{}, tail[k:]...)})
	}
	return parts
}

func records(parts []piece) []byte {
	var r []byte
	for i, p := range parts {
		d := p.data
		if p.chars {
			d = build.Cat([]byte{p.flags}, d)
		}
		if i == 0 {
			r = append(r, build.Rec(build.RSST, d)...)
		} else {
			r = append(r, build.Rec(build.RContinue, d)...)
		}
	}
	return r
}

// check opens a workbook whose cells show all strings of the table.
func check(table []byte, strs []sstr, more int) {
	var body []byte
	for i := range strs {
		body = append(body, build.Rec(build.RLabelSst, build.Cell(0, uint16(i), 0), build.W32(uint32(i)))...)
	}
	body = append(body, build.Rec(build.RRK, build.Cell(0, uint16(len(strs)), 0), build.W32(7<<2|2))...)
	c := sheet(table, body)
	vrt.Assert(c.Next(), "a row is missing")
	got := c.Strings()
	for i, s := range strs {
		vrt.Assert(got[i] == text(s.u), "a shared string has other characters")
	}
	vrt.Reach("strings")
}

func symbolic(name string, max int) sstr {
	s := sstr{runs: -1, ext: -1}
	s.wide = vrt.Choice(name+"wide", 2) == 1
	s.u = chars(name+"c", vrt.Choice(name+"len", max+1), s.wide)
	return s
}

func extras(name string, s *sstr, runs, ext int) {
	s.runs = vrt.Choice(name+"runs", runs+2) - 1
	s.ext = vrt.Choice(name+"ext", ext+2) - 1
}

func start(n int) []piece {
	return []piece{{data: build.Cat(build.W32(uint32(n)), build.W32(uint32(n)))}}
}

// Table: two strings of symbolic characters with or without runs and phonetic data;
// the first is cut anywhere, with any width behind the cut.
func Table() {
	a, b := symbolic("a", 2), symbolic("b", 1)
	extras("a", &a, 1, 2)
	if vrt.Thorough() {
		extras("b", &b, 1, 1)
	}
	tail := 0
	if a.runs > 0 {
		tail += 4 * a.runs
	}
	if a.ext > 0 {
		tail += a.ext
	}
	cut := vrt.Choice("cut", len(a.u)+tail+2) - 1
	w2 := vrt.Choice("w2", 2) == 1
	if cut >= 0 && cut < len(a.u) {
		for _, c := range a.u[cut:] {
			vrt.Assume(w2 || c < 256)
		}
	}
	parts := encode(start(2), a, cut, w2)
	parts = encode(parts, b, -1, false)
	check(records(parts), []sstr{a, b}, 0)
}

// TableLast: the last of two strings is cut anywhere, the first at its end or not.
func TableLast() {
	a, b := symbolic("a", 1), symbolic("b", 3)
	if vrt.Thorough() {
		extras("b", &b, 1, 1)
	}
	tail := 0
	if b.runs > 0 {
		tail += 4 * b.runs
	}
	if b.ext > 0 {
		tail += b.ext
	}
	cut1 := -1
	if vrt.Bool("between") {
		cut1 = len(a.u)
	}
	cut := vrt.Choice("cut", len(b.u)+tail+2) - 1
	w2 := vrt.Choice("w2", 2) == 1
	if cut >= 0 && cut < len(b.u) {
		for _, c := range b.u[cut:] {
			vrt.Assume(w2 || c < 256)
		}
	}
	parts := encode(start(2), a, cut1, false)
	parts = encode(parts, b, cut, w2)
	check(records(parts), []sstr{a, b}, 0)
}

// TableMany: one string cut into up to four records, each of either width, and one
// behind it.
func TableMany() {
	n, cuts := 4, 2
	if vrt.Thorough() {
		cuts = 3
	}
	wide := vrt.Choice("wide", 2) == 1
	u := chars("c", n, wide)
	for _, c := range u {
		vrt.Assume(c < 0xD800)
	}
	first, conts := split("", u, wide, cuts)
	flag := byte(0)
	if wide {
		flag = 1
	}
	parts := start(2)
	parts[0].data = append(parts[0].data, build.Cat(build.W16(uint16(n)), []byte{flag}, first)...)
	for i, f := range widths("", len(conts)) {
		parts = append(parts, piece{data: conts[i], chars: true, flags: f})
	}
	b := sstr{u: []uint16{'z'}, runs: -1, ext: -1}
	check(records(encode(parts, b, -1, false)), []sstr{{u: u}, b}, 0)
}

// TableLong: a table of one string of 32767 characters over several full records, and
// strings around it.
func TableLong() {
	vrt.NoMerge()
	wide := vrt.Bool("wide")
	n := []int{8213, 8214, 20000, 32767}[vrt.Choice("n", 4)]
	u := make([]uint16, n)
	for i := range u {
		u[i] = 'x'
	}
	a := sstr{u: []uint16{'a'}, runs: -1, ext: -1}
	parts := encode(start(3), a, -1, false)
	room := 8224 - len(parts[0].data) - 3
	per, flag := 8223, byte(0)
	if wide {
		room, per, flag = room/2, 4111, 1
	}
	for _, i := range []int{0, room - 1, room, n - 1} {
		if i < n {
			u[i] = uint16(vrt.Byte("c" + id(i)))
		}
	}
	p := room
	if p > n {
		p = n
	}
	parts[0].data = append(parts[0].data, build.Cat(build.W16(uint16(n)), []byte{flag}, build.Chars(u[:p], wide))...)
	for p < n {
		k := per
		if k > n-p {
			k = n - p
		}
		parts = append(parts, piece{data: build.Chars(u[p:p+k], wide), chars: true, flags: flag})
		p += k
	}
	b := sstr{u: []uint16{'b'}, runs: -1, ext: -1}
	if len(parts[len(parts)-1].data) > 8200 {
		parts = append(parts, piece{})
	}
	check(records(encode(parts, b, -1, false)), []sstr{a, {u: u}, b}, 0)
}
