package hcfb

import (
	"io"
	"strconv"

	"github.com/pbnjay/grate/xls/cfb"
	"verifh/build"
	"verifh/vrt"
)

// image is a compound file under construction: sector i is at (i+1)*secsize.
type image struct {
	shift uint
	head  []byte
	secs  [][]byte
	fat   []uint32
}

func newImage(shift uint, n int) *image {
	im := &image{shift: shift}
	im.head = build.CFBHeader()
	if shift == 12 {
		build.Put16(im.head[26:], 4)
		build.Put16(im.head[30:], 12)
		im.head = append(im.head, make([]byte, 4096-512)...)
	}
	for i := 0; i < n; i++ {
		im.secs = append(im.secs, make([]byte, 1<<shift))
		im.fat = append(im.fat, build.Free)
	}
	return im
}

// chain links the given sectors.
func (im *image) chain(secs []int) uint32 {
	for i, s := range secs {
		if i+1 < len(secs) {
			im.fat[s] = uint32(secs[i+1])
		} else {
			im.fat[s] = build.EOC
		}
	}
	if len(secs) == 0 {
		return build.EOC
	}
	return uint32(secs[0])
}

// spread copies data over the sectors.
func (im *image) spread(secs []int, data []byte) {
	for _, s := range secs {
		k := copy(im.secs[s], data)
		data = data[k:]
	}
}

// words stores a table of 32-bit words over the sectors, padded with FREESECT.
func (im *image) words(secs []int, tab []uint32) {
	per := (1 << im.shift) / 4
	for i, s := range secs {
		for j := 0; j < per; j++ {
			w := uint32(build.Free)
			if i*per+j < len(tab) {
				w = tab[i*per+j]
			}
			build.Put32(im.secs[s][4*j:], w)
		}
	}
}

// finish writes the FAT over the given sectors, listed in the header.
func (im *image) finish(fatsecs []int) []byte {
	for i, s := range fatsecs {
		im.fat[s] = build.FATs
		build.Put32(im.head[build.HDIFAT+4*i:], uint32(s))
	}
	build.Put32(im.head[build.HNumFAT:], uint32(len(fatsecs)))
	im.words(fatsecs, im.fat)
	return im.bytes()
}

func (im *image) bytes() []byte {
	out := append([]byte{}, im.head...)
	for _, s := range im.secs {
		out = append(out, s...)
	}
	return out
}

func pattern(n, seed int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8*13 + seed)
	}
	return b
}

func hasName(ns []string, s string) bool {
	for _, n := range ns {
		if n == s {
			return true
		}
	}
	return false
}

// expect checks the listing and the contents of one stream.
func expect(d *cfb.Document, name string, want []byte, tag string) {
	ns, err := d.List()
	vrt.Assert(err == nil, "listing failed")
	vrt.Assert(hasName(ns, name), "a stream is not listed: "+tag)
	r, err := d.Open(name)
	vrt.Assert(err == nil, "a listed stream cannot be opened: "+tag)
	if err != nil {
		return
	}
	got, err := io.ReadAll(r)
	vrt.Assert(err == nil, "a stream cannot be read: "+tag)
	vrt.Assert(len(got) == len(want), "a stream has the wrong length: "+tag)
	same := true
	for i := range got {
		if got[i] != want[i] {
			same = false
		}
	}
	vrt.Assert(same, "a stream has the wrong bytes: "+tag)
	vrt.Reach("stream")
}

// ValidBig: a stream in regular sectors; its first sector, one hop of its chain and its
// size are chosen symbolically among all free sectors.
func ValidBig() {
	const n = 16
	im := newImage(9, n)
	// FAT in 3, directory in 0 and 5
	size := []int{4096, 4097, 4500, 4607, 4608, 5119, 5120}[vrt.Choice("size", 7)]
	k := (size + 511) / 512
	avail := []int{1, 2, 4, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}
	// order: a rotation and a stride, then one swap
	rot := vrt.Choice("rot", len(avail))
	stride := []int{1, 2, 5, 12}[vrt.Choice("stride", 4)]
	var secs []int
	for i := 0; i < k; i++ {
		secs = append(secs, avail[(rot+i*stride)%len(avail)])
	}
	data := pattern(size, 3)
	for i := 0; i < k; i++ {
		data[i*512] = vrt.Byte("d" + strconv.Itoa(i))
	}
	data[size-1] = vrt.Byte("last")
	start := im.chain(secs)
	im.spread(secs, data)
	im.chain([]int{0, 5})
	build.Put32(im.head[build.HFirstDir:], 0)
	copy(im.secs[0], build.DirEntry(build.U16s("Root Entry"), 5, build.EOC, 0))
	slot := vrt.Choice("slot", 7) + 1
	sec := im.secs[0]
	if slot >= 4 {
		sec = im.secs[5]
	}
	if vrt.Bool("others") {
		for i := 1; i < 8; i++ {
			if i%3 == 0 {
				copy(im.secs[(i/4)*5][128*(i%4):], build.DirEntry(build.U16s("St"+strconv.Itoa(i)), 1, 0, 0))
			} else {
				copy(im.secs[(i/4)*5][128*(i%4):], build.DirEntry(build.U16s("Other"+strconv.Itoa(i)), 2, build.EOC, 0))
			}
		}
	}
	copy(sec[128*(slot%4):], build.DirEntry(build.U16s("Workbook"), 2, start, uint64(size)))
	d, err := cfb.Open(vrt.File("f.xls", im.finish([]int{3})))
	vrt.Assert(err == nil, "a valid file is refused")
	if err != nil {
		return
	}
	expect(d, "Workbook", data, "regular sectors")
}

// ValidMini: a stream in the mini stream, whose sectors and mini FAT sectors are out of
// order; the first mini sector of the stream is any of them.
func ValidMini() {
	const nm = 150 // mini sectors: 19 regular sectors, 2 mini FAT sectors
	im := newImage(9, 26)
	var ms []int
	for i := 0; i < 19; i++ {
		ms = append(ms, 6+(i*7)%19)
	}
	rstart := im.chain(ms)
	size := []int{1, 63, 64, 65, 128, 129}[vrt.Choice("size", 6)]
	k := (size + 63) / 64
	s0 := vrt.Choice("s0", nm)
	mini := make([]uint32, nm)
	for i := range mini {
		mini[i] = build.Free
	}
	data := pattern(size, 9)
	data[0], data[size-1] = vrt.Byte("d0"), vrt.Byte("d1")
	ministream := make([]byte, nm*64)
	s := s0
	for i := 0; i < k; i++ {
		copy(ministream[64*s:64*s+64], data[64*i:])
		nx := (s + 131) % nm
		if i+1 < k {
			mini[s] = uint32(nx)
		} else {
			mini[s] = build.EOC
		}
		s = nx
	}
	im.spread(ms, ministream)
	mfs := []int{4, 2}
	build.Put32(im.head[build.HFirstMini:], im.chain(mfs))
	build.Put32(im.head[build.HNumMini:], 2)
	im.words(mfs, mini)
	im.chain([]int{1})
	build.Put32(im.head[build.HFirstDir:], 1)
	copy(im.secs[1], build.DirEntry(build.U16s("Root Entry"), 5, rstart, nm*64))
	copy(im.secs[1][256:], build.DirEntry(build.U16s("Book"), 2, uint32(s0), uint64(size)))
	d, err := cfb.Open(vrt.File("f.xls", im.finish([]int{0})))
	vrt.Assert(err == nil, "a valid file is refused")
	if err != nil {
		return
	}
	expect(d, "Book", data, "mini stream")
}

// ValidNames: names, sizes and kinds of several streams at once.
func ValidNames() {
	im := newImage(9, 16)
	im.chain([]int{1})
	build.Put32(im.head[build.HFirstDir:], 1)
	build.Put32(im.head[build.HFirstMini:], im.chain([]int{2}))
	build.Put32(im.head[build.HNumMini:], 1)
	c := vrt.U16("c0")
	vrt.Assume(c != 0 && (c < 0xd800 || c > 0xdfff))
	na := []uint16{c, 'A'}
	nb := []uint16{5, 'B', 0xd83d, 0xde00}
	a, b := pattern(100, 1), pattern(4096, 2)
	a[5], b[700] = vrt.Byte("a"), vrt.Byte("b")
	zero := vrt.Bool("zero")
	if zero {
		a = nil
	}
	big := []int{4, 5, 6, 7, 8, 9, 10, 11}
	im.spread([]int{12}, a)
	im.words([]int{2}, []uint32{1, build.EOC})
	im.spread(big, b)
	copy(im.secs[1], build.DirEntry(build.U16s("Root Entry"), 5, im.chain([]int{12}), 128))
	start := uint32(0)
	if zero {
		start = build.EOC
	}
	copy(im.secs[1][128:], build.DirEntry(na, 2, start, uint64(len(a))))
	hi := uint64(0)
	if vrt.Bool("garbage") {
		hi = 0xABCD << 32 // version 3 writers may leave garbage in the upper half
	}
	copy(im.secs[1][384:], build.DirEntry(nb, 2, im.chain(big), 4096|hi))
	d, err := cfb.Open(vrt.File("f.xls", im.finish([]int{0})))
	vrt.Assert(err == nil, "a valid file is refused")
	if err != nil {
		return
	}
	ns, _ := d.List()
	vrt.Assert(len(ns) == 2, "the listing has the wrong number of streams")
	expect(d, string([]rune{rune(c), 'A'}), a, "first")
	expect(d, "\x05B\U0001F600", b, "second")
	_, err = d.Open("Root Entry")
	vrt.Assert(err != nil, "a storage was opened as a stream")
}

// ValidV4: 4096-byte sectors.
func ValidV4() {
	im := newImage(12, 7)
	build.Put32(im.head[40:], 1)
	im.chain([]int{1})
	build.Put32(im.head[build.HFirstDir:], 1)
	build.Put32(im.head[build.HFirstMini:], im.chain([]int{2}))
	build.Put32(im.head[build.HNumMini:], 1)
	size := []int{4096, 4097, 8192, 9000}[vrt.Choice("size", 4)]
	b := pattern(size, 4)
	b[size-1], b[4095] = vrt.Byte("x"), vrt.Byte("y")
	secs := [][]int{{4, 6, 3}, {6, 3, 4}, {3, 4, 6}}[vrt.Choice("order", 3)][:(size+4095)/4096]
	im.spread(secs, b)
	a := pattern(70, 5)
	a[69] = vrt.Byte("z")
	m := vrt.Choice("m", 60)
	tab := make([]uint32, 64)
	for i := range tab {
		tab[i] = build.Free
	}
	tab[m], tab[m+3] = uint32(m+3), build.EOC
	ms := make([]byte, 4096)
	copy(ms[64*m:64*m+64], a)
	copy(ms[64*(m+3):], a[64:])
	im.spread([]int{5}, ms)
	im.words([]int{2}, tab)
	copy(im.secs[1], build.DirEntry(build.U16s("Root Entry"), 5, im.chain([]int{5}), 4096))
	copy(im.secs[1][128*9:], build.DirEntry(build.U16s("Small"), 2, uint32(m), 70))
	copy(im.secs[1][128*31:], build.DirEntry(build.U16s("Workbook"), 2, im.chain(secs), uint64(size)))
	d, err := cfb.Open(vrt.File("f.xls", im.finish([]int{0})))
	vrt.Assert(err == nil, "a valid file is refused")
	if err != nil {
		return
	}
	expect(d, "Workbook", b, "v4 regular")
	expect(d, "Small", a, "v4 mini")
}

// ValidDIFAT: part of the FAT is listed in a chain of two DIFAT sectors, and the stream
// lies in the sectors described there.
func ValidDIFAT() {
	im := newImage(9, 270)
	im.chain([]int{1})
	build.Put32(im.head[build.HFirstDir:], 1)
	base := 129 + vrt.Choice("base", 130)
	var secs []int
	for i := 0; i < 9; i++ {
		secs = append(secs, base+(i*4)%9)
	}
	b := pattern(4100, 6)
	b[4099] = vrt.Byte("x")
	im.spread(secs, b)
	copy(im.secs[1], build.DirEntry(build.U16s("Root Entry"), 5, build.EOC, 0))
	copy(im.secs[1][128:], build.DirEntry(build.U16s("Workbook"), 2, im.chain(secs), 4100))
	fs := []int{0, 2, 3}
	for _, s := range fs {
		im.fat[s] = build.FATs
	}
	im.words(fs, im.fat)
	build.Put32(im.head[build.HDIFAT:], 0)
	build.Put32(im.head[build.HNumFAT:], 3)
	build.Put32(im.head[build.HFirstDIF:], 5)
	build.Put32(im.head[build.HNumDIF:], 2)
	for _, s := range []int{5, 4} {
		for i := range im.secs[s] {
			im.secs[s][i] = 0xff
		}
	}
	build.Put32(im.secs[5], 2)
	build.Put32(im.secs[5][508:], 4)
	build.Put32(im.secs[4], 3)
	build.Put32(im.secs[4][508:], build.EOC)
	d, err := cfb.Open(vrt.File("f.xls", im.bytes()))
	vrt.Assert(err == nil, "a valid file is refused")
	if err != nil {
		return
	}
	expect(d, "Workbook", b, "DIFAT")
}

// ValidEmbedded: a stream beside an embedded document with a stream of the same name, in
// any order of the directory.
func ValidEmbedded() {
	im := newImage(9, 7)
	im.chain([]int{1})
	im.chain([]int{6})
	im.chain([]int{1, 6})
	build.Put32(im.head[build.HFirstDir:], 1)
	build.Put32(im.head[build.HFirstMini:], im.chain([]int{2}))
	build.Put32(im.head[build.HNumMini:], 1)
	outer, inner, other := pattern(100, 1), pattern(120, 2), pattern(64, 3)
	outer[5], inner[6], other[7] = vrt.Byte("o"), vrt.Byte("i"), vrt.Byte("x")
	im.spread([]int{3}, build.Cat(outer, make([]byte, 28), inner, make([]byte, 8), other))
	im.words([]int{2}, []uint32{1, build.EOC, 3, build.EOC, build.EOC})
	im.fat[3] = build.EOC
	// slots of the storage, the outer, the inner and the other inner stream
	var at [4]int
	for i := range at {
		at[i] = 1 + vrt.Choice("slot"+string(rune('a'+i)), 5)
		for j := 0; j < i; j++ {
			vrt.Assume(at[i] != at[j])
		}
	}
	put := func(slot int, name string, typ byte, start uint32, size int, left, right, child int) {
		e := build.DirEntry(build.U16s(name), typ, start, uint64(size))
		for i, v := range []int{left, right, child} {
			if v > 0 {
				build.Put32(e[68+4*i:], uint32(v))
			}
		}
		if slot < 4 {
			copy(im.secs[1][128*slot:], e)
		} else {
			copy(im.secs[6][128*(slot-4):], e)
		}
	}
	put(0, "Root Entry", 5, 3, 320, 0, 0, at[0])
	l, r := at[1], 0
	if vrt.Choice("side", 2) == 1 {
		l, r = r, l
	}
	put(at[0], "MBD1", 1, 0, 0, l, r, at[3])
	put(at[1], "Workbook", 2, 0, len(outer), 0, 0, 0)
	put(at[2], "Workbook", 2, 2, len(inner), 0, 0, 0)
	l, r = at[2], 0
	if vrt.Choice("inner side", 2) == 1 {
		l, r = r, l
	}
	put(at[3], "Other", 2, 4, len(other), l, r, 0)
	d, err := cfb.Open(vrt.File("f.xls", im.finish([]int{0})))
	vrt.Assert(err == nil, "a valid file is refused")
	if err != nil {
		return
	}
	expect(d, "Workbook", outer, "document")
	expect(d, "Other", other, "embedded")
}
