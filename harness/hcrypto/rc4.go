// Package hcrypto checks the decryption of workbooks (package xls/crypto).
package hcrypto

import (
	"strconv"

	"github.com/pbnjay/grate/xls"
	"github.com/pbnjay/grate/xls/crypto"
	"verifh/build"
	"verifh/par"
	"verifh/vrt"
)

func id(i int) string { return strconv.Itoa(i) }

const password = "VelvetSweatshop"

func salt(n int) []byte {
	r := make([]byte, 16)
	for i := range r {
		r[i] = byte(37*i + n)
	}
	return r
}

func decryptor(s []byte) crypto.Decryptor {
	d, err := crypto.NewBasicRC4(build.RC4Header(password, s, salt(99)))
	vrt.Assert(err == nil, "the default password is not accepted")
	return d
}

// data is n bytes with symbolic ones at the ends, around the splits and the blocks.
func data(name string, n int, at ...int) []byte {
	d := make([]byte, n)
	for i := range d {
		d[i] = byte(i)
	}
	for _, p := range at {
		for i := p - 1; i <= p; i++ {
			if i >= 0 && i < n {
				d[i] = vrt.Byte(name + id(i))
			}
		}
	}
	return d
}

func decrypted(got, d, key []byte, tag string) {
	vrt.Assert(len(got) == len(d), "another number of bytes comes out"+tag)
	for i := range got {
		vrt.Assert(got[i] == d[i]^key[i], "a byte is decrypted to another value"+tag)
	}
}

var sizes = []int{0, 1, 2, 1023, 1024, 1025, 2047, 2048, 2049, 3000}

// Splits: data of any of these sizes written in up to three (thorough four) pieces of
// any of these sizes decrypts with the keystream of its blocks.
func Splits() {
	vrt.NoMerge()
	parts := 2
	if vrt.Thorough() {
		parts = 3
	}
	s := salt(vrt.Choice("salt", 2))
	total := 0
	var cuts []int
	for i := 0; i < parts; i++ {
		total += sizes[vrt.Choice("size"+id(i), len(sizes))]
		cuts = append(cuts, total)
	}
	d := data("d", total, append([]int{0, 1024, 2048}, cuts...)...)
	w := decryptor(s)
	p := 0
	for _, c := range cuts {
		n, err := w.Write(d[p:c])
		vrt.Assert(n == c-p && err == nil, "a write is not taken completely")
		p = c
	}
	w.Flush()
	key := build.RC4Stream(password, s, total)
	decrypted(w.Bytes(), d, key, "")
	if total > 1024 {
		vrt.Reach("blocks")
	}
	vrt.Reach("decrypted")
}

// Small: many small writes in all splits around a block boundary.
func Small() {
	s := salt(3)
	n := 1016 + vrt.Choice("lead", 10)
	d := data("d", n+9, n, n+2, n+4, n+6, n+8)
	w := decryptor(s)
	w.Write(d[:n])
	for p := n; p < n+9; {
		k := 1 + vrt.Choice("k"+id(p), 4)
		if k > n+9-p {
			k = n + 9 - p
		}
		w.Write(d[p : p+k])
		p += k
	}
	w.Flush()
	decrypted(w.Bytes(), d, build.RC4Stream(password, s, n+9), "")
	vrt.Reach("decrypted")
}

// Reset: after a reset at any point nothing is left and the blocks count from zero.
func Reset() {
	vrt.NoMerge()
	s := salt(5)
	w := decryptor(s)
	a := sizes[vrt.Choice("before", len(sizes))]
	w.Write(data("a", a, 0, a))
	switch vrt.Choice("then", 3) {
	case 1:
		w.Flush()
	case 2:
		w.Flush()
		w.Read(make([]byte, 1+vrt.Choice("read", 3)))
	}
	w.Reset()
	vrt.Assert(len(w.Bytes()) == 0, "decrypted bytes are left behind a reset")
	n := sizes[vrt.Choice("after", len(sizes))]
	d := data("d", n, 0, 1024, n)
	w.Write(d)
	w.Flush()
	key := build.RC4Stream(password, s, n)
	decrypted(w.Bytes(), d, key, " after a reset")
	// what is read is what was decrypted
	var got []byte
	buf := make([]byte, 700)
	for {
		k, err := w.Read(buf)
		got = append(got, buf[:k]...)
		if err != nil || k == 0 {
			break
		}
	}
	decrypted(got, d, key, " read after a reset")
	vrt.Reach("reset")
}

// Verifier: every header whose verifier does not match is refused.
func Verifier() {
	s := salt(7)
	h := build.RC4Header(password, s, salt(98))
	ok := true
	for i := 36; i < 52; i++ {
		b := vrt.Byte("hash" + id(i))
		if b != h[i] {
			ok = false
		}
		h[i] = b
	}
	_, err := crypto.NewBasicRC4(h)
	vrt.Assert((err == nil) == ok, "the verifier does not decide")
	vrt.Reach("verified")
}

// OtherPassword: headers for other passwords, broken and changed headers are refused.
func OtherPassword() {
	h := build.RC4Header(password, salt(1), salt(2))
	switch vrt.Choice("case", 4) {
	case 0:
		h = build.RC4Header([]string{"VelvetSweatshoq", "velvetSweatshop", "x", "VelvetSweatsho"}[vrt.Choice("password", 4)], salt(1), salt(2))
	case 1:
		h = h[:vrt.Choice("len", 52)]
	case 2:
		h[4+vrt.Choice("at", 48)] ^= 1 << uint(vrt.Choice("bit", 8))
	case 3:
		h[2], h[3] = vrt.Byte("minor"), vrt.Byte("minor2")
		vrt.Assume(h[2] != 1 || h[3] != 0)
	}
	_, err := crypto.NewBasicRC4(h)
	vrt.Assert(err != nil, "a header that does not match is accepted")
	vrt.Reach("refused")
}

// Workbook: an encrypted workbook with symbolic contents reads like its plain version.
func Workbook() {
	vrt.AllocLimit(64 << 20)
	s := salt(11)
	pad := []int{0, 1, 2, 3, 5, 700, 1100, 2500}[vrt.Choice("pad", 8)]
	pass := build.Rec(build.RFilePass, build.W16(1), build.RC4Header(password, s, salt(12)))
	word := []uint16{vrt.U16("w0"), uint16(vrt.Byte("w1"))}
	for _, c := range word {
		vrt.Assume(c < 0xD800)
	}
	name := []uint16{uint16(vrt.Byte("n0")), uint16('S')}
	v := vrt.U32("rk")&^3 | 2
	num := vrt.U64("num")
	filler := make([]byte, pad)
	for i := range filler {
		filler[i] = byte(i)
	}
	clear := []uint16{0x0194, 0x0195, 0x00E1, 0x0196, 0x0138, 0x00FF, 0x0092, 0x0042}[vrt.Choice("clear", 8)]
	plain := func(pass []byte) []byte {
		globals := build.Cat(pass, build.Rec(clear, build.W16(vrt.U16("clear0"))), build.Rec(0x005C, filler), build.SST(true, word))
		return build.Workbook(globals, []build.XSheet{
			{Name: name, Hidden: vrt.Byte("hidden") & 1, Body: build.Cat(build.Dims(2, 3),
				build.Rec(build.RRK, build.Cell(0, 0, 0), build.W32(v)),
				build.Rec(build.RNumber, build.Cell(0, 1, 0), build.W64(num)),
				build.Rec(build.RLabelSst, build.Cell(1, 2, 0), build.W32(0)))},
			{Name: []uint16{'B'}, Body: build.Rec(build.RRK, build.Cell(0, 0, 0), build.W32(v))},
		}, nil)
	}
	src, err := xls.Open(par.File(vrt.File("f.xls", build.CFB("Workbook", build.Encrypt(plain(pass), password, s)))))
	vrt.Assert(err == nil, "an encrypted workbook is refused")
	wb := src.(*xls.WorkBook)
	list, _ := wb.List()
	hidden, _ := wb.ListHidden()
	all := append(append([]string{}, hidden...), list...)
	first := string(rune(name[0])) + "S"
	vrt.Assert(len(all) == 2 && all[0] == first && all[1] == "B", "an encrypted workbook lists other sheets")
	vrt.Assert(len(hidden) == int(vrt.Byte("hidden")&1), "an encrypted workbook hides other sheets")
	c, err := wb.Get(first)
	vrt.Assert(err == nil && c.Next(), "a sheet of an encrypted workbook is refused")
	var i int64
	var f float64
	err = c.Scan(&i, &f)
	vrt.Assert(err == nil && i == int64(int32(v)>>2), "a number of an encrypted workbook differs")
	g := build.F64(num)
	vrt.Assert(f == g || f != f && g != g, "a float of an encrypted workbook differs")
	vrt.Assert(c.Next(), "a row of an encrypted workbook is missing")
	vrt.Assert(c.Strings()[2] == string([]rune{rune(word[0]), rune(word[1])}), "a text of an encrypted workbook differs")
	vrt.Assert(!c.Next(), "an encrypted workbook has another row")
	c, err = wb.Get("B")
	vrt.Assert(err == nil && c.Next(), "a sheet of an encrypted workbook is refused")
	err = c.Scan(&i)
	vrt.Assert(err == nil && i == int64(int32(v)>>2), "a number of an encrypted workbook differs")
	vrt.Reach("read")
}

// WrongPassword: a workbook encrypted with another password is an error.
func WrongPassword() {
	s := salt(11)
	pw := []string{"VelvetSweatshoq", "x"}[vrt.Choice("password", 2)]
	pass := build.Rec(build.RFilePass, build.W16(1), build.RC4Header(pw, s, salt(12)))
	stream := build.Workbook(pass, []build.XSheet{{Name: build.U16s("S"), Body: build.Rec(build.RRK, build.Cell(0, 0, 0), build.W32(vrt.U32("v")))}}, nil)
	_, err := xls.Open(par.File(vrt.File("f.xls", build.CFB("Workbook", build.Encrypt(stream, pw, s)))))
	vrt.Assert(err != nil, "a workbook with another password is opened")
	vrt.Reach("refused")
}

// Long: data of more blocks than a byte can count (thorough: more than two can).
func Long() {
	vrt.NoMerge()
	s := salt(13)
	n := 258*1024 + 5
	d := data("d", n, 0, 1024, 255*1024, 256*1024, 257*1024, n)
	w := decryptor(s)
	cut := []int{0, 1, 256 * 1024, n - 1}[vrt.Choice("cut", 4)]
	w.Write(d[:cut])
	w.Write(d[cut:])
	w.Flush()
	key := build.RC4Stream(password, s, n)
	got := w.Bytes()
	vrt.Assert(len(got) == len(d), "another number of bytes comes out")
	for i := range got {
		if i < 2 || (i+4)%1024 < 8 || i >= n-2 {
			vrt.Assert(got[i] == d[i]^key[i], "a byte is decrypted to another value")
		}
	}
	vrt.Reach("decrypted")
}
