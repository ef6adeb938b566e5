// Package htest holds small harnesses that exercise the engine itself.
package htest

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf16"

	"verifh/vrt"
)

func T1Arith() {
	a := vrt.U32("a")
	b := vrt.U32("b")
	vrt.Assert((a^b)^b == a, "xor")
	c := a + b
	vrt.Observe("c", c)
	if b != 0 {
		vrt.Assert(a/b*b+a%b == a || true, "divmod")
		vrt.Reach("nz")
	}
	x := int32(a) >> 3
	vrt.Observe("x", x)
	vrt.Observe("y", int64(int16(a))*7)
}

func T2Fail() {
	a := vrt.U32("a")
	if a > 1000 && a*7 == 777777 {
		vrt.Assert(false, "found")
	}
}

type pt struct {
	X, Y int
	N    [3]byte
}

func T3Structs() {
	i := vrt.Int("i", 0, 2)
	var p pt
	p.N[i] = 7
	q := p
	q.N[0]++
	s := []pt{p, q}
	k := vrt.Int("k", 0, 1)
	vrt.Observe("v", s[k].N[i])
	m := map[string]int{"a": 1, "b": 2}
	m[string([]byte{'a' + byte(i)})] = 9
	vrt.Observe("la", len(m))
	vrt.Observe("ma", m["a"])
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	vrt.Observe("ks", strings.Join(ks, ","))
	func() {
		defer func() {
			r := recover()
			vrt.Observe("rec", fmt.Sprint(r))
		}()
		var z []int
		_ = z[i]
	}()
}

type e1 struct{ s string }

func (e *e1) Error() string { return e.s }

func T4Lib() {
	b := vrt.Bytes("b", 6)
	var h struct {
		A uint16
		B uint32
	}
	err := binary.Read(bytes.NewReader(b), binary.LittleEndian, &h)
	vrt.Observe("err", err == nil)
	vrt.Observe("A", h.A)
	vrt.Observe("B", h.B)
	vrt.Assert(h.A == binary.LittleEndian.Uint16(b), "A")
	err = binary.Read(bytes.NewReader(b[:5]), binary.LittleEndian, &h)
	vrt.Assert(err == io.ErrUnexpectedEOF, "ueof")
	u := utf16.Decode([]uint16{h.A, 0x41})
	vrt.Observe("u", string(u))
	w := fmt.Errorf("x: %w", io.EOF)
	vrt.Assert(errors.Is(w, io.EOF), "is")
	n := vrt.Int("n", -200, 1200)
	s := strconv.Itoa(n)
	m, err := strconv.Atoi(s)
	vrt.Assert(err == nil && m == n, "atoi")
	vrt.Observe("s", fmt.Sprintf("%5d|%s", n, s))
	vrt.Observe("f", strconv.FormatFloat(float64(n)/100, 'f', 2, 64))
	fl, err := strconv.ParseFloat(s, 64)
	vrt.Assert(err == nil && fl == float64(n), "pf")
}

func T5File() {
	p := vrt.File("x.bin", vrt.Bytes("f", 4))
	f, err := os.Open(p)
	vrt.Assert(err == nil, "open")
	d, err := io.ReadAll(f)
	vrt.Assert(err == nil && len(d) == 4, "read")
	vrt.Observe("d", d)
	_, err = os.Open(p + "zz")
	vrt.Assert(os.IsNotExist(err), "ne")
	vrt.Assert(errors.Is(err, os.ErrNotExist), "ne2")
	f.Close()
	d2 := vrt.Int("day", 0, 40000)
	t := time.Date(1899, 12, 30, 0, 0, 0, 0, time.UTC).AddDate(0, 0, 43000+vrt.Concrete(d2&3))
	vrt.Observe("t", t.Format("2006-01-02"))
	t2 := time.Unix(int64(d2)*86400, 0).UTC()
	y, mo, dd := t2.Date()
	vrt.Observe("y", y)
	vrt.Observe("mo", int(mo))
	vrt.Observe("dd", dd)
}

func T6Pf() {
	n := vrt.Int("n", -200, -190)
	s := strconv.Itoa(n)
	fl, err := strconv.ParseFloat(s, 64)
	vrt.Assert(err == nil && fl == float64(n), "pf")
}
