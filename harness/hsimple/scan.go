package hsimple

import (
	"errors"
	"strings"
	"time"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/simple"
	"verifh/vrt"
)

func openText(name, sep string, rows ...[]string) grate.Source {
	content := ""
	for _, r := range rows {
		content += strings.Join(r, sep) + "\n"
	}
	open := simple.OpenTSV
	if sep == "," {
		open = simple.OpenCSV
	}
	src, err := open(vrt.File(name, []byte(content)))
	vrt.Assert(err == nil, "a text file is refused")
	return src
}

func seps() string { return []string{"\t", ","}[vrt.Choice("sep", 2)] }

func get(src grate.Source) grate.Collection {
	n, err := src.List()
	vrt.Assert(err == nil && len(n) == 1, "a text file is not listed")
	c, err := src.Get(n[0])
	vrt.Assert(err == nil, "the listed table cannot be fetched")
	return c
}

// ScanText: two fields of any text into destinations of any type, with more or fewer
// destinations than fields, before, at and behind the rows.
func ScanText() {
	f := [2]string{string(other("a")) + string(other("b")), []string{"", "x"}[vrt.Choice("second", 2)]}
	c := get(openText("f.txt", seps(), f[:]))
	when := vrt.Choice("when", 3)
	for i := 0; i < when; i++ {
		c.Next()
	}
	n := vrt.Choice("n", 4)
	var s [3]string
	args := make([]interface{}, n)
	bad, date, kind := -1, -1, 0
	for i := range args {
		k := vrt.Choice("dst"+id(i), 6)
		vrt.Assume(i != 2 || k == 0)
		switch k {
		case 0:
			args[i] = &s[i]
			continue
		case 1:
			args[i] = new(int32)
		case 2:
			args[i] = "text"
		case 3:
			args[i] = nil
		case 4:
			args[i] = new(time.Time)
			if date < 0 && bad < 0 {
				date = i
			}
			continue
		case 5:
			args[i] = s[:]
		}
		if bad < 0 {
			bad = i
		}
	}
	_ = kind
	err := c.Scan(args...)
	if when != 1 || n > 2 {
		vrt.Assert(err != nil, "scan without a row or with too many destinations succeeded")
		vrt.Reach("refused")
		return
	}
	if n < 2 {
		// fewer destinations may be refused
		return
	}
	if date >= 0 && (bad < 0 || date < bad) {
		vrt.Assert(err != nil, "a text was read as a time")
		vrt.Reach("date")
		return
	}
	if bad >= 0 {
		vrt.Assert(errors.Is(err, grate.ErrInvalidScanType), "unsupported destination without the documented error")
		vrt.Reach("invalid")
		return
	}
	vrt.Assert(err == nil && s[0] == f[0] && s[1] == f[1], "a text was not stored")
	vrt.Reach("stored")
}

// ScanNumber: numbers of symbolic digits.
func ScanNumber() {
	d := vrt.Bytes("d", 1+vrt.Choice("n", 4))
	want := int64(0)
	good := true
	for i := range d {
		vrt.Assume(d[i] >= '0' && d[i] <= ':')
		if d[i] == ':' {
			good = false
		}
		want = want*10 + int64(d[i]-'0')
	}
	text := string(d)
	switch vrt.Choice("sign", 3) {
	case 1:
		text, want = "-"+text, -want
	case 2:
		text += " "
		good = false
	}
	c := get(openText("f.txt", seps(), []string{text, text}))
	c.Next()
	var i int64
	var j int
	err := c.Scan(&i, &j)
	if !good {
		vrt.Assert(err != nil, "a text that is no number was read as a number")
		vrt.Reach("mismatch")
		return
	}
	vrt.Assert(err == nil && i == want && int64(j) == want, "a number was read as another")
	vrt.Reach("number")
}

// ScanWords: listed spellings of numbers and truth values.
func ScanWords() {
	sep := seps()
	words := []struct {
		s string
		b bool
		i int64
		f float64
		k int
	}{
		{"1", true, 1, 1, 3}, {"0", false, 0, 0, 3}, {"true", true, 0, 0, 0}, {"TRUE", true, 0, 0, 0}, {"True", true, 0, 0, 0}, {"t", true, 0, 0, 0}, {"T", true, 0, 0, 0}, {"yes", true, 0, 0, 0}, {"YES", true, 0, 0, 0}, {"y", true, 0, 0, 0},
		{"false", false, 0, 0, 0}, {"no", false, 0, 0, 0}, {"x", false, 0, 0, 0}, {"", false, 0, 0, 0}, {"f", false, 0, 0, 0}, {"n", false, 0, 0, 0},
		{"9223372036854775807", false, 9223372036854775807, 9223372036854775807, 3}, {"-9223372036854775808", false, -9223372036854775808, -9223372036854775808, 3}, {"9223372036854775808", false, 0, 9223372036854775808, 2},
		{"1.5", false, 0, 1.5, 2}, {"-0.25", false, 0, -0.25, 2}, {"1e3", false, 0, 1000, 2}, {"12345678.875", false, 0, 12345678.875, 2}, {"1e999", false, 0, 0, 0}, {"1,5", false, 0, 0, 0}, {"0x10", false, 0, 0, 0}, {"--1", false, 0, 0, 0},
		{"1 ", false, 0, 0, 0}, {" 1", false, 0, 0, 0}, {"0.1", false, 0, 0.1, 2}, {"123456789", false, 123456789, 123456789, 3}, {"2147483648", false, 2147483648, 2147483648, 3},
	}
	w := words[vrt.Choice("word", len(words))]
	field := w.s
	if sep == "," && strings.Contains(field, ",") {
		field = `"` + field + `"`
	}
	c := get(openText("f.txt", sep, []string{field, "y"}))
	c.Next()
	var s string
	switch vrt.Choice("dst", 3) {
	case 0:
		var b bool
		err := c.Scan(&b, &s)
		vrt.Assert(err == nil && b == w.b, "a word was read as another truth value")
	case 1:
		var i int64
		err := c.Scan(&i, &s)
		vrt.Assert((err == nil) == (w.k&1 == 1), "scan of an integer has the wrong outcome")
		vrt.Assert(err != nil || i == w.i, "a number was read as another")
	case 2:
		var f float64
		err := c.Scan(&f, &s)
		vrt.Assert((err == nil) == (w.k&2 == 2), "scan of a float has the wrong outcome")
		vrt.Assert(err != nil || f == w.f, "a number was read as another")
	}
	vrt.Reach("word")
}

// Iterators: up to three iterators over two text files, advanced in any order.
func Iterators() {
	sep := seps()
	srcs := []grate.Source{openText("a.txt", sep, []string{"a0"}, []string{"a1", "x"}), openText("b.txt", sep, []string{"b0"}, []string{"b1", "x"})}
	names := []string{"a", "b"}
	var its []grate.Collection
	var of []int
	pos := make([]int, 3)
	for step := 0; step < 6; step++ {
		k := vrt.Choice("step"+id(step), len(its)+3)
		switch {
		case k < 2:
			if len(its) < 3 {
				its, of = append(its, get(srcs[k])), append(of, k)
			}
		case k == 2:
			vrt.Assert(srcs[0].Close() == nil, "a table cannot be closed")
		default:
			k -= 3
			more := its[k].Next()
			pos[k]++
			vrt.Assert(more == (pos[k] <= 2), "an iterator does not deliver its rows")
			if more {
				s := its[k].Strings()
				vrt.Assert(len(s) == pos[k] && s[0] == names[of[k]]+id(pos[k]-1), "an iterator delivers another text")
				if step%2 == 0 {
					s[0] = "changed" // the list is the caller's own
				}
			}
		}
	}
	vrt.Reach("end")
}
