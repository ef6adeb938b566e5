package hcommon

import (
	"github.com/pbnjay/grate/commonxl"
	"verifh/vrt"
)

// generalIDs show the value itself: General, text, an own General code, own text formats
// and ids that nobody has registered.
var generalIDs = []uint16{0, 49, 200, 201, 202, 300}

func general() *commonxl.Formatter {
	f := &commonxl.Formatter{}
	for i, code := range []string{"General", "@", "GENERAL;-General"} {
		if i < 2 || vrt.Choice("sections", 2) == 1 {
			vrt.Assert(f.Add(uint16(200+i), code) == nil, "format code refused")
		}
	}
	return f
}

// numeral reads a decimal numeral: sign, digits, number of decimals and exponent.
func numeral(s string) (neg bool, n, places, exp int) {
	i := 0
	if len(s) > 0 && s[0] == '-' {
		neg = true
		i++
	}
	k := i
	for ; i < len(s) && s[i] >= '0' && s[i] <= '9'; i++ {
		n = n*10 + int(s[i]-'0')
	}
	vrt.Assert(i > k, "a number is shown without a digit")
	vrt.Assert(s[k] != '0' || i == k+1, "leading zero")
	if i < len(s) && s[i] == '.' {
		k = i + 1
		for i++; i < len(s) && s[i] >= '0' && s[i] <= '9'; i++ {
			n = n*10 + int(s[i]-'0')
		}
		places = i - k
		vrt.Assert(places > 0, "a decimal point without decimals")
	}
	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
		i++
		vrt.Assert(i < len(s) && (s[i] == '+' || s[i] == '-'), "no sign of the exponent")
		down := s[i] == '-'
		exp, i = digitsAt(s, i+1)
		if down {
			exp = -exp
		}
	}
	vrt.Assert(i == len(s), "a number is not shown as a decimal number")
	return
}

// digits is the number of decimal digits.
func digits(n int) int {
	d := 1
	for ; n >= 10; n /= 10 {
		d++
	}
	return d
}

// GeneralInts: every whole number shows exactly its digits.
func GeneralInts() {
	id := generalIDs[vrt.Choice("id", len(generalIDs))]
	x := int64(vrt.Int("x", -999999999999999999, 999999999999999999))
	f := general()
	s, ok := f.Apply(id, x)
	vrt.Assert(ok || id == 300 || id == 202, "format is unknown")
	whole(s, x, style{id: id, neg1: "-", zero: "0"})
	vrt.Reach("integer")
}

// GeneralFloats: fractions and numbers of any size show the number itself, or its first six digits.
func GeneralFloats() {
	id := generalIDs[vrt.Choice("id", len(generalIDs))]
	w := []int{0, 12, 995, 99999, 1234567, 123456789}[vrt.Choice("whole", 6)]
	e := []int{0, 3, 5, 9, 14, -3, -6, -18, -90}[vrt.Choice("e", 9)]
	hi := 1999
	if vrt.Thorough() {
		hi = 16383
	}
	num := w*1000 + vrt.Tab("k", 1, hi)
	neg := vrt.Choice("neg", 2) == 1
	x := float64(num)
	switch {
	case e > 0:
		x /= []float64{3: 1e3, 5: 1e5, 9: 1e9, 14: 1e14}[e]
	case e < 0:
		x *= []float64{3: 1e3, 6: 1e6, 18: 1e18, 90: 1e90}[-e]
	}
	if neg {
		x = -x
	}
	f := general()
	var s string
	if vrt.Choice("cell", 2) == 1 {
		vrt.Assume(id != 49 && id != 201)
		sh := &commonxl.Sheet{Formatter: f}
		sh.Put(0, 0, x, id)
		vrt.Assert(sh.Next(), "no row")
		s = sh.Strings()[0]
	} else {
		s, _ = f.Apply(id, x)
	}
	vrt.Observe("text", s)
	sign, n, places, exp := numeral(s)
	vrt.Assert(sign == neg, "a number is shown with another sign")
	// shown: n * 10^(exp-places); number: num * 10^-e
	sc := exp - places + e
	a, b, unit := n, num, 1
	vrt.Assert(sc < 17 && sc > -17, "a number is shown with another size")
	for ; sc > 0; sc-- {
		a *= 10
	}
	for ; sc < 0; sc++ {
		b *= 10
	}
	for d := digits(b) - 6; d > 0; d-- {
		unit *= 10
	}
	diff := a - b
	if diff < 0 {
		diff = -diff
	}
	vrt.Assert(2*diff <= unit, "a number is shown with less than six digits")
	if w < 100000 && e >= 0 && e <= 3 {
		vrt.Assert(diff == 0, "a short number is not shown exactly")
		vrt.Reach("exact")
	}
	vrt.Reach("number")
}

// GeneralBools: booleans show their name.
func GeneralBools() {
	id := generalIDs[vrt.Choice("id", len(generalIDs))]
	b := vrt.Bool("b")
	f := general()
	s, _ := f.Apply(id, b)
	vrt.Assert(b && s == "TRUE" || !b && s == "FALSE", "a boolean is shown by another word")
	vrt.Reach("boolean")
}

// GeneralTexts: an own code with General and other text in a section shows the number with that text.
func GeneralTexts() {
	n := vrt.Int("n", -99999, 99999)
	fl := vrt.Choice("float", 2) == 1
	c := []struct{ code, pos, neg, zero string }{
		{`General" kg"`, "% kg", "-% kg", "% kg"},
		{`general\ x`, "% x", "-% x", "% x"},
		{`General;-General`, "%", "-%", "%"},
		{`"up "General;"down "GENERAL;"none"`, "up %", "down %", "none"},
		{`General\!;(General);General" z"`, "%!", "(%)", "% z"},
		{`0;General" b"`, "%", "% b", "%"},
	}[vrt.Choice("code", 6)]
	f := &commonxl.Formatter{}
	vrt.Assert(f.Add(200, c.code) == nil, "format code refused")
	var v interface{} = int64(n)
	if fl {
		v = float64(n)
	}
	s, ok := f.Apply(200, v)
	vrt.Assert(ok, "format is unknown")
	vrt.Observe("text", s)
	t := c.pos
	m := n
	if n < 0 {
		t, m = c.neg, -n
	} else if n == 0 {
		t = c.zero
	}
	k := 0
	for k < len(t) && t[k] != '%' {
		k++
	}
	if k == len(t) {
		vrt.Assert(s == t, "a section without digits shows another text")
		vrt.Reach("literal")
		return
	}
	pre, post := t[:k], t[k+1:]
	vrt.Assert(len(s) > len(pre)+len(post), "the number is not shown")
	vrt.Assert(s[:k] == pre && s[len(s)-len(post):] == post, "the text beside the number is lost")
	got, j := digitsAt(s, k)
	vrt.Assert(j == len(s)-len(post) && got == m && j-k == digits(m), "another number is shown")
	vrt.Reach("text")
}
