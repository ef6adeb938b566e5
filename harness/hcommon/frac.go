package hcommon

import (
	"strconv"

	"github.com/pbnjay/grate/commonxl"
	"verifh/vrt"
)

// number reads decimal digits of s from i on.
func digitsAt(s string, i int) (n, j int) {
	j = i
	for j < len(s) && s[j] >= '0' && s[j] <= '9' {
		n = n*10 + int(s[j]-'0')
		j++
	}
	return
}

// mixed reads "w", "n/d" or "w n/d" with an optional sign.
func mixed(s string) (neg bool, w, n, d, nl, dl int) {
	i := 0
	d = 1
	if len(s) > 0 && s[0] == '-' {
		neg = true
		i++
	}
	a, j := digitsAt(s, i)
	vrt.Assert(j > i, "fraction without digits")
	if j == len(s) {
		return neg, a, 0, 1, 0, 0
	}
	if s[j] == ' ' {
		w = a
		i = j + 1
		a, j = digitsAt(s, i)
		vrt.Assert(j > i, "no numerator")
	}
	vrt.Assert(j < len(s) && s[j] == '/', "no fraction bar")
	n, nl = a, j-i
	i = j + 1
	d, j = digitsAt(s, i)
	dl = j - i
	vrt.Assert(j > i && j == len(s), "no denominator")
	return
}

var fracStyles = []struct {
	id   uint16
	code string
	n    int
}{
	{12, "", 1}, {13, "", 2}, {200, "# ???/???", 3}, {201, "# ?/?", 1}, {202, "?/??", 2},
}

// shownAs checks the fraction shown for a number x = num/den (whose sign is neg).
func shownAs(num, den int, neg bool, x float64) {
	st := fracStyles[vrt.Choice("style", len(fracStyles))]
	f := &commonxl.Formatter{}
	if st.code != "" {
		vrt.Assert(f.Add(st.id, st.code) == nil, "fraction code refused")
	}
	if neg {
		x = -x
	}
	s, ok := f.Apply(st.id, x)
	vrt.Assert(ok, "fraction format is unknown")
	vrt.Observe("text", s)
	sg, w, n, d, nl, dl := mixed(s)
	vrt.Assert(nl <= st.n && dl <= st.n, "more digits than the format allows")
	vrt.Assert(d != 0, "zero denominator")
	lim := 9
	if st.n == 2 {
		lim = 99
	} else if st.n == 3 {
		lim = 999
	}
	// | num/den - (w + n/d) | < 1/lim
	diff := num*d - (w*d+n)*den
	if diff < 0 {
		diff = -diff
	}
	vrt.Assert(diff*lim < den*d, "fraction is too far from the number")
	if w != 0 || n != 0 {
		vrt.Assert(sg == neg, "fraction has the wrong sign")
	}
	if den <= lim {
		vrt.Assert(diff == 0, "a number that is such a fraction is not shown exactly")
		vrt.Reach("exact")
	}
	if n != 0 {
		vrt.Reach("fraction")
	} else {
		vrt.Reach("whole")
	}
}

// FracDecimals: numbers with three decimals.
func FracDecimals() {
	k := vrt.Tab("k", 0, 999)
	w := []int{0, 1, 7, 12345}[vrt.Choice("whole", 4)]
	neg := vrt.Choice("neg", 2) == 1
	shownAs(w*1000+k, 1000, neg, float64(w*1000+k)/1000)
}

// FracQuotients: quotients of small integers.
func FracQuotients() {
	hi := 20
	if vrt.Thorough() {
		hi = 60
	}
	b := 1 + vrt.Choice("b", hi)
	a := vrt.Tab("a", 0, 999)
	neg := vrt.Choice("neg", 2) == 1
	shownAs(a, b, neg, float64(a)/float64(b))
}

// FracTiny: numbers next to whole numbers and to zero.
func FracTiny() {
	k := vrt.Tab("k", 0, 100)
	e := []int{100000, 1000000, 100000000, 1000000000, 10000000000, 1000000000000}[vrt.Choice("e", 6)]
	w := vrt.Choice("whole", 2)
	neg := vrt.Choice("neg", 2) == 1
	x := float64(k) / float64(e)
	if w == 1 {
		x = 1 - x
		shownAs(e-k, e, neg, x)
		return
	}
	shownAs(k, e, neg, x)
}

// FracLarge: numbers without a fraction, up to far beyond the integers.
func FracLarge() {
	k := vrt.Tab("k", 0, 4999)
	x := float64(k)
	e := []int{0, 40, 52, 60, 70, 200}[vrt.Choice("e", 6)]
	for i := 0; i < e; i++ {
		x *= 2
	}
	neg := vrt.Choice("neg", 2) == 1
	if neg {
		x = -x
	}
	st := fracStyles[vrt.Choice("style", len(fracStyles))]
	f := &commonxl.Formatter{}
	if st.code != "" {
		vrt.Assert(f.Add(st.id, st.code) == nil, "fraction code refused")
	}
	s, ok := f.Apply(st.id, x)
	vrt.Assert(ok, "fraction format is unknown")
	want := strconv.FormatFloat(x, 'f', 0, 64)
	if k == 0 {
		want = "0"
	}
	vrt.Assert(s == want, "a whole number is not shown completely")
	vrt.Reach("whole")
}
