package hcommon

import (
	"strings"

	"github.com/pbnjay/grate/commonxl"
	"verifh/vrt"
)

// decStyle describes a format with p decimals, shown for positive and negative numbers.
type decStyle struct {
	id         uint16
	code       string
	pre, post  string
	neg1, neg2 string
	zero       string // what exactly zero shows
	p          int
	commas     bool
	percent    bool
}

var decStyles = []decStyle{
	{1, "", "", "", "-", "", "0", 0, false, false},
	{2, "", "", "", "-", "", "0.00", 2, false, false},
	{3, "", "", "", "-", "", "0", 0, true, false},
	{4, "", "", "", "-", "", "0.00", 2, true, false},
	{9, "", "", "%", "-", "%", "0%", 0, false, true},
	{10, "", "", "%", "-", "%", "0.00%", 2, false, true},
	{37, "", "", "", "(", ")", "0", 0, true, false},
	{38, "", "", "", "(", ")", "0", 0, true, false},
	{39, "", "", "", "(", ")", "0.00", 2, true, false},
	{40, "", "", "", "(", ")", "0.00", 2, true, false},
	{41, "", "", "", "(", ")", "-", 0, true, false},
	{42, "", "$", "", "$(", ")", "$-", 0, true, false},
	{43, "", "", "", "(", ")", "-", 2, true, false},
	{44, "", "$", "", "$(", ")", "$-", 2, true, false},
	{59, "", "", "", "-", "", "0", 0, false, false},
	{60, "", "", "", "-", "", "0.00", 2, false, false},
	{61, "", "", "", "-", "", "0", 0, true, false},
	{62, "", "", "", "-", "", "0.00", 2, true, false},
	{67, "", "", "%", "-", "%", "0%", 0, false, true},
	{68, "", "", "%", "-", "%", "0.00%", 2, false, true},
	{200, "0.0", "", "", "-", "", "0.0", 1, false, false},
	{201, "#,##0.000", "", "", "-", "", "0.000", 3, true, false},
	{202, `"$"#,##0.00;("$"#,##0.00);"none"`, "$", "", "($", ")", "none", 2, true, false},
	{203, "0.0%", "", "%", "-", "%", "0.0%", 1, false, true},
	{204, `0.00" kg"`, "", " kg", "-", " kg", "0.00 kg", 2, false, false},
	{205, "0;-0", "", "", "-", "", "0", 0, false, false},
}

var pow10 = []int{1, 10, 100, 1000, 10000, 100000}

// rounded checks the text shown for num/1000 (negated when neg is set).
func rounded(s string, st decStyle, num int, neg bool) {
	if num == 0 {
		if !neg {
			vrt.Assert(s == st.zero, "zero is not shown in its own form")
			vrt.Reach("zero")
		}
		return
	}
	unit := 1000 // of the number, in thousandths
	if st.percent {
		num *= 100
	}
	// a number that rounds to zero may be shown without its sign
	if neg && (strings.HasPrefix(s, st.neg1) && st.neg1 != "" || num*pow10[st.p]*2 > unit) {
		vrt.Assert(strings.HasPrefix(s, st.neg1) && strings.HasSuffix(s, st.neg2), "wrong sign or currency")
		s = s[len(st.neg1) : len(s)-len(st.neg2)]
		vrt.Reach("negative")
	} else {
		vrt.Assert(strings.HasPrefix(s, st.pre) && strings.HasSuffix(s, st.post), "wrong sign or currency")
		s = s[len(st.pre) : len(s)-len(st.post)]
	}
	point := len(s)
	if st.p > 0 {
		point = len(s) - 1 - st.p
		vrt.Assert(point > 0 && s[point] == '.', "wrong number of decimals")
	}
	n, digits := 0, 0
	for i := 0; i < len(s); i++ {
		if i == point {
			continue
		}
		if i < point && st.commas && (point-1-i)%4 == 3 {
			vrt.Assert(s[i] == ',', "group separator is missing")
			continue
		}
		vrt.Assert(s[i] >= '0' && s[i] <= '9', "not a digit")
		n = n*10 + int(s[i]-'0')
		digits++
	}
	vrt.Assert(digits > st.p && (digits == st.p+1 || s[0] != '0'), "leading zero")
	diff := n*unit - num*pow10[st.p]
	if diff < 0 {
		diff = -diff
	}
	vrt.Assert(2*diff <= unit, "not rounded to the decimals of the format")
	vrt.Reach("rounded")
}

// Decimals: numbers with three decimals under all formats with a fixed number of places.
func Decimals() {
	st := decStyles[vrt.Choice("style", len(decStyles))]
	w := []int{0, 12, 995, 99999, 123456789}[vrt.Choice("whole", 5)]
	hi := 9999
	if vrt.Thorough() {
		hi = 16383
	}
	num := w*1000 + vrt.Tab("k", 0, hi)
	neg := vrt.Choice("neg", 2) == 1
	x := float64(num) / 1000
	if neg {
		x = -x
	}
	f := &commonxl.Formatter{}
	if st.code != "" {
		vrt.Assert(f.Add(st.id, st.code) == nil, "format code refused")
	}
	s, ok := f.Apply(st.id, x)
	vrt.Assert(ok, "format is unknown")
	vrt.Observe("text", s)
	rounded(s, st, num, neg)
}

// DecimalCells: the same through a sheet, for the formats with decimals.
func DecimalCells() {
	st := decStyles[vrt.Choice("style", len(decStyles))]
	vrt.Assume(st.p > 0 || st.percent)
	num := []int{0, 1234000}[vrt.Choice("whole", 2)] + vrt.Tab("k", 0, 1999)
	neg := vrt.Choice("neg", 2) == 1
	x := float64(num) / 1000
	if neg {
		x = -x
	}
	f := &commonxl.Formatter{}
	if st.code != "" {
		vrt.Assert(f.Add(st.id, st.code) == nil, "format code refused")
	}
	sh := &commonxl.Sheet{Formatter: f}
	sh.Put(0, 0, x, st.id)
	vrt.Assert(sh.Next(), "no row")
	s := sh.Strings()[0]
	vrt.Observe("text", s)
	rounded(s, st, num, neg)
}

// Exponents: scientific formats.
func Exponents() {
	k := vrt.Tab("k", 1, 4999)
	e := []int{0, 3, 6, 100}[vrt.Choice("e", 4)]
	neg := vrt.Choice("neg", 2) == 1
	st := []struct {
		id   uint16
		code string
		p    int
	}{{11, "", 2}, {200, "0.00E+00", 2}, {201, "0.0E+0", 1}, {202, "0E+00", 0}}[vrt.Choice("style", 4)]
	x := float64(k)
	switch e {
	case 3:
		x /= 1000
	case 6:
		x /= 1000000
	case 100:
		x *= 1e20
	}
	if neg {
		x = -x
	}
	f := &commonxl.Formatter{}
	if st.code != "" {
		vrt.Assert(f.Add(st.id, st.code) == nil, "format code refused")
	}
	s, ok := f.Apply(st.id, x)
	vrt.Assert(ok, "format is unknown")
	vrt.Observe("text", s)
	vrt.Assert((s[0] == '-') == neg, "wrong sign")
	if neg {
		s = s[1:]
	}
	m := 1
	if st.p > 0 {
		m = 2 + st.p
	}
	vrt.Assert(len(s) > m && s[m] == 'E', "no exponent behind the decimals")
	n := 0
	for i := 0; i < m; i++ {
		if i == 1 {
			vrt.Assert(s[i] == '.', "no decimal point")
			continue
		}
		vrt.Assert(s[i] >= '0' && s[i] <= '9', "not a digit")
		n = n*10 + int(s[i]-'0')
	}
	vrt.Assert(s[0] != '0', "mantissa below one")
	s = s[m+1:]
	down := s[0] == '-'
	vrt.Assert(down || s[0] == '+', "no sign of the exponent")
	ex, j := digitsAt(s, 1)
	vrt.Assert(j == len(s) && j > 1, "wrong exponent")
	if down {
		ex = -ex
	}
	// shown: n * 10^(ex-p); number: k * 10^-e (or 10^20)
	sc := ex - st.p
	switch e {
	case 100:
		sc -= 20
	default:
		sc += e
	}
	a, b, half := n, k, 1
	for ; sc > 0; sc-- {
		a *= 10
		half *= 10
	}
	for ; sc < 0; sc++ {
		b *= 10
	}
	diff := a - b
	if diff < 0 {
		diff = -diff
	}
	vrt.Assert(2*diff <= half, "not rounded to the decimals of the format")
	vrt.Reach("rounded")
}
