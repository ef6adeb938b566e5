package hcommon

import (
	"math"
	"strings"
	"time"

	"github.com/pbnjay/grate/commonxl"
	"verifh/vrt"
)

// builtin are the ids of the built-in number formats (ECMA-376 18.8.30, with the zh-cn and
// th-th additions).
func builtin(id uint16) bool {
	switch {
	case id <= 4, id >= 9 && id <= 22, id >= 27 && id <= 62, id >= 67 && id <= 81:
		return id < 23 || id > 26
	}
	return false
}

var customs = []string{"General", "general", "0.000", "#,##0", `"x"0`, "yyyy-mm-dd", `0;-0;"zero"`, "@", "0%", `"only text"`, `h:mm:ss`, ""}

// Known: an id is known exactly when built-in or registered, and registering never
// replaces anything.
func Known() {
	f := &commonxl.Formatter{}
	plain := &commonxl.Formatter{}
	ids := []uint16{0, 14, 5, 58, 164, 65535}
	a, b := ids[vrt.Choice("a", len(ids))], ids[vrt.Choice("b", len(ids))]
	ca, cb := vrt.Choice("ca", 3)+1, vrt.Choice("cb", 3)
	errA := f.Add(a, customs[ca])
	only := &commonxl.Formatter{}
	only.Add(a, customs[ca])
	errB := f.Add(b, customs[cb])
	vrt.Assert((errA == nil) == !builtin(a), "first registration of an id")
	vrt.Assert((errB == nil) == (!builtin(b) && a != b), "second registration of an id")
	q := vrt.U16("q")
	want := builtin(q) || q == a && errA == nil || q == b && errB == nil
	_, ok := f.Get(q)
	vrt.Assert(ok == want, "Get reports a wrong set of known ids")
	s, ok2 := f.Apply(q, 1234.5)
	vrt.Assert(ok2 == want, "Apply reports a wrong set of known ids")
	if builtin(q) {
		p, _ := plain.Apply(q, 1234.5)
		vrt.Assert(s == p, "a built-in format changed its meaning")
		vrt.Reach("builtin")
	} else if q == a {
		p, _ := only.Apply(q, 1234.5)
		vrt.Assert(s == p, "a registered format changed its meaning")
		vrt.Reach("registered")
	} else if !want {
		vrt.Assert(s == "1234.5", "unknown format changes the value")
		vrt.Reach("unknown")
	}
}

// Refused: which ids can be registered.
func Refused() {
	f := &commonxl.Formatter{}
	a, c := vrt.U16("a"), vrt.Choice("c", len(customs))
	err := f.Add(a, customs[c])
	vrt.Assert((err == nil) == !builtin(a), "registration of an id")
	if err == nil {
		vrt.Assert(f.Add(a, customs[vrt.Choice("d", 2)]) != nil, "second registration of an id")
		_, ok := f.Get(a)
		vrt.Assert(ok, "registered id is not known")
		vrt.Reach("registered")
	}
}

var floats = []float64{0, math.Copysign(0, -1), 1, -1, 0.5, -0.25, 1234.5, -98765.4321, 61, 59.999, 36526.75, 1e6, -2958466, 123456789012, 1e15, 1e21, -1e300, 5e-324, 0.1, 1.0 / 3, math.Inf(1), math.Inf(-1), math.NaN(), 9.3e18}

func anyValue() interface{} {
	switch vrt.Choice("kind", 7) {
	case 0:
		return nil
	case 1:
		return vrt.Choice("b", 2) == 1
	case 2:
		return []int64{0, 1, -1, 7, -12, 999, 1000, -123456, 40000, 1e12, math.MaxInt64, math.MinInt64}[vrt.Choice("i", 12)]
	case 3:
		return floats[vrt.Choice("f", len(floats))]
	case 4:
		return vrt.Str("s", vrt.Choice("len", 4))
	case 5:
		return time.Unix([]int64{-2208988800, 0, 1600000000, 253402300799}[vrt.Choice("t", 4)], 0).UTC()
	default:
		return words[vrt.Choice("w", len(words))]
	}
}

// ApplyAny: formatting any value under any id returns.
func ApplyAny() {
	id := vrt.U16("id")
	f := &commonxl.Formatter{}
	f.Mode1904(vrt.Choice("1904", 2) == 1)
	f.Add(300, customs[vrt.Choice("c", len(customs))])
	v := anyValue()
	s, ok := f.Apply(id, v)
	vrt.Assert(ok == (builtin(id) || id == 300), "wrong known ids")
	if v == nil || v == "" {
		if id != 300 {
			vrt.Assert(s == "", "an absent value shows text")
		}
	} else if t, isText := v.(string); isText && id != 300 {
		vrt.Assert(s == t, "a text is not shown unchanged")
		vrt.Reach("text")
	} else if _, isTime := v.(time.Time); !isTime && id != 300 {
		vrt.Assert(s != "", "a value shows nothing")
	}
	ff, ok2 := f.Get(id)
	vrt.Assert(ok2 == ok, "Get and Apply disagree on known ids")
	vrt.Assert(ff(f, v) == s, "Get and Apply disagree")
	vrt.Reach("done")
}

// CellTexts: a text or nothing in a cell of any format, through the sheet.
func CellTexts() {
	id := vrt.U16("id")
	f := &commonxl.Formatter{}
	c := vrt.Choice("c", 8)
	code := []string{"General", "0.000", "#,##0", "yyyy-mm-dd", "h:mm:ss", "0%", `$#,##0.00`, `[Red]0.0`}[c]
	f.Add(300, code)
	s := &commonxl.Sheet{Formatter: f}
	s.Resize(1, 2)
	var text string
	numeric := false
	if vrt.Bool("word") {
		text = words[vrt.Choice("w", len(words))]
		numeric = word[text].isNum || word[text].isInt
	} else {
		n := vrt.Choice("len", 4)
		text = vrt.Str("s", n)
		// a text that spells a number may become one
		for i := 0; i < n; i++ {
			vrt.Assume(text[i] >= 0x80 || text[i] < ' ' || text[i] >= 'b' && text[i] != 'i' && text[i] != 'n' && text[i] != 'x' || text[i] == 'H' || text[i] == '%')
		}
	}
	s.Put(0, 0, text, id)
	s.Next()
	got := s.Strings()[0]
	if !numeric {
		vrt.Assert(got == text, "a text is not shown unchanged")
		vrt.Reach("text")
		if text == "" {
			vrt.Assert(s.Types()[0] == "blank", "an empty text is not blank")
			vrt.Reach("blank")
		} else {
			vrt.Assert(s.Types()[0] == "string", "a text has another type")
		}
	}
	vrt.Assert(s.Strings()[1] == "" && s.Types()[1] == "blank", "an absent value shows something")
}

type style struct {
	id         uint16
	pre, post  string
	neg1, neg2 string // around a negative number
	zero       string
	commas     bool
	dec        bool
}

var styles = []style{
	{1, "", "", "-", "", "0", false, false},
	{59, "", "", "-", "", "0", false, false},
	{3, "", "", "-", "", "0", true, false},
	{61, "", "", "-", "", "0", true, false},
	{37, "", "", "(", ")", "0", true, false},
	{38, "", "", "(", ")", "0", true, false},
	{41, "", "", "(", ")", "-", true, false},
	{42, "$", "", "$(", ")", "$-", true, false},
	{2, "", "", "-", "", "0.00", false, true},
	{60, "", "", "-", "", "0.00", false, true},
	{4, "", "", "-", "", "0.00", true, true},
	{62, "", "", "-", "", "0.00", true, true},
	{39, "", "", "(", ")", "0.00", true, true},
	{40, "", "", "(", ")", "0.00", true, true},
	{43, "", "", "(", ")", "-", true, true},
	{44, "$", "", "$(", ")", "$-", true, true},
}

// whole checks one formatted whole number.
func whole(s string, x int64, st style) {
	if x == 0 {
		vrt.Assert(s == st.zero, "zero is not shown in its own form")
		vrt.Reach("zero")
		return
	}
	pre, post := st.pre, st.post
	u := uint64(x)
	if x < 0 {
		pre, post = st.neg1, st.neg2
		u = -u
		vrt.Reach("negative")
	}
	vrt.Assert(strings.HasPrefix(s, pre), "wrong sign or currency before the number")
	s = s[len(pre):]
	vrt.Assert(strings.HasSuffix(s, post), "wrong sign after the number")
	s = s[:len(s)-len(post)]
	if st.dec {
		vrt.Assert(strings.HasSuffix(s, ".00"), "decimals are missing")
		s = s[:len(s)-3]
	}
	// digits from the left
	n, n32 := uint64(0), uint32(0)
	digits := 0
	for i := 0; i < len(s); i++ {
		fromRight := len(s) - 1 - i
		if st.commas && fromRight%4 == 3 {
			vrt.Assert(s[i] == ',', "group separator is missing")
			vrt.Reach("grouped")
			continue
		}
		vrt.Assert(s[i] >= '0' && s[i] <= '9', "not a digit")
		n = n*10 + uint64(s[i]-'0')
		n32 = n32*10 + uint32(s[i]-'0')
		digits++
	}
	vrt.Assert(digits > 0 && s[0] != '0' && s[0] != ',', "leading zero or separator")
	if digits <= 9 {
		vrt.Assert(u < 1000000000 && n32 == uint32(u), "other digits than the number's")
	} else {
		vrt.Assert(n == u, "other digits than the number's")
	}
}

// WholeInt and WholeFloat: whole numbers under the integer and currency formats.
func WholeInt() {
	st := styles[vrt.Choice("style", 8)]
	x := int64(vrt.Int("x", -999999999999999, 999999999999999))
	f := &commonxl.Formatter{}
	s, ok := f.Apply(st.id, x)
	vrt.Assert(ok, "built-in format is unknown")
	whole(s, x, st)
}

func WholeFloat() {
	st := styles[vrt.Choice("style", len(styles))]
	x := int64(vrt.Int("x", -999999999999999, 999999999999999))
	f := &commonxl.Formatter{}
	s, ok := f.Apply(st.id, float64(x))
	vrt.Assert(ok, "built-in format is unknown")
	whole(s, x, st)
}

// WholeCell: the same through a sheet, whose cells convert the value first.
func WholeCell() {
	st := styles[vrt.Choice("style", len(styles))]
	x := int64(vrt.Int("x", -999999999, 999999999))
	sh := &commonxl.Sheet{Formatter: &commonxl.Formatter{}}
	if vrt.Bool("float") {
		sh.Put(0, 0, float64(x), st.id)
	} else {
		sh.Put(0, 0, x, st.id)
	}
	sh.Next()
	whole(sh.Strings()[0], x, st)
}

// WholeCustom: the same for custom codes.
func WholeCustom() {
	cs := []struct {
		code string
		st   style
	}{
		{"#,##0", style{0, "", "", "-", "", "0", true, false}},
		{`"$"#,##0`, style{0, "$", "", "$-", "", "$0", true, false}},
		{`#,##0;(#,##0)`, style{0, "", "", "(", ")", "0", true, false}},
		{`0;-0`, style{0, "", "", "-", "", "0", false, false}},
		{`0;[Red]-0;"nil"`, style{0, "", "", "-", "", "nil", false, false}},
	}
	c := cs[vrt.Choice("code", len(cs))]
	x := int64(vrt.Int("x", -999999999, 999999999))
	f := &commonxl.Formatter{}
	vrt.Assert(f.Add(200, c.code) == nil, "custom format refused")
	var s string
	if vrt.Bool("float") {
		s, _ = f.Apply(200, float64(x))
	} else {
		s, _ = f.Apply(200, x)
	}
	whole(s, x, c.st)
}

// WholeTypes: a whole number shows the same from every Go type that can hold it.
func WholeTypes() {
	ids := []uint16{0, 1, 2, 3, 4, 9, 10, 11, 12, 13, 14, 37, 38, 39, 40, 44, 46, 48, 49, 200}
	id := ids[vrt.Choice("id", len(ids))]
	t := vrt.Choice("type", 11)
	n := int64(vrt.Tab("n", 0, 120))
	if vrt.Choice("neg", 2) == 1 {
		vrt.Assume(t < 4 || t == 10)
		n = -n
	}
	var v interface{}
	switch t {
	case 0:
		v = int(n)
	case 1:
		v = int8(n)
	case 2:
		v = int16(n)
	case 3:
		v = int32(n)
	case 4:
		v = uint(n)
	case 5:
		v = uint8(n)
	case 6:
		v = uint16(n)
	case 7:
		v = uint32(n)
	case 8:
		v = uint64(n)
	case 9:
		v = float32(n)
	case 10:
		v = float64(n)
	}
	f := &commonxl.Formatter{}
	vrt.Assert(f.Add(200, `0.0" kg";"minus "#,##0;"none"`) == nil, "format code refused")
	a, ok := f.Apply(id, v)
	b, ok2 := f.Apply(id, n)
	vrt.Assert(ok && ok2, "built-in format is unknown")
	vrt.Observe("text", a)
	vrt.Assert(a == b, "a number is shown differently from another type")
	vrt.Reach("type")
}
