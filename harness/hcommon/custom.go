package hcommon

import (
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/pbnjay/grate/commonxl"
	"verifh/vrt"
)

var someValues = []interface{}{
	"text", "", true, int64(0), int64(7), int64(-1234), 0.0, 0.5, -98765.4321, 36526.75, 1e300, -1e300,
	math.Inf(1), math.Inf(-1), math.NaN(), uint64(12), time.Unix(1600000000, 0).UTC(),
}

// CodeBytes: a format code of any characters is refused or formats every value.
func CodeBytes() {
	n := 2
	if vrt.Thorough() {
		n = 3
	}
	n = vrt.Choice("len", n+1)
	code := vrt.Str("code", n)
	for i := 0; i < n; i++ {
		vrt.Assume(code[i] < 0x80)
	}
	f := &commonxl.Formatter{}
	err := f.Add(200, code)
	section := true // a single section
	for i := 0; i < n; i++ {
		if code[i] == ';' {
			section = false
		}
	}
	for _, v := range someValues {
		s, ok := f.Apply(200, v)
		vrt.Assert(ok == (err == nil), "registered code is not known")
		if t, isText := v.(string); isText && section {
			vrt.Assert(s == t, "a text is not shown unchanged")
			vrt.Reach("text")
		}
	}
	vrt.Reach("done")
}

// CodeSheet: the same through a sheet with longer codes.
func CodeSheet() {
	frames := [][2]string{{"0", ""}, {"", "0"}, {"#,##0.", "0"}, {"yy", "mm"}, {`"`, `"0`}, {`0\`, ``}, {"0;", ""}, {"0;-0;", ""}, {"[", "]0"}, {"_", "0"}, {"h:", "m"}, {"0", "%"}, {"0.0E", "0"}, {"@", ""}}
	fr := frames[vrt.Choice("frame", len(frames))]
	n := 2
	if vrt.Thorough() {
		n = 3
	}
	mid := vrt.Str("code", n)
	for i := 0; i < n; i++ {
		vrt.Assume(mid[i] < 0x80)
	}
	code := fr[0] + mid + fr[1]
	f := &commonxl.Formatter{}
	if f.Add(200, code) != nil {
		vrt.Reach("refused")
		return
	}
	s := &commonxl.Sheet{Formatter: f}
	s.Resize(1, len(someValues))
	for i, v := range someValues {
		s.Put(0, i, v, 200)
	}
	vrt.Assert(s.Next(), "no row")
	row, types, formats := s.Strings(), s.Types(), s.Formats()
	vrt.Assert(len(row) == len(someValues) && len(types) == len(row) && len(formats) == len(row), "strings, types and formats do not line up")
	if strings.Count(code, ";") < 3 {
		vrt.Assert(row[0] == "text", "a text is not shown unchanged")
	}
	vrt.Reach("done")
}

// lit is a literal in a code, in one of the ways to write it.
func lit(name string) (code, text string) {
	switch vrt.Choice(name, 4) {
	case 0:
		return "", ""
	case 1:
		q := vrt.Str(name+"q", 2)
		vrt.Assume(q[0] != '"' && q[1] != '"' && q[0] < 0x80 && q[1] < 0x80)
		return `"` + q + `"`, q
	case 2:
		q := vrt.Str(name+"e", 1)
		vrt.Assume(q[0] < 0x80)
		return `\` + q, q
	default:
		r := []string{"-", " ", "年"}[vrt.Choice(name+"r", 3)]
		return r, r
	}
}

// around is a literal before or after the rest of the code.
func around() (c1, t1, c2, t2 string) {
	c, t := lit("around")
	if vrt.Choice("after", 2) == 1 {
		return "", "", c, t
	}
	return c, t, "", ""
}

func two(n int) string { return string([]byte{byte('0' + n/10), byte('0' + n%10)}) }

func plain(n int) string {
	if n < 10 {
		return string([]byte{byte('0' + n)})
	}
	return two(n)
}

type moment struct {
	y, mo, d   int
	month, day string
	unix       int64
	serial     int
}

var moments = []moment{
	{2020, 3, 4, "March", "Wednesday", 1583280000, 43894},
	{1999, 12, 31, "December", "Friday", 946598400, 36525},
	{2007, 10, 20, "October", "Saturday", 1192838400, 39375},
}

// DateCode: a code of date and time fields shows those fields of a time, in order, with the
// literals between them.
func DateCode() {
	fields := []string{"yy", "yyyy", "m", "mm", "mmm", "mmmm", "d", "dd", "ddd", "dddd", "h", "hh", "s", "ss", "AM/PM"}
	n := 1 + vrt.Choice("n", 2)
	var fs, texts []string
	which := vrt.Choice("which", n+1)
	c, l := lit("lit")
	part := func(i int) (string, string) {
		if i == which {
			return c, l
		}
		return []string{"", ".\\ "}[i%2], []string{"", ". "}[i%2]
	}
	code, l0 := part(0)
	texts = append(texts, l0)
	last := byte(0)
	for i := 0; i < n; i++ {
		x := fields[vrt.Choice("f"+string(rune('0'+i)), len(fields))]
		c, l := part(i + 1)
		if last == x[0] && texts[i] == "" {
			vrt.Assume(false) // one run of letters is one field
		}
		last = x[0]
		code += x + c
		fs = append(fs, x)
		texts = append(texts, l)
	}
	dateCode(code, fs, texts, !vrt.Thorough())
}

// TimeCode: the same for whole dates and times.
func TimeCode() {
	forms := []string{"yyyy-mm-dd", "dd/mm/yyyy hh:mm:ss", "m/d/yy h:mm", "h:mm AM/PM", "mm:ss", "hh:mm:ss AM/PM", "d mmmm yyyy", "dddd mmm d", "[h]:mm", "yyyy mm dd mm:ss", "h m s m"}
	form := forms[vrt.Choice("form", len(forms))]
	q, l := lit("l")
	code := strings.ReplaceAll(form, " ", q)
	var fs, texts []string
	texts = append(texts, "")
	for i := 0; i < len(form); {
		c := form[i]
		j := i
		for j < len(form) && form[j] == c {
			j++
		}
		switch {
		case c == 'A':
			j = i + 5
			fs = append(fs, form[i:j])
			texts = append(texts, "")
		case c >= 'a':
			fs = append(fs, form[i:j])
			texts = append(texts, "")
		case c == '[' || c == ']':
		case c == ' ':
			texts[len(texts)-1] += l
			if l == "" && j < len(form) && len(fs) > 0 {
				vrt.Assume(form[j] != fs[len(fs)-1][0])
			}
		default:
			texts[len(texts)-1] += form[i:j]
		}
		i = j
	}
	dateCode(code, fs, texts, false)
}

func dateCode(code string, fs, texts []string, short bool) {
	f := &commonxl.Formatter{}
	vrt.Assert(f.Add(200, code) == nil, "date code is refused")
	dateText(f, 200, fs, texts, short)
}

// dateText compares the text shown for a time under a format with the fields of its code.
func dateText(f *commonxl.Formatter, id uint16, fs, texts []string, short bool) {
	days, hours := 3, 4
	if short {
		days, hours = 2, 2
	}
	timed, hour12 := false, false
	for _, x := range fs {
		if x == "AM/PM" || x == "上午/下午" {
			hour12 = true
		} else {
			timed = true
		}
	}
	vrt.Assume(timed)
	day := moments[vrt.Choice("day", days)]
	h, mi, s := 0, 0, 0
	var v interface{}
	if vrt.Choice("serial", 2) == 1 {
		h = []int{0, 18}[vrt.Choice("quarter", 2)]
		v = float64(day.serial) + float64(h)/24
	} else {
		h = []int{9, 23, 0, 12}[vrt.Choice("h", hours)]
		if vrt.Choice("minutes", 2) == 1 {
			mi, s = vrt.Int("mi", 0, 59), 7
		} else {
			mi, s = 5, vrt.Int("s", 0, 59)
		}
		v = time.Unix(day.unix+int64(h*3600+mi*60+s), 0).UTC()
	}
	want := texts[0]
	for i, x := range fs {
		minute := false
		if x == "m" || x == "mm" {
			for j := i - 1; j >= 0; j-- {
				if fs[j] != "AM/PM" {
					minute = fs[j][0] == 'h'
					break
				}
			}
			for j := i + 1; j < len(fs); j++ {
				if fs[j] != "AM/PM" {
					minute = minute || fs[j][0] == 's'
					break
				}
			}
		}
		hh := h
		if hour12 {
			hh = (h+11)%12 + 1
		}
		switch {
		case x == "yy":
			want += two(day.y % 100)
		case x == "yyyy":
			want += strconv.Itoa(day.y)
		case x == "m" && minute:
			want += plain(mi)
		case x == "mm" && minute:
			want += two(mi)
		case x == "m":
			want += plain(day.mo)
		case x == "mm":
			want += two(day.mo)
		case x == "mmm":
			want += day.month[:3]
		case x == "mmmm":
			want += day.month
		case x == "d":
			want += plain(day.d)
		case x == "dd":
			want += two(day.d)
		case x == "ddd":
			want += day.day[:3]
		case x == "dddd":
			want += day.day
		case x == "h" && hour12:
			want += plain(hh)
		case x == "h": // there is no layout for this, any zero is fine
			want += two(hh)
		case x == "hh":
			want += two(hh)
		case x == "s":
			want += plain(s)
		case x == "ss":
			want += two(s)
		case x == "上午/下午" && h < 12:
			want += "上午"
		case x == "上午/下午":
			want += "下午"
		case h < 12:
			want += "AM"
		default:
			want += "PM"
		}
		want += texts[i+1]
	}
	got, ok := f.Apply(id, v)
	vrt.Assert(ok, "date format is unknown")
	vrt.Observe("got", got)
	vrt.Assert(len(got) == len(want), "a date is shown with other fields")
	vrt.Assert(got == want, "a date is shown with other fields or literals")
	if _, ok := v.(float64); ok {
		sh := &commonxl.Sheet{Formatter: f}
		sh.Resize(1, 1)
		sh.Put(0, 0, v, id)
		sh.Next()
		vrt.Assert(sh.Types()[0] == "date", "a date code does not make a date")
		vrt.Assert(sh.Strings()[0] == want, "a date cell is shown with other fields or literals")
		vrt.Reach("cell")
	}
	vrt.Reach("date")
}

// NumberCode: a code with digit places shows the number, its sign and its grouping between
// the literals.
func NumberCode() {
	digits := []struct {
		code         string
		least, after int
		commas, pct  bool
	}{
		{"0", 1, 0, false, false}, {"#", 1, 0, false, false}, {"000", 3, 0, false, false}, {"00000", 5, 0, false, false},
		{"#,##0", 1, 0, true, false}, {"0.0", 1, 1, false, false}, {"0.00", 1, 2, false, false}, {"#,##0.00", 1, 2, true, false},
		{"0.0#", 1, 1, false, false}, {"0.##", 1, 0, false, false}, {"0%", 1, 0, false, true}, {"0.0%", 1, 1, false, true},
	}
	dg := digits[vrt.Choice("digits", len(digits))]
	c1, t1, c2, t2 := around()
	f := &commonxl.Formatter{}
	vrt.Assert(f.Add(200, c1+dg.code+c2) == nil, "number code is refused")
	x := vrt.Int("x", -99999, 99999)
	var v interface{} = int64(x)
	if vrt.Choice("float", 2) == 1 {
		v = float64(x)
	}
	var s string
	if vrt.Choice("sheet", 2) == 1 {
		sh := &commonxl.Sheet{Formatter: f}
		sh.Resize(1, 1)
		sh.Put(0, 0, v, 200)
		sh.Next()
		s = sh.Strings()[0]
		tp := sh.Types()[0]
		vrt.Assert(tp == "integer" || tp == "float", "a number code does not make a number")
		vrt.Reach("cell")
	} else {
		s, _ = f.Apply(200, v)
	}
	if dg.pct {
		t2 = "%" + t2
		x *= 100
	}
	vrt.Assert(len(s) >= len(t1)+len(t2), "literals are missing")
	vrt.Assert(s[:len(t1)] == t1 && s[len(s)-len(t2):] == t2, "literals are not shown literally")
	s = s[len(t1) : len(s)-len(t2)]
	if x < 0 {
		vrt.Assert(len(s) > 0 && s[0] == '-', "sign is missing")
		s = s[1:]
		x = -x
	}
	if dg.after > 0 {
		vrt.Assert(len(s) > dg.after+1 && s[len(s)-dg.after-1:] == ".00"[:dg.after+1], "decimals are missing")
		s = s[:len(s)-dg.after-1]
	}
	n, d := 0, 0
	for i := 0; i < len(s); i++ {
		if fromRight := len(s) - 1 - i; dg.commas && fromRight%4 == 3 {
			vrt.Assert(s[i] == ',', "group separator is missing")
			continue
		}
		vrt.Assert(s[i] >= '0' && s[i] <= '9', "not a digit")
		n = n*10 + int(s[i]-'0')
		d++
	}
	vrt.Assert(d >= dg.least && (d == dg.least || s[0] != '0'), "wrong number of digits")
	vrt.Assert(n == x, "another number is shown")
	vrt.Reach("number")
}

// DecimalCode: decimals are shown rounded to the places of the code, and fractions of a
// percent too.
func DecimalCode() {
	vals := []float64{0.29, 0.5, 0.07, 1.005, 12.345, 1234.5678, 0.999, 99999.995, 1e15 + 0.5, 0.125, 7}
	v := vals[vrt.Choice("v", len(vals))]
	if vrt.Choice("neg", 2) == 1 {
		v = -v
	}
	codes := []string{"0.0", "0.00", "0.000", "0.0%", "0.00%", "0.00E+00"}
	c := vrt.Choice("code", len(codes))
	var want string
	switch c {
	case 0, 1, 2:
		want = strconv.FormatFloat(v, 'f', c+1, 64)
	case 3, 4:
		want = strconv.FormatFloat(v*100, 'f', c-2, 64) + "%"
	default:
		want = strconv.FormatFloat(v, 'E', 2, 64)
	}
	c1, t1, c2, t2 := around()
	f := &commonxl.Formatter{}
	vrt.Assert(f.Add(200, c1+codes[c]+c2) == nil, "number code is refused")
	s, _ := f.Apply(200, v)
	vrt.Assert(s == t1+want+t2, "decimals are not shown rounded to the code's places")
	sh := &commonxl.Sheet{Formatter: f}
	sh.Resize(1, 1)
	sh.Put(0, 0, v, 200)
	sh.Next()
	vrt.Assert(sh.Strings()[0] == t1+want+t2, "decimals in a cell are not shown rounded to the code's places")
	var back float64
	vrt.Assert(sh.Scan(&back) == nil && back == v, "the format changes the number")
	vrt.Reach("decimal")
}

// SectionCode: each section of a code shows the numbers it is for.
func SectionCode() {
	cs, ts := []string{"", `\-`, "nil"}, []string{"", "-", "nil"}
	k := vrt.Choice("which", 3)
	cs[k], ts[k] = lit("lit")
	n := 2 + vrt.Choice("sections", 3)
	c1, c2, c3, t1, t2, t3 := cs[0], cs[1], cs[2], ts[0], ts[1], ts[2]
	code := c1 + "0;" + c2 + "0"
	if n >= 3 {
		code += ";" + c3
	}
	if n >= 4 {
		code += ";@"
	}
	f := &commonxl.Formatter{}
	vrt.Assert(f.Add(200, code) == nil, "code is refused")
	show := func(v interface{}) string {
		s, _ := f.Apply(200, v)
		return s
	}
	conv := func(n int) interface{} {
		if vrt.Choice("float", 2) == 1 {
			return float64(n)
		}
		return int64(n)
	}
	vrt.Assert(show(conv(12)) == t1+"12", "a positive number is not shown by the first section")
	vrt.Assert(show(conv(-12)) == t2+"12", "a negative number is not shown by the second section")
	if n >= 3 {
		vrt.Assert(show(conv(0)) == t3, "zero is not shown by the third section")
		vrt.Reach("zero")
	} else {
		vrt.Assert(show(conv(0)) == t1+"0", "zero is not shown by the first section")
	}
	vrt.Assert(show("abc") == "abc", "a text is changed")
	vrt.Reach("done")
}
