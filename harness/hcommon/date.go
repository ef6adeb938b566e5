package hcommon

import (
	"github.com/pbnjay/grate/commonxl"
	"verifh/vrt"
)

const (
	base1900 = -2209161600 // 1899-12-30
	base1904 = -2082844800 // 1904-01-01
)

// day is a formatter of either system, a day number and the seconds of its midnight.
func day() (*commonxl.Formatter, int, int64) {
	f := &commonxl.Formatter{}
	if vrt.Choice("1904", 2) == 0 {
		f.Mode1904(vrt.Choice("again", 2) == 1)
		f.Mode1904(false)
		n := vrt.Int("day", 61, 2958465)
		return f, n, base1900 + 86400*int64(n)
	}
	f.Mode1904(true)
	if vrt.Choice("early", 2) == 0 {
		n := vrt.Choice("earlyday", 61)
		return f, n, base1904 + 86400*int64(n)
	}
	n := vrt.Int("day", 61, 2957003)
	return f, n, base1904 + 86400*int64(n)
}

// Days: every whole serial of either system is the right calendar day.
func Days() {
	f, n, want := day()
	t := f.ConvertToDate(float64(n))
	vrt.Assert(t.Unix() == want, "serial converts to another day")
	vrt.Assert(t.Nanosecond() == 0, "serial of a day has a time")
	vrt.Reach("day")
}

// Clock: a serial made from a day and a time in whole seconds gives that second.
func Clock() {
	f, n, want := day()
	s := vrt.Int("sec", 0, 86399)
	t := f.ConvertToDate(float64(n) + float64(s)/86400)
	vrt.Assert(t.Unix() == want+int64(s), "time converts to another second")
	vrt.Assert(t.Nanosecond() == 0, "time has a fraction of a second")
	vrt.Reach("clock")
}

// ClockMinutes: the same for serials written as fractions of hours and minutes.
func ClockMinutes() {
	f, n, want := day()
	m := vrt.Int("min", 0, 1439)
	v := float64(n)
	switch vrt.Choice("form", 3) {
	case 0:
		v += float64(m) / 1440
	case 1:
		v = float64(n*1440+m) / 1440
	case 2:
		v = float64(n) + float64(m)*(1.0/1440)
	}
	t := f.ConvertToDate(v)
	vrt.Assert(t.Unix() == want+60*int64(m), "time converts to another minute")
	vrt.Reach("clock")
}

// Order: a later serial does not convert to an earlier time.
func Order() {
	f, n, _ := day()
	order(f, n)
}

// OrderEarly: the same for the first days of the 1900 system, whose calendar days are not
// agreed on.
func OrderEarly() {
	f := &commonxl.Formatter{}
	n := vrt.Tab("day", 0, 61)
	parts := []float64{0, 0.25, 0.5, 0.75, 0.999}
	i := vrt.Choice("i", len(parts))
	v := float64(n) + parts[i]
	w := float64(n + 1)
	if i+1 < len(parts) {
		w = float64(n) + parts[i+1]
	}
	vrt.Assert(!f.ConvertToDate(w).Before(f.ConvertToDate(v)), "later serial converts to an earlier time")
	vrt.Reach("order")
}

func order(f *commonxl.Formatter, n int) {
	a, b := vrt.Int("a", 0, 86399999), vrt.Int("b", 0, 86399999)
	vrt.Assume(a <= b)
	t := f.ConvertToDate(float64(n) + float64(a)/86400000)
	u := f.ConvertToDate(float64(n) + float64(b)/86400000)
	vrt.Assert(!u.Before(t), "later serial converts to an earlier time")
	w := f.ConvertToDate(float64(n + 1))
	vrt.Assert(!w.Before(u), "next day comes before the end of the day")
	vrt.Reach("order")
}

// Calendar: whole days are printed as the right date, by a plain calendar.
func Calendar() {
	f := &commonxl.Formatter{}
	y := 1900
	if vrt.Thorough() {
		y += vrt.Choice("year", 300)
	} else {
		y = []int{1900, 1901, 1903, 1904, 1969, 1970, 1999, 2000, 2001, 2004, 2026, 2099, 2100, 2196}[vrt.Choice("year", 14)]
	}
	m := vrt.Choice("month", 12)
	lens := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}
	leap := y%4 == 0 && (y%100 != 0 || y%400 == 0)
	if leap {
		lens[1] = 29
	}
	days := (y-1900)*365 + (y-1901)/4 - (y-1901)/100 + (y-1601)/400 + 2
	for i := 0; i < m; i++ {
		days += lens[i]
	}
	d := vrt.Int("d", 0, 30)
	vrt.Assume(d < lens[m] && days+d >= 61)
	t := f.ConvertToDate(float64(days + d))
	yy, mm, dd := t.Date()
	vrt.Assert(yy == y && int(mm) == m+1 && dd == d+1, "serial converts to another date")
	vrt.Reach("date")
}
