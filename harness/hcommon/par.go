package hcommon

import (
	"time"

	"github.com/pbnjay/grate/commonxl"
	"verifh/vrt"
)

// ParFormats: values are formatted and put into sheets by two goroutines at the same time,
// each with a formatter and a sheet of its own.
func ParFormats() {
	v := []interface{}{43831.75, -1234.5, 0.0, 1e-9, 123456789.0, int64(-7), int64(0), true, "text", "", time.Unix(1600000000, 0).UTC()}[vrt.Choice("v", 11)]
	id := vrt.U16("id")
	code, mode := "", false
	if id == 300 {
		code = customs[vrt.Choice("c", len(customs))]
	} else {
		mode = vrt.Choice("1904", 2) == 1
	}
	var got [2][]string
	vrt.Parallel(2, func(k int) {
		f := &commonxl.Formatter{}
		f.Mode1904(mode)
		f.Add(300, code)
		s, _ := f.Apply(id, v)
		sh := &commonxl.Sheet{Formatter: f}
		sh.Resize(1, 2)
		sh.Put(0, 1, v, id)
		sh.Put(0, 0, "x", 0)
		sh.Set(0, 0, v)
		sh.SetURL(0, 1, "link")
		sh.Next()
		got[k] = append(append(append([]string{s}, sh.Strings()...), sh.Types()...), sh.Formats()...)
		if sh.IsEmpty() {
			got[k] = append(got[k], "empty")
		}
	})
	vrt.Assert(len(got[0]) == len(got[1]), "two goroutines see different texts")
	for i := range got[0] {
		vrt.Assert(got[0][i] == got[1][i], "two goroutines see different texts")
	}
	vrt.Reach("parallel")
}

// ParCodes: format codes of up to 3 of the characters that have a meaning are registered and
// applied by two goroutines at the same time.
func ParCodes() {
	code := ""
	n := 1 + vrt.Choice("n", 3)
	for i := 0; i < n; i++ {
		code += []string{"0", "#", ",", ".", "y", "m", "d", "h", "s", `"x"`, ";", "%", "@", "$", "E+", "["}[vrt.Choice("k"+string(rune('0'+i)), 16)]
	}
	v := []interface{}{43831.75, -1234.5, int64(0), "text"}[vrt.Choice("v", 4)]
	var got [2]string
	vrt.Parallel(2, func(k int) {
		f := &commonxl.Formatter{}
		f.Add(300, code)
		got[k], _ = f.Apply(300, v)
	})
	vrt.Assert(got[0] == got[1], "two goroutines see different texts")
	vrt.Reach("parallel")
}
