package hcommon

import (
	"github.com/pbnjay/grate/commonxl"
	"verifh/vrt"
)

// the date and time formats that are built in, with their codes
var builtinDates = []struct {
	id   uint16
	code string
}{
	{14, "mm-dd-yy"}, {15, "d-mmm-yy"}, {16, "d-mmm"}, {17, "mmm-yy"}, {18, "h:mm AM/PM"}, {19, "h:mm:ss AM/PM"},
	{20, "h:mm"}, {21, "h:mm:ss"}, {22, "m/d/yy h:mm"}, {45, "mm:ss"}, {46, "[h]:mm:ss"}, {47, "mmss.0"},
	{27, `yyyy"年"m"月"`}, {28, `m"月"d"日"`}, {29, `m"月"d"日"`}, {30, "m-d-yy"}, {31, `yyyy"年"m"月"d"日"`},
	{32, `h"时"mm"分"`}, {33, `h"时"mm"分"ss"秒"`}, {34, `上午/下午 h"时"mm"分"`}, {35, `上午/下午 h"时"mm"分"ss"秒"`},
	{36, `yyyy"年"m"月"`}, {50, `yyyy"年"m"月"`}, {51, `m"月"d"日"`}, {52, `yyyy"年"m"月"`}, {53, `m"月"d"日"`}, {54, `m"月"d"日"`},
	{55, `上午/下午 h"时"mm"分"`}, {56, `上午/下午 h"时"mm"分"ss"秒"`}, {57, `yyyy"年"m"月"`}, {58, `m"月"d"日"`},
	{71, "d/m/yyyy"}, {72, "d-mmm-yy"}, {73, "d-mmm"}, {74, "mmm-yy"}, {75, "h:mm"}, {76, "h:mm:ss"}, {77, "d/m/yyyy h:mm"},
	{78, "mm:ss"}, {79, "[h]:mm:ss"}, {80, "mm:ss.0"},
}

// fieldsOf splits a code without escapes into fields and the texts around them.
func fieldsOf(code string) (fs, texts []string) {
	texts = []string{""}
	field := func(s string) { fs, texts = append(fs, s), append(texts, "") }
	for i := 0; i < len(code); {
		c, j := code[i], i
		for j < len(code) && code[j] == c {
			j++
		}
		switch {
		case c == '"':
			for j < len(code) && code[j] != '"' {
				j++
			}
			texts[len(texts)-1] += code[i+1 : j]
			j++
		case c == 'A':
			j = i + 5
			field(code[i:j])
		case len(code) >= i+13 && code[i:i+13] == "上午/下午":
			j = i + 13
			field(code[i:j])
		case c >= 'a' && c <= 'z':
			field(code[i:j])
		case c == '[' || c == ']':
		default:
			texts[len(texts)-1] += code[i:j]
		}
		i = j
	}
	return
}

// BuiltinDates: the built-in date and time formats show the fields of their codes.
func BuiltinDates() {
	b := builtinDates[vrt.Choice("format", len(builtinDates))]
	fs, texts := fieldsOf(b.code)
	dateText(&commonxl.Formatter{}, b.id, fs, texts, false)
}
