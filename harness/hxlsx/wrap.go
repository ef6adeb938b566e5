package hxlsx

import (
	"strings"

	"verifh/par"
	"verifh/vrt"
)

// Wrapped: an element that is not known around, in front of or behind an element of any
// part.
func Wrapped() {
	parts := everything().Parts()
	k := vrt.Choice("part", len(parts))
	s := string(parts[k].Data)
	// the elements of the part
	var at []int
	for i := 1; i < len(s); i++ {
		if s[i-1] == '<' && s[i] != '?' && s[i] != '/' && s[i] != '!' {
			at = append(at, i-1)
		}
	}
	i := at[vrt.Choice("element", len(at))]
	e := end(s, i)
	n := []string{"other", "x14ac:other"}[vrt.Choice("name", 2)]
	open, text := "<"+n+` a="1" ref="B2" Id="z">`, []string{"", "text", "<v>9</v>"}[vrt.Choice("inner", 3)]
	switch vrt.Choice("how", 3) {
	case 0:
		s = s[:i] + open + s[i:e] + "</" + n + ">" + s[e:]
	case 1:
		s = s[:i] + open + text + "</" + n + ">" + s[i:]
	case 2:
		s = s[:e] + open + text + "</" + n + ">" + s[e:]
	}
	parts[k].Data = []byte(s)
	par.Debug(func() { visit(parts) })
}

// end is where the element at i ends.
func end(s string, i int) int {
	depth := 0
	for {
		j := i + strings.IndexByte(s[i:], '>')
		switch {
		case s[i+1] == '/':
			depth--
		case s[j-1] != '/':
			depth++
		}
		i = j + 1
		if depth <= 0 {
			return i
		}
		for s[i] != '<' {
			i++
		}
	}
}
