package hxlsx

import (
	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/xlsx"
	"verifh/build"
	"verifh/par"
	"verifh/vrt"
)

func id(i int) string { return "0123456789abcdefghijklmnopqrstuvwxyz"[i : i+1] }

// open opens a package that is fine and returns its first sheet.
func open(x build.XLSX) grate.Collection {
	src, err := xlsx.Open(par.File(x.File("f.xlsx")))
	vrt.Assert(err == nil, "a healthy package cannot be opened")
	return get(src, x.Sheets[0].Name)
}

func get(src grate.Source, name string) grate.Collection {
	c, err := src.Get(name)
	vrt.Assert(err == nil, "a healthy sheet cannot be fetched")
	return c
}

// one is a package of one sheet.
func one(body string) build.XLSX { return build.XLSX{Sheets: []build.XS{{Name: "S", Body: body}}} }

// row encloses cells.
func row(n, cells string) string { return `<row r="` + n + `">` + cells + `</row>` }

func data(rows string) string { return `<sheetData>` + rows + `</sheetData>` }

// cell is a <c> element.
func cell(ref, typ, style, body string) string {
	s := `<c r="` + ref + `"`
	if style != "" {
		s += ` s="` + style + `"`
	}
	if typ != "" {
		s += ` t="` + typ + `"`
	}
	return s + `>` + body + `</c>`
}

func v(s string) string { return `<v>` + s + `</v>` }

// col and ref name cells.
func col(c int) string {
	s := string([]byte{byte('A' + c%26)})
	for c = c/26 - 1; c >= 0; c = c/26 - 1 {
		s = string([]byte{byte('A' + c%26)}) + s
	}
	return s
}

func num(n int) string {
	s := ""
	for ; n > 0; n /= 10 {
		s = string([]byte{byte('0' + n%10)}) + s
	}
	if s == "" {
		return "0"
	}
	return s
}

func ref(c, r int) string { return col(c) + num(r+1) }

// grid reads the shown texts and the types of all rows.
func grid(c grate.Collection) (txt, typ [][]string) {
	for c.Next() {
		s, t := c.Strings(), c.Types()
		vrt.Assert(len(s) == len(t) && len(c.Formats()) == len(s), "the lists of a row have different lengths")
		txt, typ = append(txt, s), append(typ, t)
	}
	vrt.Assert(c.Err() == nil, "a healthy sheet has an error")
	return
}

func at(g [][]string, c, r int) string {
	if r < len(g) && c < len(g[r]) {
		return g[r][c]
	}
	return ""
}
