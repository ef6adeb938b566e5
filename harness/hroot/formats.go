package hroot

import (
	"errors"
	"strconv"
	"strings"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/simple"
	"github.com/pbnjay/grate/xls"
	"github.com/pbnjay/grate/xlsx"
	"verifh/build"
	"verifh/vrt"
)

var fileNames = []string{"f", "f.xls", "f.xlsx", "f.csv", "f.tsv", "f.txt"}

// others are the openers of other formats, which must leave the file to its own.
func others(path string, mine int) {
	for i, open := range []grate.OpenFunc{xls.Open, xlsx.Open} {
		if i != mine {
			_, err := open(path)
			vrt.Assert(errors.Is(err, grate.ErrNotInFormat), "a reader does not leave a file of another format to its own reader")
		}
	}
}

// Workbooks: a workbook of either format under any name.
func Workbooks() {
	name := fileNames[vrt.Choice("name", len(fileNames))]
	kind := vrt.Choice("kind", 2)
	n := 1 + vrt.Choice("n", 2)
	c := vrt.U16("c")
	vrt.Assume(c >= '0' && c <= 'z' && c != '<')
	text := "t" + string([]byte{byte(c)})
	var path string
	if kind == 0 {
		g := build.Cat(build.Rec(build.RXF, make([]byte, 20)), build.SST(false, []uint16{'t', c}))
		var sheets []build.XSheet
		for i := 0; i < n; i++ {
			sheets = append(sheets, build.XSheet{Name: build.U16s("S" + id(i)), Body: build.Rec(build.RLabelSst, build.Cell(0, 0, 0), build.W32(0))})
		}
		path = vrt.File(name, build.CFB("Workbook", build.Workbook(g, sheets, nil)))
	} else {
		p := build.XLSX{Strings: "<si><t>" + text + "</t></si>"}
		for i := 0; i < n; i++ {
			p.Sheets = append(p.Sheets, build.XS{Name: "S" + id(i), Body: `<sheetData><row r="1"><c r="A1" t="s"><v>0</v></c></row></sheetData>`})
		}
		path = p.File(name)
	}
	others(path, kind)
	src, err := grate.Open(path)
	vrt.Assert(err == nil, "a workbook is not opened")
	list, err := src.List()
	vrt.Assert(err == nil && len(list) == n, "a workbook has other sheets")
	for i, s := range list {
		vrt.Assert(s == "S"+id(i), "a workbook has other sheets")
		t, err := src.Get(s)
		vrt.Assert(err == nil && t.Next(), "a row of a workbook is missing")
		row := t.Strings()
		vrt.Assert(len(row) == 1 && row[0] == text, "a cell of a workbook has another text")
		vrt.Assert(!t.Next(), "a sheet has more rows")
	}
	vrt.Reach("workbook")
}

// rows reads a table.
func rows(src grate.Source, name string) (out [][]string) {
	list, err := src.List()
	vrt.Assert(err == nil && len(list) == 1 && list[0] == name, "a text file is listed under another name")
	c, err := src.Get(list[0])
	vrt.Assert(err == nil, "the listed table cannot be fetched")
	for c.Next() {
		out = append(out, c.Strings())
	}
	return
}

func equal(a, b [][]string, what string) {
	vrt.Assert(len(a) == len(b), what)
	for i := range a {
		vrt.Assert(len(a[i]) == len(b[i]), what)
		for j := range a[i] {
			vrt.Assert(a[i][j] == b[i][j], what)
		}
	}
}

// text opens a text file and compares it with what its own reader makes of it.
func plain(name, content string) {
	path := vrt.File(name, []byte(content))
	others(path, -1)
	tab, comma := strings.IndexByte(content, '\t') >= 0, strings.IndexByte(content, ',') >= 0
	src, err := grate.Open(path)
	own, what := simple.OpenTSV, "tsv"
	if !tab && comma {
		own, what = simple.OpenCSV, "csv"
	}
	ref, rerr := own(path)
	if rerr != nil && errors.Is(rerr, grate.ErrNotInFormat) {
		// a broken one: it may be read in another way, or not
		vrt.Assert(err == nil || errors.Is(err, grate.ErrUnknownFormat), "an unknown format is reported in another way")
		vrt.Reach("neither")
		return
	}
	if rerr != nil {
		vrt.Assert(err != nil, "a file that cannot be read is opened")
		return
	}
	vrt.Assert(err == nil, "a text file is not opened")
	equal(rows(src, name), rows(ref, name), "a "+what+" file is read in another format")
	vrt.Reach(what)
}

// Texts: text files of any short content under any name.
func Texts() {
	n := 4
	if vrt.Thorough() {
		n = 6
	}
	b := vrt.Bytes("b", vrt.Choice("len", n+1))
	for i := range b {
		vrt.Assume(b[i] < 0x80)
	}
	plain(fileNames[vrt.Choice("name", len(fileNames))], string(b))
}

// Tables: regular tables with any of the separators, of few or many rows, with and without a title line.
func Tables() {
	sep := []string{"\t", ",", ""}[vrt.Choice("sep", 3)]
	cols := 1 + vrt.Choice("cols", 3)
	n := []int{1, 2, 3, 9, 10, 11, 12, 26, 30}[vrt.Choice("rows", 9)]
	end := []string{"\n", "\r\n"}[vrt.Choice("end", 2)]
	title := vrt.Choice("title", 2) == 1
	c := vrt.Byte("c")
	vrt.Assume(c > ' ' && c < 0x7f && c != ',' && c != '"')
	var lines []string
	var want [][]string
	if title {
		lines, want = []string{"title"}, [][]string{{"title"}}
	}
	for i := 0; i < n; i++ {
		f := []string{"a" + strconv.Itoa(i)}
		for j := 1; j < cols && sep != ""; j++ {
			f = append(f, "x"+string([]byte{c})+" y")
		}
		lines = append(lines, strings.Join(f, sep))
		want = append(want, f)
	}
	content := strings.Join(lines, end)
	if vrt.Choice("last", 2) == 1 {
		content += end
	}
	plain("f.txt", content)
	src, err := grate.Open(vrt.File("f.txt", []byte(content)))
	vrt.Assert(err == nil, "a table is not opened")
	equal(rows(src, "f.txt"), want, "a table is delivered with other fields")
}
