//go:build hgrater

// Package hgrater holds the command grater, rewritten from the current source of the
// repository (engine/rewrite.go), and its harness.
package hgrater

import (
	"os"
	"strconv"
	"strings"

	"verifh/build"
	"verifh/vrt"
)

// ToolPrint: lists of files of all sorts, some of which cannot be read; the rows of the
// others are printed in order, and nothing else.
func ToolPrint() {
	vrt.AllocLimit(64 << 20)
	vrt.Chdir()
	args := []string{"grater"}
	types := vrt.Choice("v", 2) == 1
	if types {
		args = append(args, "-v")
	}
	var want []string // lines; with -v, the line of types in front
	row := func(kinds, text string) {
		if types {
			want = append(want, kinds)
		}
		want = append(want, text)
	}
	n := 1 + vrt.Choice("files", 3)
	bad := 0
	for i := 0; i < n; i++ {
		k := strconv.Itoa(i)
		b := vrt.Byte("c" + k)
		vrt.Assume(b >= ' ' && b < 0x7F && b != '<' && b != '&' && b != '>')
		t := string([]byte{b})
		switch vrt.Choice("file"+k, 6) {
		case 0:
			args = append(args, vrt.File("f"+k+".tsv", []byte("a"+t+"\tb\n\n"+k)))
			row("string\tstring", "a"+t+"\tb")
			row("blank", "")
			row("string", k)
		case 1:
			cell := build.Rec(build.RLabelSst, build.Cell(1, 1, 0), build.W32(0))
			num := build.Rec(build.RRK, build.Cell(0, 0, 0), build.W32(7<<2|2))
			args = append(args, vrt.File("f"+k+".xls", build.CFB("Workbook", build.Workbook(build.SST(false, []uint16{uint16(b), 'z'}), []build.XSheet{
				{Name: build.U16s("none")}, {Name: build.U16s("hidden"), Hidden: 1, Body: num}, {Name: build.U16s("S"), Body: build.Cat(num, cell)}, {Name: build.U16s("T"), Body: num}}, nil))))
			row("integer\tblank", "7\t")
			row("blank\tstring", "\t"+t+"z")
			row("integer", "7")
		case 2:
			bad++
			args = append(args, []string{"", "missing", "no/folder/f"}[i])
		case 3:
			bad++
			args = append(args, vrt.File("f"+k+".xls", build.CFB("Workbook", build.Workbook(build.Rec(0x2F, build.W16(0), build.W32(1)), nil, nil))))
		case 4:
			bad++
			x := build.XLSX{Sheets: []build.XS{{Name: "one", Body: `<sheetData><row r="2"><c r="B2" t="str"><v>v` + t + `</v></c></row></sheetData>`},
				{Name: "bad", Body: "</oops>"}, {Name: "two", Body: `<sheetData><row r="1"><c r="A1" t="b"><v>1</v></c></row></sheetData>`}}}
			args = append(args, x.File("book"+k))
			row("blank\tblank", "\t")
			row("blank\tstring", "\tv"+t)
			row("boolean", "TRUE")
		case 5:
			args = append(args, vrt.File("same.csv", []byte("p\tq\n")))
			row("string\tstring", "p\tq")
		}
	}
	os.Args = args
	out, errs := os.Stdout, os.Stderr
	os.Stdout, _ = os.Create("stdout.txt")
	os.Stderr, _ = os.Create("stderr.txt")
	before := vrt.OpenFiles()
	main()
	vrt.Assert(vrt.OpenFiles() == before, "a file is left open")
	os.Stdout, os.Stderr = out, errs
	b, ok := vrt.ReadBack("stdout.txt")
	vrt.Assert(ok, "nothing can be printed")
	vrt.Observe("out", string(b))
	vrt.Assert(string(b) == hvJoin(want), "other lines are printed than the rows of the sheets")
	e, _ := vrt.ReadBack("stderr.txt")
	if !types {
		vrt.Assert(strings.Count(string(e), "\n") >= bad, "an error is not told")
		vrt.Assert(bad > 0 || len(e) == 0, "an error is told of readable files")
	}
	vrt.Reach("end")
	if bad > 0 {
		vrt.Reach("errors")
	}
}

func hvJoin(l []string) string {
	s := ""
	for _, x := range l {
		s += x + "\n"
	}
	return s
}
