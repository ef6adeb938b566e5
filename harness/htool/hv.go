//go:build htool

// Package htool holds the batch command, rewritten from the current source of the
// repository (engine/rewrite.go), and its harnesses. The scheduler is in vrt/sched.go.
package htool

import (
	"os"
	"strconv"
	"strings"

	"verifh/build"
	"verifh/vrt"
)

// hvRun runs the command.
func hvRun(ncpu, deviations int, args ...string) {
	vrt.AllocLimit(64 << 20)
	vrt.Chdir()
	os.Args = append([]string{"grate2tsv"}, args...)
	vrt.Sched(deviations, ncpu)
	main()
}

// hvSheet is what one sheet (or one file that cannot be read) must become.
type hvSheet struct {
	file, name string
	out        string
	rows, cols int
	err        bool // the file or sheet cannot be read
	none       bool // a sheet without values
}

const hvHead = "time\tfilename\tsheet\trows\tcolumns\terrors"

// hvCheck compares the output files and the lines of the result file. old are the lines
// that were in the result file before.
func hvCheck(old string, want []hvSheet, pretend bool) {
	var texts []string
	for _, n := range vrt.Written() {
		if n == "info.txt" {
			continue
		}
		b, ok := vrt.ReadBack(n)
		vrt.Assert(ok, "an output file cannot be read")
		texts = append(texts, string(b))
	}
	for _, w := range want {
		if w.err || w.none || pretend {
			continue
		}
		found := false
		for i, t := range texts {
			if t == w.out {
				texts = append(append([]string(nil), texts[:i]...), texts[i+1:]...)
				found = true
				break
			}
		}
		vrt.Assert(found, "the rows of a sheet are not in the output")
		vrt.Reach("output")
	}
	vrt.Assert(len(texts) == 0, "there is an output file that is of no sheet")
	b, ok := vrt.ReadBack("info.txt")
	vrt.Assert(ok, "there is no result file")
	if old == "" {
		old = hvHead + "\n"
	}
	vrt.Assert(strings.HasPrefix(string(b), old), "the result file does not begin as it should")
	hvLines(string(b)[len(old):], want)
}

func hvLines(s string, want []hvSheet) {
	var lines []string
	if s != "" {
		vrt.Assert(strings.HasSuffix(s, "\n"), "the result file ends within a line")
		lines = strings.Split(s[:len(s)-1], "\n")
	}
	vrt.Assert(len(lines) == len(want), "the result file has another number of lines")
	used := make([]bool, len(want))
	for _, l := range lines {
		f := strings.Split(l, "\t")
		vrt.Assert(len(f) == 6, "a result line has another number of fields")
		found := false
		for i, w := range want {
			name, rows, cols := w.name, "-", "-"
			if w.err && name == "" {
				name = "-"
			} else {
				rows, cols = strconv.Itoa(w.rows), strconv.Itoa(w.cols)
			}
			if used[i] || f[1] != w.file || f[2] != name || f[3] != rows || f[4] != cols {
				continue
			}
			vrt.Assert((f[5] == "-") == !w.err && f[5] != "", "a result line tells another outcome")
			used[i], found = true, true
			break
		}
		vrt.Assert(found, "a result line tells of no sheet")
	}
}

// hvText is what the options make of a sheet.
func hvText(cells [][]string, cond, trim, skip bool) (out string, rows, cols int) {
	for _, row := range cells {
		blank := true
		line := ""
		for i, x := range row {
			if cond {
				x = hvCondense(x)
			}
			if trim {
				x = hvTrim(x)
			}
			if x != "" {
				blank = false
				if i >= cols {
					cols = i + 1
				}
			}
			if i > 0 {
				line += "\t"
			}
			line += x
		}
		if blank && skip {
			continue
		}
		out += line + "\n"
		rows++
	}
	return
}

// hvCondense makes one blank of every run of blanks, tabs and line ends.
func hvCondense(s string) string {
	r, run := "", false
	for i := 0; i < len(s); i++ {
		if s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r' {
			if !run {
				r += " "
			}
			run = true
			continue
		}
		run = false
		r += s[i : i+1]
	}
	return r
}

// hvTrim takes white space (of ASCII) from both ends.
func hvTrim(s string) string {
	for len(s) > 0 && (s[0] == ' ' || s[0] >= 9 && s[0] <= 13) {
		s = s[1:]
	}
	for len(s) > 0 && (s[len(s)-1] == ' ' || s[len(s)-1] >= 9 && s[len(s)-1] <= 13) {
		s = s[:len(s)-1]
	}
	return s
}

func hvFlag(name string, on bool) string {
	if on {
		return "-" + name
	}
	return "-" + name + "=false"
}

// hvBook is a workbook of the older kind whose sheets hold texts; "" is a cell that is
// not there.
func hvBook(names []string, sheets [][][]string) []byte {
	var strs [][]uint16
	var xs []build.XSheet
	for k, rows := range sheets {
		var body []byte
		for r, row := range rows {
			for c, t := range row {
				if t == "" {
					continue
				}
				body = append(body, build.Rec(build.RLabelSst, build.Cell(uint16(r), uint16(c), 0), build.W32(uint32(len(strs))))...)
				var u []uint16
				for i := 0; i < len(t); i++ {
					u = append(u, uint16(t[i]))
				}
				strs = append(strs, u)
			}
		}
		xs = append(xs, build.XSheet{Name: build.U16s(names[k]), Body: body})
	}
	return build.CFB("Workbook", build.Workbook(build.SST(false, strs...), xs, nil))
}

// ToolSchedules: files and workers in every order of execution with a bounded number of
// deviations from taking turns.
func ToolSchedules() {
	vrt.NoMerge()
	n, dev := 2, 2
	ncpu := []int{4, 2, 6, 8}[vrt.Choice("cpus", 4)]
	if vrt.Thorough() {
		n = 3
	} else if ncpu != 4 {
		dev = 1
	}
	var want []hvSheet
	args := []string{"-i", "info.txt"}
	for i := 0; i < n; i++ {
		k := strconv.Itoa(i)
		name := "f" + k + ".tsv"
		c := vrt.Byte("c" + k)
		vrt.Assume(c > ' ' && c < 0x7F && c != '"')
		text := "head" + k + "\t" + string([]byte{c}) + "\n"
		args = append(args, vrt.File(name, []byte(text)))
		want = append(want, hvSheet{file: args[len(args)-1], name: name, out: text, rows: 1, cols: 2})
	}
	hvRun(ncpu, dev, args...)
	hvCheck("", want, false)
	vrt.Reach("end")
}

// ToolText: the texts of cells under every option.
func ToolText() {
	cond, trim, skip := vrt.Choice("r", 2) == 1, vrt.Choice("w", 2) == 1, vrt.Choice("b", 2) == 1
	n := 2
	if vrt.Thorough() {
		n = 4
	}
	var cells [][]string
	for i := 0; i < 2; i++ {
		s := vrt.Str("t"+strconv.Itoa(i), n)
		for j := 0; j < n; j++ {
			vrt.Assume(s[j] < 0x80)
		}
		cells = append(cells, []string{s})
	}
	cells = [][]string{{cells[0][0], "x y"}, {cells[1][0]}, {"", "end"}}
	w := hvSheet{file: vrt.File("b.xls", hvBook([]string{"S"}, [][][]string{cells})), name: "S"}
	cells[1] = []string{cells[1][0], ""}
	w.out, w.rows, w.cols = hvText(cells, cond, trim, skip)
	hvRun(2, 0, "-i", "info.txt", hvFlag("r", cond), hvFlag("w", trim), hvFlag("b", skip), w.file)
	hvCheck("", []hvSheet{w}, false)
	vrt.Reach("end")
}

// ToolGrid: sheets whose cells are there or not, with and without blank ones.
func ToolGrid() {
	cond, trim, skip := vrt.Choice("r", 2) == 1, vrt.Choice("w", 2) == 1, vrt.Choice("b", 2) == 1
	pool := []string{"", "a", " \n", "b\t c"}
	rows, cols := 3, 2
	var cells [][]string
	wide, tall := 0, 0
	for r := 0; r < rows; r++ {
		var row []string
		for c := 0; c < cols; c++ {
			k := 4
			if r == 1 || c == 1 {
				k = 2 + r%2
			}
			t := pool[vrt.Choice("cell"+strconv.Itoa(r*cols+c), k)]
			row = append(row, t)
			if t != "" {
				tall = r + 1
				if c >= wide {
					wide = c + 1
				}
			}
		}
		cells = append(cells, row)
	}
	w := hvSheet{file: vrt.File("b.xls", hvBook([]string{"S"}, [][][]string{cells})), name: "S", none: tall == 0}
	cells = cells[:tall]
	for r := range cells {
		cells[r] = cells[r][:wide]
	}
	w.out, w.rows, w.cols = hvText(cells, cond, trim, skip)
	hvRun(2, 0, "-i", "info.txt", hvFlag("r", cond), hvFlag("w", trim), hvFlag("b", skip), w.file)
	hvCheck("", []hvSheet{w}, false)
	vrt.Reach("end")
}

// ToolFiles: lists of files of all sorts, some of which cannot be read, with any number of
// processors.
func ToolFiles() {
	vrt.NoMerge()
	ncpu := []int{4, 1, 2, 3}[vrt.Choice("cpus", 4)]
	n := vrt.Choice("files", 4)
	pretend := vrt.Choice("pretend", 2) == 1
	args := []string{"-i", "info.txt"}
	old := ""
	if vrt.Choice("again", 2) == 1 { // a result file from before
		old = hvHead + "\nold\tline\n"
		args[1] = vrt.File("info.txt", []byte(old))
	}
	if pretend {
		args = append(args, "-p")
	}
	var want []hvSheet
	for i := 0; i < n; i++ {
		k := strconv.Itoa(i)
		switch vrt.Choice("file"+k, 6) {
		case 0: // the same base name in another folder
			f := vrt.File("d"+k+"/f.tsv", []byte("a"+k+"\tb\n\nc\td\n"))
			want = append(want, hvSheet{file: f, name: "f.tsv", out: "a" + k + "\tb\nc\td\n", rows: 2, cols: 2})
			args = append(args, f)
		case 1: // sheets whose names are alike, and one without values
			f := vrt.File("f"+k+".xls", hvBook([]string{"S 1", "none", "S-1"}, [][][]string{{{"x", k}}, nil, {{k}, {"", "y"}}}))
			want = append(want, hvSheet{file: f, name: "S 1", out: "x\t" + k + "\n", rows: 1, cols: 2},
				hvSheet{file: f, name: "none", none: true},
				hvSheet{file: f, name: "S-1", out: k + "\t\n\ty\n", rows: 2, cols: 2})
			args = append(args, f)
		case 2: // no such file
			f := []string{"", "no such file.xls", "no/folder/f.tsv"}[i]
			want = append(want, hvSheet{file: f, err: true})
			args = append(args, f)
		case 3: // nothing that can be read
			f := vrt.File("f"+k+".xls", build.CFB("Workbook", build.Workbook(build.Rec(0x2F, build.W16(0), build.W32(1)), nil, nil)))
			want = append(want, hvSheet{file: f, err: true})
			args = append(args, f)
		case 4: // the same file once more
			f := vrt.File("same.tsv", []byte("p\tq\nr\ts\n"))
			want = append(want, hvSheet{file: f, name: "same.tsv", out: "p\tq\nr\ts\n", rows: 2, cols: 2})
			args = append(args, f)
		case 5: // a sheet that is broken between others, in a file without extension
			x := build.XLSX{Sheets: []build.XS{{Name: "one", Body: `<sheetData><row r="2"><c r="B2" t="str"><v>v` + k + `</v></c></row></sheetData>`},
				{Name: "bad", Body: "</oops>"}, {Name: "two", Body: `<sheetData><row r="1"><c r="A1" t="str"><v>w</v></c></row></sheetData>`}}}
			f := x.File("book" + k)
			want = append(want, hvSheet{file: f, name: "one", out: "\tv" + k + "\n", rows: 1, cols: 2},
				hvSheet{file: f, name: "bad", err: true}, hvSheet{file: f, name: "two", out: "w\n", rows: 1, cols: 1})
			args = append(args, f)
		}
	}
	dev := 0
	if vrt.Thorough() {
		dev = 1
	}
	hvRun(ncpu, dev, args...)
	hvCheck(old, want, pretend)
	vrt.Reach("end")
}
