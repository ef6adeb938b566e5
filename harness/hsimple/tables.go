// Package hsimple holds the checks of the plain-text sources.
package hsimple

import (
	"errors"
	"strings"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/simple"
	"verifh/par"
	"verifh/vrt"
)

func id(i int) string { return "0123456789abcdefghijklmnopqrstuvwxyz"[i : i+1] }

// table compares everything a collection delivers with the rows that a file holds.
func table(src grate.Source, name string, want [][]string) {
	list, err := src.List()
	vrt.Assert(err == nil && len(list) == 1 && list[0] == name, "a text file is listed under another name")
	c, err := src.Get(list[0])
	vrt.Assert(err == nil, "the listed table cannot be fetched")
	vrt.Assert(c.IsEmpty() == (len(want) == 0), "a table is empty exactly without rows")
	for _, w := range want {
		vrt.Assert(c.Next(), "rows of a file are missing")
		line(c, w)
	}
	vrt.Assert(!c.Next(), "a file has more rows")
	vrt.Assert(c.Err() == nil, "a table has an error")
	vrt.Reach("table")
}

func line(c grate.Collection, w []string) {
	s, t, f := c.Strings(), c.Types(), c.Formats()
	vrt.Assert(len(s) == len(w), "a row has another number of fields")
	vrt.Assert(len(t) == len(s) && len(f) == len(s), "the lists of a row have different lengths")
	for i := range w {
		vrt.Assert(s[i] == w[i], "a field has another text")
		kind := "string"
		if w[i] == "" {
			kind = "blank"
		}
		vrt.Assert(t[i] == kind, "a field has another type")
		vrt.Assert(f[i] == "General", "a text field has a format")
	}
}

// lines are the lines of a file: without their ends, which are LF or CRLF.
func lines(s string) (out []string) {
	start := 0
	for i := 0; i <= len(s); i++ {
		if i < len(s) && s[i] != '\n' || i == len(s) && start == i {
			continue
		}
		e := i
		if e > start && s[e-1] == '\r' {
			e--
		}
		out = append(out, s[start:e])
		start = i + 1
	}
	return
}

// tabs are the pieces between tabs.
func tabs(s string) (out []string) {
	start := 0
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] == '\t' {
			out = append(out, s[start:i])
			start = i + 1
		}
	}
	return
}

func tsv(content string) {
	src, err := simple.OpenTSV(par.File(vrt.File("f.tsv", []byte(content))))
	vrt.Assert(err == nil, "a text file is refused")
	var want [][]string
	for _, l := range lines(content) {
		want = append(want, tabs(l))
	}
	table(src, "f.tsv", want)
	vrt.Assert(src.Close() == nil, "a table cannot be closed")
}

// TSVBytes: any bytes.
func TSVBytes() {
	n := 5
	if vrt.Thorough() {
		n = 7
	}
	tsv(string(vrt.Bytes("b", vrt.Choice("n", n))))
}

// pieces is a text of up to n pieces.
func pieces(n int, list ...string) string {
	s := ""
	for i, k := 0, vrt.Choice("pieces", n+1); i < k; i++ {
		j := vrt.Choice("p"+id(i), len(list)+1)
		if j == len(list) {
			b := vrt.Byte("c" + id(i))
			for _, l := range list {
				vrt.Assume(len(l) != 1 || b != l[0])
			}
			s += string([]byte{b})
		} else {
			s += list[j]
		}
	}
	return s
}

// TSVPieces: longer texts of line ends, tabs and other characters.
func TSVPieces() {
	n := 5
	if vrt.Thorough() {
		n = 6
	}
	tsv(pieces(n, "\n", "\t", "\r\n", " x "))
}

// around is a length close to one of the buffer sizes.
func around(sizes ...int) int {
	return sizes[vrt.Choice("size", len(sizes))] + vrt.Int("more", -3, 3)
}

// TSVLong: lines around the buffer sizes, and a line too long to be read, which is an
// error.
func TSVLong() {
	n := around(4096, 8192, 65536, 70000, 200000)
	first := []string{"", "a\tb\n", "\n\n\n\n\n", strings.Repeat("ab\tc\n", 800)}[vrt.Choice("first", 4)]
	long := strings.Repeat("x", n-3) + "\t" + string(other("c")) + "z"
	content := first + long + []string{"", "\n", "\r\n", "\nlast\tline", "\nl\n"}[vrt.Choice("last", 5)]
	src, err := simple.OpenTSV(par.File(vrt.File("f.tsv", []byte(content))))
	if err != nil {
		vrt.Assert(n > 65530, "a file is refused")
		vrt.Reach("long")
		released()
		return
	}
	c, err := src.Get("f.tsv")
	vrt.Assert(err == nil, "the table cannot be fetched")
	for _, l := range lines(content) {
		vrt.Assert(c.Next(), "rows of a file are missing")
		w, s := tabs(l), c.Strings()
		vrt.Assert(len(s) == len(w), "a row has another number of fields")
		for i := range w {
			vrt.Assert(s[i] == w[i], "a field has another text")
		}
	}
	vrt.Assert(!c.Next(), "a file has more rows")
	vrt.Assert(src.Close() == nil, "a table cannot be closed")
	released()
	vrt.Reach("table")
}

// other is a byte that is neither a separator nor a quote.
func other(name string) []byte {
	b := vrt.Byte(name)
	vrt.Assume(b != '\n' && b != '\r' && b != '\t' && b != ',' && b != '"')
	return []byte{b}
}

// parse reads CSV: records of fields between commas, fields in double quotes may
// contain commas, line ends and doubled quotes, empty lines are no records, and line
// ends are LF or CRLF (read as LF inside quotes).
func parse(s string) (recs [][]string, ok bool) {
	// line ends first, and a carriage return at the very end
	t := make([]byte, 0, len(s))
	for i := 0; i < len(s); i++ {
		if s[i] == '\r' && (i+1 == len(s) || s[i+1] == '\n') {
			continue
		}
		t = append(t, s[i])
	}
	i := 0
	for i < len(t) {
		if t[i] == '\n' {
			i++
			continue
		}
		var rec []string
		for {
			f := []byte{}
			if i < len(t) && t[i] == '"' {
				i++
				for {
					if i == len(t) {
						return nil, false
					}
					if t[i] != '"' {
						f = append(f, t[i])
						i++
						continue
					}
					i++
					if i < len(t) && t[i] == '"' {
						f = append(f, '"')
						i++
						continue
					}
					break
				}
				if i < len(t) && t[i] != ',' && t[i] != '\n' {
					return nil, false
				}
			} else {
				for i < len(t) && t[i] != ',' && t[i] != '\n' {
					if t[i] == '"' {
						return nil, false
					}
					f = append(f, t[i])
					i++
				}
			}
			rec = append(rec, string(f))
			if i < len(t) && t[i] == ',' {
				i++
				continue
			}
			i++
			break
		}
		recs = append(recs, rec)
	}
	return recs, true
}

func csv(content string) {
	src, err := simple.OpenCSV(par.File(vrt.File("f.csv", []byte(content))))
	want, ok := parse(content)
	if !ok {
		vrt.Assert(err != nil && errors.Is(err, grate.ErrNotInFormat), "broken CSV is not reported as another format")
		released()
		vrt.Reach("broken")
		return
	}
	vrt.Assert(err == nil, "well-formed CSV is refused")
	table(src, "f.csv", want)
	vrt.Assert(src.Close() == nil, "a table cannot be closed")
	released()
}

// CSVBytes: any bytes.
func CSVBytes() {
	n := 5
	if vrt.Thorough() {
		n = 6
	}
	csv(string(vrt.Bytes("b", vrt.Choice("n", n))))
}

// CSVPieces: longer texts of quotes, commas, line ends and other characters.
func CSVPieces() {
	n := 5
	if vrt.Thorough() {
		n = 6
	}
	csv(pieces(n, "\n", ",", "\"", "\r\n", " x "))
}

// CSVQuoted: records of quoted and bare fields with symbolic characters.
func CSVQuoted() {
	content := ""
	var want [][]string
	rows := 1 + vrt.Choice("rows", 2)
	for i := 0; i < rows; i++ {
		var rec []string
		cols := 1 + vrt.Choice("cols"+id(i), 3)
		for j := 0; j < cols; j++ {
			if j > 0 {
				content += ","
			}
			c := string(other("c" + id(3*i+j)))
			k := vrt.Choice("kind"+id(3*i+j), 6)
			vrt.Assume(i == 0 || k < 2)
			switch k {
			case 0:
				content, rec = content+c+"#", append(rec, c+"#")
			case 1:
				content, rec = content+`"`+c+`"`, append(rec, c)
			case 2:
				content, rec = content+`"`+c+`,`+"\n"+`"`, append(rec, c+",\n")
			case 3:
				content, rec = content+`"`+c+`""`+c+`"""""`, append(rec, c+`"`+c+`""`)
			case 4:
				content, rec = content+" "+c+"\t", append(rec, " "+c+"\t")
			case 5:
				content, rec = content+`""`, append(rec, "")
			}
		}
		content += []string{"\n", "\r\n", "\n\n"}[vrt.Choice("end"+id(i), 3)]
		want = append(want, rec)
	}
	if vrt.Bool("open-end") {
		content = content[:len(content)-1]
	}
	src, err := simple.OpenCSV(par.File(vrt.File("f.csv", []byte(content))))
	vrt.Assert(err == nil, "well-formed CSV is refused")
	table(src, "f.csv", want)
}

// CSVLong: fields around the buffer sizes.
func CSVLong() {
	n := around(4096, 8192, 65536, 200000)
	q := []string{"", `"`}[vrt.Choice("quoted", 2)]
	sep := ""
	if q != "" {
		sep = ",\n"
	}
	first := []string{"", "a,b\n", strings.Repeat("ab,c\n", 800)}[vrt.Choice("first", 3)]
	c := string(other("c"))
	field := strings.Repeat("x", n-3) + sep + c
	src, err := simple.OpenCSV(par.File(vrt.File("f.csv", []byte(first+q+field+q+",z"+[]string{"", "\n", "\r\nlast,line"}[vrt.Choice("last", 3)]))))
	vrt.Assert(err == nil, "well-formed CSV is refused")
	g, err := src.Get("f.csv")
	vrt.Assert(err == nil, "the table cannot be fetched")
	rows := 0
	found := false
	for g.Next() {
		rows++
		s := g.Strings()
		if len(s) == 2 && s[1] == "z" {
			found = true
			vrt.Assert(s[0] == field, "a long field has another text")
		}
	}
	vrt.Assert(found, "a long record is missing")
	vrt.Reach("long")
}

// Shapes: tables of many rows of up to three shapes; those with few rows or with one
// shape only are accepted, and all rows of an accepted table are there.
func Shapes() {
	comma := vrt.Choice("format", 2)
	var n [3]int
	for i := range n {
		n[i] = []int{0, 1, 2, 10, 11, 12, 25, 26, 27, 100}[vrt.Choice("n"+id(i), 10)]
	}
	total := n[0] + n[1] + n[2]
	vrt.Assume(total > 0)
	sep, name, open := "\t", "f.tsv", simple.OpenTSV
	if comma == 1 {
		sep, name, open = ",", "f.csv", simple.OpenCSV
	}
	var want [][]string
	content := ""
	order := [][3]int{{0, 1, 2}, {2, 1, 0}, {1, 0, 2}}[vrt.Choice("order", 3)]
	for _, k := range order {
		l := "a"
		w := []string{"a"}
		for j := 0; j < k; j++ {
			l += sep + "b"
			w = append(w, "b")
		}
		for i := 0; i < n[k]; i++ {
			content += l + "\n"
			want = append(want, w)
		}
	}
	src, err := open(vrt.File(name, []byte(content)))
	if err != nil {
		vrt.Assert(errors.Is(err, grate.ErrNotInFormat), "a text file has an error")
		vrt.Assert(total > 25, "a small table is refused")
		vrt.Assert(n[0] != total && n[1] != total && n[2] != total, "a regular table is refused")
		vrt.Reach("declined")
		released()
		return
	}
	table(src, name, want)
	src.Close()
	released()
}

// Absent: a file that does not exist, or that is a directory.
func Absent() {
	open := simple.OpenTSV
	if vrt.Bool("csv") {
		open = simple.OpenCSV
	}
	src, err := open(vrt.File("f.txt", []byte("a\tb,c\n")) + "x")
	vrt.Assert(err != nil && src == nil, "a missing file is opened")
	vrt.Reach("missing")
}
