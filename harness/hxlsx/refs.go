package hxlsx

import (
	"verifh/build"
	"verifh/vrt"
)

// letters is the name of any column of n letters; some of them may be given.
func letters(n int, given string) (string, int) {
	b := append([]byte(given), vrt.Bytes("col", n-len(given))...)
	c := 0
	for i := range b {
		vrt.Assume(b[i] >= 'A' && b[i] <= 'Z')
		c = c*26 + vrt.Concrete(int(b[i]-'A')) + 1
	}
	return string(b), c - 1
}

func check(x build.XLSX, c, r int) {
	txt, _ := grid(open(x))
	for i := range txt {
		for j := range txt[i] {
			if i == r && j == c {
				vrt.Assert(txt[i][j] == "x", "a cell does not show its value")
			} else if txt[i][j] != "" {
				vrt.Assert(false, "a value shows up in another cell")
			}
		}
	}
	vrt.Assert(at(txt, c, r) == "x", "a cell is missing")
	vrt.Reach("cell")
}

func dimension(i, c, r int) string {
	switch i {
	case 1:
		return `<dimension ref="A1:` + ref(c, r) + `"/>`
	case 2:
		return `<dimension ref="` + ref(c, r) + `"/>`
	case 3:
		return `<dimension ref="B1:` + ref(c+1, r+1) + `"/>`
	case 4: // too small
		return `<dimension ref="A1"/>`
	case 5: // too small
		return `<dimension ref="A1:A2"/>`
	}
	return ""
}

func word(ref string) string { return cell(ref, "str", "", v("x")) }

// Columns: every column of one or two letters, with and without declared dimensions.
func Columns() {
	n := 1 + vrt.Choice("letters", 2)
	d := vrt.Choice("dim", 6)
	vrt.Assume(n == 1 || d < 2)
	s, c := letters(n, "")
	check(one(dimension(d, c, 1)+data(row("2", word(s+"2")))), c, 1)
}

// ColumnsFar: columns of three letters up to XFD, and none beyond it.
func ColumnsFar() {
	given := ""
	if !vrt.Thorough() {
		given = []string{"AA", "AZ", "CV", "XE", "XF", "XG", "YA", "ZZ"}[vrt.Choice("given", 8)]
	}
	s, c := letters(3, given)
	x := one(data(row("1", word(s+"1"))))
	if c < 16384 {
		check(x, c, 0)
		return
	}
	txt, _ := grid(open(x))
	vrt.Assert(len(txt) == 0, "a cell beyond the last column is shown")
	vrt.Reach("beyond")
}

// Rows: rows of up to three digits, some larger ones, and none beyond the last.
func Rows() {
	var s string
	n := 0
	if k := vrt.Choice("digits", 5); k < 2 || k == 2 && vrt.Thorough() {
		b := vrt.Bytes("row", k+1)
		for i := range b {
			vrt.Assume(b[i] >= '0' && b[i] <= '9' && (i > 0 || b[i] > '0'))
			n = n*10 + vrt.Concrete(int(b[i]-'0'))
		}
		s = string(b)
	} else if k < 4 {
		n = []int{100, 127, 128, 255, 256, 257, 999, 1000, 1024, 1025, 4096, 10000}[vrt.Choice("list", 12)]
		s = num(n)
	} else {
		s = []string{"1048577", "4294967297", "18446744073709551617", "99999999999999999999999"}[vrt.Choice("list", 4)]
		txt, _ := grid(open(one(data(row(s, word("A"+s))))))
		vrt.Assert(len(txt) == 0, "a cell beyond the last row is shown")
		vrt.Reach("beyond")
		return
	}
	c := vrt.Choice("col", 2) * 27
	check(one(dimension(vrt.Choice("dim", 3), c, n-1)+data(row(s, word(ref(c, 0)[:1+c/27]+s)))), c, n-1)
}

// Pairs: two cells at any two positions, in any order, with any declared dimensions.
func Pairs() {
	var c, r [2]int
	for k := range c {
		c[k], r[k] = vrt.Choice("c"+id(k), 3), vrt.Choice("r"+id(k), 3)
	}
	vrt.Assume(c[0] != c[1] || r[0] != r[1])
	rows := row(num(r[0]+1), word(ref(c[0], r[0]))) + row(num(r[1]+1), cell(ref(c[1], r[1]), "str", "", v("y")))
	if r[0] == r[1] {
		rows = row(num(r[0]+1), word(ref(c[0], r[0]))+cell(ref(c[1], r[1]), "str", "", v("y")))
	}
	txt, typ := grid(open(one(dimension(vrt.Choice("dim", 6), 2, 2) + data(rows))))
	for i := 0; i < 5; i++ {
		for j := 0; j < 5; j++ {
			want, kind := "", "blank"
			if c[0] == j && r[0] == i {
				want, kind = "x", "string"
			} else if c[1] == j && r[1] == i {
				want, kind = "y", "string"
			}
			vrt.Assert(at(txt, j, i) == want, "a cell shows another value")
			vrt.Assert(at(typ, j, i) == kind || at(typ, j, i) == "" && want == "", "a cell has another type")
		}
	}
	vrt.Reach("pair")
}

// Declared: a declared dimension alone gives the size of the sheet.
func Declared() {
	c, r := vrt.Choice("c", 4), vrt.Choice("r", 4)
	vrt.Assume(c+r > 0)
	g := open(one(dimension(1, c, r) + data("")))
	n := 0
	for ; g.Next(); n++ {
		vrt.Assert(len(g.Strings()) == c+1, "a sheet has other columns than declared")
	}
	vrt.Assert(n == r+1, "a sheet has other rows than declared")
	vrt.Reach("declared")
}

// Follow: rows without an index and cells without a reference stand behind the ones before.
func Follow() {
	d, most := vrt.Choice("dim", 2), 2
	if vrt.Thorough() {
		d, most = vrt.Choice("dims", 6), 3
	}
	want := map[[2]int]string{}
	rows, r, far := "", -1, 0
	n := 1 + vrt.Choice("rows", 2)
	for i := 0; i < n; i++ {
		attr := ""
		switch vrt.Choice("row"+id(i), 3) {
		case 0:
			r++
		case 1:
			r++
			attr = ` r="` + num(r+1) + `"`
		case 2:
			r += 3
			attr = ` r="` + num(r+1) + `"`
		}
		cells, c := "", -1
		m := 1 + vrt.Choice("cells"+id(i), most-i)
		for j := 0; j < m; j++ {
			k := id(i) + id(j)
			t := string([]byte{vrt.Byte("t" + k)})
			vrt.Assume(t >= "a" && t <= "z")
			switch vrt.Choice("cell"+k, 4) {
			case 0: // no reference
				c++
				cells += `<c t="str">` + v(t) + `</c>`
			case 1: // a reference
				c++
				cells += cell(ref(c, r), "str", "", v(t))
			case 2: // a reference behind a gap
				c += 2
				cells += cell(ref(c, r), "str", "", v(t))
			case 3: // a place without value
				c++
				cells += `<c s="0"/>`
				t = ""
			}
			if t != "" {
				want[[2]int{r, c}] = t
			}
			if c > far {
				far = c
			}
		}
		rows += `<row` + attr + ` spans="1:3">` + cells + `</row>`
	}
	txt, _ := grid(open(one(dimension(d, far, r) + data(rows))))
	shown := 0
	for i := range txt {
		for j := range txt[i] {
			if w, ok := want[[2]int{i, j}]; ok {
				vrt.Assert(txt[i][j] == w, "a cell that follows another shows another value")
				shown++
			} else {
				vrt.Assert(txt[i][j] == "", "a value shows up in another cell")
			}
		}
	}
	vrt.Assert(shown == len(want), "a cell that follows another is missing")
	vrt.Reach("follow")
}

// FollowEnd: nothing follows the last column and the last row.
func FollowEnd() {
	last := "1048576"
	body := `<row r="1"><c r="XFD1" t="str"><v>x</v></c><c t="str"><v>no</v></c></row>`
	if vrt.Choice("rows", 2) == 1 {
		body = `<row r="` + last + `"/><row><c t="str"><v>no</v></c></row><row r="1"><c r="B1"/><c/><c t="str"><v>x</v></c></row>`
	}
	txt, _ := grid(open(one(data(body))))
	vrt.Assert(len(txt) == 1, "a cell beyond the last row is shown")
	for _, s := range txt[0][:len(txt[0])-1] {
		vrt.Assert(s == "", "a value shows up in another cell")
	}
	vrt.Assert(txt[0][len(txt[0])-1] == "x", "a cell is missing")
	vrt.Reach("end")
}
