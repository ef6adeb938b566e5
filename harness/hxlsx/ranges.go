package hxlsx

import (
	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/commonxl"
	"verifh/build"
	"verifh/vrt"
)

func texts(rows, cols int) [][]string {
	g := make([][]string, rows)
	for i := range g {
		g[i] = make([]string, cols)
	}
	return g
}

// mark puts the markers of a range (first row, last row, first column, last column)
// into the expected texts.
func mark(grid [][]string, r [4]int) {
	for i := r[0]; i <= r[1]; i++ {
		for j := r[2]; j <= r[3]; j++ {
			switch {
			case i == r[0] && j == r[2]:
			case j == r[2] && i == r[1]:
				grid[i][j] = grate.EndRowMerged
			case j == r[2]:
				grid[i][j] = grate.ContinueRowMerged
			case j == r[3]:
				grid[i][j] = grate.EndColumnMerged
			default:
				grid[i][j] = grate.ContinueColumnMerged
			}
		}
	}
}

// show compares the texts of a whole sheet.
func show(c grate.Collection, want [][]string) {
	txt, _ := grid(c)
	for i := 0; i < len(txt) || i < len(want); i++ {
		for j := 0; i < len(txt) && j < len(txt[i]) || i < len(want) && j < len(want[i]); j++ {
			vrt.Assert(at(txt, j, i) == at(want, j, i), "a cell shows another text")
		}
	}
	vrt.Reach("shown")
}

// fill makes cells with one letter each where at says so.
func fill(grid [][]string, at func(i, j int) bool) string {
	rows := ""
	n := 0
	for i := range grid {
		cells := ""
		for j := range grid[i] {
			if at(i, j) {
				grid[i][j] = string([]byte{byte('a' + n)})
				cells += cell(ref(j, i), "str", "", v(grid[i][j]))
				n++
			} else if j%2 == 1 {
				cells += cell(ref(j, i), "", "1", "")
			}
		}
		rows += row(num(i+1), cells)
	}
	return data(rows)
}

func within(n int, k string) [4]int {
	r := [4]int{vrt.Choice("r1"+k, n), vrt.Choice("r2"+k, n), vrt.Choice("c1"+k, n), vrt.Choice("c2"+k, n)}
	vrt.Assume(r[0] <= r[1] && r[2] <= r[3])
	return r
}

func name(r [4]int) string { return ref(r[2], r[0]) + ":" + ref(r[3], r[1]) }

func merge(r ...string) string {
	s := `<mergeCells count="` + num(len(r)) + `">`
	for _, x := range r {
		s += `<mergeCell ref="` + x + `"/>`
	}
	return s + `</mergeCells>`
}

// Merged: one merged range anywhere in a sheet of 4x4 cells, with values in its
// top-left cell and outside of it.
func Merged() {
	n := 4
	r := within(n, "")
	g := texts(n, n)
	body := fill(g, func(i, j int) bool {
		return i == r[0] && j == r[2] || i < r[0] || i > r[1] || j < r[2] || j > r[3]
	})
	mark(g, r)
	d := ""
	if vrt.Choice("dims", 2) == 1 {
		d = dimension(1, n-1, n-1)
	}
	show(open(one(d+body+merge(name(r)))), g)
}

// MergedTwo: two ranges that do not overlap.
func MergedTwo() {
	n := 3
	r := [2][4]int{within(n, "a"), within(n, "b")}
	vrt.Assume(r[0][1] < r[1][0] || r[1][1] < r[0][0] || r[0][3] < r[1][2] || r[1][3] < r[0][2])
	g := texts(n, n)
	body := fill(g, func(i, j int) bool {
		for _, x := range r {
			if i == x[0] && j == x[2] {
				return true
			}
			if i >= x[0] && i <= x[1] && j >= x[2] && j <= x[3] {
				return false
			}
		}
		return true
	})
	mark(g, r[0])
	mark(g, r[1])
	show(open(one(dimension(1, n-1, n-1)+body+merge(name(r[0]), name(r[1])))), g)
}

// MergedAlone: a merged range that makes up the whole sheet, with or without cells for
// its covered part and with or without dimensions; whole columns and rows.
func MergedAlone() {
	rows, cols := vrt.Choice("rows", 3), vrt.Choice("cols", 3)
	vrt.Assume(rows+cols > 0)
	g := texts(rows+1, cols+1)
	r := [4]int{0, rows, 0, cols}
	all := vrt.Choice("cells", 2) == 1
	body := fill(g, func(i, j int) bool { return i == 0 && j == 0 })
	if !all {
		body = data(row("1", cell("A1", "str", "", v("a"))))
	}
	mark(g, r)
	switch vrt.Choice("kind", 4) {
	case 0:
		show(open(one(body+merge(name(r)))), g)
	case 1:
		show(open(one(dimension(1, cols, rows)+body+merge(name(r)))), g)
	case 2:
		show(open(one(dimension(1, cols, rows)+body+merge("A1:"+col(cols)+"1048576"))), g)
	case 3:
		show(open(one(dimension(1, cols, rows)+body+merge("A1:XFD"+num(rows+1)))), g)
	}
}

// Links: external links on cells and ranges with and without content, and links
// without a target.
func Links() {
	n := 3
	r := within(n, "")
	single := r[0] == r[1] && r[2] == r[3]
	has := vrt.Choice("has", 4)
	g := texts(n, n)
	body := fill(g, func(i, j int) bool { return (i+j)%4 < has })
	target := "http://x/" + symbol("t", 1+vrt.Choice("n", 2), "<&]>\"")
	kind := vrt.Choice("kind", 5)
	vrt.Assume(has < 2 || kind == 0)
	attr := []string{` r:id="rId1"`, ` r:id="rId1" display="shown" tooltip="tip"`, ` location="S!A1"`, ` r:id="rId9"`, ` r:id="rId2"`}[kind]
	name := name(r)
	if single && vrt.Choice("single", 2) == 1 {
		name = ref(r[2], r[0])
	}
	x := one(dimension(1, n-1, n-1) + body + `<hyperlinks><hyperlink ref="` + name + `"` + attr + `/></hyperlinks>`)
	x.Sheets[0].Rels = build.LinkRel("rId3", "other") + build.LinkRel("rId1", target) + build.Rel("rId2", "hyperlink", "internal", "")
	linked := kind < 2
	if linked {
		for i := r[0]; i <= r[1]; i++ {
			for j := r[2]; j <= r[3]; j++ {
				if g[i][j] == "" {
					g[i][j] = target
				}
			}
		}
	}
	c := open(x)
	txt, typ := grid(c)
	raw := open(x).(interface{ Raw() []commonxl.Cell })
	for i := 0; i < n; i++ {
		raw.(grate.Collection).Next()
		cells := raw.Raw()
		for j := 0; j < n; j++ {
			vrt.Assert(at(txt, j, i) == g[i][j], "a linked cell or its neighbour shows another text")
			in := linked && i >= r[0] && i <= r[1] && j >= r[2] && j <= r[3]
			vrt.Assert((at(typ, j, i) == "hyperlink") == in, "a link is on another cell")
			if in {
				vrt.Assert(len(cells[j]) == 4 && cells[j][3] == target, "a linked cell has another target")
			}
		}
	}
	vrt.Reach("links")
}

// LinkAny: a link on a cell of any kind and format leaves what it shows and holds.
func LinkAny() {
	k := vrt.Choice("k", 7)
	val := [][]string{{"0", "44000.75", "-2.5", "1e-7", "123456789"}, {"1", "0"}, {"#N/A", "#DIV/0!"}, {"0", "1"}, {"5", "a"}, {"5", "a"}, {"5"}}[k]
	text := val[vrt.Choice("val", len(val))]
	typ := []string{"", "b", "e", "s", "str", "inlineStr", "n"}[k]
	body := v(text)
	if k == 5 {
		body = "<is><t>" + text + "</t></is>"
	} else if vrt.Choice("formula", 2) == 1 {
		body = "<f>B1</f>" + body
	}
	made := func(link string) grate.Collection {
		x := one(data(row("1", cell("A1", typ, num(vrt.Choice("style", 9)), body))) + link)
		x.Strings = "<si><t>x</t></si><si><t>7</t></si>"
		x.Styles = `<numFmts count="1"><numFmt numFmtId="164" formatCode="0.0 &quot;x&quot;"/></numFmts><cellXfs>`
		for _, f := range []string{"0", "10", "14", "22", "49", "60", "164", "200"} {
			x.Styles += xf(f, "1", "")
		}
		x.Styles += "</cellXfs>"
		x.Sheets[0].Rels = build.LinkRel("rId1", "http://x/")
		return open(x)
	}
	a, b := made(""), made(`<hyperlinks><hyperlink ref="A1" r:id="rId1"/></hyperlinks>`)
	vrt.Assert(a.Next() && b.Next(), "a row is missing")
	vrt.Assert(a.Strings()[0] == b.Strings()[0], "a linked cell shows another text than without the link")
	vrt.Assert(a.Formats()[0] == b.Formats()[0], "a linked cell has another format than without the link")
	vrt.Assert(b.Types()[0] == "hyperlink", "a link is missing")
	var p, q float64
	if a.Scan(&p) == nil {
		vrt.Assert(b.Scan(&q) == nil && p == q, "a linked cell holds another number than without the link")
	}
	var s, t string
	if a.Scan(&s) == nil {
		vrt.Assert(b.Scan(&t) == nil && s == t, "a linked cell holds another text than without the link")
	}
	vrt.Assert(!b.Next(), "a row has been added")
	vrt.Reach("linked")
}

// LinkMerged: a link on a merged cell is on its first cell and leaves the markers.
func LinkMerged() {
	r := within(3, "")
	vrt.Assume(r[0] < r[1] || r[2] < r[3])
	g := texts(3, 3)
	body := fill(g, func(i, j int) bool { return i == r[0] && j == r[2] })
	mark(g, r)
	at := name(r)
	if vrt.Choice("first", 2) == 1 {
		at = ref(r[2], r[0])
	}
	x := one(body + merge(name(r)) + `<hyperlinks><hyperlink ref="` + at + `" r:id="rId1"/></hyperlinks>`)
	x.Sheets[0].Rels = build.LinkRel("rId1", "http://x")
	show(open(x), g)
}
