package hxlsx

import (
	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/xlsx"
	"verifh/build"
	"verifh/vrt"
)

// book is a package with two sheets S and T of a text and a shared string each.
func book(n string) build.XLSX {
	body := func(s string) string {
		return data(row("1", cell("A1", "str", "", v(s+n))) + row("2", cell("A2", "s", "", v("0"))))
	}
	return build.XLSX{Strings: "<si><t>word" + n + "</t></si>", Sheets: []build.XS{{Name: "S", Body: body("s")}, {Name: "T", Body: body("t")}}}
}

func fetch(src grate.Source, name string) grate.Collection {
	c, err := src.Get(name)
	vrt.Assert(err == nil, "a sheet cannot be fetched")
	return c
}

// is compares the current row of a sheet of a book.
func is(c grate.Collection, n string, r int, s string) {
	want := s + n
	if r == 1 {
		want = "word" + n
	}
	x := c.Strings()
	vrt.Assert(len(x) == 1 && x[0] == want, "an iterator delivers another text")
}

// all reads a sheet from its first row.
func all(c grate.Collection, n, s string) {
	for r := 0; r < 2; r++ {
		vrt.Assert(c.Next(), "an iterator does not deliver all rows")
		is(c, n, r, s)
	}
	vrt.Assert(!c.Next(), "an iterator delivers more rows")
}

func openBook(n string) grate.Source {
	src, err := xlsx.Open(book(n).File(n + ".xlsx"))
	vrt.Assert(err == nil, "a healthy package cannot be opened")
	return src
}

// Iterators: up to three iterators of the sheets of one package, advanced in any order.
func Iterators() {
	src := openBook("a")
	names, vals := []string{"S", "T"}, []string{"s", "t"}
	var its []grate.Collection
	var of []string
	pos := make([]int, 3)
	for step := 0; step < 6; step++ {
		k := vrt.Choice("step"+id(step), len(its)+2)
		if k < 2 {
			if len(its) == 3 {
				continue
			}
			its = append(its, fetch(src, names[k]))
			of = append(of, vals[k])
			continue
		}
		k -= 2
		more := its[k].Next()
		vrt.Assert(more == (pos[k] < 2), "an iterator ends too early or too late")
		if more {
			is(its[k], "a", pos[k], of[k])
			pos[k]++
		}
	}
	vrt.Reach("end")
}

// Workbooks: opening, reading and closing one package in any order does not change
// what another one, and the sheets fetched before, deliver.
func Workbooks() {
	a := openBook("a")
	var b grate.Source
	early := fetch(a, "S")
	var late grate.Collection
	open1, open2 := true, false
	steps := 4
	if vrt.Thorough() {
		steps = 5
	}
	for step := 0; step < steps; step++ {
		switch vrt.Choice("step"+id(step), 4) {
		case 0:
			if b == nil {
				b, open2 = openBook("b"), true
			}
		case 1:
			if open2 {
				all(fetch(b, "T"), "b", "t")
				late = fetch(b, "S")
				vrt.Reach("second")
			}
		case 2:
			if open2 {
				vrt.Assert(b.Close() == nil, "a package cannot be closed")
				open2 = false
			}
		case 3:
			if open1 {
				vrt.Assert(a.Close() == nil, "a package cannot be closed")
				open1 = false
			}
		}
	}
	all(early, "a", "s")
	if open1 {
		all(fetch(a, "T"), "a", "t")
		all(fetch(a, "S"), "a", "s")
		list, err := a.List()
		vrt.Assert(err == nil && len(list) == 2 && list[0] == "S" && list[1] == "T", "a package lists other sheets")
		vrt.Reach("first")
	}
	if late != nil {
		all(late, "b", "s")
	}
	if open2 {
		all(fetch(b, "T"), "b", "t")
	}
}
