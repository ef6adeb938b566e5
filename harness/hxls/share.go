package hxls

import (
	"github.com/pbnjay/grate"
	"verifh/build"
	"verifh/vrt"
)

// book is a workbook with two sheets S and T with a number and a text row each.
func book(n string) (data []byte, v [2]uint32) {
	for i := range v {
		v[i] = vrt.U32(n+id(i))&^3 | 2
	}
	num := func(r uint16, x uint32) []byte { return build.Rec(build.RRK, build.Cell(r, 0, 0), build.W32(x)) }
	word := build.Rec(build.RLabelSst, build.Cell(1, 0, 0), build.W32(0))
	return build.CFB("Workbook", build.Workbook(build.SST(false, build.U16s("word"+n)), []build.XSheet{
		{Name: build.U16s("S"), Body: build.Cat(num(0, v[0]), word)},
		{Name: build.U16s("T"), Body: build.Cat(num(0, v[1]), word)},
	}, nil)), v
}

func fetch(src grate.Source, name string) grate.Collection {
	c, err := src.Get(name)
	vrt.Assert(err == nil, "a sheet cannot be fetched")
	return c
}

// at compares the current row of a sheet of a book.
func at(c grate.Collection, n string, r int, v uint32) {
	if r == 1 {
		vrt.Assert(c.Strings()[0] == "word"+n, "an iterator delivers another text")
		return
	}
	var x int64
	err := c.Scan(&x)
	vrt.Assert(err == nil && x == int64(int32(v)>>2), "an iterator delivers another value")
}

// all reads a sheet from its first row.
func all(c grate.Collection, n string, v uint32) {
	for r := 0; r < 2; r++ {
		vrt.Assert(c.Next(), "an iterator does not deliver all rows")
		at(c, n, r, v)
	}
	vrt.Assert(!c.Next(), "an iterator delivers more rows")
}

// Iterators: two iterators of the same or of another sheet of one workbook, advanced
// in any order, are independent.
func Iterators() {
	data, v := book("a")
	src := open(data)
	names := []string{"S", "T"}
	var its []grate.Collection
	var vals []uint32
	pos := make([]int, 3)
	for step := 0; step < 7; step++ {
		k := vrt.Choice("step"+id(step), len(its)+2)
		if k < 2 {
			if len(its) == 3 {
				continue
			}
			its = append(its, fetch(src, names[k]))
			vals = append(vals, v[k])
			continue
		}
		k -= 2
		more := its[k].Next()
		vrt.Assert(more == (pos[k] < 2), "an iterator ends too early or too late")
		if more {
			at(its[k], "a", pos[k], vals[k])
			pos[k]++
		}
	}
	vrt.Reach("end")
}

// Workbooks: opening, reading, and closing one workbook in any order does not change
// what another one, and the sheets fetched before, deliver.
func Workbooks() {
	d1, v1 := book("a")
	d2, v2 := book("b")
	a := open(d1)
	var b grate.Source
	early := fetch(a, "S")
	var late grate.Collection
	open1, open2 := true, false
	for step := 0; step < 5; step++ {
		switch vrt.Choice("step"+id(step), 5) {
		case 0:
			if b == nil {
				b, open2 = open(d2), true
			}
		case 1:
			if open2 {
				all(fetch(b, "T"), "b", v2[1])
				late = fetch(b, "S")
				vrt.Reach("second")
			}
		case 2:
			if open2 {
				vrt.Assert(b.Close() == nil, "a workbook cannot be closed")
				open2 = false
			}
		case 3:
			vrt.Assert(a.Close() == nil, "a workbook cannot be closed")
			open1 = false
		case 4:
			x := open(d2)
			all(fetch(x, "S"), "b", v2[0])
			x.Close()
		}
	}
	all(early, "a", v1[0])
	if open1 {
		all(fetch(a, "T"), "a", v1[1])
		list, err := a.List()
		vrt.Assert(err == nil && len(list) == 2 && list[0] == "S", "a workbook lists other sheets")
		vrt.Reach("first")
	}
	if late != nil {
		all(late, "b", v2[0])
	}
	if open2 {
		all(fetch(b, "T"), "b", v2[1])
	}
}
