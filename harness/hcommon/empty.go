package hcommon

import (
	"github.com/pbnjay/grate/commonxl"
	"verifh/vrt"
)

// Empty: a sheet is empty exactly when no cell of it has a value, however it came to be.
func Empty() {
	s := &commonxl.Sheet{Formatter: &commonxl.Formatter{}}
	n := 3
	if vrt.Thorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		id := dig(i)
		switch op := vrt.Choice("op"+id, 7); op {
		case 0:
		case 1:
			s.Resize([]int{0, 1, 3, 1}[vrt.Choice("size"+id, 4)], []int{1, 1, 2, 3}[vrt.Choice("size"+id, 4)])
		default:
			row, col := vrt.Int("row"+id, 0, 2), vrt.Int("col"+id, 0, 2)
			var v interface{}
			switch op {
			case 2:
				v = vrt.I64("i" + id)
			case 3:
				v = vrt.Str("s"+id, 1)
			case 4:
				v = vrt.Bool("b" + id)
			case 5:
				v = ""
			case 6:
				v = vrt.F64("f" + id)
			}
			s.Put(row, col, v, 0)
		}
	}
	sheetEmpty(s)
}

// sheetEmpty compares IsEmpty, before and after all rows are read, with the types of all
// cells.
func sheetEmpty(s *commonxl.Sheet) {
	e := s.IsEmpty()
	vals := 0
	for s.Next() {
		for _, t := range s.Types() {
			if t != "blank" {
				vals++
			}
		}
		vrt.Assert(s.IsEmpty() == e, "reading a sheet changes whether it is empty")
	}
	vrt.Assert(e == (vals == 0), "a sheet is empty exactly without values")
	if e {
		vrt.Reach("empty")
	} else {
		vrt.Reach("values")
	}
}
