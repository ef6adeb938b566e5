// Package hcommon checks the shared spreadsheet model (package commonxl).
package hcommon

import (
	"errors"
	"time"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/commonxl"
	"verifh/vrt"
)

func dig(i int) string { return string(rune('0' + i)) }

// value is a cell value of each kind a reader stores.
func value(id string, kinds int) interface{} {
	switch vrt.Choice("kind"+id, kinds) {
	case 0:
		return vrt.I64("i" + id)
	case 1:
		return vrt.Str("s"+id, 2)
	case 2:
		return vrt.Bool("b" + id)
	case 3:
		return ""
	case 4:
		return vrt.F64("f" + id)
	default:
		return time.Unix(int64(vrt.U32("t"+id)), 0).UTC()
	}
}

func same(a, b interface{}) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case int64:
		y, ok := b.(int64)
		return ok && x == y
	case float64:
		y, ok := b.(float64)
		return ok && (x == y || x != x && y != y)
	case string:
		y, ok := b.(string)
		return ok && x == y
	case time.Time:
		y, ok := b.(time.Time)
		return ok && x.Equal(y)
	}
	return false
}

type ref struct {
	rows, cols int
	v          [8][8]interface{}
	url        [8][8]string
	has        [8][8]bool
}

// grid applies writes at symbolic positions and compares every row with a plain grid.
// mode 0: puts, sets, links and growth, mode 1: puts and growth.
func grid(ops, max, mode int) {
	s := &commonxl.Sheet{Formatter: &commonxl.Formatter{}}
	var r ref
	if k := vrt.Choice("size", 5); k > 0 {
		h, w := []int{0, 2, 1, 3}[k-1], []int{0, 1, 3, 3}[k-1]
		s.Resize(h, w)
		grow(&r, 1, 1)
		grow(&r, h, w)
	}
	for i := 0; i < ops; i++ {
		id := dig(i)
		row, col := vrt.Int("row"+id, 0, max-1), vrt.Int("col"+id, 0, max-1)
		op := vrt.Choice("op"+id, []int{6, 2}[mode])
		switch op {
		case 0, 2, 3:
			var v interface{}
			switch op {
			case 0:
				v = int64(vrt.Int("i"+id, 1, 9)) // one digit: the texts do not multiply paths
			case 2:
				v = vrt.Str("s"+id, vrt.Choice("slen"+id, 2))
			case 3:
				v = vrt.Bool("b" + id)
			}
			s.Put(row, col, v, 0)
			grow(&r, row+1, col+1)
			r.v[row][col] = v
			if v == "" {
				r.v[row][col] = nil
			}
			r.has[row][col] = false
		case 1:
			h, w := r.rows+vrt.Choice("gh"+id, 3)-1, r.cols+vrt.Choice("gw"+id, 3)-1
			s.Resize(h, w)
			cut(&r, h, w)
			grow(&r, 1, 1)
			grow(&r, h, w)
		case 4:
			v := vrt.Str("set"+id, 1)
			s.Set(row, col, v) // ignored outside the grid
			if row < r.rows && col < r.cols {
				r.v[row][col] = v
				r.has[row][col] = false
			}
		case 5:
			s.SetURL(row, col, "http://x/"+id)
			if row < r.rows && col < r.cols {
				r.url[row][col], r.has[row][col] = "http://x/"+id, true
			}
		}
	}
	for i := 0; i < r.rows; i++ {
		vrt.Assert(s.Next(), "row is missing")
		raw := s.Raw()
		vrt.Assert(len(raw) == r.cols, "row has the wrong width")
		str, typ := s.Strings(), s.Types()
		vrt.Assert(len(str) == r.cols && len(typ) == r.cols, "texts or types have the wrong width")
		for j := 0; j < r.cols; j++ {
			want := r.v[i][j]
			got := raw[j].Value()
			if want == nil && (got == nil || got == "") {
				vrt.Assert(str[j] == "", "blank cell shows text")
			} else {
				vrt.Assert(same(want, got), "cell does not hold the last value written")
				if t, ok := want.(string); ok {
					vrt.Assert(str[j] == t, "cell does not show its text")
				}
				if t, ok := want.(int64); ok {
					vrt.Assert(str[j] == string([]byte{'0' + byte(t)}), "cell does not show its number")
				}
				if t, ok := want.(bool); ok {
					vrt.Assert(str[j] == map[bool]string{true: "TRUE", false: "FALSE"}[t], "cell does not show its boolean")
				}
			}
			if r.has[i][j] {
				u, ok := raw[j].URL()
				vrt.Assert(ok && u != nil && u.String() == r.url[i][j], "link is lost")
			} else if want == nil {
				vrt.Assert(typ[j] == "blank" || typ[j] == "string", "blank cell has a type")
			}
		}
		vrt.Reach("row")
	}
	vrt.Assert(!s.Next(), "more rows than written")
	vrt.Assert(!s.Next(), "more rows after the end")
}

// cut forgets what lies outside of a smaller grid.
func cut(r *ref, rows, cols int) {
	if rows < 1 {
		rows = 1
	}
	if cols < 1 {
		cols = 1
	}
	for i := 0; i < r.rows; i++ {
		for j := 0; j < r.cols; j++ {
			if i >= rows || j >= cols {
				r.v[i][j], r.url[i][j], r.has[i][j] = nil, "", false
			}
		}
	}
	if rows < r.rows {
		r.rows = rows
	}
	if cols < r.cols {
		r.cols = cols
	}
}

// Narrower: a grid with texts in all cells is made smaller and larger in any order; what
// was cut off is blank when it comes back.
func Narrower() {
	s := &commonxl.Sheet{Formatter: &commonxl.Formatter{}}
	var r ref
	s.Resize(3, 3)
	grow(&r, 3, 3)
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			v := vrt.Str("s"+dig(i)+dig(j), 1)
			s.Put(i, j, v, 0)
			r.v[i][j] = v
		}
	}
	s.SetURL(2, 2, "http://x/")
	n := 3
	if vrt.Thorough() {
		n = 4
	}
	for k := 0; k < n; k++ {
		h, w := vrt.Choice("h"+dig(k), 4)+1, vrt.Choice("w"+dig(k), 4)+1
		s.Resize(h, w)
		cut(&r, h, w)
		grow(&r, h, w)
	}
	for i := 0; i < r.rows; i++ {
		vrt.Assert(s.Next(), "row is missing")
		str, typ := s.Strings(), s.Types()
		vrt.Assert(len(str) == r.cols && len(typ) == r.cols, "row has the wrong width")
		for j := range str {
			if want, ok := r.v[i][j].(string); ok {
				vrt.Assert(str[j] == want, "cell does not hold the last value written")
			} else {
				vrt.Assert(str[j] == "" && typ[j] == "blank", "a cell that was cut off is back")
				vrt.Reach("blank")
			}
		}
	}
	vrt.Assert(!s.Next(), "more rows than the grid has")
	vrt.Reach("resized")
}

func grow(r *ref, rows, cols int) {
	if rows > r.rows {
		r.rows = rows
	}
	if cols > r.cols {
		r.cols = cols
	}
}

func Grid2() { grid(2, 3, 0) }
func Grid3() {
	if vrt.Thorough() {
		grid(3, 3, 0)
		return
	}
	grid(3, 2, 0)
}
func Grid4() {
	if vrt.Thorough() {
		grid(5, 3, 1)
		return
	}
	grid(4, 2, 1)
}

var markers = []string{grate.ContinueColumnMerged, grate.EndColumnMerged, grate.ContinueRowMerged, grate.EndRowMerged}

// codes are some built-in format codes by id.
var codes = map[uint16]string{0: "General", 1: "0", 2: "0.00", 9: "0%", 14: "mm-dd-yy", 49: "@", 37: "#,##0 ;(#,##0)"}

// Lines checks that the four views of a row describe the same cells.
func Lines() {
	f := &commonxl.Formatter{}
	vrt.Assert(f.Add(200, `0.0"x"`) == nil, "custom format refused")
	s := &commonxl.Sheet{Formatter: f}
	if vrt.Bool("sized") {
		s.Resize(2, 3)
	} else {
		s.Put(0, 2, "", 0)
	}
	ids := []uint16{0, 1, 2, 14, 49, 200, 999}
	want := []string{"blank", "blank", "blank"}
	wfmt := make([]uint16, 3)
	first := vrt.Choice("first", 2)
	for j := first; j < first+2; j++ {
		k := vrt.Choice("what"+dig(j), 5)
		id := ids[vrt.Choice("fmt"+dig(j), len(ids))]
		switch k {
		case 0:
			want[j] = "blank"
		case 1:
			s.Put(1, j, "ab", id)
			want[j], wfmt[j] = "string", id
		case 2:
			s.Put(1, j, markers[vrt.Choice("mark"+dig(j), 4)], id)
			want[j] = "string"
		case 3:
			s.Put(1, j, 3.5, id)
			want[j], wfmt[j] = "float", id
			switch id {
			case 1:
				want[j] = "integer"
			case 14:
				want[j] = "date"
			case 49:
				want[j] = "string"
			}
		case 4:
			s.Put(1, j, "link", id)
			s.SetURL(1, j, "http://a/")
			want[j], wfmt[j] = "hyperlink", id
		}
	}
	n := 0
	for s.Next() {
		n++
		str, typ, fm, raw := s.Strings(), s.Types(), s.Formats(), s.Raw()
		vrt.Assert(len(str) == len(typ) && len(typ) == len(fm) && len(fm) == len(raw), "lists have different lengths")
		for j := range typ {
			w := "blank"
			id := uint16(0)
			if n == 2 {
				w, id = want[j], wfmt[j]
			}
			vrt.Assert(typ[j] == w, "wrong type name")
			if w == "blank" {
				vrt.Assert(str[j] == "", "blank cell is not empty")
			} else {
				vrt.Assert(str[j] != "", "cell shows nothing")
			}
			code, ok := codes[id]
			if !ok {
				code = map[uint16]string{200: "200", 999: "999"}[id]
			}
			vrt.Assert(fm[j] == code, "wrong format")
			vrt.Reach(w)
		}
	}
}

// Scan reads one row into every kind of destination.
func Scan() {
	s := &commonxl.Sheet{Formatter: &commonxl.Formatter{}}
	s.Resize(2, 2)
	early := vrt.Bool("early")
	var vals [2]interface{}
	for j := 0; j < 2; j++ {
		if vrt.Bool("put" + dig(j)) {
			vals[j] = value("v"+dig(j), 6)
			s.Put(0, j, vals[j], 0)
		}
		if vals[j] == "" {
			vals[j] = nil
		}
	}
	if !early {
		s.Next()
	}
	n := vrt.Choice("n", 4)
	var b [3]bool
	var i [3]int64
	var f [3]float64
	var t [3]string
	var d [3]time.Time
	var kinds [3]int
	args := make([]interface{}, n)
	for k := range args {
		kinds[k] = vrt.Choice("dst"+dig(k), 8)
		if k == 2 {
			vrt.Assume(kinds[k] < 2)
		}
		switch kinds[k] {
		case 0:
			args[k] = &b[k]
		case 1:
			args[k] = &i[k]
		case 2:
			args[k] = &f[k]
		case 3:
			args[k] = &t[k]
		case 4:
			args[k] = &d[k]
		case 5:
			args[k] = "text"
		case 6:
			args[k] = nil
		case 7:
			args[k] = new(int32)
		}
	}
	err := s.Scan(args...)
	if early || n > 2 {
		vrt.Assert(err != nil, "scan without a row or with too many destinations succeeded")
		return
	}
	for k := 0; k < n; k++ {
		if kinds[k] >= 5 {
			vrt.Reach("invalid")
			vrt.Assert(errors.Is(err, grate.ErrInvalidScanType), "unsupported destination without the documented error")
			return
		}
		var got interface{}
		ok := false
		switch kinds[k] {
		case 0:
			_, ok = vals[k].(bool)
			got = b[k]
		case 1:
			_, ok = vals[k].(int64)
			got = i[k]
		case 2:
			_, ok = vals[k].(float64)
			got = f[k]
		case 3:
			_, ok = vals[k].(string)
			got = t[k]
		case 4:
			_, ok = vals[k].(time.Time)
			got = d[k]
		}
		if vals[k] == nil && kinds[k] == 3 {
			vrt.Assert(err != nil || t[k] == "", "blank cell scanned as a text")
			return
		}
		if !ok {
			vrt.Reach("mismatch")
			vrt.Assert(err != nil && !errors.Is(err, grate.ErrInvalidScanType), "type mismatch not reported as such")
			return
		}
		vrt.Assert(same(vals[k], got), "scan stored another value")
		vrt.Reach("stored")
	}
	vrt.Assert(err == nil, "matching scan failed")
}

// RawCopy: cells and lists that a row returned are the caller's own: whatever is stored in
// them, the sheet delivers what was put into it.
func RawCopy() {
	s := &commonxl.Sheet{Formatter: &commonxl.Formatter{}}
	s.Resize(2, 3)
	var want [2][3]interface{}
	for i := range want {
		for j := range want[i] {
			id := dig(i) + dig(j)
			if j == 2 && i == 0 {
				continue // stays blank
			}
			if j == 1 {
				want[i][j] = vrt.Bool("b" + id)
			} else {
				want[i][j] = vrt.Str("s"+id, 1)
			}
			s.Put(i, j, want[i][j], []uint16{0, 14}[j/2])
		}
	}
	if vrt.Choice("link", 2) == 1 {
		s.SetURL(0, 0, "http://a/")
	}
	s.Next()
	t1, f1 := s.Types(), s.Formats()
	raw, str, typ, fm := s.Raw(), s.Strings(), s.Types(), s.Formats()
	j := vrt.Choice("at", 3)
	switch vrt.Choice("change", 6) {
	case 0:
		if len(raw[j]) > 0 {
			raw[j][0] = "changed"
		}
	case 1:
		raw[j].SetURL("http://changed/")
	case 2:
		if len(raw[j]) > 0 {
			raw[j].SetFormatNumber(22)
		}
	case 3:
		raw[j] = commonxl.NewCell("changed")
	case 4:
		for k := range raw[j] {
			raw[j][k] = nil
		}
	case 5:
		str[j], typ[j], fm[j] = "changed", "changed", "changed"
	}
	for i := range want {
		if i > 0 {
			vrt.Assert(s.Next(), "a row is missing")
		}
		rr, ss, tt, ff := s.Raw(), s.Strings(), s.Types(), s.Formats()
		for j := range rr {
			v := rr[j].Value()
			vrt.Assert(same(want[i][j], v) || want[i][j] == nil && v == "", "a change of a returned row changed the sheet")
			if i == 0 {
				vrt.Assert(tt[j] == t1[j] && ff[j] == f1[j], "a change of a returned row changed the type or format of a cell")
			}
			if x, ok := want[i][j].(string); ok {
				vrt.Assert(ss[j] == x, "a change of a returned row changed the text of a cell")
			}
		}
		_, link := rr[0].URL()
		vrt.Assert(link == (i == 0 && vrt.Choice("link", 2) == 1), "a change of a returned row changed a link")
	}
	vrt.Reach("kept")
}

// Modes: of several choices of the date system the last one counts.
func Modes() {
	f := &commonxl.Formatter{}
	n := vrt.Choice("n", 4)
	last := false
	for i := 0; i < n; i++ {
		last = vrt.Choice("mode"+dig(i), 2) == 1
		f.Mode1904(last)
	}
	day := vrt.Int("day", 61, 2957003)
	d := f.ConvertToDate(float64(day))
	base := int64(-2209161600)
	if last {
		base = -2082844800
	}
	vrt.Assert(d.Unix() == base+86400*int64(day), "a date counts from another day")
	vrt.Reach("date")
}
