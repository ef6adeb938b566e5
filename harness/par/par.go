// Package par reads the files of other harnesses several times: at the same time, or with
// and without debug output.
package par

import (
	"github.com/pbnjay/grate"
	_ "github.com/pbnjay/grate/simple"
	_ "github.com/pbnjay/grate/xls"
	_ "github.com/pbnjay/grate/xlsx"
	"verifh/vrt"
)

var on, raw, debug bool

// Run runs a check; every file it is about to open is first read by two goroutines.
func Run(check func()) {
	on = true
	defer func() { on = false }()
	check()
}

// RunRaw is Run without the texts of the cells, for symbolic numbers.
func RunRaw(check func()) {
	raw = true
	defer func() { raw = false }()
	Run(check)
}

// Debug runs a check; every file it is about to open is first read without and with debug
// output.
func Debug(check func()) {
	debug = true
	defer func() { debug = false }()
	check()
}

// DebugRaw is Debug without the texts of the cells, for symbolic numbers.
func DebugRaw(check func()) {
	raw = true
	defer func() { raw = false }()
	Debug(check)
}

// File is called with the path of a file that is about to be opened.
func File(path string) string {
	if debug {
		grate.Debug = false
		a := read(path)
		grate.Debug = true
		b := read(path)
		grate.Debug = false
		vrt.Assert(len(a) == len(b), "debug output changes what is read")
		for i := range a {
			vrt.Assert(a[i] == b[i], "debug output changes what is read")
		}
		vrt.Reach("debug")
	}
	if on {
		var got [2][]string
		vrt.Parallel(2, func(k int) { got[k] = read(path) })
		vrt.Assert(len(got[0]) == len(got[1]), "a file read twice at once differs")
		for i := range got[0] {
			vrt.Assert(got[0][i] == got[1][i], "a file read twice at once differs")
		}
		vrt.Reach("parallel")
	}
	return path
}

// read returns everything a file shows.
func read(path string) []string {
	src, err := grate.Open(path)
	if err != nil {
		return []string{err.Error()}
	}
	list, err := src.List()
	if err != nil {
		list = nil
	}
	out := append([]string{}, list...)
	for _, n := range append(list, "no such sheet") {
		c, err := src.Get(n)
		if err != nil {
			out = append(out, "error")
			continue
		}
		if c.IsEmpty() {
			out = append(out, "empty")
		}
		for c.Next() {
			if !raw {
				out = append(out, c.Strings()...)
			}
			out = append(out, c.Types()...)
			out = append(out, c.Formats()...)
			ptrs := make([]interface{}, len(c.Types()))
			for i, t := range c.Types() {
				switch t {
				case "boolean":
					ptrs[i] = new(bool)
				case "integer":
					ptrs[i] = new(int64)
				case "float":
					ptrs[i] = new(float64)
				default:
					if raw {
						continue
					}
					ptrs[i] = new(string)
				}
			}
			if raw {
				for i, p := range ptrs {
					if p == nil {
						ptrs = ptrs[:i]
						break
					}
				}
			}
			if c.Scan(ptrs...) != nil {
				out = append(out, "not scanned")
			}
		}
		if c.Err() != nil {
			out = append(out, "error")
		}
	}
	if src.Close() != nil {
		out = append(out, "not closed")
	}
	return out
}

// Same reads two files, which have to show the same.
func Same(a, b string) {
	x, y := read(a), read(b)
	vrt.Assert(len(x) == len(y), "content without cells changes what is read")
	for i := range x {
		vrt.Assert(x[i] == y[i], "content without cells changes what is read")
	}
	vrt.Reach("same")
}
