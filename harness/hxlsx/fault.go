package hxlsx

import (
	"strings"

	"verifh/vrt"
)

// rowsOf reads all rows of the first sheet of a package; ok is false when opening or
// fetching fails.
func intact(p []vrt.Part) bool {
	return visit(p)
}

// needed are the parts that the package cannot be read without; all parts are.
func part() (p []vrt.Part, k int) {
	p = everything().Parts()
	return p, vrt.Choice("part", len(p))
}

// Faults: a part that cannot be opened, ends early or has another checksum.
func Faults() {
	p, k := part()
	p[k].Fault = 1 + vrt.Choice("fault", 3)
	vrt.Assert(!intact(p), "a part that cannot be read completely is not reported")
}

// Cut: a part that ends after any byte.
func Cut() {
	p, k := part()
	d := string(p[k].Data)
	n := vrt.Int("n", 0, 1500)
	vrt.Assume(n < len(d))
	vrt.Reach("cut")
	p[k].Data = []byte(d[:n])
	vrt.Assert(!intact(p), "a part that ends early is not reported")
}

// CutFault: a part whose data ends early after any byte, as seen by the package.
func CutFault() {
	p, k := part()
	d := p[k].Data
	n := vrt.Int("n", 0, 1500)
	vrt.Assume(n <= len(d))
	p[k].Data, p[k].Fault = d[:n], 2+vrt.Choice("fault", 2)
	vrt.Assert(!intact(p), "a part that cannot be read completely is not reported")
}

// Breaks: a broken piece of XML at any place of a part.
func Breaks() {
	p, k := part()
	d := string(p[k].Data)
	head := strings.Index(d, "\n") + 1
	n := vrt.Int("n", head, 1500)
	vrt.Assume(n <= len(d))
	piece := []string{"</x>", "<", "<x>", "&", "\x01"}[vrt.Choice("piece", 5)]
	p[k].Data = []byte(d[:n] + piece + d[n:])
	vrt.Reach("broken")
	vrt.Assert(!intact(p), "a part with broken XML is not reported")
}

// Lost: a part that lost any of its tags.
func Lost() {
	p, k := part()
	d := string(p[k].Data)
	n := vrt.Choice("tag", 40)
	i := strings.Index(d, "\n") + 1
	for ; n > 0; n-- {
		j := strings.IndexByte(d[i+1:], '<')
		vrt.Assume(j >= 0)
		i += 1 + j
	}
	e := i + strings.IndexByte(d[i:], '>') + 1
	vrt.Assume(d[e-2] != '/')
	p[k].Data = []byte(d[:i] + d[e:])
	vrt.Reach("lost")
	vrt.Assert(!intact(p), "a part with a missing tag is not reported")
}
