package hxlsx

import (
	"github.com/pbnjay/grate/xlsx"
	"verifh/par"
	"verifh/vrt"
)

var watched bool

// watch runs a check that also looks for files left open.
func watch(check func()) {
	watched = true
	defer func() { watched = false }()
	check()
	vrt.Reach("watched")
}

// released is called when no source is open any more.
func released() {
	if watched {
		vrt.Assert(vrt.OpenFiles() == 0, "a file is left open")
	}
}

// ReleaseFaults, ReleaseCut, ReleaseBreaks, ReleaseParts and ReleaseRels are the checks
// of damaged packages.
func ReleaseFaults() { watch(Faults) }
func ReleaseCut()    { watch(Cut) }
func ReleaseBreaks() { watch(Breaks) }
func ReleaseParts()  { watch(CrashParts) }
func ReleaseRels()   { watch(CrashRels) }

// ReleaseOther: files of up to 40 bytes that are no packages.
func ReleaseOther() {
	n := vrt.Choice("n", 4)
	src, err := xlsx.Open(par.File(vrt.File("f.xlsx", vrt.Bytes("b", []int{0, 1, 4, 21}[n]))))
	vrt.Assert(err != nil && src == nil, "a package is made of nothing")
	vrt.Assert(vrt.OpenFiles() == 0, "a file is left open")
	vrt.Reach("watched")
}
