package hcfb

import (
	"verifh/vrt"
)

var watched bool

// watch runs a check that also looks for files left open.
func watch(check func()) {
	watched = true
	defer func() { watched = false }()
	check()
	vrt.Reach("watched")
}

// released is called when no source is open any more.
func released() {
	if watched {
		vrt.Assert(vrt.OpenFiles() == 0, "a file is left open")
	}
}

// ReleaseHeader, ReleaseShort and ReleaseDIFAT are the checks of damaged files.
func ReleaseHeader() { watch(CrashHeader) }
func ReleaseShort()  { watch(CrashShort) }
func ReleaseDIFAT()  { watch(CrashDIFAT) }
