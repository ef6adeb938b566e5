package hxls

import (
	"verifh/vrt"
)

var watched bool

// watch runs a check that also looks for files left open.
func watch(check func()) {
	watched = true
	defer func() { watched = false }()
	check()
	vrt.Reach("watched")
}

// released is called when no source is open any more.
func released() {
	if watched {
		vrt.Assert(vrt.OpenFiles() == 0, "a file is left open")
	}
}

// ReleaseCut, ReleaseSize and ReleaseFilePass are the checks of damaged workbooks.
func ReleaseCut()      { watch(CrashCut) }
func ReleaseSize()     { watch(CrashSize) }
func ReleaseFilePass() { watch(CrashFilePass) }
