package hxls

import (
	"verifh/build"
	"verifh/par"
	"verifh/vrt"
)

// The files of these checks are read by two goroutines at the same time.
func ParKinds()    { par.RunRaw(CellKinds) }
func ParFormulas() { par.RunRaw(FormulaPairs) }
func ParTable()    { par.Run(TableLast) }
func ParMerged()   { par.Run(Merged) }
func ParLinks()    { par.Run(LinkRange) }
func ParLink()     { par.Run(LinkNumber) }
func ParStyles()   { par.Run(Styles) }
func ParDates()    { par.Run(DateText) }
func ParNames()    { par.RunRaw(Names) }
func ParCut()      { par.Run(CrashCut) }
func ParLinkCut()  { par.Run(CrashLinkShort) }
func ParBroken()   { par.Run(CrashFilePass) }

func ParByte()   { par.Run(CrashByte) }
func ParResult() { par.RunRaw(CrashResult) }
func ParIndex()  { par.RunRaw(CrashIndex) }

// ParErrors: cells of booleans and errors of any code, valid or not.
func ParErrors() {
	par.Run(errors)
}

// DebugErrors is the same with debug output.
func DebugErrors() { par.Debug(errors) }

func errors() {
	rec := build.Rec(build.RBoolErr, build.Cell(0, 0, 0), []byte{vrt.Byte("v"), vrt.Byte("e")})
	if vrt.Choice("kind", 2) == 1 {
		rec = build.Rec(build.RFormula, build.Cell(0, 0, 0), []byte{vrt.Byte("k"), 0, vrt.Byte("v"), 0, 0, 0, 0xff, 0xff}, make([]byte, 8))
	}
	visit(build.Workbook(nil, []build.XSheet{{Name: build.U16s("S"), Body: rec}}, nil), false)
}

// The files of these checks are read without and with debug output.
func DebugKinds()    { par.DebugRaw(CellKinds) }
func DebugFormulas() { par.DebugRaw(FormulaPairs) }
func DebugTable()    { par.Debug(TableLast) }
func DebugMerged()   { par.Debug(Merged) }
func DebugLinks()    { par.Debug(LinkRange) }
func DebugLink()     { par.Debug(LinkNumber) }
func DebugStyles()   { par.Debug(Styles) }
func DebugDates()    { par.Debug(DateText) }
func DebugNames()    { par.DebugRaw(Names) }
func DebugCut()      { par.Debug(CrashCut) }
func DebugLinkCut()  { par.Debug(CrashLinkShort) }
func DebugBroken()   { par.Debug(CrashFilePass) }
func DebugByte()     { par.Debug(CrashByte) }
func DebugResult()   { par.DebugRaw(CrashResult) }
func DebugIndex()    { par.DebugRaw(CrashIndex) }
func DebugType()     { par.DebugRaw(CrashType) }

// DebugRecords: a record of any type among the globals or the cells.
func DebugRecords() {
	t := vrt.U16("type")
	rec := build.Rec(t, make([]byte, 20*vrt.Choice("data", 2)))
	g, b := table(), build.Rec(build.RBlank, build.Cell(0, 0, 0))
	where := vrt.Choice("where", 3)
	if vrt.Thorough() {
		vrt.Assume(t < 0x1100)
	} else {
		vrt.Assume(t < 0x100)
	}
	switch where {
	case 0:
		g = append(rec, g...)
	case 1:
		b = append(b, rec...)
	case 2:
		b = build.Cat(build.BOF(0x20), rec, build.EOF(), b)
	}
	par.DebugRaw(func() {
		visit(build.Workbook(g, []build.XSheet{{Name: build.U16s("S"), Body: b}}, nil), false)
	})
}
