package hxlsx

import "verifh/par"

// The files of these checks are read by two goroutines at the same time.
func ParTexts()  { par.Run(Texts) }
func ParRuns()   { par.Run(Runs) }
func ParValues() { par.Run(Values) }
func ParFormat() { par.Run(Format) }
func ParMerged() { par.Run(Merged) }
func ParLinks()  { par.Run(LinkMerged) }
func ParNames()  { par.Run(Names) }
func ParPairs()  { par.Run(Pairs) }
func ParParts()  { par.Run(CrashParts) }
func ParRels()   { par.Run(CrashRels) }

// The files of these checks are read without and with debug output.
func DebugTexts()  { par.Debug(Texts) }
func DebugRuns()   { par.Debug(Runs) }
func DebugValues() { par.Debug(Values) }
func DebugFormat() { par.Debug(Format) }
func DebugMerged() { par.Debug(Merged) }
func DebugLinks()  { par.Debug(LinkMerged) }
func DebugNames()  { par.Debug(Names) }
func DebugPairs()  { par.Debug(Pairs) }
func DebugParts()  { par.Debug(CrashParts) }
func DebugRels()   { par.Debug(CrashRels) }
func DebugAttr()   { par.Debug(CrashAttr) }
func DebugByte()   { par.Debug(CrashByte) }
