package hcrypto

import "verifh/par"

// ParWorkbook: encrypted workbooks are read by two goroutines at the same time.
func ParWorkbook() { par.RunRaw(Workbook) }
func ParWrong()    { par.Run(WrongPassword) }

// The files of these checks are read without and with debug output.
func DebugWorkbook() { par.DebugRaw(Workbook) }
func DebugWrong()    { par.Debug(WrongPassword) }
