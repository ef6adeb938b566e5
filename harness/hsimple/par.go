package hsimple

import "verifh/par"

// The files of these checks are read by two goroutines at the same time.
func ParTSV() { par.Run(TSVBytes) }
func ParCSV() { par.Run(CSVBytes) }

// The files of these checks are read without and with debug output.
func DebugTSV() { par.Debug(TSVBytes) }
func DebugCSV() { par.Debug(CSVBytes) }
