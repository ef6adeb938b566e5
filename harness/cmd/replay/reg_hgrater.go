//go:build hgrater

package main

import "verifh/hgrater"

func init() {
	all["hgrater.ToolPrint"] = hgrater.ToolPrint
}
