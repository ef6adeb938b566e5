//go:build htool

package main

import "verifh/htool"

func init() {
	all["htool.ToolSchedules"] = htool.ToolSchedules
	all["htool.ToolText"] = htool.ToolText
	all["htool.ToolGrid"] = htool.ToolGrid
	all["htool.ToolFiles"] = htool.ToolFiles
}
