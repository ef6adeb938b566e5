package htest

import (
	"strings"

	"github.com/pbnjay/grate"
	_ "github.com/pbnjay/grate/simple"
	_ "github.com/pbnjay/grate/xls"
	_ "github.com/pbnjay/grate/xlsx"

	"verifh/vrt"
)

func dump(path string, max int) {
	src, err := grate.Open(path)
	vrt.Observe("err", err == nil)
	if err != nil {
		return
	}
	names, err := src.List()
	vrt.Observe("names", names)
	for _, n := range names {
		c, err := src.Get(n)
		vrt.Observe("get", err == nil)
		if err != nil {
			continue
		}
		rows := 0
		for c.Next() {
			vrt.Observe("row", strings.Join(c.Strings(), "|"))
			vrt.Observe("ty", strings.Join(c.Types(), "|"))
			rows++
			if rows > max {
				break
			}
		}
	}
	src.Close()
}

func D1() { dump(vrt.File("basic.tsv", vrt.RealFile("/repo/testdata/basic.tsv")), 30) }
func D2() { dump(vrt.File("basic.xls", vrt.RealFile("/repo/testdata/basic.xls")), 30) }
func D3() { dump(vrt.File("basic2.xls", vrt.RealFile("/repo/testdata/basic2.xls")), 30) }
func D4() { dump(vrt.File("multi.xls", vrt.RealFile("/repo/testdata/multi_test.xls")), 30) }
func D5() { dump(vrt.Zip("basic.xlsx", vrt.RealZip("/repo/testdata/basic.xlsx")), 30) }
func D6() { dump(vrt.Zip("basic2.xlsx", vrt.RealZip("/repo/testdata/basic2.xlsx")), 30) }
func D7() { dump(vrt.Zip("multi.xlsx", vrt.RealZip("/repo/testdata/multi_test.xlsx")), 30) }
func D8() { dump(vrt.File("basic.xlsx", vrt.RealFile("/repo/testdata/basic.xlsx")), 5) }
func D9() { dump(vrt.File("testing.xls", vrt.RealFile("/repo/testdata/testing.xls")), 30) }
