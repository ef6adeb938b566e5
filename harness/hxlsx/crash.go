package hxlsx

import (
	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/xlsx"
	"verifh/build"
	"verifh/par"
	"verifh/vrt"
)

// visit opens a package and reads every sheet; it tells whether all of it was fine.
func visit(parts []vrt.Part) bool {
	vrt.AllocLimit(64 << 20)
	src, err := xlsx.Open(par.File(vrt.Zip("f.xlsx", parts)))
	if err != nil {
		vrt.Reach("refused")
		released()
		return false
	}
	vrt.Reach("opened")
	list, err := src.List()
	vrt.Assert(err == nil, "an opened package cannot be listed")
	ok := true
	for _, n := range list {
		c, err := src.Get(n)
		if err != nil {
			vrt.Reach("sheet-refused")
			ok = false
			continue
		}
		read(c)
	}
	src.Get("no such sheet")
	vrt.Assert(src.Close() == nil, "an opened package cannot be closed")
	released()
	return ok
}

func read(c grate.Collection) {
	for n := 0; c.Next(); n++ {
		if n < 20 {
			c.Types()
			c.Formats()
			c.Strings()
		}
	}
	c.IsEmpty()
	c.Err()
	vrt.Reach("sheet-read")
}

// everything is a package that uses every element.
func everything() build.XLSX {
	x := one(`<dimension ref="A1:C3"/>` + data(row("1", cell("A1", "s", "1", v("0"))+cell("B1", "", "1", "<f>1</f>"+v("2"))+cell("C1", "b", "", v("1")))+
		row("3", cell("A3", "inlineStr", "", "<is><t>i</t></is>")+cell("C3", "e", "0", v("#N/A")))) +
		merge("A1:A2") + `<hyperlinks><hyperlink ref="C3" r:id="rId1"/></hyperlinks>`)
	x.Sheets[0].Rels = build.LinkRel("rId1", "http://x")
	x.Strings = "<si><t>w</t></si>"
	x.Styles = `<numFmts><numFmt numFmtId="164" formatCode="0.0"/></numFmts><cellStyleXfs>` + xf("0", "", "") + `</cellStyleXfs><cellXfs count="2">` + xf("", "", "0") + xf("164", "1", "0") + `</cellXfs>`
	return x
}

// strange are attribute values and texts that mean nothing or too much.
var strange = []string{"", "0", "-1", "1", "A", "A0", "1A", "XFE1", "A1048577", "B2:A1", "A1:B2:C3", ":", "A1:", ":A1", "R1C1", "R0C0", "R1C", "RC", "A1C2", "R99999999999C1", "Z-1",
	"AAAAAAAAAAAAAAAAAAAAAAAA1", "A99999999999999999999", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "65536", "1e999", "NaN", "é1", "a1", "$A$1", "C", "RR1"}

func odd(name string) string { return strange[vrt.Choice(name, len(strange))] }

// CrashAttr: strange values in every attribute and text of a sheet.
func CrashAttr() {
	r, s, t, val, dim, m, h := "B2", "1", "", "1", "A1:C3", "A1:B2", "A1"
	typ := []string{"", "s", "b", "inlineStr", "d", "x"}[vrt.Choice("type", 6)]
	t = typ
	set := []*string{&r, &s, &val, &dim, &m, &h}
	k := vrt.Choice("what", len(set))
	*set[k] = odd("v1")
	vrt.Assume(k == 0 || k == 2 || typ == "")
	if vrt.Thorough() {
		if k2 := vrt.Choice("what2", len(set)); k2 > k {
			*set[k2] = odd("v2")
		}
	}
	body := data(row("1", cell("A1", "", "", v("1")))+row("2", cell(r, t, s, v(val)))) + merge(m) + `<hyperlinks><hyperlink ref="` + h + `" r:id="rId1"/></hyperlinks>`
	if dim != "" {
		body = `<dimension ref="` + dim + `"/>` + body
	}
	x := everything()
	x.Sheets[0].Body = body
	visit(x.Parts())
}

// CrashRef: any short reference.
func CrashRef() {
	n := 2
	if vrt.Thorough() {
		n = 3
	}
	s := symbol("ref", 1+vrt.Choice("n", n), "<&\"")
	// digits are small: a far row takes as much memory as it says
	digits := 0
	for i := 0; i < len(s); i++ {
		if s[i] >= '0' && s[i] <= '9' {
			digits++
		}
	}
	vrt.Assume(digits <= 2)
	body := ""
	switch vrt.Choice("where", 4) {
	case 0:
		body = data(row("1", word(s)))
	case 1:
		body = `<dimension ref="` + s + `"/>` + data(row("1", word("B2")))
	case 2:
		body = data(row("1", word("A1"))) + merge(s)
	case 3:
		body = data(row("1", word("A1"))) + `<hyperlinks><hyperlink ref="` + s + `" r:id="rId1"/></hyperlinks>`
	}
	x := one(body)
	x.Sheets[0].Rels = build.LinkRel("rId1", "x")
	visit(x.Parts())
}

// CrashHuge: cells, ranges and dimensions that ask for sheets beyond all memory.
func CrashHuge() {
	body := ""
	far := []string{"XFD1048576", "XFD65536", "AAA1048576"}[vrt.Choice("far", 3)]
	switch vrt.Choice("where", 6) {
	case 0:
		body = data(row("1", word(far)))
	case 1:
		body = `<dimension ref="A1:` + far + `"/>` + data(row("1", word("B2")))
	case 2:
		body = data(row("1", word("A1"))) + merge("A1:"+far)
	case 3:
		body = data(row("1", word("A1"))) + `<hyperlinks><hyperlink ref="A1:` + far + `" r:id="rId1"/></hyperlinks>`
	case 4:
		body = data(row("1", word("XFD1"))+row("2", word("A9000"))) + merge("A1:XFD9000")
	case 5:
		body = `<dimension ref="A1:B2"/>` + data(row("1", word("A1"))) + merge("A1:"+far, "A1:XFD1", "A1:A1048576")
	}
	x := one(body)
	x.Sheets[0].Rels = build.LinkRel("rId1", "x")
	visit(x.Parts())
}

// CrashStyles: style tables with strange counts, ids, flags and order of elements.
func CrashStyles() {
	vals := []string{"2", "1", "0", "164", "1"}
	k := vrt.Choice("what", 5)
	vals[k] = odd("v")
	x := one(data(row("1", cell("A1", "", vals[4], v("1")))))
	codes := 1
	if k == 3 || vrt.Thorough() {
		codes = 7
	}
	f := `<numFmt numFmtId="` + vals[3] + `" formatCode="` + []string{"0.0", "", "yyyy", "@", ";;;;", "[", "\\"}[vrt.Choice("code", codes)] + `"/>`
	xfs := `<xf numFmtId="` + vals[1] + `" xfId="` + vals[2] + `"/>`
	c1, c2 := `<cellStyleXfs count="`+vals[0]+`">`+xfs+`</cellStyleXfs>`, `<cellXfs count="`+vals[0]+`">`+xfs+xfs+`</cellXfs>`
	x.Styles = []string{f + c1 + c2, c2 + c1 + f, c2 + c2, xfs + c1, c1 + xfs + c2 + xfs}[vrt.Choice("order", 5)]
	visit(x.Parts())
}

// CrashParts: packages without one of their parts, with parts twice, or with parts in
// place of another.
func CrashParts() {
	p := everything().Parts()
	k := vrt.Choice("part", len(p))
	switch vrt.Choice("how", 4) {
	case 0:
		p = append(p[:k:k], p[k+1:]...)
	case 1:
		p[k].Data = p[vrt.Choice("other", len(p))].Data
	case 2:
		p = append(p, vrt.Part{Name: p[k].Name, Data: []byte("<x/>")})
	case 3:
		p[k].Data = []byte([]string{"", " ", "<", "<x", "<x>", "</x>", "text", "<?xml version=\"1.0\"?>", "<x/><x/>", "<Relationship/>", "<sheet/>", "<sheet name=\"\" id=\"\"/>", "<c><c r=\"A1\">1</c></c>", "<xf/>", "<v>1</v>", "<si><si>",
			"<mergeCell/>", "<hyperlink/>", "<dimension/>", "\x00", "\xff\xfe<\x00", "<!DOCTYPE x [<!ENTITY a \"b\">]><x>&a;</x>"}[vrt.Choice("data", 22)])
	}
	visit(p)
}

// CrashRels: relationships with strange targets and types.
func CrashRels() {
	x := everything()
	p := x.Parts()
	target := []string{"", "/", "//", "/xl/workbook.xml", "../xl/workbook.xml", "xl/workbook.xml", ".", "..", "nowhere.xml", "../../../x", "_rels/.rels", "http://x/y"}[vrt.Choice("target", 12)]
	typ := []string{"officeDocument", "worksheet", "styles", "sharedStrings", "hyperlink", "other"}[vrt.Choice("type", 6)]
	k := vrt.Choice("where", 2)
	rel := build.Rel("rId1", typ, target, "")
	switch vrt.Choice("how", 3) {
	case 0:
		p[k].Data = []byte(build.Rels(rel))
	case 1:
		d := string(p[k].Data)
		p[k].Data = []byte(d[:len(d)-len("</Relationships>")] + rel + "</Relationships>")
	case 2:
		p[k].Data = []byte(build.Rels("<Relationship/>" + rel))
	}
	visit(p)
}

// CrashByte: one byte of any part replaced by any ASCII character.
func CrashByte() {
	p := everything().Parts()
	k := vrt.Choice("part", len(p))
	d := p[k].Data
	// the XML declaration is the same in all parts
	lo := 0
	if k > 0 {
		lo = 50
	}
	n := lo + vrt.Choice("at", len(d)-lo)
	if !vrt.Thorough() {
		vrt.Assume(n%4 == 1)
	}
	p[k].Data[n] = vrt.Byte("x")
	visit(p)
}
