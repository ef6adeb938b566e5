package hxlsx

import (
	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/commonxl"
	"github.com/pbnjay/grate/xlsx"
	"verifh/build"
	"verifh/par"
	"verifh/vrt"
)

// relNS is the name space of relationships.
const relNS = "http://schemas.openxmlformats.org/officeDocument/2006/relationships"

func item(name, xml string) vrt.Part { return vrt.Part{Name: name, Data: []byte(xml)} }

func workbookXML(sheets string) string {
	return `<?xml version="1.0"?><workbook xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main" xmlns:r="` + relNS +
		`"><workbookPr/><bookViews><workbookView activeTab="1"/></bookViews><sheets>` + sheets + `</sheets><definedNames><definedName name="sheet">S!A1</definedName></definedNames></workbook>`
}

// place is a part of the package and how a part in the folder refers to it.
func place(folder string, style int, name string) (path, target string) {
	switch style {
	case 0:
		return folder + "worksheets/" + name, "worksheets/" + name
	case 1:
		return folder + "worksheets/" + name, "/" + folder + "worksheets/" + name
	case 2:
		return folder + name, name
	case 3:
		return folder + "sub/dir/" + name, "./sub/dir/" + name
	}
	if folder == "" {
		return name, "./" + name
	}
	up := folder[:len(folder)-2] // folders end with a name of one character
	return up + "other/" + name, "../other/" + name
}

// shows compares the only cell of a sheet.
func shows(src grate.Source, name, text string) {
	c := get(src, name)
	vrt.Assert(c.Next(), "a sheet has no rows")
	s := c.Strings()
	vrt.Assert(len(s) == 1 && s[0] == text, "a sheet shows the cells of another part")
	vrt.Assert(!c.Next(), "a sheet has more rows")
}

// Places: the workbook, its sheets, shared strings and styles lie anywhere in the package
// and are referred to by relative or absolute names.
func Places() {
	folder := []string{"x/", "", "a/b/"}[vrt.Choice("folder", 3)]
	doc := folder + []string{"workbook.xml", "w"}[vrt.Choice("doc", 2)]
	abs := []string{"", "/"}[vrt.Choice("abs", 2)]
	style := vrt.Choice("style", 5)
	t := symbol("t", 1, "<&]>")
	rels := ""
	add := func(id, typ string, style int, name string) string {
		path, target := place(folder, style, name)
		rels += build.Rel(id, typ, target, "")
		return path
	}
	var parts []vrt.Part
	var texts []string
	for i := 0; i < 2; i++ {
		name := []string{"s1.xml", "s2.xml"}[i]
		texts = append(texts, t+name)
		parts = append(parts, item(add("r"+id(i), "worksheet", (style+i*vrt.Choice("mix", 2))%5, name), build.Sheet(data(row("1", cell("A1", []string{"str", "s"}[i], "", v([]string{texts[0], "0"}[i])))))))
	}
	parts = append(parts, item(add("rs", "sharedStrings", (style+1)%5, "strings.xml"), `<sst><si><t>`+texts[1]+`</t></si></sst>`))
	parts = append(parts, item(add("rt", "styles", (style+2)%5, "styles.xml"), `<styleSheet><cellXfs count="1"><xf numFmtId="0"/></cellXfs></styleSheet>`))
	parts = append(parts,
		item(doc, workbookXML(`<sheet name="A" sheetId="1" r:id="r0"/><sheet name="B" sheetId="7" r:id="r1"/>`)),
		item(folder+"_rels/"+doc[len(folder):]+".rels", build.Rels(rels)),
		item("_rels/.rels", build.Rels(build.Rel("r0", "extended-properties", "docProps/app.xml", "")+build.Rel("r1", "officeDocument", abs+doc, "")+build.Rel("r2", "metadata/core-properties", "docProps/core.xml", ""))),
		item("docProps/app.xml", "<Properties/>"), item("docProps/core.xml", "<Properties/>"))
	// parts of similar names that no relationship leads to
	if k := vrt.Choice("similar", 3); k > 0 {
		var decoys []vrt.Part
		for _, p := range parts {
			name := p.Name + "~"
			if k == 2 {
				name = "old/" + p.Name
			}
			decoys = append(decoys, item(name, "<worksheet/>"))
		}
		parts = append(decoys, parts...)
	}
	if vrt.Choice("reverse", 2) == 1 {
		for i, j := 0, len(parts)-1; i < j; i, j = i+1, j-1 {
			parts[i], parts[j] = parts[j], parts[i]
		}
	}
	src, err := xlsx.Open(par.File(vrt.Zip("f.xlsx", parts)))
	vrt.Assert(err == nil, "a healthy package cannot be opened")
	shows(src, "A", texts[0])
	shows(src, "B", texts[1])
	vrt.Reach("places")
}

var perms = [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}

// Orders: sheets, relationships and parts are in any order, ids occur in several
// relationship parts, and a chart sheet is among the sheets.
func Orders() {
	sheetOf := perms[vrt.Choice("sheets", 6)] // the part of each sheet
	relOrder := perms[vrt.Choice("rels", 6)]  // the order of the relationships
	idOf := perms[vrt.Choice("ids", 6)]       // the id of each part
	attrs := vrt.Choice("attrs", 4)
	chart := []int{3, 0, 2, 1}[attrs]
	if vrt.Thorough() {
		chart = vrt.Choice("chart", 4)
	}
	t := symbol("t", 1, "<&]>\"")
	rels, sheets := "", ""
	var parts []vrt.Part
	names := []string{"one", "Two", "one "}
	for i := 0; i < 3; i++ {
		k := relOrder[i]
		rels += build.Rel("rId"+id(idOf[k]+1), "worksheet", "worksheets/sheet"+id(k+1)+".xml", "")
		if i == 1 {
			rels += build.Rel("rId4", "theme", "theme/theme1.xml", "") + build.Rel("rId5", "chartsheet", "chartsheets/sheet1.xml", "")
		}
		if i == chart {
			sheets += `<sheet name="chart" sheetId="9" r:id="rId5"/>`
		}
		rid := `"rId` + id(idOf[sheetOf[i]]+1) + `"`
		sheets += []string{
			`<sheet name="` + names[i] + `" sheetId="` + id(3-i) + `" r:id=` + rid + `/>`,
			`<sheet name="` + names[i] + `" sheetId="` + id(3-i) + `" state="` + []string{"visible", "hidden", "veryHidden"}[i] + `" r:id=` + rid + `></sheet>`,
			`<sheet r:id=` + rid + ` sheetId="` + id(i+5) + `" name="` + names[i] + `"/>`,
			"\n <sheet xmlns:d=\"" + relNS + `" name="` + names[i] + `" d:id=` + rid + ` sheetId="` + id(i+1) + "\"/>\n",
		}[attrs]
		n := "sheet" + id(i+1) + ".xml"
		parts = append(parts, item("xl/worksheets/"+n, build.Sheet(data(row("1", cell("A1", "str", "", v(t+id(i)))))+`<hyperlinks><hyperlink ref="A1" r:id="rId1"/></hyperlinks>`)),
			item("xl/worksheets/_rels/"+n+".rels", build.Rels(build.LinkRel("rId1", "http://"+t+id(i)))))
	}
	parts = append(parts, item("xl/chartsheets/sheet1.xml", "<chartsheet/>"), item("xl/theme/theme1.xml", "<theme/>"),
		item("xl/workbook.xml", workbookXML(sheets)), item("xl/_rels/workbook.xml.rels", build.Rels(rels)),
		item("_rels/.rels", build.Rels(build.Rel("rId2", "officeDocument", "xl/workbook.xml", "")+build.Rel("rId1", "metadata/core-properties", "docProps/core.xml", ""))))
	src, err := xlsx.Open(par.File(vrt.Zip("f.xlsx", parts)))
	vrt.Assert(err == nil, "a healthy package cannot be opened")
	list, err := src.List()
	vrt.Assert(err == nil, "the sheets cannot be listed")
	var other []string
	for _, n := range list {
		if n != "chart" {
			other = append(other, n)
		}
	}
	vrt.Assert(len(other) == 3 && other[0] == names[0] && other[1] == names[1] && other[2] == names[2], "other sheets are listed")
	if chart < 3 {
		_, err := src.Get("chart")
		vrt.Assert(err != nil, "a chart is read as a sheet")
		vrt.Reach("chart")
	}
	first := idOf[0] // the sheet that is fetched first
	for k := 0; k < 3; k++ {
		i := (first + k) % 3
		want := t + id(sheetOf[i])
		shows(src, names[i], want)
		c := get(src, names[i])
		c.Next()
		raw := c.(interface{ Raw() []commonxl.Cell }).Raw()
		vrt.Assert(len(raw[0]) == 4 && raw[0][3] == "http://"+want, "a link has the target of another sheet")
	}
	vrt.Reach("orders")
}

// Names: two sheets with symbolic names; only they can be fetched.
func Names() {
	var names []string
	x := build.XLSX{}
	for i := 0; i < 2; i++ {
		name, xml := "", ""
		if k := vrt.Choice("name"+id(i), len(words)+1); k < len(words) {
			name, xml = words[k].text, words[k].xml
			if name == "\"'" {
				xml = `&quot;'`
			}
			if name == "a\nb" || name == "" || name == "<v>1</v>" {
				name, xml = "x y", "x y"
			}
		} else {
			name = symbol("n"+id(i), vrt.Choice("len"+id(i), 3), "<&>\"")
			xml = name
		}
		names = append(names, name)
		x.Sheets = append(x.Sheets, build.XS{Name: xml, Body: data(row("1", cell("A1", "str", "", v("v"+id(i)))))})
	}
	vrt.Assume(names[0] != names[1])
	src, err := xlsx.Open(par.File(x.File("f.xlsx")))
	vrt.Assert(err == nil, "a healthy package cannot be opened")
	list, err := src.List()
	vrt.Assert(err == nil && len(list) == 2 && list[0] == names[0] && list[1] == names[1], "other sheets are listed")
	shows(src, names[1], "v1")
	shows(src, names[0], "v0")
	other := symbol("o", vrt.Choice("other", 3), "")
	vrt.Assume(other != names[0] && other != names[1])
	_, err = src.Get(other)
	vrt.Assert(err != nil, "an unknown sheet is opened")
	vrt.Reach("names")
}
