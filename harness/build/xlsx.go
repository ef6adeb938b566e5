package build

import "verifh/vrt"

const relNS = "http://schemas.openxmlformats.org/officeDocument/2006/relationships"

// XLSX holds the parts of a package; the text of a part is its complete XML.
type XLSX struct {
	Workbook string // elements in front of the sheets
	Styles   string // contents of the styleSheet element
	Strings  string // contents of the sst element
	Sheets   []XS
}

// XS is one sheet: the contents of its worksheet element, and its relationships.
type XS struct{ Name, Body, Rels string }

const xmlHead = `<?xml version="1.0" encoding="UTF-8" standalone="yes"?>` + "\n"

// Sheet is the XML of a sheet.
func Sheet(body string) string {
	return xmlHead + `<worksheet xmlns:r="` + relNS + `">` + body + `</worksheet>`
}

// Rels is the XML of a relationship part.
func Rels(body string) string { return xmlHead + `<Relationships>` + body + `</Relationships>` }

// Rel is one relationship.
func Rel(id, typ, target, more string) string {
	return `<Relationship Id="` + id + `" Type="` + relNS + `/` + typ + `" Target="` + target + `"` + more + `/>`
}

// LinkRel is the relationship of an external link.
func LinkRel(id, target string) string { return Rel(id, "hyperlink", target, ` TargetMode="External"`) }

// Parts builds the parts of the package.
func (x XLSX) Parts() []vrt.Part {
	dig := "123456789"
	rels, sheets := "", ""
	var parts []vrt.Part
	for i, s := range x.Sheets {
		n := dig[i : i+1]
		rels += Rel("rId"+n, "worksheet", "worksheets/sheet"+n+".xml", "")
		sheets += `<sheet name="` + s.Name + `" sheetId="` + n + `" r:id="rId` + n + `"/>`
		parts = append(parts, vrt.Part{Name: "xl/worksheets/sheet" + n + ".xml", Data: []byte(Sheet(s.Body))})
		if s.Rels != "" {
			parts = append(parts, vrt.Part{Name: "xl/worksheets/_rels/sheet" + n + ".xml.rels", Data: []byte(Rels(s.Rels))})
		}
	}
	if x.Styles != "" {
		rels += Rel("rIdS", "styles", "styles.xml", "")
		parts = append(parts, vrt.Part{Name: "xl/styles.xml", Data: []byte(xmlHead + `<styleSheet>` + x.Styles + `</styleSheet>`)})
	}
	if x.Strings != "" {
		rels += Rel("rIdT", "sharedStrings", "sharedStrings.xml", "")
		parts = append(parts, vrt.Part{Name: "xl/sharedStrings.xml", Data: []byte(xmlHead + `<sst>` + x.Strings + `</sst>`)})
	}
	return append([]vrt.Part{
		{Name: "_rels/.rels", Data: []byte(Rels(Rel("rId1", "officeDocument", "xl/workbook.xml", "")))},
		{Name: "xl/_rels/workbook.xml.rels", Data: []byte(Rels(rels))},
		{Name: "xl/workbook.xml", Data: []byte(xmlHead + `<workbook xmlns:r="` + relNS + `">` + x.Workbook + `<sheets>` + sheets + `</sheets></workbook>`)},
	}, parts...)
}

// File writes the package.
func (x XLSX) File(name string) string { return vrt.Zip(name, x.Parts()) }
