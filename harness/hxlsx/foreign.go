package hxlsx

import (
	"verifh/par"
	"verifh/vrt"
)

// elements lists where the elements of a part begin and where elements of elements end.
func elements(s string) (at []int) {
	for i := 1; i < len(s); i++ {
		if s[i-1] == '<' && s[i] != '?' && s[i] != '!' && (s[i] != '/' || s[i-2] == '>') {
			at = append(at, i-1)
		}
	}
	return
}

// plainText is n bytes of text without markup.
func plainText(name string, n int) string {
	b := vrt.Bytes(name, n)
	for _, c := range b {
		vrt.Assume(c >= ' ' && c < 0x7f && c != '<' && c != '>' && c != '&' && c != '"' && c != '\'' && c != '-' && c != '?')
	}
	return string(b)
}

// Foreign: elements, attributes, comments and instructions that are not known, at any place
// of any part between the elements, with any text.
func Foreign() {
	plain := everything().Parts()
	parts := append([]vrt.Part{}, plain...)
	k := vrt.Choice("part", len(parts))
	s := string(parts[k].Data)
	at := elements(s)
	i := at[vrt.Choice("element", len(at))]
	n := []string{"other", "x14ac:other", "rr", "uid", "idx", "refs", "bt"}[vrt.Choice("name", 7)]
	t := plainText("text", 2)
	var f string
	how := vrt.Choice("how", 7)
	vrt.Assume(how < 4 || n == "other")
	vrt.Assume(how == 3 || len(n) > 4)
	switch how {
	case 0:
		f = "<" + n + ` a="` + t + `" ref="B2" Id="z"/>`
	case 1:
		f = "<" + n + `>` + t + "</" + n + ">"
	case 2:
		f = "<" + n + `><more Target="` + t + `">` + t + "</more></" + n + ">"
	case 3: // an attribute of the element
		vrt.Assume(s[i+1] != '/')
		j := i + 1
		for s[j] != ' ' && s[j] != '>' && s[j] != '/' {
			j++
		}
		i, f = j, " "+n+`="`+t+`"`
		if vrt.Choice("more", 2) == 1 {
			f += ` o1="" o2="2" o3="r"`
		}
	case 4:
		f = "<!--" + t + `<c r="A1"><v>7</v></c><row/>-->`
	case 5:
		f = "<?other " + t + "?>"
	case 6:
		f = []string{"\r\n", "\t ", "\n\n  "}[vrt.Choice("space", 3)]
	}
	if how < 3 {
		// inside the root
		vrt.Assume(i != at[0])
	}
	parts[k] = vrt.Part{Name: parts[k].Name, Data: []byte(s[:i] + f + s[i:])}
	par.Same(vrt.Zip("f.xlsx", plain), vrt.Zip("g.xlsx", parts))
}

// ForeignPart: a part that nothing refers to, of any name beside the others.
func ForeignPart() {
	plain := everything().Parts()
	k := vrt.Choice("at", len(plain)+1)
	names := []string{"xl/worksheets/sheet9.xml", "xl/sharedStrings2.xml", "docProps/app.xml", "xl/worksheets/", "xl/media/image1.png", "workbook.xml", "sheet1.xml", "xl/worksheets/_rels/sheet9.xml.rels", "customXml/item1.xml", "XL/other.xml"}
	p := vrt.Part{Name: names[vrt.Choice("name", len(names))], Data: vrt.Bytes("data", 6)}
	if vrt.Choice("xml", 2) == 1 {
		p.Data = []byte(`<worksheet><sheetData><row r="1"><c r="A1"><v>` + plainText("v", 1) + `</v></c></row></sheetData></worksheet>`)
	}
	parts := append(append(append([]vrt.Part{}, plain[:k]...), p), plain[k:]...)
	par.Same(vrt.Zip("f.xlsx", plain), vrt.Zip("g.xlsx", parts))
}
