package hxlsx

import (
	"github.com/pbnjay/grate"
	"verifh/vrt"
)

// words are texts that XML treats in some special way.
var words = []struct{ text, xml string }{
	{"", ""},
	{"a<b&c>d", "a&lt;b&amp;c&gt;d"},
	{"é", "é"},
	{"日本", "日&#26412;"},
	{"\"'", "&quot;&apos;"},
	{" lead", " lead"},
	{"trail ", "trail "},
	{"a\nb", "a\nb"},
	{"a\tb\n", "a&#9;b&#xA;"},
	{"x]]y", "x]]y"},
	{"12", "12"},
	{"TRUE", "TRUE"},
	{"😀", "&#x1F600;"},
	{"<v>1</v>", "&lt;v>1&lt;/v>"},
}

// symbol is a text of symbolic characters (ASCII).
func symbol(name string, n int, not string) string {
	b := vrt.Bytes(name, n)
	for i := range b {
		vrt.Assume(b[i] >= 0x20 && b[i] < 0x7f)
		for k := 0; k < len(not); k++ {
			vrt.Assume(b[i] != not[k])
		}
	}
	return string(b)
}

// written is a text and one of the ways to write it.
func written(name string) (text, xml string) {
	k := vrt.Choice(name, 7)
	if k == 0 {
		w := words[vrt.Choice(name+"w", len(words))]
		return w.text, w.xml
	}
	t := symbol(name+"t", 1+vrt.Choice(name+"n", 2), "<&]>")
	a, b := t[:1], t[1:]
	switch k {
	case 1:
		return t, t
	case 2:
		return t, "<![CDATA[" + t + "]]>"
	case 3:
		return t, a + "<![CDATA[" + b + "]]>"
	case 4:
		return t, "<![CDATA[" + a + "]]>" + b
	case 5:
		return t, a + "<!-- note -->" + b
	}
	return a + "&" + b, a + "&amp;" + b
}

var gaps = []string{"", "\n    ", " \t<!-- x -->\r\n"}

// textCell is a cell with the text in one of the ways that cells hold texts.
func textCell(ref, xml string) (c, strings string) {
	g := gaps[vrt.Choice("gap", len(gaps))]
	switch vrt.Choice("kind", 8) {
	case 0:
		return cell(ref, "str", "", g+v(xml)+g), ""
	case 1:
		return cell(ref, "str", "", g+"<f>CONCATENATE(B1)</f>"+g+v(xml)+g), ""
	case 2:
		return cell(ref, "inlineStr", "", g+"<is>"+g+"<t>"+xml+"</t>"+g+"</is>"+g), ""
	case 3:
		return cell(ref, "inlineStr", "", "<is>"+g+"<t xml:space=\"preserve\">"+xml+"</t>"+g+`<rPh sb="0" eb="1">`+g+"<t>hint</t></rPh>"+g+`<phoneticPr fontId="1"/></is>`), ""
	case 4:
		return cell(ref, "s", "", g+v("0")+g), "<si>" + g + "<t>" + xml + "</t>" + g + "</si>" + g + "<si><t>other</t></si>"
	case 5:
		return cell(ref, "s", "", v("1")+g), g + "<si><t>other</t></si>" + g + "<si>" + g + "<t>" + xml + "</t>" + g + `<rPh sb="0" eb="1"><t>hint</t>` + g + "</rPh>" + g + `<phoneticPr fontId="1"/></si>`
	case 6:
		return cell(ref, "e", "", g+v(xml)+g), ""
	}
	return cell(ref, "", "", g+v("w"+xml)+g), ""
}

// Texts: one cell that holds a text in any of the ways and any XML layout.
func Texts() {
	text, xml := written("text")
	c, strings := textCell("A1", xml)
	if vrt.Choice("kind", 8) == 7 {
		text = "w" + text
	}
	x := one(data(row("1", c+cell("C1", "str", "", v("z")))))
	x.Strings = strings
	txt, typ := grid(open(x))
	vrt.Assert(len(txt) == 1 && len(txt[0]) == 3, "a sheet has another size")
	vrt.Assert(txt[0][0] == text, "a cell shows another text than stored")
	vrt.Assert(typ[0][0] == "string" || text == "" && typ[0][0] == "blank", "a text cell has another type")
	vrt.Assert(txt[0][1] == "" && txt[0][2] == "z", "a neighbour shows another text")
	vrt.Reach("text")
}

// Runs: texts of several runs, inline or shared, show all of them and no hints.
func Runs() {
	g := gaps[vrt.Choice("gap", len(gaps))]
	body, text := "", ""
	n := 1 + vrt.Choice("runs", 3)
	for i := 0; i < n; i++ {
		t := symbol("t"+id(i), vrt.Choice("n"+id(i), 2), "<&]>")
		if vrt.Choice("hint"+id(i), 2) == 1 {
			body += `<rPh sb="0" eb="1">` + g + "<t>hint</t>" + g + "</rPh>" + g
		}
		body += "<r>" + g + `<rPr><b/><sz val="11"/></rPr>` + g + "<t>" + t + "</t>" + g + "</r>" + g
		text += t
	}
	x := one(data(row("1", cell("A1", "inlineStr", "", "<is>"+g+body+"</is>")+cell("B1", "str", "", v("z")))))
	if vrt.Choice("shared", 2) == 1 {
		x = one(data(row("1", cell("A1", "s", "", v("1"))+cell("B1", "s", "", v("2")))))
		x.Strings = "<si><t>no</t></si>" + g + "<si>" + g + body + "</si>" + g + "<si><t>z</t></si>"
	}
	txt, _ := grid(open(x))
	vrt.Assert(at(txt, 0, 0) == text, "a cell does not show all of its runs, or more than them")
	vrt.Assert(at(txt, 1, 0) == "z", "a neighbour shows another text")
	vrt.Reach("runs")
}

// Values: numbers, booleans, errors and cells without a value.
func Values() {
	g := gaps[vrt.Choice("gap", len(gaps))]
	f := []string{"", "<f>A2+1</f>", `<f t="shared" si="0"/>`, "<f>\n1 </f>"}[vrt.Choice("f", 4)] + g
	var body, typ string
	want, kind := "", ""
	num := 0.0
	switch k := vrt.Choice("kind", 7); k {
	case 0:
		vals := []struct {
			xml, text string
			val       float64
		}{{"1", "1", 1}, {"-2.5", "-2.5", -2.5}, {"1e3", "1000", 1000}, {"0.1", "0.1", 0.1}, {"1.5E-3", "0.0015", 0.0015}, {"0", "0", 0}, {"1234567", "", 1234567}, {"-1E+20", "", -1e20}, {"0.30000000000000004", "", 0.30000000000000004}}
		x := vals[vrt.Choice("val", len(vals))]
		typ = []string{"", "n"}[vrt.Choice("t", 2)]
		body, want, kind, num = v(x.xml), x.text, "number", x.val
	case 1:
		typ, body, want, kind = "b", v([]string{"1", "true"}[vrt.Choice("yes", 2)]), "TRUE", "boolean"
	case 2:
		typ, body, want, kind = "b", v([]string{"0", "false"}[vrt.Choice("no", 2)]), "FALSE", "boolean"
	case 3:
		want = []string{"#N/A", "#DIV/0!", "#REF!", "#NAME?"}[vrt.Choice("err", 4)]
		typ, body, kind = "e", v(want), "string"
	case 4:
		typ, body, kind = []string{"str", "n", "b", "s", "e", "inlineStr", ""}[vrt.Choice("t", 7)], "", "blank"
	case 5:
		typ, body, kind = []string{"str", "n", "b", "s", "e", "inlineStr", ""}[vrt.Choice("t", 7)], "<v></v>", "blank"
	case 6:
		typ, body, kind = "inlineStr", "<is>"+g+"<t/></is>", "blank"
	}
	x := one(data(row("1", g+cell("A1", typ, "", g+f+body+g)+g+cell("B1", "str", "", v("z"))+g) + g))
	x.Strings = "<si><t>shared</t></si>"
	c := open(x)
	vrt.Assert(c.Next(), "a row is missing")
	s, t := c.Strings(), c.Types()
	vrt.Assert(len(s) == 2 && s[1] == "z", "a neighbour shows another text")
	switch kind {
	case "number":
		vrt.Assert(t[0] == "float" || t[0] == "integer", "a number has another type")
		var f float64
		err := c.Scan(&f)
		vrt.Assert(err == nil && f == num, "a number has another value")
	case "boolean":
		vrt.Assert(t[0] == kind, "a boolean has another type")
		var b bool
		err := c.Scan(&b)
		vrt.Assert(err == nil && b == (want == "TRUE"), "a boolean has another value")
		want = s[0]
	default:
		vrt.Assert(t[0] == kind || kind == "blank" && t[0] == "string", "a cell has another type")
	}
	if want != "" || kind != "number" {
		vrt.Assert(s[0] == want, "a cell shows another text than its value")
	}
	vrt.Reach(kind)
}

// Index: every shared string index in a table of three.
func Index() {
	i := vrt.Choice("i", 3)
	names := []string{"zero", "", "two"}
	x := one(data(row("1", cell("A1", "s", "", v(num(i)))+cell("B1", "s", "", v("2")))))
	x.Strings = "<si><t>zero</t></si><si><t></t></si><si><r><t>two</t></r></si>"
	if vrt.Choice("empty", 2) == 1 {
		x.Strings = "<si><t>zero</t></si><si/><si><r><t>two</t></r></si>"
	}
	txt, _ := grid(open(x))
	vrt.Assert(at(txt, 0, 0) == names[i], "a cell shows another shared string")
	vrt.Assert(at(txt, 1, 0) == "two", "a cell shows another shared string")
	vrt.Reach("index")
}

var _ grate.Source
