package build

import "math"

// Record types of the BIFF8 format.
const (
	RFormula  = 0x0006
	REOF      = 0x000A
	RDate1904 = 0x0022
	RContinue = 0x003C
	RFilePass = 0x002F
	RCodePage = 0x0042
	RWsBool   = 0x0081
	RBound    = 0x0085
	RMulRk    = 0x00BD
	RXF       = 0x00E0
	RMerge    = 0x00E5
	RSST      = 0x00FC
	RLabelSst = 0x00FD
	RHLink    = 0x01B8
	RDims     = 0x0200
	RBlank    = 0x0201
	RNumber   = 0x0203
	RBoolErr  = 0x0205
	RString   = 0x0207
	RRow      = 0x0208
	RArray    = 0x0221
	RRK       = 0x027E
	RFormat   = 0x041E
	RShrFmla  = 0x04BC
	RBOF      = 0x0809
)

// W16 and W32 are little-endian values.
func W16(v uint16) []byte { return []byte{byte(v), byte(v >> 8)} }
func W32(v uint32) []byte { return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)} }
func W64(v uint64) []byte { return Cat(W32(uint32(v)), W32(uint32(v>>32))) }

// Cat joins pieces.
func Cat(p ...[]byte) []byte {
	var r []byte
	for _, x := range p {
		r = append(r, x...)
	}
	return r
}

// Rec is one record made of the given pieces.
func Rec(typ uint16, p ...[]byte) []byte {
	d := Cat(p...)
	return Cat(W16(typ), W16(uint16(len(d))), d)
}

// BOF begins a section: 5 globals, 0x10 sheet, 0x20 chart.
func BOF(kind uint16) []byte {
	return Rec(RBOF, W16(0x0600), W16(kind), W16(0x0DBB), W16(0x07CC), W32(0x41), W32(0x06))
}

// EOF ends a section.
func EOF() []byte { return Rec(REOF) }

// Cell is the beginning of most cell records.
func Cell(row, col, xf uint16) []byte { return Cat(W16(row), W16(col), W16(xf)) }

// Dims declares rows and columns up to but excluding the given ones.
func Dims(rows uint32, cols uint16) []byte {
	return Rec(RDims, W32(0), W32(rows), W16(0), W16(cols), W16(0))
}

// Short is a short unicode string (8-bit length).
func Short(chars []uint16, wide bool) []byte {
	return Cat([]byte{byte(len(chars))}, flagged(chars, wide))
}

// Long is a unicode string (16-bit length).
func Long(chars []uint16, wide bool) []byte {
	return Cat(W16(uint16(len(chars))), flagged(chars, wide))
}

func flagged(chars []uint16, wide bool) []byte {
	if wide {
		return Cat([]byte{1}, Chars(chars, true))
	}
	return Cat([]byte{0}, Chars(chars, false))
}

// Chars are characters in 8-bit or 16-bit form.
func Chars(chars []uint16, wide bool) []byte {
	var r []byte
	for _, c := range chars {
		if wide {
			r = append(r, W16(c)...)
		} else {
			r = append(r, byte(c))
		}
	}
	return r
}

// XSheet is one sheet of a workbook: its entry in the list and its section.
type XSheet struct {
	Name   []uint16
	Wide   bool
	Hidden byte
	Kind   byte
	Body   []byte // records between BOF and EOF
}

// Workbook assembles a workbook stream; order lists the sheets in the order of
// their sections in the stream (nil: as listed).
func Workbook(globals []byte, sheets []XSheet, order []int) []byte {
	head := Cat(BOF(5), globals)
	size := len(head) + len(EOF())
	for _, s := range sheets {
		size += 4 + 6 + len(Short(s.Name, s.Wide))
	}
	if order == nil {
		for i := range sheets {
			order = append(order, i)
		}
	}
	pos := make([]uint32, len(sheets))
	var body []byte
	for _, i := range order {
		pos[i] = uint32(size + len(body))
		body = append(body, Cat(BOF(0x10), sheets[i].Body, EOF())...)
	}
	for i, s := range sheets {
		head = append(head, Rec(RBound, W32(pos[i]), []byte{s.Hidden, s.Kind}, Short(s.Name, s.Wide))...)
	}
	return Cat(head, EOF(), body)
}

// OneSheet is a workbook file with the sheet "S".
func OneSheet(globals, body []byte) []byte {
	return CFB("Workbook", Workbook(globals, []XSheet{{Name: U16s("S"), Body: body}}, nil))
}

// SST is a shared string table of plain strings.
func SST(wide bool, strs ...[]uint16) []byte {
	d := Cat(W32(uint32(len(strs))), W32(uint32(len(strs))))
	for _, s := range strs {
		d = append(d, Long(s, wide)...)
	}
	return Rec(RSST, d)
}

// F64 is the double with the given bits.
func F64(b uint64) float64 { return math.Float64frombits(b) }
