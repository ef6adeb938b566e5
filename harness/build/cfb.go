// Package build assembles valid input files for the harnesses. It is written from the
// published file formats, not from the code under test.
package build

// Put16, Put32 and Put64 store little-endian values.
func Put16(b []byte, v uint16) { b[0], b[1] = byte(v), byte(v>>8) }
func Put32(b []byte, v uint32) {
	b[0], b[1], b[2], b[3] = byte(v), byte(v>>8), byte(v>>16), byte(v>>24)
}
func Put64(b []byte, v uint64) {
	Put32(b, uint32(v))
	Put32(b[4:], uint32(v>>32))
}

const (
	Free = 0xFFFFFFFF
	EOC  = 0xFFFFFFFE
	FATs = 0xFFFFFFFD
	DIFs = 0xFFFFFFFC
)

// CFBHeader is a valid version 3 header (512 bytes) with an empty DIFAT.
func CFBHeader() []byte {
	h := make([]byte, 512)
	Put64(h, 0xe11ab1a1e011cfd0)
	Put16(h[24:], 0x3e)
	Put16(h[26:], 3)
	Put16(h[28:], 0xfffe)
	Put16(h[30:], 9)
	Put16(h[32:], 6)
	Put32(h[56:], 4096)
	Put32(h[60:], EOC) // first mini FAT sector
	Put32(h[68:], EOC) // first DIFAT sector
	for i := 0; i < 109; i++ {
		Put32(h[76+4*i:], Free)
	}
	return h
}

// Offsets of header fields.
const (
	HNumFAT    = 44
	HFirstDir  = 48
	HFirstMini = 60
	HNumMini   = 64
	HFirstDIF  = 68
	HNumDIF    = 72
	HDIFAT     = 76
)

// DirEntry is a 128 byte directory entry.
func DirEntry(name []uint16, typ byte, start uint32, size uint64) []byte {
	e := make([]byte, 128)
	for i, c := range name {
		Put16(e[2*i:], c)
	}
	if typ != 0 {
		Put16(e[64:], uint16(2*len(name)+2))
	}
	e[66] = typ
	e[67] = 1
	Put32(e[68:], Free)
	Put32(e[72:], Free)
	Put32(e[76:], Free)
	Put32(e[116:], start)
	Put64(e[120:], size)
	return e
}

// U16s turns ASCII text into UTF-16.
func U16s(s string) []uint16 {
	var r []uint16
	for i := 0; i < len(s); i++ {
		r = append(r, uint16(s[i]))
	}
	return r
}

// CFB wraps one stream into a minimal valid compound file.
func CFB(stream string, data []byte) []byte {
	h := CFBHeader()
	// sector 0: FAT, sector 1: directory, sector 2: mini FAT or nothing, then data
	n := (len(data) + 511) / 512
	mini := len(data) < 4096
	fatn := (n + 3 + 127) / 128
	for (n+2+fatn+127)/128 > fatn {
		fatn++
	}
	fat := make([]byte, 512*fatn)
	for i := range fat {
		fat[i] = 0xff
	}
	dirs := fatn
	minis := fatn + 1
	first := fatn + 2
	for i := 0; i < fatn; i++ {
		Put32(fat[4*i:], FATs)
		Put32(h[HDIFAT+4*i:], uint32(i))
	}
	Put32(h[HNumFAT:], uint32(fatn))
	Put32(fat[4*dirs:], EOC)
	Put32(h[HFirstDir:], uint32(dirs))
	start := uint32(EOC)
	for i := 0; i < n; i++ {
		if i == n-1 {
			Put32(fat[4*(first+i):], EOC)
		} else {
			Put32(fat[4*(first+i):], uint32(first+i+1))
		}
		start = uint32(first)
	}
	minifat := make([]byte, 512)
	for i := range minifat {
		minifat[i] = 0xff
	}
	var root, st []byte
	if mini {
		Put32(fat[4*minis:], EOC)
		Put32(h[HFirstMini:], uint32(minis))
		Put32(h[HNumMini:], 1)
		m := (len(data) + 63) / 64
		for i := 0; i < m; i++ {
			if i == m-1 {
				Put32(minifat[4*i:], EOC)
			} else {
				Put32(minifat[4*i:], uint32(i+1))
			}
		}
		root = DirEntry(U16s("Root Entry"), 5, start, uint64(64*m))
		st = DirEntry(U16s(stream), 2, 0, uint64(len(data)))
	} else {
		root = DirEntry(U16s("Root Entry"), 5, EOC, 0)
		st = DirEntry(U16s(stream), 2, start, uint64(len(data)))
	}
	Put32(root[76:], 1)
	out := append([]byte{}, h...)
	out = append(out, fat...)
	out = append(out, root...)
	out = append(out, st...)
	out = append(out, make([]byte, 256)...)
	out = append(out, minifat...)
	out = append(out, data...)
	for len(out)%512 != 0 {
		out = append(out, 0)
	}
	return out
}
