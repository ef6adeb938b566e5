package hcfb

import (
	"strconv"

	"github.com/pbnjay/grate/xls/cfb"
	"verifh/build"
	"verifh/vrt"
)

// drain opens a file, lists it and reads every stream to its end.
func drain(data []byte) {
	vrt.AllocLimit(40 << 20)
	d, err := cfb.Open(vrt.File("f.xls", data))
	released() // the document is in memory
	if err != nil {
		vrt.Reach("refused")
		return
	}
	names, err := d.List()
	if err != nil {
		return
	}
	vrt.Reach("opened")
	for _, n := range names {
		r, err := d.Open(n)
		if err != nil {
			vrt.Reach("stream-refused")
			continue
		}
		total := 0
		buf := make([]byte, 512)
		for i := 0; ; i++ {
			k, err := r.Read(buf)
			total += k
			vrt.Assert(total <= len(data), "a stream is longer than the file")
			if err != nil {
				break
			}
			vrt.Assert(i <= len(data), "reading a stream never ends")
		}
		vrt.Reach("stream-read")
	}
	d.Open("no such stream")
}

// symAt makes n bytes of b symbolic.
func symAt(name string, b []byte, n int) {
	for i := 0; i < n; i++ {
		b[i] = vrt.Byte(name + strconv.Itoa(i))
	}
}

// CrashHeader: every header field that selects sectors or sizes is symbolic, over a
// file of two small sectors with arbitrary leading words.
func CrashHeader() {
	h := build.CFBHeader()
	symAt("maj", h[24:], 2)
	symAt("maj2", h[26:], 2)
	symAt("shift", h[30:], 2)
	for _, o := range []int{40, build.HNumFAT, build.HFirstDir, build.HFirstMini, build.HNumMini, build.HNumDIF, build.HDIFAT} {
		build.Put32(h[o:], vrt.U32("h"+strconv.Itoa(o)))
	}
	f := append(h, make([]byte, 1024)...)
	for s := 0; s < 2; s++ {
		p := f[512+512*s:]
		for i := 0; i < 512; i++ {
			p[i] = 0xff
		}
		build.Put32(p, vrt.U32("w"+strconv.Itoa(s)+"a"))
		build.Put32(p[4:], vrt.U32("w"+strconv.Itoa(s)+"b"))
		build.Put32(p[508:], vrt.U32("w"+strconv.Itoa(s)+"z"))
	}
	drain(f)
}

// CrashShort: any file cut inside the header or inside the first sectors.
func CrashShort() {
	f := build.CFB("Workbook", make([]byte, 100))
	cuts := []int{0, 1, 7, 8, 27, 75, 511, 512, 513, 516, 1023, 1024, 1027, 1100, 1151, 1152, 1535, 1536, 1540, 2047, 2048, 2050, 2111, 2112, len(f) - 1}
	n := cuts[vrt.Choice("cut", len(cuts))]
	if n < 80 {
		drain(vrt.Bytes("raw", n))
		return
	}
	f = f[:n]
	for _, o := range []int{build.HFirstDir, build.HFirstMini, build.HDIFAT} {
		build.Put32(f[o:], vrt.U32("h"+strconv.Itoa(o)))
	}
	drain(f)
}

// CrashChains: valid header; the FAT, the mini FAT and the directory entries are symbolic.
func CrashChains() {
	h := build.CFBHeader()
	build.Put32(h[build.HNumFAT:], 1)
	build.Put32(h[build.HFirstDir:], 1)
	build.Put32(h[build.HFirstMini:], 2)
	build.Put32(h[build.HNumMini:], 1)
	build.Put32(h[build.HDIFAT:], 0)
	f := append(h, make([]byte, 512*5)...)
	fat := f[512:1024]
	mini := f[512*3 : 512*4]
	for i := 0; i < 512; i++ {
		fat[i], mini[i] = 0xff, 0xff
	}
	build.Put32(fat[4:], build.EOC)
	n := 3
	if vrt.Thorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		if i < 2 {
			build.Put32(fat[4*(i+3):], vrt.U32("fat"+strconv.Itoa(i+3)))
		}
		build.Put32(mini[4*i:], vrt.U32("mini"+strconv.Itoa(i)))
	}
	dir := f[1024:1536]
	copy(dir, build.DirEntry(build.U16s("Root Entry"), 5, vrt.U32("rstart"), uint64(vrt.U32("rsize"))))
	copy(dir[128:], build.DirEntry(build.U16s("Book"), 2, vrt.U32("sstart"), vrt.U64("ssize")))
	drain(f)
}

// CrashDir: two directory entries with symbolic name, name length, type, start and size,
// and a symbolic chain of directory sectors.
func CrashDir() {
	h := build.CFBHeader()
	build.Put32(h[build.HNumFAT:], 1)
	build.Put32(h[build.HFirstDir:], 1)
	build.Put32(h[build.HDIFAT:], 0)
	f := append(h, make([]byte, 512*3)...)
	fat := f[512:1024]
	for i := 0; i < 512; i++ {
		fat[i] = 0xff
	}
	build.Put32(fat[4:], vrt.U32("fat1"))
	build.Put32(fat[8:], vrt.U32("fat2"))
	e := build.DirEntry([]uint16{vrt.U16("c0"), vrt.U16("c1")}, 2, vrt.U32("sstart"), vrt.U64("ssize"))
	build.Put16(e[64:], vrt.U16("nlen"))
	e[66] = vrt.Byte("type")
	copy(f[1024+128*vrt.Choice("slot", 4):], e)
	drain(f)
}

// CrashBig: as CrashChains, for a stream in regular sectors and a file whose size is
// near the cutoff.
func CrashBig() {
	h := build.CFBHeader()
	build.Put32(h[build.HNumFAT:], 1)
	build.Put32(h[build.HFirstDir:], 1)
	build.Put32(h[build.HDIFAT:], 0)
	f := append(h, make([]byte, 512*10+vrt.Choice("tail", 2)*100)...)
	fat := f[512:1024]
	for i := 0; i < 512; i++ {
		fat[i] = 0xff
	}
	build.Put32(fat[4:], build.EOC)
	for i := 2; i < 9; i++ {
		build.Put32(fat[4*i:], uint32(i+1))
	}
	build.Put32(fat[4*5:], vrt.U32("fat5"))
	build.Put32(fat[4*9:], vrt.U32("fat9"))
	build.Put32(fat[4*10:], vrt.U32("fat10"))
	dir := f[1024:1536]
	copy(dir, build.DirEntry(build.U16s("Root Entry"), 5, build.EOC, 0))
	copy(dir[128:], build.DirEntry(build.U16s("Book"), 2, vrt.U32("sstart"), vrt.U64("ssize")))
	drain(f)
}

// CrashDIFAT: a chain of DIFAT sectors with symbolic links.
func CrashDIFAT() {
	h := build.CFBHeader()
	build.Put32(h[build.HNumFAT:], 1)
	build.Put32(h[build.HFirstDir:], 1)
	build.Put32(h[build.HFirstDIF:], vrt.U32("first"))
	build.Put32(h[build.HNumDIF:], vrt.U32("num"))
	f := append(h, make([]byte, 512*3)...)
	for i := 512; i < len(f); i++ {
		f[i] = 0xff
	}
	for s := 0; s < 3; s++ {
		build.Put32(f[512+512*s:], vrt.U32("e"+strconv.Itoa(s)))
		build.Put32(f[512+512*s+508:], vrt.U32("next"+strconv.Itoa(s)))
		build.Put32(f[512+512*s+4:], build.EOC)
	}
	copy(f[1024:], build.DirEntry(build.U16s("Root Entry"), 5, build.EOC, 0))
	build.Put32(f[1024:], vrt.U32("e1"))
	drain(f)
}
