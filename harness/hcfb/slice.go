package hcfb

import (
	"io"

	"github.com/pbnjay/grate/xls/cfb"
	"verifh/vrt"
)

// sliceOps drives a SliceReader and a flat reference file through the same calls.
func sliceOps(nslices, maxlen, ops, maxread int) {
	var flat []byte
	sr := &cfb.SliceReader{}
	for i := 0; i < nslices; i++ {
		n := vrt.Choice("len"+string(rune('0'+i)), maxlen+1)
		b := vrt.Bytes("d"+string(rune('0'+i)), n)
		sr.Data = append(sr.Data, b)
		flat = append(flat, b...)
	}
	pos := 0
	for i := 0; i < ops; i++ {
		id := string(rune('0' + i))
		if vrt.Bool("seek" + id) {
			off := vrt.I64("off" + id)
			wh := vrt.Choice("wh"+id, 3)
			got, err := sr.Seek(off, wh)
			base := int64(0)
			switch wh {
			case io.SeekCurrent:
				base = int64(pos)
			case io.SeekEnd:
				base = int64(len(flat))
			}
			want := base + off
			over := off > 0 && want < 0
			if want >= 0 && want <= int64(len(flat)) && !over {
				vrt.Reach("seek-inside")
				vrt.Assert(err == nil, "seek to a position inside the stream failed")
				vrt.Assert(got == want, "seek returned the wrong position")
				pos = vrt.Concrete(int(want))
			} else if want < 0 && !over {
				vrt.Reach("seek-before")
				vrt.Assert(err != nil, "seek before the start succeeded")
			} else if err == nil {
				// beyond the end: every later read must find nothing
				var b [1]byte
				n, rerr := sr.Read(b[:])
				vrt.Assert(n == 0 && rerr == io.EOF, "data read beyond the end")
				return
			}
			continue
		}
		n := vrt.Choice("n"+id, maxread+1)
		buf := make([]byte, n)
		k, err := sr.Read(buf)
		vrt.Assert(k >= 0 && k <= n && k <= len(flat)-pos, "read returned more than there is")
		for j := 0; j < k; j++ {
			vrt.Assert(buf[j] == flat[pos+j], "read returned wrong bytes")
		}
		if pos == len(flat) {
			vrt.Reach("read-at-end")
			vrt.Assert(n == 0 || err == io.EOF, "no end of file at the end")
		} else {
			vrt.Reach("read-inside")
			vrt.Assert(err == nil, "error or end of file before the end")
			vrt.Assert(n == 0 || k > 0, "empty read before the end")
		}
		pos += k
	}
	// the rest must be exactly what is left
	p, err := sr.Seek(0, io.SeekCurrent)
	vrt.Assert(err == nil && p == int64(pos), "current position is wrong")
	rest, err := io.ReadAll(sr)
	vrt.Assert(err == nil && len(rest) == len(flat)-pos, "rest of the stream has the wrong size")
	for j := range rest {
		vrt.Assert(rest[j] == flat[pos+j], "rest of the stream has wrong bytes")
	}
	vrt.Reach("end")
}

func SliceShort() { sliceOps(2, 2, 3, 3) }
func SliceDeep() {
	if vrt.Thorough() {
		sliceOps(3, 2, 4, 3)
		return
	}
	sliceOps(3, 1, 3, 2)
}
func SliceOne()   { sliceOps(1, 3, 3, 2) }
func SliceEmpty() { sliceOps(0, 0, 2, 1) }
