From 1894ffbda68a53d5058b0f51d96e2ccc80c5298e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:23 +0000
Subject: [PATCH 01/73] fix: cfb: check sectors, chains and sizes of damaged
 compound files against the file

A damaged header, FAT, mini FAT or directory entry made the reader panic,
loop forever, or allocate memory for sizes far beyond the file's.
---
 xls/cfb/cfb.go | 115 +++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 92 insertions(+), 23 deletions(-)

diff --git a/xls/cfb/cfb.go b/xls/cfb/cfb.go
index 2692ba4..985feac 100644
--- a/xls/cfb/cfb.go
+++ b/xls/cfb/cfb.go
@@ -77,9 +77,12 @@ type directory struct {
 }
 
 func (d *directory) String() string {
-	if (d.NameByteLen&1) == 1 || d.NameByteLen > 64 {
+	if (d.NameByteLen&1) == 1 || d.NameByteLen < 0 || d.NameByteLen > 64 {
 		return "<invalid utf16 string>"
 	}
+	if d.NameByteLen == 0 {
+		return ""
+	}
 	r16 := utf16.Decode(d.Name[:int(d.NameByteLen)/2])
 	// trim off null terminator
 	return string(r16[:len(r16)-1])
@@ -102,6 +105,24 @@ type Document struct {
 	ministreamsize  uint32
 }
 
+// sector returns the contents of one sector of the file.
+func (d *Document) sector(sid uint32) ([]byte, error) {
+	size := int64(1) << d.header.SectorShift
+	offs := (1 + int64(sid)) * size
+	if offs+size > int64(len(d.data)) {
+		return nil, errors.New("xls/cfb: unable to load file")
+	}
+	return d.data[offs : offs+size], nil
+}
+
+// next returns the sector that follows sid in the chain described by table.
+func next(table []uint32, sid uint32) (uint32, error) {
+	if int64(sid) >= int64(len(table)) {
+		return 0, errors.New("ole2: corrupt sector chain")
+	}
+	return table[sid], nil
+}
+
 func (d *Document) load(rx io.ReadSeeker) error {
 	var err error
 	d.data, err = ioutil.ReadAll(rx)
@@ -159,8 +180,8 @@ func (d *Document) load(rx io.ReadSeeker) error {
 
 	numFATentries := (1 << (h.SectorShift - 2))
 	le := binary.LittleEndian
-	d.fat = make([]uint32, 0, numFATentries*int(1+d.header.NumFATSectors))
-	d.minifat = make([]uint32, 0, numFATentries*int(1+h.NumMiniFATSectors))
+	// neither of the tables can be larger than the file that holds them
+	maxEntries := len(d.data) / 4
 
 	// step 1: read the DIFAT sector list
 	for i := 0; i < 109; i++ {
@@ -168,11 +189,10 @@ func (d *Document) load(rx io.ReadSeeker) error {
 		if sid == secFree {
 			break
 		}
-		offs := int64(1+sid) << int32(h.SectorShift)
-		if offs >= int64(len(d.data)) {
-			return errors.New("xls/cfb: unable to load file")
+		sector, err := d.sector(sid)
+		if err != nil {
+			return err
 		}
-		sector := d.data[offs:]
 		for j := 0; j < numFATentries; j++ {
 			sid2 := le.Uint32(sector)
 			d.fat = append(d.fat, sid2)
@@ -181,10 +201,16 @@ func (d *Document) load(rx io.ReadSeeker) error {
 	}
 	if h.NumDIFATSectors > 0 {
 		sid1 := h.FirstDIFATSectorLocation
+		numDIFAT := 0
 
 		for sid1 != secEndOfChain {
-			offs := int64(1+sid1) << int32(h.SectorShift)
-			difatSector := d.data[offs:]
+			difatSector, err := d.sector(sid1)
+			if err != nil {
+				return err
+			}
+			if numDIFAT++; numDIFAT > maxEntries/numFATentries {
+				return errors.New("xls/cfb: DIFAT sectors form a loop")
+			}
 
 			for i := 0; i < numFATentries-1; i++ {
 				sid2 := le.Uint32(difatSector)
@@ -193,11 +219,13 @@ func (d *Document) load(rx io.ReadSeeker) error {
 					continue
 				}
 
-				offs := int64(1+sid2) << int32(h.SectorShift)
-				if offs >= int64(len(d.data)) {
-					return errors.New("xls/cfb: unable to load file")
+				sector, err := d.sector(sid2)
+				if err != nil {
+					return err
+				}
+				if len(d.fat) > maxEntries {
+					return errors.New("xls/cfb: FAT is larger than the file")
 				}
-				sector := d.data[offs:]
 				for j := 0; j < numFATentries; j++ {
 					sid3 := le.Uint32(sector)
 					d.fat = append(d.fat, sid3)
@@ -281,6 +309,10 @@ func (d *Document) buildDirs(br *bytes.Reader) error {
 }
 
 func (d *Document) getStreamReader(sid uint32, size uint64) (io.ReadSeeker, error) {
+	if size > uint64(len(d.data)) {
+		return nil, errors.New("ole2: stream is larger than the file")
+	}
+	var err error
 	// NB streamData is a slice of slices of the raw data, so this is the
 	// only allocation - for the (much smaller) list of sector slices
 	streamData := make([][]byte, 1+(size>>d.header.SectorShift))
@@ -288,11 +320,14 @@ func (d *Document) getStreamReader(sid uint32, size uint64) (io.ReadSeeker, erro
 	x := 0
 	secSize := int64(1) << int32(d.header.SectorShift)
 	for sid != secEndOfChain && sid != secFree {
-		offs := int64(1+sid) << int64(d.header.SectorShift)
+		offs := (1 + int64(sid)) << int64(d.header.SectorShift)
 		if offs > int64(len(d.data)) {
 			return nil, errors.New("ole2: corrupt data format")
 		}
-		slice := d.data[offs : offs+secSize]
+		slice := d.data[offs:]
+		if int64(len(slice)) > secSize {
+			slice = slice[:secSize]
+		}
 		if size < uint64(len(slice)) {
 			slice = slice[:size]
 			size = 0
@@ -303,7 +338,12 @@ func (d *Document) getStreamReader(sid uint32, size uint64) (io.ReadSeeker, erro
 		if size == 0 {
 			break
 		}
-		sid = d.fat[sid]
+		if int64(len(slice)) < secSize {
+			break
+		}
+		if sid, err = next(d.fat, sid); err != nil {
+			return nil, err
+		}
 		x++
 	}
 	if size != 0 {
@@ -314,6 +354,10 @@ func (d *Document) getStreamReader(sid uint32, size uint64) (io.ReadSeeker, erro
 }
 
 func (d *Document) getMiniStreamReader(sid uint32, size uint64) (io.ReadSeeker, error) {
+	if uint64(d.ministreamsize) > uint64(len(d.data)) || size > uint64(d.ministreamsize) {
+		return nil, errors.New("ole2: stream is larger than the file")
+	}
+	var err error
 	// TODO: move into a separate cache so we don't recalculate it each time
 	fatStreamData := make([][]byte, 1+(d.ministreamsize>>d.header.SectorShift))
 
@@ -325,9 +369,15 @@ func (d *Document) getMiniStreamReader(sid uint32, size uint64) (io.ReadSeeker,
 	fsid := d.ministreamstart
 	fsize := uint64(d.ministreamsize)
 	secSize := int64(1) << int64(d.header.SectorShift)
-	for fsid != secEndOfChain && fsid != secFree {
-		offs := int64(1+fsid) << int64(d.header.SectorShift)
-		slice := d.data[offs : offs+secSize]
+	for fsize != 0 && fsid != secEndOfChain && fsid != secFree {
+		offs := (1 + int64(fsid)) << int64(d.header.SectorShift)
+		if offs > int64(len(d.data)) {
+			return nil, errors.New("ole2: corrupt data format")
+		}
+		slice := d.data[offs:]
+		if int64(len(slice)) > secSize {
+			slice = slice[:secSize]
+		}
 		if fsize < uint64(len(slice)) {
 			slice = slice[:fsize]
 			fsize = 0
@@ -335,19 +385,30 @@ func (d *Document) getMiniStreamReader(sid uint32, size uint64) (io.ReadSeeker,
 			fsize -= uint64(len(slice))
 		}
 		fatStreamData[x] = slice
+		if int64(len(slice)) < secSize {
+			break
+		}
 		x++
-		fsid = d.fat[fsid]
+		if fsid, err = next(d.fat, fsid); err != nil {
+			return nil, err
+		}
 	}
 
 	x = 0
 	miniSecSize := int64(1) << int64(d.header.MiniSectorShift)
-	for sid != secEndOfChain && sid != secFree {
+	for size != 0 && sid != secEndOfChain && sid != secFree {
 		offs := int64(sid) << int64(d.header.MiniSectorShift)
 
 		so, si := offs/secSize, offs%secSize
+		if so >= int64(len(fatStreamData)) || si >= int64(len(fatStreamData[so])) {
+			return nil, errors.New("ole2: corrupt data format")
+		}
 		data := fatStreamData[so]
 
-		slice := data[si : si+miniSecSize]
+		slice := data[si:]
+		if int64(len(slice)) > miniSecSize {
+			slice = slice[:miniSecSize]
+		}
 		if size < uint64(len(slice)) {
 			slice = slice[:size]
 			size = 0
@@ -355,8 +416,16 @@ func (d *Document) getMiniStreamReader(sid uint32, size uint64) (io.ReadSeeker,
 			size -= uint64(len(slice))
 		}
 		streamData[x] = slice
+		if int64(len(slice)) < miniSecSize {
+			break
+		}
 		x++
-		sid = d.minifat[sid]
+		if sid, err = next(d.minifat, sid); err != nil {
+			return nil, err
+		}
+	}
+	if size != 0 {
+		return nil, errors.New("ole2: incomplete read")
 	}
 
 	return &SliceReader{Data: streamData}, nil
-- 
2.43.0


From 93f4f9ff3ce6ac2c0a90dadee5699f7e7311456b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:24 +0000
Subject: [PATCH 02/73] fix: cfb: load every mini FAT sector

The mini FAT was cut off after its first sector: the number of sectors was
compared with the number of entries, and the next sector was not looked up
in the FAT. Streams in the mini stream beyond 8 KB could not be read.
---
 xls/cfb/cfb.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/xls/cfb/cfb.go b/xls/cfb/cfb.go
index 985feac..d90fe2c 100644
--- a/xls/cfb/cfb.go
+++ b/xls/cfb/cfb.go
@@ -242,23 +242,26 @@ func (d *Document) load(rx io.ReadSeeker) error {
 	// step 2: read the mini FAT
 	sid := h.FirstMiniFATSectorLocation
 	for sid != secEndOfChain {
-		offs := int64(1+sid) << int32(h.SectorShift)
-		if offs >= int64(len(d.data)) {
-			return errors.New("xls/cfb: unable to load file")
+		sector, err := d.sector(sid)
+		if err != nil {
+			return err
+		}
+		if len(d.minifat) > maxEntries {
+			return errors.New("xls/cfb: mini FAT is larger than the file")
 		}
-		sector := d.data[offs:]
 		for j := 0; j < numFATentries; j++ {
-			sid = le.Uint32(sector)
-			d.minifat = append(d.minifat, sid)
+			d.minifat = append(d.minifat, le.Uint32(sector))
 			sector = sector[4:]
 		}
 
-		if len(d.minifat) >= int(h.NumMiniFATSectors) {
+		if len(d.minifat) >= numFATentries*int(h.NumMiniFATSectors) {
 			break
 		}
 
 		// chain the next mini FAT sector
-		sid = le.Uint32(sector)
+		if sid, err = next(d.fat, sid); err != nil {
+			return err
+		}
 	}
 
 	// step 3: read the Directory Entries
-- 
2.43.0


From 9557d5afb69e5028492662049213e90cc7df43d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:52 +0000
Subject: [PATCH 03/73] fix: cfb: read the whole directory

Only the first four directory entries were read, and an unused entry ended
the listing, so streams further on could not be found.
---
 xls/cfb/cfb.go | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/xls/cfb/cfb.go b/xls/cfb/cfb.go
index d90fe2c..dedc00f 100644
--- a/xls/cfb/cfb.go
+++ b/xls/cfb/cfb.go
@@ -265,21 +265,31 @@ func (d *Document) load(rx io.ReadSeeker) error {
 	}
 
 	// step 3: read the Directory Entries
-	err = d.buildDirs(br)
+	for n, sid := 0, h.FirstDirectorySectorLocation; sid != secEndOfChain; n++ {
+		sector, err := d.sector(sid)
+		if err != nil {
+			return err
+		}
+		if n > maxEntries/numFATentries {
+			return errors.New("xls/cfb: directory is larger than the file")
+		}
+		if err = d.buildDirs(bytes.NewReader(sector)); err != nil {
+			return err
+		}
+		// chain the next directory sector
+		if sid, err = next(d.fat, sid); err != nil {
+			return err
+		}
+	}
 
-	return err
+	return nil
 }
 
+// buildDirs reads the directory entries of one sector.
 func (d *Document) buildDirs(br *bytes.Reader) error {
-	h := d.header
 	le := binary.LittleEndian
 
-	// step 2: read the Directory
-	sid := h.FirstDirectorySectorLocation
-	offs := int64(1+sid) << int64(h.SectorShift)
-	br.Seek(offs, io.SeekStart)
-
-	for j := 0; j < 4; j++ {
+	for br.Len() >= 128 {
 		dirent := &directory{}
 		binary.Read(br, le, dirent)
 		if d.header.MajorVersion == 3 {
@@ -303,7 +313,8 @@ func (d *Document) buildDirs(br *bytes.Reader) error {
 				}
 			*/
 		case typeUnknown:
-			return nil
+			// unused entry
+			continue
 		}
 		d.dir = append(d.dir, dirent)
 	}
-- 
2.43.0


From 0e97101a08d946d6cf6749800e78fd5d9adaa0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 04/73] fix: cfb: SliceReader reads past empty slices and seeks
 to every valid position

Seeking to the start or end of the stream could run off the slice list,
positions outside the stream were not refused, and empty slices or an empty
read were taken for the end of the stream.
---
 xls/cfb/slicereader.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/xls/cfb/slicereader.go b/xls/cfb/slicereader.go
index e6e7aff..6599a69 100644
--- a/xls/cfb/slicereader.go
+++ b/xls/cfb/slicereader.go
@@ -16,6 +16,11 @@ type SliceReader struct {
 
 // Read implements the io.Reader interface.
 func (s *SliceReader) Read(b []byte) (int, error) {
+	for s.Index < uint(len(s.Data)) && s.Offset >= uint(len(s.Data[s.Index])) {
+		// skip over used up and empty slices
+		s.Offset = 0
+		s.Index++
+	}
 	if s.Index >= uint(len(s.Data)) {
 		return 0, io.EOF
 	}
@@ -29,7 +34,7 @@ func (s *SliceReader) Read(b []byte) (int, error) {
 		return n, nil
 	}
 
-	return 0, io.EOF
+	return 0, nil
 }
 
 var x io.Seeker
@@ -45,6 +50,12 @@ func (s *SliceReader) Seek(offset int64, whence int) (int64, error) {
 			sz += int64(len(d))
 		}
 	}
+	if len(s.Data) == 0 {
+		if offset != 0 {
+			return -1, errors.New("xls: invalid seek offset")
+		}
+		return 0, nil
+	}
 	if s.Index >= uint(len(s.CSize)) {
 		s.Index = uint(len(s.CSize) - 1)
 		s.Offset = uint(len(s.Data[s.Index]))
@@ -56,6 +67,7 @@ func (s *SliceReader) Seek(offset int64, whence int) (int64, error) {
 		return trueOffset, nil
 	}
 
+	oldIndex, oldOffset := s.Index, s.Offset
 	switch whence {
 	case io.SeekStart:
 		if offset < 0 {
@@ -79,10 +91,15 @@ func (s *SliceReader) Seek(offset int64, whence int) (int64, error) {
 	}
 
 	wantOffset := offset + trueOffset
+	last := len(s.Data) - 1
+	if wantOffset < 0 || wantOffset > s.CSize[last]+int64(len(s.Data[last])) {
+		s.Index, s.Offset = oldIndex, oldOffset
+		return -1, errors.New("xls: invalid seek offset")
+	}
 	for trueOffset != wantOffset {
 		loOffset := s.CSize[int(s.Index)]
 		hiOffset := s.CSize[int(s.Index)] + int64(len(s.Data[s.Index]))
-		if wantOffset > loOffset && wantOffset < hiOffset {
+		if wantOffset >= loOffset && wantOffset <= hiOffset {
 			s.Offset = uint(wantOffset - loOffset)
 			return wantOffset, nil
 		}
-- 
2.43.0


From bae72cfaa562ddb3190cdb063aab619823f92e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:42 +0000
Subject: [PATCH 05/73] fix: commonxl: Resize makes exactly the requested rows
 and columns

---
 commonxl/sheet.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index a165334..5cb990a 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -21,9 +21,18 @@ type Sheet struct {
 // Resize the sheet for the number of rows and cols given.
 // Newly added cells default to blank.
 func (s *Sheet) Resize(rows, cols int) {
+	if rows <= 0 {
+		rows = 1
+	}
+	if cols <= 0 {
+		cols = 1
+	}
+	if len(s.Rows) > rows {
+		s.Rows = s.Rows[:rows]
+	}
 	for i := range s.Rows {
-		if i > rows {
-			break
+		if len(s.Rows[i]) > cols {
+			s.Rows[i] = s.Rows[i][:cols]
 		}
 		n := cols - len(s.Rows[i])
 		if n <= 0 {
@@ -32,17 +41,11 @@ func (s *Sheet) Resize(rows, cols int) {
 		s.Rows[i] = append(s.Rows[i], make([]Cell, n)...)
 	}
 
-	if rows <= 0 {
-		rows = 1
-	}
-	if cols <= 0 {
-		cols = 1
-	}
 	s.CurRow = 0
 	s.NumRows = rows
 	s.NumCols = cols
 
-	for rows >= len(s.Rows) {
+	for rows > len(s.Rows) {
 		s.Rows = append(s.Rows, make([]Cell, cols))
 	}
 }
-- 
2.43.0


From 67a48602ad028c2acfa30917695e3900cbef1fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:43 +0000
Subject: [PATCH 06/73] fix: commonxl: Set and SetURL stay inside the grid and
 accept blank cells

---
 commonxl/cell.go  | 7 +++++--
 commonxl/sheet.go | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index 9b1c5b2..0b5eef8 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -64,11 +64,14 @@ func (c Cell) Value() interface{} {
 
 // SetURL adds a URL hyperlink to the cell.
 func (c *Cell) SetURL(link string) {
+	if len(*c) < 2 {
+		*c = make(Cell, 2)
+	}
 	(*c)[1] = HyperlinkStringCell
 	if len(*c) == 2 {
 		*c = append(*c, uint16(0), link)
-	} else { // len = 3 already
-		*c = append(*c, link)
+	} else { // replaces the link if there is one already
+		*c = append((*c)[:3], link)
 	}
 }
 
diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index 5cb990a..67f3a8c 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -90,18 +90,21 @@ func (s *Sheet) Put(row, col int, value interface{}, fmtNum uint16) {
 // Set changes the value in an existing cell location.
 // NB Currently only used for populating string results for formulas.
 func (s *Sheet) Set(row, col int, value interface{}) {
-	if row > s.NumRows || col > s.NumCols {
+	if row >= s.NumRows || col >= s.NumCols {
 		log.Println("grate: cell out of bounds")
 		return
 	}
 
+	if len(s.Rows[row][col]) == 0 {
+		s.Rows[row][col] = make(Cell, 2)
+	}
 	s.Rows[row][col][0] = value
 	s.Rows[row][col][1] = StringCell
 }
 
 // SetURL adds a hyperlink to an existing cell location.
 func (s *Sheet) SetURL(row, col int, link string) {
-	if row > s.NumRows || col > s.NumCols {
+	if row >= s.NumRows || col >= s.NumCols {
 		log.Println("grate: cell out of bounds")
 		return
 	}
-- 
2.43.0


From b0c47eb57ccdefdbfb02406b0be4c746ebe15d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:44 +0000
Subject: [PATCH 07/73] fix: commonxl: keep the number format of hyperlink
 cells

---
 commonxl/cell.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index 0b5eef8..762f3f0 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -94,7 +94,7 @@ func (c Cell) Type() CellType {
 
 // FormatNo returns the NumberFormat used for display.
 func (c Cell) FormatNo() uint16 {
-	if len(c) == 3 {
+	if len(c) >= 3 {
 		return c[2].(uint16)
 	}
 	return 0
-- 
2.43.0


From b311caff727e15526f3790075df1083e85fcaeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:19 +0000
Subject: [PATCH 08/73] fix: commonxl: Scan reports a missing row or too many
 destinations

---
 commonxl/sheet.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index 67f3a8c..78e258b 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -1,6 +1,7 @@
 package commonxl
 
 import (
+	"errors"
 	"fmt"
 	"log"
 	"time"
@@ -182,7 +183,13 @@ func (s *Sheet) Formats() []string {
 //     bool, int64, float64, string, or time.Time
 // If invalid, returns ErrInvalidScanType
 func (s *Sheet) Scan(args ...interface{}) error {
+	if s.CurRow < 1 {
+		return errors.New("scan called before next")
+	}
 	row := s.Rows[s.CurRow-1]
+	if len(args) > len(row) {
+		return fmt.Errorf("scan has %d destinations for %d columns", len(args), len(row))
+	}
 
 	for i, a := range args {
 		val := row[i].Value()
-- 
2.43.0


From 91a36801afc890ab9bd209cfaff2d37c1ed4ce79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:20 +0000
Subject: [PATCH 09/73] fix: commonxl: Scan returns ErrInvalidScanType for
 unsupported destinations

---
 commonxl/sheet.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index 78e258b..c5217c3 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -196,7 +196,7 @@ func (s *Sheet) Scan(args ...interface{}) error {
 
 		switch v := a.(type) {
 		case bool, int64, float64, string, time.Time:
-			return fmt.Errorf("scan destinations must be pointer (arg %d is not)", i)
+			return grate.WrapErr(fmt.Errorf("scan destinations must be pointer (arg %d is not)", i), grate.ErrInvalidScanType)
 		case *bool:
 			if x, ok := val.(bool); ok {
 				*v = x
@@ -228,7 +228,7 @@ func (s *Sheet) Scan(args ...interface{}) error {
 				return fmt.Errorf("scan destination %d expected *%T, not *time.Time", i, val)
 			}
 		default:
-			return fmt.Errorf("scan destination for arg %d is not supported (%T)", i, a)
+			return grate.WrapErr(fmt.Errorf("scan destination for arg %d is not supported (%T)", i, a), grate.ErrInvalidScanType)
 		}
 	}
 	return nil
-- 
2.43.0


From 5bfbc77eee6a8faab2898d431513cba5edf03876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:21 +0000
Subject: [PATCH 10/73] fix: wrapped errors are recognised as any of their
 members

---
 errs.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/errs.go b/errs.go
index 784a551..546f627 100644
--- a/errs.go
+++ b/errs.go
@@ -30,10 +30,16 @@ func (e errx) Error() string {
 }
 func (e errx) Unwrap() error {
 	if len(e.errs) > 1 {
-		return e.errs[1]
+		return WrapErr(e.errs[1:]...)
 	}
 	return nil
 }
+func (e errx) Is(target error) bool {
+	return errors.Is(e.errs[0], target)
+}
+func (e errx) As(target interface{}) bool {
+	return errors.As(e.errs[0], target)
+}
 
 // WrapErr wraps a set of errors.
 func WrapErr(e ...error) error {
-- 
2.43.0


From 028f8c74251710448c47b29bb147e444223e4eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:06 +0000
Subject: [PATCH 11/73] fix: commonxl: keep values that cannot be converted to
 the type of their format

---
 commonxl/cell.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index 762f3f0..0650349 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -171,16 +171,20 @@ func NewCellWithType(value interface{}, t CellType, f *Formatter) Cell {
 	}
 	if c[1] == StringCell {
 		if t == IntegerCell {
-			x, _ := strconv.ParseInt(c[0].(string), 10, 64)
-			c[0] = x
-			c[1] = IntegerCell
+			if x, err := strconv.ParseInt(c[0].(string), 10, 64); err == nil {
+				c[0] = x
+				c[1] = IntegerCell
+			}
 		} else if t == FloatCell {
-			x, _ := strconv.ParseFloat(c[0].(string), 64)
-			c[0] = x
-			c[1] = FloatCell
+			if x, err := strconv.ParseFloat(c[0].(string), 64); err == nil {
+				c[0] = x
+				c[1] = FloatCell
+			}
 		} else if t == BooleanCell {
-			c[0] = boolStrings[c[0].(string)]
-			c[1] = BooleanCell
+			if x, ok := boolStrings[c[0].(string)]; ok {
+				c[0] = x
+				c[1] = BooleanCell
+			}
 		}
 	}
 	if t == StringCell {
@@ -190,10 +194,11 @@ func NewCellWithType(value interface{}, t CellType, f *Formatter) Cell {
 	if t == DateCell {
 		if c[1] == FloatCell {
 			c[0] = f.ConvertToDate(c[0].(float64))
+			c[1] = DateCell
 		} else if c[1] == IntegerCell {
 			c[0] = f.ConvertToDate(float64(c[0].(int64)))
+			c[1] = DateCell
 		}
-		c[1] = DateCell
 	}
 	return c
 }
-- 
2.43.0


From 0107127b096a849eb12bf389d09235a9d71cf948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:07 +0000
Subject: [PATCH 12/73] fix: commonxl: blank cells stay blank under every
 format

---
 commonxl/cell.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index 0650349..2bb8de5 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -121,8 +121,8 @@ var boolStrings = map[string]bool{
 // NewCellWithType creates a new cell value with the given type, coercing as necessary.
 func NewCellWithType(value interface{}, t CellType, f *Formatter) Cell {
 	c := NewCell(value)
-	if c[1] == t {
-		// fast path if it was already typed correctly
+	if c[1] == t || c[1] == BlankCell {
+		// fast path if it was already typed correctly, blanks stay blank
 		return c
 	}
 
-- 
2.43.0


From fe4ad90912c7e954cfc269e57e0d9116f77e9d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:08 +0000
Subject: [PATCH 13/73] fix: commonxl: floats beyond the integer range keep
 their value under integer formats

---
 commonxl/cell.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index 2bb8de5..8c6a675 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -153,8 +153,11 @@ func NewCellWithType(value interface{}, t CellType, f *Formatter) Cell {
 
 	if c[1] == FloatCell {
 		if t == IntegerCell {
-			c[0] = int64(c[0].(float64))
-			c[1] = IntegerCell
+			// floats outside the integer range stay floats
+			if x := c[0].(float64); x >= math.MinInt64 && x < math.MaxInt64 {
+				c[0] = int64(x)
+				c[1] = IntegerCell
+			}
 		} else if t == BooleanCell {
 			c[0] = c[0].(float64) != 0.0
 			c[1] = BooleanCell
-- 
2.43.0


From aff627fe59e8614d5f5ad3d803c45f0e8aa19f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 14/73] fix: commonxl: large uint values do not turn negative

---
 commonxl/cell.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index 8c6a675..94a9902 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -239,7 +239,7 @@ func NewCell(value interface{}) Cell {
 		c[1] = IntegerCell
 
 	case uint:
-		if int64(v) > int64(math.MaxInt64) {
+		if uint64(v) > math.MaxInt64 {
 			c[0] = float64(v)
 			c[1] = FloatCell
 		} else {
-- 
2.43.0


From e67006ae93d61978989afee3602d71b67c4f17b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:10 +0000
Subject: [PATCH 15/73] fix: commonxl: Equal looks at both cells and compares
 integers exactly

---
 commonxl/cell.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index 94a9902..c1d2a6b 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -330,23 +330,26 @@ func (c *Cell) SetFormatNumber(f uint16) {
 func (c Cell) Equal(other Cell) bool {
 	if c.Type() == FloatCell || other.Type() == FloatCell ||
 		c.Type() == IntegerCell || other.Type() == IntegerCell {
-		v1, ok := c[0].(float64)
-		v1x, okx := c[0].(int64)
-		if okx {
+		v1, ok := c.Value().(float64)
+		v1x, int1 := c.Value().(int64)
+		if int1 {
 			v1 = float64(v1x)
 			ok = true
 		}
 		if !ok {
-			fmt.Sscanf(fmt.Sprint(c[0]), "%g", &v1)
+			fmt.Sscanf(fmt.Sprint(c.Value()), "%g", &v1)
 		}
-		v2, ok := other[0].(float64)
-		v2x, okx := other[0].(int64)
-		if okx {
+		v2, ok := other.Value().(float64)
+		v2x, int2 := other.Value().(int64)
+		if int2 {
 			v2 = float64(v2x)
 			ok = true
 		}
 		if !ok {
-			fmt.Sscanf(fmt.Sprint(c[0]), "%g", &v2)
+			fmt.Sscanf(fmt.Sprint(other.Value()), "%g", &v2)
+		}
+		if int1 && int2 {
+			return v1x == v2x
 		}
 		return v1 == v2
 	}
-- 
2.43.0


From 4d9a2d410c3119a2c27ed1ef73c017e38645896f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:11 +0000
Subject: [PATCH 16/73] fix: commonxl: comparing blank and date cells does not
 panic

---
 commonxl/cell.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index c1d2a6b..f4dfd52 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -358,7 +358,7 @@ func (c Cell) Equal(other Cell) bool {
 }
 
 func (c Cell) Less(other Cell) bool {
-	if len(c) == 0 {
+	if len(c) == 0 || len(other) == 0 {
 		return false
 	}
 	switch v1 := c[0].(type) {
@@ -473,5 +473,14 @@ func (c Cell) Less(other Cell) bool {
 
 	}
 
-	panic("unable to compare cells (invalid internal type)")
+	if t1, ok := c[0].(time.Time); ok {
+		if t2, ok := other[0].(time.Time); ok {
+			return t1.Before(t2)
+		}
+	}
+	if other[0] == nil {
+		return false
+	}
+	// no common order, compare what they show
+	return fmt.Sprint(c[0]) < fmt.Sprint(other[0])
 }
-- 
2.43.0


From 16e4dc488f4ab29178045830f020179937d31e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 17/73] fix: commonxl: false and a negative number are not less
 than each other

---
 commonxl/cell.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index f4dfd52..617bdf8 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -380,9 +380,9 @@ func (c Cell) Less(other Cell) bool {
 		case bool:
 			return v2
 		case int64:
-			return v2 != 0
+			return v2 > 0
 		case float64:
-			return v2 != 0.0
+			return v2 > 0.0
 		case string:
 			return boolStrings[v2]
 		}
-- 
2.43.0


From 945bf63fcb8751237816d204f4fe3b3b92f585bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:32 +0000
Subject: [PATCH 18/73] fix: commonxl: unknown number formats show the plain
 value

---
 commonxl/formats.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/commonxl/formats.go b/commonxl/formats.go
index 49b58a9..87ce3f3 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -219,6 +219,7 @@ func (x *Formatter) Apply(fmtID uint16, val interface{}) (string, bool) {
 		if ok2 {
 			return fs(x, val), true
 		}
+		ff = identFunc
 	}
 	return ff(x, val), ok
 }
-- 
2.43.0


From 56faf2f00542d047de412248c612e2874d35fde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:33 +0000
Subject: [PATCH 19/73] fix: commonxl: a General format does not replace a
 registered format

---
 commonxl/formats.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/commonxl/formats.go b/commonxl/formats.go
index 87ce3f3..ab11f18 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -34,10 +34,6 @@ func (x *Formatter) Add(fmtID uint16, formatCode string) error {
 		x.customCodes = make(map[uint16]FmtFunc)
 		x.customCodeTypes = make(map[uint16]CellType)
 	}
-	if strings.ToLower(formatCode) == "general" {
-		x.customCodes[fmtID] = goFormatters[0]
-		return nil
-	}
 	_, ok := goFormatters[fmtID]
 	if ok {
 		return errors.New("grate/commonxl: cannot replace default number formats")
@@ -47,6 +43,10 @@ func (x *Formatter) Add(fmtID uint16, formatCode string) error {
 	if ok2 {
 		return errors.New("grate/commonxl: cannot replace existing number formats")
 	}
+	if strings.ToLower(formatCode) == "general" {
+		x.customCodes[fmtID] = goFormatters[0]
+		return nil
+	}
 
 	x.customCodes[fmtID], x.customCodeTypes[fmtID] = makeFormatter(formatCode)
 	return nil
-- 
2.43.0


From d9262e7966863679d9d53eae2f4618e9065e8b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:34 +0000
Subject: [PATCH 20/73] fix: commonxl: show texts and absent values unchanged
 under every number format

---
 commonxl/dates.go |  4 ++--
 commonxl/fmt.go   | 26 +++++++++++++++++++++-----
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/commonxl/dates.go b/commonxl/dates.go
index dad6ae9..f498f79 100644
--- a/commonxl/dates.go
+++ b/commonxl/dates.go
@@ -50,7 +50,7 @@ func timeFmtFunc(f string) FmtFunc {
 		if !ok {
 			fval, ok := convertToFloat64(v)
 			if !ok {
-				return "MUST BE time.Time OR numeric TO FORMAT CORRECTLY"
+				return identFunc(x, v)
 			}
 			t = x.ConvertToDate(fval)
 		}
@@ -67,7 +67,7 @@ func cnTimeFmtFunc(f string) FmtFunc {
 		if !ok {
 			fval, ok := convertToFloat64(v)
 			if !ok {
-				return "MUST BE time.Time OR numeric TO FORMAT CORRECTLY"
+				return identFunc(x, v)
 			}
 			t = x.ConvertToDate(fval)
 		}
diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index f99e01b..2daf9f0 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -15,8 +15,17 @@ func staticFmtFunc(s string) FmtFunc {
 	}
 }
 
+// texts and absent values are shown unchanged by all number formats
+func isText(v interface{}) bool {
+	_, ok := v.(string)
+	return ok || v == nil
+}
+
 func surround(pre string, ff FmtFunc, post string) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
+		if isText(v) {
+			return ff(x, v)
+		}
 		return pre + ff(x, v) + post
 	}
 }
@@ -24,6 +33,9 @@ func surround(pre string, ff FmtFunc, post string) FmtFunc {
 func addNegParens(ff FmtFunc) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
 		s1 := ff(x, v)
+		if isText(v) {
+			return s1
+		}
 		if s1[0] == '-' {
 			return "(" + s1[1:] + ")"
 		}
@@ -34,6 +46,9 @@ func addNegParens(ff FmtFunc) FmtFunc {
 func addCommas(ff FmtFunc) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
 		s1 := ff(x, v)
+		if isText(v) {
+			return s1
+		}
 		isNeg := false
 		if s1[0] == '-' {
 			isNeg = true
@@ -56,6 +71,8 @@ func addCommas(ff FmtFunc) FmtFunc {
 
 func identFunc(x *Formatter, v interface{}) string {
 	switch x := v.(type) {
+	case nil:
+		return ""
 	case bool:
 		if x {
 			return "TRUE"
@@ -97,6 +114,8 @@ func sprintfFunc(fs string, mul int) FmtFunc {
 				return fmt.Sprintf(fs, v2)
 			}
 			return fmt.Sprintf(fs, val)
+		case nil:
+			return ""
 		}
 		return fmt.Sprint(v)
 	}
@@ -138,9 +157,6 @@ func convertToFloat64(v interface{}) (float64, bool) {
 		return float64(val), true
 	case float32:
 		return float64(val), true
-	case string:
-		nf, err := strconv.ParseFloat(val, 64)
-		return nf, err == nil
 	default:
 		return 0.0, false
 	}
@@ -152,7 +168,7 @@ func zeroDashFunc(ff FmtFunc) FmtFunc {
 		fval, ok := convertToFloat64(v)
 		if !ok {
 			// strings etc returned as-is
-			return fmt.Sprint(v)
+			return identFunc(x, v)
 		}
 		if fval == 0.0 {
 			return "-"
@@ -165,7 +181,7 @@ func fracFmtFunc(n int) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
 		f, ok := convertToFloat64(v)
 		if !ok {
-			return "MUST BE numeric TO FORMAT CORRECTLY"
+			return identFunc(x, v)
 		}
 		w, n, d := DecimalToWholeFraction(f, n, n)
 		if n == 0 {
-- 
2.43.0


From 59eb856bf7464df60f7444c7685cbcaf5dab40c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:52 +0000
Subject: [PATCH 21/73] fix: commonxl: merge markers have a documented type
 name

---
 commonxl/cell.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/commonxl/cell.go b/commonxl/cell.go
index 617bdf8..8c38bea 100644
--- a/commonxl/cell.go
+++ b/commonxl/cell.go
@@ -40,8 +40,6 @@ func (c CellType) String() string {
 		return "date"
 	case HyperlinkStringCell:
 		return "hyperlink"
-	case StaticCell:
-		return "static"
 	default: // StringCell, StaticCell
 		return "string"
 	}
-- 
2.43.0


From 8d887f0de313c6f2e759b1bbabb633a198698e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:53 +0000
Subject: [PATCH 22/73] fix: commonxl: times of day are not shown a second too
 early

---
 commonxl/dates.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/commonxl/dates.go b/commonxl/dates.go
index f498f79..88fe39e 100644
--- a/commonxl/dates.go
+++ b/commonxl/dates.go
@@ -1,6 +1,7 @@
 package commonxl
 
 import (
+	"math"
 	"strings"
 	"time"
 )
@@ -31,7 +32,7 @@ func (x *Formatter) ConvertToDate(val float64) time.Time {
 		month := time.Month(J + 2 - 12*L)
 		year := 100*(N-49) + I + L
 
-		t := time.Duration(float64(time.Hour*24) * frac)
+		t := dayFraction(frac)
 		return time.Date(year, month, day, 0, 0, 0, 0, time.UTC).Add(t)
 	}
 	frac := val - float64(v)
@@ -40,10 +41,17 @@ func (x *Formatter) ConvertToDate(val float64) time.Time {
 		date = time.Date(1899, 12, 30, 0, 0, 0, 0, time.UTC)
 	}
 
-	t := time.Duration(float64(time.Hour*24) * frac)
+	t := dayFraction(frac)
 	return date.AddDate(0, 0, v).Add(t)
 }
 
+// dayFraction converts a fraction of a day. Serials are not precise beyond
+// milliseconds, so rounding restores the time that was stored.
+func dayFraction(frac float64) time.Duration {
+	ms := math.Round(float64(time.Hour*24/time.Millisecond) * frac)
+	return time.Duration(ms) * time.Millisecond
+}
+
 func timeFmtFunc(f string) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
 		t, ok := v.(time.Time)
-- 
2.43.0


From bbc490e0b16d16a5c02324b98a4ea569fb31f87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 23/73] fix: commonxl: negative numbers show no second sign in
 sections for negatives

---
 commonxl/fmt.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index 2daf9f0..84911b3 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -197,6 +197,19 @@ func fracFmtFunc(n int) FmtFunc {
 	}
 }
 
+// removes the sign of negative numbers
+func magnitude(v interface{}) interface{} {
+	switch val := v.(type) {
+	case int64:
+		return uint64(-val)
+	case int:
+		return uint64(-int64(val))
+	case float64:
+		return -val
+	}
+	return v
+}
+
 // handle (up to) all four format cases:
 // positive;negative;zero;other
 func switchFmtFunc(pos FmtFunc, others ...FmtFunc) FmtFunc {
@@ -204,7 +217,10 @@ func switchFmtFunc(pos FmtFunc, others ...FmtFunc) FmtFunc {
 	zeroFF := pos
 	negFF := pos
 	if len(others) > 0 {
-		negFF = others[0]
+		// the section for negatives shows the sign itself
+		negFF = func(x *Formatter, v interface{}) string {
+			return others[0](x, magnitude(v))
+		}
 		if len(others) > 1 {
 			zeroFF = others[1]
 			if len(others) > 2 {
-- 
2.43.0


From 965c9e1743afd36f71090be5284f485c69d8bdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:55 +0000
Subject: [PATCH 24/73] fix: commonxl: accounting formats show negatives in
 parentheses

---
 commonxl/fmt.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index 84911b3..8a3ea59 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -321,8 +321,8 @@ var goFormatters = map[uint16]FmtFunc{
 	11: sprintfFunc(`%4.2E`, 1),
 	48: sprintfFunc(`%3.1E`, 1),
 
-	41: zeroDashFunc(addCommas(sprintfFunc("%d", 1))),
-	43: zeroDashFunc(addCommas(sprintfFunc("%4.2f", 1))),
+	41: zeroDashFunc(addNegParens(addCommas(sprintfFunc("%d", 1)))),
+	43: zeroDashFunc(addNegParens(addCommas(sprintfFunc("%4.2f", 1)))),
 
 	42: switchFmtFunc(
 		surround("$", addCommas(sprintfFunc("%d", 1)), ""),
-- 
2.43.0


From 4622a600433528d01fcb10ab94571e38b4c4fcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:08 +0000
Subject: [PATCH 25/73] fix: xls: check the size of records before reading them

---
 xls/sheets.go |  3 +++
 xls/xls.go    | 45 +++++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 46 insertions(+), 2 deletions(-)

diff --git a/xls/sheets.go b/xls/sheets.go
index 7f30402..65e4eea 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -62,6 +62,9 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 			}
 			continue
 		}
+		if err := r.checkSize(); err != nil {
+			return nil, err
+		}
 		switch r.RecType {
 		case RecTypeBOF:
 			// a BOF inside a sheet usually means embedded content like a chart
diff --git a/xls/xls.go b/xls/xls.go
index 15ff55c..24ea29f 100644
--- a/xls/xls.go
+++ b/xls/xls.go
@@ -10,6 +10,7 @@ import (
 	"context"
 	"encoding/binary"
 	"errors"
+	"fmt"
 	"io"
 	"log"
 	"sync"
@@ -205,9 +206,15 @@ func (b *WorkBook) loadFromStream2(raw []byte, isDecrypted bool) error {
 			nestedBOF++
 		}
 		b.fpos += int64(4 + len(nr.Data))
+		if substr < 0 {
+			return errors.New("xls: missing BOF record")
+		}
 
 		// if there's a FilePass record, the data is encrypted
 		if nr.RecType == RecTypeFilePass && !isDecrypted {
+			if err = nr.checkSize(); err != nil {
+				return err
+			}
 			etype := binary.LittleEndian.Uint16(nr.Data)
 			switch etype {
 			case 1:
@@ -243,6 +250,9 @@ func (b *WorkBook) loadFromStream2(raw []byte, isDecrypted bool) error {
 			if len(nr.Data) == 0 {
 				continue
 			}
+			if err = nr.checkSize(); err != nil {
+				return err
+			}
 
 			switch nr.RecType {
 			case RecTypeSST:
@@ -355,6 +365,37 @@ func (b *WorkBook) nextRecord(raw []byte) (*rec, int, error) {
 		recPool.Put(rec)
 		return nil, 4, io.ErrUnexpectedEOF
 	}
-	rec.Data = raw[4 : 4+rec.RecSize]
-	return rec, int(4 + rec.RecSize), nil
+	rec.Data = raw[4 : 4+int(rec.RecSize)]
+	return rec, 4 + int(rec.RecSize), nil
+}
+
+// minSizes is the size of the fixed part of the records that are parsed.
+var minSizes = map[recordType]int{
+	RecTypeBOF:         16,
+	RecTypeFilePass:    2,
+	RecTypeSST:         8,
+	RecTypeCodePage:    2,
+	RecTypeDate1904:    2,
+	RecTypeFormat:      5,
+	RecTypeXF:          4,
+	RecTypeBoundSheet8: 8,
+	RecTypeWsBool:      2,
+	RecTypeDimensions:  12,
+	RecTypeBoolErr:     8,
+	RecTypeMulRk:       6,
+	RecTypeNumber:      14,
+	RecTypeRK:          10,
+	RecTypeFormula:     14,
+	RecTypeString:      3,
+	RecTypeLabelSst:    10,
+	RecTypeHLink:       32,
+	RecTypeMergeCells:  2,
+}
+
+// checkSize reports records that are too short to be parsed.
+func (r *rec) checkSize() error {
+	if len(r.Data) < minSizes[r.RecType] {
+		return fmt.Errorf("xls: record %s is too short (%d bytes)", r.RecType, len(r.Data))
+	}
+	return nil
 }
-- 
2.43.0


From 15d11519073c95c1a571218253e78db1187975fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:08 +0000
Subject: [PATCH 26/73] fix: xls: a sheet holds the records of its own section
 only

---
 xls/sheets.go | 9 ++++++++-
 xls/xls.go    | 4 +++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/xls/sheets.go b/xls/sheets.go
index 65e4eea..ece00cf 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -37,7 +37,10 @@ func (b *WorkBook) ListHidden() ([]string, error) {
 func (b *WorkBook) Get(sheetName string) (grate.Collection, error) {
 	for _, s := range b.sheets {
 		if s.Name == sheetName {
-			ss := b.pos2substream[int64(s.Position)]
+			ss, ok := b.pos2substream[int64(s.Position)]
+			if !ok || ss >= len(b.substreams) {
+				return nil, errors.New("xls: sheet content not found")
+			}
 			return b.parseSheet(s, ss)
 		}
 	}
@@ -59,6 +62,8 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 		if inSubstream > 0 {
 			if r.RecType == RecTypeEOF {
 				inSubstream--
+			} else if r.RecType == RecTypeBOF {
+				inSubstream++
 			}
 			continue
 		}
@@ -108,6 +113,8 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 		if inSubstream > 0 {
 			if r.RecType == RecTypeEOF {
 				inSubstream--
+			} else if r.RecType == RecTypeBOF {
+				inSubstream++
 			} else if grate.Debug {
 				log.Println("      Unhandled sheet substream record type:", r.RecType, ridx)
 			}
diff --git a/xls/xls.go b/xls/xls.go
index 24ea29f..de2b328 100644
--- a/xls/xls.go
+++ b/xls/xls.go
@@ -195,7 +195,9 @@ func (b *WorkBook) loadFromStream2(raw []byte, isDecrypted bool) error {
 		raw = raw[no:]
 		switch nr.RecType {
 		case RecTypeEOF:
-			nestedBOF--
+			if nestedBOF > 0 {
+				nestedBOF--
+			}
 		case RecTypeBOF:
 			// when substreams are nested, keep them in the same grouping
 			if nestedBOF == 0 {
-- 
2.43.0


From 9d0e1ec8396e6dd9e8023f079eeb75d3ac78c7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:09 +0000
Subject: [PATCH 27/73] fix: xls: only dialog sheets are refused, with an error

---
 xls/sheets.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xls/sheets.go b/xls/sheets.go
index ece00cf..d436e3f 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -80,9 +80,9 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 				continue
 			}
 		case RecTypeWsBool:
-			if (r.Data[1] & 0x10) != 0 {
+			if (r.Data[0] & 0x10) != 0 {
 				// it's a dialog
-				return nil, nil
+				return nil, errors.New("xls: sheet is a dialog")
 			}
 
 		case RecTypeDimensions:
-- 
2.43.0


From 46f8b2827c8518ffc2296a2394057825940bad92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:10 +0000
Subject: [PATCH 28/73] fix: xls: packed whole numbers with hundredths keep
 their value

---
 xls/structs.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/xls/structs.go b/xls/structs.go
index c8d49a7..5281078 100644
--- a/xls/structs.go
+++ b/xls/structs.go
@@ -89,14 +89,13 @@ func (r RKNumber) Int() int {
 func (r RKNumber) Float64() float64 {
 	val := int32(r) >> 2
 	v2 := math.Float64frombits(uint64(val) << 34)
-
-	if (r&1) == 0 && (r&2) == 0 {
-		return v2
+	if (r & 2) != 0 {
+		v2 = float64(val)
 	}
-	if (r&1) != 0 && (r&2) == 0 {
+	if (r & 1) != 0 {
 		return v2 / 100.0
 	}
-	return 0.0
+	return v2
 }
 
 func (r RKNumber) String() string {
-- 
2.43.0


From 34d6024eea4a90854e9a8050fd7798993024046f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:10 +0000
Subject: [PATCH 29/73] fix: xls: dates use the date system of the workbook

---
 xls/xls.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xls/xls.go b/xls/xls.go
index de2b328..1c03597 100644
--- a/xls/xls.go
+++ b/xls/xls.go
@@ -308,6 +308,7 @@ func (b *WorkBook) loadFromStream2(raw []byte, isDecrypted bool) error {
 
 			case RecTypeDate1904:
 				b.dateMode = binary.LittleEndian.Uint16(nr.Data)
+				b.nfmt.Mode1904(b.dateMode == 1)
 
 			case RecTypeFormat:
 				// Format maps a format ID to a code string
-- 
2.43.0


From bc4723d42c232ff54178605ccce969253a40c2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:11 +0000
Subject: [PATCH 30/73] fix: xls: shared string indexes beyond the table are
 errors

---
 xls/sheets.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xls/sheets.go b/xls/sheets.go
index d436e3f..a3e21ec 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -319,7 +319,7 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 			colIndex := int(binary.LittleEndian.Uint16(r.Data[2:4]))
 			ixfe := int(binary.LittleEndian.Uint16(r.Data[4:6]))
 			sstIndex := int(binary.LittleEndian.Uint32(r.Data[6:]))
-			if sstIndex > len(b.strings) {
+			if sstIndex >= len(b.strings) {
 				return nil, errors.New("xls: invalid sst index")
 			}
 			var fno uint16
-- 
2.43.0


From 794559791a4bf4a47afea792a6f466a87276dd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:51 +0000
Subject: [PATCH 31/73] fix: xls: check string lengths and missing continuation
 records

---
 xls/strings.go | 110 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 77 insertions(+), 33 deletions(-)

diff --git a/xls/strings.go b/xls/strings.go
index ae96981..3e4972e 100644
--- a/xls/strings.go
+++ b/xls/strings.go
@@ -11,9 +11,15 @@ import (
 // 2.5.240
 func decodeShortXLUnicodeString(raw []byte) (string, int, error) {
 	// identical to decodeXLUnicodeString except for cch=8bits instead of 16
+	if len(raw) < 2 {
+		return "", 0, io.ErrUnexpectedEOF
+	}
 	cch := int(raw[0])
 	flags := raw[1]
 	raw = raw[2:]
+	if cch<<(flags&0x1) > len(raw) {
+		return "", 0, io.ErrUnexpectedEOF
+	}
 
 	content := make([]uint16, cch)
 	if (flags & 0x1) == 0 {
@@ -37,9 +43,15 @@ func decodeShortXLUnicodeString(raw []byte) (string, int, error) {
 // 2.5.294
 func decodeXLUnicodeString(raw []byte) (string, int, error) {
 	// identical to decodeShortXLUnicodeString except for cch=16bits instead of 8
+	if len(raw) < 3 {
+		return "", 0, io.ErrUnexpectedEOF
+	}
 	cch := int(binary.LittleEndian.Uint16(raw[:2]))
 	flags := raw[2]
 	raw = raw[3:]
+	if cch<<(flags&0x1) > len(raw) {
+		return "", 0, io.ErrUnexpectedEOF
+	}
 
 	content := make([]uint16, cch)
 	if (flags & 0x1) == 0 {
@@ -133,6 +145,45 @@ func decodeXLUnicodeRichExtendedString(r io.Reader) (string, error) {
 	return string(utf16.Decode(content)), nil
 }
 
+// nextPart returns the contents of the continuation record that follows recs[i].
+func nextPart(recs []*rec, i int) ([]byte, int, error) {
+	i++
+	if i >= len(recs) {
+		return nil, i, io.ErrUnexpectedEOF
+	}
+	return recs[i].Data, i, nil
+}
+
+// readChars fills us with the characters in buf, the rest of recs[i], and in the
+// following continuation records. Each of these starts with a flags byte that
+// tells the encoding of its characters.
+func readChars(us []uint16, flags byte, buf []byte, recs []*rec, i int) ([]byte, int, error) {
+	var err error
+	for j := range us {
+		for len(buf) == 0 {
+			if buf, i, err = nextPart(recs, i); err != nil {
+				return nil, i, err
+			}
+			if len(buf) > 0 {
+				flags = buf[0]
+				buf = buf[1:]
+			}
+		}
+
+		if (flags & 1) == 0 { //8-bit
+			us[j] = uint16(buf[0])
+			buf = buf[1:]
+		} else { //16-bit
+			if len(buf) == 1 {
+				return nil, i, errors.New("xls: off by one")
+			}
+			us[j] = binary.LittleEndian.Uint16(buf[:2])
+			buf = buf[2:]
+		}
+	}
+	return buf, i, nil
+}
+
 // read in an array of XLUnicodeRichExtendedString s
 func parseSST(recs []*rec) ([]string, error) {
 	// The quirky thing about this code is that when strings cross a record
@@ -142,6 +193,14 @@ func parseSST(recs []*rec) ([]string, error) {
 	//totalRefs := binary.LittleEndian.Uint32(recs[0].Data[0:4])
 	numStrings := binary.LittleEndian.Uint32(recs[0].Data[4:8])
 
+	maxStrings := 0
+	for _, r := range recs {
+		maxStrings += len(r.Data) / 3
+	}
+	if int64(numStrings) > int64(maxStrings) {
+		numStrings = uint32(maxStrings)
+	}
+
 	all := make([]string, 0, numStrings)
 	current := make([]uint16, 32*1024)
 
@@ -150,8 +209,12 @@ func parseSST(recs []*rec) ([]string, error) {
 		var cRunBytes int
 		var flags byte
 		var cbExtRs uint32
+		var err error
 
 		for len(buf) > 0 {
+			if len(buf) < 3 {
+				return nil, io.ErrUnexpectedEOF
+			}
 			slen := binary.LittleEndian.Uint16(buf)
 			buf = buf[2:]
 			flags = buf[0]
@@ -159,25 +222,23 @@ func parseSST(recs []*rec) ([]string, error) {
 
 			if (flags & 0x8) != 0 {
 				// rich formating data is present
+				if len(buf) < 2 {
+					return nil, io.ErrUnexpectedEOF
+				}
 				cRun := binary.LittleEndian.Uint16(buf)
 				cRunBytes = int(cRun) * 4
 				buf = buf[2:]
 			}
 			if (flags & 0x4) != 0 {
 				// phonetic string data is present
+				if len(buf) < 4 {
+					return nil, io.ErrUnexpectedEOF
+				}
 				cbExtRs = binary.LittleEndian.Uint32(buf)
 				buf = buf[4:]
 			}
 
 			///////
-			blx := len(buf)
-			bly := len(buf) - 5
-			if blx > 5 {
-				blx = 5
-			}
-			if bly < 0 {
-				bly = 0
-			}
 
 			// this block will read the string data, but transparently
 			// handle continuing across records
@@ -186,27 +247,8 @@ func parseSST(recs []*rec) ([]string, error) {
 			} else {
 				current = current[:slen]
 			}
-			for j := 0; j < int(slen); j++ {
-				if len(buf) == 0 {
-					i++
-					if (recs[i].Data[0] & 1) == 0 {
-						flags &= 0xFE
-					} else {
-						flags |= 1
-					}
-					buf = recs[i].Data[1:]
-				}
-
-				if (flags & 1) == 0 { //8-bit
-					current[j] = uint16(buf[0])
-					buf = buf[1:]
-				} else { //16-bit
-					current[j] = uint16(binary.LittleEndian.Uint16(buf[:2]))
-					buf = buf[2:]
-					if len(buf) == 1 {
-						return nil, errors.New("xls: off by one")
-					}
-				}
+			if buf, i, err = readChars(current, flags, buf, recs, i); err != nil {
+				return nil, err
 			}
 
 			s := string(utf16.Decode(current))
@@ -220,8 +262,9 @@ func parseSST(recs []*rec) ([]string, error) {
 					cRunBytes = 0
 				} else {
 					cRunBytes -= len(buf)
-					i++
-					buf = recs[i].Data
+					if buf, i, err = nextPart(recs, i); err != nil {
+						return nil, err
+					}
 				}
 			}
 
@@ -231,8 +274,9 @@ func parseSST(recs []*rec) ([]string, error) {
 					cbExtRs = 0
 				} else {
 					cbExtRs -= uint32(len(buf))
-					i++
-					buf = recs[i].Data
+					if buf, i, err = nextPart(recs, i); err != nil {
+						return nil, err
+					}
 				}
 			}
 		}
-- 
2.43.0


From 1de0332558bef165ae17196d0ff84244493c05fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:52 +0000
Subject: [PATCH 32/73] fix: xls: text results of formulas keep every character

---
 xls/sheets.go | 48 ++++++++++++------------------------------------
 1 file changed, 12 insertions(+), 36 deletions(-)

diff --git a/xls/sheets.go b/xls/sheets.go
index a3e21ec..6982620 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -272,45 +272,21 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 
 			charCount := binary.LittleEndian.Uint16(r.Data[:2])
 			flags := r.Data[2]
-			fstr := ""
-			if (flags & 1) == 0 {
-				fstr = string(r.Data[3:])
-			} else {
-				raw := r.Data[3:]
-				if int(charCount) > cap(us) {
-					us = make([]uint16, charCount)
-				}
-				us = us[:charCount]
-				for i := 0; i < int(charCount); i++ {
-					us[i] = binary.LittleEndian.Uint16(raw)
-					raw = raw[2:]
+			recSet := b.substreams[ss][ridx : ridx+1]
+			for _, r2 := range b.substreams[ss][ridx+1:] {
+				if r2.RecType != RecTypeContinue {
+					break
 				}
-				fstr = string(utf16.Decode(us))
+				recSet = b.substreams[ss][ridx : ridx+1+len(recSet)]
 			}
-
-			if (ridx + 1) < len(b.substreams[ss]) {
-				ridx2 := ridx + 1
-				nrecs := len(b.substreams[ss])
-				for ridx2 < nrecs {
-					r2 := b.substreams[ss][ridx2]
-					if r2.RecType != RecTypeContinue {
-						break
-					}
-					if (r2.Data[0] & 1) == 0 {
-						fstr += string(r2.Data[1:])
-					} else {
-						raw := r2.Data[1:]
-						slen := len(raw) / 2
-						us = us[:slen]
-						for i := 0; i < slen; i++ {
-							us[i] = binary.LittleEndian.Uint16(raw)
-							raw = raw[2:]
-						}
-						fstr += string(utf16.Decode(us))
-					}
-					ridx2++
-				}
+			if int(charCount) > cap(us) {
+				us = make([]uint16, charCount)
+			}
+			us = us[:charCount]
+			if _, _, err := readChars(us, flags, r.Data[3:], recSet, 0); err != nil {
+				return nil, err
 			}
+			fstr := string(utf16.Decode(us))
 			res.Set(int(formulaRow), int(formulaCol), fstr)
 			//log.Printf("String direct: %d %d '%s'", int(formulaRow), int(formulaCol), fstr)
 
-- 
2.43.0


From 30a225ad4394191d60b03d3bfe2b0d4f5c13ac82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:17 +0000
Subject: [PATCH 33/73] fix: xls: check lengths in hyperlink records

---
 xls/hyperlinks.go | 86 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 56 insertions(+), 30 deletions(-)

diff --git a/xls/hyperlinks.go b/xls/hyperlinks.go
index 894bd45..ceb4631 100644
--- a/xls/hyperlinks.go
+++ b/xls/hyperlinks.go
@@ -4,11 +4,36 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"io"
 	"strings"
 	"unicode/utf16"
 )
 
+// decodeUTF16 decodes count characters and returns the rest of the data.
+func decodeUTF16(raw []byte, count uint32) (string, []byte, error) {
+	if uint64(count)*2 > uint64(len(raw)) {
+		return "", nil, io.ErrUnexpectedEOF
+	}
+	us := make([]uint16, count)
+	for i := range us {
+		us[i] = binary.LittleEndian.Uint16(raw)
+		raw = raw[2:]
+	}
+	return string(utf16.Decode(us)), raw, nil
+}
+
+// decodeHyperlinkString decodes a string with a 32-bit length.
+func decodeHyperlinkString(raw []byte) (string, []byte, error) {
+	if len(raw) < 4 {
+		return "", nil, io.ErrUnexpectedEOF
+	}
+	return decodeUTF16(raw[4:], binary.LittleEndian.Uint32(raw))
+}
+
 func decodeHyperlinks(raw []byte) (displayText, linkText string, err error) {
+	if len(raw) < 24 {
+		return "", "", io.ErrUnexpectedEOF
+	}
 	raw = raw[16:] // skip classid
 	slen := binary.LittleEndian.Uint32(raw[:4])
 	if slen != 2 {
@@ -18,54 +43,40 @@ func decodeHyperlinks(raw []byte) (displayText, linkText string, err error) {
 	flags := binary.LittleEndian.Uint32(raw[4:8])
 	raw = raw[8:]
 	if (flags & hlstmfHasDisplayName) != 0 {
-		slen = binary.LittleEndian.Uint32(raw[:4])
-		raw = raw[4:]
-		us := make([]uint16, slen)
-		for i := 0; i < int(slen); i++ {
-			us[i] = binary.LittleEndian.Uint16(raw)
-			raw = raw[2:]
+		if displayText, raw, err = decodeHyperlinkString(raw); err != nil {
+			return "", "", err
 		}
-		displayText = string(utf16.Decode(us))
 	}
 
 	if (flags & hlstmfHasFrameName) != 0 {
 		// skip a HyperlinkString containing target Frame
-		slen = binary.LittleEndian.Uint32(raw[:4])
-		raw = raw[4+(slen*2):]
+		if _, raw, err = decodeHyperlinkString(raw); err != nil {
+			return "", "", err
+		}
 	}
 
 	if (flags & hlstmfHasMoniker) != 0 {
 		if (flags & hlstmfMonikerSavedAsStr) != 0 {
 			// read HyperlinkString containing the URL
-			slen = binary.LittleEndian.Uint32(raw[:4])
-			raw = raw[4:]
-			us := make([]uint16, slen)
-			for i := 0; i < int(slen); i++ {
-				us[i] = binary.LittleEndian.Uint16(raw)
-				raw = raw[2:]
+			if linkText, raw, err = decodeHyperlinkString(raw); err != nil {
+				return "", "", err
 			}
-			linkText = string(utf16.Decode(us))
 
 		} else {
 			n := 0
 			var err error
 			linkText, n, err = parseHyperlinkMoniker(raw)
-			raw = raw[n:]
 			if err != nil {
 				return "", "", err
 			}
+			raw = raw[n:]
 		}
 	}
 
 	if (flags & hlstmfHasLocationStr) != 0 {
-		slen = binary.LittleEndian.Uint32(raw[:4])
-		raw = raw[4:]
-		us := make([]uint16, slen)
-		for i := 0; i < int(slen); i++ {
-			us[i] = binary.LittleEndian.Uint16(raw)
-			raw = raw[2:]
+		if linkText, raw, err = decodeHyperlinkString(raw); err != nil {
+			return "", "", err
 		}
-		linkText = string(utf16.Decode(us))
 	}
 
 	linkText = strings.Trim(linkText, " \v\f\t\r\n\x00")
@@ -74,6 +85,9 @@ func decodeHyperlinks(raw []byte) (displayText, linkText string, err error) {
 }
 
 func parseHyperlinkMoniker(raw []byte) (string, int, error) {
+	if len(raw) < 16 {
+		return "", 0, io.ErrUnexpectedEOF
+	}
 	classid := raw[:16]
 	no := 16
 
@@ -90,8 +104,14 @@ func parseHyperlinkMoniker(raw []byte) (string, int, error) {
 		}
 	}
 	if isURLMoniker {
+		if len(raw) < no+4 {
+			return "", 0, io.ErrUnexpectedEOF
+		}
 		length := binary.LittleEndian.Uint32(raw[no:])
 		no += 4
+		if int64(length) > int64(len(raw)-no) {
+			return "", 0, io.ErrUnexpectedEOF
+		}
 		length /= 2
 		buf := make([]uint16, length)
 		for i := 0; i < int(length); i++ {
@@ -104,9 +124,16 @@ func parseHyperlinkMoniker(raw []byte) (string, int, error) {
 		return string(utf16.Decode(buf)), no, nil
 	}
 	if isFileMoniker {
+		if len(raw) < no+6 {
+			return "", 0, io.ErrUnexpectedEOF
+		}
 		//x := binary.LittleEndian.Uint16(raw[no:])        //cAnti
 		length := binary.LittleEndian.Uint32(raw[no+2:]) //ansiLength
 		no += 6
+		// the path is followed by 28 bytes of fixed size
+		if int64(length)+28 > int64(len(raw)-no) {
+			return "", 0, io.ErrUnexpectedEOF
+		}
 		buf := raw[no : no+int(length)]
 
 		// skip 24 more bytes for misc fixed properties
@@ -115,14 +142,13 @@ func parseHyperlinkMoniker(raw []byte) (string, int, error) {
 		length = binary.LittleEndian.Uint32(raw[no:]) // cbUnicodePathSize
 		no += 4
 		if length > 0 {
+			if length < 6 || int64(length) > int64(len(raw)-no) {
+				return "", 0, io.ErrUnexpectedEOF
+			}
 			no += 6
 			length -= 6
-			buf2 := make([]uint16, length/2)
-			for i := 0; i < int(length/2); i++ {
-				buf2[i] = binary.LittleEndian.Uint16(raw[no:])
-				no += 2
-			}
-			return string(utf16.Decode(buf2)), no, nil
+			path, _, err := decodeUTF16(raw[no:], length/2)
+			return path, no + int(length), err
 		}
 
 		return string(buf), no, nil
-- 
2.43.0


From 9573c2281657c245d9350d782db2819b73253076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:18 +0000
Subject: [PATCH 34/73] fix: xls: a location in a hyperlink does not replace
 its target

---
 xls/hyperlinks.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xls/hyperlinks.go b/xls/hyperlinks.go
index ceb4631..f495ba5 100644
--- a/xls/hyperlinks.go
+++ b/xls/hyperlinks.go
@@ -74,9 +74,15 @@ func decodeHyperlinks(raw []byte) (displayText, linkText string, err error) {
 	}
 
 	if (flags & hlstmfHasLocationStr) != 0 {
-		if linkText, raw, err = decodeHyperlinkString(raw); err != nil {
+		location := ""
+		if location, raw, err = decodeHyperlinkString(raw); err != nil {
 			return "", "", err
 		}
+		if (flags & hlstmfHasMoniker) != 0 {
+			// a place inside of the target
+			location = strings.TrimRight(linkText, "\x00") + "#" + location
+		}
+		linkText = location
 	}
 
 	linkText = strings.Trim(linkText, " \v\f\t\r\n\x00")
-- 
2.43.0


From b72ca2a698b3805539da28d7d5cb8b79a9911779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:18 +0000
Subject: [PATCH 35/73] fix: xls: keep cells and ranges inside of the largest
 sheet

---
 xls/sheets.go | 49 ++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/xls/sheets.go b/xls/sheets.go
index 6982620..11d039b 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -3,6 +3,7 @@ package xls
 import (
 	"encoding/binary"
 	"errors"
+	"io"
 	"log"
 	"math"
 	"unicode/utf16"
@@ -47,6 +48,22 @@ func (b *WorkBook) Get(sheetName string) (grate.Collection, error) {
 	return nil, errors.New("xls: sheet not found")
 }
 
+// checkColumn reports cell records that are outside of the largest sheet.
+func (r *rec) checkColumn() error {
+	n := 1
+	switch r.RecType {
+	case RecTypeMulRk:
+		n = (len(r.Data) - 6) / 6
+	case RecTypeBoolErr, RecTypeNumber, RecTypeRK, RecTypeFormula, RecTypeLabelSst:
+	default:
+		return nil
+	}
+	if int(binary.LittleEndian.Uint16(r.Data[2:4]))+n > 0x0100 {
+		return errors.New("xls: invalid cell column")
+	}
+	return nil
+}
+
 func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 	res := &commonxl.Sheet{
 		Formatter: &b.nfmt,
@@ -97,9 +114,15 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 			}
 			if minRow > 0x0000FFFF || maxRow > 0x00010000 {
 				log.Println("invalid dimensions")
+				if maxRow > 0x00010000 {
+					maxRow = 0x00010000
+				}
 			}
 			if minCol > 0x00FF || maxCol > 0x0100 {
 				log.Println("invalid dimensions")
+				if maxCol > 0x0100 {
+					maxCol = 0x0100
+				}
 			}
 
 			// pre-allocate cells
@@ -132,6 +155,9 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 				NB: no idea what "SUB" is
 		*/
 
+		if err := r.checkColumn(); err != nil {
+			return nil, err
+		}
 		switch r.RecType {
 		case RecTypeBOF:
 			if ridx > 0 {
@@ -312,20 +338,19 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 			lastRow := binary.LittleEndian.Uint16(r.Data[2:4])
 			firstCol := binary.LittleEndian.Uint16(r.Data[4:6])
 			lastCol := binary.LittleEndian.Uint16(r.Data[6:])
-			if int(firstCol) > int(maxCol) {
+			if int(firstCol) > 0xFF {
 				//log.Println("invalid hyperlink column")
 				continue
 			}
-			if int(firstRow) > int(maxRow) {
-				//log.Println("invalid hyperlink row")
-				continue
-			}
-			if lastRow == 0xFFFF { // placeholder value indicate "last"
+			if lastRow == 0xFFFF && uint32(firstRow) < maxRow { // placeholder value indicate "last"
 				lastRow = uint16(maxRow) - 1
 			}
-			if lastCol == 0xFF { // placeholder value indicate "last"
+			if lastCol == 0xFF && firstCol < maxCol { // placeholder value indicate "last"
 				lastCol = uint16(maxCol) - 1
 			}
+			if lastCol > 0xFF {
+				lastCol = 0xFF
+			}
 
 			// decode the hyperlink datastructure and try to find the
 			// display text and separate the URL itself.
@@ -371,6 +396,9 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 
 			cmcs := binary.LittleEndian.Uint16(r.Data[:2])
 			raw := r.Data[2:]
+			if int(cmcs) > len(raw)/8 {
+				return nil, io.ErrUnexpectedEOF
+			}
 			for i := 0; i < int(cmcs); i++ {
 				firstRow := binary.LittleEndian.Uint16(raw[:2])
 				lastRow := binary.LittleEndian.Uint16(raw[2:4])
@@ -378,12 +406,15 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 				lastCol := binary.LittleEndian.Uint16(raw[6:])
 				raw = raw[8:]
 
-				if lastRow == 0xFFFF { // placeholder value indicate "last"
+				if lastRow == 0xFFFF && uint32(firstRow) < maxRow { // placeholder value indicate "last"
 					lastRow = uint16(maxRow) - 1
 				}
-				if lastCol == 0xFF { // placeholder value indicate "last"
+				if lastCol == 0xFF && firstCol < maxCol { // placeholder value indicate "last"
 					lastCol = uint16(maxCol) - 1
 				}
+				if lastCol > 0xFF {
+					lastCol = 0xFF
+				}
 				for rn := int(firstRow); rn <= int(lastRow); rn++ {
 					for cn := int(firstCol); cn <= int(lastCol); cn++ {
 						if rn == int(firstRow) && cn == int(firstCol) {
-- 
2.43.0


From 4a46ec2e1aea8f3bc2b942d2c09589713e418222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:19 +0000
Subject: [PATCH 36/73] fix: xls: hyperlinks keep the content of their cells

---
 xls/sheets.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/xls/sheets.go b/xls/sheets.go
index 11d039b..8823388 100644
--- a/xls/sheets.go
+++ b/xls/sheets.go
@@ -3,6 +3,7 @@ package xls
 import (
 	"encoding/binary"
 	"errors"
+	"fmt"
 	"io"
 	"log"
 	"math"
@@ -360,9 +361,24 @@ func (b *WorkBook) parseSheet(s *boundSheet, ss int) (*commonxl.Sheet, error) {
 				continue
 			}
 
+			if displayText == "" && int(firstRow) < res.NumRows && int(firstCol) < res.NumCols {
+				// the link is shown as the content of its cell
+				cell := res.Rows[firstRow][firstCol]
+				if cell.Type() != commonxl.BlankCell {
+					ok := false
+					if displayText, ok = res.Formatter.Apply(cell.FormatNo(), cell.Value()); !ok {
+						displayText = fmt.Sprint(cell.Value())
+					}
+				}
+			}
+
 			// apply merge cell rules (see RecTypeMergeCells below)
 			for rn := int(firstRow); rn <= int(lastRow); rn++ {
 				for cn := int(firstCol); cn <= int(lastCol); cn++ {
+					if (rn != int(firstRow) || cn != int(firstCol)) && rn < res.NumRows && cn < res.NumCols &&
+						res.Rows[rn][cn].Type() != commonxl.BlankCell {
+						continue // keep the content
+					}
 					if rn == int(firstRow) && cn == int(firstCol) {
 						// TODO: provide custom hooks for how to handle links in output
 						res.Put(rn, cn, displayText+" <"+linkText+">", 0)
-- 
2.43.0


From 85df75e40ab239b1c35923a4e192914b37c9abc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:20 +0000
Subject: [PATCH 37/73] fix: xls: check the size of encrypted records

---
 xls/xls.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/xls/xls.go b/xls/xls.go
index 1c03597..6af10ea 100644
--- a/xls/xls.go
+++ b/xls/xls.go
@@ -97,7 +97,6 @@ func (b *WorkBook) loadFromStreamWithDecryptor(raw []byte, dec crypto.Decryptor)
 	}
 
 	pos := 0
-	zeros := [8224]byte{}
 
 	type overlay struct {
 		Pos int
@@ -109,7 +108,7 @@ func (b *WorkBook) loadFromStreamWithDecryptor(raw []byte, dec crypto.Decryptor)
 	replaceBlocks := []overlay{}
 
 	var err error
-	for err == nil && len(raw[pos:]) > 4 {
+	for err == nil && len(raw[pos:]) >= 4 {
 		o := overlay{}
 		o.Pos = pos
 		o.RecType = recordType(binary.LittleEndian.Uint16(raw[pos : pos+2]))
@@ -120,20 +119,26 @@ func (b *WorkBook) loadFromStreamWithDecryptor(raw []byte, dec crypto.Decryptor)
 		binary.Write(dec, binary.LittleEndian, o.RecType)
 		binary.Write(dec, binary.LittleEndian, o.DataBytes)
 		tocopy := int(o.DataBytes)
+		if tocopy > len(raw[pos:]) {
+			return io.ErrUnexpectedEOF
+		}
 
 		switch o.RecType {
 		case RecTypeBOF, RecTypeFilePass, RecTypeUsrExcl, RecTypeFileLock, RecTypeInterfaceHdr, RecTypeRRDInfo, RecTypeRRDHead:
 			// untouched data goes directly into output
 			o.Data = raw[pos : pos+int(o.DataBytes)]
 			pos += int(o.DataBytes)
-			dec.Write(zeros[:int(o.DataBytes)])
+			dec.Write(make([]byte, int(o.DataBytes)))
 			tocopy = 0
 
 		case RecTypeBoundSheet8:
 			// copy 32-bit position to output
+			if tocopy < 4 {
+				return io.ErrUnexpectedEOF
+			}
 			o.Data = raw[pos : pos+4]
 			pos += 4
-			dec.Write(zeros[:4])
+			dec.Write(make([]byte, 4))
 			tocopy -= 4
 		}
 
-- 
2.43.0


From 6e067f8acad21420d15b4c138e2a7830b783b5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:54 +0000
Subject: [PATCH 38/73] fix: xlsx: parts that end early or cannot be read are
 errors

---
 xlsx/sheets.go   | 13 +++++++++----
 xlsx/workbook.go | 24 ++++++++++++------------
 xlsx/xlsx.go     | 22 ++++++++++++++++++++--
 3 files changed, 41 insertions(+), 18 deletions(-)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index fc9c76b..1286e08 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -37,8 +37,8 @@ func (s *Sheet) parseSheet() error {
 	dec, clo, err := s.d.openXML(relsname)
 	if err == nil {
 		// rels might not exist for every sheet
-		tok, err := dec.RawToken()
-		for ; err == nil; tok, err = dec.RawToken() {
+		tok, err := dec.Token()
+		for ; err == nil; tok, err = dec.Token() {
 			if v, ok := tok.(xml.StartElement); ok && v.Name.Local == "Relationship" {
 				ax := getAttrs(v.Attr, "Id", "Type", "Target", "TargetMode")
 				if ax[3] == "External" && ax[1] == "http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink" {
@@ -47,6 +47,11 @@ func (s *Sheet) parseSheet() error {
 			}
 		}
 		clo.Close()
+		if err != io.EOF {
+			return err
+		}
+	} else if err != io.EOF {
+		return err
 	}
 
 	dec, clo, err = s.d.openXML(s.docname)
@@ -60,8 +65,8 @@ func (s *Sheet) parseSheet() error {
 	var fno uint16
 	var maxCol, maxRow int
 
-	tok, err := dec.RawToken()
-	for ; err == nil; tok, err = dec.RawToken() {
+	tok, err := dec.Token()
+	for ; err == nil; tok, err = dec.Token() {
 		switch v := tok.(type) {
 		case xml.CharData:
 			if currentCell == "" {
diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index d789562..0d72cd1 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -12,9 +12,9 @@ import (
 	"github.com/pbnjay/grate"
 )
 
-func (d *Document) parseRels(dec *xml.Decoder, basedir string) error {
-	tok, err := dec.RawToken()
-	for ; err == nil; tok, err = dec.RawToken() {
+func (d *Document) parseRels(dec *partReader, basedir string) error {
+	tok, err := dec.Token()
+	for ; err == nil; tok, err = dec.Token() {
 		switch v := tok.(type) {
 		case xml.StartElement:
 			switch v.Name.Local {
@@ -56,9 +56,9 @@ func (d *Document) parseRels(dec *xml.Decoder, basedir string) error {
 	return err
 }
 
-func (d *Document) parseWorkbook(dec *xml.Decoder) error {
-	tok, err := dec.RawToken()
-	for ; err == nil; tok, err = dec.RawToken() {
+func (d *Document) parseWorkbook(dec *partReader) error {
+	tok, err := dec.Token()
+	for ; err == nil; tok, err = dec.Token() {
 		switch v := tok.(type) {
 		case xml.StartElement:
 			switch v.Name.Local {
@@ -101,13 +101,13 @@ func (d *Document) parseWorkbook(dec *xml.Decoder) error {
 	return err
 }
 
-func (d *Document) parseStyles(dec *xml.Decoder) error {
+func (d *Document) parseStyles(dec *partReader) error {
 	baseNumFormats := []string{}
 	d.xfs = d.xfs[:0]
 
 	section := 0
-	tok, err := dec.RawToken()
-	for ; err == nil; tok, err = dec.RawToken() {
+	tok, err := dec.Token()
+	for ; err == nil; tok, err = dec.Token() {
 		switch v := tok.(type) {
 		case xml.StartElement:
 			switch v.Name.Local {
@@ -181,10 +181,10 @@ func (d *Document) parseStyles(dec *xml.Decoder) error {
 	return err
 }
 
-func (d *Document) parseSharedStrings(dec *xml.Decoder) error {
+func (d *Document) parseSharedStrings(dec *partReader) error {
 	val := ""
-	tok, err := dec.RawToken()
-	for ; err == nil; tok, err = dec.RawToken() {
+	tok, err := dec.Token()
+	for ; err == nil; tok, err = dec.Token() {
 		switch v := tok.(type) {
 		case xml.CharData:
 			val += string(v)
diff --git a/xlsx/xlsx.go b/xlsx/xlsx.go
index 3d5eaad..864c44d 100644
--- a/xlsx/xlsx.go
+++ b/xlsx/xlsx.go
@@ -132,7 +132,25 @@ func Open(filename string) (grate.Source, error) {
 	return d, nil
 }
 
-func (d *Document) openXML(name string) (*xml.Decoder, io.Closer, error) {
+// partReader reads the tokens of an XML part.
+type partReader struct {
+	*xml.Decoder
+	started bool
+}
+
+// Token returns the next token. It fails when the part ends too early.
+func (p *partReader) Token() (xml.Token, error) {
+	tok, err := p.Decoder.Token()
+	if _, ok := tok.(xml.StartElement); ok {
+		p.started = true
+	}
+	if err == io.EOF && !p.started {
+		err = io.ErrUnexpectedEOF
+	}
+	return tok, err
+}
+
+func (d *Document) openXML(name string) (*partReader, io.Closer, error) {
 	if grate.Debug {
 		log.Println("    openXML", name)
 	}
@@ -143,7 +161,7 @@ func (d *Document) openXML(name string) (*xml.Decoder, io.Closer, error) {
 				return nil, nil, err
 			}
 			dec := xml.NewDecoder(zfr)
-			return dec, zfr, nil
+			return &partReader{Decoder: dec}, zfr, nil
 		}
 	}
 	return nil, nil, io.EOF
-- 
2.43.0


From f4eb2881fe2255c8c2d2e96d30bdbe4ab57fe0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:55 +0000
Subject: [PATCH 39/73] fix: xlsx: references outside of the largest sheet name
 no cell

---
 xlsx/sheets.go |  6 ++++++
 xlsx/types.go  | 33 ++++++++++++++++++++++++++-------
 2 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index 1286e08..efb7a45 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -156,6 +156,9 @@ func (s *Sheet) parseSheet() error {
 				if len(dims) > 1 {
 					endCol, endRow = refToIndexes(dims[1])
 				}
+				if startCol < 0 || endCol < 0 {
+					continue
+				}
 				if endRow > maxRow {
 					endRow = maxRow
 				}
@@ -185,6 +188,9 @@ func (s *Sheet) parseSheet() error {
 			case "hyperlink":
 				ax := getAttrs(v.Attr, "ref", "id")
 				col, row := refToIndexes(ax[0])
+				if col < 0 {
+					continue
+				}
 				link := linkmap[ax[1]]
 				s.wrapped.Put(row, col, link, 0)
 				s.wrapped.SetURL(row, col, link)
diff --git a/xlsx/types.go b/xlsx/types.go
index 427c0c0..a9380ad 100644
--- a/xlsx/types.go
+++ b/xlsx/types.go
@@ -48,6 +48,9 @@ func (s staticCellType) String() string {
 func col2int(col string) int {
 	idx := 0
 	for _, c := range col {
+		if c < 'A' || c > 'Z' || idx > maxCols {
+			return -1
+		}
 		idx *= 26
 		idx += int(c - '@')
 	}
@@ -67,16 +70,32 @@ func refToIndexes(r string) (column, row int) {
 	col1 := r[:i1]
 	i2 := strings.IndexByte(r[i1:], 'C')
 	if i2 == -1 {
-		rn, _ := strconv.ParseInt(r[i1:], 10, 64)
-		return col2int(col1), int(rn) - 1
+		rn, err := strconv.ParseUint(r[i1:], 10, 64)
+		return checkRef(col2int(col1), rn, err)
 	}
 
 	// R1C1 Reference Mode
-	col1 = r[i1:i2]
-	row1 := r[i2+1:]
-	cn, _ := strconv.ParseInt(col1, 10, 64)
-	rn, _ := strconv.ParseInt(row1, 10, 64)
-	return int(cn), int(rn) - 1
+	row1 := r[i1 : i1+i2]
+	cn, err := strconv.ParseUint(r[i1+i2+1:], 10, 64)
+	if err != nil || col1 != "R" || cn > maxCols {
+		return -1, -1
+	}
+	rn, err := strconv.ParseUint(row1, 10, 64)
+	return checkRef(int(cn)-1, rn, err)
+}
+
+// size of the largest sheet
+const (
+	maxCols = 16384
+	maxRows = 1048576
+)
+
+// checkRef returns the indexes of a cell, or -1 when there is no such cell.
+func checkRef(column int, rn uint64, err error) (int, int) {
+	if err != nil || rn < 1 || rn > maxRows || column < 0 || column >= maxCols {
+		return -1, -1
+	}
+	return column, int(rn) - 1
 }
 
 func getAttrs(attrs []xml.Attr, keys ...string) []string {
-- 
2.43.0


From 24c93beb934df047043ff88d2fe9ad4e69be725a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:56 +0000
Subject: [PATCH 40/73] fix: xlsx: shared string and style indexes are checked

---
 xlsx/sheets.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index efb7a45..e5171e2 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -93,7 +93,10 @@ func (s *Sheet) parseSheet() error {
 					//log.Println("CELL NUMBER", val, numFormat)
 				case SharedStringCellType:
 					//log.Println("CELL SHSTR", val, currentCellType, numFormat)
-					si, _ := strconv.ParseInt(string(v), 10, 64)
+					si, err := strconv.ParseInt(string(v), 10, 64)
+					if err != nil || si < 0 || si >= int64(len(s.d.strings)) {
+						return errors.New("xlsx: invalid shared string index")
+					}
 					val = s.d.strings[si]
 				case BlankCellType:
 					//log.Println("CELL BLANK")
@@ -138,8 +141,11 @@ func (s *Sheet) parseSheet() error {
 				}
 				currentCell = ax[1] // always an A1 style reference
 				style := ax[2]
-				sid, _ := strconv.ParseInt(style, 10, 64)
-				if len(s.d.xfs) > int(sid) {
+				sid, err := strconv.ParseInt(style, 10, 64)
+				if style == "" {
+					sid, err = 0, nil
+				}
+				if err == nil && sid >= 0 && int64(len(s.d.xfs)) > sid {
 					fno = s.d.xfs[sid]
 				} else {
 					fno = 0
-- 
2.43.0


From 11dfdbb17705b45a70f43d36149e5433fdc3abba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:40 +0000
Subject: [PATCH 41/73] fix: xlsx: style tables keep inherited formats and do
 not panic

---
 xlsx/workbook.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index 0d72cd1..f0ef6ec 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -115,7 +115,10 @@ func (d *Document) parseStyles(dec *partReader) error {
 				// container
 			case "numFmt":
 				ax := getAttrs(v.Attr, "numFmtId", "formatCode")
-				fmtNo, _ := strconv.ParseInt(ax[0], 10, 16)
+				fmtNo, err := strconv.ParseUint(ax[0], 10, 16)
+				if err != nil {
+					continue
+				}
 				d.fmt.Add(uint16(fmtNo), ax[1])
 
 			case "cellStyleXfs":
@@ -123,7 +126,7 @@ func (d *Document) parseStyles(dec *partReader) error {
 			case "cellXfs":
 				section = 2
 				ax := getAttrs(v.Attr, "count")
-				n, _ := strconv.ParseInt(ax[0], 10, 64)
+				n, _ := strconv.ParseUint(ax[0], 10, 16)
 				d.xfs = make([]uint16, 0, n)
 
 			case "xf":
@@ -138,9 +141,12 @@ func (d *Document) parseStyles(dec *partReader) error {
 				} else if section == 2 {
 					// actual referencable cell styles
 					// 1) get base style so we can inherit format properly
-					baseID, _ := strconv.ParseInt(ax[2], 10, 64)
+					baseID, err := strconv.ParseUint(ax[2], 10, 31)
+					if err != nil && ax[2] != "" {
+						baseID = uint64(len(baseNumFormats))
+					}
 					numFmtID := "0"
-					if len(baseNumFormats) > int(baseID) {
+					if uint64(len(baseNumFormats)) > baseID {
 						numFmtID = baseNumFormats[baseID]
 					}
 
@@ -148,14 +154,17 @@ func (d *Document) parseStyles(dec *partReader) error {
 					if ax[1] == "0" {
 						// remove the format (if it was inherited)
 						numFmtID = "0"
-					} else {
+					} else if ax[0] != "" {
 						numFmtID = ax[0]
 					}
 
-					nfid, _ := strconv.ParseInt(numFmtID, 10, 16)
+					nfid, err := strconv.ParseUint(numFmtID, 10, 16)
+					if err != nil {
+						nfid = 0
+					}
 					d.xfs = append(d.xfs, uint16(nfid))
-				} else {
-					panic("wheres is this xf??")
+				} else if grate.Debug {
+					log.Println("  Style xf outside of its lists")
 				}
 			default:
 				if grate.Debug {
-- 
2.43.0


From 98afbecc7789f965dd2cc6fd9bacaf21fe1be9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:41 +0000
Subject: [PATCH 42/73] fix: xlsx: dates use the date system of the workbook

---
 xlsx/workbook.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index f0ef6ec..4b0f0c1 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -80,6 +80,9 @@ func (d *Document) parseWorkbook(dec *partReader) error {
 					err:     errNotLoaded,
 				}
 				d.sheets = append(d.sheets, s)
+			case "workbookPr":
+				ax := getAttrs(v.Attr, "date1904")
+				d.fmt.Mode1904(ax[0] == "1" || ax[0] == "true")
 			case "workbook", "sheets":
 				// containers
 			default:
-- 
2.43.0


From 20d5ddbd8391e26089844dcc699c4926bd7f69eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:42 +0000
Subject: [PATCH 43/73] fix: xlsx: the primary document may have an absolute
 path

---
 xlsx/workbook.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index 4b0f0c1..9ea9ac0 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -35,7 +35,7 @@ func (d *Document) parseRels(dec *partReader, basedir string) error {
 					d.rels[vals["Type"]][vals["Id"]] = filepath.Join(basedir, vals["Target"])
 				}
 				if vals["Type"] == "http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument" {
-					d.primaryDoc = vals["Target"]
+					d.primaryDoc = d.rels[vals["Type"]][vals["Id"]]
 				}
 			default:
 				if grate.Debug {
-- 
2.43.0


From 45e1a6cebe9936686fb4ff9423a842d6cb73969a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:43 +0000
Subject: [PATCH 44/73] fix: xlsx: every fetched sheet starts before its first
 row

---
 xlsx/xlsx.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xlsx/xlsx.go b/xlsx/xlsx.go
index 864c44d..c83faaf 100644
--- a/xlsx/xlsx.go
+++ b/xlsx/xlsx.go
@@ -181,7 +181,11 @@ func (d *Document) Get(sheetName string) (grate.Collection, error) {
 			if s.err == errNotLoaded {
 				s.err = s.parseSheet()
 			}
-			return s.wrapped, s.err
+			if s.err != nil {
+				return nil, s.err
+			}
+			w := *s.wrapped // stands before the first row
+			return &w, nil
 		}
 	}
 	return nil, errors.New("xlsx: sheet not found")
-- 
2.43.0


From 975aaa812b12d4f476a4fa6f7d6e26f1368e7664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:45 +0000
Subject: [PATCH 45/73] fix: xlsx: shared strings leave out layout and phonetic
 hints

---
 xlsx/types.go    | 29 +++++++++++++++++++++++++++++
 xlsx/workbook.go |  5 +++++
 2 files changed, 34 insertions(+)

diff --git a/xlsx/types.go b/xlsx/types.go
index a9380ad..4fed5c8 100644
--- a/xlsx/types.go
+++ b/xlsx/types.go
@@ -98,6 +98,35 @@ func checkRef(column int, rn uint64, err error) (int, int) {
 	return column, int(rn) - 1
 }
 
+// textScope tells whether character data is the text of a string, and not layout or
+// a phonetic hint.
+type textScope struct {
+	text, phonetic bool
+}
+
+func (s *textScope) enter(tok xml.Token) {
+	switch v := tok.(type) {
+	case xml.StartElement:
+		switch v.Name.Local {
+		case "t":
+			s.text = true
+		case "rPh":
+			s.phonetic = true
+		}
+	case xml.EndElement:
+		switch v.Name.Local {
+		case "t":
+			s.text = false
+		case "rPh":
+			s.phonetic = false
+		}
+	}
+}
+
+func (s *textScope) shown() bool {
+	return s.text && !s.phonetic
+}
+
 func getAttrs(attrs []xml.Attr, keys ...string) []string {
 	res := make([]string, len(keys))
 	for _, a := range attrs {
diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index 9ea9ac0..4b4e738 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -195,10 +195,15 @@ func (d *Document) parseStyles(dec *partReader) error {
 
 func (d *Document) parseSharedStrings(dec *partReader) error {
 	val := ""
+	var text textScope
 	tok, err := dec.Token()
 	for ; err == nil; tok, err = dec.Token() {
+		text.enter(tok)
 		switch v := tok.(type) {
 		case xml.CharData:
+			if !text.shown() {
+				continue
+			}
 			val += string(v)
 		case xml.StartElement:
 			switch v.Name.Local {
-- 
2.43.0


From 8236e8ac8ef5d766e346071ddb293d48ee48c133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:46 +0000
Subject: [PATCH 46/73] fix: xlsx: cells show their complete value, and only
 that

---
 xlsx/sheets.go |  5 +++--
 xlsx/types.go  | 46 ++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 49 insertions(+), 2 deletions(-)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index e5171e2..5eb6898 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -65,8 +65,9 @@ func (s *Sheet) parseSheet() error {
 	var fno uint16
 	var maxCol, maxRow int
 
-	tok, err := dec.Token()
-	for ; err == nil; tok, err = dec.Token() {
+	cells := cellReader{dec: dec}
+	tok, err := cells.Token()
+	for ; err == nil; tok, err = cells.Token() {
 		switch v := tok.(type) {
 		case xml.CharData:
 			if currentCell == "" {
diff --git a/xlsx/types.go b/xlsx/types.go
index 4fed5c8..8d6dce4 100644
--- a/xlsx/types.go
+++ b/xlsx/types.go
@@ -127,6 +127,52 @@ func (s *textScope) shown() bool {
 	return s.text && !s.phonetic
 }
 
+// cellReader delivers the tokens of a sheet. The text of each cell comes in one piece
+// at the end of the cell, without formulas, layout and phonetic hints.
+type cellReader struct {
+	dec    *partReader
+	text   textScope
+	value  bool
+	pieces xml.CharData
+	end    xml.Token
+}
+
+func (c *cellReader) Token() (xml.Token, error) {
+	if tok := c.end; tok != nil {
+		c.end = nil
+		return tok, nil
+	}
+	for {
+		tok, err := c.dec.Token()
+		c.text.enter(tok)
+		switch v := tok.(type) {
+		case xml.CharData:
+			if c.value || c.text.shown() {
+				c.pieces = append(c.pieces, v...)
+			}
+			continue
+		case xml.StartElement:
+			switch v.Name.Local {
+			case "c":
+				c.pieces = nil
+			case "v":
+				c.value = true
+			}
+		case xml.EndElement:
+			switch v.Name.Local {
+			case "v":
+				c.value = false
+			case "c":
+				if len(c.pieces) > 0 {
+					c.end = tok
+					return c.pieces, nil
+				}
+			}
+		}
+		return tok, err
+	}
+}
+
 func getAttrs(attrs []xml.Attr, keys ...string) []string {
 	res := make([]string, len(keys))
 	for _, a := range attrs {
-- 
2.43.0


From 2ae951190124ed5198aba64b655fc0141565c77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:47 +0000
Subject: [PATCH 47/73] fix: xlsx: dimensions and merged ranges cover exactly
 the cells they name

---
 xlsx/sheets.go | 42 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index 5eb6898..06febc9 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -24,6 +24,23 @@ type Sheet struct {
 	wrapped *commonxl.Sheet
 }
 
+// maxCells is the number of cells that a sheet may have to hold.
+const maxCells = 1 << 27
+
+// room tells whether the sheet can hold the cell.
+func (s *Sheet) room(row, col int) error {
+	if row < s.wrapped.NumRows {
+		row = s.wrapped.NumRows - 1
+	}
+	if col < s.wrapped.NumCols {
+		col = s.wrapped.NumCols - 1
+	}
+	if (row+1)*(col+1) > maxCells {
+		return errors.New("xlsx: sheet too large")
+	}
+	return nil
+}
+
 var errNotLoaded = errors.New("xlsx: sheet not loaded")
 
 func (s *Sheet) parseSheet() error {
@@ -63,7 +80,7 @@ func (s *Sheet) parseSheet() error {
 	currentCellType := BlankCellType
 	currentCell := ""
 	var fno uint16
-	var maxCol, maxRow int
+	maxCol, maxRow := maxCols-1, maxRows-1
 
 	cells := cellReader{dec: dec}
 	tok, err := cells.Token()
@@ -108,6 +125,9 @@ func (s *Sheet) parseSheet() error {
 				default:
 					log.Println("CELL UNKNOWN", val, currentCellType, fno)
 				}
+				if err := s.room(r, c); err != nil {
+					return err
+				}
 				s.wrapped.Put(r, c, val, fno)
 			} else {
 				//log.Println("FAIL row/col: ", currentCell)
@@ -117,7 +137,7 @@ func (s *Sheet) parseSheet() error {
 			case "dimension":
 				ax := getAttrs(v.Attr, "ref")
 				if ax[0] == "A1" {
-					maxCol, maxRow = 1, 1
+					maxCol, maxRow = 0, 0
 					// short-circuit empty sheet
 					s.wrapped.Resize(1, 1)
 					continue
@@ -129,7 +149,12 @@ func (s *Sheet) parseSheet() error {
 					//minCol, minRow := refToIndexes(dims[0])
 					maxCol, maxRow = refToIndexes(dims[1])
 				}
-				s.wrapped.Resize(maxRow, maxCol)
+				if maxCol < 0 || maxRow < 0 || s.wrapped.Rows != nil || s.room(maxRow, maxCol) != nil {
+					// use the cells that are there
+					maxCol, maxRow = maxCols-1, maxRows-1
+					continue
+				}
+				s.wrapped.Resize(maxRow+1, maxCol+1)
 				//log.Println("DIMENSION:", s.minRow, s.minCol, ">", s.maxRow, s.maxCol)
 			case "row":
 				//currentRow = ax["r"] // unsigned int row index
@@ -166,12 +191,23 @@ func (s *Sheet) parseSheet() error {
 				if startCol < 0 || endCol < 0 {
 					continue
 				}
+				if maxRow < s.wrapped.NumRows-1 {
+					maxRow = s.wrapped.NumRows - 1
+				}
+				if maxCol < s.wrapped.NumCols-1 {
+					maxCol = s.wrapped.NumCols - 1
+				}
 				if endRow > maxRow {
 					endRow = maxRow
 				}
 				if endCol > maxCol {
 					endCol = maxCol
 				}
+				if startRow <= endRow && startCol <= endCol {
+					if err := s.room(endRow, endCol); err != nil {
+						return err
+					}
+				}
 				for r := startRow; r <= endRow; r++ {
 					for c := startCol; c <= endCol; c++ {
 						if r == startRow && c == startCol {
-- 
2.43.0


From 35076755c75190b5769e2d68b0e366858a87d96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:48 +0000
Subject: [PATCH 48/73] fix: xlsx: hyperlinks keep the content of their cells

---
 xlsx/sheets.go | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index 06febc9..2095ef3 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -230,13 +230,35 @@ func (s *Sheet) parseSheet() error {
 
 			case "hyperlink":
 				ax := getAttrs(v.Attr, "ref", "id")
-				col, row := refToIndexes(ax[0])
-				if col < 0 {
+				dims := strings.Split(ax[0], ":")
+				col, row := refToIndexes(dims[0])
+				endCol, endRow := col, row
+				if len(dims) > 1 {
+					endCol, endRow = refToIndexes(dims[1])
+				}
+				link, ok := linkmap[ax[1]]
+				if col < 0 || endCol < col || endRow < row || !ok {
 					continue
 				}
-				link := linkmap[ax[1]]
-				s.wrapped.Put(row, col, link, 0)
-				s.wrapped.SetURL(row, col, link)
+				if err := s.room(endRow, endCol); err != nil {
+					return err
+				}
+				startCol := col
+				for ; row <= endRow; row++ {
+					for col = startCol; col <= endCol; col++ {
+						ct := commonxl.BlankCell
+						if row < s.wrapped.NumRows && col < s.wrapped.NumCols {
+							ct = s.wrapped.Rows[row][col].Type()
+						}
+						if ct == commonxl.StaticCell {
+							continue // part of a merged cell
+						}
+						if ct == commonxl.BlankCell {
+							s.wrapped.Put(row, col, link, 0)
+						}
+						s.wrapped.SetURL(row, col, link)
+					}
+				}
 
 			case "worksheet", "mergeCells", "hyperlinks":
 				// containers
-- 
2.43.0


From 752f0b26427da6d41cb37d356400081574dbe1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:19 +0000
Subject: [PATCH 49/73] fix: commonxl: adding rows to a sheet does not visit
 all others

---
 commonxl/sheet.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index c5217c3..637b643 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -32,6 +32,9 @@ func (s *Sheet) Resize(rows, cols int) {
 		s.Rows = s.Rows[:rows]
 	}
 	for i := range s.Rows {
+		if len(s.Rows[i]) == cols {
+			break // as wide as all the others
+		}
 		if len(s.Rows[i]) > cols {
 			s.Rows[i] = s.Rows[i][:cols]
 		}
-- 
2.43.0


From 86fcb5a9b248da2ddbbde95c251bde1c50d31819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:29 +0000
Subject: [PATCH 50/73] fix: xlsx: hyperlinks on whole columns end with the
 sheet

---
 xlsx/sheets.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index 2095ef3..2648508 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -236,6 +236,13 @@ func (s *Sheet) parseSheet() error {
 				if len(dims) > 1 {
 					endCol, endRow = refToIndexes(dims[1])
 				}
+				// links on whole columns or rows end with the sheet
+				if endRow == maxRows-1 && row <= maxRow {
+					endRow = maxRow
+				}
+				if endCol == maxCols-1 && col <= maxCol {
+					endCol = maxCol
+				}
 				link, ok := linkmap[ax[1]]
 				if col < 0 || endCol < col || endRow < row || !ok {
 					continue
-- 
2.43.0


From 901c26c9ceb308e3d84819850de26bc011c78fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:20 +0000
Subject: [PATCH 51/73] fix: simple: a CSV file that was read to its end opens
 without error

---
 simple/csv.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simple/csv.go b/simple/csv.go
index 8df92e5..89ff8fd 100644
--- a/simple/csv.go
+++ b/simple/csv.go
@@ -2,6 +2,7 @@ package simple
 
 import (
 	"encoding/csv"
+	"io"
 	"os"
 
 	"github.com/pbnjay/grate"
@@ -33,7 +34,7 @@ func OpenCSV(filename string) (grate.Source, error) {
 		total++
 		t.rows = append(t.rows, rec)
 	}
-	if err != nil {
+	if err != io.EOF {
 		switch perr := err.(type) {
 		case *csv.ParseError:
 			return nil, grate.WrapErr(perr, grate.ErrNotInFormat)
-- 
2.43.0


From af26dfe232d95b626a90276d8b68d0e3b5e0a2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 52/73] fix: simple: every fetched table starts before its
 first row

---
 simple/simple.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simple/simple.go b/simple/simple.go
index b26669e..bbeac79 100644
--- a/simple/simple.go
+++ b/simple/simple.go
@@ -29,7 +29,9 @@ func (t *simpleFile) Close() error {
 
 // Get a Collection from the source by name.
 func (t *simpleFile) Get(name string) (grate.Collection, error) {
-	return t, nil
+	c := *t
+	c.iterRow = -1
+	return &c, nil
 }
 
 // Next advances to the next record of content.
-- 
2.43.0


From 7f8141cc2c4f334e952458773533c04509cb63c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 53/73] fix: simple: Scan supports int64 and fails without a
 record

---
 simple/simple.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simple/simple.go b/simple/simple.go
index bbeac79..92ae03d 100644
--- a/simple/simple.go
+++ b/simple/simple.go
@@ -72,9 +72,12 @@ func (t *simpleFile) Types() []string {
 
 // Scan extracts values from the current record into the provided arguments
 // Arguments must be pointers to one of 5 supported types:
-//     bool, int, float64, string, or time.Time
+//     bool, int64 (or int), float64, string, or time.Time
 func (t *simpleFile) Scan(args ...interface{}) error {
 	var err error
+	if t.iterRow < 0 || t.iterRow >= len(t.rows) {
+		return errors.New("grate/simple: Scan called without a record, see Next")
+	}
 	row := t.rows[t.iterRow]
 	if len(row) != len(args) {
 		return fmt.Errorf("grate/simple: expected %d Scan destinations, got %d", len(row), len(args))
@@ -93,6 +96,8 @@ func (t *simpleFile) Scan(args ...interface{}) error {
 			var n int64
 			n, err = strconv.ParseInt(row[i], 10, 64)
 			*v = int(n)
+		case *int64:
+			*v, err = strconv.ParseInt(row[i], 10, 64)
 		case *float64:
 			*v, err = strconv.ParseFloat(row[i], 64)
 		case *string:
-- 
2.43.0


From 6dbc150b2578adfe1236b57edb08c962b0ab112d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:44 +0000
Subject: [PATCH 54/73] fix: wrapped errors can be compared

Comparing two errors made by WrapErr with == panicked because their type
is not comparable, and errors.Is did not recognise a wrapped error that
was wrapped again.
---
 errs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/errs.go b/errs.go
index 546f627..30215ab 100644
--- a/errs.go
+++ b/errs.go
@@ -46,5 +46,5 @@ func WrapErr(e ...error) error {
 	if len(e) == 1 {
 		return e[0]
 	}
-	return errx{errs: e}
+	return &errx{errs: e}
 }
-- 
2.43.0


From 1bb919dafee21d82b040ca38c187c371d853dd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:38 +0000
Subject: [PATCH 55/73] fix: commonxl: number formats show every kind of
 number, and only numbers are decorated

---
 commonxl/fmt.go | 45 +++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index 8a3ea59..5641e06 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -2,6 +2,7 @@ package commonxl
 
 import (
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 )
@@ -15,15 +16,18 @@ func staticFmtFunc(s string) FmtFunc {
 	}
 }
 
-// texts and absent values are shown unchanged by all number formats
-func isText(v interface{}) bool {
-	_, ok := v.(string)
-	return ok || v == nil
+// only numbers are decorated by number formats, all other values are shown unchanged
+func isNumber(v interface{}) bool {
+	if _, ok := v.(bool); ok {
+		return false
+	}
+	_, ok := convertToFloat64(v)
+	return ok
 }
 
 func surround(pre string, ff FmtFunc, post string) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
-		if isText(v) {
+		if !isNumber(v) {
 			return ff(x, v)
 		}
 		return pre + ff(x, v) + post
@@ -33,7 +37,7 @@ func surround(pre string, ff FmtFunc, post string) FmtFunc {
 func addNegParens(ff FmtFunc) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
 		s1 := ff(x, v)
-		if isText(v) {
+		if !isNumber(v) {
 			return s1
 		}
 		if s1[0] == '-' {
@@ -46,7 +50,7 @@ func addNegParens(ff FmtFunc) FmtFunc {
 func addCommas(ff FmtFunc) FmtFunc {
 	return func(x *Formatter, v interface{}) string {
 		s1 := ff(x, v)
-		if isText(v) {
+		if !isNumber(v) {
 			return s1
 		}
 		isNeg := false
@@ -103,21 +107,26 @@ func identFunc(x *Formatter, v interface{}) string {
 func sprintfFunc(fs string, mul int) FmtFunc {
 	wantInt64 := strings.Contains(fs, "%d")
 	return func(x *Formatter, v interface{}) string {
-		switch val := v.(type) {
+		if !isNumber(v) {
+			return identFunc(x, v)
+		}
+		switch v.(type) {
 		case int, uint, int64, uint64, int32, uint32, uint16, int16:
-			return fmt.Sprintf(fs, v)
-
-		case float64:
-			val *= float64(mul)
-			if wantInt64 {
-				v2 := int64(val)
-				return fmt.Sprintf(fs, v2)
+			if wantInt64 && mul == 1 {
+				return fmt.Sprintf(fs, v)
 			}
+		}
+		val, _ := convertToFloat64(v)
+		val *= float64(mul)
+		if !wantInt64 {
 			return fmt.Sprintf(fs, val)
-		case nil:
-			return ""
 		}
-		return fmt.Sprint(v)
+		val = math.Round(val)
+		if math.Abs(val) < math.MaxInt64 {
+			return fmt.Sprintf(fs, int64(val))
+		}
+		// beyond the integers
+		return fmt.Sprintf(strings.Replace(fs, "%d", "%.0f", 1), val)
 	}
 }
 
-- 
2.43.0


From 1deaae93b70003f4abe0d5160b49bdc8b9d0a2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:40 +0000
Subject: [PATCH 56/73] fix: commonxl: custom format codes are read part by
 part

---
 commonxl/dates.go   |  23 ++++
 commonxl/fmt.go     |  42 +++++++
 commonxl/formats.go | 299 ++++++++++++++++++++++++++++----------------
 3 files changed, 257 insertions(+), 107 deletions(-)

diff --git a/commonxl/dates.go b/commonxl/dates.go
index 88fe39e..b6d2be2 100644
--- a/commonxl/dates.go
+++ b/commonxl/dates.go
@@ -67,6 +67,29 @@ func timeFmtFunc(f string) FmtFunc {
 	}
 }
 
+// dateFmtFunc formats the parts with Go layouts, between the literal ones.
+func dateFmtFunc(parts []codePart) FmtFunc {
+	return func(x *Formatter, v interface{}) string {
+		t, ok := v.(time.Time)
+		if !ok {
+			fval, ok := convertToFloat64(v)
+			if !ok {
+				return identFunc(x, v)
+			}
+			t = x.ConvertToDate(fval)
+		}
+		s := ""
+		for _, p := range parts {
+			if p.literal {
+				s += p.text
+			} else {
+				s += t.Format(p.text)
+			}
+		}
+		return s
+	}
+}
+
 // same as above but replaces "AM" and "PM" with chinese translations.
 // TODO: implement others
 func cnTimeFmtFunc(f string) FmtFunc {
diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index 5641e06..d4efece 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -16,6 +16,12 @@ func staticFmtFunc(s string) FmtFunc {
 	}
 }
 
+// texts and absent values are shown unchanged by all number formats
+func isText(v interface{}) bool {
+	_, ok := v.(string)
+	return ok || v == nil
+}
+
 // only numbers are decorated by number formats, all other values are shown unchanged
 func isNumber(v interface{}) bool {
 	if _, ok := v.(bool); ok {
@@ -130,6 +136,42 @@ func sprintfFunc(fs string, mul int) FmtFunc {
 	}
 }
 
+// padWhole adds leading zeros until there are n digits before the decimals
+func padWhole(ff FmtFunc, n int) FmtFunc {
+	return func(x *Formatter, v interface{}) string {
+		s1 := ff(x, v)
+		if !isNumber(v) {
+			return s1
+		}
+		sign := ""
+		if s1[0] == '-' {
+			sign, s1 = "-", s1[1:]
+		}
+		digits := strings.IndexAny(s1, ".eE")
+		if digits < 0 {
+			digits = len(s1)
+		}
+		if digits < n {
+			s1 = strings.Repeat("0", n-digits) + s1
+		}
+		return sign + s1
+	}
+}
+
+// trimDecimals removes up to n zeros from the end of the decimals
+func trimDecimals(ff FmtFunc, n int) FmtFunc {
+	return func(x *Formatter, v interface{}) string {
+		s1 := ff(x, v)
+		if !isNumber(v) {
+			return s1
+		}
+		for i := 0; i < n && strings.HasSuffix(s1, "0"); i++ {
+			s1 = s1[:len(s1)-1]
+		}
+		return strings.TrimSuffix(s1, ".")
+	}
+}
+
 func convertToInt64(v interface{}) (int64, bool) {
 	x, ok := convertToFloat64(v)
 	return int64(x), ok
diff --git a/commonxl/formats.go b/commonxl/formats.go
index ab11f18..8b82b7d 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"regexp"
 	"strings"
+	"unicode/utf8"
 )
 
 // Formatter contains formatting methods common to Excel spreadsheets.
@@ -64,135 +65,219 @@ func (x *Formatter) getCellType(fmtID uint16) (CellType, bool) {
 }
 
 var (
-	minsMatch = regexp.MustCompile("h.*m.*s")
-	nonEsc    = regexp.MustCompile(`([^"]|^)"`)
-	squash    = regexp.MustCompile(`[*_].`)
-	fixEsc    = regexp.MustCompile(`\\(.)`)
-
-	formatMatchBrackets    = regexp.MustCompile(`\[[^\]]*\]`)
-	formatMatchTextLiteral = regexp.MustCompile(`"[^"]*"`)
+	elapsed   = regexp.MustCompile(`^(h+|m+|s+)$`)
+	dateField = regexp.MustCompile(`^(y+|m+|d+|h+|s+|\.0+|(?i:am/pm|a/p))`)
+	twelve    = regexp.MustCompile(`(?i:am/pm|a/p)`)
+	exponent  = regexp.MustCompile("[eE]+[+-]0+")
+	fraction  = regexp.MustCompile(`[0#?]/([0#?]{1,3})`)
+	places    = regexp.MustCompile(`[0#?,.]+`)
 )
 
-func makeFormatter(s string) (FmtFunc, CellType) {
-	//log.Printf("makeFormatter('%s')", s)
-	// remove any coloring marks
-	s = formatMatchBrackets.ReplaceAllString(s, "")
-	if strings.Contains(s, ";") {
-		parts := strings.Split(s, ";")
-		posFF, ctypePos := makeFormatter(parts[0])
-		rem := make([]FmtFunc, len(parts)-1)
-		for i, ps := range parts[1:] {
-			rem[i], _ = makeFormatter(ps)
-		}
-		return switchFmtFunc(posFF, rem...), ctypePos
-	}
-
-	// escaped characters, and quoted text
-	s2 := fixEsc.ReplaceAllString(s, "")
-	s2 = formatMatchTextLiteral.ReplaceAllString(s, "")
-
-	if strings.ContainsAny(s2, "ymdhs") {
-		// it's a date/time format
+// codePart is a part of a number format code.
+type codePart struct {
+	literal bool // shown as it is
+	text    string
+}
 
-		if loc := minsMatch.FindStringIndex(s); loc != nil {
-			// m or mm in loc[0]:loc[1] is a minute format
-			inner := s[loc[0]:loc[1]]
-			inner = strings.Replace(inner, "mm", "04", 1)
-			inner = strings.Replace(inner, "m", "4", 1)
-			s = s[:loc[0]] + inner + s[loc[1]:]
+// splitCode returns the parts of each section of a number format code.
+// Colors, conditions, fills and paddings are left out.
+func splitCode(s string) [][]codePart {
+	sections := make([][]codePart, 1)
+	add := func(literal bool, text string) {
+		last := len(sections) - 1
+		parts := sections[last]
+		if n := len(parts); n > 0 && parts[n-1].literal == literal {
+			parts[n-1].text += text
+		} else if len(text) > 0 {
+			sections[last] = append(parts, codePart{literal, text})
 		}
-		dfreps := [][]string{
-			{"hh", "15"}, {"h", "15"},
-			{"ss", "05"}, {"s", "5"},
-			{"mmmmm", "Jan"}, // super ambiguous, replace with 3-letter month
-			{"mmmm", "January"}, {"mmm", "Jan"},
-			{"mm", "01"}, {"m", "1"},
-			{"dddd", "Monday"}, {"ddd", "Mon"},
-			{"dd", "02"}, {"d", "2"},
-			{"yyyy", "2006"}, {"yy", "06"},
+	}
+	for len(s) > 0 {
+		c, text := s[0], s[1:]
+		s = text
+		switch c {
+		case '"':
+			if end := strings.IndexByte(text, '"'); end >= 0 {
+				text, s = text[:end], text[end+1:]
+			} else {
+				s = ""
+			}
+			add(true, text)
+		case '\\', '_', '*':
+			_, n := utf8.DecodeRuneInString(text)
+			if c == '\\' {
+				add(true, text[:n])
+			}
+			s = text[n:]
+		case '[':
+			if end := strings.IndexByte(text, ']'); end >= 0 {
+				if elapsed.MatchString(text[:end]) {
+					add(false, text[:end])
+				}
+				s = text[end+1:]
+			} else {
+				add(false, "[")
+			}
+		case ';':
+			sections = append(sections, nil)
+		default:
+			add(false, string([]byte{c}))
 		}
-		if strings.Contains(s, "AM") || strings.Contains(s, "PM") {
-			dfreps[0][1] = "03"
-			dfreps[1][1] = "3"
+	}
+	return sections
+}
+
+func makeFormatter(s string) (FmtFunc, CellType) {
+	//log.Printf("makeFormatter('%s')", s)
+	sections := splitCode(s)
+	ff, ctype := makeSection(sections[0])
+	if len(sections) > 1 {
+		rem := make([]FmtFunc, len(sections)-1)
+		for i, parts := range sections[1:] {
+			rem[i], _ = makeSection(parts)
 		}
-		for _, dfr := range dfreps {
-			s = strings.Replace(s, dfr[0], dfr[1], 1)
+		return switchFmtFunc(ff, rem...), ctype
+	}
+	return func(x *Formatter, v interface{}) string {
+		if isText(v) {
+			return identFunc(x, v)
 		}
+		return ff(x, v)
+	}, ctype
+}
 
-		s = nonEsc.ReplaceAllString(s, `$1`)
-		s = squash.ReplaceAllString(s, ``)
-		s = fixEsc.ReplaceAllString(s, `$1`)
-
-		//log.Printf("   made time formatter '%s'", s)
-		return timeFmtFunc(s), DateCell
+// makeSection returns the formatter for a single section of a format code.
+func makeSection(parts []codePart) (FmtFunc, CellType) {
+	code := ""
+	for _, p := range parts {
+		if !p.literal {
+			code += p.text
+		}
+	}
+	if strings.ContainsAny(code, "ymdhs") {
+		// it's a date/time format
+		return dateFmtFunc(dateLayout(parts, twelve.MatchString(code))), DateCell
+	}
+	if strings.Contains(code, "@") {
+		return identFunc, StringCell
 	}
 
-	var ff FmtFunc
-	var ctype CellType
-	if strings.ContainsAny(s, ".Ee") {
-		verb := "f"
-		if strings.ContainsAny(s, "Ee") {
-			verb = "E"
+	// the first run of digit places shows the number
+	pre, digits, post := "", "", ""
+	for _, p := range parts {
+		text := p.text
+		if !p.literal {
+			text = exponent.ReplaceAllString(text, "")
 		}
-		s = regexp.MustCompile("[eE]+[+-]0+").ReplaceAllString(s, "")
-		s2 := strings.ReplaceAll(s, ",", "")
-		i1 := strings.IndexAny(s2, "0")
-		i2 := strings.IndexByte(s2, '.')
-		i3 := strings.LastIndexAny(s2, "0.")
-		mul := 1
-		if strings.Contains(s2, "%") {
-			mul = 100
+		if loc := places.FindStringIndex(text); loc != nil && !p.literal && digits == "" {
+			pre, digits, text = pre+text[:loc[0]], text[loc[0]:loc[1]], text[loc[1]:]
 		}
-		sf := fmt.Sprintf("%%%d.%d%s", i3-i1, i3-i2, verb)
-		//log.Printf("   made float formatter '%s'", sf)
-		ff = sprintfFunc(sf, mul)
-		ctype = FloatCell
-	} else {
-		s2 := strings.ReplaceAll(s, ",", "")
-		i1 := strings.IndexAny(s2, "0")
-		i2 := strings.LastIndexAny(s2, "0.")
-		mul := 1
-		if strings.Contains(s2, "%") {
-			mul = 100
+		if digits == "" {
+			pre += text
+		} else {
+			post += text
 		}
-		sf := fmt.Sprintf("%%%dd", i2-i1)
-		if (i2 - i1) == 0 {
-			sf = "%d"
-		}
-		//log.Printf("   made int formatter '%s'", sf)
-		ff = sprintfFunc(sf, mul)
-		ctype = IntegerCell
+	}
+	if m := fraction.FindStringSubmatch(code); m != nil {
+		return fracFmtFunc(len(m[1])), FloatCell
+	}
+	if strings.EqualFold(strings.TrimSpace(code), "general") {
+		return identFunc, BlankCell
+	}
+	if digits == "" {
+		//log.Printf("   added static ('%s')", pre)
+		return staticFmtFunc(pre), BlankCell
 	}
 
-	if strings.Contains(s, ",") {
+	mul := 1
+	if strings.Contains(code, "%") {
+		mul = 100
+	}
+	whole, decimals := strings.ReplaceAll(digits, ",", ""), ""
+	if i := strings.IndexByte(whole, '.'); i >= 0 {
+		whole, decimals = whole[:i], strings.ReplaceAll(whole[i+1:], ".", "")
+	}
+	verb, ctype := "f", FloatCell
+	if exponent.MatchString(code) {
+		verb = "E"
+	} else if decimals == "" && mul == 1 {
+		verb, ctype = "d", IntegerCell
+	}
+	sf := "%d"
+	if verb != "d" {
+		sf = fmt.Sprintf("%%.%d%s", len(decimals), verb)
+	}
+	//log.Printf("   made number formatter '%s'", sf)
+	ff := sprintfFunc(sf, mul)
+	if verb == "f" {
+		ff = trimDecimals(ff, len(decimals)-len(strings.TrimRight(decimals, "#")))
+	}
+	ff = padWhole(ff, strings.Count(whole, "0"))
+	if strings.Contains(digits, ",") {
 		ff = addCommas(ff)
 		//log.Printf("   added commas")
 	}
+	if len(pre) > 0 || len(post) > 0 {
+		ff = surround(pre, ff, post)
+		//log.Printf("   added surround ('%s' ... '%s')", pre, post)
+	}
+	return ff, ctype
+}
 
-	surReg := regexp.MustCompile(`[0#?,.]+`)
-	prepost := surReg.Split(s, 2)
-	if len(prepost) > 0 && len(prepost[0]) > 0 {
-		prepost[0] = nonEsc.ReplaceAllString(prepost[0], `$1`)
-		prepost[0] = squash.ReplaceAllString(prepost[0], ``)
-		prepost[0] = fixEsc.ReplaceAllString(prepost[0], `$1`)
+// dateLayout returns the parts of a date format with its fields translated to Go layouts.
+func dateLayout(parts []codePart, hour12 bool) []codePart {
+	hours := []string{"15", "15"}
+	if hour12 {
+		hours = []string{"3", "03"}
 	}
-	if len(prepost) == 1 {
-		if prepost[0] == "@" {
-			return identFunc, StringCell
-		}
-		//log.Printf("   added static ('%s')", prepost[0])
-		return staticFmtFunc(prepost[0]), StringCell
+	minutes := []string{"4", "04"}
+	layouts := map[byte][]string{
+		'y': {"06", "06", "2006"},
+		'm': {"1", "01", "Jan", "January", "Jan"}, // mmmmm is super ambiguous, show the 3-letter month
+		'd': {"2", "02", "Mon", "Monday"},
+		'h': hours,
+		's': {"5", "05"},
 	}
-	if len(prepost[0]) > 0 || len(prepost[1]) > 0 {
-		prepost[1] = nonEsc.ReplaceAllString(prepost[1], `$1`)
-		prepost[1] = squash.ReplaceAllString(prepost[1], ``)
-		prepost[1] = fixEsc.ReplaceAllString(prepost[1], `$1`)
-
-		ff = surround(prepost[0], ff, prepost[1])
-		//log.Printf("   added surround ('%s' ... '%s')", prepost[0], prepost[1])
+	var res []codePart
+	lastField := byte(0)
+	lastIndex := 0
+	for _, p := range parts {
+		for s := p.text; len(s) > 0; {
+			field := ""
+			if !p.literal {
+				field = dateField.FindString(s)
+			}
+			if field == "" {
+				res = append(res, codePart{true, s[:1]})
+				s = s[1:]
+				continue
+			}
+			s = s[len(field):]
+			names, ok := layouts[field[0]]
+			if !ok {
+				if field[0] != '.' { // fractions of a second are the same in Go
+					field = "PM"
+				}
+				res = append(res, codePart{false, field})
+				continue
+			}
+			// m or mm next to hours or seconds are minutes
+			if field[0] == 'm' && len(field) <= 2 && lastField == 'h' {
+				names = minutes
+			}
+			if field[0] == 's' && lastField == 'm' {
+				if last := &res[lastIndex]; last.text == "1" || last.text == "01" {
+					last.text = minutes[len(last.text)-1]
+				}
+			}
+			lastField, lastIndex = field[0], len(res)
+			if len(field) > len(names) {
+				field = field[:len(names)]
+			}
+			res = append(res, codePart{false, names[len(field)-1]})
+		}
 	}
-
-	return ff, ctype
+	return res
 }
 
 // Get the number format func to use for formatting values,
-- 
2.43.0


From cfc0ef05a957e0c7623781a448ea4852a8f58a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:49 +0000
Subject: [PATCH 57/73] fix: cfb: the file is closed after it was loaded

---
 xls/cfb/interface.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xls/cfb/interface.go b/xls/cfb/interface.go
index ec5a6a9..26bd0af 100644
--- a/xls/cfb/interface.go
+++ b/xls/cfb/interface.go
@@ -13,6 +13,7 @@ func Open(filename string) (*Document, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer f.Close()
 	err = d.load(f)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 505d744fec11a1cb9fc7bdf075eae0c6a1817ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:50 +0000
Subject: [PATCH 58/73] fix: xlsx: a file that fails to open is closed

---
 xlsx/xlsx.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xlsx/xlsx.go b/xlsx/xlsx.go
index c83faaf..8164768 100644
--- a/xlsx/xlsx.go
+++ b/xlsx/xlsx.go
@@ -41,11 +41,16 @@ func (d *Document) Close() error {
 	return d.f.Close()
 }
 
-func Open(filename string) (grate.Source, error) {
+func Open(filename string) (src grate.Source, err error) {
 	f, err := os.Open(filename)
 	if err != nil {
 		return nil, err
 	}
+	defer func() {
+		if err != nil {
+			f.Close()
+		}
+	}()
 	info, err := f.Stat()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 75d4c563fb8e0d53feddc7eac65d4ae7d81788ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:50 +0000
Subject: [PATCH 59/73] fix: commonxl: built-in date formats show what their
 codes say

---
 commonxl/fmt.go     | 42 +++++++++++++++++++++---------------------
 commonxl/formats.go |  2 +-
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index d4efece..6a7989f 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -307,23 +307,23 @@ var goFormatters = map[uint16]FmtFunc{
 	21: timeFmtFunc(`15:04:05`),
 	22: timeFmtFunc(`1/2/06 15:04`),
 	45: timeFmtFunc(`04:05`),
-	46: timeFmtFunc(`3:04:05`),
-	47: timeFmtFunc(`0405.9`),
-	27: timeFmtFunc(`2006"年"1"月"`),
-	28: timeFmtFunc(`1"月"2"日"`),
-	29: timeFmtFunc(`1"月"2"日"`),
+	46: timeFmtFunc(`15:04:05`),
+	47: timeFmtFunc(`0405.0`),
+	27: timeFmtFunc(`2006年1月`),
+	28: timeFmtFunc(`1月2日`),
+	29: timeFmtFunc(`1月2日`),
 	30: timeFmtFunc(`1-2-06`),
-	31: timeFmtFunc(`2006"年"1"月"2"日"`),
-	32: timeFmtFunc(`15"时"04"分"`),
-	33: timeFmtFunc(`15"时"04"分"05"秒"`),
-	36: timeFmtFunc(`2006"年"2"月"`),
-	50: timeFmtFunc(`2006"年"2"月"`),
-	51: timeFmtFunc(`1"月"2"日"`),
-	52: timeFmtFunc(`2006"年"1"月"`),
-	53: timeFmtFunc(`1"月"2"日"`),
-	54: timeFmtFunc(`1"月"2"日"`),
-	57: timeFmtFunc(`2006"年"1"月"`),
-	58: timeFmtFunc(`1"月"2"日"`),
+	31: timeFmtFunc(`2006年1月2日`),
+	32: timeFmtFunc(`15时04分`),
+	33: timeFmtFunc(`15时04分05秒`),
+	36: timeFmtFunc(`2006年1月`),
+	50: timeFmtFunc(`2006年1月`),
+	51: timeFmtFunc(`1月2日`),
+	52: timeFmtFunc(`2006年1月`),
+	53: timeFmtFunc(`1月2日`),
+	54: timeFmtFunc(`1月2日`),
+	57: timeFmtFunc(`2006年1月`),
+	58: timeFmtFunc(`1月2日`),
 	71: timeFmtFunc(`2/1/2006`),
 	72: timeFmtFunc(`2-Jan-06`),
 	73: timeFmtFunc(`2-Jan`),
@@ -333,15 +333,15 @@ var goFormatters = map[uint16]FmtFunc{
 	77: timeFmtFunc(`2/1/2006 15:04`),
 	78: timeFmtFunc(`04:05`),
 	79: timeFmtFunc(`15:04:05`),
-	80: timeFmtFunc(`04:05.9`),
+	80: timeFmtFunc(`04:05.0`),
 	81: timeFmtFunc(`2/1/06`),
 	18: timeFmtFunc(`3:04 PM`),
 	19: timeFmtFunc(`3:04:05 PM`),
 
-	34: cnTimeFmtFunc(`PM 3"时"04"分"`),
-	35: cnTimeFmtFunc(`PM 3"时"04"分"05"秒"`),
-	55: cnTimeFmtFunc(`PM 3"时"04"分"`),
-	56: cnTimeFmtFunc(`PM 3"时"04"分"05"秒`),
+	34: cnTimeFmtFunc(`PM 3时04分`),
+	35: cnTimeFmtFunc(`PM 3时04分05秒`),
+	55: cnTimeFmtFunc(`PM 3时04分`),
+	56: cnTimeFmtFunc(`PM 3时04分05秒`),
 
 	12: fracFmtFunc(1),
 	13: fracFmtFunc(2),
diff --git a/commonxl/formats.go b/commonxl/formats.go
index 8b82b7d..bc3ad79 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -364,7 +364,7 @@ var builtInFormats = map[uint16]string{
 	53: `m"月"d"日"`,
 	54: `m"月"d"日"`,
 	55: `上午/下午 h"时"mm"分"`,
-	56: `上午/下午 h"时"mm"分"ss"秒`,
+	56: `上午/下午 h"时"mm"分"ss"秒"`,
 	57: `yyyy"年"m"月"`,
 	58: `m"月"d"日"`,
 
-- 
2.43.0


From 127cdb351ebeb6e4c0ced1b98890bd7725a2c818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:45 +0000
Subject: [PATCH 60/73] fix: commonxl: fractions of tiny, negative and very
 large numbers

---
 commonxl/fmt.go     | 3 +++
 commonxl/numbers.go | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index 6a7989f..7575e81 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -234,6 +234,9 @@ func fracFmtFunc(n int) FmtFunc {
 		if !ok {
 			return identFunc(x, v)
 		}
+		if f != 0 && f == math.Trunc(f) {
+			return strconv.FormatFloat(f, 'f', 0, 64)
+		}
 		w, n, d := DecimalToWholeFraction(f, n, n)
 		if n == 0 {
 			return fmt.Sprintf("%d", w)
diff --git a/commonxl/numbers.go b/commonxl/numbers.go
index c3df4c2..36838cb 100644
--- a/commonxl/numbers.go
+++ b/commonxl/numbers.go
@@ -40,11 +40,15 @@ func DecimalToFraction(val float64, nn, nd int) (num, den int) {
 	maxn := math.Pow(10.0, float64(nn)) // numerator with nn digits
 	maxd := math.Pow(10.0, float64(nd)) // denominator with nd digits
 
+	val = z
 	_, fracPart := math.Modf(val)
 	if fracPart == 0.0 {
 		return int(z) * sign, 1
 	}
 	if fracPart < 1e-9 {
+		if val > 1 || maxd <= 1e9 {
+			return int(z) * sign, 1
+		}
 		return sign, int(1e9)
 	}
 	if fracPart > 1e9 {
@@ -53,7 +57,7 @@ func DecimalToFraction(val float64, nn, nd int) (num, den int) {
 
 	diff := 1.0
 	denom := 1.0
-	numer := 0.0
+	numer := math.Floor(val)
 	var lastDenom, lastNumer float64
 	for diff > 1e-10 && z != math.Floor(z) {
 		z = 1 / (z - math.Floor(z))
-- 
2.43.0


From 19094ba7f5408ebbcd8dee1b28090f3b60aed5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:13 +0000
Subject: [PATCH 61/73] fix: simple: lists that a row returns are the caller's
 own

---
 simple/simple.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simple/simple.go b/simple/simple.go
index 92ae03d..6a84b07 100644
--- a/simple/simple.go
+++ b/simple/simple.go
@@ -43,7 +43,9 @@ func (t *simpleFile) Next() bool {
 
 // Strings extracts values from the current record into a list of strings.
 func (t *simpleFile) Strings() []string {
-	return t.rows[t.iterRow]
+	res := make([]string, len(t.rows[t.iterRow]))
+	copy(res, t.rows[t.iterRow])
+	return res
 }
 
 // Formats extracts the format code for the current record into a list.
-- 
2.43.0


From 60674a42c66f132834ca2044624e36c7f5074fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:48 +0000
Subject: [PATCH 62/73] fix: xlsx: boolean cells may hold the word true

---
 xlsx/sheets.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index 2648508..101e12c 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -96,7 +96,7 @@ func (s *Sheet) parseSheet() error {
 
 				switch currentCellType {
 				case BooleanCellType:
-					if v[0] == '1' {
+					if v[0] == '1' || string(v) == "true" {
 						val = true
 					} else {
 						val = false
-- 
2.43.0


From 3d1e2cf12416d283830ed8f789a35baf7be8f15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:11 +0000
Subject: [PATCH 63/73] fix: grate2tsv: at least one worker

With a single processor no worker was started and the command waited forever.
---
 cmd/grate2tsv/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/grate2tsv/main.go b/cmd/grate2tsv/main.go
index 61550e4..73d0945 100644
--- a/cmd/grate2tsv/main.go
+++ b/cmd/grate2tsv/main.go
@@ -119,6 +119,9 @@ func main() {
 	// (e.g. each file-processor can use 2 cpus)
 	outMu := &sync.Mutex{}
 	nparallel := runtime.NumCPU() / 2
+	if nparallel < 1 {
+		nparallel = 1
+	}
 	procWG.Add(nparallel)
 	for i := 0; i < nparallel; i++ {
 		go runProcessor(filenameChan, outMu)
-- 
2.43.0


From 8c6c314a2a6eac3066db083cfbb5f26a139bcd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:11 +0000
Subject: [PATCH 64/73] fix: grate2tsv: condensed cells are written without -w
 too

---
 cmd/grate2tsv/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/grate2tsv/main.go b/cmd/grate2tsv/main.go
index 73d0945..8fe84d2 100644
--- a/cmd/grate2tsv/main.go
+++ b/cmd/grate2tsv/main.go
@@ -240,8 +240,8 @@ func processFile(fn string) ([]stats, error) {
 				}
 				if *trimSpaces {
 					x = strings.TrimSpace(x)
-					row[i] = x
 				}
+				row[i] = x
 				if x != "" {
 					nonblank = true
 					if ps.NumCols < i {
-- 
2.43.0


From 76ccf1571d7f021b8952b6d75bd84579f206e0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:12 +0000
Subject: [PATCH 65/73] fix: grate2tsv: count columns from one

---
 cmd/grate2tsv/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/grate2tsv/main.go b/cmd/grate2tsv/main.go
index 8fe84d2..bb46403 100644
--- a/cmd/grate2tsv/main.go
+++ b/cmd/grate2tsv/main.go
@@ -244,8 +244,8 @@ func processFile(fn string) ([]stats, error) {
 				row[i] = x
 				if x != "" {
 					nonblank = true
-					if ps.NumCols < i {
-						ps.NumCols = i
+					if ps.NumCols <= i {
+						ps.NumCols = i + 1
 					}
 				}
 			}
-- 
2.43.0


From b69e1058ff1f261992caad7dc8bb692747746c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:12 +0000
Subject: [PATCH 66/73] fix: grate2tsv: one output file per sheet

Files with the same base name, and sheets whose names differ only in special
characters, overwrote each other's output.
---
 cmd/grate2tsv/main.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/cmd/grate2tsv/main.go b/cmd/grate2tsv/main.go
index bb46403..bc732ed 100644
--- a/cmd/grate2tsv/main.go
+++ b/cmd/grate2tsv/main.go
@@ -166,6 +166,24 @@ var (
 	newlines = regexp.MustCompile("[ \n\r\t]+")
 )
 
+var (
+	outNamesMu sync.Mutex
+	outNames   = make(map[string]bool)
+)
+
+// outputName returns a filename that no other sheet is written to, as files and
+// sheets may share their base names.
+func outputName(base string) string {
+	outNamesMu.Lock()
+	defer outNamesMu.Unlock()
+	name := base + ".tsv"
+	for n := 2; outNames[name]; n++ {
+		name = fmt.Sprintf("%s-%d.tsv", base, n)
+	}
+	outNames[name] = true
+	return name
+}
+
 type stats struct {
 	Filename  string
 	Hash      string
@@ -221,7 +239,7 @@ func processFile(fn string) ([]stats, error) {
 		var ox *output
 		var w io.Writer = ioutil.Discard
 		if !*pretend {
-			f, err := os.Create(subdir + "/" + fn2 + "." + s2 + ".tsv")
+			f, err := os.Create(outputName(subdir + "/" + fn2 + "." + s2))
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 2d577c04bef3b9f21a2103772d881dbb480320b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:14 +0000
Subject: [PATCH 67/73] fix: commonxl: a sheet is empty without data values
 only

A sheet with a single cell was called empty, and the batch command skipped it; a
larger sheet of blank cells was not.
---
 commonxl/sheet.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/commonxl/sheet.go b/commonxl/sheet.go
index 637b643..dfd10a0 100644
--- a/commonxl/sheet.go
+++ b/commonxl/sheet.go
@@ -239,7 +239,14 @@ func (s *Sheet) Scan(args ...interface{}) error {
 
 // IsEmpty returns true if there are no data values.
 func (s *Sheet) IsEmpty() bool {
-	return (s.NumCols <= 1 && s.NumRows <= 1)
+	for _, row := range s.Rows {
+		for _, c := range row {
+			if c.Type() != BlankCell {
+				return false
+			}
+		}
+	}
+	return true
 }
 
 // Err returns the last error that occured.
-- 
2.43.0


From 1728d2a0a1ef4ddf1ad28826a17b1e042be0ca58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:40 +0000
Subject: [PATCH 68/73] fix: simple: comma-separated files are not opened as
 tab-separated ones

---
 simple/tsv.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/simple/tsv.go b/simple/tsv.go
index ae51707..dcc7554 100644
--- a/simple/tsv.go
+++ b/simple/tsv.go
@@ -8,7 +8,26 @@ import (
 	"github.com/pbnjay/grate"
 )
 
-var _ = grate.Register("tsv", 10, OpenTSV)
+var _ = grate.Register("tsv", 10, detectTSV)
+
+// detectTSV leaves files that have commas but no tabs to the CSV format.
+func detectTSV(filename string) (grate.Source, error) {
+	src, err := OpenTSV(filename)
+	if err != nil {
+		return nil, err
+	}
+	commas := false
+	for _, r := range src.(*simpleFile).rows {
+		if len(r) > 1 {
+			return src, nil
+		}
+		commas = commas || strings.Contains(r[0], ",")
+	}
+	if commas {
+		return nil, grate.ErrNotInFormat
+	}
+	return src, nil
+}
 
 // OpenTSV defines a Source's instantiation function.
 // It should return ErrNotInFormat immediately if filename is not of the correct file type.
-- 
2.43.0


From 48cac879c5a52f503a864b0b1b7641b7c4bfcdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:24 +0000
Subject: [PATCH 69/73] fix: xlsx: cells without a reference follow the cell
 before

---
 xlsx/sheets.go | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index 101e12c..1a5e654 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -78,7 +78,8 @@ func (s *Sheet) parseSheet() error {
 	defer clo.Close()
 
 	currentCellType := BlankCellType
-	currentCell := ""
+	inCell := false
+	c, r := -1, -1 // the current cell
 	var fno uint16
 	maxCol, maxRow := maxCols-1, maxRows-1
 
@@ -87,11 +88,10 @@ func (s *Sheet) parseSheet() error {
 	for ; err == nil; tok, err = cells.Token() {
 		switch v := tok.(type) {
 		case xml.CharData:
-			if currentCell == "" {
+			if !inCell {
 				continue
 			}
-			c, r := refToIndexes(currentCell)
-			if c >= 0 && r >= 0 {
+			if c < maxCols && r >= 0 && r < maxRows {
 				var val interface{} = string(v)
 
 				switch currentCellType {
@@ -130,7 +130,7 @@ func (s *Sheet) parseSheet() error {
 				}
 				s.wrapped.Put(r, c, val, fno)
 			} else {
-				//log.Println("FAIL row/col: ", currentCell)
+				//log.Println("FAIL row/col: ", c, r)
 			}
 		case xml.StartElement:
 			switch v.Name.Local {
@@ -157,15 +157,30 @@ func (s *Sheet) parseSheet() error {
 				s.wrapped.Resize(maxRow+1, maxCol+1)
 				//log.Println("DIMENSION:", s.minRow, s.minCol, ">", s.maxRow, s.maxCol)
 			case "row":
-				//currentRow = ax["r"] // unsigned int row index
-				//log.Println("ROW", currentRow)
+				// rows without an index follow the row before
+				ax := getAttrs(v.Attr, "r")
+				if n, err := strconv.Atoi(ax[0]); err == nil {
+					r = n - 1
+				} else {
+					r++
+				}
+				c = -1
+				//log.Println("ROW", r)
 			case "c":
 				ax := getAttrs(v.Attr, "t", "r", "s")
 				currentCellType = CellType(ax[0])
 				if currentCellType == BlankCellType {
 					currentCellType = NumberCellType
 				}
-				currentCell = ax[1] // always an A1 style reference
+				inCell = true
+				if ax[1] == "" {
+					// cells without a reference follow the cell before
+					c++
+				} else if col, row := refToIndexes(ax[1]); col >= 0 && row >= 0 {
+					c, r = col, row
+				} else {
+					inCell = false
+				}
 				style := ax[2]
 				sid, err := strconv.ParseInt(style, 10, 64)
 				if style == "" {
@@ -176,7 +191,7 @@ func (s *Sheet) parseSheet() error {
 				} else {
 					fno = 0
 				}
-				//log.Println("CELL", currentCell, sid, numFormat, currentCellType)
+				//log.Println("CELL", c, r, sid, numFormat, currentCellType)
 			case "v":
 				//log.Println("CELL VALUE", ax)
 
@@ -280,9 +295,7 @@ func (s *Sheet) parseSheet() error {
 
 			switch v.Name.Local {
 			case "c":
-				currentCell = ""
-			case "row":
-				//currentRow = ""
+				inCell = false
 			}
 		default:
 			if grate.Debug {
-- 
2.43.0


From 4be24c420a2f1aa2d36888face4c8002fdf9b86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:25 +0000
Subject: [PATCH 70/73] fix: commonxl: General with other text in a format code
 shows the number

---
 commonxl/formats.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/commonxl/formats.go b/commonxl/formats.go
index bc3ad79..ee1da96 100644
--- a/commonxl/formats.go
+++ b/commonxl/formats.go
@@ -70,7 +70,7 @@ var (
 	twelve    = regexp.MustCompile(`(?i:am/pm|a/p)`)
 	exponent  = regexp.MustCompile("[eE]+[+-]0+")
 	fraction  = regexp.MustCompile(`[0#?]/([0#?]{1,3})`)
-	places    = regexp.MustCompile(`[0#?,.]+`)
+	places    = regexp.MustCompile(`(?i:general)|[0#?,.]+`)
 )
 
 // codePart is a part of a number format code.
@@ -181,8 +181,8 @@ func makeSection(parts []codePart) (FmtFunc, CellType) {
 	if m := fraction.FindStringSubmatch(code); m != nil {
 		return fracFmtFunc(len(m[1])), FloatCell
 	}
-	if strings.EqualFold(strings.TrimSpace(code), "general") {
-		return identFunc, BlankCell
+	if strings.EqualFold(digits, "general") {
+		return surround(pre, identFunc, post), BlankCell
 	}
 	if digits == "" {
 		//log.Printf("   added static ('%s')", pre)
-- 
2.43.0


From e3dcb7ac5c7132d84d853fdbe0ff359066a43f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:14 +0000
Subject: [PATCH 71/73] fix: commonxl: negative numbers of smaller types lose
 their sign in a section of their own

---
 commonxl/fmt.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/commonxl/fmt.go b/commonxl/fmt.go
index 7575e81..a23d83e 100644
--- a/commonxl/fmt.go
+++ b/commonxl/fmt.go
@@ -258,8 +258,16 @@ func magnitude(v interface{}) interface{} {
 		return uint64(-val)
 	case int:
 		return uint64(-int64(val))
+	case int32:
+		return uint64(-int64(val))
+	case int16:
+		return uint64(-int64(val))
+	case int8:
+		return uint64(-int64(val))
 	case float64:
 		return -val
+	case float32:
+		return -val
 	}
 	return v
 }
-- 
2.43.0


From ba5cada8062bfa7ce582fc78d8e1b6cbefd898cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:15 +0000
Subject: [PATCH 72/73] fix: xls/cfb: a stream of an embedded document is not
 opened for the document's own

---
 xls/cfb/cfb.go       |  2 ++
 xls/cfb/interface.go | 31 +++++++++++++++++++++++++++++--
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/xls/cfb/cfb.go b/xls/cfb/cfb.go
index dedc00f..0782832 100644
--- a/xls/cfb/cfb.go
+++ b/xls/cfb/cfb.go
@@ -96,6 +96,7 @@ type Document struct {
 	// pre-parsed info
 	header *header
 	dir    []*directory
+	ids    []*directory // with the unused entries
 
 	// lookup tables for all the sectors
 	fat     []uint32
@@ -296,6 +297,7 @@ func (d *Document) buildDirs(br *bytes.Reader) error {
 			// mask out upper 32bits
 			dirent.StreamSize = dirent.StreamSize & 0xFFFFFFFF
 		}
+		d.ids = append(d.ids, dirent)
 
 		switch dirent.ObjectType {
 		case typeRootStorage:
diff --git a/xls/cfb/interface.go b/xls/cfb/interface.go
index 26bd0af..a5e72ee 100644
--- a/xls/cfb/interface.go
+++ b/xls/cfb/interface.go
@@ -32,9 +32,15 @@ func (d *Document) List() ([]string, error) {
 	return res, nil
 }
 
-// Open the named stream contained in the document.
+// Open the named stream contained in the document. Streams of the document
+// itself come before those of embedded documents.
 func (d *Document) Open(name string) (io.ReadSeeker, error) {
-	for _, e := range d.dir {
+	embedded := d.embedded()
+	for i := 0; i < 2*len(d.dir); i++ {
+		e := d.dir[i%len(d.dir)]
+		if embedded[e] != (i >= len(d.dir)) {
+			continue
+		}
 		if e.String() == name && e.ObjectType == typeStream {
 			if e.StreamSize < uint64(d.header.MiniStreamCutoffSize) {
 				return d.getMiniStreamReader(uint32(e.StartingSectorLocation), e.StreamSize)
@@ -45,3 +51,24 @@ func (d *Document) Open(name string) (io.ReadSeeker, error) {
 	}
 	return nil, fmt.Errorf("cfb: stream '%s' not found", name)
 }
+
+// embedded returns the entries in the storages below the root.
+func (d *Document) embedded() map[*directory]bool {
+	res := make(map[*directory]bool)
+	for _, e := range d.dir {
+		if e.ObjectType != typeStorage {
+			continue
+		}
+		todo := []uint32{e.ChildID}
+		for len(todo) > 0 {
+			id := int64(todo[len(todo)-1])
+			todo = todo[:len(todo)-1]
+			if id >= int64(len(d.ids)) || res[d.ids[id]] {
+				continue
+			}
+			res[d.ids[id]] = true
+			todo = append(todo, d.ids[id].LeftSiblingID, d.ids[id].RightSiblingID)
+		}
+	}
+	return res
+}
-- 
2.43.0


From 794585fd8a130ed4e1d320f281e79d506f74e062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:16 +0000
Subject: [PATCH 73/73] fix: xlsx: characters written as _xHHHH_ are decoded

---
 xlsx/sheets.go   | 23 +++++++++++++++++++++++
 xlsx/workbook.go |  2 +-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/xlsx/sheets.go b/xlsx/sheets.go
index 1a5e654..b689342 100644
--- a/xlsx/sheets.go
+++ b/xlsx/sheets.go
@@ -8,6 +8,7 @@ import (
 	"path/filepath"
 	"strconv"
 	"strings"
+	"unicode/utf16"
 
 	"github.com/pbnjay/grate"
 	"github.com/pbnjay/grate/commonxl"
@@ -122,6 +123,9 @@ func (s *Sheet) parseSheet() error {
 					continue
 				case ErrorCellType, FormulaStringCellType, InlineStringCellType:
 					//log.Println("CELL ERR/FORM/INLINE", val, currentCellType)
+					if currentCellType != ErrorCellType {
+						val = unescape(string(v))
+					}
 				default:
 					log.Println("CELL UNKNOWN", val, currentCellType, fno)
 				}
@@ -308,3 +312,22 @@ func (s *Sheet) parseSheet() error {
 	}
 	return err
 }
+
+// unescape decodes characters which are written as _xHHHH_ with their code,
+// because XML cannot hold them or would change them.
+func unescape(s string) string {
+	var res []byte
+	for {
+		i := strings.Index(s, "_x")
+		if i < 0 || i+7 > len(s) {
+			return string(res) + s
+		}
+		res = append(res, s[:i]...)
+		n, err := strconv.ParseUint(s[i+2:i+6], 16, 16)
+		if err != nil || s[i+6] != '_' || utf16.IsSurrogate(rune(n)) {
+			res, s = append(res, '_'), s[i+1:]
+			continue
+		}
+		res, s = append(res, string(rune(n))...), s[i+7:]
+	}
+}
diff --git a/xlsx/workbook.go b/xlsx/workbook.go
index 4b4e738..704205c 100644
--- a/xlsx/workbook.go
+++ b/xlsx/workbook.go
@@ -220,7 +220,7 @@ func (d *Document) parseSharedStrings(dec *partReader) error {
 			}
 		case xml.EndElement:
 			if v.Name.Local == "si" {
-				d.strings = append(d.strings, val)
+				d.strings = append(d.strings, unescape(val))
 				continue
 			}
 		default:
-- 
2.43.0

