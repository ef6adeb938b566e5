// Package vrt is the harness runtime. The symbolic engine replaces every function here
// by a symbolic counterpart; this file is the native meaning, used when a solver model
// is replayed against the real build.
package vrt

import (
	"archive/zip"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
)

var model = map[string]uint64{}
var tmpdir string
var allocLimit int64 = 8 << 20

// Out receives the observation lines.
var Out strings.Builder

// Setup loads the model and the scratch directory.
func Setup(modelJSON []byte, dir string) error {
	tmpdir = dir
	if real, err := filepath.EvalSymlinks(dir); err == nil {
		tmpdir = real
	}
	debug.SetGCPercent(-1) // files that are garbage stay open
	return json.Unmarshal(modelJSON, &model)
}

// AssertFailed and AssumeFailed are the panics raised natively.
type AssertFailed struct{ Tag string }
type AssumeFailed struct{}

func in(name string) uint64 { return model[name] }

func Byte(name string) byte   { return byte(in(name)) }
func U16(name string) uint16  { return uint16(in(name)) }
func U32(name string) uint32  { return uint32(in(name)) }
func U64(name string) uint64  { return in(name) }
func I64(name string) int64   { return int64(in(name)) }
func Bool(name string) bool   { return in(name) != 0 }
func F64(name string) float64 { return math.Float64frombits(in(name)) }

// Int is a symbolic integer in [lo,hi]; it is not enumerated.
func Int(name string, lo, hi int) int {
	v := in(name)
	if v > uint64(hi-lo) {
		panic(AssumeFailed{})
	}
	return lo + int(v)
}

// Tab is an integer like Int, with a range of at most 16384 values; what is computed from it
// and constants alone is kept as a table of values.
func Tab(name string, lo, hi int) int { return Int(name, lo, hi) }

// Choice is an integer in [0,n), one explored path per value.
func Choice(name string, n int) int {
	v := int(in(name))
	if v >= n {
		panic(AssumeFailed{})
	}
	return v
}

// Bytes are n symbolic bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(in(fmt.Sprintf("%s[%d]", name, i)))
	}
	return b
}

func Str(name string, n int) string { return string(Bytes(name, n)) }

// Concrete enumerates the feasible values of x, one path each.
func Concrete(x int) int { return x }

func Assume(c bool) {
	if !c {
		panic(AssumeFailed{})
	}
}

func Assert(c bool, tag string) {
	if !c {
		panic(AssertFailed{tag})
	}
}

// Reach marks a point that at least one explored path must get to.
func Reach(tag string) {}

// AllocLimit bounds a single allocation, in elements.
func AllocLimit(n int) { allocLimit = int64(n) }

// NoMerge turns off path merging for the rest of the path.
func NoMerge() {}

// Symbolic tells the engine and the native build apart.
func Symbolic() bool { return false }

// Thorough is true in the thorough tier.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func obs(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case bool:
		if x {
			return "1"
		}
		return "0"
	case int:
		return fmt.Sprintf("%x", uint64(x))
	case int64:
		return fmt.Sprintf("%x", uint64(x))
	case int32:
		return fmt.Sprintf("%x", uint32(x))
	case uint8:
		return fmt.Sprintf("%x", x)
	case uint16:
		return fmt.Sprintf("%x", x)
	case uint32:
		return fmt.Sprintf("%x", x)
	case uint64:
		return fmt.Sprintf("%x", x)
	case float64:
		if x != x {
			return "fNaN"
		}
		return fmt.Sprintf("f%016x", math.Float64bits(x))
	case string:
		return fmt.Sprintf("%q", x)
	case []byte:
		var s []string
		for _, b := range x {
			s = append(s, obs(b))
		}
		return "[" + strings.Join(s, " ") + "]"
	case []string:
		var s []string
		for _, b := range x {
			s = append(s, obs(b))
		}
		return "[" + strings.Join(s, " ") + "]"
	}
	return fmt.Sprintf("%T", v)
}

// Observe records a value; the engine records it too and both must agree.
func Observe(name string, v interface{}) {
	Out.WriteString(name + "=" + obs(v) + "\n")
}

// File makes a file with the given contents and returns its path.
func File(name string, data []byte) string {
	made[name] = true
	p := filepath.Join(tmpdir, name)
	if err := os.MkdirAll(filepath.Dir(p), 0700); err != nil {
		panic(err)
	}
	if err := ioutil.WriteFile(p, data, 0600); err != nil {
		panic(err)
	}
	return p
}

// Part of a zip package. Fault: 0 none, 1 the entry cannot be opened, 2 the data ends
// early, 3 the checksum does not match.
type Part struct {
	Name  string
	Data  []byte
	Fault int
}

// Zip makes a zip package.
func Zip(name string, parts []Part) string {
	made[name] = true
	p := filepath.Join(tmpdir, name)
	f, err := os.Create(p)
	if err != nil {
		panic(err)
	}
	w := zip.NewWriter(f)
	for _, pt := range parts {
		h := &zip.FileHeader{Name: pt.Name, Method: zip.Store}
		h.CRC32 = crc(pt.Data)
		h.CompressedSize64 = uint64(len(pt.Data))
		h.UncompressedSize64 = uint64(len(pt.Data))
		data := pt.Data
		switch pt.Fault {
		case 1:
			h.Method = 77
		case 2:
			h.UncompressedSize64 += 10
		case 3:
			h.CRC32 ^= 0x5a5a5a5a
		}
		fw, err := w.CreateRaw(h)
		if err != nil {
			panic(err)
		}
		fw.Write(data)
	}
	if err := w.Close(); err != nil {
		panic(err)
	}
	f.Close()
	return p
}

// AllocOK tells whether an allocation above the limit must have happened natively.
func AllocOK(before uint64) bool {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return ms.TotalAlloc-before < uint64(allocLimit)
}

// OpenFiles is the number of open handles of files made by File and Zip.
func OpenFiles() int {
	n := 0
	fds, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	for _, fd := range fds {
		if p, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && strings.HasPrefix(p, tmpdir+"/") {
			n++
		}
	}
	return n
}

// RealFile reads a file of the host (engine self tests only).
func RealFile(path string) []byte {
	b, err := ioutil.ReadFile(path)
	if err != nil {
		panic(err)
	}
	return b
}

// RealZip reads the entries of a zip file of the host (engine self tests only).
func RealZip(path string) []Part {
	r, err := zip.OpenReader(path)
	if err != nil {
		panic(err)
	}
	defer r.Close()
	var out []Part
	for _, f := range r.File {
		rc, err := f.Open()
		if err != nil {
			panic(err)
		}
		b, err := ioutil.ReadAll(rc)
		if err != nil {
			panic(err)
		}
		rc.Close()
		out = append(out, Part{Name: f.Name, Data: b})
	}
	return out
}

// Parallel runs f(0) to f(n-1) at the same time. They must share nothing themselves.
func Parallel(n int, f func(k int)) {
	var wg sync.WaitGroup
	start := make(chan bool)
	fault := make([]interface{}, n)
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			defer func() { fault[k] = recover() }()
			<-start
			f(k)
		}(k)
	}
	close(start)
	wg.Wait()
	for _, r := range fault {
		if r != nil {
			panic(r)
		}
	}
}

// Chdir makes the scratch directory the current one; names of files are relative to it.
func Chdir() {
	if err := os.Chdir(tmpdir); err != nil {
		panic(err)
	}
}

// ReadBack is the contents of a file of the scratch directory, and whether it is there.
func ReadBack(name string) ([]byte, bool) {
	b, err := ioutil.ReadFile(filepath.Join(tmpdir, name))
	return b, err == nil
}

// Written lists the files that were made by the code under test, sorted by name.
func Written() []string {
	var out []string
	filepath.Walk(tmpdir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			r, _ := filepath.Rel(tmpdir, p)
			if !made[r] {
				out = append(out, r)
			}
		}
		return nil
	})
	sort.Strings(out)
	return out
}

var made = map[string]bool{}
