// Command replay runs one harness natively on one solver model, against the real build.
//
//	replay HARNESS MODEL.json
//
// Exit status: 0 the harness finished, 66 an assertion failed, 67 a panic, 77 an
// assumption did not hold.
package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"log"
	"os"
	"runtime"
	"runtime/debug"
	"syscall"

	"verifh/vrt"
)

type replayFile struct {
	Harness string            `json:"harness"`
	Model   map[string]uint64 `json:"model"`
}

func main() {
	if !raceDetector { // which maps a lot of memory
		var lim syscall.Rlimit
		lim.Cur, lim.Max = 6<<30, 6<<30
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	debug.SetMaxStack(256 << 20)
	log.SetOutput(ioutil.Discard)
	var rf replayFile
	b, err := ioutil.ReadFile(os.Args[len(os.Args)-1])
	if err == nil {
		err = json.Unmarshal(b, &rf)
	}
	if err != nil {
		fmt.Println(err)
		os.Exit(70)
	}
	if len(os.Args) > 2 {
		rf.Harness = os.Args[1]
	}
	f := all[rf.Harness]
	if f == nil {
		fmt.Println("no harness", rf.Harness)
		os.Exit(70)
	}
	dir, err := ioutil.TempDir("", "replay")
	if err != nil {
		fmt.Println(err)
		os.Exit(70)
	}
	mb, _ := json.Marshal(rf.Model)
	if err := vrt.Setup(mb, dir); err != nil {
		fmt.Println(err)
		os.Exit(70)
	}
	code := run(f)
	fmt.Print(vrt.Out.String())
	os.RemoveAll(dir)
	os.Exit(code)
}

func run(f func()) (code int) {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	before := ms.TotalAlloc
	defer func() {
		r := recover()
		switch r := r.(type) {
		case nil:
			runtime.ReadMemStats(&ms)
			fmt.Printf("ALLOC %d\n", ms.TotalAlloc-before)
		case vrt.AssertFailed:
			fmt.Println("ASSERT-FAILED", r.Tag)
			code = 66
		case vrt.AssumeFailed:
			fmt.Println("ASSUME-FAILED")
			code = 77
		default:
			fmt.Printf("PANIC %v\n%s\n", r, debug.Stack())
			code = 67
		}
	}()
	f()
	return 0
}
