package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"
)

// replayer runs models against the native build of the harness and of /repo.
type replayer struct {
	dir string
	bin string

	args    []string // of go build
	raceMu  sync.Mutex
	raceBin string
	raceErr error
}

func newReplayer() (*replayer, error) {
	dir, err := os.MkdirTemp("", "gosym")
	if err != nil {
		return nil, err
	}
	bin := filepath.Join(dir, "replay")
	args := []string{"build", "-o", bin}
	if len(toolTags) > 0 {
		f, err := overlayFile(dir, toolFiles)
		if err != nil {
			os.RemoveAll(dir)
			return nil, err
		}
		args = append(args, "-tags="+strings.Join(toolTags, ","), "-overlay", f)
	}
	cmd := exec.Command("go", append(args, "./cmd/replay")...)
	cmd.Dir = filepath.Join(root, "harness")
	cmd.Env = goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		os.RemoveAll(dir)
		return nil, fmt.Errorf("%v: %s", err, out)
	}
	return &replayer{dir: dir, bin: bin, args: args}, nil
}

// race is the build with the race detector, made when it is first needed.
func (r *replayer) race() (string, error) {
	r.raceMu.Lock()
	defer r.raceMu.Unlock()
	if r.raceBin != "" || r.raceErr != nil {
		return r.raceBin, r.raceErr
	}
	bin := filepath.Join(r.dir, "replay-race")
	args := append([]string{}, r.args...)
	args[2] = bin
	cmd := exec.Command("go", append(args, "-race", "./cmd/replay")...)
	cmd.Dir = filepath.Join(root, "harness")
	cmd.Env = append(goEnv(), "CGO_ENABLED=1")
	if out, err := cmd.CombinedOutput(); err != nil {
		r.raceErr = fmt.Errorf("%v: %s", err, out)
		fmt.Println("no build with the race detector:", r.raceErr)
	} else {
		r.raceBin = bin
	}
	return r.raceBin, r.raceErr
}

// confirmRace asks the race detector.
func (r *replayer) confirmRace(h string, v *Violation) bool {
	bin, err := r.race()
	if err != nil {
		return false
	}
	_, out, _ := r.runBin(bin, h, v.Model, 60*time.Second)
	v.Output = out
	i := strings.Index(out, "WARNING: DATA RACE")
	if i >= 0 && strings.Contains(out[i:], repoPath) {
		v.Conf = "data race"
	}
	return v.Conf != ""
}

func (r *replayer) close() { os.RemoveAll(r.dir) }

func (r *replayer) run(h string, m map[string]uint64, d time.Duration) (code int, out string, timeout bool) {
	return r.runBin(r.bin, h, m, d)
}

func (r *replayer) runBin(bin, h string, m map[string]uint64, d time.Duration) (code int, out string, timeout bool) {
	sub, err := os.MkdirTemp(r.dir, "run")
	if err != nil {
		return 99, err.Error(), false
	}
	defer os.RemoveAll(sub)
	f := filepath.Join(sub, "m.json")
	b, _ := json.Marshal(map[string]any{"harness": h, "model": m})
	os.WriteFile(f, b, 0600)
	ctx, cancel := context.WithTimeout(context.Background(), d)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, f)
	cmd.Env = append(os.Environ(), "TMPDIR="+sub, "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0")
	if thorough {
		cmd.Env = append(cmd.Env, "VERIF_TIER=thorough")
	} else {
		cmd.Env = append(cmd.Env, "VERIF_TIER=quick")
	}
	var buf bytes.Buffer
	cmd.Stdout = &buf
	cmd.Stderr = &buf
	cmd.WaitDelay = time.Second
	err = cmd.Run()
	if ctx.Err() != nil {
		return -1, buf.String(), true
	}
	code = 0
	if err != nil {
		code = 99
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
	}
	return code, buf.String(), false
}

// confirm replays a candidate; v.Conf is "" when the real build does not show it.
func (r *replayer) confirm(h string, v *Violation) bool {
	if v.Kind == "race" {
		return r.confirmRace(h, v)
	}
	code, out, to := r.run(h, v.Model, 12*time.Second)
	v.Output = out
	switch {
	case to:
		v.Conf = "hang"
	case code == 66:
		v.Conf = "assert"
		if i := strings.Index(out, "ASSERT-FAILED "); i >= 0 {
			t, _, _ := strings.Cut(out[i+14:], "\n")
			v.Conf = "assert " + t
		}
	case code == 67:
		v.Conf = "panic"
		if i := strings.Index(out, "PANIC "); i >= 0 {
			t, _, _ := strings.Cut(out[i+6:], "\n")
			v.Conf = "panic " + t
		}
	case code == 2 && (strings.Contains(out, "fatal error") || strings.Contains(out, "panic:")):
		v.Conf = "crash"
		if i := strings.Index(out, "fatal error"); i >= 0 {
			t, _, _ := strings.Cut(out[i:], "\n")
			v.Conf = "crash " + t
		}
	case code == 0 && v.Kind == "alloc":
		if i := strings.Index(out, "ALLOC "); i >= 0 {
			t, _, _ := strings.Cut(out[i+6:], "\n")
			if n, _ := strconv.ParseInt(t, 10, 64); n > 64<<20 {
				v.Conf = "alloc " + t + " bytes"
			}
		}
	case code < 0 || code == 137:
		v.Conf = "killed"
	}
	return v.Conf != ""
}

// validate compares the observations of a completed path with the native run.
func (r *replayer) validate(h string, s Sample) string {
	code, out, to := r.run(h, s.Model, 20*time.Second)
	if to {
		return "native run timed out"
	}
	if code != 0 {
		return fmt.Sprintf("native exit %d: %s", code, tail(out, 800))
	}
	var got []string
	for _, l := range strings.Split(out, "\n") {
		if l != "" && !strings.HasPrefix(l, "ALLOC ") {
			got = append(got, l)
		}
	}
	if strings.Join(got, "\n") != strings.Join(s.Obs, "\n") {
		return fmt.Sprintf("observations differ:\n engine %v\n native %v", s.Obs, got)
	}
	return ""
}
