package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type harnessCfg struct {
	Fn     string   `json:"fn"`
	Sec    int      `json:"sec"`
	TSec   int      `json:"tsec"`
	Steps  int64    `json:"steps"`
	Reach  []string `json:"reach"`
	Bounds string   `json:"bounds"`
	Tier   string   `json:"tier"`
}

type propCfg struct {
	Technique   string       `json:"technique"`
	Note        string       `json:"note"`
	Harnesses   []harnessCfg `json:"harnesses"`
	Assumptions []string     `json:"assumptions"`
}

type checksFile struct {
	Assumptions []string           `json:"assumptions"`
	Props       map[string]propCfg `json:"props"`
}

// finding is a line "finding: property=C01 harness=h match=REGEX :: text".
type finding struct {
	prop, harness string
	re            *regexp.Regexp
	text          string
}

func loadFindings() []finding {
	f, err := os.Open(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []finding
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	rx := regexp.MustCompile(`^finding: property=(\S+) harness=(\S+) match=(.*?) :: (.*)$`)
	for sc.Scan() {
		m := rx.FindStringSubmatch(sc.Text())
		if m == nil {
			continue
		}
		re, err := regexp.Compile(m[3])
		if err != nil {
			fmt.Println("known-findings:", err)
			continue
		}
		out = append(out, finding{m[1], m[2], re, m[4]})
	}
	return out
}

// isHarness tells the functions of package htool from those of the rewritten command.
func isHarness(f string) bool {
	_, f, _ = strings.Cut(f, "verifh/h")
	_, f, _ = strings.Cut(f, ".")
	return strings.HasPrefix(f, "Tool") || strings.HasPrefix(f, "hv")
}

func (h *Harness) repoFuncs() []string {
	var out []string
	for f, n := range h.Funcs {
		if n > 0 && (strings.Contains(f, "github.com/pbnjay/grate") || (strings.Contains(f, "verifh/htool") || strings.Contains(f, "verifh/hgrater")) && !isHarness(f)) && !strings.HasSuffix(f, ".init") {
			out = append(out, f)
		}
	}
	sort.Strings(out)
	return out
}

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	r := fs.String("root", root, "")
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "")
	fs.Parse(args)
	root = *r
	if *tier != "thorough" {
		*tier = "quick"
	}
	thorough = *tier == "thorough"
	os.Exit(check(*prop, *tier))
}

func check(prop, tier string) (code int) {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	exploreSeed = int64(seed)
	defer func() {
		if r := recover(); r != nil {
			fmt.Printf("engine failure: %v\n%s\n", r, debug.Stack())
			code = 2
		}
	}()
	var cf checksFile
	b, err := os.ReadFile(filepath.Join(root, "checks.json"))
	if err == nil {
		err = json.Unmarshal(b, &cf)
	}
	if err != nil {
		fmt.Println(err)
		return 2
	}
	pc, ok := cf.Props[prop]
	if !ok {
		fmt.Println("no check for", prop)
		return 2
	}
	var fns []string
	for _, hc := range pc.Harnesses {
		fns = append(fns, hc.Fn)
	}
	if err := needTool(fns); err != nil {
		fmt.Println("build:", err)
		return 2
	}
	// the replay build runs while the program is loaded
	var rp *replayer
	var rperr error
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		rp, rperr = newReplayer()
	}()
	p, err := loadProgram()
	wg.Wait()
	if err != nil || rperr != nil {
		fmt.Println("build:", err, rperr)
		if rp != nil {
			rp.close()
		}
		return 2
	}
	defer rp.close()
	var names []string
	for _, hc := range pc.Harnesses {
		names = append(names, hc.Fn)
	}
	ws := newWorkers(p, jobs(), harnessPkgs(p, names))
	defer func() {
		for _, w := range ws {
			w.solver.close()
		}
	}()
	findings := loadFindings()
	known := map[int]int{}

	cov := map[string]any{}
	var states, trans, validated, queries, viols, completed int
	var solver time.Duration
	funcs := map[string]bool{}
	var reports []any
	var samples []any
	var vacuous, incomplete, mism, unconf []string
	var replays []string
	exhaustive := true
	for _, hc := range pc.Harnesses {
		if hc.Tier != "" && hc.Tier != tier {
			continue
		}
		fn, err := p.harness(hc.Fn)
		if err != nil {
			fmt.Println(err)
			return 2
		}
		sec := hc.Sec
		if sec == 0 {
			sec = 10
		}
		if thorough {
			if hc.TSec > 0 {
				sec = hc.TSec
			} else {
				sec *= 10
			}
		}
		steps := hc.Steps
		if steps == 0 {
			steps = 3_000_000
		}
		h := &Harness{Name: hc.Fn, fn: fn, Deadline: time.Now().Add(time.Duration(sec) * time.Second), MaxSteps: steps, MaxViol: 60, MaxSamples: 12}
		h.explore(ws)
		h.print(false)

		// replay every candidate on the real build
		confirmAll(rp, h)
		newViol := 0
		for _, v := range h.Viol {
			if v.Conf == "" {
				unconf = append(unconf, fmt.Sprintf("%s: %s %s: %s", h.Name, v.Kind, v.Tag, v.Msg))
				continue
			}
			key := v.Conf + " @ " + v.Tag
			listed := false
			for i, f := range findings {
				if f.prop == prop && f.harness == h.Name && f.re.MatchString(key) {
					known[i]++
					listed = true
					break
				}
			}
			if listed {
				continue
			}
			viols++
			newViol++
			dir := filepath.Join(root, "replay")
			os.MkdirAll(dir, 0755)
			file := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, viols))
			jb, _ := json.MarshalIndent(map[string]any{"property": prop, "harness": h.Name, "model": v.Model, "kind": v.Kind, "tag": v.Tag, "observed": v.Conf, "message": v.Msg, "where": v.Where, "output": tail(v.Output, 4000),
				"rerun": "cd /verif/harness && go run ./cmd/replay " + file}, "", " ")
			os.WriteFile(file, jb, 0644)
			replays = append(replays, file)
			if newViol <= 5 {
				fmt.Printf("counterexample: %s: %s (%s) model %s\n", h.Name, v.Conf, v.Tag, tail(modelText(v.Model), 600))
				fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
			}
		}

		// cross-check completed paths against the real build
		val := 0
		var vmu sync.Mutex
		par(h.Samples, func(i int, s Sample) {
			msg := rp.validate(h.Name, s)
			vmu.Lock()
			defer vmu.Unlock()
			if msg == "" {
				val++
			} else {
				mism = append(mism, h.Name+": "+msg+" model "+modelText(s.Model))
			}
		})
		validated += val
		for i, s := range h.Samples {
			if i < 3 {
				samples = append(samples, map[string]any{"harness": h.Name, "inputs": trimModel(s.Model), "observed": trimObs(s.Obs)})
			}
		}
		for _, f := range h.repoFuncs() {
			funcs[f] = true
		}
		for _, t := range hc.Reach {
			if h.Reach[t] == 0 {
				vacuous = append(vacuous, h.Name+": "+t)
			}
		}
		il := h.incompleteList()
		if len(il) > 0 {
			exhaustive = false
			for _, s := range il {
				incomplete = append(incomplete, h.Name+": "+s)
			}
		}
		states += h.Paths
		completed += h.Completed
		trans += int(h.Decisions)
		queries += h.Queries
		solver += h.SolverTime
		reports = append(reports, map[string]any{"harness": h.Name, "bounds": hc.Bounds, "paths": h.Paths, "completed": h.Completed, "cut_by_assumption": h.Assumed,
			"unexplored": h.Pending, "max_decisions": h.MaxDec, "instructions": h.Steps, "assertions": h.Asserts, "solver_queries": h.Queries, "cache_hits": h.Hits,
			"solver_s": round2(h.SolverTime.Seconds()), "wall_s": round2(h.Elapsed.Seconds()), "reached": h.Reach, "exhaustive_within_bounds": len(il) == 0, "candidates": len(h.Viol)})
		if newViol > 0 {
			break
		}
	}
	for i, f := range findings {
		if f.prop == prop {
			if known[i] > 0 {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.text)
			}
		}
	}
	for _, s := range unconf {
		fmt.Println("not confirmed by the real build (no alarm):", tail(s, 400))
	}
	for _, s := range mism {
		fmt.Println("sample differs from the real build:", tail(s, 1500))
	}
	for _, s := range vacuous {
		fmt.Println("not reached:", s)
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	cov["states"] = states
	cov["transitions"] = trans
	cov["traces_validated_against_impl"] = validated
	cov["trace_mismatches"] = mism
	cov["samples"] = samples
	cov["rule"] = "states are symbolic execution paths (each covers every input that satisfies its path condition), transitions are branch decisions settled by the solver; every assertion on a path is decided by an SMT query over all inputs of that path"
	cov["functions_encoded"] = fl
	cov["queries"] = queries
	cov["solver_s"] = round2(solver.Seconds())
	cov["harnesses"] = reports
	cov["not_reached"] = vacuous
	cov["incomplete"] = incomplete
	cov["unconfirmed_candidates"] = unconf
	cov["exhaustive"] = exhaustive && len(vacuous) == 0
	cov["known_findings_seen"] = len(known)
	cov["solver"] = "z3 (z3-new fallback, cvc5 second opinion)"
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": append(append([]string{}, pc.Assumptions...), cf.Assumptions...), "wall_s": round2(time.Since(t0).Seconds()), "violations": viols}
	if replays != nil {
		cov["replays"] = replays
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(root, "evidence", prop+".json"), eb, 0644); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("%s %s: %d paths, %d decisions, %d queries, solver %.1fs, %d samples agree with the real build, violations %d, wall %.1fs\n",
		prop, tier, states, trans, queries, solver.Seconds(), validated, viols, time.Since(t0).Seconds())
	if viols > 0 {
		return 1
	}
	if completed == 0 {
		fmt.Println("no path completed: the check decided nothing")
		return 2
	}
	return 0
}

func round2(f float64) float64 { return float64(int64(f*100+0.5)) / 100 }

func trimModel(m map[string]uint64) any {
	if len(m) <= 48 {
		return m
	}
	return tail(modelText(m), 900)
}

func trimObs(o []string) []string {
	var out []string
	for i, s := range o {
		if i == 12 {
			break
		}
		out = append(out, tail(s, 200))
	}
	return out
}

func par[T any](xs []T, f func(int, T)) {
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i, x := range xs {
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			f(i, x)
		}()
	}
	wg.Wait()
}

func confirmAll(rp *replayer, h *Harness) {
	par(h.Viol, func(i int, v *Violation) { rp.confirm(h.Name, v) })
}

// cmdSelftest runs the engine micro tests.
func cmdSelftest(args []string) {
	p, err := loadProgram()
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	_ = p
}
