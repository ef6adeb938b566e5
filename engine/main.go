package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var root = "/verif"

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "GONOSUMDB=*", "GOWORK=off", "CGO_ENABLED=0")
}

type program struct {
	prog *ssa.Program
	pkgs map[string]*ssa.Package
	load time.Duration
}

// needTool prepares the rewritten commands that the harnesses need.
func needTool(names []string) error {
	for _, n := range names {
		pkg, _, _ := strings.Cut(n, ".")
		if toolPkgs[pkg] == "" || slices.Contains(toolTags, pkg) {
			continue
		}
		files, err := toolOverlay(pkg)
		if err != nil {
			return err
		}
		toolTags = append(toolTags, pkg)
		if toolFiles == nil {
			toolFiles = map[string][]byte{}
		}
		for n, b := range files {
			toolFiles[n] = b
		}
	}
	return nil
}

var toolTags []string
var toolFiles map[string][]byte

func loadProgram() (*program, error) {
	t0 := time.Now()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: filepath.Join(root, "harness"), Env: goEnv()}
	if len(toolTags) > 0 {
		cfg.BuildFlags = []string{"-tags=" + strings.Join(toolTags, ",")}
		cfg.Overlay = toolFiles
	}
	initial, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range initial {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, pkgs := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	prog.Build()
	p := &program{prog: prog, pkgs: map[string]*ssa.Package{}}
	for _, sp := range pkgs {
		if sp != nil {
			p.pkgs[sp.Pkg.Path()] = sp
		}
	}
	theProg = prog
	modelsPkg = p.pkgs[modelsPath]
	if modelsPkg == nil {
		return nil, fmt.Errorf("no models package")
	}
	rtErrType = modelsPkg.Type("RuntimeError").Type()
	p.load = time.Since(t0)
	return p, nil
}

func newWorker(p *program, pkgs []*ssa.Package) *worker {
	in := &Interp{T: NewTerms(), prog: p.prog, globals: map[*ssa.Global]*Obj{}}
	in.maxSteps = 1 << 40
	in.pools = map[*Obj][]Value{}
	in.host = map[string]any{}
	in.mfail = map[*mergeInfo]int{}
	for _, pkg := range append([]*ssa.Package{modelsPkg}, pkgs...) {
		in.callFn(pkg.Func("init"))
		in.depth, in.cur = 0, nil
	}
	in.journal = in.journal[:0]
	in.mapJrnl = in.mapJrnl[:0]
	return &worker{in: in, solver: &Solver{}}
}

func newWorkers(p *program, n int, pkgs []*ssa.Package) []*worker {
	initMode = true
	ws := make([]*worker, n)
	var wg sync.WaitGroup
	for i := range ws {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ws[i] = newWorker(p, pkgs)
		}()
	}
	wg.Wait()
	initMode = false
	return ws
}

func (p *program) harness(name string) (*ssa.Function, error) {
	i := strings.LastIndex(name, ".")
	if i < 0 {
		return nil, fmt.Errorf("bad harness name %s", name)
	}
	pkg := p.pkgs["verifh/"+name[:i]]
	if pkg == nil {
		return nil, fmt.Errorf("no package for %s", name)
	}
	fn := pkg.Func(name[i+1:])
	if fn == nil {
		return nil, fmt.Errorf("no harness %s", name)
	}
	return fn, nil
}

func jobs() int {
	if n, err := strconv.Atoi(os.Getenv("GOSYM_J")); err == nil && n > 0 {
		return n
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	return n
}

func main() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(16 << 30)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym run|check|gen ...")
		os.Exit(0)
	}
	switch os.Args[1] {
	case "run":
		cmdRun(os.Args[2:])
	case "check":
		cmdCheck(os.Args[2:])
	case "gen":
		cmdGen(os.Args[2:])
	case "selftest":
		cmdSelftest(os.Args[2:])
	}
}

func harnessPkgs(p *program, names []string) []*ssa.Package {
	seen := map[*ssa.Package]bool{}
	var out []*ssa.Package
	for _, n := range names {
		fn, err := p.harness(n)
		if err != nil {
			continue
		}
		if !seen[fn.Pkg] {
			seen[fn.Pkg] = true
			out = append(out, fn.Pkg)
		}
	}
	return out
}

func cmdRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	r := fs.String("root", root, "")
	hn := fs.String("h", "", "harness")
	sec := fs.Int("sec", 60, "")
	paths := fs.Int("paths", 0, "")
	steps := fs.Int64("steps", 3_000_000, "")
	viol := fs.Int("viol", 20, "")
	samples := fs.Int("samples", 20, "")
	nofail := fs.Bool("norepl", false, "")
	v := fs.Bool("v", false, "")
	th := fs.Bool("thorough", false, "")
	fs.Parse(args)
	root = *r
	verbose = *v
	thorough = *th
	if os.Getenv("GOSYM_SITES") != "" {
		sites = map[string]int{}
	}
	err := needTool(strings.Split(*hn, ","))
	var p *program
	if err == nil {
		p, err = loadProgram()
	}
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(3)
	}
	fmt.Printf("load %.2fs\n", p.load.Seconds())
	for _, hname := range strings.Split(*hn, ",") {
		fn, err := p.harness(hname)
		if err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		t0 := time.Now()
		ws := newWorkers(p, jobs(), []*ssa.Package{fn.Pkg})
		fmt.Printf("init %.2fs\n", time.Since(t0).Seconds())
		h := &Harness{Name: hname, fn: fn, Deadline: time.Now().Add(time.Duration(*sec) * time.Second), MaxPaths: *paths, MaxSteps: *steps, MaxViol: *viol, MaxSamples: *samples}
		h.explore(ws)
		h.print(true)
		if sites != nil {
			var ks []string
			for k := range sites {
				ks = append(ks, k)
			}
			sort.Slice(ks, func(i, j int) bool { return sites[ks[i]] > sites[ks[j]] })
			for i, k := range ks {
				if i < 15 {
					fmt.Println("  site", sites[k], k)
				}
			}
			sites = map[string]int{}
		}
		if !*nofail {
			rp, err := newReplayer()
			if err != nil {
				fmt.Println("replay build:", err)
				os.Exit(3)
			}
			for _, v := range h.Viol {
				rp.confirm(h.Name, v)
				fmt.Printf("CAND %s %s %q confirmed=%s\n   where %s\n   model %s\n   out %s\n", v.Kind, v.Tag, v.Msg, v.Conf, v.Where, modelText(v.Model), strings.TrimSpace(tail(v.Output, 600)))
			}
			ok, bad := 0, 0
			for _, s := range h.Samples {
				if msg := rp.validate(h.Name, s); msg != "" {
					bad++
					fmt.Printf("SAMPLE MISMATCH %s\n  model %s\n", msg, modelText(s.Model))
				} else {
					ok++
				}
			}
			fmt.Printf("samples ok=%d bad=%d\n", ok, bad)
			rp.close()
		}
		for _, w := range ws {
			w.solver.close()
		}
	}
}

func modelText(m map[string]uint64) string {
	b, _ := json.Marshal(m)
	return tail(string(b), 3000)
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + " ... " + s[len(s)-n/2:]
	}
	return s
}

func (h *Harness) print(long bool) {
	fmt.Printf("%s: paths=%d completed=%d assumed=%d pending=%d decisions=%d maxdec=%d steps=%d asserts=%d queries=%d hits=%d fallback=%d unknown=%d solver=%.1fs wall=%.1fs\n",
		h.Name, h.Paths, h.Completed, h.Assumed, h.Pending, h.Decisions, h.MaxDec, h.Steps, h.Asserts, h.Queries, h.Hits, h.Fallbk, h.Unknown, h.SolverTime.Seconds(), h.Elapsed.Seconds())
	for _, s := range h.incompleteList() {
		fmt.Println("  incomplete:", s)
	}
	var rs []string
	for k, n := range h.Reach {
		rs = append(rs, fmt.Sprintf("%s=%d", k, n))
	}
	sort.Strings(rs)
	fmt.Println("  reach:", strings.Join(rs, " "))
	if long && verbose {
		var fs []string
		for f := range h.Funcs {
			fs = append(fs, f)
		}
		sort.Slice(fs, func(i, j int) bool { return h.Funcs[fs[i]] > h.Funcs[fs[j]] })
		for i, f := range fs {
			if i < 25 {
				fmt.Println("   ", h.Funcs[f], f)
			}
		}
	}
}

// cmdGen writes the registry of harnesses for the replay program.
func cmdGen(args []string) {
	fs := flag.NewFlagSet("gen", flag.ExitOnError)
	r := fs.String("root", root, "")
	fs.Parse(args)
	root = *r
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps | packages.NeedFiles, Dir: filepath.Join(root, "harness"), Env: goEnv()}
	ds, _ := filepath.Glob(filepath.Join(root, "harness", "h*"))
	var pats []string
	for _, d := range ds {
		if toolPkgs[filepath.Base(d)] != "" {
			continue // built with the rewritten command only
		}
		pats = append(pats, "./"+filepath.Base(d))
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n")
	var body strings.Builder
	for _, p := range pkgs {
		for _, e := range p.Errors {
			fmt.Println(e)
			os.Exit(3)
		}
		n := 0
		sc := p.Types.Scope()
		for _, name := range sc.Names() {
			f, ok := sc.Lookup(name).(*types.Func)
			if !ok || !f.Exported() || f.Signature().Params().Len() != 0 || f.Signature().Results().Len() != 0 {
				continue
			}
			fmt.Fprintf(&body, "\t%q: %s.%s,\n", p.Name+"."+name, p.Name, name)
			n++
		}
		if n > 0 {
			fmt.Fprintf(&sb, "\t%q\n", p.PkgPath)
		}
	}
	sb.WriteString(")\n\nvar all = map[string]func(){\n" + body.String() + "}\n")
	os.MkdirAll(filepath.Join(root, "harness/cmd/replay"), 0755)
	if err := os.WriteFile(filepath.Join(root, "harness/cmd/replay/reg.go"), []byte(sb.String()), 0644); err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	for pkg := range toolPkgs {
		genTool(pkg)
	}
}

// genTool registers the harnesses of a package with a command.
func genTool(pkg string) {
	fset := token.NewFileSet()
	files, _ := filepath.Glob(filepath.Join(root, "harness", pkg, "*.go"))
	body := ""
	for _, name := range files {
		f, err := parser.ParseFile(fset, name, nil, parser.SkipObjectResolution)
		if err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if ok && fd.Recv == nil && fd.Name.IsExported() && fd.Type.Params.NumFields() == 0 && fd.Type.Results.NumFields() == 0 {
				body += fmt.Sprintf("\tall[%q] = %s.%s\n", pkg+"."+fd.Name.Name, pkg, fd.Name.Name)
			}
		}
	}
	src := "//go:build " + pkg + "\n\npackage main\n\nimport \"verifh/" + pkg + "\"\n\nfunc init() {\n" + body + "}\n"
	if err := os.WriteFile(filepath.Join(root, "harness/cmd/replay/reg_"+pkg+".go"), []byte(src), 0644); err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
}
