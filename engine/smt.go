package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type satRes int

const (
	rUnsat satRes = iota
	rSat
	rUnknown
)

// ---------- printing ----------

func sortName(t *Term) string {
	switch t.kind {
	case KBool:
		return "Bool"
	case KBV:
		return "(_ BitVec " + strconv.Itoa(int(t.w)) + ")"
	default:
		if t.w == 32 {
			return "(_ FloatingPoint 8 24)"
		}
		return "(_ FloatingPoint 11 53)"
	}
}

func constText(t *Term) string {
	switch t.kind {
	case KBool:
		if t.val == 1 {
			return "true"
		}
		return "false"
	case KBV:
		if t.w%4 == 0 {
			return fmt.Sprintf("#x%0*x", int(t.w)/4, t.val)
		}
		return fmt.Sprintf("#b%0*b", int(t.w), t.val)
	default:
		if t.w == 32 {
			return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", t.val)
		}
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.val)
	}
}

type printer struct {
	sb    strings.Builder
	names map[*Term]string
	vars  []*Term
	n     int
	extra int
}

func fpParams(w uint8) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

// define makes sure t has a printable name.
func (p *printer) ref(t *Term) string {
	if t.op == OConst {
		return constText(t)
	}
	if s, ok := p.names[t]; ok {
		return s
	}
	if t.op == OVar {
		s := "v" + strconv.Itoa(int(t.val))
		p.names[t] = s
		p.vars = append(p.vars, t)
		p.sb.WriteString("(declare-const " + s + " " + sortName(t) + ")\n")
		return s
	}
	var a, b, c string
	if t.a != nil {
		a = p.ref(t.a)
	}
	if t.b != nil {
		b = p.ref(t.b)
	}
	if t.c != nil {
		c = p.ref(t.c)
	}
	var e string
	if t.op == OTab {
		e = t.tabText(a)
	}
	bin := func(op string) { e = "(" + op + " " + a + " " + b + ")" }
	switch t.op {
	case OTab:
	case ONot:
		e = "(not " + a + ")"
	case OAnd:
		bin("and")
	case OOr:
		bin("or")
	case OIte:
		e = "(ite " + a + " " + b + " " + c + ")"
	case OEq:
		bin("=")
	case OAdd:
		bin("bvadd")
	case OSub:
		bin("bvsub")
	case OMul:
		bin("bvmul")
	case OUDiv:
		bin("bvudiv")
	case OSDiv:
		bin("bvsdiv")
	case OURem:
		bin("bvurem")
	case OSRem:
		bin("bvsrem")
	case OBAnd:
		bin("bvand")
	case OBOr:
		bin("bvor")
	case OBXor:
		bin("bvxor")
	case OBNot:
		e = "(bvnot " + a + ")"
	case OShl:
		bin("bvshl")
	case OLshr:
		bin("bvlshr")
	case OAshr:
		bin("bvashr")
	case OConcat:
		bin("concat")
	case OBound:
		return a
	case OExtract:
		e = fmt.Sprintf("((_ extract %d %d) %s)", t.val>>8, t.val&255, a)
	case OSExt:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, a)
	case OUlt:
		bin("bvult")
	case OUle:
		bin("bvule")
	case OSlt:
		bin("bvslt")
	case OSle:
		bin("bvsle")
	case OFAdd:
		e = "(fp.add RNE " + a + " " + b + ")"
	case OFSub:
		e = "(fp.sub RNE " + a + " " + b + ")"
	case OFMul:
		e = "(fp.mul RNE " + a + " " + b + ")"
	case OFDiv:
		e = "(fp.div RNE " + a + " " + b + ")"
	case OFNeg:
		e = "(fp.neg " + a + ")"
	case OFAbs:
		e = "(fp.abs " + a + ")"
	case OFSqrt:
		e = "(fp.sqrt RNE " + a + ")"
	case OFLt:
		bin("fp.lt")
	case OFLe:
		bin("fp.leq")
	case OFEq:
		bin("fp.eq")
	case OFIsNaN:
		e = "(fp.isNaN " + a + ")"
	case OFIsInf:
		e = "(fp.isInfinite " + a + ")"
	case OFRound:
		m := []string{"RTN", "RTP", "RTZ", "RNA", "RNE"}[t.val]
		e = "(fp.roundToIntegral " + m + " " + a + ")"
	case OFFromBits:
		e = "((_ to_fp " + fpParams(t.w) + ") " + a + ")"
	case OFToBits:
		// fresh constant related through to_fp
		s := "fb" + strconv.Itoa(p.extra)
		p.extra++
		p.sb.WriteString("(declare-const " + s + " " + sortName(t) + ")\n")
		p.sb.WriteString("(assert (= ((_ to_fp " + fpParams(t.w) + ") " + s + ") " + a + "))\n")
		p.names[t] = s
		return s
	case OFFromS:
		e = "((_ to_fp " + fpParams(t.w) + ") RNE " + a + ")"
	case OFFromU:
		e = "((_ to_fp_unsigned " + fpParams(t.w) + ") RNE " + a + ")"
	case OFToS:
		lim := "((_ to_fp 11 53) #x43e0000000000000)"
		nlim := "((_ to_fp 11 53) #xc3e0000000000000)"
		x := a
		if t.a.w == 32 {
			x = "((_ to_fp 11 53) RNE " + a + ")"
		}
		e = "(ite (and (fp.lt " + x + " " + lim + ") (fp.geq " + x + " " + nlim + ")) ((_ fp.to_sbv 64) RTZ " + x + ") #x8000000000000000)"
	case OFToU:
		lim := "((_ to_fp 11 53) #x43e0000000000000)"
		lim2 := "((_ to_fp 11 53) #x43f0000000000000)"
		nlim := "((_ to_fp 11 53) #xc3e0000000000000)"
		x := a
		if t.a.w == 32 {
			x = "((_ to_fp 11 53) RNE " + a + ")"
		}
		sg := "(ite (fp.geq " + x + " " + nlim + ") ((_ fp.to_sbv 64) RTZ " + x + ") #x8000000000000000)"
		e = "(ite (fp.lt " + x + " " + lim + ") " + sg + " (ite (fp.lt " + x + " " + lim2 + ") ((_ fp.to_ubv 64) RTZ " + x + ") (ite (fp.isNaN " + x + ") #x8000000000000000 #x0000000000000000)))"
	case OFCvt:
		e = "((_ to_fp " + fpParams(t.w) + ") RNE " + a + ")"
	default:
		panic("smt: op")
	}
	if t.depth < 2 && len(e) < 60 {
		// small leaves inline
		p.names[t] = e
		return e
	}
	s := "t" + strconv.Itoa(p.n)
	p.n++
	p.sb.WriteString("(define-fun " + s + " () " + sortName(t) + " " + e + ")\n")
	p.names[t] = s
	return s
}

type query struct {
	text string // declarations + assertions
	vars []*Term
	fp   bool
	hard bool
}

func printQuery(cs []*Term) query {
	p := &printer{names: map[*Term]string{}}
	for _, c := range cs {
		p.sb.WriteString("(assert " + p.ref(c) + ")\n")
	}
	q := query{text: p.sb.String(), vars: p.vars}
	q.fp = strings.Contains(q.text, "fp")
	return q
}

// ---------- processes ----------

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	ch  chan string
}

func startProc(name string, args ...string) *proc {
	cmd := exec.Command(name, args...)
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil
	}
	cmd.Stderr = nil
	if err := cmd.Start(); err != nil {
		return nil
	}
	p := &proc{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<16), ch: make(chan string, 256)}
	go func() {
		for {
			line, err := p.out.ReadString('\n')
			if err != nil {
				close(p.ch)
				return
			}
			p.ch <- strings.TrimSpace(line)
		}
	}()
	return p
}

func (p *proc) kill() {
	if p == nil {
		return
	}
	p.in.Close()
	p.cmd.Process.Kill()
	go func() {
		for range p.ch {
		}
		p.cmd.Wait()
	}()
}

// Solver is one worker's solver.
type Solver struct {
	last    string
	p       *proc
	uses    int
	Queries int
	Hits    int
	Time    time.Duration
	Unknown int
	Fallbk  int
	Errors  int
}

type cacheEnt struct {
	res satRes
	mod []uint64 // values by position in variable list (sorted by structural order of first appearance)
}

var qcacheMu sync.Mutex
var qcache = map[[2]uint64]cacheEnt{}
var slowQueries atomic.Int64
var slowAt = 3 * time.Second

var z3bin = "z3-new"
var queryTimeout = 2000 // ms, first attempt
var fallbackTimeout = 20 * time.Second

func init() {
	if _, err := exec.LookPath(z3bin); err != nil {
		z3bin = "z3"
	}
	if d, err := time.ParseDuration(os.Getenv("GOSYM_SLOW")); err == nil {
		slowAt = d
	}
	if s := os.Getenv("GOSYM_Z3"); s != "" {
		z3bin = s
	}
}

func (s *Solver) close() {
	if s.p != nil {
		s.p.kill()
		s.p = nil
	}
}

// checkSat decides the conjunction; on sat returns values for q.vars.
func (s *Solver) checkSat(cs []*Term) (satRes, []*Term, []uint64) {
	var h1, h2 uint64
	for _, c := range cs {
		// order-insensitive set hash
		h1 += mix(c.h1, 0xabcdef)
		h2 += mix(c.h2, 0x123457)
	}
	key := [2]uint64{h1, h2}
	q := printQueryLazy(cs)
	qcacheMu.Lock()
	e, ok := qcache[key]
	qcacheMu.Unlock()
	vars := collectVars(cs)
	if ok {
		s.Hits++
		if e.res == rSat {
			// values are stored sorted by variable name
			if len(e.mod) == len(vars) {
				return rSat, vars, e.mod
			}
		} else {
			return e.res, nil, nil
		}
	}
	qq := q()
	s.Queries++
	t0 := time.Now()
	res, m := s.run(qq)
	dt := time.Since(t0)
	s.Time += dt
	if dt > slowAt {
		n := slowQueries.Add(1)
		if d := os.Getenv("GOSYM_DUMP"); d != "" {
			os.WriteFile(fmt.Sprintf("%s/slow%d_%v_%d.smt2", d, n, res, dt.Milliseconds()), []byte(qq.text+"(check-sat)\n"), 0644)
		}
	}
	if res == rUnknown {
		s.Unknown++
		return res, nil, nil
	}
	var vals []uint64
	if res == rSat {
		vals = make([]uint64, len(vars))
		pos := map[*Term]uint64{}
		for i, v := range qq.vars {
			pos[v] = m[i]
		}
		for i, v := range vars {
			vals[i] = pos[v]
		}
	}
	qcacheMu.Lock()
	if len(qcache) < 2000000 {
		qcache[key] = cacheEnt{res, vals}
	}
	qcacheMu.Unlock()
	return res, vars, vals
}

func printQueryLazy(cs []*Term) func() query {
	return func() query { return printQuery(cs) }
}

// collectVars returns the variables of cs sorted by name (stable across paths).
func collectVars(cs []*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var walk func(t *Term)
	visited := map[*Term]bool{}
	walk = func(t *Term) {
		if t == nil || t.op == OConst || visited[t] {
			return
		}
		visited[t] = true
		if t.op == OVar {
			if !seen[t] {
				seen[t] = true
				out = append(out, t)
			}
			return
		}
		walk(t.a)
		walk(t.b)
		walk(t.c)
	}
	for _, c := range cs {
		walk(c)
	}
	// insertion sort by name (small)
	sortTermsByName(out)
	return out
}

func (s *Solver) ensure() {
	if s.p != nil && s.uses > 3000 {
		s.close()
	}
	if s.p == nil {
		s.p = startProc(z3bin, "-in", "-smt2")
		s.uses = 0
		if s.p != nil {
			io.WriteString(s.p.in, "(set-option :print-success false)\n")
		}
	}
}

func (s *Solver) run(q query) (satRes, []uint64) {
	for attempt := 0; attempt < 2; attempt++ {
		s.ensure()
		if s.p == nil {
			break
		}
		s.uses++
		if !q.hard {
			txt := "(push 1)\n(set-option :timeout " + strconv.Itoa(queryTimeout) + ")\n" + q.text + "(check-sat)\n"
			s.last = txt
			if _, err := io.WriteString(s.p.in, txt); err != nil {
				s.close()
				continue
			}
			res, ok := s.readRes(time.Duration(queryTimeout)*time.Millisecond + 3*time.Second)
			if !ok {
				s.close()
				break
			}
			var vals []uint64
			if res == rSat {
				vals, ok = s.readModel(q.vars)
				if !ok {
					s.close()
					break
				}
			}
			io.WriteString(s.p.in, "(pop 1)\n")
			if res != rUnknown {
				return res, vals
			}
			break
		}
		break
	}
	// fallback portfolio
	s.Fallbk++
	return s.portfolio(q)
}

func (s *Solver) readRes(d time.Duration) (satRes, bool) {
	tm := time.NewTimer(d)
	defer tm.Stop()
	for {
		select {
		case line, ok := <-s.p.ch:
			if !ok {
				return rUnknown, false
			}
			switch line {
			case "sat":
				return rSat, true
			case "unsat":
				return rUnsat, true
			case "unknown", "timeout":
				return rUnknown, true
			case "":
				continue
			}
			if strings.HasPrefix(line, "(error") {
				s.Errors++
				if os.Getenv("GOSYM_V") != "" {
					fmt.Fprintln(os.Stderr, "solver:", line, tail(s.last, 3000))
				}
				return rUnknown, false
			}
		case <-tm.C:
			return rUnknown, false
		}
	}
}

func (s *Solver) readModel(vars []*Term) ([]uint64, bool) {
	if len(vars) == 0 {
		return nil, true
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range vars {
		sb.WriteString("v" + strconv.Itoa(int(v.val)) + " ")
	}
	sb.WriteString("))\n(echo \"DONE\")\n")
	io.WriteString(s.p.in, sb.String())
	var txt strings.Builder
	tm := time.NewTimer(5 * time.Second)
	defer tm.Stop()
	for {
		select {
		case line, ok := <-s.p.ch:
			if !ok {
				return nil, false
			}
			if line == "DONE" || line == "\"DONE\"" {
				return parseModel(txt.String(), vars)
			}
			if strings.HasPrefix(line, "(error") {
				s.Errors++
				return nil, false
			}
			txt.WriteString(line + "\n")
		case <-tm.C:
			return nil, false
		}
	}
}

func parseModel(txt string, vars []*Term) ([]uint64, bool) {
	vals := map[string]uint64{}
	// tokens: ((v0 #x..)\n (v1 (fp #b0 #b... #x...)) ...
	toks := tokenize(txt)
	i := 0
	for i < len(toks) {
		if strings.HasPrefix(toks[i], "v") && i+1 < len(toks) {
			name := toks[i]
			i++
			v, n, ok := parseVal(toks[i:])
			if !ok {
				return nil, false
			}
			vals[name] = v
			i += n
			continue
		}
		i++
	}
	out := make([]uint64, len(vars))
	for k, v := range vars {
		x, ok := vals["v"+strconv.Itoa(int(v.val))]
		if !ok {
			return nil, false
		}
		if v.kind == KFP && x == nanMark {
			if v.w == 32 {
				x = 0x7fc00000
			} else {
				x = 0x7ff8000000000001
			}
		}
		out[k] = x
	}
	return out, true
}

const nanMark = 0x7ff8dead0000beef

func tokenize(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		switch c := s[i]; {
		case c == '(' || c == ')':
			out = append(out, s[i:i+1])
			i++
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		default:
			j := i
			for j < len(s) && s[j] != '(' && s[j] != ')' && s[j] != ' ' && s[j] != '\n' {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

func parseLit(t string) (uint64, int, bool) {
	if strings.HasPrefix(t, "#x") {
		v, err := strconv.ParseUint(t[2:], 16, 64)
		return v, (len(t) - 2) * 4, err == nil
	}
	if strings.HasPrefix(t, "#b") {
		v, err := strconv.ParseUint(t[2:], 2, 64)
		return v, len(t) - 2, err == nil
	}
	return 0, 0, false
}

func parseVal(toks []string) (uint64, int, bool) {
	switch {
	case toks[0] == "true":
		return 1, 1, true
	case toks[0] == "false":
		return 0, 1, true
	case toks[0] == "(" && len(toks) > 5 && toks[1] == "fp":
		s, _, ok1 := parseLit(toks[2])
		e, ew, ok2 := parseLit(toks[3])
		m, mw, ok3 := parseLit(toks[4])
		return s<<(ew+mw) | e<<mw | m, 6, ok1 && ok2 && ok3
	case toks[0] == "(" && len(toks) > 4 && toks[1] == "_":
		n := 0
		for toks[n] != ")" {
			n++
		}
		n++
		is32 := n > 4 && toks[3] == "8"
		switch toks[2] {
		case "NaN":
			return nanMark, n, true
		case "+zero":
			return 0, n, true
		case "-zero":
			if is32 {
				return 1 << 31, n, true
			}
			return 1 << 63, n, true
		case "+oo":
			if is32 {
				return 0x7f800000, n, true
			}
			return 0x7ff << 52, n, true
		case "-oo":
			if is32 {
				return 0xff800000, n, true
			}
			return 0xfff << 52, n, true
		}
		if strings.HasPrefix(toks[2], "bv") {
			v, err := strconv.ParseUint(toks[2][2:], 10, 64)
			return v, n, err == nil
		}
		return 0, 0, false
	}
	v, _, ok := parseLit(toks[0])
	return v, 1, ok
}

type pres struct {
	res  satRes
	vals []uint64
}

func (s *Solver) portfolio(q query) (satRes, []uint64) {
	var sb strings.Builder
	sb.WriteString(q.text)
	sb.WriteString("(check-sat)\n")
	if len(q.vars) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range q.vars {
			sb.WriteString("v" + strconv.Itoa(int(v.val)) + " ")
		}
		sb.WriteString("))\n")
	}
	body := sb.String()
	type cand struct {
		name string
		args []string
		pre  string
	}
	logic := "QF_BV"
	if q.fp {
		logic = "QF_BVFP"
	}
	cands := []cand{
		{z3bin, []string{"-in", "-smt2"}, "(set-logic " + logic + ")\n"},
		{"z3", []string{"-in", "-smt2"}, ""},
		{"cvc5", []string{"--produce-models", "--lang=smt2"}, "(set-logic " + logic + ")\n"},
	}
	if !q.fp {
		cands = append(cands, cand{"cvc5", []string{"--produce-models", "--lang=smt2", "--solve-bv-as-int=sum"}, "(set-logic ALL)\n"})
	}
	ch := make(chan pres, len(cands))
	var cmds []*exec.Cmd
	for _, c := range cands {
		cmd := exec.Command(c.name, c.args...)
		cmd.Stdin = strings.NewReader(c.pre + body)
		var out strings.Builder
		cmd.Stdout = &out
		if err := cmd.Start(); err != nil {
			ch <- pres{rUnknown, nil}
			continue
		}
		cmds = append(cmds, cmd)
		go func() {
			cmd.Wait()
			txt := out.String()
			r := pres{rUnknown, nil}
			first, rest, _ := strings.Cut(txt, "\n")
			switch strings.TrimSpace(first) {
			case "unsat":
				r.res = rUnsat
			case "sat":
				if len(q.vars) == 0 {
					r.res = rSat
				} else if vals, ok := parseModel(rest, q.vars); ok {
					r.res, r.vals = rSat, vals
				}
			}
			ch <- r
		}()
	}
	tm := time.NewTimer(fallbackTimeout)
	defer tm.Stop()
	got := pres{rUnknown, nil}
	n := 0
loop:
	for n < len(cands) {
		select {
		case r := <-ch:
			n++
			if r.res != rUnknown {
				got = r
				break loop
			}
		case <-tm.C:
			break loop
		}
	}
	for _, c := range cmds {
		c.Process.Kill()
	}
	return got.res, got.vals
}

func sortTermsByName(ts []*Term) {
	for i := 1; i < len(ts); i++ {
		for j := i; j > 0 && ts[j].name < ts[j-1].name; j-- {
			ts[j], ts[j-1] = ts[j-1], ts[j]
		}
	}
}
