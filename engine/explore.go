package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var exploreSeed int64

// sites counts solver queries per place (GOSYM_SITES).
var sites map[string]int
var siteMu sync.Mutex

// decision is one recorded nondeterministic step.
type decision struct {
	kind  uint8 // 0 branch, 1 concretize step, 2 solver answer (implied yes/no), 3 pick
	taken bool
	impl  bool // the other side was infeasible
	val   uint64
	more  []uint64
}

type workItem struct {
	prefix []decision
	model  []uint64
}

// Violation is a candidate counterexample.
type Violation struct {
	Kind   string            `json:"kind"` // assert, panic, steps, stack, alloc
	Tag    string            `json:"tag"`
	Msg    string            `json:"msg"`
	Model  map[string]uint64 `json:"model"`
	Where  string            `json:"where,omitempty"`
	Conf   string            `json:"replay,omitempty"`
	Output string            `json:"output,omitempty"`
}

// Sample is a completed path kept for native validation.
type Sample struct {
	Model map[string]uint64 `json:"model"`
	Obs   []string          `json:"obs"`
}

type pathExec struct {
	h          *Harness
	w          *worker
	prefix     []decision
	pos        int
	initModel  []uint64
	dec        []decision
	pc         []*Term
	pcSet      map[*Term]bool
	byVar      map[int32][]int32
	fixed      []bool
	allocLimit int64
	noMerge    bool
	obs        []obsEnt
	observed   bool
	reach      map[string]bool
	truncated  string
	zipfs      *vfs
	asserts    int
}

type obsEnt struct {
	name string
	v    Value
}

// Harness collects the results of exploring one harness.
type Harness struct {
	Name string
	fn   *ssa.Function
	mu   sync.Mutex
	cond *sync.Cond

	stack   []workItem
	active  int
	stopped bool

	Paths      int
	Completed  int
	Assumed    int
	Decisions  int64
	MaxDec     int
	Steps      int64
	Queries    int
	Hits       int
	Fallbk     int
	SolverTime time.Duration
	Unknown    int
	Asserts    int64
	Proved     int64
	Reach      map[string]int
	Incomplete map[string]int
	Viol       []*Violation
	violSeen   map[string]int
	Samples    []Sample
	sampleN    int
	Funcs      map[string]int64
	Elapsed    time.Duration
	Pending    int
	Deadline   time.Time
	MaxPaths   int
	MaxSteps   int64
	MaxViol    int
	MaxSamples int
	IgnoreTags map[string]bool
}

type worker struct {
	in     *Interp
	solver *Solver
	h      *Harness
}

// ---------- path-level operations used by the interpreter ----------

func (ex *pathExec) addPC(c *Term) {
	if c.isConst() || ex.pcSet[c] {
		return
	}
	// split conjunctions for better slicing
	if c.op == OAnd {
		ex.addPC(c.a)
		ex.addPC(c.b)
		return
	}
	if c.op == ONot && c.a.op == OOr {
		ex.addPC(ex.w.in.T.Not(c.a.a))
		ex.addPC(ex.w.in.T.Not(c.a.b))
		return
	}
	ex.pcSet[c] = true
	switch {
	case c.op == OEq && c.b.op == OConst:
		ex.fix(c.a)
	case c.op == OEq && c.a.op == OConst:
		ex.fix(c.b)
	case c.op == ONot:
		if c.a.op == OVar {
			ex.fix(c.a)
		}
	default:
		ex.fix(c)
	}
	i := int32(len(ex.pc))
	ex.pc = append(ex.pc, c)
	for _, v := range varsOf(c) {
		ex.byVar[v] = append(ex.byVar[v], i)
	}
}

// fix records the variables that an equality with a constant pins down.
func (ex *pathExec) fix(t *Term) {
	switch t.op {
	case OVar:
		for int(t.val) >= len(ex.fixed) {
			ex.fixed = append(ex.fixed, false)
		}
		ex.fixed[t.val] = true
	case OConcat:
		ex.fix(t.a)
		ex.fix(t.b)
	case OSExt, OBound:
		ex.fix(t.a)
	case OAdd, OSub, OBXor:
		if t.a.op == OConst {
			ex.fix(t.b)
		} else if t.b.op == OConst {
			ex.fix(t.a)
		}
	}
}

// fx replaces a term whose variables are all pinned down by its value.
func (in *Interp) fx(v Value) Value {
	t, ok := v.(*Term)
	if !ok || t.op == OConst || in.ex == nil || len(in.ex.fixed) == 0 || t.kind == KFP || !in.ex.allFixed(t) {
		return v
	}
	u := in.T.Eval(t)
	if t.kind == KBool {
		if u != 0 {
			return termTrue
		}
		return termFalse
	}
	return BVany(t.w, u)
}

func (ex *pathExec) allFixed(c *Term) bool {
	for _, v := range varsOf(c) {
		if int(v) >= len(ex.fixed) || !ex.fixed[v] {
			return false
		}
	}
	return true
}

// slice returns the constraints transitively sharing variables with c, plus c.
func (ex *pathExec) slice(c *Term) []*Term { return ex.w.in.T.foldTabs(ex.slice1(c)) }

func (ex *pathExec) slice1(c *Term) []*Term {
	out := []*Term{c}
	seenC := make(map[int32]bool)
	seenV := make(map[int32]bool)
	queue := append([]int32(nil), varsOf(c)...)
	for _, v := range queue {
		seenV[v] = true
	}
	for len(queue) > 0 {
		v := queue[len(queue)-1]
		queue = queue[:len(queue)-1]
		for _, ci := range ex.byVar[v] {
			if seenC[ci] {
				continue
			}
			seenC[ci] = true
			t := ex.pc[ci]
			out = append(out, t)
			for _, u := range varsOf(t) {
				if !seenV[u] {
					seenV[u] = true
					queue = append(queue, u)
				}
			}
		}
	}
	return out
}

// feasible asks whether pc ∧ c has a model; on sat returns the full model.
func (ex *pathExec) feasible(c *Term) (satRes, []uint64) {
	if c.isFalse() {
		return rUnsat, nil
	}
	T := ex.w.in.T
	if ex.allFixed(c) {
		if T.Eval(c) == 0 {
			return rUnsat, nil
		}
		return rSat, append([]uint64(nil), T.model...)
	}
	if sites != nil {
		siteMu.Lock()
		sites[ex.w.in.whereAmI()]++
		siteMu.Unlock()
	}
	if time.Now().After(ex.h.Deadline.Add(2 * time.Second)) {
		panic(pathStop{"deadline", ""})
	}
	cs := ex.slice(c)
	res, vars, vals := ex.w.solver.checkSat(cs)
	if res != rSat {
		return res, nil
	}
	m := append([]uint64(nil), T.model...)
	for i, v := range vars {
		m[v.val] = vals[i]
	}
	// self check: the model must satisfy the slice
	old := T.model
	T.model = m
	T.gen++
	ok := true
	for _, t := range cs {
		if T.Eval(t) != 1 {
			ok = false
			break
		}
	}
	T.model = old
	T.gen++
	if !ok {
		ex.h.note("solver-model-mismatch")
		if os.Getenv("GOSYM_V") != "" {
			fmt.Fprintln(os.Stderr, "model mismatch:\n"+printQuery(cs).text)
		}
		return rUnknown, nil
	}
	return rSat, m
}

func (h *Harness) note(s string) {
	h.mu.Lock()
	h.Incomplete[s]++
	h.mu.Unlock()
}

func (ex *pathExec) push(flip decision, model []uint64) {
	p := make([]decision, len(ex.dec)+1)
	copy(p, ex.dec)
	p[len(ex.dec)] = flip
	h := ex.h
	h.mu.Lock()
	h.stack = append(h.stack, workItem{p, model})
	h.cond.Signal()
	h.mu.Unlock()
}

// branch decides a symbolic condition, forking when both sides are feasible.
func (in *Interp) branch(c *Term) bool {
	if c.isConst() {
		return c.val == 1
	}
	if in.spec > 0 {
		panic(specAbort{})
	}
	ex := in.ex
	if ex == nil {
		panic(pathStop{"unsupported", "symbolic branch during initialisation"})
	}
	T := in.T
	if ex.pos < len(ex.prefix) {
		d := ex.prefix[ex.pos]
		ex.pos++
		ex.dec = append(ex.dec, d)
		if d.kind != 0 {
			panic(fmt.Sprintf("replay divergence: expected branch, have kind %d at %s", d.kind, in.whereAmI()))
		}
		if !d.impl {
			if d.taken {
				ex.addPC(c)
			} else {
				ex.addPC(T.Not(c))
			}
		}
		return d.taken
	}
	if ex.pcSet[c] {
		ex.dec = append(ex.dec, decision{taken: true, impl: true})
		return true
	}
	nc := T.Not(c)
	if ex.pcSet[nc] {
		ex.dec = append(ex.dec, decision{taken: false, impl: true})
		return false
	}
	dir := T.Eval(c) == 1
	other := nc
	mine := c
	if !dir {
		other, mine = c, nc
	}
	res, m := ex.feasible(other)
	switch res {
	case rUnsat:
		ex.dec = append(ex.dec, decision{taken: dir, impl: true})
		return dir
	case rSat:
		ex.push(decision{taken: !dir}, m)
	default:
		ex.h.note("solver-unknown at " + in.whereAmI())
	}
	ex.dec = append(ex.dec, decision{taken: dir})
	ex.addPC(mine)
	return dir
}

// branchChk is branch for run-time checks; in a merge region it may ask the solver
// whether the check is decided under the guard.
func (in *Interp) branchChk(c *Term) bool {
	if c.isConst() {
		return c.val == 1
	}
	if in.spec == 0 || in.ex == nil {
		return in.branch(c)
	}
	ex := in.ex
	if ex.pos < len(ex.prefix) {
		d := ex.prefix[ex.pos]
		ex.pos++
		ex.dec = append(ex.dec, d)
		if d.kind != 2 {
			panic("replay divergence: expected implied")
		}
		if !d.impl {
			panic(specAbort{})
		}
		return d.taken
	}
	g := in.guard
	if g == nil {
		g = termTrue
	}
	T := in.T
	d := decision{kind: 2}
	dir := true
	// which side does the model suggest?
	if T.Eval(g) == 1 {
		dir = T.Eval(c) == 1
	}
	other := c
	if dir {
		other = T.Not(c)
	}
	res, _ := ex.feasible(T.And(g, other))
	if res == rUnsat {
		d.impl, d.taken = true, dir
	}
	ex.dec = append(ex.dec, d)
	if !d.impl {
		panic(specAbort{})
	}
	return d.taken
}

const concretizeCap = 1100

// concretize forks over every feasible value of t.
func (in *Interp) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	if in.spec > 0 {
		panic(specAbort{})
	}
	ex := in.ex
	if ex == nil {
		panic(pathStop{"unsupported", "symbolic value during initialisation"})
	}
	T := in.T
	for n := 0; ; n++ {
		if ex.pos < len(ex.prefix) {
			d := ex.prefix[ex.pos]
			ex.pos++
			ex.dec = append(ex.dec, d)
			if d.kind != 1 {
				panic("replay divergence: expected concretize")
			}
			c := T.Eq(t, BVany(t.w, d.val))
			if d.taken {
				if !d.impl {
					ex.addPC(c)
				}
				in.pin(t)
				return d.val
			}
			ex.addPC(T.Not(c))
			continue
		}
		v := T.Eval(t)
		c := T.Eq(t, BVany(t.w, v))
		d := decision{kind: 1, taken: true, val: v}
		if !ex.pcSet[c] {
			if n > concretizeCap {
				ex.h.note("concretization cap at " + in.whereAmI())
			} else {
				res, m := ex.feasible(T.Not(c))
				switch res {
				case rUnsat:
					d.impl = true
				case rSat:
					ex.push(decision{kind: 1, taken: false, val: v}, m)
				default:
					ex.h.note("solver-unknown (concretize) at " + in.whereAmI())
				}
			}
		} else {
			d.impl = true
		}
		ex.dec = append(ex.dec, d)
		if !d.impl {
			ex.addPC(c)
		}
		in.pin(t)
		return v
	}
}

// pin looks whether a concretized term leaves only one value for its variables; later
// terms over them are then constants.
func (in *Interp) pin(t *Term) {
	ex := in.ex
	T := in.T
	var free []*Term
	for _, v := range varsOf(t) {
		if int(v) >= len(ex.fixed) || !ex.fixed[v] {
			free = append(free, T.vars[v])
		}
	}
	if len(free) == 0 || len(free) > 4 || t.op == OVar {
		return
	}
	for _, v := range free {
		if v.kind == KFP {
			return
		}
	}
	if ex.pos < len(ex.prefix) {
		d := ex.prefix[ex.pos]
		ex.pos++
		ex.dec = append(ex.dec, d)
		if d.kind != 4 {
			panic("replay divergence: expected pin")
		}
		if d.taken {
			// the values follow from the path condition, whatever the current model is
			for i, v := range free {
				if i == 0 {
					ex.addPC(in.pinEq(v, d.val))
				} else {
					ex.addPC(in.pinEq(v, d.more[i-1]))
				}
			}
		}
		return
	}
	diff := termFalse
	d := decision{kind: 4}
	for i, v := range free {
		u := T.Eval(v)
		if i == 0 {
			d.val = u
		} else {
			d.more = append(d.more, u)
		}
		diff = T.Or(diff, T.Not(in.pinEq(v, u)))
	}
	res, _ := ex.feasible(diff)
	d.taken = res == rUnsat
	ex.dec = append(ex.dec, d)
	if d.taken {
		for _, v := range free {
			ex.addPC(in.pinEq(v, T.Eval(v)))
		}
	}
}

func (in *Interp) pinEq(v *Term, u uint64) *Term {
	if v.kind == KBool {
		if u != 0 {
			return v
		}
		return in.T.Not(v)
	}
	return in.T.Eq(v, BVany(v.w, u))
}

// pickOne fixes t to one feasible value; the rest is outside the explored bound.
func (in *Interp) pickOne(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	in.noSpec()
	ex := in.ex
	T := in.T
	if ex.pos < len(ex.prefix) {
		d := ex.prefix[ex.pos]
		ex.pos++
		ex.dec = append(ex.dec, d)
		if d.kind != 3 {
			panic("replay divergence: expected pick")
		}
		ex.addPC(T.Eq(t, BVany(t.w, d.val)))
		return d.val
	}
	v := T.Eval(t)
	ex.dec = append(ex.dec, decision{kind: 3, taken: true, val: v})
	c := T.Eq(t, BVany(t.w, v))
	if !ex.pcSet[c] {
		if res, _ := ex.feasible(T.Not(c)); res != rUnsat {
			ex.h.note("one representative value at " + in.whereAmI())
		}
	}
	ex.addPC(c)
	return v
}

// pickVars gives the variables of t one representative value.
func (in *Interp) pickVars(t *Term) {
	for _, v := range collectVars([]*Term{t}) {
		in.pickOne(v)
	}
}

func (in *Interp) assume(c *Term) {
	if c.isTrue() {
		return
	}
	in.noSpec()
	if c.isFalse() {
		panic(pathStop{"assume", ""})
	}
	ex := in.ex
	T := in.T
	if ex.pos < len(ex.prefix) {
		ex.addPC(c)
		return
	}
	if T.Eval(c) == 1 {
		ex.addPC(c)
		return
	}
	res, m := ex.feasible(c)
	switch res {
	case rSat:
		T.model = m
		T.gen++
		ex.addPC(c)
	case rUnsat:
		panic(pathStop{"assume", ""})
	default:
		ex.h.note("solver-unknown (assume)")
		panic(pathStop{"unknown", "assume"})
	}
}

func (in *Interp) modelMap() map[string]uint64 {
	m := map[string]uint64{}
	for i, v := range in.T.vars {
		if in.T.model[i] != 0 {
			m[v.name] = in.T.model[i]
		}
	}
	return m
}

func (in *Interp) report(kind, tag, msg string, model []uint64) {
	old := in.T.model
	if model != nil {
		in.T.model = model
	}
	v := &Violation{Kind: kind, Tag: tag, Msg: msg, Model: in.modelMap(), Where: in.whereAmI()}
	in.T.model = old
	h := in.ex.h
	h.mu.Lock()
	defer h.mu.Unlock()
	key := kind + "|" + tag
	if kind != "assert" {
		key += "|" + msg
	}
	h.violSeen[key]++
	if h.violSeen[key] <= 3 {
		h.Viol = append(h.Viol, v)
	}
	if len(h.Viol) >= h.MaxViol {
		h.stopped = true
		h.cond.Broadcast()
	}
}

func (in *Interp) assertT(c *Term, tag string) {
	in.noSpec()
	ex := in.ex
	T := in.T
	ex.asserts++
	if c.isTrue() {
		return
	}
	if ex.pos < len(ex.prefix) {
		// decided by the run that created this prefix
		if c.isFalse() {
			panic(pathStop{"violation", tag})
		}
		ex.addPC(c)
		return
	}
	if c.isFalse() {
		in.report("assert", tag, tag, nil)
		panic(pathStop{"violation", tag})
	}
	if T.Eval(c) == 0 {
		in.report("assert", tag, tag, nil)
		res, m := ex.feasible(c)
		if res != rSat {
			panic(pathStop{"violation", tag})
		}
		T.model = m
		T.gen++
		ex.addPC(c)
		return
	}
	if ex.pcSet[c] {
		return
	}
	res, m := ex.feasible(T.Not(c))
	switch res {
	case rSat:
		in.report("assert", tag, tag, m)
	case rUnknown:
		ex.h.note("solver-unknown (assert " + tag + ")")
	}
	ex.addPC(c)
}

// ---------- running paths ----------

func (w *worker) runPath(it workItem) {
	in := w.in
	h := w.h
	in.T.reset()
	in.epoch = 1
	in.steps, in.depth, in.nobj = 0, 0, 0
	in.maxSteps = h.MaxSteps
	in.spec, in.guard = 0, nil
	in.watch = false
	in.specLog = in.specLog[:0]
	in.mfail = map[*mergeInfo]int{}
	in.pools = map[*Obj][]Value{}
	in.host = map[string]any{}
	in.cur = nil
	ex := &pathExec{h: h, w: w, prefix: it.prefix, initModel: it.model,
		pcSet: map[*Term]bool{}, byVar: map[int32][]int32{}, reach: map[string]bool{}, zipfs: newVFS()}
	in.ex = ex
	stop := pathStop{kind: "done"}
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch r := r.(type) {
			case pathStop:
				stop = r
			case *targetPanic:
				stop = pathStop{"panic", in.panicText(r.v)}
				in.cur = nil
				in.reportPanic(r, stop.msg)
			case specAbort:
				stop = pathStop{"unsupported", "stray speculation abort"}
			default:
				stop = pathStop{"unsupported", fmt.Sprintf("engine: %v at %s", r, in.whereAmI())}
				if os.Getenv("GOSYM_V") != "" {
					panic(r)
				}
			}
		}()
		in.callRef(refOf(h.fn), nil, nil)
	}()
	in.coEnd()
	switch stop.kind {
	case "steps", "stack", "alloc":
		in.report(stop.kind, stop.kind, stop.msg, nil)
	case "unsupported":
		h.note("unsupported: " + stop.msg)
	case "deadline":
		h.note("path cut at the time budget")
	}
	// restore the initial heap
	for i := len(in.journal) - 1; i >= 0; i-- {
		e := in.journal[i]
		e.o.slots[e.i] = e.old
	}
	in.journal = in.journal[:0]
	for i := len(in.mapJrnl) - 1; i >= 0; i-- {
		*in.mapJrnl[i].m = in.mapJrnl[i].copy
	}
	in.mapJrnl = in.mapJrnl[:0]

	h.mu.Lock()
	defer h.mu.Unlock()
	h.Paths++
	switch stop.kind {
	case "done":
		h.Completed++
	case "assume":
		h.Assumed++
	}
	h.Steps += in.steps
	h.Decisions += int64(len(ex.dec) - len(ex.prefix))
	if len(ex.dec) > h.MaxDec {
		h.MaxDec = len(ex.dec)
	}
	h.Asserts += int64(ex.asserts)
	for r := range ex.reach {
		h.Reach[r]++
	}
	if stop.kind == "done" {
		h.sampleN++
		// keep the first few and then ever rarer ones
		n := h.sampleN
		if len(h.Samples) < h.MaxSamples && (n <= 3 || n&(n-1) == 0 || n%37 == 0) {
			s := Sample{Model: in.modelMap()}
			for _, o := range ex.obs {
				s.Obs = append(s.Obs, o.name+"="+in.obsText(o.v))
			}
			h.Samples = append(h.Samples, s)
		}
	}
	if os.Getenv("GOSYM_PATHS") != "" {
		fmt.Fprintf(os.Stderr, "path %d: %s %s dec=%d steps=%d %v\n", h.Paths, stop.kind, stop.msg, len(ex.dec), in.steps, in.modelMap())
	}
	in.ex = nil
}

func (in *Interp) reportPanic(tp *targetPanic, msg string) {
	old := in.ex
	defer func() { in.ex = old }()
	v := &Violation{Kind: "panic", Tag: "panic", Msg: msg, Model: in.modelMap(), Where: tp.where}
	h := in.ex.h
	h.mu.Lock()
	defer h.mu.Unlock()
	key := "panic|" + msg + "|" + tp.where
	h.violSeen[key]++
	if h.violSeen[key] <= 3 {
		h.Viol = append(h.Viol, v)
	}
	if len(h.Viol) >= h.MaxViol {
		h.stopped = true
		h.cond.Broadcast()
	}
}

func (in *Interp) panicText(v Iface) (s string) {
	if v.t == nil {
		return "nil"
	}
	switch x := v.v.(type) {
	case string:
		return x
	case *SStr:
		return in.obsText(x)
	}
	defer func() {
		if recover() != nil {
			s = v.t.String()
		}
	}()
	if r := lookupNamed(v.t, "Error"); r != nil {
		in.spec, in.guard = 0, nil
		if t, ok := in.callRef(r, []Value{v.v}, nil).(string); ok {
			return t
		}
	}
	return v.t.String() + " " + in.obsText(v.v)
}

// obsText renders a value under the current model in the format of vrt.Observe.
func (in *Interp) obsText(v Value) string {
	T := in.T
	switch x := v.(type) {
	case nil:
		return "nil"
	case *Term:
		u := T.Eval(x)
		if x.kind == KFP && x.w == 64 {
			if f := math.Float64frombits(u); f != f {
				return "fNaN"
			}
			return fmt.Sprintf("f%016x", u)
		}
		return fmt.Sprintf("%x", u)
	case string:
		return fmt.Sprintf("%q", x)
	case *SStr:
		b := make([]byte, len(x.b))
		for i, t := range x.b {
			b[i] = byte(T.Eval(t))
		}
		return fmt.Sprintf("%q", string(b))
	case Slice:
		var sb strings.Builder
		sb.WriteString("[")
		for i := 0; i < x.len; i++ {
			if i > 0 {
				sb.WriteString(" ")
			}
			sb.WriteString(in.obsText(x.obj.slots[x.off+i]))
		}
		sb.WriteString("]")
		return sb.String()
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return in.obsText(x.v)
	}
	return fmt.Sprintf("%T", v)
}

// explore runs the harness over all paths.
func (h *Harness) explore(ws []*worker) {
	h.cond = sync.NewCond(&h.mu)
	h.Reach = map[string]int{}
	h.Incomplete = map[string]int{}
	h.violSeen = map[string]int{}
	h.Funcs = map[string]int64{}
	h.stack = []workItem{{}}
	t0 := time.Now()
	var wg sync.WaitGroup
	stopTimer := make(chan bool)
	go func() {
		tk := time.NewTicker(200 * time.Millisecond)
		defer tk.Stop()
		for {
			select {
			case <-stopTimer:
				return
			case <-tk.C:
				if time.Now().After(h.Deadline) {
					h.mu.Lock()
					h.stopped = true
					h.cond.Broadcast()
					h.mu.Unlock()
				}
			}
		}
	}()
	for wi, w := range ws {
		w.h = h
		w.in.covers = map[*ssa.Function]int64{}
		*w.solver = Solver{p: w.solver.p, uses: w.solver.uses}
		wg.Add(1)
		rng := rand.New(rand.NewSource(exploreSeed + int64(wi)))
		go func(w *worker) {
			defer wg.Done()
			for {
				h.mu.Lock()
				for len(h.stack) == 0 && h.active > 0 && !h.stopped {
					h.cond.Wait()
				}
				if h.stopped || len(h.stack) == 0 || (h.MaxPaths > 0 && h.Paths >= h.MaxPaths) {
					h.cond.Broadcast()
					h.mu.Unlock()
					return
				}
				// half the workers go depth first, the others start from random places
				k := len(h.stack) - 1
				if wi%2 == 1 {
					k = rng.Intn(k + 1)
				}
				it := h.stack[k]
				h.stack[k] = h.stack[len(h.stack)-1]
				h.stack = h.stack[:len(h.stack)-1]
				h.active++
				h.mu.Unlock()
				w.runPath(it)
				h.mu.Lock()
				h.active--
				if h.active == 0 && len(h.stack) == 0 {
					h.cond.Broadcast()
				}
				h.mu.Unlock()
			}
		}(w)
	}
	wg.Wait()
	close(stopTimer)
	h.Pending = len(h.stack)
	h.Elapsed = time.Since(t0)
	for _, w := range ws {
		h.Queries += w.solver.Queries
		h.Hits += w.solver.Hits
		h.Fallbk += w.solver.Fallbk
		h.Unknown += w.solver.Unknown
		h.SolverTime += w.solver.Time
		for f, n := range w.in.covers {
			h.Funcs[f.String()] += n
		}
	}
	if h.Pending > 0 && !h.violStop() {
		h.Incomplete["unexplored paths (time or path budget)"] += h.Pending
	}
}

func (h *Harness) violStop() bool { return len(h.Viol) >= h.MaxViol }

func (h *Harness) incompleteList() []string {
	var out []string
	for k, n := range h.Incomplete {
		out = append(out, fmt.Sprintf("%s (x%d)", k, n))
	}
	sort.Strings(out)
	return out
}
