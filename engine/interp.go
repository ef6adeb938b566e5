package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---------- control-flow signals (Go panics inside the engine) ----------

type targetPanic struct {
	v     Iface
	where string
}

type specAbort struct{}

type pathStop struct {
	kind string // "assume", "exit", "steps", "stack", "alloc", "unsupported", "done", "violation", "unknown"
	msg  string
}

type journalEnt struct {
	o   *Obj
	i   int
	old Value
}

// Interp executes one path at a time.
type Interp struct {
	T       *Terms
	prog    *ssa.Program
	globals map[*ssa.Global]*Obj
	epoch   uint32
	curEp   uint32
	journal []journalEnt
	mapJrnl []mapJournal

	spec    int
	guard   *Term
	specLog []journalEnt
	specN   int

	steps    int64
	maxSteps int64
	depth    int
	nobj     int

	ex     *pathExec
	mfail  map[*mergeInfo]int
	pools  map[*Obj][]Value
	host   map[string]any
	funcs  map[*fcode]bool
	covers map[*ssa.Function]int64
	trace  bool
	cur    *Frame

	watch  bool // a write to shared memory is reported
	shared map[any]bool

	cos     []*hostCo
	coNow   int
	coPanic any
}

type mapJournal struct {
	m    *MapObj
	copy MapObj
}

type opnd struct {
	reg int32
	c   Value
	g   *ssa.Global
}

type Frame struct {
	code      *fcode
	regs      []Value
	caller    *Frame
	defers    []deferred
	panicking bool
	pv        *targetPanic
	result    Value
	pos       token.Pos
}

type deferred struct {
	fn   *Closure
	args []Value
	inv  func(in *Interp)
}

type insFn func(in *Interp, fr *Frame)

type tkind uint8

const (
	tJump tkind = iota
	tIf
	tReturn
	tPanic
	tNone
)

type phiIns struct {
	dst   int32
	edges []opnd
}

type cblock struct {
	idx     int
	body    []insFn
	kind    tkind
	cond    opnd
	succs   [2]*cblock
	predIdx [2]int
	phis    []phiIns
	rets    []opnd
	merge   *mergeInfo
	pos     token.Pos
	bad     bool // contains instructions not allowed in merge regions
}

type mergeInfo struct {
	blocks []*cblock // topological order
	join   *cblock   // nil: function exit
}

type fcode struct {
	fn       *ssa.Function
	nregs    int
	blocks   []*cblock
	hasDefer bool
	recover  *cblock
	nparams  int
	nresults int
	size     int
}

type fnRef struct {
	fn   *ssa.Function
	once sync.Once
	code *fcode
	intr intrinsic
	name string
}

var refMu sync.RWMutex
var refs = map[*ssa.Function]*fnRef{}

func refOf(fn *ssa.Function) *fnRef {
	refMu.RLock()
	r := refs[fn]
	refMu.RUnlock()
	if r != nil {
		return r
	}
	refMu.Lock()
	defer refMu.Unlock()
	if r := refs[fn]; r != nil {
		return r
	}
	r = &fnRef{fn: fn, name: fn.String()}
	r.intr = findIntrinsic(fn, r.name)
	refs[fn] = r
	return r
}

func (r *fnRef) getCode() *fcode {
	r.once.Do(func() { r.code = compileFn(r.fn) })
	return r.code
}

func (o *opnd) get(in *Interp, fr *Frame) Value {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	if o.g != nil {
		return Ptr{in.globalObj(o.g), 0}
	}
	return o.c
}

func (in *Interp) globalObj(g *ssa.Global) *Obj {
	if o, ok := in.globals[g]; ok {
		return o
	}
	ti := tinfoOf(g.Type().Underlying().(*types.Pointer).Elem())
	o := &Obj{slots: ti.zeroSlots(), epoch: 0, id: -1}
	in.globals[g] = o
	return o
}

func (in *Interp) newObj(n int) *Obj {
	in.nobj++
	return &Obj{slots: make([]Value, n), epoch: in.epoch, id: in.nobj}
}

func (in *Interp) newObjSlots(s []Value) *Obj {
	in.nobj++
	return &Obj{slots: s, epoch: in.epoch, id: in.nobj}
}

func (in *Interp) setSlot(o *Obj, i int, v Value) {
	if in.watch && o.epoch == 0 {
		in.sharedWrite(o)
	}
	if in.spec > 0 {
		old := o.slots[i]
		if in.guard != nil {
			m, ok := in.mergeVal(in.guard, v, old)
			if !ok {
				panic(specAbort{})
			}
			v = m
		}
		in.specLog = append(in.specLog, journalEnt{o, i, old})
	}
	if o.epoch != in.epoch && o.epoch == 0 {
		in.journal = append(in.journal, journalEnt{o, i, o.slots[i]})
	}
	o.slots[i] = v
}

func (in *Interp) noSpec() {
	if in.spec > 0 {
		panic(specAbort{})
	}
}

func (in *Interp) unsupported(f string, a ...any) {
	if in.spec > 0 {
		panic(specAbort{})
	}
	panic(pathStop{"unsupported", fmt.Sprintf(f, a...)})
}

// ---------- target panics ----------

func (in *Interp) rtPanic(msg string) {
	if in.spec > 0 {
		panic(specAbort{})
	}
	panic(&targetPanic{v: in.rtError(msg), where: in.whereAmI()})
}

func (in *Interp) whereAmI() string {
	fr := in.cur
	if fr == nil {
		return ""
	}
	n := 0
	var sb strings.Builder
	for ; fr != nil && n < 6; fr = fr.caller {
		if n > 0 {
			sb.WriteString(" < ")
		}
		sb.WriteString(fr.code.fn.String())
		n++
	}
	return sb.String()
}

var rtErrType types.Type // named type of runtime error model

func (in *Interp) rtError(msg string) Iface {
	if rtErrType == nil {
		return Iface{canon(types.Typ[types.String]), "runtime error: " + msg}
	}
	return Iface{canon(rtErrType), "runtime error: " + msg}
}

func (in *Interp) userPanic(v Iface) {
	if in.spec > 0 {
		panic(specAbort{})
	}
	panic(&targetPanic{v: v, where: in.whereAmI()})
}

// ---------- calls ----------

const maxDepth = 1500

func (in *Interp) callClosure(c *Closure, args []Value) Value {
	if c == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	if c.host != nil {
		return c.host(in, args)
	}
	return in.callRef(refOf(c.fn), args, c.free)
}

func (in *Interp) callFn(fn *ssa.Function, args ...Value) Value {
	return in.callRef(refOf(fn), args, nil)
}

func (in *Interp) callRef(r *fnRef, args []Value, free []Value) Value {
	if r.intr != nil {
		if v, ok := r.intr(in, args); ok {
			return v
		}
	}
	code := r.getCode()
	if code == nil {
		// assembly functions with a portable twin
		if r.fn.Pkg != nil {
			if g := r.fn.Pkg.Func(r.fn.Name() + "Generic"); g != nil && g.Blocks != nil {
				return in.callRef(refOf(g), args, free)
			}
		}
		in.unsupported("no body: %s", r.name)
	}
	if in.covers != nil && in.spec == 0 {
		in.covers[r.fn]++
	}
	fr := &Frame{code: code, regs: make([]Value, code.nregs), caller: in.cur}
	copy(fr.regs, args)
	copy(fr.regs[code.nparams:], free)
	in.depth++
	if in.depth > maxDepth {
		in.depth = 0
		if in.spec > 0 {
			panic(specAbort{})
		}
		panic(pathStop{"stack", "call depth exceeded in " + r.name})
	}
	old := in.cur
	in.cur = fr
	if in.trace && in.spec == 0 {
		fmt.Printf("%*s> %s\n", in.depth, "", r.name)
	}
	if code.hasDefer {
		in.execDefer(fr)
	} else {
		in.exec(fr, code.blocks[0])
	}
	in.cur = old
	in.depth--
	return fr.result
}

func (in *Interp) execDefer(fr *Frame) {
	depth := in.depth
	recovered := false
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			tp, ok := r.(*targetPanic)
			if !ok {
				panic(r)
			}
			in.cur = fr
			in.depth = depth
			fr.panicking = true
			fr.pv = tp
			in.runDefers(fr)
			recovered = true
		}()
		in.exec(fr, fr.code.blocks[0])
	}()
	if recovered {
		if fr.panicking {
			panic(fr.pv)
		}
		in.cur = fr
		in.depth = depth
		if fr.code.recover != nil {
			in.exec(fr, fr.code.recover)
		} else {
			// zero results
			res := fr.code.fn.Signature.Results()
			switch res.Len() {
			case 0:
			case 1:
				fr.result = tinfoOf(res.At(0).Type()).zeroValue()
			default:
				tu := make(Tuple, res.Len())
				for i := range tu {
					tu[i] = tinfoOf(res.At(i).Type()).zeroValue()
				}
				fr.result = tu
			}
		}
	}
}

// runDefers runs the deferred calls; a panic in one replaces the current one.
func (in *Interp) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		depth := in.depth
		func() {
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				tp, ok := r.(*targetPanic)
				if !ok {
					panic(r)
				}
				in.cur = fr
				in.depth = depth
				fr.panicking = true
				fr.pv = tp
			}()
			if d.inv != nil {
				d.inv(in)
			} else {
				in.callClosure(d.fn, d.args)
			}
		}()
	}
}

func (in *Interp) doRecover() Value {
	// in.cur is the frame that called recover(); its caller must be panicking
	fr := in.cur
	if fr != nil && fr.caller != nil && fr.caller.panicking && !fr.panicking {
		fr.caller.panicking = false
		p := fr.caller.pv
		fr.caller.pv = nil
		return p.v
	}
	return Iface{}
}

// ---------- the main loop ----------

func (in *Interp) exec(fr *Frame, b *cblock) {
	for {
		in.steps += int64(len(b.body)) + 1
		if in.steps > in.maxSteps {
			if in.spec > 0 {
				in.specN = 0
				panic(specAbort{})
			}
			panic(pathStop{"steps", "step limit in " + in.whereAmI()})
		}
		for _, f := range b.body {
			f(in, fr)
		}
		var nb *cblock
		var pi int
		switch b.kind {
		case tJump:
			nb, pi = b.succs[0], b.predIdx[0]
		case tIf:
			c := b.cond.get(in, fr).(*Term)
			if c.isConst() {
				if c.val == 1 {
					nb, pi = b.succs[0], b.predIdx[0]
				} else {
					nb, pi = b.succs[1], b.predIdx[1]
				}
				break
			}
			if b.merge != nil {
				ok, done := in.tryMerge(fr, b, c)
				if ok {
					if done {
						return
					}
					b = b.merge.join
					continue
				}
			}
			fr.pos = b.pos
			if in.branch(c) {
				nb, pi = b.succs[0], b.predIdx[0]
			} else {
				nb, pi = b.succs[1], b.predIdx[1]
			}
		case tReturn:
			fr.result = in.retValue(fr, b)
			return
		case tPanic:
			in.userPanic(b.cond.get(in, fr).(Iface))
		default:
			panic("unreachable block end")
		}
		if len(nb.phis) > 0 {
			if len(nb.phis) == 1 {
				p := &nb.phis[0]
				fr.regs[p.dst] = p.edges[pi].get(in, fr)
			} else {
				var tmp [8]Value
				vals := tmp[:0]
				for i := range nb.phis {
					vals = append(vals, nb.phis[i].edges[pi].get(in, fr))
				}
				for i := range nb.phis {
					fr.regs[nb.phis[i].dst] = vals[i]
				}
			}
		}
		b = nb
	}
}

func (in *Interp) retValue(fr *Frame, b *cblock) Value {
	switch len(b.rets) {
	case 0:
		return nil
	case 1:
		return b.rets[0].get(in, fr)
	}
	t := make(Tuple, len(b.rets))
	for i := range b.rets {
		t[i] = b.rets[i].get(in, fr)
	}
	return t
}

// ---------- merging ----------

type inEdge struct {
	pi int
	g  *Term
	v  Value // return value for exits
}

const maxSpecSteps = 20000

func (in *Interp) tryMerge(fr *Frame, b *cblock, c *Term) (ok, done bool) {
	mi := b.merge
	if in.mfail[mi] >= 4 {
		return false, false
	}
	if in.ex == nil || in.ex.noMerge {
		return false, false
	}
	mark := len(in.specLog)
	guard0 := in.guard
	depth0 := in.depth
	cur0 := in.cur
	spec0 := in.spec
	steps0 := in.steps
	maxs0 := in.maxSteps
	saved := append([]Value(nil), fr.regs...)
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		_, isAbort := r.(specAbort)
		if !isAbort {
			panic(r)
		}
		// undo stores
		for i := len(in.specLog) - 1; i >= mark; i-- {
			e := in.specLog[i]
			e.o.slots[e.i] = e.old
		}
		in.specLog = in.specLog[:mark]
		in.guard = guard0
		in.depth = depth0
		in.cur = cur0
		in.spec = spec0
		in.maxSteps = maxs0
		copy(fr.regs, saved)
		in.mfail[mi]++
		ok, done = false, false
	}()
	if in.spec == 0 {
		m := steps0 + maxSpecSteps
		if m < in.maxSteps {
			in.maxSteps = m
		}
	}
	in.spec++
	nblk := len(fr.code.blocks)
	inc := make([][]inEdge, nblk+1) // index nblk: exit
	T := in.T
	addEdge := func(from *cblock, si int, g *Term) {
		if g.isFalse() {
			return
		}
		to := from.succs[si]
		inc[to.idx] = append(inc[to.idx], inEdge{pi: from.predIdx[si], g: g})
	}
	base := guard0
	if base == nil {
		base = termTrue
	}
	addEdge(b, 0, T.And(base, c))
	addEdge(b, 1, T.And(base, T.Not(c)))
	for _, rb := range mi.blocks {
		es := inc[rb.idx]
		if len(es) == 0 {
			continue
		}
		g := es[0].g
		for _, e := range es[1:] {
			g = T.Or(g, e.g)
		}
		if g.isFalse() {
			continue
		}
		in.mergePhis(fr, rb, es)
		in.guard = g
		in.steps += int64(len(rb.body)) + 1
		if in.steps > in.maxSteps {
			panic(specAbort{})
		}
		for _, f := range rb.body {
			f(in, fr)
		}
		switch rb.kind {
		case tJump:
			addEdge(rb, 0, g)
		case tIf:
			cc := rb.cond.get(in, fr).(*Term)
			addEdge(rb, 0, T.And(g, cc))
			addEdge(rb, 1, T.And(g, T.Not(cc)))
		case tReturn:
			inc[nblk] = append(inc[nblk], inEdge{g: g, v: in.retValue(fr, rb)})
		default:
			panic(specAbort{})
		}
	}
	if mi.join != nil {
		if len(inc[nblk]) > 0 {
			panic(specAbort{})
		}
		in.mergePhis(fr, mi.join, inc[mi.join.idx])
	} else {
		es := inc[nblk]
		if len(es) == 0 {
			panic(specAbort{})
		}
		v := es[len(es)-1].v
		for i := len(es) - 2; i >= 0; i-- {
			m, ok := in.mergeVal(es[i].g, es[i].v, v)
			if !ok {
				panic(specAbort{})
			}
			v = m
		}
		fr.result = v
		done = true
	}
	in.guard = guard0
	in.spec = spec0
	in.maxSteps = maxs0
	if in.spec == 0 {
		in.specLog = in.specLog[:0]
	}
	if in.mfail[mi] > 0 {
		in.mfail[mi]--
	}
	return true, done
}

func (in *Interp) mergePhis(fr *Frame, b *cblock, es []inEdge) {
	if len(b.phis) == 0 {
		return
	}
	if len(es) == 0 {
		panic(specAbort{})
	}
	vals := make([]Value, len(b.phis))
	for k := range b.phis {
		p := &b.phis[k]
		v := p.edges[es[len(es)-1].pi].get(in, fr)
		for i := len(es) - 2; i >= 0; i-- {
			w := p.edges[es[i].pi].get(in, fr)
			m, ok := in.mergeVal(es[i].g, w, v)
			if !ok {
				panic(specAbort{})
			}
			v = m
		}
		vals[k] = v
	}
	for k := range b.phis {
		fr.regs[b.phis[k].dst] = vals[k]
	}
}

func (in *Interp) mergeVal(g *Term, a, b Value) (Value, bool) {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || y.kind != x.kind || y.w != x.w {
			return nil, false
		}
		return in.T.Ite(g, x, y), true
	case string, *SStr:
		switch b.(type) {
		case string, *SStr:
		default:
			return nil, false
		}
		if sx, ok := a.(string); ok {
			if sy, ok := b.(string); ok && sx == sy {
				return a, true
			}
		}
		n := strLen(a)
		if n != strLen(b) {
			return nil, false
		}
		out := make([]*Term, n)
		for i := 0; i < n; i++ {
			out[i] = in.T.Ite(g, strAt(a, i), strAt(b, i))
		}
		return mkStr(out), true
	case Ptr:
		if y, ok := b.(Ptr); ok && x == y {
			return a, true
		}
	case *SymPtr:
		if y, ok := b.(*SymPtr); ok && *x == *y {
			return a, true
		}
	case Slice:
		if y, ok := b.(Slice); ok && x == y {
			return a, true
		}
	case *MapObj:
		if y, ok := b.(*MapObj); ok && x == y {
			return a, true
		}
	case *Closure:
		if y, ok := b.(*Closure); ok && x == y {
			return a, true
		}
	case Iface:
		y, ok := b.(Iface)
		if !ok || x.t != y.t {
			return nil, false
		}
		if x.t == nil {
			return a, true
		}
		m, ok := in.mergeVal(g, x.v, y.v)
		if !ok {
			return nil, false
		}
		return Iface{x.t, m}, true
	case Agg:
		y, ok := b.(Agg)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		out := make(Agg, len(x))
		for i := range x {
			m, ok := in.mergeVal(g, x[i], y[i])
			if !ok {
				return nil, false
			}
			out[i] = m
		}
		return out, true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		out := make(Tuple, len(x))
		for i := range x {
			m, ok := in.mergeVal(g, x[i], y[i])
			if !ok {
				return nil, false
			}
			out[i] = m
		}
		return out, true
	case nil:
		if b == nil {
			return nil, true
		}
	}
	return nil, false
}

// ---------- compilation ----------

type compiler struct {
	fn   *ssa.Function
	code *fcode
	reg  map[ssa.Value]int32
}

func compileFn(fn *ssa.Function) *fcode {
	if len(fn.Blocks) == 0 {
		return nil
	}
	code := &fcode{fn: fn}
	c := &compiler{fn: fn, code: code, reg: map[ssa.Value]int32{}}
	n := int32(0)
	for _, p := range fn.Params {
		c.reg[p] = n
		n++
	}
	code.nparams = int(n)
	for _, p := range fn.FreeVars {
		c.reg[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				c.reg[v] = n
				n++
			}
			switch i.(type) {
			case *ssa.Defer:
				code.hasDefer = true
			}
		}
	}
	code.nregs = int(n)
	for range fn.Blocks {
		code.blocks = append(code.blocks, &cblock{})
	}
	for i, b := range fn.Blocks {
		c.block(b, code.blocks[i])
	}
	if fn.Recover != nil {
		code.recover = code.blocks[fn.Recover.Index]
	}
	c.findMerges()
	return code
}

func (c *compiler) opnd(v ssa.Value) opnd {
	switch v := v.(type) {
	case *ssa.Const:
		return opnd{reg: -1, c: constValue(v)}
	case *ssa.Global:
		return opnd{reg: -1, g: v}
	case *ssa.Function:
		return opnd{reg: -1, c: &Closure{fn: v}}
	case *ssa.Builtin:
		return opnd{reg: -1, c: &Closure{bi: v}}
	}
	r, ok := c.reg[v]
	if !ok {
		panic(fmt.Sprintf("no register for %T %s in %s", v, v.Name(), c.fn))
	}
	return opnd{reg: r}
}

func constValue(c *ssa.Const) Value {
	ti := tinfoOf(c.Type())
	if c.Value == nil {
		return ti.zeroValue()
	}
	switch ti.k {
	case kBool:
		return mkBool(constant.BoolVal(c.Value))
	case kInt:
		return BV(ti.w, uint64(c.Int64()))
	case kUint:
		return BV(ti.w, c.Uint64())
	case kFloat:
		return FPf(ti.w, c.Float64())
	case kString:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	}
	return nil
}

func (c *compiler) block(b *ssa.BasicBlock, cb *cblock) {
	cb.idx = b.Index
	for i, s := range b.Succs {
		cb.succs[i] = c.code.blocks[s.Index]
		for k, p := range s.Preds {
			if p == b {
				// with duplicate edges (both succs the same) use i-th occurrence
				if i == 1 && b.Succs[0] == s {
					dup := false
					for kk := k + 1; kk < len(s.Preds); kk++ {
						if s.Preds[kk] == b {
							cb.predIdx[i] = kk
							dup = true
							break
						}
					}
					if dup {
						break
					}
				}
				cb.predIdx[i] = k
				break
			}
		}
	}
	cb.kind = tNone
	for _, instr := range b.Instrs {
		switch x := instr.(type) {
		case *ssa.Phi:
			p := phiIns{dst: c.reg[x]}
			for _, e := range x.Edges {
				p.edges = append(p.edges, c.opnd(e))
			}
			cb.phis = append(cb.phis, p)
		case *ssa.Jump:
			cb.kind = tJump
		case *ssa.If:
			cb.kind = tIf
			cb.cond = c.opnd(x.Cond)
			cb.pos = x.Cond.Pos()
		case *ssa.Return:
			cb.kind = tReturn
			for _, r := range x.Results {
				cb.rets = append(cb.rets, c.opnd(r))
			}
		case *ssa.Panic:
			cb.kind = tPanic
			cb.cond = c.opnd(x.X)
		case *ssa.DebugRef:
		default:
			switch instr.(type) {
			case *ssa.Defer, *ssa.Go, *ssa.Send, *ssa.Select, *ssa.RunDefers, *ssa.MapUpdate:
				cb.bad = true
			}
			cb.body = append(cb.body, c.instr(instr))
			c.code.size++
		}
	}
}

// findMerges computes merge regions for every conditional.
func (c *compiler) findMerges() {
	bl := c.code.blocks
	n := len(bl)
	if n > 400 {
		return
	}
	exit := n
	// post-dominators ignoring panic blocks (they have no successors)
	succs := make([][]int, n+1)
	for i, b := range bl {
		switch b.kind {
		case tJump:
			succs[i] = []int{b.succs[0].idx}
		case tIf:
			succs[i] = []int{b.succs[0].idx, b.succs[1].idx}
		case tReturn:
			succs[i] = []int{exit}
		}
	}
	// can reach exit
	words := (n + 64) / 64
	full := make([]uint64, words)
	for i := range full {
		full[i] = ^uint64(0)
	}
	pdom := make([][]uint64, n+1)
	for i := range pdom {
		pdom[i] = append([]uint64(nil), full...)
	}
	pdom[exit] = make([]uint64, words)
	pdom[exit][exit/64] |= 1 << (exit % 64)
	changed := true
	tmp := make([]uint64, words)
	for changed {
		changed = false
		for i := n - 1; i >= 0; i-- {
			if len(succs[i]) == 0 {
				continue // panic: vacuous
			}
			copy(tmp, full)
			for _, s := range succs[i] {
				for w := range tmp {
					tmp[w] &= pdom[s][w]
				}
			}
			tmp[i/64] |= 1 << (i % 64)
			for w := range tmp {
				if tmp[w] != pdom[i][w] {
					copy(pdom[i], tmp)
					changed = true
					break
				}
			}
		}
	}
	has := func(s []uint64, i int) bool { return s[i/64]&(1<<(i%64)) != 0 }
	count := func(s []uint64) int {
		k := 0
		for i := 0; i <= n; i++ {
			if has(s, i) {
				k++
			}
		}
		return k
	}
	for i, b := range bl {
		if b.kind != tIf {
			continue
		}
		// ipdom: the strict post-dominator with the most post-dominators
		best, bestc := -1, -1
		for j := 0; j <= n; j++ {
			if j != i && has(pdom[i], j) {
				if k := count(pdom[j]); k > bestc && k <= n {
					best, bestc = j, k
				}
			}
		}
		if best < 0 {
			continue
		}
		if best == exit && c.code.hasDefer {
			continue
		}
		// region: reachable from succs without passing best
		inReg := map[int]bool{}
		var order []int
		state := map[int]int{}
		ok := true
		ninstr := 0
		var visit func(k int)
		visit = func(k int) {
			if !ok || k == best || k == exit {
				return
			}
			if k == i {
				ok = false
				return
			}
			if state[k] == 1 {
				ok = false // cycle
				return
			}
			if state[k] == 2 {
				return
			}
			state[k] = 1
			if bl[k].bad || bl[k].kind == tNone {
				ok = false
				return
			}
			ninstr += len(bl[k].body)
			if ninstr > 300 || len(order) > 60 {
				ok = false
				return
			}
			for _, s := range succs[k] {
				visit(s)
			}
			state[k] = 2
			inReg[k] = true
			order = append(order, k)
		}
		for _, s := range succs[i] {
			visit(s)
		}
		if !ok {
			continue
		}
		// every region block is entered only from the region
		fnb := c.fn.Blocks
		for k := range inReg {
			for _, p := range fnb[k].Preds {
				if p.Index != i && !inReg[p.Index] {
					ok = false
				}
			}
		}
		if !ok {
			continue
		}
		mi := &mergeInfo{}
		for k := len(order) - 1; k >= 0; k-- {
			mi.blocks = append(mi.blocks, bl[order[k]])
		}
		if best != exit {
			mi.join = bl[best]
		}
		b.merge = mi
	}
}
