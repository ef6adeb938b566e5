package vrt

import "runtime"

// The scheduler of rewritten concurrent programs. Goroutines run one at a time; at every
// operation on a channel, lock, wait group or pool another one may go on, and which one is
// a choice of the model. The engine and the native build run this same code and differ
// only in coStart and coSwitch.

type task struct {
	id    int
	ready func() bool
	done  bool
}

var tasks []*task
var current *task
var devs, picks, cpus int

// Sched starts scheduling: deviations is how often another goroutine goes on than the
// running one (or, when that one waits, than the next one in order), ncpu is what
// runtime.NumCPU tells.
func Sched(deviations, ncpu int) {
	current = &task{}
	tasks = []*task{current}
	devs, cpus, picks = deviations, ncpu, 0
}

// CPUs stands for runtime.NumCPU and runtime.GOMAXPROCS.
func CPUs() int { return cpus }

func digits(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return digits(n/10) + string(rune('0'+n%10))
}

// pick chooses the task that goes on. The first in line is the current one, then come
// those that follow it.
func pick() *task {
	var run []*task
	at := 0
	for i, t := range tasks {
		if t == current {
			at = i
		}
	}
	for i := range tasks {
		t := tasks[(at+i)%len(tasks)]
		if !t.done && (t.ready == nil || t.ready()) {
			run = append(run, t)
			if devs == 0 {
				return t
			}
		}
	}
	Assert(len(run) > 0, "all goroutines wait for each other")
	k := 0
	if len(run) > 1 {
		k = Choice("sched"+digits(picks), len(run))
		picks++
	}
	if k > 0 {
		devs--
	}
	return run[k]
}

// point waits until ready and may let others go first.
func point(ready func() bool) {
	if current == nil {
		return
	}
	me := current
	me.ready = ready
	if next := pick(); next != me {
		current = next
		coSwitch(next.id)
	}
	me.ready = nil
}

// Go starts a goroutine.
func Go(f func()) {
	t := &task{}
	t.id = coStart(func() {
		f()
		t.done = true
		next := pick()
		current = next
		coSwitch(next.id)
	})
	tasks = append(tasks, t)
	point(nil)
}

// Chan stands for a channel.
type Chan[T any] struct {
	q       []T
	cap     int
	closed  bool
	waiting int // receivers
	taken   int // values received so far
	sent    int
}

func MakeChan[T any](n int) *Chan[T] { return &Chan[T]{cap: n} }

func never() bool { return false }

func (c *Chan[T]) Send(v T) {
	if c == nil {
		point(never)
	}
	point(func() bool { return c.closed || len(c.q) < c.cap || c.cap == 0 && len(c.q) == 0 })
	if c.closed {
		panic("send on closed channel")
	}
	c.q = append(c.q, v)
	c.sent++
	if c.cap == 0 {
		n := c.sent
		point(func() bool { return c.taken >= n })
	}
}

func (c *Chan[T]) Recv2() (v T, ok bool) {
	if c == nil {
		point(never)
	}
	c.waiting++
	point(func() bool { return c.closed || len(c.q) > 0 })
	c.waiting--
	return c.take()
}

func (c *Chan[T]) take() (v T, ok bool) {
	if len(c.q) == 0 {
		return v, false
	}
	v = c.q[0]
	c.q = append([]T(nil), c.q[1:]...)
	c.taken++
	return v, true
}

func (c *Chan[T]) Recv() T {
	v, _ := c.Recv2()
	return v
}

func (c *Chan[T]) Close() {
	point(nil)
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
}

func (c *Chan[T]) Len() int { return len(c.q) }
func (c *Chan[T]) Cap() int { return c.cap }

// Case is one case of a select.
type Case interface {
	ready() bool
	begin(d int)
	do()
}

// RecvCase receives, SendCase sends.
type RecvCase[T any] struct {
	c  *Chan[T]
	V  T
	OK bool
}

func (c *Chan[T]) RecvCase() *RecvCase[T] { return &RecvCase[T]{c: c} }

func (r *RecvCase[T]) ready() bool { return r.c != nil && (r.c.closed || len(r.c.q) > 0) }
func (r *RecvCase[T]) do()         { r.V, r.OK = r.c.take() }
func (r *RecvCase[T]) begin(d int) {
	if r.c != nil {
		r.c.waiting += d
	}
}

type SendCase[T any] struct {
	c *Chan[T]
	v T
}

func (c *Chan[T]) SendCase(v T) *SendCase[T] { return &SendCase[T]{c, v} }

func (s *SendCase[T]) ready() bool {
	return s.c != nil && (s.c.closed || len(s.c.q) < s.c.cap || s.c.cap == 0 && len(s.c.q) < s.c.waiting)
}
func (s *SendCase[T]) begin(d int) {}
func (s *SendCase[T]) do() {
	if s.c.closed {
		panic("send on closed channel")
	}
	s.c.q = append(s.c.q, s.v)
	s.c.sent++
}

// Select tells which case was taken, -1 for the default.
func Select(def bool, cases ...Case) int {
	some := func() bool {
		for _, c := range cases {
			if c.ready() {
				return true
			}
		}
		return def
	}
	for _, c := range cases {
		c.begin(1)
	}
	point(some)
	for _, c := range cases {
		c.begin(-1)
	}
	var can []int
	for i, c := range cases {
		if c.ready() {
			can = append(can, i)
		}
	}
	if len(can) == 0 {
		return -1
	}
	k := 0
	if len(can) > 1 {
		k = Choice("sched"+digits(picks), len(can))
		picks++
	}
	cases[can[k]].do()
	return can[k]
}

// Map stands for sync.Map.
type Map struct{ m map[interface{}]interface{} }

func (m *Map) Load(k interface{}) (interface{}, bool) {
	point(nil)
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) Store(k, v interface{}) {
	point(nil)
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	m.m[k] = v
}

func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	point(nil)
	if x, ok := m.m[k]; ok {
		return x, true
	}
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	m.m[k] = v
	return v, false
}

func (m *Map) Delete(k interface{}) {
	point(nil)
	delete(m.m, k)
}

func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	point(nil)
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}

func (m *Map) Range(f func(k, v interface{}) bool) {
	for k, v := range m.m {
		if !f(k, v) {
			return
		}
	}
}

// Mutex and RWMutex stand for the locks of package sync.
type Mutex struct{ locked bool }

func (m *Mutex) Lock() {
	point(func() bool { return !m.locked })
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	point(nil)
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if !m.locked {
		panic("unlock of unlocked mutex")
	}
	m.locked = false
	point(nil)
}

type RWMutex struct {
	w Mutex
	r int
}

func (m *RWMutex) Lock() {
	point(func() bool { return !m.w.locked && m.r == 0 })
	m.w.locked = true
}
func (m *RWMutex) Unlock() { m.w.Unlock() }
func (m *RWMutex) RLock() {
	point(func() bool { return !m.w.locked })
	m.r++
}
func (m *RWMutex) RUnlock() {
	if m.r == 0 {
		panic("unlock of unlocked mutex")
	}
	m.r--
	point(nil)
}

// Locker is the interface of locks.
type Locker interface {
	Lock()
	Unlock()
}

// WaitGroup stands for sync.WaitGroup.
type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	w.n += d
	if w.n < 0 {
		panic("negative WaitGroup counter")
	}
	point(nil)
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() { point(func() bool { return w.n == 0 }) }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		f()
		w.Done()
	})
}

// Once stands for sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		o.done = true
		f()
	}
}

// Pool stands for sync.Pool; what was put into it last is reused first.
type Pool struct {
	New   func() interface{}
	items []interface{}
}

func (p *Pool) Get() interface{} {
	point(nil)
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	if x != nil {
		p.items = append(p.items, x)
	}
	point(nil)
}

// Gosched stands for runtime.Gosched.
func Gosched() { point(nil) }

// ---- coroutines, native ----

type co struct {
	wake chan struct{}
}

var cos []*co
var coNow int
var coPanic interface{}

func coStart(f func()) int {
	if cos == nil {
		cos = []*co{{wake: make(chan struct{})}}
	}
	c := &co{wake: make(chan struct{})}
	id := len(cos)
	cos = append(cos, c)
	go func() {
		<-c.wake
		defer func() {
			if r := recover(); r != nil {
				coPanic = r
				coNow = 0
				cos[0].wake <- struct{}{}
				runtime.Goexit()
			}
		}()
		f()
	}()
	return id
}

func coSwitch(to int) {
	me := coNow
	coNow = to
	cos[to].wake <- struct{}{}
	<-cos[me].wake
	if me == 0 && coPanic != nil {
		r := coPanic
		coPanic = nil
		panic(r)
	}
}
