package main

// Coroutines of the symbolic execution (vrt.coStart, vrt.coSwitch): each one runs the
// interpreter on a goroutine of its own, and only the one that holds the baton runs.

type hostCo struct {
	wake  chan bool // false: the path is over
	fin   chan struct{}
	cur   *Frame
	depth int
	dead  bool
}

type coKill struct{}

func (in *Interp) coStart(f *Closure) int {
	if len(in.cos) == 0 {
		in.cos = []*hostCo{{wake: make(chan bool)}}
		in.coNow, in.coPanic = 0, nil
	}
	c := &hostCo{wake: make(chan bool), fin: make(chan struct{})}
	in.cos = append(in.cos, c)
	go func() {
		defer close(c.fin)
		if !<-c.wake {
			return
		}
		defer func() {
			r := recover()
			if _, ok := r.(coKill); ok {
				return
			}
			// only the first coroutine reports how a path ends
			c.dead = true
			if r == nil {
				r = pathStop{"unsupported", "coroutine ended"}
			}
			in.coPanic = r
			in.coNow = 0
			in.cos[0].wake <- true
		}()
		in.cur, in.depth = nil, 0
		in.callClosure(f, nil)
	}()
	return len(in.cos) - 1
}

func (in *Interp) coSwitch(to int) {
	me := in.cos[in.coNow]
	if in.cos[to] == me {
		return
	}
	first := in.coNow == 0
	me.cur, me.depth = in.cur, in.depth
	in.coNow = to
	in.cos[to].wake <- true
	if !<-me.wake {
		panic(coKill{})
	}
	in.cur, in.depth = me.cur, me.depth
	if first && in.coPanic != nil {
		r := in.coPanic
		in.coPanic = nil
		panic(r)
	}
}

// coEnd ends all coroutines of a path.
func (in *Interp) coEnd() {
	for i, c := range in.cos {
		if i == 0 || c.dead {
			continue
		}
		select {
		case c.wake <- false:
		case <-c.fin:
		}
		<-c.fin
	}
	in.cos = nil
}

func addCo() {
	vrtIntrinsics["coStart"] = func(in *Interp, a []Value) (Value, bool) {
		in.noSpec()
		return BV(64, uint64(in.coStart(a[0].(*Closure)))), true
	}
	vrtIntrinsics["coSwitch"] = func(in *Interp, a []Value) (Value, bool) {
		in.noSpec()
		in.coSwitch(int(in.concretize(tm(a[0]))))
		return nil, true
	}
}
