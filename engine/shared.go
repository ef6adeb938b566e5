package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Memory that exists before a harness begins (package variables and what they lead to) is
// shared by everything that runs at the same time. While vrt.Parallel runs its functions, a
// write to such memory by the repository, or to memory that its package variables lead to, is
// a candidate for a data race: the same code running twice at once writes it twice. The
// candidate is replayed on a build with the race detector, which knows about locks.

func isRepo(f *ssa.Function) bool {
	s := f.String()
	return strings.Contains(s, repoPath+".") || strings.Contains(s, repoPath+"/")
}

const repoPath = "github.com/pbnjay/grate"

// sharedWrite is called before a write to an object or map of the initial heap.
func (in *Interp) sharedWrite(o any) {
	in.noSpec()
	who := ""
	for fr := in.cur; fr != nil; fr = fr.caller {
		if isRepo(fr.code.fn) {
			who = fr.code.fn.String()
			break
		}
	}
	if who == "" || in.cur == nil {
		return
	}
	if !isRepo(in.cur.code.fn) && !in.sharedObjs()[o] {
		return
	}
	in.report("race", "data race", "memory shared by everything that runs is written in "+who, nil)
}

// sharedObjs are the objects that the package variables of the repository lead to.
func (in *Interp) sharedObjs() map[any]bool {
	if in.shared != nil {
		return in.shared
	}
	seen := map[any]bool{}
	var walk func(v Value)
	obj := func(o *Obj) {
		if o == nil || seen[o] {
			return
		}
		seen[o] = true
		for _, v := range o.slots {
			walk(v)
		}
	}
	walk = func(v Value) {
		switch v := v.(type) {
		case Ptr:
			obj(v.obj)
		case *SymPtr:
			obj(v.obj)
		case Slice:
			obj(v.obj)
		case Iface:
			walk(v.v)
		case Agg:
			for _, x := range v {
				walk(x)
			}
		case Tuple:
			for _, x := range v {
				walk(x)
			}
		case *Closure:
			if v != nil {
				for _, x := range v.free {
					walk(x)
				}
			}
		case *MapObj:
			if v == nil || seen[v] {
				return
			}
			seen[v] = true
			for i := range v.keys {
				walk(v.keys[i])
				walk(v.vals[i])
			}
		}
	}
	for g, o := range in.globals {
		if g.Pkg != nil && (g.Pkg.Pkg.Path() == repoPath || strings.HasPrefix(g.Pkg.Pkg.Path(), repoPath+"/")) {
			obj(o)
		}
	}
	in.shared = seen
	return seen
}

func init() {
	vrtIntrinsics["Parallel"] = func(in *Interp, a []Value) (Value, bool) {
		in.noSpec()
		n := int(in.concretize(a[0].(*Term)))
		f := a[1].(*Closure)
		in.watch = true
		for k := 0; k < n; k++ {
			in.callRef(refOf(f.fn), []Value{BV(64, uint64(k))}, f.free)
		}
		in.watch = false
		return nil, true
	}
}
