package main

import (
	"archive/zip"
	"fmt"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

var verbose bool
var thorough bool

var vrtIntrinsics = map[string]intrinsic{}

// newInput makes a named symbolic input.
func (in *Interp) newInput(name string, k Kind, w uint8) *Term {
	T := in.T
	n := len(T.vars)
	t := T.NewVar(name, k, w)
	if in.ex != nil && len(T.vars) > n {
		idx := int(t.val)
		if idx < len(in.ex.initModel) {
			T.model[idx] = in.ex.initModel[idx]
		}
		T.gen++
	}
	return t
}

func (in *Interp) inputBytes(name string, n int) []*Term {
	out := make([]*Term, n)
	for i := range out {
		out[i] = in.newInput(fmt.Sprintf("%s[%d]", name, i), KBV, 8)
	}
	return out
}

func cstr(in *Interp, v Value) string {
	s, ok := v.(string)
	if !ok {
		in.unsupported("symbolic name")
	}
	return s
}

func init() {
	bv := func(w uint8) intrinsic {
		return func(in *Interp, a []Value) (Value, bool) {
			in.noSpec()
			return in.newInput(cstr(in, a[0]), KBV, w), true
		}
	}
	for name, f := range map[string]intrinsic{
		"Byte": bv(8), "U16": bv(16), "U32": bv(32), "U64": bv(64), "I64": bv(64),
		"Bool": func(in *Interp, a []Value) (Value, bool) {
			in.noSpec()
			t := in.newInput(cstr(in, a[0]), KBV, 8)
			in.assume(in.T.Ult(t, BV(8, 2)))
			return in.T.Eq(t, BV(8, 1)), true
		},
		"F64": func(in *Interp, a []Value) (Value, bool) {
			in.noSpec()
			return in.T.FFromBits(in.newInput(cstr(in, a[0]), KBV, 64)), true
		},
		"Int": func(in *Interp, a []Value) (Value, bool) {
			in.noSpec()
			lo, hi := tm(a[1]), tm(a[2])
			if !lo.isConst() || !hi.isConst() {
				in.unsupported("vrt.Int with symbolic bounds")
			}
			n := hi.sval() - lo.sval()
			if n < 0 {
				panic(pathStop{"assume", ""})
			}
			t := in.newInput(cstr(in, a[0]), KBV, 64)
			in.assume(in.T.Ule(t, BV(64, uint64(n))))
			w := uint8(1)
			for w < 62 && n>>w != 0 {
				w++
			}
			x := in.T.ZExt(in.T.Extract(w-1, 0, t), 64)
			if x.hi > n {
				x = in.T.mk(OBound, KBV, 64, x, nil, nil, uint64(n))
			}
			return in.T.Add(x, lo), true
		},
		"Tab": func(in *Interp, a []Value) (Value, bool) {
			in.noSpec()
			lo, hi := tm(a[1]), tm(a[2])
			if !lo.isConst() || !hi.isConst() || hi.sval()-lo.sval() >= tabMax {
				in.unsupported("vrt.Tab bounds")
			}
			n := hi.sval() - lo.sval()
			if n < 0 {
				panic(pathStop{"assume", ""})
			}
			t := in.newInput(cstr(in, a[0]), KBV, 64)
			in.assume(in.T.Ule(t, BV(64, uint64(n))))
			tab := make([]uint64, n+1)
			for i := range tab {
				tab[i] = uint64(lo.sval() + int64(i))
			}
			return in.T.mkTab(KBV, 64, t, tab), true
		},
		"Choice": func(in *Interp, a []Value) (Value, bool) {
			in.noSpec()
			n := tm(a[1])
			t := in.newInput(cstr(in, a[0]), KBV, 64)
			in.assume(in.T.Ult(t, n))
			return BV(64, in.concretize(t)), true
		},
		"Bytes": func(in *Interp, a []Value) (Value, bool) {
			in.noSpec()
			n := int(in.concretize(tm(a[1])))
			return in.bytesSlice(in.inputBytes(cstr(in, a[0]), n)), true
		},
		"Str": func(in *Interp, a []Value) (Value, bool) {
			in.noSpec()
			n := int(in.concretize(tm(a[1])))
			return mkStr(in.inputBytes(cstr(in, a[0]), n)), true
		},
		"Concrete": func(in *Interp, a []Value) (Value, bool) {
			t := tm(a[0])
			return BVany(t.w, in.concretize(t)), true
		},
		"Assume": func(in *Interp, a []Value) (Value, bool) { in.assume(tm(a[0])); return nil, true },
		"Assert": func(in *Interp, a []Value) (Value, bool) {
			in.assertT(tm(a[0]), cstr(in, a[1]))
			return nil, true
		},
		"Reach": func(in *Interp, a []Value) (Value, bool) {
			in.noSpec()
			in.ex.reach[cstr(in, a[0])] = true
			return nil, true
		},
		"Observe": func(in *Interp, a []Value) (Value, bool) {
			in.noSpec()
			in.ex.obs = append(in.ex.obs, obsEnt{cstr(in, a[0]), in.snapshot(a[1])})
			return nil, true
		},
		"AllocLimit": func(in *Interp, a []Value) (Value, bool) {
			in.ex.allocLimit = tm(a[0]).sval()
			return nil, true
		},
		"OpenFiles": func(in *Interp, a []Value) (Value, bool) {
			in.noSpec()
			n := uint64(0)
			for _, h := range in.ex.zipfs.handles {
				if !h.closed {
					n++
				}
			}
			return BV(64, n), true
		},
		"RealFile": func(in *Interp, a []Value) (Value, bool) {
			b, err := os.ReadFile(cstr(in, a[0]))
			if err != nil {
				in.unsupported("%v", err)
			}
			return in.bytesSlice(strBytes(string(b))), true
		},
		"RealZip": func(in *Interp, a []Value) (Value, bool) {
			r, err := zip.OpenReader(cstr(in, a[0]))
			if err != nil {
				in.unsupported("%v", err)
			}
			defer r.Close()
			var out []Value
			for _, f := range r.File {
				rc, err := f.Open()
				if err != nil {
					in.unsupported("%v", err)
				}
				b, _ := io.ReadAll(rc)
				rc.Close()
				out = append(out, f.Name, in.bytesSlice(strBytes(string(b))), BV(64, 0))
			}
			return Slice{in.newObjSlots(out), 0, len(out) / 3, len(out) / 3}, true
		},
		"NoMerge":  func(in *Interp, a []Value) (Value, bool) { in.ex.noMerge = true; return nil, true },
		"Symbolic": func(in *Interp, a []Value) (Value, bool) { return termTrue, true },
		"Thorough": func(in *Interp, a []Value) (Value, bool) { return mkBool(thorough), true },
		"File": func(in *Interp, a []Value) (Value, bool) {
			in.noSpec()
			n := "/vfs/" + cstr(in, a[0])
			in.ex.zipfs.files[n] = &vnode{data: append([]*Term(nil), in.sliceTerms(a[1].(Slice))...)}
			return n, true
		},
		"Zip": func(in *Interp, a []Value) (Value, bool) {
			in.noSpec()
			n := "/vfs/" + cstr(in, a[0])
			s := a[1].(Slice)
			nd := &vnode{zip: true}
			for i := 0; i < s.len; i++ {
				b := s.off + i*3
				nd.parts = append(nd.parts, vpart{
					name:  cstr(in, s.obj.slots[b]),
					data:  s.obj.slots[b+1].(Slice),
					fault: int(in.concretize(s.obj.slots[b+2].(*Term))),
				})
			}
			nd.data = make([]*Term, 64)
			for i := range nd.data {
				nd.data[i] = BV(8, 0)
			}
			copy(nd.data, []*Term{BV(8, 'P'), BV(8, 'K'), BV(8, 3), BV(8, 4), BV(8, 20)})
			in.ex.zipfs.files[n] = nd
			return n, true
		},
	} {
		vrtIntrinsics[name] = f
	}
}

// snapshot copies mutable contents so that later writes do not change an observation.
func (in *Interp) snapshot(v Value) Value {
	switch x := v.(type) {
	case Iface:
		return Iface{x.t, in.snapshot(x.v)}
	case Slice:
		if x.obj == nil {
			return x
		}
		s := append([]Value(nil), x.obj.slots[x.off:x.off+x.len]...)
		return Slice{&Obj{slots: s}, 0, x.len, x.len}
	}
	return v
}

// ---------- virtual files ----------

type vpart struct {
	name  string
	data  Slice
	fault int
}

type vnode struct {
	written bool
	data    []*Term
	zip     bool
	parts   []vpart
}

type vfs struct {
	files   map[string]*vnode
	dirs    map[string]bool
	handles []*fhandle
}

func newVFS() *vfs { return &vfs{files: map[string]*vnode{}, dirs: map[string]bool{}} }

func (v *vfs) hasDir(d string) bool {
	if d == "/vfs" || v.dirs[d] {
		return true
	}
	for n := range v.files {
		if strings.HasPrefix(n, d+"/") {
			return true
		}
	}
	return false
}

type fhandle struct {
	name   string
	node   *vnode
	off    int64
	closed bool
	app    bool // every write goes to the end
	ro     bool
}

func osType(name string) *tinfo {
	for _, p := range theProg.AllPackages() {
		if p.Pkg.Path() == "os" {
			return tinfoOf(p.Type(name).Type())
		}
	}
	panic("os." + name)
}

func handleOf(in *Interp, v Value) *fhandle {
	p := v.(Ptr)
	if p.obj == nil {
		return nil
	}
	h, _ := p.obj.host.(*fhandle)
	if h == nil {
		in.unsupported("os.File that is not a virtual file")
	}
	return h
}

// vpath is the name of a file in the model; the current directory is that of vrt.File.
func vpath(n string) string {
	if n == "" || n[0] == '/' {
		return n
	}
	return "/vfs/" + n
}

func addOS() {
	I := intrinsics
	open := func(in *Interp, a []Value) (Value, bool) {
		in.noSpec()
		name, ok := a[0].(string)
		if !ok {
			in.unsupported("os.Open of a symbolic name")
		}
		name = vpath(name)
		nd := in.ex.zipfs.files[name]
		name = a[0].(string)
		if nd == nil {
			return Tuple{Ptr{}, in.model("NotExist", "open", name)}, true
		}
		ti := osType("File")
		o := in.newObjSlots(ti.zeroSlots())
		h := &fhandle{name: name, node: nd, ro: true}
		in.ex.zipfs.handles = append(in.ex.zipfs.handles, h)
		o.host = h
		return Tuple{Ptr{o, 0}, Iface{}}, true
	}
	I["os.Open"] = open
	I["os.OpenFile"] = func(in *Interp, a []Value) (Value, bool) {
		in.noSpec()
		name, ok := a[0].(string)
		if !ok {
			in.unsupported("os.OpenFile of a symbolic name")
		}
		name = vpath(filepath.Clean(name))
		fl := int(in.concretize(tm(a[1])))
		fs := in.ex.zipfs
		nd := fs.files[name]
		if nd == nil {
			if fl&os.O_CREATE == 0 || !fs.hasDir(filepath.Dir(name)) {
				return Tuple{Ptr{}, in.model("NotExist", "open", name)}, true
			}
			nd = &vnode{written: true}
			fs.files[name] = nd
		}
		if fl&os.O_TRUNC != 0 {
			nd.data = nil
		}
		a[0] = name
		r, _ := open(in, a[:1])
		h := r.(Tuple)[0].(Ptr).obj.host.(*fhandle)
		h.app = fl&os.O_APPEND != 0
		h.ro = fl&(os.O_WRONLY|os.O_RDWR) == 0
		return r, true
	}
	I["os.MkdirAll"] = func(in *Interp, a []Value) (Value, bool) {
		in.noSpec()
		name, ok := a[0].(string)
		if !ok {
			in.unsupported("os.MkdirAll of a symbolic name")
		}
		for d := vpath(filepath.Clean(name)); d != "." && d != "/"; d = filepath.Dir(d) {
			in.ex.zipfs.dirs[d] = true
		}
		return Iface{}, true
	}
	I["(*os.File).Write"] = func(in *Interp, a []Value) (Value, bool) {
		in.noSpec()
		h := handleOf(in, a[0])
		s := a[1].(Slice)
		if h == nil {
			return Tuple{BV(64, 0), in.model("ErrClosed")}, true
		}
		if h.closed {
			return Tuple{BV(64, 0), in.model("Closed", "write", h.name)}, true
		}
		if h.ro {
			return Tuple{BV(64, 0), in.model("BadSeek", h.name)}, true
		}
		if h.app {
			h.off = int64(len(h.node.data))
		}
		for i := 0; i < s.len; i++ {
			for int64(len(h.node.data)) <= h.off {
				h.node.data = append(h.node.data, BV(8, 0))
			}
			h.node.data[h.off] = s.obj.slots[s.off+i].(*Term)
			h.off++
		}
		return Tuple{BV(64, uint64(s.len)), Iface{}}, true
	}
	I["(*os.File).Sync"] = func(in *Interp, a []Value) (Value, bool) { return Iface{}, true }
	vrtIntrinsics["Chdir"] = func(in *Interp, a []Value) (Value, bool) { return nil, true }
	vrtIntrinsics["ReadBack"] = func(in *Interp, a []Value) (Value, bool) {
		nd := in.ex.zipfs.files[vpath(cstr(in, a[0]))]
		if nd == nil {
			return Tuple{Slice{}, termFalse}, true
		}
		return Tuple{in.bytesSlice(append([]*Term(nil), nd.data...)), termTrue}, true
	}
	vrtIntrinsics["Written"] = func(in *Interp, a []Value) (Value, bool) {
		var names []string
		for n, nd := range in.ex.zipfs.files {
			if nd.written {
				names = append(names, strings.TrimPrefix(n, "/vfs/"))
			}
		}
		sort.Strings(names)
		s := in.mkSlice(tinfoOf(types.Typ[types.String]), len(names), len(names))
		for i, n := range names {
			s.obj.slots[i] = n
		}
		return s, true
	}
	addCo()
	I["(*os.File).Name"] = func(in *Interp, a []Value) (Value, bool) { return handleOf(in, a[0]).name, true }
	I["(*os.File).Close"] = func(in *Interp, a []Value) (Value, bool) {
		in.noSpec()
		h := handleOf(in, a[0])
		if h == nil {
			// os.ErrInvalid natively; the identity does not matter here
			return in.model("ErrClosed"), true
		}
		if h.closed {
			return in.model("Closed", "close", h.name), true
		}
		h.closed = true
		return Iface{}, true
	}
	I["(*os.File).Stat"] = func(in *Interp, a []Value) (Value, bool) {
		h := handleOf(in, a[0])
		if h.closed {
			return Tuple{Iface{}, in.model("Closed", "stat", h.name)}, true
		}
		return Tuple{in.model("NewFileInfo", h.name, BV(64, uint64(len(h.node.data)))), Iface{}}, true
	}
	I["(*os.File).Read"] = func(in *Interp, a []Value) (Value, bool) {
		in.noSpec()
		h := handleOf(in, a[0])
		s := a[1].(Slice)
		if h.closed {
			return Tuple{BV(64, 0), in.model("Closed", "read", h.name)}, true
		}
		if s.len == 0 {
			return Tuple{BV(64, 0), Iface{}}, true
		}
		if h.off >= int64(len(h.node.data)) {
			return Tuple{BV(64, 0), in.model("EOF")}, true
		}
		n := 0
		for n < s.len && h.off < int64(len(h.node.data)) {
			in.setSlot(s.obj, s.off+n, h.node.data[h.off])
			n++
			h.off++
		}
		return Tuple{BV(64, uint64(n)), Iface{}}, true
	}
	I["(*os.File).ReadAt"] = func(in *Interp, a []Value) (Value, bool) {
		in.noSpec()
		h := handleOf(in, a[0])
		s := a[1].(Slice)
		off := int64(in.concretize(tm(a[2])))
		if h.closed {
			return Tuple{BV(64, 0), in.model("Closed", "read", h.name)}, true
		}
		if off < 0 {
			return Tuple{BV(64, 0), in.model("BadSeek", h.name)}, true
		}
		n := 0
		for n < s.len && off < int64(len(h.node.data)) {
			in.setSlot(s.obj, s.off+n, h.node.data[off])
			n++
			off++
		}
		if n < s.len {
			return Tuple{BV(64, uint64(n)), in.model("EOF")}, true
		}
		return Tuple{BV(64, uint64(n)), Iface{}}, true
	}
	I["(*os.File).Seek"] = func(in *Interp, a []Value) (Value, bool) {
		in.noSpec()
		h := handleOf(in, a[0])
		off := int64(in.concretize(tm(a[1])))
		wh := in.concretize(tm(a[2]))
		if h.closed {
			return Tuple{BV(64, 0), in.model("Closed", "seek", h.name)}, true
		}
		switch wh {
		case 1:
			off += h.off
		case 2:
			off += int64(len(h.node.data))
		}
		if off < 0 {
			return Tuple{BV(64, 0), in.model("BadSeek", h.name)}, true
		}
		h.off = off
		return Tuple{BV(64, uint64(off)), Iface{}}, true
	}
	// zip packages
	I["archive/zip.NewReader"] = func(in *Interp, a []Value) (Value, bool) {
		r := a[0].(Iface)
		if r.t == nil || r.t.String() != "*os.File" {
			return nil, false
		}
		h := handleOf(in, r.v)
		if !h.node.zip {
			// without room for an end-of-central-directory record it cannot be a zip file
			if len(h.node.data) < 22 {
				return Tuple{Ptr{}, in.model("ZipFormatErr")}, true
			}
			return nil, false
		}
		in.noSpec()
		names := in.mkSlice(tinfoOf(types.Typ[types.String]), len(h.node.parts), len(h.node.parts))
		for i, p := range h.node.parts {
			names.obj.slots[i] = p.name
		}
		zr := in.model("NewZip", names).(Ptr)
		// find the File slice and tag every entry
		for _, sl := range zr.obj.slots {
			s, ok := sl.(Slice)
			if !ok || s.len != len(h.node.parts) || s.len == 0 {
				continue
			}
			if _, ok := s.obj.slots[s.off].(Ptr); !ok {
				continue
			}
			for i := range h.node.parts {
				s.obj.slots[s.off+i].(Ptr).obj.host = &h.node.parts[i]
			}
			break
		}
		return Tuple{zr, Iface{}}, true
	}
	I["(*archive/zip.File).Open"] = func(in *Interp, a []Value) (Value, bool) {
		p := a[0].(Ptr)
		if p.obj == nil {
			return nil, false
		}
		vp, ok := p.obj.host.(*vpart)
		if !ok {
			return nil, false
		}
		in.noSpec()
		return in.model("OpenZipBody", vp.data, BV(64, uint64(vp.fault))), true
	}
	I[modelsPath+".comparable_"] = func(in *Interp, a []Value) (Value, bool) {
		v := a[0].(Iface)
		return mkBool(v.t == nil || types.Comparable(v.t)), true
	}
	// asStore stores err in *target when its type is the one of *target, or implements it.
	I[modelsPath+".asStore"] = func(in *Interp, a []Value) (Value, bool) {
		e, t := a[0].(Iface), a[1].(Iface)
		pt, ok := t.t.Underlying().(*types.Pointer)
		if !ok {
			return termFalse, true
		}
		if it, ok := pt.Elem().Underlying().(*types.Interface); ok {
			if !implements(e.t, it) {
				return termFalse, true
			}
			in.store(t.v, e)
			return termTrue, true
		}
		if !types.Identical(e.t, pt.Elem()) {
			return termFalse, true
		}
		in.store(t.v, e.v)
		return termTrue, true
	}
	I[modelsPath+".typeName"] = func(in *Interp, a []Value) (Value, bool) {
		v := a[0].(Iface)
		if v.t == nil {
			return "<nil>", true
		}
		return types.TypeString(v.t, func(p *types.Package) string { return p.Name() }), true
	}
	I[modelsPath+".basic"] = func(in *Interp, a []Value) (Value, bool) {
		v := a[0].(Iface)
		if v.t == nil {
			return v, true
		}
		if b, ok := v.t.Underlying().(*types.Basic); ok {
			return Iface{canon(types.Typ[b.Kind()]), v.v}, true
		}
		return v, true
	}
	I[modelsPath+".unsupported"] = func(in *Interp, a []Value) (Value, bool) {
		s, _ := a[0].(string)
		in.unsupported("%s", s)
		return nil, true
	}
	I[modelsPath+".anySym"] = func(in *Interp, a []Value) (Value, bool) {
		_, ok := a[0].(Iface).v.(*SStr)
		return mkBool(ok), true
	}
}

// ---------- regular expressions: native on concrete text ----------

// bodyOf runs the interpreted body of a function that has an intrinsic.
func (in *Interp) bodyOf(name string, args []Value) Value {
	for _, p := range theProg.AllPackages() {
		if p.Pkg.Path() == "regexp" {
			if f := p.Func(name); f != nil {
				r := refOf(f)
				return in.callRef(&fnRef{fn: f, name: r.name}, args, nil)
			}
		}
	}
	panic("no function " + name)
}

func regexpCompile(in *Interp, a []Value) (Value, bool) {
	s, ok := a[0].(string)
	if !ok {
		return nil, false
	}
	re, err := regexp.Compile(s)
	if err != nil {
		return nil, false
	}
	v := in.bodyOf("Compile", a).(Tuple)
	p, ok := v[0].(Ptr)
	if ok && p.obj != nil {
		p.obj.host = re
	}
	return p, true
}

func reOf(v Value) *regexp.Regexp {
	if p, ok := v.(Ptr); ok && p.obj != nil {
		re, _ := p.obj.host.(*regexp.Regexp)
		return re
	}
	return nil
}

func (in *Interp) strSliceVal(ss []string) Value {
	if ss == nil {
		return Slice{}
	}
	s := in.mkSlice(tinfoOf(types.Typ[types.String]), len(ss), len(ss))
	for i, x := range ss {
		s.obj.slots[s.off+i] = x
	}
	return s
}

func (in *Interp) intSliceVal(xs []int) Value {
	if xs == nil {
		return Slice{}
	}
	s := in.mkSlice(tinfoOf(types.Typ[types.Int]), len(xs), len(xs))
	for i, x := range xs {
		s.obj.slots[s.off+i] = BV(64, uint64(x))
	}
	return s
}

func addRegexp() {
	I := intrinsics
	one := func(name string, f func(in *Interp, re *regexp.Regexp, v Value, a []Value) (Value, bool)) {
		I["(*regexp.Regexp)."+name] = func(in *Interp, a []Value) (Value, bool) {
			re := reOf(a[0])
			if re == nil {
				return nil, false
			}
			return f(in, re, a[1], a)
		}
	}
	// parts are the strings of a list of positions
	parts := func(in *Interp, v Value, at []int) Value {
		if at == nil {
			return Slice{}
		}
		s := in.mkSlice(tinfoOf(types.Typ[types.String]), len(at)/2, len(at)/2)
		for i := 0; i < len(at); i += 2 {
			s.obj.slots[s.off+i/2] = ""
			if at[i] >= 0 {
				s.obj.slots[s.off+i/2] = strSlice(v, at[i], at[i+1])
			}
		}
		return s
	}
	flat := func(x [][]int) (out []int) {
		for _, m := range x {
			out = append(out, m[0], m[1])
		}
		return
	}
	one("MatchString", func(in *Interp, re *regexp.Regexp, v Value, a []Value) (Value, bool) {
		return mkBool(re.MatchString(in.representative(re, v))), true
	})
	one("FindString", func(in *Interp, re *regexp.Regexp, v Value, a []Value) (Value, bool) {
		m := re.FindStringIndex(in.representative(re, v))
		if m == nil {
			return "", true
		}
		return strSlice(v, m[0], m[1]), true
	})
	one("FindStringIndex", func(in *Interp, re *regexp.Regexp, v Value, a []Value) (Value, bool) {
		return in.intSliceVal(re.FindStringIndex(in.representative(re, v))), true
	})
	one("FindStringSubmatch", func(in *Interp, re *regexp.Regexp, v Value, a []Value) (Value, bool) {
		return parts(in, v, re.FindStringSubmatchIndex(in.representative(re, v))), true
	})
	one("FindAllString", func(in *Interp, re *regexp.Regexp, v Value, a []Value) (Value, bool) {
		n := tm(a[2])
		if !n.isConst() {
			return nil, false
		}
		return parts(in, v, flat(re.FindAllStringIndex(in.representative(re, v), int(n.sval())))), true
	})
	replace := func(lit bool) func(in *Interp, re *regexp.Regexp, v Value, a []Value) (Value, bool) {
		return func(in *Interp, re *regexp.Regexp, v Value, a []Value) (Value, bool) {
			r, ok := a[2].(string)
			if !ok {
				return nil, false
			}
			if s, ok := v.(string); ok {
				if lit {
					return re.ReplaceAllLiteralString(s, r), true
				}
				return re.ReplaceAllString(s, r), true
			}
			return in.replaceAll(re, v, r, lit), true
		}
	}
	one("ReplaceAllString", replace(false))
	one("ReplaceAllLiteralString", replace(true))
	one("Split", func(in *Interp, re *regexp.Regexp, v Value, a []Value) (Value, bool) {
		n := tm(a[2])
		if !n.isConst() {
			return nil, false
		}
		if s, ok := v.(string); ok {
			return in.strSliceVal(re.Split(s, int(n.sval()))), true
		}
		k := int(n.sval())
		if k == 0 {
			return Slice{}, true
		}
		if strLen(v) == 0 {
			return in.strSliceVal([]string{""}), true
		}
		// as Regexp.Split
		at := []int{}
		beg, end, have := 0, 0, 0
		for _, m := range re.FindAllStringIndex(in.representative(re, v), k) {
			if k > 0 && have == k-1 {
				break
			}
			end = m[0]
			if m[1] != 0 {
				at = append(at, beg, end)
				have++
			}
			beg = m[1]
		}
		if end != strLen(v) {
			at = append(at, beg, strLen(v))
		}
		return parts(in, v, at), true
	})
}
