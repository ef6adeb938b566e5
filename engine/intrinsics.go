package main

import (
	"crypto/md5"
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// intrinsic models a function; ok=false falls through to the interpreted body.
type intrinsic func(in *Interp, a []Value) (v Value, ok bool)

var intrinsics map[string]intrinsic

const vrtPath = "verifh/vrt"
const modelsPath = "verifh/models"

var modelsPkg *ssa.Package
var initMode bool

func pkgPathOf(fn *ssa.Function) string {
	if fn.Pkg != nil && fn.Pkg.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	return ""
}

func zeroResult(fn *ssa.Function) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return tinfoOf(res.At(0).Type()).zeroValue()
	}
	tu := make(Tuple, res.Len())
	for i := range tu {
		tu[i] = tinfoOf(res.At(i).Type()).zeroValue()
	}
	return tu
}

var skipInitPrefixes = []string{"runtime", "internal/", "syscall", "os", "reflect", "sync", "unsafe", "net", "crypto", "vendor/", "hash", "log", "testing", "flag", "mime", "compress", "iter", "weak", "unique", "embed"}

func skipInit(path string) bool {
	switch path {
	case "internal/oserror", "net/url", "hash/crc32", "internal/strconv", "crypto/md5", "crypto/rc4", "internal/stringslite", "flag":
		return false
	}
	for _, p := range skipInitPrefixes {
		if path == p || strings.HasPrefix(path, p) && (strings.HasSuffix(p, "/") || strings.HasPrefix(path, p+"/")) {
			return true
		}
	}
	return false
}

func findIntrinsic(fn *ssa.Function, name string) intrinsic {
	if i, ok := intrinsics[name]; ok {
		return i
	}
	path := pkgPathOf(fn)
	// generic instantiations: match on the origin
	if o := fn.Origin(); o != nil {
		if i, ok := intrinsics[o.String()]; ok {
			return i
		}
	}
	if fn.Name() == "init" && fn.Synthetic != "" && fn.Pkg != nil && strings.HasPrefix(fn.Synthetic, "package init") {
		pkg := fn.Pkg
		skip := skipInit(path)
		return func(in *Interp, a []Value) (Value, bool) {
			g := pkg.Var("init$guard")
			if g != nil {
				o := in.globalObj(g)
				if o.slots[0].(*Term).isTrue() {
					return nil, true
				}
			}
			if skip {
				if g != nil {
					in.globalObj(g).slots[0] = termTrue
				}
				for _, imp := range pkg.Pkg.Imports() {
					if p := theProg.Package(imp); p != nil {
						if f := p.Func("init"); f != nil {
							in.callFn(f)
						}
					}
				}
				if path == "os" {
					in.initOS(pkg)
				}
				return nil, true
			}
			depth, cur := in.depth, in.cur
			func() {
				defer func() {
					if r := recover(); r != nil {
						in.depth, in.cur = depth, cur
						if verbose {
							switch x := r.(type) {
							case *targetPanic:
								fmt.Printf("init %s: panic %v at %s\n", path, x.v.v, x.where)
							default:
								fmt.Printf("init %s: %v\n", path, r)
							}
						}
					}
				}()
				code := refOf(fn).getCode()
				fr := &Frame{code: code, regs: make([]Value, code.nregs), caller: in.cur}
				in.depth++
				in.cur = fr
				in.exec(fr, code.blocks[0])
				in.cur = cur
				in.depth = depth
			}()
			return nil, true
		}
	}
	switch path {
	case vrtPath:
		if i, ok := vrtIntrinsics[fn.Name()]; ok && fn.Signature.Recv() == nil {
			return i
		}
	case "log":
		if fn.Name() != "init" && !strings.Contains(name, "Fatal") && !strings.Contains(name, "Panic") {
			return func(in *Interp, a []Value) (Value, bool) {
				// messages are not kept, but their arguments may run code
				if sl, ok := a[len(a)-1].(Slice); ok && !initMode && strings.Contains(name, "rint") {
					in.model("LogArgs", sl)
				}
				return zeroResult(fn), true
			}
		}
		if strings.Contains(name, "Fatal") {
			return func(in *Interp, a []Value) (Value, bool) { panic(pathStop{"exit", "log.Fatal"}) }
		}
	case "reflect", "internal/reflectlite":
		return func(in *Interp, a []Value) (Value, bool) {
			if initMode {
				return zeroResult(fn), true
			}
			in.unsupported("reflection: %s", name)
			return nil, false
		}
	case "internal/godebug", "internal/race", "internal/msan", "internal/asan", "internal/testlog", "internal/poll", "internal/syscall/unix", "internal/goos", "crypto/internal/fips140only", "crypto/internal/boring", "crypto/internal/fips140":
		if fn.Name() != "init" {
			return func(in *Interp, a []Value) (Value, bool) { return zeroResult(fn), true }
		}
	case "sync/atomic":
		if i := atomicIntr(fn); i != nil {
			return i
		}
	case "internal/runtime/atomic":
		if i := atomicIntr(fn); i != nil {
			return i
		}
	case "runtime", "runtime/debug":
		if fn.Name() != "init" && fn.Signature.Recv() == nil {
			return func(in *Interp, a []Value) (Value, bool) { return zeroResult(fn), true }
		}
	}
	if initMode && len(fn.Blocks) == 0 {
		return func(in *Interp, a []Value) (Value, bool) {
			if initMode {
				return zeroResult(fn), true
			}
			return nil, false
		}
	}
	return nil
}

func atomicIntr(fn *ssa.Function) intrinsic {
	if len(fn.Blocks) > 0 {
		// methods with bodies are interpreted, except atomic.Value
		if r := fn.Signature.Recv(); r != nil && strings.HasSuffix(r.Type().String(), "atomic.Value") {
			switch fn.Name() {
			case "Load":
				return func(in *Interp, a []Value) (Value, bool) {
					return in.load(a[0], tinfoOf(types.NewInterfaceType(nil, nil))), true
				}
			case "Store":
				return func(in *Interp, a []Value) (Value, bool) { in.store(a[0], a[1]); return nil, true }
			}
		}
		return nil
	}
	n := fn.Name()
	ld := func(in *Interp, p Value) Value {
		q := p.(Ptr)
		if q.obj == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		return q.obj.slots[q.off]
	}
	switch {
	case strings.HasPrefix(n, "Load"):
		return func(in *Interp, a []Value) (Value, bool) { return ld(in, a[0]), true }
	case strings.HasPrefix(n, "Store"):
		return func(in *Interp, a []Value) (Value, bool) { in.store(a[0], a[1]); return nil, true }
	case strings.HasPrefix(n, "Add"):
		return func(in *Interp, a []Value) (Value, bool) {
			v := in.T.Add(ld(in, a[0]).(*Term), a[1].(*Term))
			in.store(a[0], v)
			return v, true
		}
	case strings.HasPrefix(n, "Swap"):
		return func(in *Interp, a []Value) (Value, bool) {
			o := ld(in, a[0])
			in.store(a[0], a[1])
			return o, true
		}
	case strings.HasPrefix(n, "CompareAndSwap"):
		return func(in *Interp, a []Value) (Value, bool) {
			o := ld(in, a[0])
			if in.branch(in.eq(o, a[1])) {
				in.store(a[0], a[2])
				return termTrue, true
			}
			return termFalse, true
		}
	case strings.HasPrefix(n, "And"), strings.HasPrefix(n, "Or"):
		isAnd := strings.HasPrefix(n, "And")
		return func(in *Interp, a []Value) (Value, bool) {
			o := ld(in, a[0]).(*Term)
			if isAnd {
				in.store(a[0], in.T.BAnd(o, a[1].(*Term)))
			} else {
				in.store(a[0], in.T.BOr(o, a[1].(*Term)))
			}
			return o, true
		}
	}
	return nil
}

// ---------- helpers ----------

func (in *Interp) model(name string, args ...Value) Value {
	f := modelsPkg.Func(name)
	if f == nil {
		panic("models." + name + " missing")
	}
	return in.callFn(f, args...)
}

func tm(v Value) *Term { return v.(*Term) }

func allConst(ts []*Term) ([]byte, bool) {
	out := make([]byte, len(ts))
	for i, t := range ts {
		if !t.isConst() {
			return nil, false
		}
		out[i] = byte(t.val)
	}
	return out, true
}

func seqBytes(in *Interp, v Value) []*Term {
	switch x := v.(type) {
	case Slice:
		return in.sliceTerms(x)
	default:
		return strBytes(v)
	}
}

// indexByte returns the first (or last) position of c as a term.
func (in *Interp) indexByte(b []*Term, c *Term, last bool) *Term {
	r := BV(64, ^uint64(0))
	n := len(b)
	for k := 0; k < n; k++ {
		i := n - 1 - k
		if last {
			i = k
		}
		r = in.T.Ite(in.T.Eq(b[i], c), BV(64, uint64(i)), r)
	}
	return r
}

func (in *Interp) compareBytes(a, b []*Term) *Term {
	T := in.T
	n := min(len(a), len(b))
	var r *Term
	switch {
	case len(a) < len(b):
		r = BV(64, ^uint64(0))
	case len(a) > len(b):
		r = BV(64, 1)
	default:
		r = BV(64, 0)
	}
	for i := n - 1; i >= 0; i-- {
		r = T.Ite(T.Eq(a[i], b[i]), r, T.Ite(T.Ult(a[i], b[i]), BV(64, ^uint64(0)), BV(64, 1)))
	}
	return r
}

func (in *Interp) indexSub(a, b []*Term) *Term {
	T := in.T
	r := BV(64, ^uint64(0))
	for i := len(a) - len(b); i >= 0; i-- {
		c := termTrue
		for j := range b {
			c = T.And(c, T.Eq(a[i+j], b[j]))
			if c.isFalse() {
				break
			}
		}
		r = T.Ite(c, BV(64, uint64(i)), r)
	}
	return r
}

func (in *Interp) countByte(b []*Term, c *Term) *Term {
	r := BV(64, 0)
	for _, x := range b {
		r = in.T.Add(r, in.T.Ite(in.T.Eq(x, c), BV(64, 1), BV(64, 0)))
	}
	return r
}

func f1(f func(T *Terms, a *Term) *Term) intrinsic {
	return func(in *Interp, a []Value) (Value, bool) { return f(in.T, tm(a[0])), true }
}

func nop(in *Interp, a []Value) (Value, bool) { return nil, true }

func init() {
	idx := func(last bool) intrinsic {
		return func(in *Interp, a []Value) (Value, bool) {
			return in.indexByte(seqBytes(in, a[0]), tm(a[1]), last), true
		}
	}
	sub := func(in *Interp, a []Value) (Value, bool) {
		return in.indexSub(seqBytes(in, a[0]), seqBytes(in, a[1])), true
	}
	cnt := func(in *Interp, a []Value) (Value, bool) {
		return in.countByte(seqBytes(in, a[0]), tm(a[1])), true
	}
	cmp := func(in *Interp, a []Value) (Value, bool) {
		return in.compareBytes(seqBytes(in, a[0]), seqBytes(in, a[1])), true
	}
	sprintNative := func(in *Interp, a []Value) (Value, bool) { return in.fmtSprint(a[0].(Slice)) }
	intrinsics = map[string]intrinsic{
		"internal/bytealg.IndexByte":           idx(false),
		"internal/bytealg.IndexByteString":     idx(false),
		"internal/bytealg.LastIndexByte":       idx(true),
		"internal/bytealg.LastIndexByteString": idx(true),
		"internal/bytealg.Index":               sub,
		"internal/bytealg.IndexString":         sub,
		"internal/bytealg.Count":               cnt,
		"internal/bytealg.CountString":         cnt,
		"internal/bytealg.Compare":             cmp,
		"internal/bytealg.CompareString":       cmp,
		"strings.IndexByte":                    idx(false),
		"bytes.IndexByte":                      idx(false),
		"strings.LastIndexByte":                idx(true),
		"strings.Index":                        sub,
		"bytes.Index":                          sub,
		"internal/stringslite.Index":           sub,
		"internal/stringslite.IndexByte":       idx(false),
		"internal/bytealg.Equal": func(in *Interp, a []Value) (Value, bool) {
			return in.strEq(in.sliceStr(a[0].(Slice)), in.sliceStr(a[1].(Slice))), true
		},
		"internal/bytealg.MakeNoZero": func(in *Interp, a []Value) (Value, bool) {
			n := int(in.concretize(tm(a[0])))
			return in.mkSlice(tinfoOf(types.Typ[types.Uint8]), n, n), true
		},
		"(*strings.Builder).copyCheck": nop,
		"internal/abi.NoEscape":        func(in *Interp, a []Value) (Value, bool) { return a[0], true },
		"internal/abi.Escape":          func(in *Interp, a []Value) (Value, bool) { return a[0], true },

		// math
		"math.Float64bits":                 f1((*Terms).FToBits),
		"math.Float32bits":                 f1((*Terms).FToBits),
		"math.Float64frombits":             f1((*Terms).FFromBits),
		"math.Float32frombits":             f1((*Terms).FFromBits),
		"internal/strconv.float64bits":     f1((*Terms).FToBits),
		"internal/strconv.float32bits":     f1((*Terms).FToBits),
		"internal/strconv.float64frombits": f1((*Terms).FFromBits),
		"internal/strconv.float32frombits": f1((*Terms).FFromBits),
		"math.Abs":                         f1((*Terms).FAbs),
		"math.abs":                         f1((*Terms).FAbs),
		"math.Sqrt":                        f1((*Terms).FSqrt),
		"math.sqrt":                        f1((*Terms).FSqrt),
		"math.Floor":                       f1(func(T *Terms, a *Term) *Term { return T.FRound(0, a) }),
		"math.Ceil":                        f1(func(T *Terms, a *Term) *Term { return T.FRound(1, a) }),
		"math.Trunc":                       f1(func(T *Terms, a *Term) *Term { return T.FRound(2, a) }),
		"math.Round":                       f1(func(T *Terms, a *Term) *Term { return T.FRound(3, a) }),
		"math.RoundToEven":                 f1(func(T *Terms, a *Term) *Term { return T.FRound(4, a) }),
		"math.floor":                       f1(func(T *Terms, a *Term) *Term { return T.FRound(0, a) }),
		"math.IsNaN":                       f1((*Terms).FIsNaN),
		"math.Signbit":                     f1(func(T *Terms, a *Term) *Term { return T.Eq(T.Extract(a.w-1, a.w-1, T.FToBits(a)), BVany(1, 1)) }),
		"math.IsInf": func(in *Interp, a []Value) (Value, bool) {
			f, s := tm(a[0]), tm(a[1])
			T := in.T
			inf := T.FIsInf(f)
			pos := T.FCmp(OFLt, FPf(64, 0), f)
			c := T.And(inf, T.Or(T.Eq(s, BV(64, 0)), T.Ite(T.Slt(BV(64, 0), s), pos, T.Not(pos))))
			return c, true
		},
		"math.Modf": func(in *Interp, a []Value) (Value, bool) {
			f := tm(a[0])
			if f.isConst() {
				x, y := math.Modf(f.fval())
				return Tuple{FPf(64, x), FPf(64, y)}, true
			}
			T := in.T
			ip := T.FRound(2, f)
			fr := T.FBin(OFSub, f, ip)
			// frac carries the sign of f; for exact integers the difference is +0
			return Tuple{ip, fr}, true
		},
		"math.Pow":   fnative2(math.Pow),
		"math.Mod":   fnative2(math.Mod),
		"math.Log10": fnative1(math.Log10),
		"math.Log":   fnative1(math.Log),
		"math.Log2":  fnative1(math.Log2),
		"math.Exp":   fnative1(math.Exp),
		"math.FMA": func(in *Interp, a []Value) (Value, bool) {
			x, y, z := tm(a[0]), tm(a[1]), tm(a[2])
			if x.isConst() && y.isConst() && z.isConst() {
				return FPf(64, math.FMA(x.fval(), y.fval(), z.fval())), true
			}
			return nil, false
		},
		"math/bits.Mul64": mul64,
		"math/bits.Add64": func(in *Interp, a []Value) (Value, bool) {
			x, y, c := tm(a[0]), tm(a[1]), tm(a[2])
			if x.isConst() && y.isConst() && c.isConst() {
				s, k := bits.Add64(x.val, y.val, c.val)
				return Tuple{BV(64, s), BV(64, k)}, true
			}
			return nil, false
		},
		"math/bits.LeadingZeros64":  bitsLen(func(v uint64) int { return bits.LeadingZeros64(v) }),
		"math/bits.TrailingZeros64": bitsLen(func(v uint64) int { return bits.TrailingZeros64(v) }),
		"math/bits.Len64":           bitsLen(func(v uint64) int { return bits.Len64(v) }),
		"math/bits.Len32":           bitsLen(func(v uint64) int { return bits.Len32(uint32(v)) }),
		"math/bits.Len":             bitsLen(func(v uint64) int { return bits.Len64(v) }),

		// sync
		"(*sync.Mutex).Lock":               nop,
		"(*sync.Mutex).Unlock":             nop,
		"(*sync.RWMutex).Lock":             nop,
		"(*sync.RWMutex).Unlock":           nop,
		"(*sync.RWMutex).RLock":            nop,
		"(*sync.RWMutex).RUnlock":          nop,
		"(*internal/sync.Mutex).Lock":      nop,
		"(*internal/sync.Mutex).Unlock":    nop,
		"(*sync.WaitGroup).Add":            nop,
		"(*sync.WaitGroup).Done":           nop,
		"(*sync.WaitGroup).Wait":           nop,
		"(*sync.Pool).Get":                 poolGet,
		"(*sync.Pool).Put":                 poolPut,
		"sync.runtime_registerPoolCleanup": nop,
		"(*sync.Map).Load":                 func(in *Interp, a []Value) (Value, bool) { return in.model("MapLoad", a...), true },
		"(*sync.Map).Store":                func(in *Interp, a []Value) (Value, bool) { in.model("MapStore", a...); return nil, true },
		"(*sync.Map).LoadOrStore":          func(in *Interp, a []Value) (Value, bool) { return in.model("MapLoadOrStore", a...), true },
		"(*sync.Map).LoadAndDelete":        func(in *Interp, a []Value) (Value, bool) { return in.model("MapLoadAndDelete", a...), true },
		"(*sync.Map).Delete":               func(in *Interp, a []Value) (Value, bool) { in.model("MapDelete", a...); return nil, true },
		"(*sync.Map).Swap":                 func(in *Interp, a []Value) (Value, bool) { return in.model("MapSwap", a...), true },
		"(*sync.Map).CompareAndSwap":       func(in *Interp, a []Value) (Value, bool) { return in.model("MapCompareAndSwap", a...), true },
		"(*sync.Map).CompareAndDelete":     func(in *Interp, a []Value) (Value, bool) { return in.model("MapCompareAndDelete", a...), true },
		"(*sync.Map).Range":                func(in *Interp, a []Value) (Value, bool) { in.model("MapRange", a...); return nil, true },
		"(*sync.Map).Clear":                func(in *Interp, a []Value) (Value, bool) { in.model("MapClear", a...); return nil, true },

		"os.Exit":          func(in *Interp, a []Value) (Value, bool) { panic(pathStop{"exit", "os.Exit"}) },
		"time.Sleep":       nop,
		"time.runtimeNano": func(in *Interp, a []Value) (Value, bool) { return BV(64, 1), true },
		"time.runtimeNow": func(in *Interp, a []Value) (Value, bool) {
			return Tuple{BV(64, 1700000000), BV(32, 0), BV(64, 1)}, true
		},
		"time.now": func(in *Interp, a []Value) (Value, bool) {
			return Tuple{BV(64, 1700000000), BV(32, 0), BV(64, 1)}, true
		},
		"time.initLocal": nop,

		// errors and formatting
		"errors.As":                func(in *Interp, a []Value) (Value, bool) { return in.model("ErrorsAs", a...), true },
		"errors.Is":                func(in *Interp, a []Value) (Value, bool) { return in.model("ErrorsIs", a...), true },
		"fmt.Sprint":               sprintNative,
		"fmt.Sprintf":              func(in *Interp, a []Value) (Value, bool) { return in.fmtSprintf(a[0], a[1].(Slice)) },
		"fmt.Sprintln":             func(in *Interp, a []Value) (Value, bool) { return in.model("Sprintln", a...), true },
		"fmt.Errorf":               func(in *Interp, a []Value) (Value, bool) { return in.model("Errorf", a...), true },
		"fmt.Print":                func(in *Interp, a []Value) (Value, bool) { return in.model("Print", a...), true },
		"fmt.Printf":               func(in *Interp, a []Value) (Value, bool) { return in.model("Printf", a...), true },
		"fmt.Println":              func(in *Interp, a []Value) (Value, bool) { return in.model("Println", a...), true },
		"fmt.Fprintf":              func(in *Interp, a []Value) (Value, bool) { return in.model("Fprintf", a...), true },
		"fmt.Fprintln":             func(in *Interp, a []Value) (Value, bool) { return in.model("Fprintln", a...), true },
		"fmt.Fprint":               func(in *Interp, a []Value) (Value, bool) { return in.model("Fprint", a...), true },
		modelsPath + ".nativeVerb": nativeVerb,

		"strconv.ParseFloat": func(in *Interp, a []Value) (Value, bool) {
			s, ok := a[0].(string)
			b := tm(a[1])
			if !ok || !b.isConst() {
				return nil, false
			}
			f, err := strconv.ParseFloat(s, int(b.val))
			if err != nil {
				return nil, false
			}
			return Tuple{FPf(64, f), Iface{}}, true
		},
		"strconv.FormatFloat": func(in *Interp, a []Value) (Value, bool) {
			return in.formatFloat(tm(a[0]), tm(a[1]), tm(a[2]), tm(a[3])), true
		},
		"strconv.AppendFloat": func(in *Interp, a []Value) (Value, bool) {
			s := in.formatFloat(tm(a[1]), tm(a[2]), tm(a[3]), tm(a[4]))
			b := strBytes(s)
			return in.appendSlots(a[0].(Slice), tinfoOf(types.Typ[types.Uint8]), len(b), func(k int) Value { return b[k] }), true
		},
		"strconv.FormatInt": func(in *Interp, a []Value) (Value, bool) {
			x, b := tm(a[0]), tm(a[1])
			if x.isConst() && b.isConst() {
				return strconv.FormatInt(x.sval(), int(b.val)), true
			}
			if b.isConst() && b.val == 10 {
				return in.itoa(x), true
			}
			return nil, false
		},
		"strconv.Itoa": func(in *Interp, a []Value) (Value, bool) { return in.itoa(tm(a[0])), true },
		"strconv.FormatUint": func(in *Interp, a []Value) (Value, bool) {
			x, b := tm(a[0]), tm(a[1])
			if x.isConst() && b.isConst() {
				return strconv.FormatUint(x.val, int(b.val)), true
			}
			if b.isConst() && b.val == 10 {
				return in.utoa(x), true
			}
			return nil, false
		},
		"sort.Slice":       sortSlice,
		"sort.SliceStable": sortSlice,

		"encoding/binary.Read":  binaryRead,
		"encoding/binary.Write": binaryWrite,

		"crypto/rc4.NewCipher": func(in *Interp, a []Value) (Value, bool) {
			if _, ok := allConst(in.sliceTerms(a[0].(Slice))); !ok {
				in.unsupported("rc4 with a symbolic key")
			}
			return nil, false
		},
		"crypto/md5.block": func(in *Interp, a []Value) (Value, bool) {
			if _, ok := allConst(in.sliceTerms(a[1].(Slice))); !ok {
				in.unsupported("md5 of symbolic data in pieces")
			}
			return nil, false
		},
		"crypto/md5.Sum": func(in *Interp, a []Value) (Value, bool) {
			ts := in.sliceTerms(a[0].(Slice))
			out := make(Agg, 16)
			if b, ok := allConst(ts); ok {
				s := md5.Sum(b)
				for i := range out {
					out[i] = BV(8, uint64(s[i]))
				}
				return out, true
			}
			var h1, h2 uint64 = uint64(len(ts)), 99
			for _, t := range ts {
				h1, h2 = mix(h1+3, t.h1), mix(h2+5, t.h2)
			}
			for i := range out {
				out[i] = in.newInput(fmt.Sprintf("md5_%016x%016x_%d", h1, h2, i), KBV, 8)
			}
			in.ex.h.note("md5 of symbolic data is an unconstrained value")
			return out, true
		},
		"crypto/internal/fips140/alias.InexactOverlap": func(in *Interp, a []Value) (Value, bool) { return termFalse, true },
		"crypto/internal/fips140/alias.AnyOverlap":     func(in *Interp, a []Value) (Value, bool) { return termFalse, true },
		"crypto/subtle.ConstantTimeCompare":            nil,

		"regexp.MustCompile": regexpCompile,
	}
	delete(intrinsics, "crypto/subtle.ConstantTimeCompare")
	addRegexp()
	addOS()
}

func fnative1(f func(float64) float64) intrinsic {
	return func(in *Interp, a []Value) (Value, bool) {
		if x := tm(a[0]); x.isConst() {
			return FPf(64, f(x.fval())), true
		}
		return nil, false
	}
}
func fnative2(f func(a, b float64) float64) intrinsic {
	return func(in *Interp, a []Value) (Value, bool) {
		x, y := tm(a[0]), tm(a[1])
		if x.isConst() && y.isConst() {
			return FPf(64, f(x.fval(), y.fval())), true
		}
		return nil, false
	}
}

func mul64(in *Interp, a []Value) (Value, bool) {
	x, y := tm(a[0]), tm(a[1])
	if x.isConst() && y.isConst() {
		h, l := bits.Mul64(x.val, y.val)
		return Tuple{BV(64, h), BV(64, l)}, true
	}
	return nil, false
}

func bitsLen(f func(uint64) int) intrinsic {
	return func(in *Interp, a []Value) (Value, bool) {
		x := tm(a[0])
		if x.isConst() {
			return BV(64, uint64(f(x.val))), true
		}
		return nil, false
	}
}

func poolGet(in *Interp, a []Value) (Value, bool) {
	in.noSpec()
	p := a[0].(Ptr)
	if l := in.pools[p.obj]; len(l) > 0 {
		v := l[len(l)-1]
		in.pools[p.obj] = l[:len(l)-1]
		return v, true
	}
	// New is the last slot of sync.Pool
	for i := len(p.obj.slots) - 1; i >= 0; i-- {
		if c, ok := p.obj.slots[i].(*Closure); ok {
			if c == nil {
				break
			}
			return in.callClosure(c, nil), true
		}
	}
	return Iface{}, true
}

func poolPut(in *Interp, a []Value) (Value, bool) {
	in.noSpec()
	p := a[0].(Ptr)
	if i, ok := a[1].(Iface); ok && i.t == nil {
		return nil, true
	}
	in.pools[p.obj] = append(in.pools[p.obj], a[1])
	return nil, true
}

func sortSlice(in *Interp, a []Value) (Value, bool) {
	in.noSpec()
	iv := a[0].(Iface)
	s := iv.v.(Slice)
	less := a[1].(*Closure)
	et := tinfoOf(iv.t.Underlying().(*types.Slice).Elem())
	for i := 1; i < s.len; i++ {
		for j := i; j > 0; j-- {
			r := in.callClosure(less, []Value{BV(64, uint64(j)), BV(64, uint64(j-1))}).(*Term)
			if !in.branch(r) {
				break
			}
			for k := 0; k < et.n; k++ {
				x, y := s.off+j*et.n+k, s.off+(j-1)*et.n+k
				vx, vy := s.obj.slots[x], s.obj.slots[y]
				in.setSlot(s.obj, x, vy)
				in.setSlot(s.obj, y, vx)
			}
		}
	}
	return nil, true
}

// ---------- encoding/binary ----------

func fixedSize(ti *tinfo) (int, bool) {
	switch ti.k {
	case kInt, kUint:
		if b, ok := ti.t.Underlying().(*types.Basic); ok {
			if b.Kind() == types.Int || b.Kind() == types.Uint || b.Kind() == types.Uintptr {
				return 0, false
			}
		}
		return int(ti.w) / 8, true
	case kFloat:
		return int(ti.w) / 8, true
	case kBool:
		return 1, true
	case kStruct:
		n := 0
		for _, f := range ti.fields {
			k, ok := fixedSize(f)
			if !ok {
				return 0, false
			}
			n += k
		}
		return n, true
	case kArray:
		k, ok := fixedSize(ti.elem)
		return k * ti.length, ok
	}
	return 0, false
}

// scalarTypes lists the scalar slot types of a fixed-size type.
func scalarTypes(ti *tinfo, out []*tinfo) []*tinfo {
	switch ti.k {
	case kStruct:
		for _, f := range ti.fields {
			out = scalarTypes(f, out)
		}
	case kArray:
		for i := 0; i < ti.length; i++ {
			out = scalarTypes(ti.elem, out)
		}
	default:
		out = append(out, ti)
	}
	return out
}

func orderBig(in *Interp, v Value) bool {
	i := v.(Iface)
	if i.t == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	s := i.t.String()
	if strings.Contains(s, "littleEndian") {
		return false
	}
	if strings.Contains(s, "bigEndian") {
		return true
	}
	in.unsupported("byte order %s", s)
	return false
}

func (in *Interp) joinBytes(b []*Term, big bool) *Term {
	n := len(b)
	var r *Term
	for i := 0; i < n; i++ {
		// from most significant to least
		t := b[n-1-i]
		if big {
			t = b[i]
		}
		if r == nil {
			r = t
		} else {
			r = in.T.Concat(r, t)
		}
	}
	return r
}

func (in *Interp) decodeScalar(b []*Term, ti *tinfo, big bool) Value {
	r := in.joinBytes(b, big)
	switch ti.k {
	case kFloat:
		return in.T.FFromBits(r)
	case kBool:
		return in.T.Not(in.T.Eq(r, BV(8, 0)))
	}
	return r
}

func (in *Interp) encodeScalar(v *Term, ti *tinfo, big bool) []*Term {
	if ti.k == kFloat {
		v = in.T.FToBits(v)
	}
	if ti.k == kBool {
		return []*Term{in.T.Ite(v, BV(8, 1), BV(8, 0))}
	}
	n := int(v.w) / 8
	out := make([]*Term, n)
	for i := 0; i < n; i++ {
		t := in.T.Extract(uint8(i*8+7), uint8(i*8), v)
		if big {
			out[n-1-i] = t
		} else {
			out[i] = t
		}
	}
	return out
}

func binaryRead(in *Interp, a []Value) (Value, bool) {
	in.noSpec()
	big := orderBig(in, a[1])
	d := a[2].(Iface)
	if d.t == nil {
		in.unsupported("binary.Read(nil)")
	}
	var et *tinfo
	var obj *Obj
	off, cnt := 0, 1
	switch u := d.t.Underlying().(type) {
	case *types.Pointer:
		et = tinfoOf(u.Elem())
		p := d.v.(Ptr)
		if p.obj == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		obj, off = p.obj, p.off
		if et.k == kSlice {
			s := p.obj.slots[p.off].(Slice)
			et = tinfoOf(et.t.Underlying().(*types.Slice).Elem())
			obj, off, cnt = s.obj, s.off, s.len
		}
	case *types.Slice:
		et = tinfoOf(u.Elem())
		s := d.v.(Slice)
		obj, off, cnt = s.obj, s.off, s.len
	default:
		return in.model("BinaryReadErr"), true
	}
	sz, ok := fixedSize(et)
	if !ok {
		return in.model("BinaryReadErr"), true
	}
	buf := in.mkSlice(tinfoOf(types.Typ[types.Uint8]), sz*cnt, sz*cnt)
	res := in.model("ReadFull", a[0], buf).(Iface)
	if res.t != nil {
		return res, true
	}
	b := in.sliceTerms(buf)
	sts := scalarTypes(et, nil)
	for c := 0; c < cnt; c++ {
		for k, st := range sts {
			n := int(st.w) / 8
			if st.k == kBool {
				n = 1
			}
			in.setSlot(obj, off+c*len(sts)+k, in.decodeScalar(b[:n], st, big))
			b = b[n:]
		}
	}
	return Iface{}, true
}

func binaryWrite(in *Interp, a []Value) (Value, bool) {
	in.noSpec()
	big := orderBig(in, a[1])
	d := a[2].(Iface)
	if d.t == nil {
		in.unsupported("binary.Write(nil)")
	}
	ti := tinfoOf(d.t)
	var vals []Value
	switch ti.k {
	case kPtr:
		p := d.v.(Ptr)
		ti = tinfoOf(d.t.Underlying().(*types.Pointer).Elem())
		v := in.load(p, ti)
		if ag, ok := v.(Agg); ok {
			vals = ag
		} else {
			vals = []Value{v}
		}
	case kSlice:
		s := d.v.(Slice)
		ti = tinfoOf(d.t.Underlying().(*types.Slice).Elem())
		if s.len > 0 {
			vals = s.obj.slots[s.off : s.off+s.len*ti.n]
		}
	case kStruct, kArray:
		vals = d.v.(Agg)
	default:
		vals = []Value{d.v}
	}
	if _, ok := fixedSize(ti); !ok {
		return in.model("BinaryReadErr"), true
	}
	sts := scalarTypes(ti, nil)
	var out []*Term
	for i, v := range vals {
		out = append(out, in.encodeScalar(v.(*Term), sts[i%len(sts)], big)...)
	}
	return in.model("WriteTo", a[0], in.bytesSlice(out)), true
}

// ---------- integers to text ----------

func (in *Interp) itoa(x *Term) Value {
	if x.isConst() {
		return strconv.FormatInt(x.sval(), 10)
	}
	T := in.T
	if in.branch(T.Slt(x, BV(64, 0))) {
		return strConcat("-", in.utoa(T.Neg(x)))
	}
	return in.utoa(x)
}

// utoa forks on the number of digits; the digits themselves are terms.
func (in *Interp) utoa(x *Term) Value {
	if x.isConst() {
		return strconv.FormatUint(x.val, 10)
	}
	T := in.T
	n := 1
	p := uint64(10)
	for n < 20 {
		if in.branch(T.Ult(x, BV(64, p))) {
			break
		}
		n++
		if n < 20 {
			p *= 10
		}
	}
	return mkStr(in.digitsLead(x, n, n > 1))
}

func (in *Interp) digits(x *Term, n int) []*Term { return in.digitsLead(x, n, false) }

// digitsLead gives the n decimal digits of x (which has at most n digits) as bytes. The
// digits are fresh variables tied to x by x = sum d_i*10^i, which has exactly one solution.
//
// With lead the first digit is known not to be zero (x has exactly n digits).
func (in *Interp) digitsLead(x *Term, n int, lead bool) []*Term {
	T := in.T
	in.noSpec()
	if x.isConst() {
		s := fmt.Sprintf("%0*d", n, x.val)
		return strBytes(s)
	}
	if x.op == OTab {
		out := make([]*Term, n)
		for i := n - 1; i >= 0; i-- {
			out[i] = T.Add(T.Extract(7, 0, T.URem(x, BV(64, 10))), BV(8, '0'))
			x = T.UDiv(x, BV(64, 10))
		}
		return out
	}
	w := uint8(64)
	y := x
	if n <= 9 {
		w = 32
		y = T.Extract(31, 0, x)
	}
	if n > 19 {
		in.unsupported("20-digit integer")
	}
	v := T.Eval(x)
	ds := make([]uint64, n)
	for i := n - 1; i >= 0; i-- {
		ds[i] = v % 10
		v /= 10
	}
	out := make([]*Term, n)
	sum := BV(w, 0)
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("dig_%016x%016x_%d_%d", x.h1, x.h2, n, i)
		if lead {
			name = "l" + name
		}
		_, have := T.byName[name]
		d := T.NewVar(name, KBV, 8)
		if !have {
			T.model[d.val] = ds[i]
			T.gen++
			d.lo, d.hi = 0, 9
			in.ex.addPC(in.rawUlt(d, 10))
			if lead && i == 0 {
				d.lo = 1
				in.ex.addPC(in.T.mk(OUlt, KBool, 1, BV(d.w, 0), d, nil, 0))
			}
		}
		out[i] = T.Add(d, BV(8, '0'))
		sum = T.Add(T.Mul(sum, BV(w, 10)), T.ZExt(d, w))
	}
	in.ex.addPC(T.Eq(y, sum))
	return out
}

// rawUlt builds d < c without the range simplifier.
func (in *Interp) rawUlt(d *Term, c uint64) *Term {
	return in.T.mk(OUlt, KBool, 1, d, BV(d.w, c), nil, 0)
}

// pickQuiet fixes a value for a message without counting it as a reduced bound.
func (in *Interp) pickQuiet(t *Term) int64 {
	v := in.T.Eval(t)
	return signExt(v, t.w)
}

// splitF forks on the conditions inside a float expression.
func (in *Interp) splitF(f *Term) *Term {
	T := in.T
	switch f.op {
	case OIte:
		if in.branch(f.a) {
			return in.splitF(f.b)
		}
		return in.splitF(f.c)
	case OFNeg:
		if a := in.splitF(f.a); a != f.a {
			return T.FNeg(a)
		}
	case OFAbs:
		if a := in.splitF(f.a); a != f.a {
			return T.FAbs(a)
		}
	case OFRound:
		if a := in.splitF(f.a); a != f.a {
			return T.FRound(f.val, a)
		}
	case OFFromS, OFFromU:
		a := f.a
		for a.op == OIte {
			if in.branch(a.a) {
				a = a.b
			} else {
				a = a.c
			}
		}
		if a != f.a && f.op == OFFromS {
			return T.FFromS(a, f.w)
		} else if a != f.a {
			return T.FFromU(a, f.w)
		}
	case OFAdd, OFSub, OFMul, OFDiv:
		a, b := in.splitF(f.a), in.splitF(f.b)
		if a != f.a || b != f.b {
			return T.FBin(f.op, a, b)
		}
	}
	return f
}

// formatFloat handles constants natively, and values that are exactly n/10^k for an
// integer term n; anything else stops the path as unsupported.
func (in *Interp) formatFloat(f, fm, prec, bs *Term) Value {
	if f.isConst() && fm.isConst() && prec.isConst() && bs.isConst() {
		return strconv.FormatFloat(f.fval(), byte(fm.val), int(prec.sval()), int(bs.val))
	}
	if !fm.isConst() {
		fm = BV(fm.w, in.concretize(fm))
	}
	if !prec.isConst() {
		prec = BV(prec.w, in.concretize(prec))
	}
	if f.isConst() && bs.isConst() {
		return strconv.FormatFloat(f.fval(), byte(fm.val), int(prec.sval()), int(bs.val))
	}
	if f.op == OTab && bs.isConst() && fm.isConst() && prec.isConst() {
		return in.tabString(f, func(v uint64) string {
			return strconv.FormatFloat(FP(f.w, v).fval(), byte(fm.val), int(prec.sval()), int(bs.val))
		})
	}
	if !bs.isConst() || bs.val != 64 {
		in.unsupported("strconv.FormatFloat with symbolic format")
	}
	T := in.T
	neg := false
	for f.op == OIte || f.op == OFNeg || f.op == OFAbs {
		switch f.op {
		case OIte:
			if in.branch(f.a) {
				f = f.b
			} else {
				f = f.c
			}
		case OFNeg:
			neg = !neg
			f = f.a
		case OFAbs:
			g := f.a
			if in.branch(T.FCmp(OFLt, g, FPf(64, 0))) {
				neg = !neg
			}
			f = g
		}
	}
	if f.isConst() {
		v := f.fval()
		if neg {
			v = -v
		}
		return strconv.FormatFloat(v, byte(fm.val), int(prec.sval()), 64)
	}
	n, k, ok := in.decimalForm(f)
	if ok && neg {
		// -0 prints a sign; keep it exact
		if in.branch(T.Eq(n, BV(64, 0))) {
			return strconv.FormatFloat(math.Copysign(0, -1), byte(fm.val), int(prec.sval()), 64)
		}
		n = T.Neg(n)
	}
	p := int(prec.sval())
	if ok && fm.val == 'f' && p >= k && p <= 15 && exactDigits(n, k, p) {
		sgn := ""
		if in.branch(T.Slt(n, BV(64, 0))) {
			sgn = "-"
			n = T.Neg(n)
		}
		pow := uint64(1)
		for i := 0; i < k; i++ {
			pow *= 10
		}
		ip := n
		if k > 0 {
			ip = T.UDiv(n, BV(64, pow))
		}
		s := strConcat(sgn, in.utoa(ip))
		if p > 0 {
			s = strConcat(s, ".")
			if k > 0 {
				fr := T.Sub(n, T.Mul(ip, BV(64, pow)))
				s = strConcat(s, mkStr(in.digits(fr, k)))
			}
			s = strConcat(s, strings.Repeat("0", p-k))
		}
		return s
	}
	if ok && k == 0 && fm.val == 'f' && p == -1 {
		return in.itoa(n)
	}
	if ok && k == 0 && (fm.val == 'g' || fm.val == 'G') && p == -1 {
		lim := BV(64, 999999+1)
		small := T.And(T.Slt(n, lim), T.Slt(BV(64, ^uint64(999999)), n))
		_ = small
		if in.branch(T.And(T.Slt(n, BV(64, 1000000)), T.Slt(T.Neg(BV(64, 1000000)), n))) {
			return in.itoa(n)
		}
	}
	if g := in.splitF(f); g != f {
		if neg {
			g = T.FNeg(g)
		}
		return in.formatFloat(g, fm, prec, bs)
	}
	// a float of one symbolic byte or less has few values
	if vs := collectVars([]*Term{f}); len(vs) == 1 && vs[0].kind == KBV && vs[0].w <= 8 {
		in.concretize(vs[0])
		return in.formatFloat(FP(64, T.Eval(f)), fm, prec, bs)
	}
	if in.spec > 0 || in.ex == nil {
		in.unsupported("strconv.FormatFloat(%c,%d) of symbolic float op %d", rune(fm.val), p, f.op)
	}
	// outside of what is decided for all values: noted as incomplete, one value goes on
	in.pickVars(f)
	v := FP(64, in.T.Eval(f)).fval()
	if neg {
		v = -v
	}
	return strconv.FormatFloat(v, byte(fm.val), p, 64)
}

// decimalForm recognises integer-valued terms and n/10^k.
func (in *Interp) decimalForm(f *Term) (n *Term, k int, ok bool) {
	if x, ok := in.T.exactInt(f); ok {
		return x, 0, true
	}
	if f.op == OFDiv && f.b.isConst() {
		d := f.b.fval()
		p := 1.0
		for k = 0; k <= 9; k++ {
			if d == p {
				break
			}
			p *= 10
		}
		if k > 9 {
			return nil, 0, false
		}
		x, ok := in.T.exactInt(f.a)
		// exact digits need |n| * 10^15/10^k well under 2^53 ulp bounds
		if ok && x.lo > -1_000_000_000_000 && x.hi < 1_000_000_000_000 {
			return x, k, true // the caller checks the digits asked for
		}
	}
	return nil, 0, false
}

// exactDigits: the double nearest to n/10^k prints exactly as n/10^k padded with zeros to
// p digits when |n|*10^(p-k) stays below 2^52 (half an ulp is then less than half a unit
// of the last digit).
func exactDigits(n *Term, k, p int) bool {
	if k == 0 {
		return true
	}
	m := float64(max(n.hi, -n.lo))
	for i := k; i < p; i++ {
		m *= 10
	}
	return m < 1<<52
}

// initOS sets the error variables of package os, whose initialiser is not run.
func (in *Interp) initOS(pkg *ssa.Package) {
	if g := pkg.Var("Args"); g != nil {
		args := in.mkSlice(tinfoOf(types.Typ[types.String]), 1, 1)
		args.obj.slots[0] = "tool"
		args.obj.epoch = 0
		in.globalObj(g).slots[0] = args
	}
	for _, imp := range theProg.AllPackages() {
		if imp.Pkg.Path() != "io/fs" {
			continue
		}
		for _, n := range []string{"ErrInvalid", "ErrPermission", "ErrExist", "ErrNotExist", "ErrClosed"} {
			if g, f := pkg.Var(n), imp.Var(n); g != nil && f != nil {
				in.globalObj(g).slots[0] = in.globalObj(f).slots[0]
			}
		}
	}
}
