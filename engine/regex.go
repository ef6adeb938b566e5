package main

import (
	"regexp"
	"regexp/syntax"
	"sync"
	"unicode"
)

// Matching a text with symbolic bytes: what a pattern does with a text depends only on
// the class of each byte, the set of instructions of the compiled pattern that accept
// it. The path forks on the class of each symbolic byte, the native matcher runs on one
// representative text, and its positions hold for all texts of these classes.

type reClass struct {
	rep byte
	in  [128]bool
}

var reClassCache sync.Map

func classesOf(re *regexp.Regexp) []reClass {
	if v, ok := reClassCache.Load(re.String()); ok {
		return v.([]reClass)
	}
	var out []reClass
	if p, err := syntax.Parse(re.String(), syntax.Perl); err == nil {
		if prog, err := syntax.Compile(p.Simplify()); err == nil {
			sig := map[string]int{}
			for b := 0; b < 128; b++ {
				var k []byte
				for i := range prog.Inst {
					in := &prog.Inst[i]
					m := byte('0')
					switch in.Op {
					case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
						if in.MatchRune(rune(b)) {
							m = '1'
						}
					}
					k = append(k, m)
				}
				// for the empty-width assertions
				if syntax.IsWordChar(rune(b)) {
					k = append(k, 'w')
				}
				if b == '\n' {
					k = append(k, 'n')
				}
				c, ok := sig[string(k)]
				if !ok {
					c = len(out)
					sig[string(k)] = c
					out = append(out, reClass{rep: byte(b)})
				}
				out[c].in[b] = true
			}
		}
	}
	reClassCache.Store(re.String(), out)
	return out
}

// asciiOnly says that a pattern accepts no empty text and no character beyond ASCII, so
// that all bytes beyond ASCII are the same to it.
func asciiOnly(re *regexp.Regexp) bool {
	if re.MatchString("") {
		return false
	}
	p, err := syntax.Parse(re.String(), syntax.Perl)
	if err != nil {
		return false
	}
	prog, err := syntax.Compile(p.Simplify())
	if err != nil {
		return false
	}
	for i := range prog.Inst {
		in := &prog.Inst[i]
		switch in.Op {
		case syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			return false
		case syntax.InstRune, syntax.InstRune1:
			for _, r := range in.Rune {
				if r >= 0x80 {
					return false
				}
			}
			if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
				for r := unicode.SimpleFold(in.Rune[0]); r != in.Rune[0]; r = unicode.SimpleFold(r) {
					if r >= 0x80 {
						return false
					}
				}
			}
		case syntax.InstEmptyWidth:
			if op := syntax.EmptyOp(in.Arg); op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
				return false
			}
		}
	}
	return true
}

// representative forks on the classes of all symbolic bytes of v.
func (in *Interp) representative(re *regexp.Regexp, v Value) string {
	if s, ok := v.(string); ok {
		return s
	}
	T := in.T
	cl := classesOf(re)
	n := strLen(v)
	b := make([]byte, n)
	// outside of the classes: noted as incomplete, one text goes on
	one := func(why string) string {
		if in.spec > 0 || in.ex == nil {
			in.unsupported("regexp on symbolic %s", why)
		}
		for i := range b {
			b[i] = byte(in.pickOne(strAt(v, i)))
		}
		return string(b)
	}
	if len(cl) == 0 {
		return one("text")
	}
	for i := range b {
		t := strAt(v, i)
		if t.isConst() {
			b[i] = byte(t.val)
			continue
		}
		if in.branch(T.Not(T.Ult(t, BV(8, 128)))) {
			if !asciiOnly(re) {
				return one("non-ASCII text")
			}
			b[i] = 0xff
			continue
		}
		for k := range cl {
			b[i] = cl[k].rep
			if k == len(cl)-1 || in.branch(inSet(T, t, &cl[k].in)) {
				break
			}
		}
	}
	return string(b)
}

func inSet(T *Terms, t *Term, set *[128]bool) *Term {
	r := termFalse
	for lo := 0; lo < 128; lo++ {
		if !set[lo] {
			continue
		}
		hi := lo
		for hi+1 < 128 && set[hi+1] {
			hi++
		}
		c := T.Eq(t, BV(8, uint64(lo)))
		if hi > lo {
			c = T.And(T.Ule(BV(8, uint64(lo)), t), T.Ule(t, BV(8, uint64(hi))))
		}
		r = T.Or(r, c)
		lo = hi
	}
	return r
}

// replaceAll is Regexp.ReplaceAllString for texts with symbolic bytes; tmpl is concrete.
func (in *Interp) replaceAll(re *regexp.Regexp, v Value, tmpl string, lit bool) Value {
	s := in.representative(re, v)
	var out Value = ""
	last := 0
	for _, m := range re.FindAllStringSubmatchIndex(s, -1) {
		out = strConcat(out, strSlice(v, last, m[0]))
		if lit {
			out = strConcat(out, tmpl)
		} else {
			// $1, ${1} and $$
			for i := 0; i < len(tmpl); i++ {
				if tmpl[i] != '$' {
					out = strConcat(out, tmpl[i:i+1])
					continue
				}
				i++
				if i >= len(tmpl) || tmpl[i] < '0' || tmpl[i] > '9' || i+1 < len(tmpl) && (tmpl[i+1] == '_' || syntax.IsWordChar(rune(tmpl[i+1]))) {
					in.unsupported("regexp replacement " + tmpl)
				}
				g := int(tmpl[i] - '0')
				if 2*g+1 < len(m) && m[2*g] >= 0 {
					out = strConcat(out, strSlice(v, m[2*g], m[2*g+1]))
				}
			}
		}
		last = m[1]
	}
	return strConcat(out, strSlice(v, last, strLen(v)))
}
