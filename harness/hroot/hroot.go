// Package hroot holds the checks of the format registry and of wrapped errors.
package hroot

import (
	"errors"
	"fmt"
	"strings"

	"github.com/pbnjay/grate"
	_ "github.com/pbnjay/grate/simple"
	_ "github.com/pbnjay/grate/xls"
	_ "github.com/pbnjay/grate/xlsx"
	"verifh/vrt"
)

func id(i int) string { return "0123456789abcdefghijklmnopqrstuvwxyz"[i : i+1] }

type source struct{ grate.Source }

// generation keeps the openers of an earlier run out (the registry has no way back).
var generation int

var errOther = errors.New("broken")

// nobody is a text file that both text formats decline.
var nobody = strings.Repeat("a\tb,c\n", 27) + strings.Repeat("x\n", 10)

// Dispatch: openers registered in any order with any priorities and outcomes.
func Dispatch() {
	generation++
	mine := generation
	n := 1 + vrt.Choice("openers", 3)
	if !vrt.Thorough() {
		vrt.Assume(n != 2)
	}
	pri := make([]int, n)
	out := make([]int, n)
	srcs := make([]*source, n)
	var calls []int
	path := vrt.File("f.bin", []byte(nobody))
	for i := range pri {
		i := i
		// around and between the priorities of the built-in formats
		pri[i] = int(int8(vrt.Byte("pri" + id(i))))
		out[i] = vrt.Choice("out"+id(i), 5)
		srcs[i] = &source{}
		err := grate.Register("t"+id(i), pri[i], func(fn string) (grate.Source, error) {
			if generation != mine {
				return nil, grate.ErrNotInFormat
			}
			vrt.Assert(fn == path, "an opener gets another file name")
			calls = append(calls, i)
			switch out[i] {
			case 0:
				return srcs[i], nil
			case 1:
				return nil, grate.ErrNotInFormat
			case 2:
				return srcs[i], grate.WrapErr(errOther, grate.ErrNotInFormat)
			case 3:
				return srcs[i], errOther
			}
			return nil, fmt.Errorf("more: %w", grate.WrapErr(errors.New("x"), errOther))
		})
		vrt.Assert(err == nil, "a format cannot be registered")
	}
	src, err := grate.Open(path)
	// in ascending order, nobody twice
	for k := 1; k < len(calls); k++ {
		vrt.Assert(pri[calls[k-1]] <= pri[calls[k]] && calls[k-1] != calls[k], "formats are not tried in order of priority")
	}
	last := -1
	for k, i := range calls {
		if out[i] == 0 || out[i] > 2 {
			vrt.Assert(k == len(calls)-1, "another format is tried after the answer")
			last = i
		}
	}
	for i := range pri {
		tried := false
		for _, c := range calls {
			tried = tried || c == i
		}
		if last < 0 {
			vrt.Assert(tried, "a format is not tried")
		} else {
			vrt.Assert(tried || pri[i] >= pri[last], "a format of higher priority is not tried")
		}
	}
	switch {
	case last < 0:
		vrt.Assert(src == nil && err == grate.ErrUnknownFormat, "no format accepts the file, but it is not reported as unknown")
		vrt.Reach("unknown")
	case out[last] == 0:
		vrt.Assert(err == nil && src == grate.Source(srcs[last]), "another source is returned than the accepting one")
		vrt.Reach("accepted")
	default:
		vrt.Assert(src == nil && errors.Is(err, errOther) && !errors.Is(err, grate.ErrUnknownFormat), "the error of a format is not returned")
		vrt.Reach("error")
	}
}

// Again: openers registered between two calls of Open.
func Again() {
	generation++
	mine := generation
	path := vrt.File("f.bin", []byte(nobody))
	a, b := &source{}, &source{}
	pa, pb := int(int8(vrt.Byte("pa"))), int(int8(vrt.Byte("pb")))
	vrt.Assume(pa != pb)
	reg := func(p int, s *source) {
		grate.Register("again", p, func(string) (grate.Source, error) {
			if generation != mine {
				return nil, grate.ErrNotInFormat
			}
			return s, nil
		})
	}
	src, err := grate.Open(path)
	vrt.Assert(src == nil && err == grate.ErrUnknownFormat, "an unknown file is opened")
	reg(pa, a)
	src, err = grate.Open(path)
	vrt.Assert(err == nil && src == grate.Source(a), "a registered format is not used")
	reg(pb, b)
	src, err = grate.Open(path)
	want := a
	if pb < pa {
		want = b
	}
	vrt.Assert(err == nil && src == grate.Source(want), "formats are not tried in order of priority")
	vrt.Reach("again")
}

type kind struct{ n int }

func (k kind) Error() string { return "kind" + id(k.n) }

type other struct{ n int }

func (o *other) Error() string { return "other" }

// Wrap: errors wrapped in any nesting, with one member of another kind at any place.
func Wrap() {
	var members []error
	special, special2, what := vrt.Choice("special", 7), 9, 1+vrt.Choice("kind", 4)
	if vrt.Thorough() {
		special2 = vrt.Choice("special2", 7)
	}
	count := 0
	fresh := func() error {
		k := count
		count++
		var e error = errors.New("plain" + id(k))
		if k == special {
			switch what {
			case 1:
				e = kind{k}
			case 2:
				e = &other{k}
			case 3:
				e = grate.ErrNotInFormat
			case 4:
				members = append(members, e)
				e = fmt.Errorf("outer: %w", e)
			}
		} else if k == special2 {
			e = kind{k}
		}
		members = append(members, e)
		return e
	}
	var build func(depth int, name string) error
	build = func(depth int, name string) error {
		n := 1 + vrt.Choice("n"+name, 3)
		nested := -1
		if depth > 0 {
			nested = vrt.Choice("nested"+name, n+1) - 1
		}
		var list []error
		for i := 0; i < n; i++ {
			if i == nested {
				list = append(list, build(depth-1, name+id(i)))
			} else {
				list = append(list, fresh())
			}
		}
		msg := list[0].Error()
		e := grate.WrapErr(list...)
		vrt.Assert(e.Error() == msg, "a wrapped error shows another message")
		if n == 1 {
			vrt.Assert(e == list[0], "a single error is not returned itself")
		}
		members = append(members, e)
		return e
	}
	depth := 2
	e := build(depth, "w")
	vrt.Assume(special < count && (special2 == 9 || special2 < count && special2 != special))
	for i := vrt.Choice("again", 3); i > 0; i-- {
		if i == 1 {
			e = fmt.Errorf("context: %w", e)
		} else {
			e = grate.WrapErr(errors.New("top"), e)
		}
	}
	hasKind, hasOther, hasNot := false, false, false
	for _, m := range members {
		vrt.Assert(errors.Is(e, m), "a member of a wrapped error is not recognised")
		switch m.(type) {
		case kind:
			hasKind = true
		case *other:
			hasOther = true
		}
		hasNot = hasNot || m == grate.ErrNotInFormat
	}
	vrt.Assert(!errors.Is(e, errors.New("plain0")) && !errors.Is(e, errOther), "an error is recognised that is no member")
	vrt.Assert(errors.Is(e, grate.ErrNotInFormat) == hasNot, "not-in-format is recognised wrongly")
	var k kind
	vrt.Assert(errors.As(e, &k) == hasKind, "the type of a member is not recognised")
	var o *other
	vrt.Assert(errors.As(e, &o) == hasOther, "the type of a member is not recognised")
	vrt.Reach("wrapped")
}
