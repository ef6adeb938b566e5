// Package models holds Go stand-ins that the symbolic engine runs in place of library
// functions built on reflection or on the operating system.
package models

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"strconv"
	"sync"
	"time"
	"unicode/utf8"
)

// RuntimeError is the value of run-time panics.
type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }
func (e RuntimeError) RuntimeError() {}

// the engine supplies these
func nativeVerb(verb string, v interface{}) (string, bool) { return "", false }
func comparable_(v interface{}) bool                       { return true }
func basic(v interface{}) interface{}                      { return v }
func unsupported(s string)                                 {}
func asStore(err error, target interface{}) bool           { return false }
func typeName(v interface{}) string                        { return "" }
func anySym(v interface{}) bool                            { return false }

func ErrorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == nil && target == nil
	}
	return is(err, target, comparable_(target))
}

func is(err, target error, cmp bool) bool {
	for {
		if cmp && err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, err := range x.Unwrap() {
				if err != nil && is(err, target, cmp) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func ErrorsAs(err error, target interface{}) bool {
	if err == nil {
		return false
	}
	if target == nil {
		panic("errors: target cannot be nil")
	}
	for {
		if asStore(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(interface{}) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, err := range x.Unwrap() {
				if err != nil && ErrorsAs(err, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

type wrapError struct {
	msg string
	err error
}

func (e *wrapError) Error() string { return e.msg }
func (e *wrapError) Unwrap() error { return e.err }

func Errorf(format string, a ...interface{}) error {
	s := sprintf(format, a, true)
	w := -1
	n := 0
	for i := 0; i < len(format); i++ {
		if format[i] == '%' && i+1 < len(format) {
			i++
			for i < len(format) && (format[i] == '+' || format[i] == '#' || format[i] == '0' || format[i] == '-' || format[i] == '.' || (format[i] >= '1' && format[i] <= '9')) {
				i++
			}
			if i >= len(format) || format[i] == '%' {
				continue
			}
			if format[i] == 'w' && w < 0 {
				w = n
			}
			n++
		}
	}
	if w >= 0 && w < len(a) {
		if e, ok := a[w].(error); ok {
			return &wrapError{s, e}
		}
	}
	return errors.New(s)
}

func pad(s string, width int, left, zero bool) string {
	n := utf8.RuneCountInString(s)
	if n >= width {
		return s
	}
	p := ""
	c := " "
	if zero && !left {
		c = "0"
	}
	for i := n; i < width; i++ {
		p += c
	}
	if left {
		return s + p
	}
	if zero && len(s) > 0 && (s[0] == '-' || s[0] == '+') {
		return s[:1] + p + s[1:]
	}
	return p + s
}

func one(verb byte, spec string, width, prec int, left, zero, plus bool, v interface{}, loose bool) string {
	if v == nil {
		if verb == 'v' {
			return pad("<nil>", width, left, false)
		}
		return "%!" + string([]byte{verb}) + "(<nil>)"
	}
	if verb == 'T' {
		return typeName(v)
	}
	if verb == 'w' {
		verb = 'v'
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		if e, ok := v.(error); ok {
			s := e.Error()
			if verb == 'q' {
				s = strconv.Quote(s)
			}
			return pad(s, width, left, false)
		}
		if e, ok := v.(interface{ String() string }); ok {
			s := e.String()
			if verb == 'q' {
				s = strconv.Quote(s)
			}
			return pad(s, width, left, false)
		}
	}
	if s, ok := nativeVerb(spec, v); ok {
		return s
	}
	v = basic(v)
	switch x := v.(type) {
	case string:
		if loose && anySym(x) {
			return x
		}
		switch verb {
		case 'v', 's':
			return pad(x, width, left, false)
		}
	case bool:
		if verb == 'v' || verb == 't' {
			if x {
				return pad("true", width, left, false)
			}
			return pad("false", width, left, false)
		}
	}
	if loose {
		return "?"
	}
	var n int64
	isInt := true
	switch x := v.(type) {
	case int:
		n = int64(x)
	case int64:
		n = x
	case int32:
		n = int64(x)
	case int16:
		n = int64(x)
	case int8:
		n = int64(x)
	case uint8:
		n = int64(x)
	case uint16:
		n = int64(x)
	case uint32:
		n = int64(x)
	case uint64:
		if x>>63 != 0 {
			unsupported("printing a large uint64")
		}
		n = int64(x)
	case uint:
		if x>>63 != 0 {
			unsupported("printing a large uint")
		}
		n = int64(x)
	default:
		isInt = false
	}
	if isInt && prec < 0 && (verb == 'd' || verb == 'v') {
		s := strconv.FormatInt(n, 10)
		if plus && n >= 0 {
			s = "+" + s
		}
		return pad(s, width, left, zero)
	}
	if isInt && prec < 0 && n >= 0 && (verb == 'U' || verb == 'x' || verb == 'X') {
		digits, least := "0123456789ABCDEF", 1
		if verb == 'x' {
			digits = "0123456789abcdef"
		}
		if verb == 'U' {
			least = 4
		}
		s := ""
		for i := 0; i < least || n != 0; i++ {
			s = digits[n&15:n&15+1] + s
			n >>= 4
		}
		if verb == 'U' {
			s = "U+" + s
			zero = false
		}
		return pad(s, width, left, zero)
	}
	if f, ok := v.(float32); ok {
		if verb != 'v' || prec >= 0 || plus {
			unsupported("float32 verb")
		}
		return pad(strconv.FormatFloat(float64(f), 'g', -1, 32), width, left, zero)
	}
	if f, ok := v.(float64); ok {
		switch verb {
		case 'f', 'F', 'e', 'E':
			if prec < 0 {
				prec = 6
			}
			if verb == 'F' {
				verb = 'f'
			}
		case 'g', 'G':
		case 'v':
			verb = 'g'
			if prec < 0 {
				// %v uses %e for exponents below -4 and from 6
				if a := f; (a < 1e6 && a > -1e6) && (a == 0 || a >= 1e-4 || a <= -1e-4) {
					s := strconv.FormatFloat(f, 'f', -1, 64)
					if plus && s[0] != '-' {
						s = "+" + s
					}
					return pad(s, width, left, zero)
				}
			}
		default:
			unsupported("float verb")
		}
		s := strconv.FormatFloat(f, verb, prec, 64)
		if len(s) > 1 && (s[1] == 'I' || s[0] == 'N') {
			zero = false
			if s[0] == '+' && !plus {
				// fmt prints +Inf with its sign
			}
		}
		if plus && s[0] != '-' && s[0] != '+' {
			s = "+" + s
		}
		return pad(s, width, left, zero)
	}
	if ss, ok := v.([]string); ok && verb == 'v' {
		r := "["
		for i, s := range ss {
			if i > 0 {
				r += " "
			}
			r += s
		}
		return r + "]"
	}
	unsupported("fmt " + spec + " of " + typeName(v))
	return ""
}

func sprintf(format string, a []interface{}, loose bool) string {
	out := ""
	argn := 0
	i := 0
	for i < len(format) {
		j := i
		for j < len(format) && format[j] != '%' {
			j++
		}
		out += format[i:j]
		if j >= len(format) {
			break
		}
		i = j + 1
		left, zero, plus, sharp := false, false, false, false
	flags:
		for i < len(format) {
			switch format[i] {
			case '-':
				left = true
			case '0':
				zero = true
			case '+':
				plus = true
			case '#', ' ':
				sharp = true
			default:
				break flags
			}
			i++
		}
		width, prec := 0, -1
		for i < len(format) && format[i] >= '0' && format[i] <= '9' {
			width = width*10 + int(format[i]-'0')
			i++
		}
		if i < len(format) && format[i] == '.' {
			i++
			prec = 0
			if i < len(format) && format[i] == '-' {
				// fmt reports a bad precision; leave it to the caller
				unsupported("negative precision in a format string")
			}
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				prec = prec*10 + int(format[i]-'0')
				i++
			}
		}
		if i >= len(format) {
			out += "%!(NOVERB)"
			break
		}
		verb := format[i]
		i++
		if verb == '%' {
			out += "%"
			continue
		}
		if verb >= 0x80 {
			unsupported("non-ASCII verb")
		}
		if argn >= len(a) {
			out += "%!" + string([]byte{verb}) + "(BADINDEX)"
			continue
		}
		if sharp && !loose {
			unsupported("# flag")
		}
		v := a[argn]
		argn++
		out += one(verb, format[j:i], width, prec, left, zero, plus, v, loose)
	}
	if argn < len(a) {
		if loose {
			out += "%!(EXTRA)"
		} else {
			unsupported("extra operands")
		}
	}
	return out
}

func Sprintf(format string, a ...interface{}) string { return sprintf(format, a, false) }

func Sprint(a ...interface{}) string {
	out := ""
	prevString := false
	for i, v := range a {
		_, isStr := v.(string)
		if i > 0 && !isStr && !prevString {
			out += " "
		}
		out += one('v', "%v", 0, -1, false, false, false, v, false)
		prevString = isStr
	}
	return out
}

func Sprintln(a ...interface{}) string {
	out := ""
	for i, v := range a {
		if i > 0 {
			out += " "
		}
		out += one('v', "%v", 0, -1, false, false, false, v, false)
	}
	return out + "\n"
}

func Fprintf(w io.Writer, format string, a ...interface{}) (int, error) {
	return w.Write([]byte(sprintf(format, a, false)))
}
func Fprintln(w io.Writer, a ...interface{}) (int, error) { return w.Write([]byte(Sprintln(a...))) }

// the console is discarded unless a harness put a file in its place
func console() io.Writer {
	if os.Stdout == nil {
		return io.Discard
	}
	return os.Stdout
}
func Print(a ...interface{}) (int, error)                 { return Fprint(console(), a...) }
func Printf(format string, a ...interface{}) (int, error) { return Fprintf(console(), format, a...) }
func Println(a ...interface{}) (int, error)               { return Fprintln(console(), a...) }
func Fprint(w io.Writer, a ...interface{}) (int, error)   { return w.Write([]byte(Sprint(a...))) }

func ReadFull(r io.Reader, b []byte) error {
	_, err := io.ReadFull(r, b)
	return err
}
func WriteTo(w io.Writer, b []byte) error {
	_, err := w.Write(b)
	return err
}
func BinaryReadErr() error { return errors.New("binary: invalid type") }

func EOF() error       { return io.EOF }
func ErrClosed() error { return os.ErrClosed }
func NotExist(op, path string) error {
	return &fs.PathError{Op: op, Path: path, Err: fs.ErrNotExist}
}
func BadSeek(path string) error {
	return &fs.PathError{Op: "seek", Path: path, Err: fs.ErrInvalid}
}
func Closed(op, path string) error {
	return &fs.PathError{Op: op, Path: path, Err: fs.ErrClosed}
}

// FileInfo of a virtual file.
type FileInfo struct {
	N string
	S int64
}

func (f *FileInfo) Name() string       { return f.N }
func (f *FileInfo) Size() int64        { return f.S }
func (f *FileInfo) Mode() fs.FileMode  { return 0600 }
func (f *FileInfo) ModTime() time.Time { return time.Time{} }
func (f *FileInfo) IsDir() bool        { return false }
func (f *FileInfo) Sys() interface{}   { return nil }

func NewFileInfo(n string, s int64) fs.FileInfo { return &FileInfo{n, s} }

// ZipBody is an opened entry of a virtual package.
type ZipBody struct {
	Data   []byte
	Fault  int
	closed bool
	err    error
}

func (z *ZipBody) Read(b []byte) (int, error) {
	if z.err != nil {
		return 0, z.err
	}
	if len(z.Data) == 0 {
		switch z.Fault {
		case 2:
			z.err = io.ErrUnexpectedEOF
		case 3:
			z.err = errZipChecksum()
		default:
			z.err = io.EOF
		}
		return 0, z.err
	}
	n := copy(b, z.Data)
	z.Data = z.Data[n:]
	return n, nil
}

func (z *ZipBody) Close() error { z.closed = true; return nil }

func OpenZipBody(data []byte, fault int) (io.ReadCloser, error) {
	if fault == 1 {
		return nil, errZipAlgorithm()
	}
	return &ZipBody{Data: data, Fault: fault}, nil
}

// syncMaps are the contents of sync.Maps.
var syncMaps = make(map[*sync.Map]map[interface{}]interface{})

func syncMap(m *sync.Map) map[interface{}]interface{} {
	c, ok := syncMaps[m]
	if !ok {
		c = make(map[interface{}]interface{})
		syncMaps[m] = c
	}
	return c
}

func MapLoad(m *sync.Map, key interface{}) (interface{}, bool) {
	v, ok := syncMap(m)[key]
	return v, ok
}

func MapStore(m *sync.Map, key, value interface{}) { syncMap(m)[key] = value }

func MapLoadOrStore(m *sync.Map, key, value interface{}) (interface{}, bool) {
	c := syncMap(m)
	if v, ok := c[key]; ok {
		return v, true
	}
	c[key] = value
	return value, false
}

func MapLoadAndDelete(m *sync.Map, key interface{}) (interface{}, bool) {
	c := syncMap(m)
	v, ok := c[key]
	delete(c, key)
	return v, ok
}

func MapDelete(m *sync.Map, key interface{}) { delete(syncMap(m), key) }

func MapSwap(m *sync.Map, key, value interface{}) (interface{}, bool) {
	c := syncMap(m)
	v, ok := c[key]
	c[key] = value
	return v, ok
}

func MapCompareAndSwap(m *sync.Map, key, old, value interface{}) bool {
	c := syncMap(m)
	if v, ok := c[key]; !ok || v != old {
		return false
	}
	c[key] = value
	return true
}

func MapCompareAndDelete(m *sync.Map, key, old interface{}) bool {
	c := syncMap(m)
	if v, ok := c[key]; !ok || v != old {
		return false
	}
	delete(c, key)
	return true
}

func MapRange(m *sync.Map, f func(key, value interface{}) bool) {
	for k, v := range syncMap(m) {
		if !f(k, v) {
			break
		}
	}
}

func MapClear(m *sync.Map) { delete(syncMaps, m) }

// LogArgs runs the String methods of what is logged.
func LogArgs(args []interface{}) {
	for _, a := range args {
		if s, ok := a.(interface{ String() string }); ok {
			s.String()
		}
	}
}
