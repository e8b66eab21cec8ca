// Package rt holds models of library functions, run by the engine in place of
// the originals.
package rt

import (
	"io"
	"sync"
	"sync/atomic"
	"time"
)

func isSym(x int) bool                   { return false }
func typeName(x any) string              { return "" }
func intOf(x any) (int64, bool, bool)    { return 0, false, false }
func strOf(x any) (string, bool)         { return "", false }
func ptrNil(x any) bool                  { return false }
func rwAnnounce(m *sync.RWMutex)         {}
func rwAcquire(m *sync.RWMutex)          {}
func condRegister(c *sync.Cond) int      { return 0 }
func condAwait(c *sync.Cond, ticket int) {}

type stringer interface{ String() string }

type wrapped struct {
	msg string
	err error
}

func (w *wrapped) Error() string { return w.msg }
func (w *wrapped) Unwrap() error { return w.err }

type plain struct{ msg string }

func (p *plain) Error() string { return p.msg }

func Errorf(format string, args ...any) error {
	s := Sprintf(format, args...)
	for i := 0; i+1 < len(format); i++ {
		if format[i] == '%' && format[i+1] == 'w' {
			for _, a := range args {
				if e, ok := a.(error); ok {
					return &wrapped{s, e}
				}
			}
		}
	}
	return &plain{s}
}

func utoa(u uint64, base uint64) string {
	if u == 0 {
		return "0"
	}
	var b [64]byte
	i := len(b)
	for u > 0 {
		i--
		b[i] = "0123456789abcdef"[u%base]
		u /= base
	}
	return string(b[i:])
}

func fmtInt(v int64, signed bool, base uint64) string {
	if isSym(int(v)) {
		return "<sym>"
	}
	if signed && v < 0 {
		return "-" + utoa(uint64(-v), base)
	}
	return utoa(uint64(v), base)
}

func value(a any, verb byte) string {
	if a == nil {
		return "<nil>"
	}
	if verb == 'T' {
		return typeName(a)
	}
	if verb == 'v' || verb == 's' || verb == 'w' || verb == 'q' {
		if ptrNil(a) {
			return "<nil>"
		}
		switch x := a.(type) {
		case error:
			return x.Error()
		case stringer:
			return x.String()
		}
	}
	if verb == 'p' {
		return "0x0"
	}
	if s, ok := strOf(a); ok {
		if verb == 'q' {
			return "\"" + s + "\""
		}
		return s
	}
	switch x := a.(type) {
	case []byte:
		if verb == 's' {
			return string(x)
		}
		if verb == 'x' {
			s := ""
			for _, c := range x {
				s += "0123456789abcdef"[c>>4:c>>4+1] + "0123456789abcdef"[c&15:c&15+1]
			}
			return s
		}
		s := "["
		for i, c := range x {
			if i > 0 {
				s += " "
			}
			s += fmtInt(int64(c), false, 10)
		}
		return s + "]"
	case bool:
		if x {
			return "true"
		}
		return "false"
	case []string:
		s := "["
		for i, c := range x {
			if i > 0 {
				s += " "
			}
			s += c
		}
		return s + "]"
	}
	if v, signed, ok := intOf(a); ok {
		if verb == 'x' {
			return fmtInt(v, signed, 16)
		}
		return fmtInt(v, signed, 10)
	}
	return "<" + typeName(a) + ">"
}

func Sprintf(format string, args ...any) string {
	s := ""
	k := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			j := i
			for j < len(format) && format[j] != '%' {
				j++
			}
			s += format[i:j]
			i = j - 1
			continue
		}
		i++
		left, zero, plus, width := false, false, false, 0
		for i < len(format) && (format[i] == '+' || format[i] == '-' || format[i] == '#' || format[i] == ' ' || format[i] == '.' || format[i] >= '0' && format[i] <= '9') {
			switch c := format[i]; {
			case c == '-':
				left = true
			case c == '+':
				plus = true
			case c == '0' && width == 0:
				zero = true
			case c == '.':
				for i+1 < len(format) && format[i+1] >= '0' && format[i+1] <= '9' {
					i++
				}
			case c >= '0' && c <= '9':
				width = width*10 + int(c-'0')
			}
			i++
		}
		if i >= len(format) {
			return s + "%!(NOVERB)"
		}
		if format[i] == '%' {
			s += "%"
			continue
		}
		if k >= len(args) {
			s += "%!" + string(format[i:i+1]) + "(MISSING)"
			continue
		}
		t := value(args[k], format[i])
		if v, signed, ok := intOf(args[k]); plus && format[i] == 'd' && ok && signed && !isSym(int(v)) && v >= 0 {
			t = "+" + t
		}
		for n := len(t); n < width; n++ {
			switch {
			case left:
				t += " "
			case zero && t != "" && (t[0] == '-' || t[0] == '+'):
				t = t[:1] + "0" + t[1:]
			case zero:
				t = "0" + t
			default:
				t = " " + t
			}
		}
		s += t
		k++
	}
	return s
}

func Sprint(args ...any) string {
	s := ""
	for i, a := range args {
		if i > 0 {
			_, p := strOf(args[i-1])
			_, q := strOf(a)
			if !p && !q {
				s += " "
			}
		}
		s += value(a, 'v')
	}
	return s
}

func Sprintln(args ...any) string {
	s := ""
	for i, a := range args {
		if i > 0 {
			s += " "
		}
		s += value(a, 'v')
	}
	return s + "\n"
}

func Printf(format string, args ...any) (int, error) { return 0, nil }
func Println(args ...any) (int, error)               { return 0, nil }
func Print(args ...any) (int, error)                 { return 0, nil }

// put writes s; what goes to a file is dropped.
func put(w io.Writer, s string) (int, error) {
	if _, ok := w.(interface{ Fd() uintptr }); ok {
		return len(s), nil
	}
	return w.Write([]byte(s))
}

func Fprintf(w io.Writer, format string, args ...any) (int, error) {
	return put(w, Sprintf(format, args...))
}
func Fprintln(w io.Writer, args ...any) (int, error) { return put(w, Sprintln(args...)) }
func Fprint(w io.Writer, args ...any) (int, error)   { return put(w, Sprint(args...)) }

func asTarget(err error, target any) bool { return false }

func ErrorsAs(err error, target any) bool {
	if err == nil {
		return false
	}
	if asTarget(err, target) {
		return true
	}
	if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
		return true
	}
	switch x := err.(type) {
	case interface{ Unwrap() error }:
		return ErrorsAs(x.Unwrap(), target)
	case interface{ Unwrap() []error }:
		for _, e := range x.Unwrap() {
			if ErrorsAs(e, target) {
				return true
			}
		}
	}
	return false
}

// sync.Map: a plain map per value, each operation under one lock.
var (
	mapsMu sync.Mutex
	maps   map[*sync.Map]map[any]any
)

func makeMap(m *sync.Map) {
	if maps == nil {
		maps = map[*sync.Map]map[any]any{}
	}
	if maps[m] == nil {
		maps[m] = map[any]any{}
	}
}

func MapLoad(m *sync.Map, k any) (any, bool) {
	mapsMu.Lock()
	defer mapsMu.Unlock()
	v, ok := maps[m][k]
	return v, ok
}

func MapSwap(m *sync.Map, k, v any) (any, bool) {
	mapsMu.Lock()
	defer mapsMu.Unlock()
	makeMap(m)
	old, ok := maps[m][k]
	maps[m][k] = v
	return old, ok
}

func MapStore(m *sync.Map, k, v any) { MapSwap(m, k, v) }

func MapLoadOrStore(m *sync.Map, k, v any) (any, bool) {
	mapsMu.Lock()
	defer mapsMu.Unlock()
	if old, ok := maps[m][k]; ok {
		return old, true
	}
	makeMap(m)
	maps[m][k] = v
	return v, false
}

func MapLoadAndDelete(m *sync.Map, k any) (any, bool) {
	mapsMu.Lock()
	defer mapsMu.Unlock()
	v, ok := maps[m][k]
	delete(maps[m], k)
	return v, ok
}

func MapDelete(m *sync.Map, k any) { MapLoadAndDelete(m, k) }

func MapClear(m *sync.Map) {
	mapsMu.Lock()
	defer mapsMu.Unlock()
	delete(maps, m)
}

func MapRange(m *sync.Map, f func(k, v any) bool) {
	mapsMu.Lock()
	var keys []any
	for k := range maps[m] {
		keys = append(keys, k)
	}
	mapsMu.Unlock()
	for _, k := range keys {
		if v, ok := MapLoad(m, k); ok && !f(k, v) {
			return
		}
	}
}

func LogPanic(args ...any)                 { panic(Sprint(args...)) }
func LogPanicf(format string, args ...any) { panic(Sprintf(format, args...)) }

// CondWait is (*sync.Cond).Wait as two visible steps.
func CondWait(c *sync.Cond) {
	t := condRegister(c)
	c.L.Unlock()
	condAwait(c, t)
	c.L.Lock()
}

// RWLock is (*sync.RWMutex).Lock: the writer announces itself, which keeps new
// readers out, and then waits for the readers there are.
func RWLock(m *sync.RWMutex) {
	rwAnnounce(m)
	rwAcquire(m)
}

func PoolGet(p *sync.Pool) any {
	if p.New != nil {
		return p.New()
	}
	return nil
}

func PoolPut(p *sync.Pool, x any) {}

func MakeNoZero(n int) []byte { return make([]byte, n) }

// atomic.Value, likewise.
var vals map[*atomic.Value]any

func ValueLoad(v *atomic.Value) any {
	mapsMu.Lock()
	defer mapsMu.Unlock()
	return vals[v]
}

func ValueSwap(v *atomic.Value, x any) any {
	if x == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	mapsMu.Lock()
	defer mapsMu.Unlock()
	if vals == nil {
		vals = map[*atomic.Value]any{}
	}
	old := vals[v]
	if old != nil && typeName(old) != typeName(x) {
		panic("sync/atomic: store of inconsistently typed value into Value")
	}
	vals[v] = x
	return old
}

func ValueStore(v *atomic.Value, x any) { ValueSwap(v, x) }

func ValueCAS(v *atomic.Value, old, x any) bool {
	mapsMu.Lock()
	defer mapsMu.Unlock()
	if vals[v] != old {
		return false
	}
	if vals == nil {
		vals = map[*atomic.Value]any{}
	}
	vals[v] = x
	return true
}

// After is a timer that may fire at any moment.
func After(d time.Duration) <-chan time.Time {
	c := make(chan time.Time, 1)
	go func() { c <- time.Time{} }()
	return c
}
