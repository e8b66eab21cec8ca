// Package sym is the interface between harnesses and the engine. The engine
// intercepts these functions; the bodies here are used when a harness is
// compiled natively to replay a model.
package sym

import (
	"runtime"
	"sync"
	"time"
)

// State of a native run.
var (
	inputs   []int64
	pos      int
	thorough bool
	obs      []int64
	outcome  string
	message  string
	frozen   bool
	ended    chan struct{}
	mu       sync.Mutex
)

// Begin prepares a native run with the given input values.
func Begin(in []int64, th bool) {
	mu.Lock()
	defer mu.Unlock()
	inputs, pos, thorough, obs, outcome, message, frozen = in, 0, th, nil, "", "", false
	ended = make(chan struct{})
}

// Ended is closed when an assertion or assumption of any goroutine has failed.
func Ended() chan struct{} { return ended }

// Result returns the outcome of a native run.
func Result() (string, string, []int64) {
	mu.Lock()
	defer mu.Unlock()
	return outcome, message, obs
}

func next() int64 {
	if pos >= len(inputs) {
		end("inputs", "the run asked for more inputs than the model has")
	}
	pos++
	return inputs[pos-1]
}

func end(o, m string) {
	mu.Lock()
	if outcome == "" {
		outcome, message = o, m
		close(ended)
	}
	mu.Unlock()
	runtime.Goexit()
}

func Int() int       { return int(next()) }
func Int8() int8     { return int8(next()) }
func Int16() int16   { return int16(next()) }
func Int32() int32   { return int32(next()) }
func Int64() int64   { return next() }
func Uint() uint     { return uint(next()) }
func Uint8() uint8   { return uint8(next()) }
func Uint16() uint16 { return uint16(next()) }
func Uint32() uint32 { return uint32(next()) }
func Uint64() uint64 { return uint64(next()) }
func Byte() byte     { return byte(next()) }
func Bool() bool     { return next() == 1 }

// Range is a symbolic integer in [lo, hi].
func Range(lo, hi int) int { return int(next()) }

// Fix makes the path enumerate the feasible values of x.
func Fix(x int) int { return x }

// Choose is a case split over [0, n).
func Choose(n int) int { return Fix(Range(0, n-1)) }

// Bytes is a slice of n symbolic bytes.
func Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte()
	}
	return b
}

// IsSym reports whether x is symbolic (never natively).
func IsSym(x int) bool { return false }

// Assume restricts the inputs considered.
func Assume(c bool) {
	if !c {
		end("assume", "")
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		end("assert", msg)
	}
}

// Fail is Assert(false, msg).
func Fail(msg string) { Assert(false, msg) }

// Observe records a value compared between the engine and the native run.
func Observe(x int) { obs = append(obs, int64(x)) }

// ObserveBool records a truth value.
func ObserveBool(b bool) { Observe(Ite(b, 1, 0)) }

// Reach marks a situation the harness is meant to reach.
func Reach(label string) {}

// Bound declares a bound of the harness, by tier.
func Bound(name string, quick, th int) int {
	if thorough {
		return th
	}
	return quick
}

// Still makes random draws yield 0, until it is called with false.
func Still(on bool) {}

// Thorough reports the tier.
func Thorough() bool { return thorough }

// And, Or, Implies and Ite do not split the path.
func And(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}

func Or(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}

func Implies(a, b bool) bool { return !a || b }

func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// EqBytes and LessBytes compare without splitting the path.
func EqBytes(a, b []byte) bool { return string(a) == string(b) }

func LessBytes(a, b []byte) bool { return string(a) < string(b) }

// Event is a visible point of a concurrent harness.
func Event() {}

// Idle returns when no other goroutine can go on.
func Idle() { time.Sleep(5 * time.Millisecond) }

// Panics reports whether f panics.
func Panics(f func()) (p bool) {
	done := false
	defer func() {
		if !done {
			if r := recover(); r != nil {
				p = true
			}
		}
	}()
	f()
	done = true
	return false
}
