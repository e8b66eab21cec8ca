// Package sched makes a native run follow a schedule found by the engine. The
// engine compiles a copy of the code in which every synchronisation operation
// is preceded by Point; a goroutine passes its Point when the schedule says it
// is its turn. The bookkeeping uses plain memory in functions the race detector
// does not look at, so that it adds no ordering the program does not have.
package sched

import (
	"runtime"
	"sync"
	"time"
)

const maxThreads = 64

var (
	order    []int
	pos      int
	on       bool // a schedule was given
	active   bool // the first goroutine was started
	free     bool // the schedule is used up
	diverged bool
	threads  int
	goids    [maxThreads]int64
	running  [maxThreads]bool
	rnd      [maxThreads][]int64
	progress int64
)

// blocked is how long a goroutine may be off its next Point before the others
// go on without it: it waits for one of them.
const blocked = int64(8 * time.Millisecond)

// Begin is called by the goroutine that runs the harness.
//
//go:norace
func Begin(o []int, r [][]int64) {
	order, pos, on, active, free, diverged, threads = o, 0, len(o) > 0 || len(r) > 0, false, false, false, 1
	goids = [maxThreads]int64{}
	goids[0] = goid()
	running = [maxThreads]bool{0: true}
	rnd = [maxThreads][]int64{}
	for i := range r {
		if i < maxThreads {
			rnd[i] = r[i]
		}
	}
	conds = map[*sync.Cond]*cond{}
}

// Followed reports whether the run kept to the schedule.
//
//go:norace
func Followed() bool { return !diverged && pos >= len(order) }

//go:norace
func goid() int64 {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	id := int64(0)
	for i := len("goroutine "); i < n && b[i] >= '0' && b[i] <= '9'; i++ {
		id = id*10 + int64(b[i]-'0')
	}
	return id
}

//go:norace
func tid() int {
	g := goid()
	for i := 0; i < threads && i < maxThreads; i++ {
		if goids[i] == g {
			return i
		}
	}
	return -1
}

//go:norace
func alone(t int) bool {
	for i := 0; i < threads; i++ {
		if i != t && running[i] {
			return false
		}
	}
	return true
}

// Point is called before a synchronisation operation.
//
//go:norace
//go:noinline
func Point() {
	if !active || free {
		return
	}
	t := tid()
	if t < 0 {
		return
	}
	running[t] = false
	for !free {
		now := time.Now().UnixNano()
		late := now-progress > blocked
		if pos >= len(order) {
			if alone(t) || late {
				free = true
			}
		} else if order[pos] == t && (alone(t) || late) {
			pos++
			running[t] = true
			progress = now
			return
		} else if now-progress > 200*blocked {
			diverged = true
			free = true
		}
		runtime.Gosched()
	}
	running[t] = true
}

//go:norace
//go:noinline
func started() int {
	if !on {
		return -1
	}
	if !active {
		active = true
		progress = time.Now().UnixNano()
	}
	t := threads
	if t >= maxThreads {
		free = true
		return -1
	}
	running[t] = true
	threads++
	return t
}

//go:norace
//go:noinline
func enter(t int) {
	if t >= 0 {
		goids[t] = goid()
	}
}

//go:norace
//go:noinline
func leave(t int) {
	if t >= 0 {
		goids[t] = 0
		running[t] = false
	}
}

// Go is the go statement.
func Go(f func()) {
	t := started()
	go func() {
		enter(t)
		defer leave(t)
		f()
	}()
}

func Go1[A any](f func(A), a A)            { Go(func() { f(a) }) }
func Go2[A, B any](f func(A, B), a A, b B) { Go(func() { f(a, b) }) }

// Here is Point in an expression, evaluated before the operand of Val.
func Here() struct{} { Point(); return struct{}{} }

// Val is its second argument.
func Val[T any](_ struct{}, v T) T { return v }

// D is a deferred operation.
func D(f func()) { Point(); f() }

// RWLock is (*sync.RWMutex).Lock: the writer announces itself, then it waits
// for the readers.
func RWLock(m *sync.RWMutex) {
	Point()
	m.Lock()
	Point()
}

type cond struct {
	waiters, woken int
}

var (
	condMu sync.Mutex
	conds  map[*sync.Cond]*cond
)

func condOf(c *sync.Cond) *cond {
	d := conds[c]
	if d == nil {
		d = &cond{}
		conds[c] = d
	}
	return d
}

// CondWait is (*sync.Cond).Wait.
func CondWait(c *sync.Cond) {
	Point()
	condMu.Lock()
	d := condOf(c)
	d.waiters++
	ticket := d.waiters
	condMu.Unlock()
	Point()
	c.L.Unlock()
	Point()
	for {
		condMu.Lock()
		ok := d.woken >= ticket
		condMu.Unlock()
		if ok {
			break
		}
		time.Sleep(20 * time.Microsecond)
	}
	Point()
	c.L.Lock()
}

func Broadcast(c *sync.Cond) {
	Point()
	condMu.Lock()
	d := condOf(c)
	d.woken = d.waiters
	condMu.Unlock()
}

func Signal(c *sync.Cond) {
	Point()
	condMu.Lock()
	d := condOf(c)
	if d.woken < d.waiters {
		d.woken++
	}
	condMu.Unlock()
}

//go:norace
//go:noinline
func nextRand() (int64, bool) {
	if !on {
		return 0, false
	}
	t := tid()
	if t < 0 || len(rnd[t]) == 0 {
		return 0, false
	}
	v := rnd[t][0]
	rnd[t] = rnd[t][1:]
	return v, true
}

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64
}

// Rand replaces the result of a draw by the one of the model.
func Rand[T integer](v T) T {
	if x, ok := nextRand(); ok {
		return T(x)
	}
	return v
}
