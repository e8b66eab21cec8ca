package main

import (
	"cmp"
	"encoding/binary"
	"fmt"
	"go/types"
	"slices"
	"sync"
	"sync/atomic"
	"time"
)

// rtPanic is a panic of the interpreted program raised inside a handler.
type rtPanic struct{ v Value }

// pathKill ends the path silently (infeasible assumption).
type pathKill struct{}

// pathDone ends a path whose outcome has already been recorded.
type pathDone struct{}

type Worker struct {
	id    int
	e     *Engine
	s     *Solver
	ev    evaluator
	mu    sync.Mutex
	queue []*State
	depth int

	need      map[uint32]bool
	taken     []bool
	cacheHits int
}

// Engine explores the states of one harness at a time with several workers.
type Engine struct {
	p       *Program
	workers []*Worker
	live    int64 // states queued or running
	stop    int32
	wake    chan struct{}
	rtErr   *TypeInfo
	queries [queryShards]queryShard
}

// HarnessRun collects what happened while exploring one harness.
type HarnessRun struct {
	name     string
	fi       *FnInfo
	opt      HarnessOpt
	mu       sync.Mutex
	paths    int64
	states   int64
	killed   int64
	steps    int64
	branches int64
	asserts  int64
	proved   int64
	unknown  int64
	dropped  int64
	obligs   int64
	inconcl  map[string]int
	cands    []*Candidate
	samples  []*Sample
	reach    map[string]int64
	bounds   map[string]int
	fns      map[string]bool
	deadline time.Time
	timedOut bool
	maxDepth int
	wall     time.Duration
	scheds   int64
	lost     int64
	seenCand map[string]bool
	inconclM []*Sample
}

type HarnessOpt struct {
	maxSteps int64
	thorough bool
}

// Candidate is a potential violation with a concrete assignment.
type Candidate struct {
	Harness string   `json:"harness"`
	Kind    string   `json:"kind"`
	Msg     string   `json:"msg"`
	Inputs  []InVal  `json:"inputs"`
	Sched   []int    `json:"sched,omitempty"`
	Trace   []string `json:"trace,omitempty"`
}

type InVal struct {
	Kind string `json:"kind"`
	Name string `json:"name"`
	Val  int64  `json:"val"`
	Tid  int    `json:"tid,omitempty"`
}

// Sample is a completed path with the values the engine computed for Observe.
type Sample struct {
	Harness string  `json:"harness"`
	Inputs  []InVal `json:"inputs"`
	Obs     []int64 `json:"obs"`
	Why     string  `json:"why,omitempty"`
	Sched   []int   `json:"sched,omitempty"`
}

func (w *Worker) push(st *State) {
	atomic.AddInt64(&w.e.live, 1)
	atomic.AddInt64(&st.h.states, 1)
	w.mu.Lock()
	w.queue = append(w.queue, st)
	w.mu.Unlock()
}

func (w *Worker) pop() *State {
	w.mu.Lock()
	defer w.mu.Unlock()
	if n := len(w.queue); n > 0 {
		st := w.queue[n-1]
		w.queue = w.queue[:n-1]
		return st
	}
	return nil
}

func (w *Worker) steal() *State {
	for i := 1; i < len(w.e.workers); i++ {
		v := w.e.workers[(w.id+i)%len(w.e.workers)]
		v.mu.Lock()
		if len(v.queue) > 0 {
			st := v.queue[0]
			v.queue = v.queue[1:]
			v.mu.Unlock()
			return st
		}
		v.mu.Unlock()
	}
	return nil
}

func (w *Worker) loop() {
	for {
		if atomic.LoadInt32(&w.e.stop) != 0 {
			return
		}
		st := w.pop()
		if st == nil {
			st = w.steal()
		}
		if st == nil {
			if atomic.LoadInt64(&w.e.live) == 0 {
				return
			}
			time.Sleep(50 * time.Microsecond)
			continue
		}
		w.runState(st)
		atomic.AddInt64(&w.e.live, -1)
	}
}

func (w *Worker) runState(st *State) {
	for {
		if w.runSome(st) {
			atomic.AddInt64(&st.h.steps, st.steps)
			return
		}
	}
}

// runSome executes instructions until the path ends (true) or a program panic
// raised inside a handler has been turned into unwinding (false).
func (w *Worker) runSome(st *State) (done bool) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch x := r.(type) {
		case rtPanic:
			w.startPanic(st, x.v)
			done = false
		case pathKill:
			atomic.AddInt64(&st.h.killed, 1)
			done = true
		case pathDone:
			done = true
		case engineError:
			w.inconclusive(st, x.msg)
			done = true
		default:
			if debugPanics {
				panic(r)
			}
			w.inconclusive(st, fmt.Sprintf("engine panic: %v at %s", r, w.where(st)))
			done = true
		}
	}()
	for {
		fr := st.top()
		if fr.unwinding {
			if w.stepUnwind(st, fr) {
				return true
			}
			continue
		}
		ci := &fr.fn.blocks[fr.block].ins[fr.pc]
		st.steps++
		if st.steps&1023 == 0 {
			if w.limits(st) {
				return true
			}
		}
		switch ci.h(w, st, fr, ci) {
		case cNext:
			fr.pc++
		case cJump:
		case cEnd:
			return true
		}
	}
}

func (w *Worker) limits(st *State) bool {
	if atomic.LoadInt32(&w.e.stop) != 0 {
		atomic.AddInt64(&st.h.lost, 1)
		return true
	}
	if st.steps > st.h.opt.maxSteps {
		w.candidate(st, st.model, "steps", fmt.Sprintf("no termination within %d instructions at %s", st.h.opt.maxSteps, w.where(st)))
		w.endStats(st)
		return true
	}
	if st.steps&0xffff == 0 && time.Now().After(st.h.deadline) {
		st.h.mu.Lock()
		st.h.timedOut = true
		st.h.mu.Unlock()
		atomic.StoreInt32(&w.e.stop, 1)
		atomic.AddInt64(&st.h.lost, 1)
		return true
	}
	return false
}

func (w *Worker) where(st *State) string {
	th := st.threads[st.cur]
	s := ""
	for i := len(th.stack) - 1; i >= 0 && i > len(th.stack)-6; i-- {
		f := th.stack[i]
		pos := ""
		if f.block < len(f.fn.blocks) && f.pc < len(f.fn.blocks[f.block].ins) {
			p := f.fn.blocks[f.block].ins[f.pc].in.Pos()
			if p.IsValid() {
				pp := w.e.p.prog.Fset.Position(p)
				pos = fmt.Sprintf(":%d", pp.Line)
			}
		}
		if s != "" {
			s += " < "
		}
		s += f.fn.name + pos
	}
	return s
}

func (w *Worker) inconclusive(st *State, msg string) {
	key := msg + " at " + w.where(st)
	st.h.mu.Lock()
	st.h.inconcl[key]++
	if len(st.h.inconclM) < 200 {
		st.h.inconclM = append(st.h.inconclM, &Sample{Harness: st.h.name, Inputs: w.inputVals(st, st.model), Why: key})
	}
	st.h.mu.Unlock()
}

func (w *Worker) endStats(st *State) {
	st.h.mu.Lock()
	defer st.h.mu.Unlock()
	st.h.paths++
	for _, r := range st.reach {
		st.h.reach[r]++
	}
	if st.pcn != nil && st.pcn.depth > st.h.maxDepth {
		st.h.maxDepth = st.pcn.depth
	}
}

func (w *Worker) inputVals(st *State, m *Model) []InVal {
	var out []InVal
	for _, in := range st.inputList() {
		var u uint64
		if t, ok := in.v.sym(); ok {
			u = w.ev.eval(m, t)
		} else {
			u = in.v.n
		}
		v := int64(u)
		if in.w > 0 && in.w < 64 {
			v = int64(u & mask(in.w))
		}
		out = append(out, InVal{in.kind, in.name, v, in.tid})
	}
	return out
}

func (w *Worker) candidate(st *State, m *Model, kind, msg string) {
	c := &Candidate{Harness: st.h.name, Kind: kind, Msg: msg, Inputs: w.inputVals(st, m), Sched: append([]int(nil), st.sched...)}
	st.h.mu.Lock()
	defer st.h.mu.Unlock()
	key := kind + msg
	if st.h.seenCand[key] && len(st.h.cands) >= 8 {
		return
	}
	st.h.seenCand[key] = true
	if len(st.h.cands) < 64 {
		st.h.cands = append(st.h.cands, c)
	}
	if len(st.h.cands) >= maxCands {
		atomic.StoreInt32(&w.e.stop, 1)
	}
}

const maxCands = 12

// finish records a completed path.
func (w *Worker) finish(st *State) {
	w.endStats(st)
	h := st.h
	h.mu.Lock()
	n := h.paths
	take := n <= 4 || (n&(n-1)) == 0 || n%997 == 0
	h.mu.Unlock()
	if !take {
		return
	}
	s := &Sample{Harness: h.name, Inputs: w.inputVals(st, st.model), Sched: append([]int(nil), st.sched...)}
	for o := st.obs; o != nil; o = o.parent {
		var u uint64
		if t, ok := o.v.sym(); ok {
			u = w.ev.eval(st.model, t)
		} else {
			u = o.v.n
		}
		s.Obs = append(s.Obs, sext(u, o.w))
	}
	for i, j := 0, len(s.Obs)-1; i < j; i, j = i+1, j-1 {
		s.Obs[i], s.Obs[j] = s.Obs[j], s.Obs[i]
	}
	h.mu.Lock()
	if len(h.samples) < 64 {
		h.samples = append(h.samples, s)
	}
	h.mu.Unlock()
}

// check asks whether cond is satisfiable on the path of st. Only the literals
// that share variables with cond, directly or through others, are sent: the
// rest is satisfiable on its own by the model of the state. Queries that are
// the same up to order are asked once.
func (w *Worker) check(st *State, cond *Term) (satResult, *Model) {
	lits, vars := w.slice(st, cond)
	key := make([]byte, 0, 4*len(lits)+4)
	for _, l := range lits {
		key = binary.LittleEndian.AppendUint32(key, l.id)
	}
	key = binary.LittleEndian.AppendUint32(key, cond.id)
	sh := &w.e.queries[cond.id%queryShards]
	sh.Lock()
	c, ok := sh.m[string(key)]
	sh.Unlock()
	if ok {
		w.cacheHits++
	} else {
		res, m := w.s.check(lits, cond, vars)
		c = answer{res, nil}
		if m != nil {
			c.vals = make([]uint64, len(vars))
			for i, v := range vars {
				c.vals[i] = m.vals[v.val]
			}
		}
		if res != rUnknown {
			sh.Lock()
			if len(sh.m) < 1<<21/queryShards {
				sh.m[string(key)] = c
			}
			sh.Unlock()
		}
	}
	if c.res != rSat {
		return c.res, nil
	}
	m := &Model{vals: make(map[uint64]uint64, len(st.vars))}
	if st.model != nil {
		for k, v := range st.model.vals {
			m.vals[k] = v
		}
	}
	for i, v := range vars {
		m.vals[v.val] = c.vals[i]
	}
	return rSat, m
}

const queryShards = 64

type answer struct {
	res  satResult
	vals []uint64
}

type queryShard struct {
	sync.Mutex
	m map[string]answer
}

// slice returns the literals of the path connected to cond, in a canonical
// order, and the variables they mention.
func (w *Worker) slice(st *State, cond *Term) (lits, vars []*Term) {
	pc := st.pcLits()
	if w.need == nil {
		w.need = map[uint32]bool{}
	}
	clear(w.need)
	for _, v := range cond.vars {
		w.need[v] = true
	}
	w.taken = append(w.taken[:0], make([]bool, len(pc))...)
	for changed := true; changed; {
		changed = false
		for i, l := range pc {
			if w.taken[i] {
				continue
			}
			hit := false
			for _, v := range l.vars {
				if w.need[v] {
					hit = true
					break
				}
			}
			if !hit {
				continue
			}
			w.taken[i] = true
			lits = append(lits, l)
			for _, v := range l.vars {
				if !w.need[v] {
					w.need[v] = true
					changed = true
				}
			}
		}
	}
	slices.SortFunc(lits, func(a, b *Term) int { return cmp.Compare(a.id, b.id) })
	lits = slices.Compact(lits)
	for _, v := range st.vars {
		if w.need[uint32(v.val)] {
			vars = append(vars, v)
		}
	}
	slices.SortFunc(vars, func(a, b *Term) int { return cmp.Compare(a.id, b.id) })
	return lits, vars
}

// decide returns the truth of cond on the current path, forking the state when
// both outcomes are feasible. The handler must not have changed the state.
func (w *Worker) decide(st *State, cond *Term) bool {
	if cond.isConst() {
		return cond.val == 1
	}
	if v, ok := st.lookup(cond); ok {
		return v
	}
	atomic.AddInt64(&st.h.branches, 1)
	mv := w.ev.eval(st.model, cond) == 1
	other := cond
	mine := mkNot(cond)
	if mv {
		other, mine = mine, cond
	}
	res, m := w.check(st, other)
	switch res {
	case rUnsat:
		st.learn(cond, mv)
		return mv
	case rUnknown:
		atomic.AddInt64(&st.h.unknown, 1)
		st.addPC(mine)
		return mv
	}
	n := st.clone()
	n.addPC(other)
	n.model = m
	w.push(n)
	st.addPC(mine)
	return mv
}

// assume adds cond to the path or kills the path.
func (w *Worker) assume(st *State, cond *Term) {
	if cond.isConst() {
		if cond.val == 0 {
			panic(pathKill{})
		}
		return
	}
	if v, ok := st.lookup(cond); ok {
		if !v {
			panic(pathKill{})
		}
		return
	}
	if w.ev.eval(st.model, cond) == 1 {
		st.addPC(cond)
		return
	}
	res, m := w.check(st, cond)
	switch res {
	case rSat:
		st.addPC(cond)
		st.model = m
	case rUnsat:
		panic(pathKill{})
	default:
		atomic.AddInt64(&st.h.unknown, 1)
		panic(pathKill{})
	}
}

// assert checks that cond holds on every value of the path.
func (w *Worker) assert(st *State, cond *Term, msg string) {
	atomic.AddInt64(&st.h.asserts, 1)
	if cond == tTrue {
		atomic.AddInt64(&st.h.proved, 1)
		return
	}
	if v, ok := st.lookup(cond); ok && v {
		atomic.AddInt64(&st.h.proved, 1)
		return
	}
	neg := mkNot(cond)
	if !neg.isConst() {
		atomic.AddInt64(&st.h.obligs, 1)
		var m *Model
		if w.ev.eval(st.model, neg) == 1 {
			m = st.model
		} else {
			var res satResult
			res, m = w.check(st, neg)
			switch res {
			case rUnsat:
				atomic.AddInt64(&st.h.proved, 1)
				st.learn(cond, true)
				return
			case rUnknown:
				atomic.AddInt64(&st.h.unknown, 1)
				w.assume(st, cond)
				return
			}
		}
		w.candidate(st, m, "assert", msg)
		w.assume(st, cond)
		return
	}
	w.candidate(st, st.model, "assert", msg)
	w.endStats(st)
	panic(pathDone{})
}

// concretize forks the state over the feasible values of v.
func (w *Worker) concretize(st *State, v Value, width uint8) uint64 {
	t, ok := v.sym()
	if !ok {
		return v.n
	}
	for i := 0; ; i++ {
		// On re-execution the value may already be fixed by the path.
		mv := w.ev.eval(st.model, t)
		if w.decide(st, mkEq(t, tConst(mv, t.w))) {
			return mv
		}
		if i > 4096 {
			panic(unsupported("concretize: too many values"))
		}
	}
}

func (w *Worker) rtError(msg string) Value {
	return Value{p: &Iface{t: w.e.rtErr, v: strVal(msg)}}
}

func (w *Worker) throw(msg string) {
	panic(rtPanic{w.rtError(msg)})
}

func (w *Worker) startPanic(st *State, v Value) {
	fr := st.top()
	fr.panicking = true
	fr.unwinding = true
	fr.panicVal = v
	st.panicAt = w.where(st)
}

// stepUnwind performs one step of running deferred calls of a panicking (or
// just recovered) frame. It returns true when the path ended.
func (w *Worker) stepUnwind(st *State, fr *Frame) bool {
	if d := fr.defers; d != nil {
		w.runDeferred(st, fr, d)
		return false
	}
	th := st.thread(st.cur)
	if fr.panicking {
		v := fr.panicVal
		th.stack = th.stack[:len(th.stack)-1]
		if len(th.stack) == 0 {
			th.stack = append(th.stack, fr)
			w.candidate(st, st.model, "panic", "uncaught panic: "+w.describe(st, v)+" at "+st.panicAt)
			w.endStats(st)
			return true
		}
		p := st.top()
		p.panicking = true
		p.unwinding = true
		p.panicVal = v
		return false
	}
	fr.unwinding = false
	if fr.fn.rec >= 0 {
		fr.prev = fr.block
		fr.block = fr.fn.rec
		fr.pc = 0
		return false
	}
	var zero Value
	if r := fr.fn.res; r != nil && len(r.fields) > 1 {
		zero = Value{p: &Agg{make([]Value, len(r.fields))}}
		for i, f := range r.fields {
			zero.p.(*Agg).cells[i] = zeroOf(f)
		}
	} else if r != nil && len(r.fields) == 1 {
		zero = zeroOf(r.fields[0])
	}
	return w.popFrame(st, zero) == cEnd
}

func zeroOf(t *TypeInfo) Value {
	if t.agg() {
		return Value{p: &Agg{make([]Value, t.cells)}}
	}
	return Value{}
}

func (w *Worker) runDeferred(st *State, fr *Frame, d *deferred) {
	fv, _ := d.fn.p.(*FuncV)
	if fv == nil {
		fr.defers = d.next
		w.throw("invalid memory address or nil pointer dereference")
	}
	c := w.invoke(st, fr, fv, d.args, -1, true, d)
	if c == cNext {
		fr.defers = d.next
	}
}

func (w *Worker) describe(st *State, v Value) string {
	if v.p == nil {
		return "nil"
	}
	i, ok := v.p.(*Iface)
	if !ok {
		return "?"
	}
	if s, ok := goString(i.v); ok && i.t.kind == KString {
		return fmt.Sprintf("%s(%q)", i.t, s)
	}
	return i.t.String()
}

// popFrame returns from the top frame with result r.
func (w *Worker) popFrame(st *State, r Value) ctl {
	th := st.thread(st.cur)
	fr := th.stack[len(th.stack)-1]
	if len(th.stack) == 1 {
		if st.cur == 0 {
			// The main goroutine ending ends the program.
			w.checkRace(st)
			w.finish(st)
			return cEnd
		}
		th.stack = nil
		th.done = true
		return w.threadExit(st)
	}
	th.stack = th.stack[:len(th.stack)-1]
	if fr.isDefer {
		return cJump
	}
	p := st.top()
	if fr.dst >= 0 {
		p.regs[fr.dst] = r
	}
	return cJump
}

const maxFrames = 20000

// invoke calls fv. When it returns cNext the call was an intrinsic whose
// result is stored in dst; when a frame was pushed it returns cJump.
func (w *Worker) invoke(st *State, fr *Frame, fv *FuncV, args []Value, dst int, isDefer bool, d *deferred) ctl {
	if fv.native != nil {
		r := fv.native(w, st, args)
		if dst >= 0 {
			fr.regs[dst] = r
		}
		return cNext
	}
	if fv.intr != "" {
		r, c := builtinByName(w, st, fr, fv.intr, d, args)
		if c == cNext && dst >= 0 {
			fr.regs[dst] = r
		}
		return c
	}
	fi := w.e.p.info(fv.fn)
	return w.invokeFn(st, fr, fi, fv.env, args, dst, isDefer, d)
}

func (w *Worker) invokeFn(st *State, fr *Frame, fi *FnInfo, env, args []Value, dst int, isDefer bool, d *deferred) ctl {
	if fi.redir != nil {
		fi = fi.redir
	}
	if fi.intr != nil {
		r, c := fi.intr(w, st, fr, args)
		if c == cNext && dst >= 0 {
			fr.regs[dst] = r
		}
		return c
	}
	if fi.skip {
		return cNext
	}
	w.e.p.ensure(fi)
	if fi.hits == 0 {
		fi.hits = 1
	}
	th := st.thread(st.cur)
	if len(th.stack) > maxFrames {
		w.candidate(st, st.model, "stack", "call depth exceeds limit at "+fi.name)
		w.endStats(st)
		panic(pathDone{})
	}
	nf := &Frame{owner: st.epoch, fn: fi, regs: make([]Value, fi.nregs), prev: -1, dst: dst, isDefer: isDefer}
	copy(nf.regs, args)
	copy(nf.regs[len(fi.fn.Params):], env)
	if isDefer {
		fr.defers = d.next
	} else {
		fr.pc++
	}
	th.stack = append(th.stack, nf)
	return cJump
}

func (e *Engine) initRT() {
	rt := e.p.prog.ImportedPackage("runtime")
	e.rtErr = typeOf(rt.Type("errorString").Object().Type())
	_ = types.Typ
}

func (e *Engine) explore(h *HarnessRun, init *State) {
	atomic.StoreInt32(&e.stop, 0)
	atomic.StoreInt64(&e.live, 0)
	for _, w := range e.workers {
		w.queue = nil
	}
	start := time.Now()
	e.workers[0].push(init)
	var wg sync.WaitGroup
	for _, w := range e.workers {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			w.loop()
		}(w)
	}
	done := make(chan struct{})
	go func() {
		for {
			select {
			case <-done:
				return
			case <-time.After(100 * time.Millisecond):
				if time.Now().After(h.deadline) {
					h.mu.Lock()
					h.timedOut = true
					h.mu.Unlock()
					atomic.StoreInt32(&e.stop, 1)
				}
			}
		}
	}()
	wg.Wait()
	close(done)
	for _, w := range e.workers {
		h.lost += int64(len(w.queue))
		w.queue = nil
	}
	h.wall = time.Since(start)
}
