package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type opKind uint8

const (
	opChan   opKind = iota // footprint: the channel object
	opLock                 // mutex-like cell
	opAtomic               // memory cell
	opEvent                // harness event, ordered with every other event
)

// waitInfo describes the visible operation a thread is about to perform.
type waitInfo struct {
	kind    opKind
	name    string
	keys    []uint64 // cells or channels touched
	read    bool
	enabled func(st *State, tid int) bool
	recv    []uint32 // channels a blocked thread would receive from
	done    bool     // performed on behalf of the thread by its peer
	forced  int      // select case fixed by a peer, or -1
}

func (a *waitInfo) dependent(b *waitInfo) bool {
	if a == nil || b == nil {
		return true
	}
	for _, x := range a.keys {
		for _, y := range b.keys {
			if x == y && !(a.read && b.read) {
				return true
			}
		}
	}
	return false
}

type shadow struct {
	wt, wc int // last writer and its clock
	reads  []int
}

type concState struct {
	shadows map[uint64]shadow
	shared  bool
	sleep   map[int]*waitInfo
	sync    map[uint64][]int // vector clocks of synchronisation objects
	race    string
	off     bool
}

func newConc() *concState {
	return &concState{shadows: map[uint64]shadow{}, sleep: map[int]*waitInfo{}, sync: map[uint64][]int{}}
}

func (c *concState) clone() *concState {
	n := &concState{shadows: make(map[uint64]shadow, len(c.shadows)), sleep: map[int]*waitInfo{}, sync: make(map[uint64][]int, len(c.sync)), race: c.race, off: c.off}
	for k, v := range c.shadows {
		n.shadows[k] = v
	}
	for k, v := range c.sleep {
		n.sleep[k] = v
	}
	for k, v := range c.sync {
		n.sync[k] = v
	}
	return n
}

func vcGet(v []int, i int) int {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func vcJoin(a, b []int) []int {
	n := max(len(a), len(b))
	out := make([]int, n)
	for i := range out {
		out[i] = max(vcGet(a, i), vcGet(b, i))
	}
	return out
}

// access checks one memory access of the current thread for a data race.
func (c *concState) access(st *State, obj uint32, off, n int, write bool) {
	if c.off {
		return
	}
	th := st.threads[st.cur]
	t := st.cur
	for i := 0; i < n; i++ {
		k := uint64(obj)<<32 | uint64(off+i)
		s, ok := c.shadows[k]
		if !ok {
			s = shadow{wt: -1}
		}
		if s.wt >= 0 && s.wt != t && vcGet(th.vc, s.wt) < s.wc {
			c.report(st, s.wt, t, obj, off+i, write)
		}
		if write {
			for r, rc := range s.reads {
				if r != t && rc > 0 && vcGet(th.vc, r) < rc {
					c.report(st, r, t, obj, off+i, write)
				}
			}
			s = shadow{wt: t, wc: vcGet(th.vc, t)}
		} else {
			if vcGet(s.reads, t) == vcGet(th.vc, t) && ok {
				continue
			}
			rd := make([]int, max(len(s.reads), t+1))
			copy(rd, s.reads)
			rd[t] = vcGet(th.vc, t)
			s.reads = rd
		}
		c.shadows[k] = s
	}
}

func (c *concState) report(st *State, a, b int, obj uint32, off int, write bool) {
	if c.race == "" {
		c.race = fmt.Sprintf("data race between goroutines %d and %d", a, b)
	}
}

// checkRace turns a recorded race into a candidate.
func (w *Worker) checkRace(st *State) {
	if st.conc == nil || st.conc.race == "" {
		return
	}
	w.candidate(st, st.model, "race", st.conc.race+" at "+w.where(st))
	w.endStats(st)
	panic(pathDone{})
}

// acquire makes the current thread see everything released on key.
func (st *State) acquire(key uint64) {
	if st.conc == nil {
		return
	}
	th := st.thread(st.cur)
	th.vc = vcJoin(th.vc, st.conc.sync[key])
}

// release publishes the current thread's history on key.
func (st *State) release(key uint64) {
	if st.conc == nil {
		return
	}
	st.conc.sync[key] = vcJoin(st.conc.sync[key], st.tick())
}

// tick returns the current thread's clock and advances it.
func (st *State) tick() []int {
	th := st.thread(st.cur)
	old := th.vc
	vc := make([]int, max(len(th.vc), st.cur+1))
	copy(vc, th.vc)
	vc[st.cur]++
	th.vc = vc
	return old
}

// visible is called by a handler before performing a visible operation. It
// returns true when the operation may be performed now; otherwise another
// thread has been scheduled and the handler must return cJump.
func (w *Worker) visible(st *State, wi *waitInfo) bool {
	if st.conc == nil {
		if !wi.enabled(st, st.cur) {
			w.candidate(st, st.model, "deadlock", "deadlock at "+w.where(st))
			w.endStats(st)
			panic(pathDone{})
		}
		return true
	}
	w.checkRace(st)
	th := st.thread(st.cur)
	if th.resume {
		th.resume = false
		return true
	}
	wi.forced = -1
	th.wait = wi
	w.pickNext(st)
	return false
}

// pending returns the wait of the current thread and clears it.
func (st *State) takeWait() *waitInfo {
	if st.conc == nil {
		return nil
	}
	th := st.thread(st.cur)
	wi := th.wait
	th.wait = nil
	return wi
}

func (w *Worker) pickNext(st *State) {
	// Threads that are not at a visible operation run first: their steps are
	// independent of everything (data races are checked separately).
	for i, th := range st.threads {
		if !th.done && th.wait == nil {
			st.cur = i
			return
		}
	}
	var en []int
	for i, th := range st.threads {
		if !th.done && (th.wait.done || th.wait.enabled(st, i)) {
			en = append(en, i)
		}
	}
	if len(en) == 0 {
		w.candidate(st, st.model, "deadlock", "all goroutines are blocked: "+w.blocked(st))
		w.endStats(st)
		panic(pathDone{})
	}
	var cand []int
	for _, i := range en {
		if _, ok := st.conc.sleep[i]; !ok {
			cand = append(cand, i)
		}
	}
	if len(cand) == 0 {
		panic(pathKill{})
	}
	sleep := st.conc.sleep
	if len(cand) > 1 {
		st.h.mu.Lock()
		st.h.scheds += int64(len(cand) - 1)
		st.h.mu.Unlock()
	}
	for k := len(cand) - 1; k >= 0; k-- {
		n := st
		if k > 0 {
			n = st.clone()
		}
		t := cand[k]
		op := st.threads[t].wait
		ns := map[int]*waitInfo{}
		for s, o := range sleep {
			if s != t && !o.dependent(op) {
				ns[s] = o
			}
		}
		for _, s := range cand[:k] {
			if o := st.threads[s].wait; !o.dependent(op) {
				ns[s] = o
			}
		}
		n.conc.sleep = ns
		n.cur = t
		n.thread(t).resume = true
		n.sched = append(n.sched[:len(n.sched):len(n.sched)], t)
		if k > 0 {
			w.push(n)
		}
	}
}

func (w *Worker) blocked(st *State) string {
	s := ""
	for i, th := range st.threads {
		if !th.done && th.wait != nil {
			s += fmt.Sprintf("[g%d %s]", i, th.wait.name)
		}
	}
	return s
}

// threadExit is called when a goroutine other than main returns.
func (w *Worker) threadExit(st *State) ctl {
	w.checkRace(st)
	w.pickNext(st)
	return cJump
}

func hGo(w *Worker, st *State, fr *Frame, ci *CInstr) ctl {
	fv, args := w.target(st, fr, ci)
	if fv == nil || fv.fn == nil {
		panic(unsupported("go statement target"))
	}
	fi := w.e.p.info(fv.fn)
	if fi.redir != nil {
		fi = fi.redir
	}
	if fi.intr != nil {
		panic(unsupported("go of intrinsic"))
	}
	w.e.p.ensure(fi)
	if st.conc == nil {
		st.conc = newConc()
		st.thread(0).vc = []int{1}
	}
	id := len(st.threads)
	nf := &Frame{owner: st.epoch, fn: fi, regs: make([]Value, fi.nregs), prev: -1, dst: -1}
	copy(nf.regs, args)
	copy(nf.regs[len(fi.fn.Params):], fv.env)
	cur := st.thread(st.cur)
	vc := make([]int, max(id+1, len(cur.vc)))
	copy(vc, cur.vc)
	vc[id] = 1
	cv := append([]int(nil), cur.vc...)
	for len(cv) <= st.cur {
		cv = append(cv, 0)
	}
	cv[st.cur]++
	cur.vc = cv
	st.threads = append(st.threads, &Thread{owner: st.epoch, id: id, stack: []*Frame{nf}, vc: vc})
	return cNext
}

// Channels.

func hMakeChan(w *Worker, st *State, fr *Frame, ci *CInstr) ctl {
	n := int(int64(w.concretize(st, fr.val(&ci.x), 64)))
	if n < 0 {
		w.throw("makechan: size out of range")
	}
	o := st.alloc(0)
	st.wobj(o).ch = &ChanData{cap: n}
	fr.regs[ci.dst] = ptrVal(o, 0)
	return cNext
}

func chKey(id uint32) uint64 { return uint64(id) << 32 }

// receivers counts threads other than tid blocked receiving on ch.
func receivers(st *State, ch uint32, tid int) int {
	n := 0
	for i, th := range st.threads {
		if i == tid || th.done || th.wait == nil || th.wait.forced >= 0 {
			continue
		}
		for _, c := range th.wait.recv {
			if c == ch {
				n++
				break
			}
		}
	}
	return n
}

func sendReady(st *State, ch uint32, tid int) bool {
	c := st.obj(ch).ch
	if c.closed {
		return true
	}
	if c.cap > 0 {
		return len(c.buf) < c.cap
	}
	return receivers(st, ch, tid) > len(c.buf)
}

func recvReady(st *State, ch uint32) bool {
	c := st.obj(ch).ch
	return len(c.buf) > 0 || c.closed
}

func (w *Worker) doSend(st *State, ch uint32, v Value) {
	c := st.wobj(ch).ch
	if c.closed {
		panic(rtPanic{w.rtError("send on closed channel")})
	}
	c.buf = append(c.buf, v)
	if st.conc != nil {
		if k := c.sent - max(c.cap, 1); k >= 0 && k < len(c.recvVC) {
			th := st.thread(st.cur)
			th.vc = vcJoin(th.vc, c.recvVC[k])
		}
		c.vcs = append(c.vcs, st.tick())
	} else {
		c.vcs = append(c.vcs, nil)
	}
	c.sent++
	if c.cap == 0 {
		// Bind the value to a waiting select so that it cannot take another case.
		for i, th := range st.threads {
			if i == st.cur || th.done || th.wait == nil || th.wait.forced >= 0 || len(th.wait.recv) < 2 {
				continue
			}
			for k, rc := range th.wait.recv {
				if rc == ch {
					wi := *th.wait
					wi.forced = k
					st.thread(i).wait = &wi
					return
				}
			}
		}
	}
}

func (w *Worker) doRecv(st *State, ch uint32, t *TypeInfo) (Value, bool) {
	c := st.wobj(ch).ch
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		vc := c.vcs[0]
		c.vcs = c.vcs[1:]
		if st.conc != nil {
			th := st.thread(st.cur)
			th.vc = vcJoin(th.vc, vc)
			c.recvVC = append(c.recvVC, st.tick())
		} else {
			c.recvVC = append(c.recvVC, nil)
		}
		return v, true
	}
	st.acquire(chKey(ch))
	return zeroOf(t), false
}

func hSend(w *Worker, st *State, fr *Frame, ci *CInstr) ctl {
	ch, _ := ptrSplit(fr.val(&ci.x))
	v := fr.val(&ci.y)
	wi := &waitInfo{kind: opChan, name: "send"}
	if ch == 0 {
		wi.enabled = func(*State, int) bool { return false }
	} else {
		wi.keys = []uint64{chKey(ch)}
		wi.enabled = func(st *State, tid int) bool { return sendReady(st, ch, tid) }
	}
	if !w.visible(st, wi) {
		return cJump
	}
	st.takeWait()
	w.doSend(st, ch, v)
	return cNext
}

func hRecv(w *Worker, st *State, fr *Frame, ci *CInstr) ctl {
	ch, _ := ptrSplit(fr.val(&ci.x))
	wi := &waitInfo{kind: opChan, name: "receive"}
	if ch == 0 {
		wi.enabled = func(*State, int) bool { return false }
	} else {
		wi.keys = []uint64{chKey(ch)}
		wi.recv = []uint32{ch}
		wi.enabled = func(st *State, tid int) bool { return recvReady(st, ch) }
	}
	if !w.visible(st, wi) {
		return cJump
	}
	st.takeWait()
	v, ok := w.doRecv(st, ch, ci.xt.elem)
	if ci.flag {
		v = tuple(v, boolVal(ok))
	}
	fr.regs[ci.dst] = v
	return cNext
}

func (w *Worker) closeChan(st *State, c Value) (Value, ctl) {
	ch, _ := ptrSplit(c)
	if ch == 0 {
		w.throw("close of nil channel")
	}
	if !w.visible(st, &waitInfo{kind: opChan, name: "close", keys: []uint64{chKey(ch)}, enabled: alwaysEnabled}) {
		return Value{}, cJump
	}
	st.takeWait()
	d := st.wobj(ch).ch
	if d.closed {
		w.throw("close of closed channel")
	}
	d.closed = true
	st.release(chKey(ch))
	return Value{}, cNext
}

func alwaysEnabled(*State, int) bool { return true }

func hSelect(w *Worker, st *State, fr *Frame, ci *CInstr) ctl {
	in := ci.in.(*ssa.Select)
	n := len(in.States)
	chs := make([]uint32, n)
	wi := &waitInfo{kind: opChan, name: "select"}
	for i := range in.States {
		chs[i], _ = ptrSplit(fr.val(&ci.args[2*i]))
		if chs[i] != 0 {
			wi.keys = append(wi.keys, chKey(chs[i]))
		}
		if in.Blocking {
			if in.States[i].Dir == types.RecvOnly {
				wi.recv = append(wi.recv, chs[i])
			} else {
				wi.recv = append(wi.recv, 0)
			}
		}
	}
	ready := func(st *State, tid, i int) bool {
		if chs[i] == 0 {
			return false
		}
		if in.States[i].Dir == types.SendOnly {
			return sendReady(st, chs[i], tid)
		}
		return recvReady(st, chs[i])
	}
	wi.enabled = func(st *State, tid int) bool {
		if !in.Blocking {
			return true
		}
		if f := st.threads[tid].wait; f != nil && f.forced >= 0 {
			return true
		}
		for i := range chs {
			if ready(st, tid, i) {
				return true
			}
		}
		return false
	}
	if !w.visible(st, wi) {
		return cJump
	}
	var rd []int
	if st.conc != nil {
		if f := st.threads[st.cur].wait; f != nil && f.forced >= 0 {
			rd = []int{f.forced}
		}
	}
	if rd == nil {
		for i := range chs {
			if ready(st, st.cur, i) {
				rd = append(rd, i)
			}
		}
	}
	pick := -1
	if len(rd) == 1 {
		pick = rd[0]
	} else if len(rd) > 1 {
		// Siblings re-execute with the choice forced.
		for _, i := range rd[1:] {
			c := st.clone()
			th := c.thread(c.cur)
			nw := *wi
			nw.forced = i
			th.wait = &nw
			th.resume = true
			if c.conc == nil {
				panic(unsupported("select with several ready cases before any go statement"))
			}
			c.sched = append(c.sched[:len(c.sched):len(c.sched)], -1-i)
			w.push(c)
		}
		pick = rd[0]
	}
	st.takeWait()
	vals := []Value{{}, {}}
	recvOk := false
	if pick >= 0 && in.States[pick].Dir == types.SendOnly {
		w.doSend(st, chs[pick], fr.val(&ci.args[2*pick+1]))
	}
	for i, s := range in.States {
		if s.Dir == types.RecvOnly {
			et := typeOf(s.Chan.Type()).elem
			v := zeroOf(et)
			if i == pick {
				v, recvOk = w.doRecv(st, chs[i], et)
			}
			vals = append(vals, v)
		}
	}
	vals[0] = Value{n: uint64(int64(pick))}
	vals[1] = boolVal(recvOk)
	fr.regs[ci.dst] = Value{p: &Agg{vals}}
	return cNext
}

// Locks keep their state in the cells of the real objects: cell 0 of a mutex
// holds 1 when locked; a RWMutex holds the writer flag in cell 0, the number of
// readers in cell 1 and the flag of a writer waiting for them in cell 2.

func lockIntr(enabled func(o *Obj, off int) bool, act func(w *Worker, st *State, o *Obj, off int), acq, rel []uint64, name string) intrinsic {
	return func(w *Worker, st *State, fr *Frame, args []Value) (Value, ctl) {
		w.nilCheck(args[0])
		id, off := ptrSplit(args[0])
		wi := &waitInfo{kind: opLock, name: name, keys: []uint64{args[0].n}, enabled: alwaysEnabled}
		if enabled != nil {
			wi.enabled = func(st *State, tid int) bool { return enabled(st.obj(id), off) }
		}
		if !w.visible(st, wi) {
			return Value{}, cJump
		}
		st.takeWait()
		for _, k := range rel {
			st.release(args[0].n + k)
		}
		act(w, st, st.wobj(id), off)
		for _, k := range acq {
			st.acquire(args[0].n + k)
		}
		return Value{}, cNext
	}
}

func fatal(w *Worker, st *State, msg string) {
	w.candidate(st, st.model, "panic", "fatal error: "+msg+" at "+w.where(st))
	w.endStats(st)
	panic(pathDone{})
}

func init() {
	intrinsics["(*sync.Mutex).Lock"] = lockIntr(
		func(o *Obj, off int) bool { return o.get(off).n == 0 },
		func(w *Worker, st *State, o *Obj, off int) { o.set(off, intVal(1)) }, []uint64{0}, nil, "Mutex.Lock")
	intrinsics["(*sync.Mutex).Unlock"] = lockIntr(nil,
		func(w *Worker, st *State, o *Obj, off int) {
			if o.get(off).n == 0 {
				fatal(w, st, "sync: unlock of unlocked mutex")
			}
			o.set(off, Value{})
		}, nil, []uint64{0}, "Mutex.Unlock")
	noWriter := func(o *Obj, off int) bool { return o.get(off).n == 0 && o.get(off+2).n == 0 }
	intrinsics[rtPkg+"rwAnnounce"] = lockIntr(noWriter,
		func(w *Worker, st *State, o *Obj, off int) { o.set(off+2, intVal(1)) }, nil, nil, "RWMutex.Lock")
	intrinsics[rtPkg+"rwAcquire"] = lockIntr(
		func(o *Obj, off int) bool { return o.get(off+1).n == 0 },
		func(w *Worker, st *State, o *Obj, off int) { o.set(off, intVal(1)); o.set(off+2, Value{}) }, []uint64{0, 1}, nil, "RWMutex.Lock")
	tryLock := func(ok func(o *Obj, off int) bool, act func(o *Obj, off int), acq []uint64) intrinsic {
		return func(w *Worker, st *State, fr *Frame, args []Value) (Value, ctl) {
			w.nilCheck(args[0])
			id, off := ptrSplit(args[0])
			if !w.visible(st, &waitInfo{kind: opLock, name: "TryLock", keys: []uint64{args[0].n}, enabled: alwaysEnabled}) {
				return Value{}, cJump
			}
			st.takeWait()
			if !ok(st.obj(id), off) {
				return boolVal(false), cNext
			}
			act(st.wobj(id), off)
			for _, k := range acq {
				st.acquire(args[0].n + k)
			}
			return boolVal(true), cNext
		}
	}
	intrinsics["(*sync.Mutex).TryLock"] = tryLock(
		func(o *Obj, off int) bool { return o.get(off).n == 0 },
		func(o *Obj, off int) { o.set(off, intVal(1)) }, []uint64{0})
	intrinsics["(*sync.RWMutex).TryLock"] = tryLock(
		func(o *Obj, off int) bool { return noWriter(o, off) && o.get(off+1).n == 0 },
		func(o *Obj, off int) { o.set(off, intVal(1)) }, []uint64{0, 1})
	intrinsics["(*sync.RWMutex).TryRLock"] = tryLock(noWriter,
		func(o *Obj, off int) { o.set(off+1, intVal(int(o.get(off+1).n)+1)) }, []uint64{0})
	intrinsics["(*sync.RWMutex).Unlock"] = lockIntr(nil,
		func(w *Worker, st *State, o *Obj, off int) {
			if o.get(off).n == 0 {
				fatal(w, st, "sync: Unlock of unlocked RWMutex")
			}
			o.set(off, Value{})
		}, nil, []uint64{0}, "RWMutex.Unlock")
	intrinsics["(*sync.RWMutex).RLock"] = lockIntr(noWriter,
		func(w *Worker, st *State, o *Obj, off int) { o.set(off+1, intVal(int(o.get(off+1).n)+1)) }, []uint64{0}, nil, "RWMutex.RLock")
	intrinsics["(*sync.RWMutex).RUnlock"] = lockIntr(nil,
		func(w *Worker, st *State, o *Obj, off int) {
			if o.get(off+1).n == 0 {
				fatal(w, st, "sync: RUnlock of unlocked RWMutex")
			}
			o.set(off+1, intVal(int(o.get(off+1).n)-1))
		}, nil, []uint64{1}, "RWMutex.RUnlock")
	// WaitGroup: cell 0 is the counter.
	wgAdd := func(w *Worker, st *State, p Value, delta int64) (Value, ctl) {
		w.nilCheck(p)
		id, off := ptrSplit(p)
		if !w.visible(st, &waitInfo{kind: opLock, name: "WaitGroup.Add", keys: []uint64{p.n}, enabled: alwaysEnabled}) {
			return Value{}, cJump
		}
		st.takeWait()
		n := int64(st.obj(id).get(off).n) + delta
		if n < 0 {
			panic(rtPanic{Value{p: &Iface{t: typeOf(types.Typ[types.String]), v: strVal("sync: negative WaitGroup counter")}}})
		}
		st.release(p.n)
		st.wobj(id).set(off, Value{n: uint64(n)})
		return Value{}, cNext
	}
	intrinsics["(*sync.WaitGroup).Add"] = func(w *Worker, st *State, fr *Frame, args []Value) (Value, ctl) {
		return wgAdd(w, st, args[0], int64(w.concretize(st, args[1], 64)))
	}
	intrinsics["(*sync.WaitGroup).Done"] = func(w *Worker, st *State, fr *Frame, args []Value) (Value, ctl) {
		return wgAdd(w, st, args[0], -1)
	}
	intrinsics["(*sync.WaitGroup).Wait"] = lockIntr(
		func(o *Obj, off int) bool { return o.get(off).n == 0 },
		func(w *Worker, st *State, o *Obj, off int) {}, []uint64{0}, nil, "WaitGroup.Wait")
	// Cond: struct { noCopy; L Locker; notify; checker }. Waiters register in
	// a per-path list kept as a chain of tickets: Wait is two visible steps,
	// register+unlock, then wake+relock.
	intrinsics["(*sync.Cond).Broadcast"] = condWake(true)
	intrinsics["(*sync.Cond).Signal"] = condWake(false)

	atomicOp := func(f func(w *Worker, st *State, p Value, args []Value) Value, read bool) intrinsic {
		return func(w *Worker, st *State, fr *Frame, args []Value) (Value, ctl) {
			w.nilCheck(args[0])
			if !w.visible(st, &waitInfo{kind: opAtomic, name: "atomic", keys: []uint64{args[0].n}, read: read, enabled: alwaysEnabled}) {
				return Value{}, cJump
			}
			if st.conc != nil {
				st.conc.off = true
				defer func() { st.conc.off = false }()
			}
			r := f(w, st, args[0], args[1:])
			st.takeWait()
			st.acquire(args[0].n)
			st.release(args[0].n)
			return r, cNext
		}
	}
	for _, x := range []struct {
		suffix string
		w      uint8
		k      types.BasicKind
	}{{"Int32", 32, types.Int32}, {"Int64", 64, types.Int64}, {"Uint32", 32, types.Uint32}, {"Uint64", 64, types.Uint64}, {"Uintptr", 64, types.Uintptr}, {"Pointer", 64, types.UnsafePointer}} {
		x := x
		get := func(st *State, p Value) Value {
			id, off := ptrSplit(p)
			return st.obj(id).get(off)
		}
		set := func(st *State, p, v Value) {
			id, off := ptrSplit(p)
			st.wobj(id).set(off, v)
		}
		load := atomicOp(func(w *Worker, st *State, p Value, args []Value) Value { return get(st, p) }, true)
		store := atomicOp(func(w *Worker, st *State, p Value, args []Value) Value { set(st, p, args[0]); return Value{} }, false)
		add := atomicOp(func(w *Worker, st *State, p Value, args []Value) Value {
			v := mkVal(mkBin(OAdd, get(st, p).term(x.w), args[0].term(x.w)))
			set(st, p, v)
			return v
		}, false)
		swap := atomicOp(func(w *Worker, st *State, p Value, args []Value) Value {
			v := get(st, p)
			set(st, p, args[0])
			return v
		}, false)
		cas := atomicOp(func(w *Worker, st *State, p Value, args []Value) Value {
			if w.decide(st, mkEq(get(st, p).term(x.w), args[0].term(x.w))) {
				set(st, p, args[1])
				return boolVal(true)
			}
			return boolVal(false)
		}, false)
		intrinsics["sync/atomic.Load"+x.suffix] = load
		intrinsics["sync/atomic.Store"+x.suffix] = store
		intrinsics["sync/atomic.Add"+x.suffix] = add
		intrinsics["sync/atomic.Swap"+x.suffix] = swap
		intrinsics["sync/atomic.CompareAndSwap"+x.suffix] = cas
	}
}

// condState: per-path waiter bookkeeping, stored under the address of the Cond.
// globals["cond:<addr>:n"] is the number of registrations, ["...:w"] the number
// woken, and each waiting thread remembers its ticket.

func condKey(p Value, s string) string { return fmt.Sprintf("cond:%d:%s", p.n, s) }

func (st *State) gget(k string) uint64 { return st.globals[k].n }
func (st *State) gset(k string, v uint64) {
	if st.globals == nil {
		st.globals = map[string]Value{}
	}
	st.globals[k] = Value{n: v}
}

func condWake(all bool) intrinsic {
	return func(w *Worker, st *State, fr *Frame, args []Value) (Value, ctl) {
		w.nilCheck(args[0])
		if !w.visible(st, &waitInfo{kind: opLock, name: "Cond.Broadcast", keys: []uint64{args[0].n}, enabled: alwaysEnabled}) {
			return Value{}, cJump
		}
		st.takeWait()
		n, k := st.gget(condKey(args[0], "n")), st.gget(condKey(args[0], "w"))
		if all {
			k = n
		} else if k < n {
			k++
		}
		st.gset(condKey(args[0], "w"), k)
		st.release(args[0].n)
		return Value{}, cNext
	}
}

func init() {
	// rt.condRegister(c) int / rt.condAwait(c, ticket): used by the Go model of
	// (*sync.Cond).Wait in the harness runtime package.
	intrinsics["verif/harness/rt.condRegister"] = func(w *Worker, st *State, fr *Frame, args []Value) (Value, ctl) {
		w.nilCheck(args[0])
		if !w.visible(st, &waitInfo{kind: opLock, name: "Cond.Wait", keys: []uint64{args[0].n}, enabled: alwaysEnabled}) {
			return Value{}, cJump
		}
		st.takeWait()
		n := st.gget(condKey(args[0], "n")) + 1
		st.gset(condKey(args[0], "n"), n)
		return Value{n: n}, cNext
	}
	intrinsics["verif/harness/rt.condAwait"] = func(w *Worker, st *State, fr *Frame, args []Value) (Value, ctl) {
		p, ticket := args[0], args[1].n
		wi := &waitInfo{kind: opLock, name: "Cond.Wait", keys: []uint64{p.n}}
		wi.enabled = func(st *State, tid int) bool { return st.gget(condKey(p, "w")) >= ticket }
		if !w.visible(st, wi) {
			return Value{}, cJump
		}
		st.takeWait()
		st.acquire(p.n)
		return Value{}, cNext
	}
	// Idle waits until no other thread can go on.
	intrinsics["verif/harness/sym.Idle"] = func(w *Worker, st *State, fr *Frame, args []Value) (Value, ctl) {
		wi := &waitInfo{kind: opEvent, name: "idle"}
		wi.enabled = func(st *State, tid int) bool {
			for i, th := range st.threads {
				if i != tid && !th.done && (th.wait == nil || th.wait.name != "idle" && (th.wait.done || th.wait.enabled(st, i))) {
					return false
				}
			}
			return true
		}
		if !w.visible(st, wi) {
			return Value{}, cJump
		}
		st.takeWait()
		return Value{}, cNext
	}
	// The generator of math/rand: a seed and a position determine a draw, all
	// draws being arbitrary. tap holds the position and the first cell of vec
	// the seed.
	rng := func(f func(w *Worker, st *State, id uint32, off int, args []Value) Value) intrinsic {
		return func(w *Worker, st *State, fr *Frame, args []Value) (Value, ctl) {
			w.nilCheck(args[0])
			id, off := ptrSplit(args[0])
			if st.conc != nil {
				st.conc.access(st, id, off, 3, true)
			}
			return f(w, st, id, off, args), cNext
		}
	}
	intrinsics["(*math/rand.rngSource).Seed"] = rng(func(w *Worker, st *State, id uint32, off int, args []Value) Value {
		st.wobj(id).set(off, Value{})
		st.wobj(id).set(off+2, args[1])
		return Value{}
	})
	intrinsics["(*math/rand.rngSource).Uint64"] = rng(func(w *Worker, st *State, id uint32, off int, args []Value) Value {
		n, seed := st.obj(id).get(off), st.obj(id).get(off+2)
		st.wobj(id).set(off, Value{n: n.n + 1})
		k := fmt.Sprintf("rng:%d:%d", seed.term(64).id, n.n)
		v, ok := st.globals[k]
		if !ok {
			v = mkVal(w.fresh(st, "rng", 64))
			if st.globals == nil {
				st.globals = map[string]Value{}
			}
			st.globals[k] = v
		}
		return v
	})
	// Harness events: totally ordered with each other.
	intrinsics["verif/harness/sym.Event"] = func(w *Worker, st *State, fr *Frame, args []Value) (Value, ctl) {
		if !w.visible(st, &waitInfo{kind: opEvent, name: "event", keys: []uint64{1}, enabled: alwaysEnabled}) {
			return Value{}, cJump
		}
		st.takeWait()
		st.acquire(1)
		st.release(1)
		return Value{}, cNext
	}
}
