package main

import (
	"sync/atomic"
)

var epochCounter uint64

func newEpoch() uint64 { return atomic.AddUint64(&epochCounter, 1) }

// Obj is one allocated object; cells beyond len(cells) up to size are zero.
type Obj struct {
	owner  uint64
	size   int
	cells  []Value
	m      *MapData
	ch     *ChanData
	uninit string // package whose initialiser was not run
}

type mapEntry struct {
	k, v    Value
	deleted bool
}

type MapData struct {
	entries []mapEntry
	live    int
}

type ChanData struct {
	buf    []Value
	cap    int
	closed bool
	vcs    [][]int // vector clocks of the buffered sends
	sent   int
	recvVC [][]int // vector clock of each receive so far
}

const pageBits = 7
const pageSize = 1 << pageBits

type page struct {
	owner uint64
	objs  [pageSize]*Obj
}

type pcNode struct {
	lit    *Term
	parent *pcNode
	depth  int
}

type input struct {
	kind   string
	name   string
	v      Value
	w      uint8
	tid    int
	parent *input
	n      int
}

type obsNode struct {
	v      Value
	w      uint8
	parent *obsNode
}

type deferred struct {
	fn   Value
	args []Value
	next *deferred
	ci   *CInstr
}

type Frame struct {
	owner     uint64
	fn        *FnInfo
	regs      []Value
	block     int
	prev      int
	pc        int
	defers    *deferred
	panicking bool
	panicVal  Value
	isDefer   bool // called by the runtime while running the parent's defers
	unwinding bool // running defers because of a panic (now or recovered)
	dst       int  // register of the caller receiving the result
}

type Thread struct {
	owner  uint64
	id     int
	stack  []*Frame
	done   bool
	wait   *waitInfo
	vc     []int
	resume bool // scheduled: perform the pending visible operation
}

type State struct {
	h       *HarnessRun
	epoch   uint64
	pages   []*page
	nobj    uint32
	threads []*Thread
	cur     int
	pcn     *pcNode
	known   map[uint32]bool
	knownRO bool
	model   *Model
	inputs  *input
	vars    []*Term
	obs     *obsNode
	steps   int64
	forks   int
	pcCache []*Term
	sched   []int
	conc    *concState
	preempt int
	globals map[string]Value // per-path engine side data (copied on fork)
	reach   []string
	panicAt string
	still   bool // random draws are 0
}

func (st *State) clone() *State {
	n := *st
	n.epoch = newEpoch()
	st.epoch = newEpoch()
	n.pages = append([]*page(nil), st.pages...)
	n.threads = append([]*Thread(nil), st.threads...)
	st.knownRO, n.knownRO = true, true
	n.pcCache = nil
	n.vars = st.vars[:len(st.vars):len(st.vars)]
	st.vars = n.vars
	n.sched = st.sched[:len(st.sched):len(st.sched)]
	n.reach = st.reach[:len(st.reach):len(st.reach)]
	st.reach = n.reach
	if st.globals != nil {
		n.globals = make(map[string]Value, len(st.globals))
		for k, v := range st.globals {
			n.globals[k] = v
		}
	}
	if st.conc != nil {
		n.conc = st.conc.clone()
	}
	// The running handler of st may hold its top frame: give n a copy and
	// keep st's frame writable.
	th := st.threads[st.cur]
	nth := th.copy(n.epoch)
	n.threads[n.cur] = nth
	if th.owner != st.epoch {
		th = th.copy(st.epoch)
		st.threads[st.cur] = th
	}
	if len(th.stack) > 0 {
		top := th.stack[len(th.stack)-1]
		nth.stack[len(nth.stack)-1] = top.copy(n.epoch)
		top.owner = st.epoch
	}
	return &n
}

func (th *Thread) copy(owner uint64) *Thread {
	n := *th
	n.owner = owner
	n.stack = append([]*Frame(nil), th.stack...)
	n.vc = append([]int(nil), th.vc...)
	return &n
}

func (f *Frame) copy(owner uint64) *Frame {
	n := *f
	n.owner = owner
	n.regs = append([]Value(nil), f.regs...)
	return &n
}

// thread returns thread i writable.
func (st *State) thread(i int) *Thread {
	th := st.threads[i]
	if th.owner != st.epoch {
		th = th.copy(st.epoch)
		st.threads[i] = th
	}
	return th
}

func (st *State) top() *Frame {
	th := st.threads[st.cur]
	f := th.stack[len(th.stack)-1]
	if f.owner != st.epoch {
		th = st.thread(st.cur)
		f = f.copy(st.epoch)
		th.stack[len(th.stack)-1] = f
	}
	return f
}

func (st *State) frameAt(th *Thread, i int) *Frame {
	f := th.stack[i]
	if f.owner != st.epoch {
		f = f.copy(st.epoch)
		th.stack[i] = f
	}
	return f
}

func (st *State) alloc(size int) uint32 {
	st.nobj++
	id := st.nobj
	pi := int(id >> pageBits)
	for pi >= len(st.pages) {
		st.pages = append(st.pages, &page{owner: st.epoch})
	}
	pg := st.pages[pi]
	if pg.owner != st.epoch {
		c := *pg
		c.owner = st.epoch
		pg = &c
		st.pages[pi] = pg
	}
	pg.objs[id&(pageSize-1)] = &Obj{owner: st.epoch, size: size}
	return id
}

func (st *State) obj(id uint32) *Obj {
	return st.pages[id>>pageBits].objs[id&(pageSize-1)]
}

// wobj returns object id writable.
func (st *State) wobj(id uint32) *Obj {
	pi := id >> pageBits
	pg := st.pages[pi]
	o := pg.objs[id&(pageSize-1)]
	if o.owner == st.epoch {
		return o
	}
	if pg.owner != st.epoch {
		c := *pg
		c.owner = st.epoch
		pg = &c
		st.pages[pi] = pg
	}
	c := *o
	c.owner = st.epoch
	c.cells = append([]Value(nil), o.cells...)
	if o.m != nil {
		m := *o.m
		m.entries = append([]mapEntry(nil), o.m.entries...)
		c.m = &m
	}
	if o.ch != nil {
		ch := *o.ch
		ch.buf = append([]Value(nil), o.ch.buf...)
		ch.vcs = append([][]int(nil), o.ch.vcs...)
		ch.recvVC = append([][]int(nil), o.ch.recvVC...)
		c.ch = &ch
	}
	pg.objs[id&(pageSize-1)] = &c
	return &c
}

func (o *Obj) get(i int) Value {
	if i < len(o.cells) {
		return o.cells[i]
	}
	if i >= o.size {
		panic(unsupported("load outside object"))
	}
	return Value{}
}

func (o *Obj) set(i int, v Value) {
	if i >= len(o.cells) {
		if i >= o.size {
			panic(unsupported("store outside object"))
		}
		if v.n == 0 && v.p == nil {
			return
		}
		if i >= cap(o.cells) {
			n := i + 1
			if o.size <= 64 {
				n = o.size
			} else if n < 2*len(o.cells) {
				n = min(2*len(o.cells), o.size)
			}
			c := make([]Value, i+1, n)
			copy(c, o.cells)
			o.cells = c
		} else {
			o.cells = o.cells[:i+1]
		}
	}
	o.cells[i] = v
}

func (st *State) checkInit(o *Obj) {
	if o.uninit != "" {
		panic(unsupported("global of package without initialiser: " + o.uninit))
	}
}

// load reads a value of type ti at pointer p (not nil).
func (st *State) load(p Value, ti *TypeInfo) Value {
	id, off := ptrSplit(p)
	o := st.obj(id)
	if o.uninit != "" {
		st.checkInit(o)
	}
	if st.conc != nil {
		st.conc.access(st, id, off, max(ti.cells, 1), false)
	}
	if !ti.agg() {
		return o.get(off)
	}
	return Value{p: &Agg{o.slice(off, ti.cells)}}
}

func (o *Obj) slice(off, n int) []Value {
	c := make([]Value, n)
	if off < len(o.cells) {
		copy(c, o.cells[off:])
	}
	return c
}

func (st *State) store(p Value, ti *TypeInfo, v Value) {
	id, off := ptrSplit(p)
	if st.conc != nil {
		st.conc.access(st, id, off, max(ti.cells, 1), true)
	}
	o := st.wobj(id)
	if !ti.agg() {
		o.set(off, v)
		return
	}
	a, _ := v.p.(*Agg)
	for i := 0; i < ti.cells; i++ {
		if a == nil {
			o.set(off+i, Value{})
		} else {
			o.set(off+i, a.cells[i])
		}
	}
}

// pcLits returns the path condition from oldest to newest.
func (st *State) pcLits() []*Term {
	n := 0
	if st.pcn != nil {
		n = st.pcn.depth
	}
	if len(st.pcCache) == n {
		return st.pcCache
	}
	out := make([]*Term, n)
	for p := st.pcn; p != nil; p = p.parent {
		out[p.depth-1] = p.lit
	}
	st.pcCache = out
	return out
}

func (st *State) learn(t *Term, val bool) {
	if t.op == OBNot {
		t, val = t.a, !val
	}
	if st.knownRO {
		m := make(map[uint32]bool, len(st.known)+4)
		for k, v := range st.known {
			m[k] = v
		}
		st.known = m
		st.knownRO = false
	}
	if st.known == nil {
		st.known = map[uint32]bool{}
	}
	st.known[t.id] = val
	if val {
		switch t.op {
		case OSlt, OUlt:
			st.known[mkEq(t.a, t.b).id] = false
			if t.op == OSlt {
				st.known[mkSlt(t.b, t.a).id] = false
			} else {
				st.known[mkUlt(t.b, t.a).id] = false
			}
		case OEq:
			if t.a.w > 0 {
				st.known[mkSlt(t.a, t.b).id] = false
				st.known[mkSlt(t.b, t.a).id] = false
				st.known[mkUlt(t.a, t.b).id] = false
				st.known[mkUlt(t.b, t.a).id] = false
			}
		case OBAnd:
			st.learn(t.a, true)
			st.learn(t.b, true)
		}
	} else if t.op == OBOr {
		st.learn(t.a, false)
		st.learn(t.b, false)
	}
}

func (st *State) addPC(t *Term) {
	d := 1
	if st.pcn != nil {
		d = st.pcn.depth + 1
	}
	st.pcn = &pcNode{t, st.pcn, d}
	st.pcCache = nil
	st.learn(t, true)
}

func (st *State) lookup(t *Term) (val, ok bool) {
	neg := false
	if t.op == OBNot {
		t, neg = t.a, true
	}
	v, ok := st.known[t.id]
	return v != neg, ok
}

func (st *State) addInput(kind, name string, v Value, w uint8) {
	n := 0
	if st.inputs != nil {
		n = st.inputs.n + 1
	}
	st.inputs = &input{kind, name, v, w, st.cur, st.inputs, n}
}

func (st *State) inputList() []*input {
	var r []*input
	for i := st.inputs; i != nil; i = i.parent {
		r = append(r, i)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// inputCount counts the inputs of a kind made so far.
func (st *State) inputCount(kind string) int {
	n := 0
	for i := st.inputs; i != nil; i = i.parent {
		if i.kind == kind {
			n++
		}
	}
	return n
}
