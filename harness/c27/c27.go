// Package c27: try/catch/finally blocks.
package c27

import (
	"github.com/timtadh/data-structures/exc"
	"verif/harness/ref"
	"verif/harness/sym"
)

// outcome is how a piece of code ends: normally, with an exception or with
// another panic.
type outcome struct {
	t     exc.Throwable
	other interface{}
}

func (o outcome) ok() bool { return o.t == nil && o.other == nil }

// end ends the calling code this way.
func (o outcome) end() {
	if o.t != nil {
		exc.Throw(o.t)
	}
	if o.other != nil {
		panic(o.other)
	}
}

// log is the sequence of what ran.
type entry struct {
	what string
	n    int
	t    exc.Throwable
}

type world struct {
	got, want []entry
	ids       int
}

func (w *world) saw(what string, n int, t exc.Throwable) { w.got = append(w.got, entry{what, n, t}) }
func (w *world) expect(what string, n int, t exc.Throwable) {
	w.want = append(w.want, entry{what, n, t})
}

func (w *world) check() {
	sym.Assert(len(w.got) == len(w.want), "exactly the expected parts run")
	for i := range w.got {
		sym.Assert(w.got[i].what == w.want[i].what && w.got[i].n == w.want[i].n, "parts run in order")
		sym.Assert(w.got[i].t == w.want[i].t, "a catch gets the thrown object")
	}
}

// any is an arbitrary outcome.
func (w *world) any() outcome {
	w.ids++
	switch k := sym.Choose(ref.Kinds + 2); k {
	case ref.Kinds:
		return outcome{}
	case ref.Kinds + 1:
		return outcome{other: ref.Boom{ID: w.ids}}
	default:
		return outcome{t: ref.Throwable(k, w.ids)}
	}
}

// some is an outcome of one of a few kinds.
func (w *world) some() outcome {
	w.ids++
	switch sym.Choose(4) {
	case 1:
		return outcome{t: ref.Throwable(ref.KindExc, w.ids)}
	case 2:
		return outcome{t: ref.Throwable(ref.KindB, w.ids)}
	case 3:
		return outcome{other: ref.Boom{ID: w.ids}}
	}
	return outcome{}
}

// block describes a block: what its parts do when they run.
type block struct {
	try       outcome
	catches   []int // kinds
	catchEnds []outcome
	rethrow   []bool // the catch throws what it caught instead
	finallies []outcome
	nested    *block // runs, unwinding, before the try body ends
	inCatch   *block // the same in every catch
	inFinally *block // and in every finally
}

func (w *world) build(b *block) *exc.Block {
	x := exc.Try(func() {
		w.saw("try", 0, nil)
		if b.nested != nil {
			w.build(b.nested).Unwind()
		}
		b.try.end()
	})
	for i, k := range b.catches {
		i := i
		x = x.Catch(ref.Sample(k), func(t exc.Throwable) {
			w.saw("catch", i, t)
			if b.inCatch != nil {
				w.build(b.inCatch).Unwind()
			}
			if b.rethrow[i] {
				exc.Throw(t)
			}
			b.catchEnds[i].end()
		})
	}
	for i := range b.finallies {
		i := i
		x = x.Finally(func() {
			w.saw("finally", i, nil)
			if b.inFinally != nil {
				w.build(b.inFinally).Unwind()
			}
			b.finallies[i].end()
		})
	}
	return x
}

// expected tells how the block ends and notes what should run.
func (w *world) expected(b *block) outcome {
	w.expect("try", 0, nil)
	var o outcome
	if b.nested != nil {
		o = w.expected(b.nested)
	}
	if o.ok() {
		o = b.try
	}
	if o.other != nil {
		return o
	}
	if o.t != nil {
		for i, k := range b.catches {
			if ref.IsA(ref.KindOf(o.t), k) {
				w.expect("catch", i, o.t)
				in := outcome{}
				if b.inCatch != nil {
					in = w.expected(b.inCatch)
				}
				if !in.ok() {
					o = in
				} else if !b.rethrow[i] {
					o = b.catchEnds[i]
				}
				break
			}
		}
	}
	if o.other != nil {
		return o
	}
	for i, f := range b.finallies {
		w.expect("finally", i, nil)
		if b.inFinally != nil {
			if in := w.expected(b.inFinally); !in.ok() {
				f = in
			}
		}
		if f.other != nil {
			return f
		}
		if f.t != nil {
			o = f
		}
	}
	return o
}

// run runs the block in one of the three ways and checks everything.
func (w *world) run(x *exc.Block, b *block, how int) {
	w.got, w.want = nil, nil
	o := w.expected(b)
	var t exc.Throwable
	var err error
	pt, other := ref.Run(func() {
		switch how {
		case 0:
			x.Unwind()
		case 1:
			t = x.Exception()
		case 2:
			err = x.Error()
		}
	})
	w.check()
	sym.Assert(other == o.other, "other panics propagate unchanged, and only they")
	if how == 0 {
		sym.Assert(pt == o.t, "Unwind raises exactly the uncaught exception")
		return
	}
	sym.Assert(pt == nil, "Error and Exception raise no exception")
	if how == 1 {
		sym.Assert(t == o.t, "Exception returns exactly the uncaught exception")
	} else {
		sym.Assert((err == nil) == (o.t == nil), "Error returns nil exactly if nothing is uncaught")
		if err != nil {
			sym.Assert(err.(exc.Throwable) == o.t, "Error returns exactly the uncaught exception")
		}
	}
}

// VDispatch: any exception and any catches.
func VDispatch() {
	w := &world{}
	b := &block{try: w.any()}
	n := sym.Choose(sym.Bound("catch clauses", 3, 4) + 1)
	for i := 0; i < n; i++ {
		b.catches = append(b.catches, sym.Choose(ref.Kinds))
		b.catchEnds = append(b.catchEnds, outcome{})
		b.rethrow = append(b.rethrow, false)
	}
	b.finallies = make([]outcome, 1)
	w.run(w.build(b), b, sym.Choose(3))
}

// VParts: any part may end in any way.
func VParts() {
	w := &world{}
	b := &block{try: w.some()}
	for i, n := 0, sym.Choose(3); i < n; i++ {
		b.catches = append(b.catches, []int{ref.KindExc, ref.KindA}[sym.Choose(2)])
		b.catchEnds = append(b.catchEnds, w.some())
		b.rethrow = append(b.rethrow, sym.Choose(2) == 1)
	}
	for i, n := 0, sym.Choose(sym.Bound("finally clauses", 2, 3)+1); i < n; i++ {
		b.finallies = append(b.finallies, w.some())
	}
	w.run(w.build(b), b, sym.Choose(3))
}

// VNested: a block within a block.
func VNested() {
	w := &world{}
	var in *block
	for d := 0; d < sym.Bound("nesting", 2, 3); d++ {
		b := &block{nested: in, try: w.some()}
		if sym.Choose(2) == 1 {
			b.catches = []int{[]int{ref.KindExc, ref.KindA}[sym.Choose(2)]}
			b.catchEnds = []outcome{w.some()}
			b.rethrow = []bool{sym.Choose(2) == 1}
		}
		if d < 2 && sym.Choose(2) == 1 {
			b.finallies = []outcome{w.some()}
		}
		in = b
	}
	w.run(w.build(in), in, sym.Choose(2))
}

// VTwice: running a block again starts afresh.
func VTwice() {
	w := &world{}
	b := &block{try: w.some()}
	if sym.Choose(2) == 1 {
		b.catches = []int{[]int{ref.KindExc, ref.KindA}[sym.Choose(2)]}
		b.catchEnds = []outcome{w.some()}
		b.rethrow = []bool{sym.Choose(2) == 1}
	}
	b.finallies = []outcome{w.some()}
	x := w.build(b)
	w.run(x, b, sym.Choose(3))
	b.try = w.some()
	w.run(x, b, sym.Choose(3))
}

// VRethrow: a rethrown exception keeps its type and errors.
func VRethrow() {
	k := sym.Choose(ref.KindE) // E keeps no reasons
	t := ref.Throwable(k, 1)
	was := append([]*exc.Error{}, t.Exc().Errors...)
	why := &exc.Error{}
	var got exc.Throwable
	caught := 0
	c := sym.Choose(ref.Kinds)
	err := exc.Try(func() {
		exc.Try(func() {
			exc.Throw(t)
		}).Catch(t, func(e exc.Throwable) {
			exc.Rethrow(e, why)
		}).Unwind()
	}).Catch(ref.Sample(c), func(e exc.Throwable) {
		caught++
		got = e
	}).Exception()
	if ref.IsA(k, c) {
		sym.Assert(caught == 1 && err == nil, "a rethrown exception is caught by its type")
	} else {
		sym.Assert(caught == 0 && err != nil, "a rethrown exception is not caught by other types")
		got = err
	}
	sym.Assert(ref.KindOf(got) == k, "a rethrown exception keeps its type")
	if k == ref.KindV {
		sym.Assert(got == exc.Throwable(ref.ExcV{ID: 101}), "a rethrown exception is what Chain returned")
		return
	}
	es := got.Exc().Errors
	sym.Assert(len(es) == len(was)+1 && es[len(es)-1] == why, "a rethrown exception has the reason added")
	for i := range was {
		sym.Assert(es[i] == was[i], "a rethrown exception keeps its errors")
	}
}

// VThrow: the ways of throwing.
func VThrow() {
	e := &exc.Error{}
	t, other := ref.Run(func() { exc.ThrowErr(e) })
	sym.Assert(other == nil && t != nil, "ThrowErr throws")
	es := t.(*exc.Exception).Errors
	sym.Assert(len(es) == 1 && es[0] == e, "ThrowErr throws the error")
	x := ref.ExcV{ID: 5}
	t, other = ref.Run(func() { exc.ThrowOnError(x) })
	sym.Assert(other == nil && t != nil, "ThrowOnError throws")
	es = t.(*exc.Exception).Errors
	sym.Assert(len(es) == 1 && es[0].Err == error(x), "ThrowOnError throws the error")
	t, other = ref.Run(func() { exc.ThrowOnError(nil) })
	sym.Assert(other == nil && t == nil, "ThrowOnError of nil does nothing")
	t, other = ref.Run(func() { exc.Throwf("a %d b", 7) })
	sym.Assert(other == nil && t != nil, "Throwf throws")
	es = t.(*exc.Exception).Errors
	sym.Assert(len(es) == 1 && es[0].Err.Error() == "a 7 b", "Throwf throws the message")
}

// small is a block with at most one catch and one finally.
func (w *world) small() *block {
	b := &block{try: w.some()}
	if sym.Choose(2) == 1 {
		b.catches = []int{[]int{ref.KindExc, ref.KindA}[sym.Choose(2)]}
		b.catchEnds = []outcome{{}}
		b.rethrow = []bool{sym.Choose(2) == 1}
	}
	if sym.Choose(2) == 1 {
		b.finallies = []outcome{{}}
	}
	return b
}

// VInner: blocks within catches and finallies.
func VInner() {
	w := &world{}
	b := &block{try: w.some(), catches: []int{ref.KindExc}, catchEnds: []outcome{{}}, rethrow: []bool{sym.Choose(2) == 1}}
	b.finallies = []outcome{w.some(), {}}
	if sym.Choose(2) == 0 {
		b.inCatch = w.small()
	} else {
		b.inFinally = w.small()
	}
	w.run(w.build(b), b, sym.Choose(3))
}

// VMany: many catches and finallies.
func VMany() {
	w := &world{}
	n := sym.Bound("many clauses", 9, 15)
	b := &block{try: w.any()}
	at, kind := sym.Choose(n), sym.Choose(ref.Kinds)
	for i := 0; i < n; i++ {
		k := ref.KindC
		if i == at {
			k = kind
		}
		b.catches = append(b.catches, k)
		b.catchEnds = append(b.catchEnds, outcome{})
		b.rethrow = append(b.rethrow, i == at)
		b.finallies = append(b.finallies, outcome{})
	}
	b.finallies[sym.Choose(n)] = w.some()
	w.run(w.build(b), b, sym.Choose(3))
}
