// Package c28: Close blocks.
package c28

import (
	"errors"
	"io"

	"github.com/timtadh/data-structures/exc"
	"verif/harness/ref"
	"verif/harness/sym"
)

// part is something that ran.
type part struct {
	what string
	res  *res
}

type world struct {
	got, want []part
}

func (w *world) saw(what string, r *res)    { w.got = append(w.got, part{what, r}) }
func (w *world) expect(what string, r *res) { w.want = append(w.want, part{what, r}) }

// res is the resource.
type res struct {
	w   *world
	err error
}

func (r *res) Close() error {
	r.w.saw("close", r)
	return r.err
}

// plan is what happens in one run of the block.
type plan struct {
	makes, body exc.Throwable
	other       interface{} // a panic of the body
	r           *res
}

func choose(w *world, other bool) *plan {
	p := &plan{r: &res{w: w}}
	if sym.Choose(2) == 1 {
		p.makes = ref.Throwable(ref.KindExc, 1)
		return p
	}
	switch sym.Choose(4) {
	case 1:
		p.body = ref.Throwable(ref.KindA, 2)
	case 2:
		p.body = ref.Throwable(ref.KindN, 3)
	case 3:
		if other {
			p.other = ref.Boom{ID: 4}
		}
	}
	if sym.Choose(2) == 1 {
		p.r.err = errors.New("close failed")
	}
	return p
}

// run runs the block and checks what ran; catches is the kind caught or -1.
func (w *world) run(b *exc.Block, p *plan, how, catches int, finally bool) {
	w.got, w.want = nil, nil
	w.expect("make", nil)
	end := p.makes
	closeErr := false
	if p.makes == nil {
		w.expect("body", p.r)
		end = p.body
		if p.other == nil {
			w.expect("close", p.r)
			if p.r.err != nil {
				closeErr = true
			}
		}
	}
	if p.other == nil {
		kind := -1
		switch {
		case closeErr:
			kind = ref.KindExc
		case end != nil:
			kind = ref.KindOf(end)
		}
		if kind >= 0 && catches >= 0 && ref.IsA(kind, catches) {
			w.expect("catch", nil)
			end, closeErr = nil, false
		}
		if finally {
			w.expect("finally", nil)
		}
	}
	var t exc.Throwable
	var err error
	pt, other := ref.Run(func() {
		switch how {
		case 0:
			b.Unwind()
		case 1:
			t = b.Exception()
		case 2:
			err = b.Error()
		}
	})
	if how == 0 {
		t = pt
	} else {
		sym.Assert(pt == nil, "Error and Exception raise nothing")
	}
	if how == 2 && err != nil {
		t = err.(exc.Throwable)
	}
	sym.Assert(len(w.got) == len(w.want), "exactly the expected parts run")
	for i := range w.got {
		sym.Assert(w.got[i] == w.want[i], "parts run in order, Close once on the created resource")
	}
	sym.Assert(other == p.other, "other panics propagate unchanged")
	if closeErr {
		sym.Assert(t != nil && ref.KindOf(t) == ref.KindExc, "an error of Close is raised")
		es := t.Exc().Errors
		sym.Assert(len(es) == 1 && es[0].Err == p.r.err, "exactly the error of Close is raised")
	} else {
		sym.Assert(t == end, "the uncaught exception propagates")
	}
}

func (w *world) build(p **plan, catches int, finally bool) *exc.Block {
	b := exc.Close(func() io.Closer {
		w.saw("make", nil)
		if (*p).makes != nil {
			exc.Throw((*p).makes)
		}
		return (*p).r
	}, func(c io.Closer) {
		w.saw("body", c.(*res))
		if (*p).other != nil {
			panic((*p).other)
		}
		if (*p).body != nil {
			exc.Throw((*p).body)
		}
	})
	if finally {
		b = b.Finally(func() { w.saw("finally", nil) })
	}
	if catches >= 0 {
		b = b.Catch(ref.Sample(catches), func(exc.Throwable) { w.saw("catch", nil) })
	}
	return b
}

// VClose: everything that may fail.
func VClose() {
	w := &world{}
	p := choose(w, true)
	catches, finally := sym.Choose(ref.Kinds+1)-1, sym.Choose(2) == 1
	w.run(w.build(&p, catches, finally), p, sym.Choose(3), catches, finally)
}

// VTwice: a block that runs again uses a new resource.
func VTwice() {
	w := &world{}
	p := choose(w, false)
	catches, finally := sym.Choose(3)-1, sym.Choose(2) == 1
	b := w.build(&p, catches, finally)
	for i := 0; i < sym.Bound("runs", 3, 3); i++ {
		if i > 0 {
			p = choose(w, false)
		}
		w.run(b, p, sym.Choose(3), catches, finally)
	}
}

// VNested: the resource of an inner Close block is closed first.
func VNested() {
	w := &world{}
	outer, inner := &res{w: w}, &res{w: w}
	if sym.Choose(2) == 1 {
		inner.err = errors.New("inner close failed")
	}
	if sym.Choose(2) == 1 {
		outer.err = errors.New("outer close failed")
	}
	var body exc.Throwable
	if sym.Choose(2) == 1 {
		body = ref.Throwable(ref.KindB, 1)
	}
	t := exc.Close(func() io.Closer { return outer }, func(io.Closer) {
		exc.Close(func() io.Closer { return inner }, func(io.Closer) {
			w.saw("body", nil)
			if body != nil {
				exc.Throw(body)
			}
		}).Unwind()
		w.saw("after", nil)
	}).Exception()
	want := []part{{"body", nil}, {"close", inner}}
	if body == nil && inner.err == nil {
		want = append(want, part{"after", nil})
	}
	want = append(want, part{"close", outer})
	sym.Assert(len(w.got) == len(want), "exactly the expected parts run")
	for i := range want {
		sym.Assert(w.got[i] == want[i], "inner resources are closed first")
	}
	switch {
	case outer.err != nil:
		sym.Assert(t != nil && t.Exc().Errors[0].Err == outer.err, "the outer error is raised")
	case inner.err != nil:
		sym.Assert(t != nil && t.Exc().Errors[0].Err == inner.err, "the inner error is raised")
	default:
		sym.Assert(t == body, "the body's exception propagates")
	}
}
