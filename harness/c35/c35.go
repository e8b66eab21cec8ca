// Package c35: errors and exceptions keep their messages.
package c35

import (
	"strings"

	"github.com/timtadh/data-structures/errors"
	"github.com/timtadh/data-structures/exc"
	"verif/harness/ref"
	"verif/harness/sym"
)

// thrown is an exception with the errors it should hold.
type thrown struct {
	t    exc.Throwable
	want []*exc.Error
}

type world struct {
	all []*thrown
	n   int
}

var names = []string{"<m0>", "<m1>", "<m2>", "<m3>", "<m4>", "<m5>", "<m6>", "<m7>", "<m8>", "<m9>", "<m10>", "<m11>"}

func (w *world) err() *exc.Error {
	w.n++
	return exc.Errorf("%s", names[w.n-1])
}

func more(s []*exc.Error, e ...*exc.Error) []*exc.Error {
	return append(append([]*exc.Error{}, s...), e...)
}

func (w *world) add(t exc.Throwable, want []*exc.Error) { w.all = append(w.all, &thrown{t, want}) }

func (w *world) check() {
	for _, x := range w.all {
		es := x.t.Exc().Errors
		sym.Assert(len(es) == len(x.want), "every error is kept")
		for i := range es {
			sym.Assert(es[i] == x.want[i], "errors are kept in order")
		}
	}
}

// text checks the messages of an exception.
func text(s string, want []*exc.Error) {
	at := 0
	for _, e := range want {
		i := strings.Index(s[at:], e.Err.Error())
		sym.Assert(i >= 0, "every message appears in order")
		at += i + len(e.Err.Error())
	}
}

// wrap makes a custom exception of an exception, as the documentation says.
func wrap(t exc.Throwable) exc.Throwable {
	return &ref.ExcA{Exception: *t.Exc()}
}

// VHistory: exceptions created from each other.
func VHistory() {
	w := &world{}
	e := w.err()
	w.add(e.Exception(), []*exc.Error{e})
	for i := 0; i < sym.Bound("operations", 5, 6); i++ {
		x := w.all[sym.Choose(len(w.all))]
		e := w.err()
		switch sym.Choose(5) {
		case 0:
			if sym.Choose(2) == 1 {
				e = x.want[len(x.want)-1] // added before
			}
			r := x.t.Chain(e)
			x.want = more(x.want, e)
			sym.Assert(r.Exc() == x.t.Exc(), "Chain returns the exception")
		case 1:
			y := w.all[sym.Choose(len(w.all))]
			j := x.t.Exc().Join(y.t.Exc())
			sym.Assert(j != x.t.Exc() && j != y.t.Exc(), "Join makes a new exception")
			w.add(j, more(x.want, y.want...))
		case 2:
			w.add(wrap(x.t), x.want)
		case 3:
			t, other := ref.Run(func() { exc.Rethrow(x.t, e) })
			sym.Assert(other == nil && t == x.t, "Rethrow throws the exception")
			x.want = more(x.want, e)
		case 4:
			w.add(e.Exception(), []*exc.Error{e})
		}
		w.check()
	}
}

// VLong: a long chain, copied at any moment, with both copies continued.
func VLong() {
	w := &world{}
	e := w.err()
	w.add(e.Exception(), []*exc.Error{e})
	for i := 0; i < sym.Bound("chained errors", 7, 9); i++ {
		if len(w.all) < 2 && sym.Choose(2) == 1 {
			w.add(wrap(w.all[0].t), w.all[0].want)
		}
		x := w.all[sym.Choose(len(w.all))]
		e := w.err()
		if i == 4 || i == 5 {
			e = x.want[sym.Choose(len(x.want))] // added before
		}
		x.t.Chain(e)
		x.want = more(x.want, e)
	}
	w.check()
}

// VText: the text of exceptions.
func VText() {
	w := &world{}
	var want []*exc.Error
	t := &exc.Exception{}
	for i, n := 0, sym.Choose(5); i < n; i++ {
		e := w.err()
		if i > 0 && sym.Choose(2) == 1 {
			e = want[sym.Choose(i)] // an error added before
		}
		want = append(want, e)
		switch sym.Choose(2) {
		case 0:
			t.Chain(e)
		case 1:
			t = t.Join(e.Exception())
		}
		text(t.Error(), want)
	}
	text(t.Error(), want)
	text(t.String(), want)
	text((&ref.ExcA{Exception: *t}).Error(), want)
	err := exc.Try(func() { exc.Throw(t) }).Error()
	text(err.Error(), want)
}

// plain is the text of an errors.Error.
func plain(s string, want []string) {
	at := 0
	for _, m := range want {
		i := strings.Index(s[at:], m)
		sym.Assert(i >= 0, "every message appears in order")
		at += i + len(m)
	}
}

// VErrors: the errors package.
func VErrors() {
	type held struct {
		e    *errors.Error
		want []error
		text []string
	}
	all := []*held{}
	n := 0
	mk := func() *held {
		e := errors.Errorf("%s%d", names[n], n).(*errors.Error)
		n++
		sym.Assert(len(e.Errs) == 1, "a new error holds its message")
		return &held{e, []error{e.Errs[0]}, []string{names[n-1]}}
	}
	all = append(all, mk())
	for i := 0; i < sym.Bound("operations on errors", 5, 6); i++ {
		x := all[sym.Choose(len(all))]
		switch sym.Choose(3) {
		case 0:
			y := mk()
			r := x.e.Chain(y.e)
			sym.Assert(r == error(x.e), "Chain returns the error")
			x.want = append(append([]error{}, x.want...), y.e)
			x.text = append(append([]string{}, x.text...), y.text...)
		case 1:
			c := *x.e
			all = append(all, &held{&c, x.want, x.text})
		case 2:
			all = append(all, mk())
		}
		for _, h := range all {
			sym.Assert(len(h.e.Errs) == len(h.want), "every error is kept")
			for j := range h.want {
				sym.Assert(h.e.Errs[j] == h.want[j], "errors are kept in order")
			}
		}
		plain(x.e.Error(), x.text)
	}
	for _, h := range all {
		plain(h.e.Error(), h.text)
		plain(h.e.String(), h.text)
	}
}

// VNil: nil errors have a text.
func VNil() {
	var e *exc.Error
	var f *errors.Error
	sym.Assert(e.Error() == "Error <nil>" && f.Error() == "Error <nil>", "the text of nil")
	sym.Assert((&errors.Error{}).Error() != "", "the text of no error")
}

// VFrom: an error made from another one keeps it.
func VFrom() {
	v := ref.ExcV{ID: 3}
	e := exc.FromError(v)
	sym.Assert(e.Err == error(v), "FromError keeps the error")
	x := e.Exception()
	sym.Assert(len(x.Errors) == 1 && x.Errors[0] == e, "Exception holds the error")
	sym.Assert(x.Exc() == x, "Exc is the exception itself")
}
