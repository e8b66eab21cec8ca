package ref

import (
	"github.com/timtadh/data-structures/exc"
)

// A hierarchy of exception types: B is an A, A and C are Exceptions; N, V
// and E have nothing to do with them.
type (
	ExcA struct{ exc.Exception }
	ExcB struct{ ExcA }
	ExcC struct{ exc.Exception }
	ExcN struct{ Errs []*exc.Error }
	ExcV struct{ ID int }
	ExcE struct{}
)

func (n *ExcN) Exc() *exc.Exception { return &exc.Exception{Errors: n.Errs} }
func (n *ExcN) Error() string       { return "N" }
func (n *ExcN) Chain(e *exc.Error) exc.Throwable {
	return &ExcN{append(append([]*exc.Error{}, n.Errs...), e)}
}

func (v ExcV) Exc() *exc.Exception              { return &exc.Exception{} }
func (v ExcV) Error() string                    { return "V" }
func (v ExcV) Chain(e *exc.Error) exc.Throwable { return ExcV{v.ID + 100} }

func (e *ExcE) Exc() *exc.Exception              { return &exc.Exception{} }
func (e *ExcE) Error() string                    { return "E" }
func (e *ExcE) Chain(x *exc.Error) exc.Throwable { return e }

// Kinds of exceptions.
const (
	KindExc = iota
	KindA
	KindB
	KindC
	KindN
	KindV
	KindE
	Kinds
)

// Throwable makes an exception of a kind.
func Throwable(kind, id int) exc.Throwable {
	e := exc.Exception{Errors: []*exc.Error{{}}}
	switch kind {
	case KindExc:
		return &e
	case KindA:
		return &ExcA{e}
	case KindB:
		return &ExcB{ExcA{e}}
	case KindC:
		return &ExcC{e}
	case KindN:
		return &ExcN{Errs: e.Errors}
	case KindE:
		return &ExcE{}
	}
	return ExcV{id}
}

// Sample is the value to register a catch of a kind with.
func Sample(kind int) exc.Throwable {
	switch kind {
	case KindExc:
		return &exc.Exception{}
	case KindA:
		return &ExcA{}
	case KindB:
		return &ExcB{}
	case KindC:
		return &ExcC{}
	case KindN:
		return &ExcN{}
	case KindE:
		return &ExcE{}
	}
	return ExcV{}
}

// IsA tells whether an exception of kind k is caught by a catch of kind c.
func IsA(k, c int) bool {
	switch {
	case k == c:
		return true
	case c == KindExc:
		return k == KindA || k == KindB || k == KindC
	case c == KindA:
		return k == KindB
	}
	return false
}

// KindOf is the kind of a throwable.
func KindOf(t exc.Throwable) int {
	switch t.(type) {
	case *exc.Exception:
		return KindExc
	case *ExcA:
		return KindA
	case *ExcB:
		return KindB
	case *ExcC:
		return KindC
	case *ExcN:
		return KindN
	case ExcV:
		return KindV
	case *ExcE:
		return KindE
	}
	return -1
}

// Boom is an ordinary panic's value.
type Boom struct{ ID int }

// Run calls f and returns the exception and the other panic it ended with.
func Run(f func()) (t exc.Throwable, other interface{}) {
	done := false
	defer func() {
		if done {
			return
		}
		e := recover()
		if x, ok := e.(exc.Throwable); ok {
			t = x
			return
		}
		other = e
		if other == nil {
			other = "panic with nil"
		}
	}()
	f()
	done = true
	return
}
