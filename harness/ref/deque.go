package ref

import (
	"github.com/timtadh/data-structures/types"
	"verif/harness/sym"
)

// Ends is a double ended queue.
type Ends interface {
	Size() int
	Push(types.Hashable) error
	Pop() (types.Hashable, error)
	EnqueFront(types.Hashable) error
	EnqueBack(types.Hashable) error
	DequeFront() (types.Hashable, error)
	DequeBack() (types.Hashable, error)
	First() types.Hashable
	Last() types.Hashable
	Has(types.Hashable) bool
	Items() types.KIterator
	Backwards() types.KIterator
}

// Deque drives a double ended queue together with the sequence it should hold.
type Deque struct {
	D      Ends
	Seq    []types.Hashable
	Unique bool // items already present are ignored
}

func (d *Deque) has(x types.Hashable) bool {
	for i := range d.Seq {
		if d.Seq[i].Equals(x) {
			return true
		}
	}
	return false
}

// Op performs one of six operations.
func (d *Deque) Op(op int, key func() types.Hashable) {
	switch op {
	case 0, 1, 2:
		x := key()
		var err error
		switch op {
		case 0:
			err = d.D.EnqueFront(x)
		case 1:
			err = d.D.EnqueBack(x)
		case 2:
			err = d.D.Push(x)
		}
		sym.Assert(err == nil, "adding succeeds")
		if d.Unique && d.has(x) {
			return
		}
		if op == 0 {
			d.Seq = append([]types.Hashable{x}, d.Seq...)
		} else {
			d.Seq = append(Clone(d.Seq), x)
		}
	default:
		var x types.Hashable
		var err error
		switch op {
		case 3:
			x, err = d.D.DequeFront()
		case 4:
			x, err = d.D.DequeBack()
		case 5:
			x, err = d.D.Pop()
		}
		n := len(d.Seq)
		if n == 0 {
			sym.Assert(err != nil, "removing from an empty queue is an error")
			return
		}
		sym.Assert(err == nil && x != nil, "removing succeeds")
		if op == 3 {
			sym.Assert(x.Equals(d.Seq[0]), "DequeFront removes the first item")
			d.Seq = d.Seq[1:]
		} else {
			sym.Assert(x.Equals(d.Seq[n-1]), "removing at the back removes the last item")
			d.Seq = d.Seq[:n-1]
		}
	}
}

// Check compares everything observable with the sequence.
func (d *Deque) Check() {
	n := len(d.Seq)
	sym.Assert(d.D.Size() == n, "Size")
	Same(Items(d.D.Items(), n, "Items"), d.Seq, "Items")
	Same(Items(d.D.Backwards(), n, "Backwards"), Reverse(d.Seq), "Backwards")
	if n == 0 {
		sym.Assert(d.D.First() == nil && d.D.Last() == nil, "First and Last of an empty queue")
		return
	}
	sym.Assert(d.D.First() != nil && d.D.First().Equals(d.Seq[0]), "First")
	sym.Assert(d.D.Last() != nil && d.D.Last().Equals(d.Seq[n-1]), "Last")
	for _, x := range d.Seq {
		sym.Assert(d.D.Has(x), "Has of a present item")
	}
}

// Probe asks for an arbitrary item.
func (d *Deque) Probe(x types.Hashable) {
	has := d.D.Has(x)
	sym.Assert(has == In(d.Seq, x), "Has")
}
