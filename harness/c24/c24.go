// Package c24: the linked list as a double ended queue.
package c24

import (
	"github.com/timtadh/data-structures/linked"
	"github.com/timtadh/data-structures/types"
	"verif/harness/ref"
	"verif/harness/sym"
)

// VHistory: every history of the six operations.
func VHistory() {
	d := &ref.Deque{D: linked.New()}
	for i := 0; i < sym.Bound("operations", 5, 6); i++ {
		d.Op(sym.Choose(6), ref.Int8)
		d.Check()
	}
	d.Probe(ref.Int8())
	d.Check()
}

// VLong: longer histories without the synonyms Push and Pop.
func VLong() {
	d := &ref.Deque{D: linked.New()}
	ops := []int{0, 1, 3, 4}
	for i := 0; i < sym.Bound("operations in long histories", 6, 7); i++ {
		d.Op(ops[sym.Choose(4)], ref.Int8)
	}
	d.Check()
	d.Probe(ref.Int8())
}

// VLarge: arbitrary operations on larger queues filled from either end.
func VLarge() {
	d := &ref.Deque{D: linked.New()}
	n := sym.Bound("items of larger queues", 70, 140)
	how := sym.Choose(3)
	for i := 0; i < n; i++ {
		d.Op([]int{1, 0, i % 2}[how], func() types.Hashable { return types.Int8(int8(i)) })
	}
	d.Check()
	for i := sym.Choose(2) * (n - 1); i > 0; i-- {
		d.Op(3+i%2, nil)
	}
	if op := sym.Choose(7); op == 6 {
		d.Probe(ref.Int8())
	} else {
		d.Op(op, ref.Int8)
	}
	d.Check()
	d.Op(3+sym.Choose(2), nil)
	d.Check()
}

// VBetween: an item looked for between operations.
func VBetween() {
	d := &ref.Deque{D: linked.New()}
	x := ref.Int8()
	for i := 0; i < 2; i++ {
		d.Op(0, ref.Int8)
	}
	d.Probe(x)
	for i := 0; i < sym.Bound("operations between lookups", 4, 5); i++ {
		d.Op(sym.Choose(6), func() types.Hashable { return x })
		d.Probe(x)
		d.Check()
	}
}
