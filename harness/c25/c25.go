// Package c25: the unique deque.
package c25

import (
	"github.com/timtadh/data-structures/linked"
	"github.com/timtadh/data-structures/types"
	"verif/harness/ref"
	"verif/harness/sym"
)

func flat() types.Hashable { return ref.S{ID: sym.Int8()} }

// VHistory: every history of the six operations.
func VHistory() {
	d := &ref.Deque{D: linked.NewUniqueDeque(), Unique: true}
	for i := 0; i < sym.Bound("operations", 4, 5); i++ {
		d.Op(sym.Choose(6), flat)
		d.Check()
	}
	d.Probe(flat())
	d.Check()
}

// VLong: longer histories over few items, so that most are present or were.
func VLong() {
	d := &ref.Deque{D: linked.NewUniqueDeque(), Unique: true}
	ops := []int{0, 1, 3, 4}
	for i := 0; i < sym.Bound("operations in long histories", 6, 7); i++ {
		d.Op(ops[sym.Choose(4)], func() types.Hashable {
			id := sym.Int8()
			sym.Assume(sym.And(id >= 0, id < 3))
			return ref.S{ID: id}
		})
		d.Check()
	}
	d.Probe(flat())
}

// VHashes: items with arbitrary hash codes.
func VHashes() {
	d := &ref.Deque{D: linked.NewUniqueDeque(), Unique: true}
	made := []ref.K{{ID: 1, H: sym.Int()}}
	made = append(made, ref.K{ID: 2, H: made[0].H ^ sym.Choose(2)*64})
	for i := 0; i < sym.Bound("operations with any hash", 4, 5); i++ {
		d.Op(sym.Choose(6), func() types.Hashable { return made[sym.Choose(2)] })
		d.Check()
	}
	d.Probe(made[0])
	d.Probe(made[1])
}

// VLarge: arbitrary operations on larger queues filled from either end.
func VLarge() {
	d := &ref.Deque{D: linked.NewUniqueDeque(), Unique: true}
	n := sym.Bound("items of larger queues", 70, 140)
	how := sym.Choose(3)
	for i := 0; i < n; i++ {
		d.Op([]int{1, 0, i % 2}[how], func() types.Hashable { return ref.S{ID: int8(i)} })
	}
	d.Check()
	for i := sym.Choose(2) * (n - 1); i > 0; i-- {
		d.Op(3+i%2, nil)
	}
	if op := sym.Choose(7); op == 6 {
		d.Probe(flat())
	} else {
		d.Op(op, flat)
	}
	d.Check()
	d.Op(3+sym.Choose(2), nil)
	d.Check()
}

// VBetween: an item looked for between operations.
func VBetween() {
	d := &ref.Deque{D: linked.NewUniqueDeque(), Unique: true}
	x := flat()
	for i := 0; i < 2; i++ {
		d.Op(0, flat)
	}
	d.Probe(x)
	for i := 0; i < sym.Bound("operations between lookups", 4, 5); i++ {
		d.Op(sym.Choose(6), func() types.Hashable { return x })
		d.Probe(x)
		d.Check()
	}
}
