// Package c16: BpMap against the reference map.
package c16

import (
	"github.com/timtadh/data-structures/tree/bptree"
	"github.com/timtadh/data-structures/types"
	"verif/harness/ref"
	"verif/harness/sym"
)

func world(size int) *ref.World { return &ref.World{M: bptree.NewBpMap(size), Sorted: true} }

// VHistory: every history of a few operations, several node sizes.
func VHistory() {
	world(2+sym.Choose(sym.Bound("node sizes from 2", 3, 4))).History(sym.Bound("operations", 4, 5), ref.Int8)
}

// VSmall: longer histories with the smallest nodes.
func VSmall() {
	world(2).History(sym.Bound("operations with nodes of two", 5, 6), ref.Int8)
}

// VInsert: any order of insertion, then removals.
func VInsert() {
	w := world(2 + sym.Choose(2))
	for i := 0; i < sym.Bound("insertions", 5, 6); i++ {
		w.Put(ref.Int8())
	}
	w.Check()
	for i := 0; i < sym.Bound("removals", 1, 2); i++ {
		w.Remove(ref.Int8())
		w.Check()
	}
	w.CheckGets()
}

// order is one of several ways to go through n keys.
func order(n, how int) []int {
	var s []int
	for i := 0; i < n; i++ {
		switch how {
		case 0:
			s = append(s, i)
		case 1:
			s = append(s, n-1-i)
		case 2: // from the outside in
			if i%2 == 0 {
				s = append(s, i/2)
			} else {
				s = append(s, n-1-i/2)
			}
		case 3: // scattered; n is not a multiple of 7
			s = append(s, (i*7+3)%n)
		}
	}
	return s
}

// VDeep: arbitrary operations on trees of several levels.
func VDeep() {
	size := 2 + sym.Choose(sym.Bound("node sizes of large maps", 3, 4))
	n := []int{8, 18, 27}[sym.Choose(sym.Bound("sizes", 1, 3))]
	w := world(size)
	for _, i := range order(n, sym.Choose(4)) {
		w.Put(types.Int8(4*i - 64))
	}
	w.Check()
	for i := 0; i < sym.Bound("operations on large maps", 2, 2); i++ {
		w.Step(sym.Choose(2), ref.Int8())
	}
	w.Check()
	w.CheckGets()
}

// VDrain: removing everything in some order, with an arbitrary operation in
// between, and filling again.
func VDrain() {
	n := []int{5, 9}[sym.Choose(2)]
	w := world(2 + sym.Choose(2))
	for _, i := range order(n, sym.Choose(4)) {
		w.Put(types.Int8(4 * i))
	}
	at := sym.Choose(n)
	for j, i := range order(n, sym.Choose(4)) {
		if j == at {
			w.Step(sym.Choose(2), ref.Int8())
			w.Check()
		}
		w.Get(types.Int8(4 * i))
		w.Remove(types.Int8(4 * i))
	}
	w.Check()
	w.Put(types.Int8(7))
	w.Put(types.Int8(3))
	w.Put(types.Int8(5))
	w.Check()
	w.CheckGets()
}

// VLarge: an arbitrary operation on larger maps with narrow and wide nodes.
func VLarge() {
	sizes := []int{2, 3, 7, 16, 32}
	world(sizes[sym.Choose(len(sizes))]).Large(sym.Bound("entries of larger maps", 60, 120))
}

// VBetween: lookups between changes.
func VBetween() { world(2 + sym.Choose(3)).Between() }
