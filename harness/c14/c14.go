// Package c14: ImmutableAvlTree against the reference map.
package c14

import (
	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/types"
	"verif/harness/ref"
	"verif/harness/sym"
)

func world() *ref.World { return &ref.World{M: avl.NewImmutableAvlTree(), Sorted: true} }

// VHistory: every history of a few operations on arbitrary keys.
func VHistory() {
	world().History(sym.Bound("operations", 5, 6), ref.Int8)
}

// VInsert: any order of insertion, then removals.
func VInsert() {
	w := world()
	for i := 0; i < sym.Bound("insertions", 5, 6); i++ {
		w.Put(ref.Int8())
	}
	w.Check()
	for i := 0; i < sym.Bound("removals", 1, 2); i++ {
		w.Remove(ref.Int8())
		w.Check()
	}
	w.CheckGets()
}

// order is one of several ways to insert n keys.
func order(n, how int) []int {
	var s []int
	for i := 0; i < n; i++ {
		switch how {
		case 0:
			s = append(s, i)
		case 1:
			s = append(s, n-1-i)
		case 2: // from the outside in
			if i%2 == 0 {
				s = append(s, i/2)
			} else {
				s = append(s, n-1-i/2)
			}
		case 3: // scattered
			s = append(s, (i*7+3)%n)
		case 4: // from the middle out
			if i%2 == 0 {
				s = append(s, n/2+i/2)
			} else {
				s = append(s, n/2-1-i/2)
			}
		}
	}
	return s
}

// VDeep: arbitrary operations on larger trees of several shapes.
func VDeep() {
	sizes := []int{7, 15, 22, 31}
	n := sizes[sym.Choose(sym.Bound("sizes", 3, 4))]
	how := sym.Choose(5)
	if how == 3 && n%7 == 0 {
		n++
	}
	if how == 4 && n%2 == 1 {
		n++
	}
	w := world()
	for _, i := range order(n, how) {
		w.Put(types.Int8(4*i - 64))
	}
	w.Check()
	for i := 0; i < sym.Bound("operations on large trees", 2, 3); i++ {
		w.Step(sym.Choose(2), ref.Int8())
	}
	w.Check()
	w.CheckGets()
}

// VDrain: removing everything in some order, with arbitrary operations in
// between.
func VDrain() {
	const n = 8
	w := world()
	for _, i := range order(n, sym.Choose(5)) {
		w.Put(types.Int8(4 * i))
	}
	at := sym.Choose(n)
	for j, i := range order(n, sym.Choose(5)) {
		if j == at {
			w.Step(sym.Choose(2), ref.Int8())
			w.Check()
		}
		w.Remove(types.Int8(4 * i))
	}
	w.Check()
	w.CheckGets()
}

// VLarge: an arbitrary operation on larger trees after removals.
func VLarge() { world().Large(sym.Bound("entries of larger trees", 100, 150)) }

// VShapes: an arbitrary operation on trees that are as unbalanced as they may
// be.
func VShapes() { world().Shaped(sym.Bound("height of the lower subtree", 2, 3)) }

// VBetween: lookups between changes.
func VBetween() { world().Between() }
