// Package c18: range queries and backward iteration of the B+ tree.
package c18

import (
	"github.com/timtadh/data-structures/types"
	"verif/harness/ref"
	"verif/harness/sym"
)

// VAdds: any insertions, any interval.
func VAdds() {
	m := ref.NewMulti(2 + sym.Choose(2))
	for i := sym.Choose(sym.Bound("additions", 4, 5) + 1); i > 0; i-- {
		m.Add(ref.Int8())
	}
	m.Range(ref.Int8(), ref.Int8())
	m.Backward()
	m.Check()
}

// VRuns: any interval of trees with runs of equal keys.
func VRuns() {
	m := ref.NewMulti(2 + sym.Choose(3))
	shapes := [][]int{{}, {5}, {1, 6}, {6, 1}, {3, 4, 2}, {1, 1, 7, 1}, {1, 1, 1, 1, 1, 1, 1, 1, 1, 1}, {9, 8}, {2, 3, 4, 5}}
	shape := shapes[sym.Choose(sym.Bound("shapes", 7, 9))]
	down := sym.Choose(2) == 1
	for i := range shape {
		j := i
		if down {
			j = len(shape) - 1 - i
		}
		for c := 0; c < shape[j]; c++ {
			m.Add(types.Int8(8 * j))
		}
	}
	m.Range(ref.Int8(), ref.Int8())
	m.Backward()
	m.Lookup(ref.Int8())
}

// VAfterRemove: any interval after arbitrary changes.
func VAfterRemove() {
	m := ref.NewMulti(2 + sym.Choose(2))
	shapes := [][]int{{4, 1}, {1, 4}, {1, 1, 1, 1, 1, 1}, {2, 5, 2}}
	shape := shapes[sym.Choose(4)]
	for j := range shape {
		for c := 0; c < shape[j]; c++ {
			m.Add(types.Int8(8 * j))
		}
	}
	m.RemoveWhere(ref.Int8(), func(v int) bool { return v%2 == 0 })
	if sym.Thorough() {
		m.Add(ref.Int8())
	}
	m.RemoveWhere(types.Int8(8*sym.Choose(len(shape))), func(v int) bool { return true })
	m.Backward()
	m.Range(ref.Int8(), ref.Int8())
}

// VWide: any interval of wide nodes.
func VWide() {
	m := ref.NewMulti([]int{5, 6, 8, 9, 13}[sym.Choose(sym.Bound("wide nodes", 4, 5))])
	shapes := [][]int{{5}, {1, 6}, {3, 5, 2}, {8}, {2, 9, 1}, {13}, {7, 12}}
	shape := shapes[sym.Choose(sym.Bound("shapes in wide nodes", 6, 7))]
	down := sym.Choose(2) == 1
	for i := range shape {
		j := i
		if down {
			j = len(shape) - 1 - i
		}
		for c := 0; c < shape[j]; c++ {
			m.Add(types.Int8(8 * j))
		}
	}
	m.Range(ref.Int8(), ref.Int8())
	m.Backward()
}

// VLarge: larger trees, an interval with an arbitrary end.
func VLarge() {
	m := ref.NewMulti([]int{2, 3, 8, 16}[sym.Choose(4)])
	n := sym.Bound("keys of larger trees", 40, 60)
	for _, i := range ref.Order(n, sym.Choose(3)) {
		for c := 0; c <= i*3%4; c++ {
			m.Add(types.Int16(4 * i))
		}
	}
	a, b := ref.Int16(), types.Hashable(types.Int16(4*(n*sym.Choose(4)/3)-2*sym.Choose(2)))
	if sym.Choose(2) == 1 {
		a, b = b, a
	}
	m.Range(a, b)
	m.Backward()
}

// VAgain: the same interval before and after a change.
func VAgain() {
	m := ref.NewMulti(2 + sym.Choose(3))
	for j, n := range []int{1, 3, 2, 1} {
		for c := 0; c < n; c++ {
			m.Add(types.Int8(8 * j))
		}
	}
	a, b := ref.Int8(), types.Hashable(types.Int8(8*sym.Choose(4)))
	if sym.Choose(2) == 1 {
		a, b = b, a
	}
	m.Range(a, b)
	m.Backward()
	for i := 0; i < sym.Bound("changes between ranges", 2, 3); i++ {
		c := []types.Hashable{a, b, types.Int8(16)}[sym.Choose(3)]
		if sym.Choose(2) == 0 {
			m.Add(c)
		} else {
			m.RemoveWhere(c, func(v int) bool { return v%2 == 0 })
		}
		m.Range(a, b)
		m.Backward()
	}
}
