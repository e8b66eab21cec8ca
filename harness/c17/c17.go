// Package c17: the B+ tree as a multimap.
package c17

import (
	"github.com/timtadh/data-structures/types"
	"verif/harness/ref"
	"verif/harness/sym"
)

// where is one of several predicates on values.
func where() func(int) bool {
	switch sym.Choose(3) {
	case 0:
		return func(int) bool { return true }
	case 1:
		return func(v int) bool { return v%2 == 1 }
	}
	return func(v int) bool { return v%2 == 0 }
}

func step(m *ref.Multi, k types.Hashable) {
	switch sym.Choose(3) {
	case 0:
		m.Add(k)
	case 1:
		m.RemoveWhere(k, where())
	case 2:
		m.Replace(k, where())
	}
}

// VHistory: every history of a few operations.
func VHistory() {
	m := ref.NewMulti(2 + sym.Choose(2))
	for i := 0; i < sym.Bound("operations", 4, 4); i++ {
		step(m, ref.Int8())
		m.Check()
	}
	m.Lookup(ref.Int8())
	sym.Observe(m.T.Size())
}

// VAdds: any order of insertion with any repetition, then an operation.
func VAdds() {
	m := ref.NewMulti(2 + sym.Choose(2))
	for i := 0; i < sym.Bound("additions", 4, 5); i++ {
		m.Add(ref.Int8())
	}
	m.Check()
	step(m, ref.Int8())
	m.Check()
	m.Lookup(ref.Int8())
}

// runs fills a tree with runs of equal keys: key 0 is every eighth value.
func runs(m *ref.Multi, lengths []int, down bool) {
	for i := range lengths {
		j := i
		if down {
			j = len(lengths) - 1 - i
		}
		for c := 0; c < lengths[j]; c++ {
			m.Add(types.Int8(8 * j))
		}
	}
}

// VRuns: arbitrary operations on trees with long runs of equal keys.
func VRuns() {
	m := ref.NewMulti(2 + sym.Choose(sym.Bound("node sizes from 2", 2, 3)))
	shapes := [][]int{{5}, {1, 6}, {6, 1}, {3, 4, 2}, {1, 1, 7, 1}, {9, 8}, {2, 3, 4, 5}}
	runs(m, shapes[sym.Choose(sym.Bound("shapes", 5, 7))], sym.Choose(2) == 1)
	m.Check()
	for i := 0; i < sym.Bound("operations on runs", 2, 3); i++ {
		step(m, ref.Int8())
		m.Check()
	}
	m.Lookup(ref.Int8())
}

// VRefill: a run is thinned out, then keys around it are added.
func VRefill() {
	m := ref.NewMulti(2 + sym.Choose(3))
	n := 3 + sym.Choose(sym.Bound("run lengths from 3", 4, 6))
	for i := 0; i < n; i++ {
		m.Add(types.Int8(0))
	}
	if sym.Choose(2) == 1 {
		m.Add(types.Int8(8))
	}
	m.RemoveWhere(types.Int8(0), where())
	m.Check()
	for i := 0; i < sym.Bound("additions after thinning", 2, 3); i++ {
		m.Add(ref.Int8())
		m.Check()
	}
	m.RemoveWhere(ref.Int8(), where())
	m.Check()
	m.Lookup(ref.Int8())
}

// VDistinct: arbitrary operations on deep trees of distinct keys.
func VDistinct() {
	m := ref.NewMulti(2 + sym.Choose(2))
	n := []int{7, 12}[sym.Choose(2)]
	how := sym.Choose(3)
	for i := 0; i < n; i++ {
		j := i
		switch how {
		case 1:
			j = n - 1 - i
		case 2:
			j = i * 5 % n
		}
		m.Add(types.Int8(8 * j))
	}
	for i := 0; i < sym.Bound("operations on deep trees", 1, 2); i++ {
		step(m, ref.Int8())
	}
	m.Check()
	m.Lookup(ref.Int8())
}

// VAnyPredicate: a predicate deciding on each value separately.
func VAnyPredicate() {
	m := ref.NewMulti(2 + sym.Choose(2))
	n := sym.Bound("values decided separately", 5, 6)
	for i := 0; i < n; i++ {
		m.Add(types.Int8(0))
	}
	m.Add(types.Int8(8))
	m.Add(types.Int8(-8))
	pick := make([]bool, n+10)
	for i := range pick[:n+1] {
		pick[i] = sym.Bool()
	}
	if sym.Choose(2) == 0 {
		m.RemoveWhere(types.Int8(0), func(v int) bool { return pick[v] })
	} else {
		m.Replace(types.Int8(0), func(v int) bool { return pick[v] })
	}
	m.Check()
	m.Add(ref.Int8())
	m.Check()
	m.Lookup(types.Int8(0))
}

// VEmpty: operations on trees that never held anything or were emptied.
func VEmpty() {
	m := ref.NewMulti(2 + sym.Choose(2))
	n := sym.Choose(5)
	for i := 0; i < n; i++ {
		m.Add(types.Int8(i / 2))
	}
	for i := 0; i < n; i++ {
		m.RemoveWhere(types.Int8(i/2), func(int) bool { return true })
	}
	m.Check()
	step(m, ref.Int8())
	m.Lookup(ref.Int8())
	step(m, ref.Int8())
	m.Check()
}

// VWide: runs within wide nodes.
func VWide() {
	m := ref.NewMulti([]int{5, 6, 8, 9, 13}[sym.Choose(sym.Bound("wide nodes", 4, 5))])
	shapes := [][]int{{5}, {1, 6}, {3, 5, 2}, {8}, {2, 9, 1}, {13}, {7, 12}}
	runs(m, shapes[sym.Choose(sym.Bound("shapes in wide nodes", 6, 7))], sym.Choose(2) == 1)
	m.Lookup(ref.Int8())
	step(m, ref.Int8())
	m.Check()
	m.Lookup(ref.Int8())
}

// VLarge: an arbitrary operation on larger trees with many runs.
func VLarge() {
	m := ref.NewMulti([]int{2, 3, 8, 16}[sym.Choose(4)])
	n := sym.Bound("runs in larger trees", 24, 40)
	for _, i := range ref.Order(n, sym.Choose(3)) {
		for c := 0; c <= i*3%7; c++ {
			m.Add(types.Int16(4 * i))
		}
	}
	m.RemoveWhere(types.Int16(4*(n/2)), where())
	m.Check()
	k := ref.Int16()
	m.Lookup(k)
	step(m, k)
	m.Check()
	m.Lookup(types.Int16(4 * (n / 3)))
}

// VBetween: lookups between changes.
func VBetween() {
	m := ref.NewMulti(2 + sym.Choose(3))
	runs(m, []int{1, 3, 2, 1}, false)
	k := ref.Int8()
	m.Lookup(k)
	for i := 0; i < sym.Bound("changes between lookups", 3, 3); i++ {
		c := k
		if j := sym.Choose(4); j < 3 {
			c = types.Int8(8 * j)
		}
		switch sym.Choose(3) {
		case 0:
			m.Add(c)
		case 1:
			m.RemoveWhere(c, func(v int) bool { return v%2 == 0 })
		case 2:
			m.Replace(c, func(v int) bool { return v%2 == 1 })
		}
		m.Lookup(k)
		m.Lookup(types.Int8(8))
	}
	m.Check()
}
