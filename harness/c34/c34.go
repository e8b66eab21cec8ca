// Package c34: sorting lists through the adapter.
package c34

import (
	"sort"

	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/types"
	"verif/harness/sym"
)

// item is ordered by Key and told apart by Tag.
type item struct {
	Key int8
	Tag int
}

func (t item) Equals(o types.Equatable) bool { return t.Key == o.(item).Key }
func (t item) Less(o types.Sortable) bool    { return t.Key < o.(item).Key }
func (t item) Hash() int                     { return int(t.Key) }

// make1 builds a list of n items in one of several ways.
func make1(items []types.Hashable, how int) *list.List {
	var l *list.List
	switch how {
	case 0:
		return list.FromSlice(items)
	case 1:
		l = list.New(0)
	case 2:
		l = list.Fixed(len(items))
	}
	for _, x := range items {
		sym.Assert(l.Push(x) == nil, "Push succeeds")
	}
	return l
}

func items(n int) []types.Hashable {
	var s []types.Hashable
	for i := 0; i < n; i++ {
		s = append(s, item{sym.Int8(), i})
	}
	return s
}

// contents reads the adapter.
func contents(s sort.Interface, n int) []item {
	l := s.(*list.Sortable)
	sym.Assert(s.Len() == n && l.Size() == n, "Len")
	var r []item
	for i := 0; i < n; i++ {
		x, err := l.Get(i)
		sym.Assert(err == nil, "Get succeeds")
		r = append(r, x.(item))
	}
	return r
}

// check checks that got is a sorted permutation.
func check(got []item, was []types.Hashable) {
	seen := map[int]bool{}
	for i, x := range got {
		sym.Assert(!seen[x.Tag], "sorting keeps every item")
		seen[x.Tag] = true
		sym.Assert(x.Key == was[x.Tag].(item).Key, "sorting keeps the items as they were")
		if i > 0 {
			sym.Assert(got[i-1].Key <= x.Key, "sorting sorts")
		}
	}
}

// VSort: lists of arbitrary items.
func VSort() {
	n := sym.Choose(sym.Bound("items", 7, 8))
	xs := items(n)
	s := list.NewSortable(make1(xs, sym.Choose(3)))
	stable := sym.Choose(2) == 1
	if stable {
		sort.Stable(s)
	} else {
		sort.Sort(s)
	}
	got := contents(s, n)
	check(got, xs)
	for i := 1; stable && i < n; i++ {
		sym.Assert(sym.Implies(got[i-1].Key == got[i].Key, got[i-1].Tag < got[i].Tag), "a stable sort is stable")
	}
	sym.Assert(sort.IsSorted(s), "the sorted adapter is sorted")
}

// VLarge: long lists, where the standard library sorts in other ways, with two
// arbitrary items.
func VLarge() {
	n := []int{13, 20, 40}[sym.Choose(sym.Bound("long lists", 3, 3))]
	how := sym.Choose(3)
	var xs []types.Hashable
	for i := 0; i < n; i++ {
		k := i
		switch how {
		case 1:
			k = n - i
		case 2:
			k = i * 7 % n
		}
		xs = append(xs, item{int8(2 * k), i})
	}
	xs[0] = item{sym.Int8(), 0}
	xs[n/2] = item{sym.Int8(), n / 2}
	s := list.NewSortable(make1(xs, 0))
	sort.Sort(s)
	check(contents(s, n), xs)
}

// VParts: Len, Less and Swap of any positions.
func VParts() {
	n := sym.Bound("positions", 5, 6)
	xs := items(n)
	s := list.NewSortable(make1(xs, sym.Choose(3)))
	for step := 0; step < 2; step++ {
		i, j := sym.Choose(n), sym.Choose(n)
		less := s.Less(i, j)
		sym.Assert(less == (xs[i].(item).Key < xs[j].(item).Key), "Less compares the addressed items")
		s.Swap(i, j)
		xs[i], xs[j] = xs[j], xs[i]
		for k, x := range contents(s, n) {
			sym.Assert(x == xs[k].(item), "Swap exchanges exactly the addressed items")
		}
	}
}

// VBounds: positions outside the list are refused and nothing changes.
func VBounds() {
	n := sym.Choose(3)
	xs := items(n)
	s := list.NewSortable(make1(xs, 1))
	i, j := sym.Int(), sym.Choose(n+1)
	if n > 0 && j < n {
		sym.Assume(sym.Or(i < 0, i >= n))
	}
	if sym.Choose(2) == 1 {
		i, j = j, i
	}
	if j == n || i == n || n == 0 {
		sym.Assume(sym.And(i >= -1, sym.And(i <= n, sym.And(j >= -1, j <= n))))
	}
	sym.Assert(sym.Panics(func() { s.Less(i, j) }), "Less outside the list panics")
	sym.Assert(sym.Panics(func() { s.Swap(i, j) }), "Swap outside the list panics")
	for k, x := range contents(s, n) {
		sym.Assert(x == xs[k].(item), "a refused Swap changes nothing")
	}
}
