// Package c45: containers keep the items they were given, not merely equal
// ones.
package c45

import (
	"github.com/timtadh/data-structures/hashtable"
	"github.com/timtadh/data-structures/heap"
	"github.com/timtadh/data-structures/linked"
	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/tree/bptree"
	"github.com/timtadh/data-structures/types"
	"verif/harness/ref"
	"verif/harness/sym"
)

// maker makes items, each with a tag of its own.
type maker struct{ n int }

func (m *maker) item() ref.T {
	m.n++
	return ref.T{ID: sym.Int8(), Tag: m.n}
}

// few makes one of two items.
func (m *maker) few() ref.T {
	m.n++
	return ref.T{ID: int8(sym.Choose(2)), Tag: m.n}
}

// are checks that the iterator yields the very items.
func are(it types.KIterator, want []ref.T, what string) {
	i := 0
	for x, next := it(); next != nil; x, next = next() {
		sym.Assert(i < len(want), what+": too many items")
		sym.Assert(want[i].Is(x), what+": not the item given")
		i++
	}
	sym.Assert(i == len(want), what+": too few items")
}

func insert(s []ref.T, i int, x ref.T) []ref.T {
	r := append([]ref.T{}, s[:i]...)
	r = append(r, x)
	return append(r, s[i:]...)
}

func remove(s []ref.T, i int) []ref.T {
	r := append([]ref.T{}, s[:i]...)
	return append(r, s[i+1:]...)
}

func find(s []ref.T, x ref.T) int {
	for i := range s {
		if s[i].ID == x.ID {
			return i
		}
	}
	return -1
}

func ok(err error, what string) { sym.Assert(err == nil, what+" succeeds") }

// VList: the array list.
func VList() {
	m := &maker{}
	l := list.New(1)
	if sym.Choose(2) == 1 {
		l = list.Fixed(9)
	}
	want := []ref.T{m.few()}
	ok(l.Append(want[0]), "Append")
	for i := 0; i < sym.Bound("operations on a list", 3, 4); i++ {
		n := len(want)
		switch sym.Choose(7) {
		case 0:
			x := m.few()
			ok(l.Append(x), "Append")
			want = insert(want, n, x)
		case 1:
			x, at := m.few(), sym.Choose(n+1)
			ok(l.Insert(at, x), "Insert")
			want = insert(want, at, x)
		case 2:
			if n > 0 {
				x, at := m.few(), sym.Choose(n)
				ok(l.Set(at, x), "Set")
				want = insert(remove(want, at), at, x)
			}
		case 3:
			if n > 0 {
				at := sym.Choose(n)
				ok(l.Remove(at), "Remove")
				want = remove(want, at)
			}
		case 4:
			if n > 0 {
				x, err := l.Pop()
				ok(err, "Pop")
				sym.Assert(want[n-1].Is(x), "Pop returns the item given")
				want = want[:n-1]
			}
		case 5:
			x, y := m.few(), m.few()
			ok(l.Extend(ref.Slice([]types.Hashable{x, y})), "Extend")
			want = insert(insert(want, n, x), n+1, y)
		case 6:
			l = l.Copy()
		}
	}
	are(l.Items(), want, "Items")
	for i := range want {
		x, err := l.Get(i)
		sym.Assert(err == nil && want[i].Is(x), "Get returns the item given")
	}
	var s []types.Hashable
	for _, x := range want {
		s = append(s, x)
	}
	are(list.FromSlice(s).Items(), want, "FromSlice")
}

// pool checks that what a sorted container yields is in order and consists of
// the items given.
func pool(it types.KIterator, want []ref.T, what string) []ref.T {
	var got []ref.T
	for x, next := it(); next != nil; x, next = next() {
		t, is := x.(ref.T)
		sym.Assert(is, what+": not an item given")
		got = append(got, t)
	}
	sym.Assert(len(got) == len(want), what+": wrong number of items")
	for i := range got {
		if i > 0 {
			sym.Assert(got[i-1].ID <= got[i].ID, what+": not in order")
		}
		n := 0
		for _, w := range want {
			if w.Tag == got[i].Tag {
				sym.Assert(w.ID == got[i].ID, what+": a changed item")
				n++
			}
		}
		for j := 0; j < i; j++ {
			sym.Assert(got[j].Tag != got[i].Tag, what+": an item twice")
		}
		sym.Assert(n == 1, what+": not an item given")
	}
	return got
}

// VSorted: the sorted list with duplicates.
func VSorted() {
	m := &maker{}
	l := list.NewSorted(0, true)
	if sym.Choose(2) == 1 {
		l = list.NewFixedSorted(9, true)
	}
	var want []ref.T
	for i := 0; i < sym.Bound("operations on a sorted list", 4, 5); i++ {
		x := m.item()
		switch sym.Choose(3) {
		case 0:
			ok(l.Add(x), "Add")
			want = append(want, x)
		case 1:
			// one of the equal items goes
			if l.Delete(x) == nil {
				left := map[int]bool{}
				for y, next := l.Items()(); next != nil; y, next = next() {
					left[y.(ref.T).Tag] = true
				}
				var now []ref.T
				for _, w := range want {
					if left[w.Tag] {
						now = append(now, w)
					} else {
						sym.Assert(w.ID == x.ID, "Delete removes an equal item")
					}
				}
				sym.Assert(len(now) == len(want)-1, "Delete removes one item")
				want = now
			}
		case 2:
			if n := len(want); n > 0 {
				at := sym.Choose(n)
				y, err := l.Get(at)
				ok(err, "Get")
				ok(l.Remove(at), "Remove")
				for j, w := range want {
					if w.Tag == y.(ref.T).Tag {
						want = remove(want, j)
						break
					}
				}
			}
		}
		got := pool(l.Items(), want, "Items")
		for j := range got {
			y, err := l.Get(j)
			sym.Assert(err == nil && got[j].Is(y), "Get returns the item given")
		}
	}
	q := m.item()
	y, err := l.Item(q)
	if err == nil {
		sym.Assert(y.(ref.T).Tag != q.Tag, "Item returns the item in the list")
		sym.Assert(y.(ref.T).ID == q.ID, "Item returns an equal item")
	}
	pool(l.Copy().Items(), want, "Copy")
}

// sets of every kind.
func kind(i int) types.Set {
	switch i {
	case 0:
		return set.NewSortedSet(0)
	case 1:
		return set.NewSetMap(hashtable.NewLinearHash())
	case 2:
		return set.NewSetMap(hashtable.NewHashTable(1))
	}
	return set.NewSetMap(avl.NewAvlTree())
}

// VSets: a set keeps the first of several equal items.
func VSets() {
	m := &maker{}
	s := kind(sym.Choose(4))
	var want []ref.T
	note := func(x ref.T) {
		if find(want, x) < 0 {
			want = append(want, x)
		}
	}
	for i := 0; i < sym.Bound("operations on a set", 4, 5); i++ {
		x := m.item()
		switch sym.Choose(3) {
		case 0:
			ok(s.Add(x), "Add")
			note(x)
		case 1:
			err := s.Delete(x)
			at := find(want, x)
			sym.Assert((err == nil) == (at >= 0), "Delete fails exactly for absent items")
			if at >= 0 {
				want = remove(want, at)
			}
		case 2:
			// the same item twice
			y := ref.T{ID: x.ID, Tag: -m.n}
			ok(s.Extend(ref.Slice([]types.Hashable{x, y})), "Extend")
			note(x)
			note(y)
		}
	}
	members(s.Items(), want)
	if sorted, is := s.(*set.SortedSet); is {
		for _, w := range want {
			y, err := sorted.Item(ref.T{ID: w.ID, Tag: -1})
			sym.Assert(err == nil && w.Is(y), "Item returns the member")
		}
		members(sorted.Copy().Items(), want)
	}
	members(set.SortedFromSet(s).Items(), want)
}

// members checks that the iterator yields the very members, in any order.
func members(it types.KIterator, want []ref.T) {
	n := 0
	for x, next := it(); next != nil; x, next = next() {
		in := false
		for _, w := range want {
			in = in || w.Tag == x.(ref.T).Tag
		}
		sym.Assert(in, "Items yields the first of equal items")
		n++
	}
	sym.Assert(n == len(want), "Items yields every member")
}

// VDeques: linked lists and unique deques.
func VDeques() {
	m := &maker{}
	unique := sym.Choose(2) == 1
	var d ref.Ends = linked.New()
	if unique {
		d = linked.NewUniqueDeque()
	}
	var want []ref.T
	for i := 0; i < sym.Bound("operations on a deque", 5, 6); i++ {
		n := len(want)
		switch op := sym.Choose(4); op {
		case 0, 1:
			front := op == 0
			x := m.few()
			if front {
				ok(d.EnqueFront(x), "EnqueFront")
			} else {
				ok(d.EnqueBack(x), "EnqueBack")
			}
			if unique && find(want, x) >= 0 {
				break
			}
			if front {
				want = insert(want, 0, x)
			} else {
				want = insert(want, n, x)
			}
		case 2:
			if n > 0 {
				x, err := d.DequeFront()
				sym.Assert(err == nil && want[0].Is(x), "DequeFront returns the item given")
				want = want[1:]
			}
		case 3:
			if n > 0 {
				x, err := d.DequeBack()
				sym.Assert(err == nil && want[n-1].Is(x), "DequeBack returns the item given")
				want = want[:n-1]
			}
		}
		are(d.Items(), want, "Items")
		if n := len(want); n > 0 {
			sym.Assert(want[0].Is(d.First()) && want[n-1].Is(d.Last()), "First and Last return the items given")
		}
	}
}

// VQueue: the unique priority queue keeps the first of equal items, with its
// priority.
func VQueue() {
	m := &maker{}
	q := heap.NewUnique(heap.NewMinHeap(2))
	var want []ref.T
	prio := map[int]int{}
	for i := 0; i < sym.Bound("operations on a queue", 5, 6); i++ {
		if sym.Choose(2) == 0 {
			x, p := m.few(), int(sym.Int8())
			q.Add(p, x)
			if find(want, x) < 0 {
				want = append(want, x)
				prio[x.Tag] = p
			}
			continue
		}
		if len(want) == 0 {
			continue
		}
		top := q.Peek()
		x := q.Pop().(ref.T)
		sym.Assert(x.Is(top), "Peek returns what Pop returns")
		at := -1
		for j, w := range want {
			sym.Assert(prio[x.Tag] <= prio[w.Tag], "the priority of the first of equal items counts")
			if w.Tag == x.Tag {
				at = j
			}
		}
		sym.Assert(at >= 0, "Pop returns the first of equal items")
		want = remove(want, at)
	}
	sym.Assert(q.Size() == len(want), "Size")
}

// VMaps: maps return the keys they were given.
func VMaps() {
	m := &maker{}
	var t ref.Mapping
	switch sym.Choose(6) {
	case 0:
		t = hashtable.NewHashTable(2)
	case 1:
		t = hashtable.NewLinearHash()
	case 2:
		t = avl.NewAvlTree()
	case 3:
		t = avl.NewImmutableAvlTree()
	case 4:
		t = bptree.NewBpMap(2)
	case 5:
		t = set.NewMapSet(set.NewSortedSet(0))
	}
	var given []ref.T
	for i := 0; i < sym.Bound("operations on a map", 4, 5); i++ {
		k := m.item()
		if sym.Choose(3) < 2 {
			ok(t.Put(k, k.Tag), "Put")
			given = append(given, k)
			continue
		}
		t.Remove(k)
		// what was given before the removal is gone
		var left []ref.T
		for _, g := range given {
			if g.ID != k.ID {
				left = append(left, g)
			}
		}
		given = left
	}
	for k, v, next := t.Iterate()(); next != nil; k, v, next = next() {
		x, is := k.(ref.T)
		sym.Assert(is, "a key is one that was given")
		// the key is one given since it was last absent, the value that of
		// the latest
		last, in := -1, false
		for _, g := range given {
			if g.ID == x.ID {
				last = g.Tag
				in = in || g.Tag == x.Tag
			}
		}
		sym.Assert(in, "a key is one that was given")
		sym.Assert(v == last, "the value is the latest")
	}
}
