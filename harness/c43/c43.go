// Package c43: iterators in use at the same time.
package c43

import (
	"github.com/timtadh/data-structures/hashtable"
	"github.com/timtadh/data-structures/heap"
	"github.com/timtadh/data-structures/linked"
	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/tree/bptree"
	"github.com/timtadh/data-structures/trie"
	"github.com/timtadh/data-structures/types"
	"verif/harness/ref"
	"verif/harness/sym"
)

// walk is one iterator in use: a step yields an item and whether there is one.
type walk func() (interface{}, interface{}, bool)

type start func() walk

func ks(f func() types.KIterator) start {
	return func() walk {
		it := f()
		return func() (a, b interface{}, ok bool) {
			var k types.Hashable
			k, it = it()
			return k, nil, it != nil
		}
	}
}

func vs(f func() types.Iterator) start {
	return func() walk {
		it := f()
		return func() (a, b interface{}, ok bool) {
			a, it = it()
			return a, nil, it != nil
		}
	}
}

func kvs(f func() types.KVIterator) start {
	return func() walk {
		it := f()
		return func() (a, b interface{}, ok bool) {
			var k types.Hashable
			k, b, it = it()
			return k, b, it != nil
		}
	}
}

func same(a, b interface{}) bool {
	switch x := a.(type) {
	case *types.MapEntry:
		y, ok := b.(*types.MapEntry)
		return ok && x.Key.Equals(y.Key) && x.Value == y.Value
	case types.Hashable:
		y, ok := b.(types.Hashable)
		return ok && x.Equals(y)
	}
	return a == b
}

type pair struct{ a, b interface{} }

// alone is what an iterator yields with nothing beside it.
func alone(s start) (r []pair) {
	w := s()
	for a, b, ok := w(); ok; a, b, ok = w() {
		r = append(r, pair{a, b})
	}
	return r
}

// check advances one iterator some steps, then a second one some steps, then
// the first to its end and the second to its end, with reads in between.
func check(starts []start, read func()) {
	k := sym.Choose(len(starts) * len(starts))
	f, g := starts[k%len(starts)], starts[k/len(starts)]
	x, y := alone(f), alone(g)
	v := f()
	i := run(v, x, 0, sym.Choose(len(x)+1))
	read()
	w := g()
	j := run(w, y, 0, sym.Choose(len(y)+2))
	read()
	run(v, x, i, len(x)+1)
	read()
	run(w, y, j, len(y)+1)
}

// run takes an iterator from step i to step n; one past what it yields alone
// is its end.
func run(w walk, want []pair, i, n int) int {
	for ; i < n; i++ {
		a, b, ok := w()
		if i == len(want) {
			sym.Assert(!ok, "an iterator beside another ends where it ends alone")
			continue
		}
		sym.Assert(ok, "an iterator beside another goes on as it does alone")
		sym.Assert(same(a, want[i].a) && same(b, want[i].b), "an iterator beside another yields what it yields alone")
	}
	return i
}

func size(name string) int { return sym.Choose(sym.Bound(name, 3, 4) + 1) }

// VLists: lists and sorted lists.
func VLists() {
	n, p := size("items of a list"), ref.Int8()
	if sym.Bool() {
		l := list.New(1)
		for i := 0; i < n; i++ {
			l.Append(ref.Int8())
		}
		check([]start{ks(l.Items), ks(l.ItemsInReverse)}, func() {
			l.Has(p)
			l.Get(1)
			l.Hash()
		})
		return
	}
	l := list.NewSorted(1, sym.Bool())
	for i := 0; i < n; i++ {
		l.Add(ref.Int8())
	}
	check([]start{ks(l.Items), ks(l.ItemsInReverse)}, func() {
		l.Has(p)
		l.Get(0)
		l.Hash()
	})
}

// VDeques: linked lists and unique deques.
func VDeques() {
	n, p := size("items of a deque"), ref.K{ID: 1, H: 7}
	key := func(i int) types.Hashable { return ref.K{ID: i, H: sym.Choose(2)} }
	if sym.Bool() {
		l := linked.New()
		for i := 0; i < n; i++ {
			l.EnqueBack(key(i))
		}
		check([]start{ks(l.Items), ks(l.Backwards)}, func() {
			l.Has(p)
			l.First()
			l.Last()
		})
		return
	}
	l := linked.NewUniqueDeque()
	for i := 0; i < n; i++ {
		l.EnqueFront(key(i))
	}
	check([]start{ks(l.Items), ks(l.Backwards)}, func() {
		l.Has(p)
		l.First()
		l.Last()
	})
}

// VSets: the sets.
func VSets() {
	n := size("members of a set")
	switch sym.Choose(3) {
	case 0:
		s := set.NewSortedSet(0)
		for i := 0; i < n; i++ {
			s.Add(ref.Int8())
		}
		p := ref.Int8()
		check([]start{ks(s.Items), ks(s.ItemsInReverse)}, func() { s.Has(p) })
	case 1:
		s := set.NewMapSet(set.NewSortedSet(0))
		for i := 0; i < n; i++ {
			s.Put(ref.Int8(), i)
		}
		p := ref.Int8()
		check([]start{ks(s.Items), ks(s.Keys), vs(s.Values), kvs(s.Iterate)}, func() { s.Get(p) })
	case 2:
		s := set.NewSetMap(hashtable.NewLinearHash())
		for i := 0; i < n; i++ {
			s.Add(ref.K{ID: i, H: sym.Choose(3)})
		}
		check([]start{ks(s.Items)}, func() { s.Has(ref.K{ID: 1, H: 0}) })
	}
}

// VMaps: the maps, an iterator of each.
func VMaps() {
	n := size("entries of a map")
	var m types.Map
	key := func(i int) types.Hashable { return ref.Int8() }
	switch sym.Choose(4) {
	case 0:
		m = avl.NewAvlTree()
	case 1:
		m = avl.NewImmutableAvlTree()
	case 2:
		m = hashtable.NewHashTable(2)
		key = func(i int) types.Hashable { return ref.K{ID: i, H: sym.Choose(3)} }
	case 3:
		m = hashtable.NewLinearHash()
		key = func(i int) types.Hashable { return ref.K{ID: i, H: sym.Choose(3)} }
	}
	for i := 0; i < n; i++ {
		m.Put(key(i), i)
	}
	p := key(0)
	check([]start{ks(m.Keys), vs(m.Values), kvs(m.Iterate)}, func() {
		m.Has(p)
		m.Get(p)
	})
}

// VMultimap: the ranges and lookups of the multimap.
func VMultimap() {
	t := bptree.NewBpTree(2 + sym.Choose(2))
	for i, n := 0, size("entries of the multimap"); i < n; i++ {
		t.Add(ref.S{ID: sym.Int8()}, i)
	}
	p, q := ref.S{ID: sym.Int8()}, ref.S{ID: sym.Int8()}
	check([]start{
		kvs(t.Iterate), kvs(t.Backward), ks(t.Keys), vs(t.Values),
		kvs(func() types.KVIterator { return t.Find(p) }),
		kvs(func() types.KVIterator { return t.Range(p, q) }),
	}, func() {
		t.Has(p)
		t.Count(q)
	})
}

// VTrie: the iterators and prefix searches of the trie.
func VTrie() {
	t := trie.New()
	for i, n := 0, size("keys of the trie"); i < n; i++ {
		t.Put(types.ByteSlice(ref.AnyKey(1, 2, 2)), i)
	}
	p := types.ByteSlice(ref.AnyKey(1, 1, 2))
	check([]start{
		kvs(t.Iterate), ks(t.Keys), vs(t.Values),
		kvs(func() types.KVIterator { return t.PrefixFind(p) }),
	}, func() { t.Has(p) })
}

// VQueues: the items of priority queues.
func VQueues() {
	n := size("items of a queue")
	h := heap.NewHeap(4, sym.Bool())
	for i := 0; i < n; i++ {
		h.Push(int(sym.Byte()&3), i)
	}
	check([]start{vs(h.Items)}, func() { h.Peek() })
}

// VLarge: containers with more items, one arbitrary.
func VLarge() {
	n := sym.Bound("items of larger containers", 70, 140)
	x := types.Int8(sym.Byte() & 1)
	var m interface {
		types.MapOperable
		types.MapIterable
	}
	switch sym.Choose(7) {
	case 0:
		m = hashtable.NewLinearHash()
	case 1:
		m = avl.NewAvlTree()
	case 2:
		m = avl.NewImmutableAvlTree()
	case 3:
		m = bptree.NewBpMap(2 + sym.Choose(2)*6)
	case 4:
		l := list.New(0)
		for i := 0; i < n; i++ {
			l.Append(types.Int8(i*2) + x)
		}
		some([]start{ks(l.Items), ks(l.ItemsInReverse)}, func() { l.Get(3) })
		return
	case 5:
		l := linked.New()
		for i := 0; i < n; i++ {
			l.EnqueBack(types.Int8(i*2) + x)
		}
		some([]start{ks(l.Items), ks(l.Backwards)}, func() { l.First() })
		return
	case 6:
		t := bptree.NewBpTree(2 + sym.Choose(2)*3)
		for i := 0; i < n; i++ {
			t.Add(types.Int8(i/3*2)+x, i)
		}
		q := types.Int8(5)
		some([]start{
			kvs(t.Iterate), kvs(t.Backward), ks(t.Keys), vs(t.Values),
			kvs(func() types.KVIterator { return t.Range(types.Int8(1), types.Int8(n/2)) }),
			kvs(func() types.KVIterator { return t.Range(types.Int8(n/2), types.Int8(1)) }),
			kvs(func() types.KVIterator { return t.Find(types.Int8(4) + x) }),
		}, func() { t.Count(q) })
		return
	}
	for _, i := range ref.Order(n, 3) {
		m.Put(types.Int8(i*2)+x, i)
	}
	some([]start{kvs(m.Iterate), ks(m.Keys), vs(m.Values)}, func() { m.Has(x) })
}

// some is check with a few places to stop at.
func some(starts []start, read func()) {
	k := sym.Choose(len(starts) * len(starts))
	f, g := starts[k%len(starts)], starts[k/len(starts)]
	x, y := alone(f), alone(g)
	v := f()
	i := run(v, x, 0, len(x)*sym.Choose(5)/4)
	w := g()
	j := run(w, y, 0, len(y)*sym.Choose(5)/4)
	read()
	run(v, x, i, len(x)+1)
	run(w, y, j, len(y)+1)
}
