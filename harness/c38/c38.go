// Package c38: any number of goroutines may read a container.
package c38

import (
	"sync"

	"github.com/timtadh/data-structures/errors"
	"github.com/timtadh/data-structures/exc"
	"github.com/timtadh/data-structures/hashtable"
	"github.com/timtadh/data-structures/heap"
	"github.com/timtadh/data-structures/linked"
	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/tree"
	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/tree/bptree"
	"github.com/timtadh/data-structures/trie"
	"github.com/timtadh/data-structures/types"
	"verif/harness/ref"
	"verif/harness/sym"
)

// read is a reading operation; it returns what it saw.
type read func(probe types.Hashable) []interface{}

func one(x ...interface{}) []interface{} { return x }

func fails(err error) bool { return err != nil }

func kvs(it func() types.KVIterator) read {
	return func(types.Hashable) (r []interface{}) {
		for k, v, next := it()(); next != nil; k, v, next = next() {
			r = append(r, k, v)
		}
		return r
	}
}

func ks(it func() types.KIterator) read {
	return func(types.Hashable) (r []interface{}) {
		for k, next := it()(); next != nil; k, next = next() {
			r = append(r, k)
		}
		return r
	}
}

func vs(it func() types.Iterator) read {
	return func(types.Hashable) (r []interface{}) {
		for v, next := it()(); next != nil; v, next = next() {
			r = append(r, v)
		}
		return r
	}
}

func nodes(it func() types.TreeNodeIterator) read {
	return func(types.Hashable) (r []interface{}) {
		for n, next := it()(); next != nil; n, next = next() {
			r = append(r, n.Value())
		}
		return r
	}
}

// same compares what two reads saw.
func same(a, b []interface{}) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if x, ok := a[i].(types.Hashable); ok {
			y, ok := b[i].(types.Hashable)
			if !ok || !x.Equals(y) {
				return false
			}
			continue
		}
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// both runs two reads at the same time and then one after the other.
func both(a, b read, p, q types.Hashable) {
	var x, y []interface{}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		x = a(p)
		wg.Done()
	}()
	y = b(q)
	wg.Wait()
	sym.Assert(same(x, a(p)), "a read sees the same with another read beside it")
	sym.Assert(same(y, b(q)), "a read sees the same with another read beside it")
}

func choose(reads []read) read { return reads[sym.Choose(len(reads))] }

func mapReads(m types.Map) []read {
	return []read{
		func(p types.Hashable) []interface{} { return one(m.Has(p)) },
		func(p types.Hashable) []interface{} {
			v, err := m.Get(p)
			return one(v, fails(err))
		},
		func(types.Hashable) []interface{} { return one(m.Size()) },
		kvs(m.Iterate), ks(m.Keys), vs(m.Values),
	}
}

// VMaps: lookups and iterations of the maps.
func VMaps() {
	n := sym.Bound("entries", 3, 4)
	kind := sym.Choose(6)
	var m types.Map
	switch kind {
	case 0:
		m = avl.NewAvlTree()
	case 1:
		m = avl.NewImmutableAvlTree()
	case 2:
		m = hashtable.NewHashTable(sym.Choose(2) + 1)
	case 3:
		m = hashtable.NewLinearHash()
	case 4:
		m = set.NewMapSet(set.NewSortedSet(0))
	case 5:
		b := bptree.NewBpMap(2)
		for i := 0; i < n; i++ {
			b.Put(ref.S{ID: sym.Int8()}, i)
		}
		reads := []read{
			func(p types.Hashable) []interface{} { return one(b.Has(p)) },
			func(p types.Hashable) []interface{} {
				v, err := b.Get(p)
				return one(v, fails(err))
			},
			func(types.Hashable) []interface{} { return one(b.Size()) },
			kvs(b.Iterate), ks(b.Keys), vs(b.Values),
		}
		both(choose(reads), choose(reads), ref.S{ID: sym.Int8()}, ref.S{ID: sym.Int8()})
		return
	}
	for i := 0; i < n; i++ {
		m.Put(ref.S{ID: sym.Int8()}, i)
	}
	reads := mapReads(m)
	both(choose(reads), choose(reads), ref.S{ID: sym.Int8()}, ref.S{ID: sym.Int8()})
}

// VMultimap: lookups, ranges and iterations of the multimap.
func VMultimap() {
	t := bptree.NewBpTree(sym.Choose(2) + 2)
	for i := 0; i < sym.Bound("entries of the multimap", 3, 4); i++ {
		t.Add(ref.S{ID: sym.Int8()}, i)
	}
	to := ref.S{ID: sym.Int8()}
	reads := []read{
		func(p types.Hashable) []interface{} { return one(t.Has(p)) },
		func(p types.Hashable) []interface{} { return one(t.Count(p)) },
		func(p types.Hashable) []interface{} {
			return kvs(func() types.KVIterator { return t.Find(p) })(p)
		},
		func(p types.Hashable) []interface{} {
			return kvs(func() types.KVIterator { return t.Range(p, to) })(p)
		},
		func(types.Hashable) []interface{} { return one(t.Size()) },
		kvs(t.Iterate), kvs(t.Backward), ks(t.Keys), vs(t.Values),
	}
	both(choose(reads), choose(reads), ref.S{ID: sym.Int8()}, ref.S{ID: sym.Int8()})
}

// VTrie: lookups and iterations of the trie.
func VTrie() {
	t := trie.New()
	for i := 0; i < sym.Bound("keys of the trie", 2, 3); i++ {
		t.Put(ref.AnyKey(1, 2, 2), i)
	}
	bytes := func(p types.Hashable) []byte { return p.(types.ByteSlice) }
	reads := []read{
		func(p types.Hashable) []interface{} { return one(t.Has(bytes(p))) },
		func(p types.Hashable) []interface{} {
			v, err := t.Get(bytes(p))
			return one(v, fails(err))
		},
		func(p types.Hashable) []interface{} {
			return kvs(func() types.KVIterator { return t.PrefixFind(bytes(p)) })(p)
		},
		kvs(t.Iterate), ks(t.Keys), vs(t.Values),
	}
	p, q := types.ByteSlice(ref.AnyKey(1, 2, 2)), types.ByteSlice(ref.AnyKey(1, 2, 2))
	both(choose(reads), choose(reads), p, q)
}

type ordered interface {
	types.Hashable
	types.IterableContainer
}

func listReads(l ordered) []read {
	other := list.FromSlice([]types.Hashable{ref.S{ID: 1}})
	return []read{
		func(types.Hashable) []interface{} { return one(l.Size()) },
		func(types.Hashable) []interface{} { return one(l.Hash()) },
		func(types.Hashable) []interface{} { return one(l.Equals(other), l.Less(other)) },
		func(types.Hashable) []interface{} { return one(other.Equals(l), other.Less(l)) },
		ks(l.Items),
	}
}

// VLists: the lists and deques.
func VLists() {
	n := sym.Bound("items", 2, 3)
	var reads []read
	var add func(types.Hashable) error
	switch sym.Choose(5) {
	case 0:
		l := list.New(0)
		add = l.Append
		reads = append(listReads(l),
			func(p types.Hashable) []interface{} { return one(l.Has(p)) },
			func(types.Hashable) []interface{} {
				x, err := l.Get(1)
				return one(x, fails(err))
			},
			func(types.Hashable) []interface{} { return one(l.Full(), l.Empty()) },
			func(types.Hashable) []interface{} { return ks(l.Copy().Items)(nil) },
			ks(l.ItemsInReverse))
	case 1:
		s := list.NewSorted(0, true)
		add = s.Add
		reads = append(listReads(s),
			func(p types.Hashable) []interface{} { return one(s.Has(p)) },
			func(p types.Hashable) []interface{} {
				i, has, err := s.Find(p)
				return one(i, has, fails(err))
			},
			func(types.Hashable) []interface{} { return ks(s.Copy().Items)(nil) },
			ks(s.ItemsInReverse))
	case 2:
		s := set.NewSortedSet(0)
		add = s.Add
		other := set.FromSlice([]types.Hashable{ref.S{ID: 1}, ref.S{ID: 3}})
		reads = append(listReads(s),
			func(p types.Hashable) []interface{} { return one(s.Has(p)) },
			func(types.Hashable) []interface{} { return one(s.Overlap(other), s.Subset(other)) },
			func(types.Hashable) []interface{} {
				u, err := s.Union(other)
				return append(ks(u.Items)(nil), fails(err))
			},
			func(types.Hashable) []interface{} {
				u, err := other.Subtract(s)
				return append(ks(u.Items)(nil), fails(err))
			})
	case 3:
		l := linked.New()
		add = l.EnqueBack
		reads = append(listReads(l),
			func(p types.Hashable) []interface{} { return one(l.Has(p)) },
			func(types.Hashable) []interface{} { return one(l.First(), l.Last()) },
			ks(l.Backwards))
	case 4:
		l := linked.NewUniqueDeque()
		add = l.EnqueBack
		reads = append(listReads(l),
			func(p types.Hashable) []interface{} { return one(l.Has(p)) },
			func(types.Hashable) []interface{} { return one(l.First(), l.Last()) },
			ks(l.Backwards))
	}
	for i := 0; i < n; i++ {
		sym.Assert(add(ref.S{ID: sym.Int8()}) == nil, "adding succeeds")
	}
	both(choose(reads), choose(reads), ref.S{ID: sym.Int8()}, ref.S{ID: sym.Int8()})
}

// VRandom: goroutines that draw members from the same or from different sets.
func VRandom() {
	a := set.FromSlice([]types.Hashable{ref.S{ID: 1}, ref.S{ID: 2}})
	b := a
	if sym.Choose(2) == 1 {
		b = set.FromSlice([]types.Hashable{ref.S{ID: 1}, ref.S{ID: 2}, ref.S{ID: 3}})
	}
	var x, y types.Hashable
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		x, _ = a.Random()
		wg.Done()
	}()
	y, _ = b.Random()
	wg.Wait()
	sym.Assert(x != nil && a.Has(x), "Random yields a member")
	sym.Assert(y != nil && b.Has(y), "Random yields a member")
}

// VQueues: the priority queues.
func VQueues() {
	h := heap.NewHeap(1, sym.Choose(2) == 1)
	var q heap.PriorityQueue = h
	if sym.Choose(2) == 1 {
		q = heap.NewUnique(h)
	}
	for i := 0; i < sym.Bound("queued items", 2, 3); i++ {
		q.Push(int(sym.Int8()), ref.S{ID: int8(i)})
	}
	reads := []read{
		func(types.Hashable) []interface{} { return one(q.Size()) },
		func(types.Hashable) []interface{} { return one(q.Peek()) },
		func(types.Hashable) []interface{} { return one(h.Verify() == nil) },
		vs(h.Items),
	}
	both(choose(reads), choose(reads), nil, nil)
}

// VTraversals: the traversals of a tree.
func VTraversals() {
	var root *avl.AvlNode
	for i := 0; i < sym.Bound("nodes", 3, 4); i++ {
		root, _ = root.Put(ref.S{ID: sym.Int8()}, i)
	}
	reads := []read{
		nodes(func() types.TreeNodeIterator { return tree.TraverseBinaryTreeInOrder(root) }),
		nodes(func() types.TreeNodeIterator { return tree.TraverseTreePreOrder(root) }),
		nodes(func() types.TreeNodeIterator { return tree.TraverseTreePostOrder(root) }),
		nodes(root.Children),
		func(types.Hashable) []interface{} { return one(root.Size(), root.ChildCount()) },
	}
	both(choose(reads), choose(reads), nil, nil)
}

// VErrors: errors and exceptions.
func VErrors() {
	a := exc.Errorf("a").Exception()
	a.Chain(exc.Errorf("b"))
	b := errors.Errorf("c").(*errors.Error)
	b.Chain(errors.Errorf("d"))
	reads := []read{
		func(types.Hashable) []interface{} { return one(len(a.Error()) > 0) },
		func(types.Hashable) []interface{} { return one(len(a.Join(a).Errors)) },
		func(types.Hashable) []interface{} { return one(len(b.Error()) > 0) },
		func(types.Hashable) []interface{} { return one(len(b.Errs)) },
	}
	both(choose(reads), choose(reads), nil, nil)
}
