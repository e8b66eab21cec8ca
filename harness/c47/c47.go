// Package c47: goroutines that work on containers of their own.
package c47

import (
	"sync"

	"github.com/timtadh/data-structures/errors"
	"github.com/timtadh/data-structures/exc"
	"github.com/timtadh/data-structures/hashtable"
	"github.com/timtadh/data-structures/heap"
	"github.com/timtadh/data-structures/linked"
	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/tree/bptree"
	"github.com/timtadh/data-structures/trie"
	"github.com/timtadh/data-structures/types"
	"verif/harness/ref"
	"verif/harness/sym"
)

// seen is what a goroutine saw.
type seen []interface{}

func (s *seen) add(xs ...interface{}) {
	for _, x := range xs {
		if err, ok := x.(error); ok {
			x = err != nil
		}
		*s = append(*s, x)
	}
}

func (s *seen) kvs(it types.KVIterator) {
	for k, v, next := it(); next != nil; k, v, next = next() {
		s.add(k, v)
	}
}

func (s *seen) ks(it types.KIterator) {
	for k, next := it(); next != nil; k, next = next() {
		s.add(k)
	}
}

func (s *seen) vs(it types.Iterator) {
	for v, next := it(); next != nil; v, next = next() {
		s.add(v)
	}
}

// work is done by a goroutine with a container of its own. The key is
// arbitrary.
type work func(s *seen, k types.Hashable)

func same(a, b seen) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if x, ok := a[i].(types.Hashable); ok {
			y, ok := b[i].(types.Hashable)
			if !ok || !x.Equals(y) {
				return false
			}
			continue
		}
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// beside lets two goroutines work at the same time. Afterwards the same is done
// by each alone.
func beside(a, b, a1, b1 work) {
	k := types.Hashable(ref.S{ID: sym.Int8()})
	l := types.Hashable(ref.S{ID: []int8{-1, 12, 13}[sym.Choose(3)]})
	var x, y, x1, y1 seen
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		a(&x, k)
		wg.Done()
	}()
	b(&y, l)
	wg.Wait()
	a1(&x1, k)
	b1(&y1, l)
	sym.Assert(same(x, x1), "a goroutine sees what it would have seen alone")
	sym.Assert(same(y, y1), "a goroutine sees what it would have seen alone")
}

// twice is for work that begins with making a container.
func twice(a, b work) { beside(a, b, a, b) }

func key(i int) types.Hashable { return ref.S{ID: int8(i)} }

func useMap(m ref.Mapping, s *seen, k types.Hashable, n int) {
	for i := 0; i < n; i++ {
		s.add(m.Put(key(i*7%n*3), i))
	}
	s.add(m.Put(k, 100))
	v, err := m.Get(key(9))
	s.add(v, err, m.Has(k), m.Size())
	for i := 0; i < n; i += 2 {
		v, err := m.Remove(key(i * 3))
		s.add(v, err)
	}
	v, err = m.Remove(k)
	s.add(v, err)
	s.kvs(m.Iterate())
}

func maps(kind int) work {
	n := sym.Bound("entries", 30, 40)
	return func(s *seen, k types.Hashable) {
		var m ref.Mapping
		switch kind {
		case 0:
			m = avl.NewAvlTree()
		case 1:
			m = avl.NewImmutableAvlTree()
		case 2:
			m = hashtable.NewHashTable(1)
		case 3:
			m = hashtable.NewLinearHash()
		case 4:
			m = bptree.NewBpMap(2)
		case 5:
			m = set.NewMapSet(set.NewSortedSet(0))
		}
		useMap(m, s, k, n)
	}
}

// VMaps: two maps of a kind.
func VMaps() {
	w := maps(sym.Choose(6))
	twice(w, w)
}

// VLinear: linear hash tables that split buckets.
func VLinear() {
	w := func(s *seen, _ types.Hashable) {
		m := hashtable.NewLinearHash()
		for i := 0; i < 400; i++ {
			m.Put(types.Int(i*7919), i)
		}
		s.kvs(m.Iterate())
		for i := 0; i < 400; i += 3 {
			v, err := m.Remove(types.Int(i * 7919))
			s.add(v, err)
		}
		s.add(m.Size())
	}
	twice(w, func(s *seen, k types.Hashable) { useMap(hashtable.NewLinearHash(), s, k, 8) })
}

// VMultimap: B+ trees with runs of equal keys.
func VMultimap() {
	size := 2 + sym.Choose(3)
	w := func(s *seen, k types.Hashable) {
		t := bptree.NewBpTree(size)
		for i := 0; i < 10; i++ {
			s.add(t.Add(key(i*7%10/2*3), i))
		}
		s.add(t.Add(k, 100))
		s.kvs(t.Range(key(3), key(9)))
		s.kvs(t.Range(key(9), k))
		s.kvs(t.Find(k))
		s.add(t.Count(k), t.Has(k), t.Size())
		s.add(t.Replace(key(6), func(v interface{}) bool { return v.(int) > 4 }, 200))
		s.add(t.RemoveWhere(k, func(interface{}) bool { return true }))
		s.add(t.RemoveWhere(key(3), func(interface{}) bool { return true }))
		s.kvs(t.Iterate())
		s.kvs(t.Backward())
	}
	twice(w, w)
}

// VTrie: tries given the same key slices.
func VTrie() {
	words := []string{"a", "ab", "abc", "b", "bcd", "bce", "c"}
	var keys [][]byte
	for _, w := range words {
		keys = append(keys, []byte(w))
	}
	other := append([]byte("b"), sym.Bytes(1)...)
	w := func(s *seen, k types.Hashable) {
		t := trie.New()
		for i, k := range keys {
			s.add(t.Put(k, i))
		}
		s.add(t.Put(other, 100))
		s.kvs(t.PrefixFind([]byte("b")))
		v, err := t.Remove(keys[4])
		s.add(v, err)
		v, err = t.Remove(other)
		s.add(v, err, t.Has(keys[3]))
		it := t.Iterate()
		for k, v, next := it(); next != nil; k, v, next = next() {
			s.add(string(k.(types.ByteSlice)), v)
		}
	}
	twice(w, w)
}

// useList changes a list.
func useList(l *list.List, s *seen, k types.Hashable) {
	for i := 0; i < 6; i++ {
		s.add(l.Append(key(i)))
	}
	s.add(l.Insert(2, k), l.Push(k), l.Set(0, k), l.Remove(1))
	x, err := l.Pop()
	s.add(x, err, l.Has(key(4)), l.Hash(), l.Size())
	s.ks(l.Items())
	s.ks(l.ItemsInReverse())
}

// useSorted changes a sorted list.
func useSorted(l *list.Sorted, s *seen, k types.Hashable) {
	for i := 0; i < 6; i++ {
		s.add(l.Add(key(i * 5 % 6 * 2)))
	}
	s.add(l.Add(k))
	i, has, err := l.Find(k)
	s.add(i, has, err, l.Delete(key(4)), l.Delete(k), l.Remove(1), l.Size())
	s.ks(l.Items())
}

// useSet changes a set.
func useSet(c types.Set, s *seen, k types.Hashable) {
	for i := 0; i < 6; i++ {
		s.add(c.Add(key(i * 5 % 6 * 2)))
	}
	s.add(c.Add(k), c.Has(k), c.Delete(key(4)), c.Size())
	for _, op := range []func(types.Set) (types.Set, error){c.Union, c.Intersect, c.Subtract} {
		d := set.FromSlice([]types.Hashable{key(2), key(7), key(8)})
		e, err := op(d)
		s.add(err, e.Size())
		s.ks(e.Items())
		s.add(e.Add(key(90)), e.Add(key(1)))
	}
	s.add(c.Delete(k))
	s.ks(c.Items())
}

func newSet(kind int) types.Set {
	switch kind {
	case 0:
		return set.NewSortedSet(1)
	case 1:
		return set.NewSetMap(hashtable.NewHashTable(1))
	case 2:
		return set.NewSetMap(hashtable.NewLinearHash())
	}
	return set.NewSetMap(avl.NewAvlTree())
}

// VNew: lists, sorted lists, sets, deques and queues of their own.
func VNew() {
	kind := sym.Choose(9)
	w := func(s *seen, k types.Hashable) {
		switch kind {
		case 0:
			useList(list.New(1), s, k)
		case 1:
			useSorted(list.NewSorted(1, true), s, k)
		case 2, 3, 4, 5:
			useSet(newSet(kind-2), s, k)
		case 6:
			l := linked.New()
			for i := 0; i < 4; i++ {
				s.add(l.EnqueBack(key(i)), l.EnqueFront(key(i+4)))
			}
			s.add(l.EnqueBack(k))
			s.ks(l.Backwards())
			x, err := l.DequeFront()
			y, err2 := l.DequeBack()
			s.add(x, err, y, err2, l.First(), l.Last(), l.Size(), l.Hash())
			s.ks(l.Items())
		case 7:
			l := linked.NewUniqueDeque()
			for i := 0; i < 4; i++ {
				s.add(l.EnqueBack(key(i)), l.EnqueFront(key(i+2)))
			}
			s.add(l.EnqueBack(k))
			x, err := l.DequeFront()
			y, err2 := l.DequeBack()
			s.add(x, err, y, err2, l.Size())
			s.ks(l.Items())
		case 8:
			h := heap.NewMinHeap(1)
			u := heap.NewUnique(heap.NewMaxHeap(1))
			for i := 0; i < 6; i++ {
				h.Push(i*5%6, i)
				u.Add(i*5%6, key(i))
			}
			p := int(k.(ref.S).ID)
			h.Push(p, 100)
			u.Add(p, key(50))
			s.vs(h.Items())
			for h.Size() > 0 {
				s.add(h.Pop(), u.Peek(), u.Pop(), u.Size())
			}
		}
	}
	twice(w, w)
}

// VCopies: copies, and containers made from the same source.
func VCopies() {
	kind := sym.Choose(8)
	xs := []types.Hashable{key(1), key(3), key(3), key(8), key(9)}
	l := list.FromSlice(xs)
	sorted := list.SortedFromSlice(xs, true)
	ss := set.FromSlice(xs)
	m := func(x types.Hashable) ([]byte, error) { return []byte{byte(x.(ref.S).ID)}, nil }
	u := func(b []byte) (types.Hashable, error) { return ref.S{ID: int8(b[0])}, nil }
	b, err := list.NewMSorted(sorted, m, u).MarshalBinary()
	sym.Assert(err == nil, "marshalling succeeds")
	w := func(s *seen, k types.Hashable) {
		switch kind {
		case 0:
			useList(l.Copy(), s, k)
		case 1:
			useList(list.FromSlice(xs), s, k)
		case 2:
			useSorted(sorted.Copy(), s, k)
		case 3:
			useSorted(list.SortedFromSlice(xs, true), s, k)
		case 4:
			useSet(ss.Copy(), s, k)
		case 5:
			useSet(set.SortedFromSet(ss), s, k)
		case 6:
			c, err := ss.Union(set.NewSortedSet(0))
			s.add(err)
			useSet(c, s, k)
		case 7:
			r := &list.MSorted{MList: list.MList{MarshalItem: m, UnmarshalItem: u}}
			s.add(r.UnmarshalBinary(b))
			useSorted(r.Sorted(), s, k)
			b, err := r.MarshalBinary()
			s.add(len(b), err)
		}
	}
	twice(w, w)
}

// VCopied: one goroutine goes on with the source, the other with a copy made
// before.
func VCopied() {
	kind := sym.Choose(5)
	xs := []types.Hashable{key(1), key(3), key(3), key(8), key(9)}
	var use [4]work
	for i := 0; i < 4; i += 2 {
		switch kind {
		case 0:
			l := list.FromSlice(xs)
			c := l.Copy()
			use[i] = func(s *seen, k types.Hashable) { useList(l, s, k) }
			use[i+1] = func(s *seen, k types.Hashable) { useList(c, s, k) }
		case 1:
			l := list.SortedFromSlice(xs, true)
			c := l.Copy()
			use[i] = func(s *seen, k types.Hashable) { useSorted(l, s, k) }
			use[i+1] = func(s *seen, k types.Hashable) { useSorted(c, s, k) }
		case 2:
			l := set.FromSlice(xs)
			c := l.Copy()
			use[i] = func(s *seen, k types.Hashable) { useSet(l, s, k) }
			use[i+1] = func(s *seen, k types.Hashable) { useSet(c, s, k) }
		case 3, 4:
			l, empty := newSet(2*kind-6), newSet(2*kind-6)
			for _, x := range xs {
				sym.Assert(l.Add(x) == nil, "Add succeeds")
			}
			c, err := l.Subtract(empty)
			sym.Assert(err == nil, "Subtract succeeds")
			use[i] = func(s *seen, k types.Hashable) { useSet(l, s, k) }
			use[i+1] = func(s *seen, k types.Hashable) { useSet(c, s, k) }
		}
	}
	beside(use[0], use[1], use[2], use[3])
}

type failure struct{ exc.Exception }

// VErrors: errors, exceptions and blocks.
func VErrors() {
	w := func(s *seen, k types.Hashable) {
		n := 0
		throw := k.(ref.S).ID > 5
		err := exc.Try(func() {
			n++
			if throw {
				exc.Throw(&failure{*exc.Errorf("failure").Exception()})
			}
			exc.Throwf("other")
		}).Catch(&failure{}, func(t exc.Throwable) {
			n += 10
		}).Finally(func() {
			n += 100
		}).Error()
		s.add(n, err)
		e := errors.Errorf("first").(*errors.Error)
		e.Chain(errors.NotFound(1))
		s.add(len(e.Errs))
		x := exc.Errorf("one").Exception().Join(exc.Errorf("two").Exception())
		s.add(len(x.Errors))
		v := types.Int16(k.(ref.S).ID)
		b, err := v.MarshalBinary()
		var back types.Int16
		s.add(len(b), err, back.UnmarshalBinary(b), back)
		s.add(types.String("text").Hash(), types.ByteSlice("bytes").Hash())
	}
	twice(w, w)
}
