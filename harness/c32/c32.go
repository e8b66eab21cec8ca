// Package c32: the iterators of the maps.
package c32

import (
	"github.com/timtadh/data-structures/hashtable"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/tree/bptree"
	"github.com/timtadh/data-structures/trie"
	"github.com/timtadh/data-structures/types"
	"verif/harness/ref"
	"verif/harness/sym"
)

type mapping interface {
	types.MapOperable
	Keys() types.KIterator
	Values() types.Iterator
	Iterate() types.KVIterator
}

type itemer interface{ Items() types.KIterator }

// table is a map with the entries it should hold.
type table struct {
	m   mapping
	ref ref.Map
	ks  []types.Hashable
	vs  []int // the order of Iterate
}

// kinds of maps
const kinds = 7

func newMap(kind int) mapping {
	switch kind {
	case 0:
		return avl.NewAvlTree()
	case 1:
		return avl.NewImmutableAvlTree()
	case 2:
		return bptree.NewBpMap(4)
	case 3:
		return set.NewMapSet(set.NewSortedSet(0))
	case 4:
		return hashtable.NewHashTable(2)
	case 5:
		return hashtable.NewLinearHash()
	}
	return tst{trie.New()}
}

// tst is the trie, whose lookups take bytes.
type tst struct{ *trie.TST }

func (t tst) Has(k types.Hashable) bool { return t.TST.Has(k.(types.ByteSlice)) }
func (t tst) Get(k types.Hashable) (interface{}, error) {
	return t.TST.Get(k.(types.ByteSlice))
}
func (t tst) Put(k types.Hashable, v interface{}) error {
	return t.TST.Put(k.(types.ByteSlice), v)
}
func (t tst) Remove(k types.Hashable) (interface{}, error) {
	return t.TST.Remove(k.(types.ByteSlice))
}
func (t tst) Size() int { return t.n() }

// n counts, as the trie has no Size.
func (t tst) n() int {
	n := 0
	for _, _, next := t.Iterate()(); next != nil; _, _, next = next() {
		n++
	}
	return n
}

// key is an arbitrary key suitable for the kind; those of the hash tables have
// a chosen place, those of the trie a single byte.
func key(kind, i int) types.Hashable {
	switch kind {
	case 4, 5:
		return ref.K{ID: i, H: []int{0, 1, 5, -3}[sym.Choose(4)]}
	case 6:
		b := sym.Byte()
		sym.Assume(b != 0)
		return types.ByteSlice{[]byte{7, 250}[sym.Choose(2)], b}
	}
	return ref.Int8()
}

func same(a, b types.Hashable) bool { return a.Equals(b) }

// fill makes a map with up to n entries.
func fill(kind, n int) *table {
	t := &table{m: newMap(kind)}
	for i, c := 0, sym.Choose(n+1); i < c; i++ {
		k := key(kind, i)
		sym.Assert(t.m.Put(k, ref.Box(i)) == nil, "Put succeeds")
		t.ref.Put(k, i)
	}
	t.order()
	return t
}

// order notes the order of Iterate and checks it against the contents.
func (t *table) order() {
	n := t.ref.Size()
	t.ks, t.vs = ref.Pairs(t.m.Iterate(), n, "Iterate")
	sym.Assert(t.m.Size() == n, "Size")
	for i := range t.ks {
		sym.Assert(t.ref.Holds(t.ks[i], t.vs[i]), "Iterate yields the entries")
		v, err := t.m.Get(t.ks[i])
		sym.Assert(err == nil && ref.Num(v) == t.vs[i], "Iterate agrees with Get")
	}
	ref.Distinct(t.ks, "Iterate")
}

// walk is one iterator in use.
type walk struct {
	t     *table
	kind  int
	k     types.KIterator
	v     types.Iterator
	kv    types.KVIterator
	at    int
	ended bool
}

func (t *table) walk(kind int) *walk {
	w := &walk{t: t, kind: kind}
	switch kind {
	case 0:
		w.kv = t.m.Iterate()
	case 1:
		w.k = t.m.Keys()
	case 2:
		w.v = t.m.Values()
	case 3:
		if it, ok := t.m.(itemer); ok {
			w.k = it.Items()
		} else {
			w.kind, w.kv = 0, t.m.Iterate()
		}
	}
	return w
}

// step takes one step and checks what the iterator yields.
func (w *walk) step() {
	t := w.t
	var k types.Hashable
	var v interface{}
	var more bool
	switch w.kind {
	case 0:
		k, v, w.kv = w.kv()
		more = w.kv != nil
	case 1, 3:
		k, w.k = w.k()
		more = w.k != nil
	case 2:
		v, w.v = w.v()
		more = w.v != nil
	}
	sym.Assert(more == (w.at < len(t.ks)), "every iterator yields exactly the entries")
	if !more {
		w.ended = true
		return
	}
	if w.kind == 3 {
		e, ok := k.(*types.MapEntry)
		sym.Assert(ok, "Items yields entries")
		k, v = e.Key, e.Value
	}
	if w.kind != 2 {
		sym.Assert(k != nil && same(k, t.ks[w.at]), "all iterators yield the same keys in the same order")
	}
	if w.kind != 1 {
		x, ok := ref.Unbox(v)
		sym.Assert(ok && x == t.vs[w.at], "all iterators yield the same values in the same order")
	}
	w.at++
}

// VAgree: two iterators, step by step in any order.
func VAgree() {
	t := fill(sym.Choose(kinds), sym.Bound("entries", 3, 4))
	a, b := t.walk(sym.Choose(4)), t.walk(sym.Choose(4))
	for !a.ended || !b.ended {
		w := a
		if a.ended || !b.ended && sym.Choose(2) == 1 {
			w = b
		}
		w.step()
	}
	t.order()
}

// VLarge: every iterator on larger maps after removals.
func VLarge() {
	kind := sym.Choose(kinds)
	t := &table{m: newMap(kind)}
	n := []int{9, 33, 120}[sym.Choose(sym.Bound("sizes", 3, 3))]
	mk := func(i int) types.Hashable {
		switch kind {
		case 4, 5:
			return ref.K{ID: i, H: i * 3}
		case 6:
			return types.ByteSlice{byte(i%3 + 1), byte(i + 1)}
		}
		return types.Int8(3*i - 40)
	}
	for i := 0; i < n; i++ {
		j := i * 7 % n
		sym.Assert(t.m.Put(mk(j), ref.Box(j)) == nil, "Put succeeds")
		t.ref.Put(mk(j), j)
	}
	// an arbitrary one is removed
	i := sym.Choose(n)
	_, err := t.m.Remove(mk(i))
	sym.Assert(err == nil, "Remove succeeds")
	t.ref.Remove(mk(i))
	t.order()
	for k := 0; k < 4; k++ {
		for w := t.walk(k); !w.ended; {
			w.step()
		}
	}
}

// VMulti: the multimap, where Keys yields each key once.
func VMulti() {
	t := bptree.NewBpTree(4)
	n := sym.Choose(sym.Bound("entries of the multimap", 5, 6) + 1)
	for i := 0; i < n; i++ {
		sym.Assert(t.Add(ref.Int8(), ref.Box(i)) == nil, "Add succeeds")
	}
	check := func() {
		ks, vs := ref.Pairs(t.Iterate(), n, "Iterate")
		var distinct []types.Hashable
		for i, k := range ks {
			if i == 0 || !ks[i-1].Equals(k) {
				distinct = append(distinct, k)
			}
		}
		// Keys and Values in turns
		ki, vi := t.Keys(), t.Values()
		var got []types.Hashable
		for i := 0; ki != nil || vi != nil; i++ {
			if ki != nil {
				var k types.Hashable
				if k, ki = ki(); ki != nil {
					got = append(got, k)
				}
			}
			if vi != nil {
				var v interface{}
				v, vi = vi()
				sym.Assert((vi != nil) == (i < n), "Values yields every entry")
				if vi != nil {
					sym.Assert(ref.Num(v) == vs[i], "Values is in the order of Iterate")
				}
			}
		}
		ref.Same(got, distinct, "Keys yields each key once in order")
		i := 0
		for x, next := t.Items()(); next != nil; x, next = next() {
			e := x.(*types.MapEntry)
			sym.Assert(i < n && e.Key.Equals(ks[i]) && ref.Num(e.Value) == vs[i], "Items is in the order of Iterate")
			i++
		}
		sym.Assert(i == n, "Items yields every entry")
	}
	check()
	check()
}

// VRuns: the multimap with long runs of one key.
func VRuns() {
	t := bptree.NewBpTree(sym.Choose(2) + 3)
	var keys []types.Hashable
	n := 0
	for k := 0; k < 3; k++ {
		c := sym.Choose(sym.Bound("entries per key", 6, 10))
		for i := 0; i < c; i++ {
			sym.Assert(t.Add(types.Int8(k), ref.Box(n)) == nil, "Add succeeds")
			n++
		}
		if c > 0 {
			keys = append(keys, types.Int8(k))
		}
	}
	ref.Same(ref.Items(t.Keys(), len(keys), "Keys"), keys, "Keys yields each key once")
	ks, vs := ref.Pairs(t.Iterate(), n, "Iterate")
	seen := map[int]bool{}
	for i := range ks {
		sym.Assert(!seen[vs[i]], "Iterate yields each entry once")
		seen[vs[i]] = true
		sym.Assert(i == 0 || !ks[i].Less(ks[i-1]), "Iterate is in key order")
	}
	i := 0
	for v, next := t.Values()(); next != nil; v, next = next() {
		sym.Assert(i < n && ref.Num(v) == vs[i], "Values is in the order of Iterate")
		i++
	}
	sym.Assert(i == n, "Values yields every entry")
}
