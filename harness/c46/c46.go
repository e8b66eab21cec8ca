// Package c46: additions and removals compare few keys.
package c46

import (
	"github.com/timtadh/data-structures/hashtable"
	"github.com/timtadh/data-structures/heap"
	"github.com/timtadh/data-structures/linked"
	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/tree/bptree"
	"github.com/timtadh/data-structures/types"
	"verif/harness/ref"
	"verif/harness/sym"
)

// compared counts the comparisons of keys.
var compared int

// key is a key whose hash code is itself.
type key int16

func (k key) Equals(o types.Equatable) bool {
	compared++
	return k == o.(key)
}

func (k key) Less(o types.Sortable) bool {
	compared++
	return k < o.(key)
}

func (k key) Hash() int { return int(k) }

// table is something to put keys into and take them out of.
type table interface {
	put(k key)
	remove(k key)
}

type aMap struct{ m types.MapOperable }

func (t aMap) put(k key)    { sym.Assert(t.m.Put(k, 0) == nil, "Put succeeds") }
func (t aMap) remove(k key) { t.m.Remove(k) }

type aList struct{ l *list.Sorted }

func (t aList) put(k key)    { sym.Assert(t.l.Add(k) == nil, "Add succeeds") }
func (t aList) remove(k key) { t.l.Delete(k) }

type aSet struct{ s types.Set }

func (t aSet) put(k key)    { sym.Assert(t.s.Add(k) == nil, "Add succeeds") }
func (t aSet) remove(k key) { t.s.Delete(k) }

type aMulti struct{ t *bptree.BpTree }

func (t aMulti) put(k key) { sym.Assert(t.t.Add(k, 0) == nil, "Add succeeds") }
func (t aMulti) remove(k key) {
	t.t.RemoveWhere(k, func(interface{}) bool { return true })
}

type aDeque struct{ d *linked.UniqueDeque }

func (t aDeque) put(k key)    { sym.Assert(t.d.EnqueBack(k) == nil, "EnqueBack succeeds") }
func (t aDeque) remove(k key) { t.d.DequeFront() }

type aQueue struct{ q *heap.UniquePQ }

func (t aQueue) put(k key)    { t.q.Add(int(k), k) }
func (t aQueue) remove(k key) { t.q.Pop() }

const (
	trees  = 8  // kinds in which every operation is cheap
	kinds  = 14 // all kinds
	narrow = 24 // comparisons per level of a B+Tree
	binary = 6  // comparisons per level of another tree
	hash   = 2  // comparisons per level, on average, in a hash table
)

func newTable(kind int) (t table, most int) {
	switch kind {
	case 0:
		return aMap{avl.NewAvlTree()}, binary
	case 1:
		return aMap{avl.NewImmutableAvlTree()}, binary
	case 2:
		return aSet{set.NewSetMap(avl.NewAvlTree())}, binary
	case 3:
		return aList{list.NewSorted(4, false)}, binary
	case 4:
		return aSet{set.NewSortedSet(0)}, binary
	case 5:
		return aMap{bptree.NewBpMap(4)}, narrow
	case 6:
		return aMap{bptree.NewBpMap(27)}, narrow
	case 7:
		return aMulti{bptree.NewBpTree(5)}, narrow
	case 8:
		return aMap{hashtable.NewHashTable(1)}, hash
	case 9:
		return aMap{hashtable.NewHashTable(11)}, hash
	case 10:
		return aMap{hashtable.NewLinearHash()}, hash
	case 11:
		return aSet{set.NewSetMap(hashtable.NewHashTable(4))}, hash
	case 12:
		return aDeque{linked.NewUniqueDeque()}, hash
	}
	return aQueue{heap.NewUnique(heap.NewMinHeap(1))}, hash
}

// levels is the logarithm of the size.
func levels(n int) int {
	log := 0
	for 1<<log < n {
		log++
	}
	return log + 2
}

// size is how many entries make the difference visible.
func size(most int) int {
	if most == narrow {
		return sym.Bound("entries of B+Trees", 300, 600)
	}
	return sym.Bound("entries", 100, 300)
}

// VOne: an addition or a removal of any key among many.
func VOne() {
	t, most := newTable(sym.Choose(trees))
	n := size(most)
	for _, i := range ref.Order(n, sym.Choose(ref.Orders)) {
		t.put(key(2 * i))
	}
	k := key(sym.Int16())
	compared = 0
	if sym.Choose(2) == 0 {
		t.put(k)
	} else {
		t.remove(k)
	}
	sym.Assert(compared <= most*levels(n), "an addition or removal compares few keys")
}

// VEach: an arbitrary operation on what is left of many keys; nothing on the way
// compares many keys either.
func VEach() {
	t, most := newTable(sym.Choose(trees))
	n := size(most)
	worst := 0
	note := func() {
		if compared > worst {
			worst = compared
		}
		compared = 0
	}
	compared = 0
	for _, x := range ref.Order(n, sym.Choose(ref.Orders)) {
		t.put(key(2 * x))
		note()
	}
	for i, x := range ref.Order(n, sym.Choose(2)*3) {
		if i%5 != 0 {
			t.remove(key(2 * x))
			note()
		}
	}
	sym.Assert(worst <= most*levels(n), "no addition or removal compares many keys")
	op, k := sym.Choose(2), key(sym.Int16())
	compared = 0
	if op == 0 {
		t.put(k)
	} else {
		t.remove(k)
	}
	sym.Assert(compared <= most*levels(n), "an addition or removal compares few keys")
}

// VAll: all additions and removals together, the last of an arbitrary key.
func VAll() {
	kind := trees + sym.Choose(kinds-trees)
	t, most := newTable(kind)
	n := size(most)
	compared = 0
	for _, x := range ref.Order(n, sym.Choose(ref.Orders)) {
		t.put(key(2 * x))
	}
	// keys out of range only select further places of the hash tables
	k := key(sym.Int16())
	sym.Assume(sym.And(k >= 20, k <= 40))
	t.put(k)
	t.remove(k)
	for i := 0; i < n; i++ {
		t.remove(key(2 * i))
	}
	sym.Assert(compared <= (2*n+2)*most*levels(n)/2, "additions and removals compare few keys")
}

// VOps: the operations on two sets.
func VOps() {
	kind := sym.Choose(3)
	newSet := func() types.Set {
		switch kind {
		case 0:
			return set.NewSortedSet(0)
		case 1:
			return set.NewSetMap(hashtable.NewLinearHash())
		}
		return set.NewSetMap(avl.NewAvlTree())
	}
	a, b := newSet(), newSet()
	n := sym.Bound("items of two sets", 200, 400)
	for i := 0; i < n; i++ {
		sym.Assert(a.Add(key(2*i)) == nil && b.Add(key(3*i)) == nil, "Add succeeds")
	}
	k := key(sym.Int16())
	sym.Assume(sym.And(k >= 20, k <= 28))
	sym.Assert(a.Add(k) == nil, "Add succeeds")
	compared = 0
	var err error
	switch sym.Choose(5) {
	case 0:
		_, err = a.Union(b)
	case 1:
		_, err = a.Intersect(b)
	case 2:
		_, err = a.Subtract(b)
	case 3:
		a.Subset(b)
	case 4:
		a.Superset(b)
	}
	sym.Assert(err == nil, "set operations succeed")
	sym.Assert(compared <= 3*(2*n+1)*levels(2*n), "set operations compare few items")
}
