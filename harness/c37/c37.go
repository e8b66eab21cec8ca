// Package c37: lookups compare few keys.
package c37

import (
	"github.com/timtadh/data-structures/hashtable"
	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/tree/bptree"
	"github.com/timtadh/data-structures/types"
	"verif/harness/ref"
	"verif/harness/sym"
)

// compared counts the comparisons of keys.
var compared int

// key is a key whose hash code is itself.
type key int16

func (k key) Equals(o types.Equatable) bool {
	compared++
	return k == o.(key)
}

func (k key) Less(o types.Sortable) bool {
	compared++
	return k < o.(key)
}

func (k key) Hash() int { return int(k) }

// table is something to look keys up in.
type table interface {
	put(k key)
	remove(k key)
	look(k key) bool
}

type aMap struct{ m types.MapOperable }

func (t aMap) put(k key) { sym.Assert(t.m.Put(k, 0) == nil, "Put succeeds") }
func (t aMap) remove(k key) {
	_, err := t.m.Remove(k)
	sym.Assert(err == nil, "Remove succeeds")
}
func (t aMap) look(k key) bool {
	if sym.Choose(2) == 1 {
		return t.m.Has(k)
	}
	_, err := t.m.Get(k)
	return err == nil
}

type aList struct{ l *list.Sorted }

func (t aList) put(k key)    { sym.Assert(t.l.Add(k) == nil, "Add succeeds") }
func (t aList) remove(k key) { sym.Assert(t.l.Delete(k) == nil, "Delete succeeds") }
func (t aList) look(k key) bool {
	if sym.Choose(2) == 1 {
		_, has, err := t.l.Find(k)
		sym.Assert(err == nil, "Find succeeds")
		return has
	}
	return t.l.Has(k)
}

type aSet struct{ s types.Set }

func (t aSet) put(k key)       { sym.Assert(t.s.Add(k) == nil, "Add succeeds") }
func (t aSet) remove(k key)    { sym.Assert(t.s.Delete(k) == nil, "Delete succeeds") }
func (t aSet) look(k key) bool { return t.s.Has(k) }

type aMulti struct{ t *bptree.BpTree }

func (t aMulti) put(k key) { sym.Assert(t.t.Add(k, 0) == nil, "Add succeeds") }
func (t aMulti) remove(k key) {
	sym.Assert(t.t.RemoveWhere(k, func(interface{}) bool { return true }) == nil, "RemoveWhere succeeds")
}
func (t aMulti) look(k key) bool {
	if sym.Choose(2) == 1 {
		return t.t.Has(k)
	}
	_, _, next := t.t.Range(k, k)()
	return next != nil
}

const kinds = 11

func newTable(kind int) table {
	switch kind {
	case 0:
		return aMap{avl.NewAvlTree()}
	case 1:
		return aMap{avl.NewImmutableAvlTree()}
	case 2:
		return aMap{bptree.NewBpMap(4)}
	case 3:
		return aMap{bptree.NewBpMap(27)}
	case 4:
		return aMulti{bptree.NewBpTree(5)}
	case 5:
		return aList{list.NewSorted(4, true)}
	case 6:
		return aSet{set.NewSortedSet(0)}
	case 7:
		return aMap{hashtable.NewHashTable(1)}
	case 8:
		return aMap{hashtable.NewHashTable(11)}
	case 9:
		return aMap{hashtable.NewLinearHash()}
	}
	return aSet{set.NewSetMap(hashtable.NewHashTable(4))}
}

// most is the number of comparisons allowed among n keys.
func most(n int) int {
	log := 0
	for 1<<log < n {
		log++
	}
	return 8 * (log + 2)
}

// VLookup: any key among many.
func VLookup() {
	n := []int{100, 300, 700}[sym.Choose(sym.Bound("sizes", 1, 2))]
	kind := sym.Choose(kinds)
	t := newTable(kind)
	for _, i := range ref.Order(n, sym.Choose(ref.Orders)) {
		t.put(key(2 * i))
	}
	k := key(sym.Int16())
	if kind >= 7 {
		// keys out of range only select further places of the hash tables
		sym.Assume(sym.And(k >= -2, k <= key(2*n)))
	}
	compared = 0
	has := t.look(k)
	sym.Assert(compared <= most(n), "looking a key up compares few keys")
	sym.Assert(has == sym.And(k >= 0, sym.And(k < key(2*n), k&1 == 0)), "exactly the present keys are found")
}

// VThinned: after most keys were removed again.
func VThinned() {
	n := sym.Bound("entries before removing", 100, 200)
	kind := sym.Choose(kinds)
	t := newTable(kind)
	for _, i := range ref.Order(n, sym.Choose(2)*3) {
		t.put(key(2 * i))
	}
	gap := sym.Choose(2)*2 + 2
	for _, i := range ref.Order(n, sym.Choose(2)*3) {
		if i%gap != 0 {
			t.remove(key(2 * i))
		}
	}
	k := key(sym.Int16())
	if kind >= 7 {
		sym.Assume(sym.And(k >= 20, k <= 40))
	}
	compared = 0
	t.look(k)
	sym.Assert(compared <= most(n), "looking a key up compares few keys")
}

// VTurns: a queue of keys, the largest added while the smallest are removed.
func VTurns() {
	kind := sym.Choose(kinds)
	t := newTable(kind)
	held := 20
	n := sym.Bound("keys passing through", 150, 400)
	for i := 0; i < n; i++ {
		t.put(key(2 * i))
		if i >= held {
			t.remove(key(2 * (i - held)))
		}
	}
	k := key(sym.Int16())
	if kind >= 7 {
		sym.Assume(sym.And(k >= key(2*n-20), k <= key(2*n+2)))
	}
	compared = 0
	t.look(k)
	sym.Assert(compared <= most(n), "looking a key up compares few keys")
}

// own is a key of one of the library's types.
type own struct{ types.Hashable }

func (k own) Equals(o types.Equatable) bool {
	compared++
	return k.Hashable.Equals(o.(own).Hashable)
}

func (k own) Less(o types.Sortable) bool {
	compared++
	return k.Hashable.Less(o.(own).Hashable)
}

// numbered is the i-th key of a kind.
func numbered(kind, i int) own {
	digits := string([]byte{byte('0' + i/100), byte('0' + i/10%10), byte('0' + i%10)})
	long := "a text of a good many bytes which all the names start with, number "
	pair := []types.Hashable{types.Int(i / 10), types.Int(i % 10)}
	switch kind {
	case 0:
		return own{types.Int(i)}
	case 1:
		return own{types.UInt(i)}
	case 2:
		return own{types.Int16(i)}
	case 3:
		return own{types.UInt16(i)}
	case 4:
		return own{types.Int32(i)}
	case 5:
		return own{types.UInt32(i)}
	case 6:
		return own{types.Int64(i)}
	case 7:
		return own{types.UInt64(i)}
	case 8:
		return own{types.Int64(i) << 32}
	case 9:
		return own{types.UInt64(i) << 32}
	case 10:
		return own{types.String(digits)}
	case 11:
		return own{types.ByteSlice(digits)}
	case 12:
		return own{types.String(long + digits)}
	case 13:
		return own{types.ByteSlice(long + digits)}
	case 14:
		return own{types.String(digits + long)}
	case 15:
		return own{types.ByteSlice(digits + long)}
	case 16:
		return own{types.Int(-i)}
	case 17:
		return own{list.FromSlice(pair)}
	}
	return own{&types.MapEntry{Key: types.Int(i), Value: 0}}
}

// VTypes: keys of the library's types made from consecutive numbers.
func VTypes() {
	const n = 200
	kind := sym.Choose(19)
	m := hashtable.NewHashTable(4)
	for i := 0; i < n; i++ {
		sym.Assert(m.Put(numbered(kind, i), i) == nil, "Put succeeds")
	}
	b := sym.Uint8()
	sym.Assume(b < n)
	i := 0
	for k := 0; k < n; k++ {
		if b == uint8(k) {
			i = k
			break
		}
	}
	compared = 0
	v, err := m.Get(numbered(kind, i))
	sym.Assert(compared <= most(n), "looking a key up compares few keys")
	sym.Assert(err == nil && v.(int) == i, "the present keys are found")
}
