// Package ref holds key types, reference models and comparison helpers shared
// by the harnesses. It uses nothing of the code under test but the interfaces
// of package types and types.Int.
package ref

import (
	"github.com/timtadh/data-structures/types"
	"verif/harness/sym"
)

// K is a key with an arbitrary hash code, ordered and compared by ID.
type K struct{ ID, H int }

func (k K) Equals(o types.Equatable) bool {
	if x, ok := o.(K); ok {
		return k.ID == x.ID
	}
	return false
}

func (k K) Less(o types.Sortable) bool {
	if x, ok := o.(K); ok {
		return k.ID < x.ID
	}
	return false
}

func (k K) Hash() int { return k.H }

// Keys returns n arbitrary keys; equal ones have equal hash codes.
func Keys(n int) []types.Hashable {
	ks := make([]types.Hashable, n)
	for i := range ks {
		k := K{sym.Int(), sym.Int()}
		for j := 0; j < i; j++ {
			p := ks[j].(K)
			sym.Assume(sym.Implies(p.ID == k.ID, p.H == k.H))
		}
		ks[i] = k
	}
	return ks
}

// Ints returns n arbitrary types.Int items.
func Ints(n int) []types.Hashable {
	ks := make([]types.Hashable, n)
	for i := range ks {
		ks[i] = types.Int(sym.Int())
	}
	return ks
}

// Val unwraps a types.Int.
func Val(x types.Hashable) int { return int(x.(types.Int)) }

// Map is the reference map: an association list without order.
type Map struct {
	Keys []types.Hashable
	Vals []int
}

func (m *Map) find(k types.Hashable) int {
	for i := range m.Keys {
		if m.Keys[i].Equals(k) {
			return i
		}
	}
	return -1
}

func (m *Map) Put(k types.Hashable, v int) {
	if i := m.find(k); i >= 0 {
		m.Vals[i] = v
		return
	}
	m.Keys = append(m.Keys, k)
	m.Vals = append(m.Vals, v)
}

func (m *Map) Get(k types.Hashable) (int, bool) {
	if i := m.find(k); i >= 0 {
		return m.Vals[i], true
	}
	return 0, false
}

func (m *Map) Remove(k types.Hashable) (int, bool) {
	i := m.find(k)
	if i < 0 {
		return 0, false
	}
	v := m.Vals[i]
	m.Keys = append(append([]types.Hashable{}, m.Keys[:i]...), m.Keys[i+1:]...)
	m.Vals = append(append([]int{}, m.Vals[:i]...), m.Vals[i+1:]...)
	return v, true
}

func (m *Map) Size() int { return len(m.Keys) }

// Holds reports, without splitting the path, whether k maps to v.
func (m *Map) Holds(k types.Hashable, v int) bool {
	r := false
	for i := range m.Keys {
		r = sym.Or(r, sym.And(m.Keys[i].Equals(k), m.Vals[i] == v))
	}
	return r
}

// Contains reports, without splitting the path, whether k is present.
func (m *Map) Contains(k types.Hashable) bool { return In(m.Keys, k) }

// In reports, without splitting the path, whether k equals an element of s.
func In(s []types.Hashable, k types.Hashable) bool {
	r := false
	for i := range s {
		r = sym.Or(r, s[i].Equals(k))
	}
	return r
}

// Count counts, without splitting the path, the elements of s equal to k.
func Count(s []types.Hashable, k types.Hashable) int {
	n := 0
	for i := range s {
		n += sym.Ite(s[i].Equals(k), 1, 0)
	}
	return n
}

// Items drains an iterator, expecting exactly n items.
func Items(it types.KIterator, n int, what string) []types.Hashable {
	var r []types.Hashable
	for x, next := it(); next != nil; x, next = next() {
		sym.Assert(len(r) < n, what+": too many items")
		sym.Assert(x != nil, what+": nil item")
		r = append(r, x)
	}
	sym.Assert(len(r) == n, what+": too few items")
	return r
}

// Pairs drains a key/value iterator, expecting exactly n entries with values
// made by Box.
func Pairs(it types.KVIterator, n int, what string) ([]types.Hashable, []int) {
	var ks []types.Hashable
	var vs []int
	for k, v, next := it(); next != nil; k, v, next = next() {
		sym.Assert(len(ks) < n, what+": too many entries")
		sym.Assert(k != nil, what+": nil key")
		x, ok := Unbox(v)
		sym.Assert(ok, what+": value of the wrong type")
		ks = append(ks, k)
		vs = append(vs, x)
	}
	sym.Assert(len(ks) == n, what+": too few entries")
	return ks, vs
}

// Same asserts that got is exactly the sequence want.
func Same(got, want []types.Hashable, what string) {
	sym.Assert(len(got) == len(want), what+": wrong length")
	for i := range got {
		sym.Assert(got[i].Equals(want[i]), what+": wrong item")
	}
}

// Rising asserts that s is strictly increasing.
func Rising(s []types.Hashable, what string) {
	for i := 1; i < len(s); i++ {
		sym.Assert(s[i-1].Less(s[i]), what+": not strictly increasing")
	}
}

// Distinct asserts that the elements of s differ pairwise.
func Distinct(s []types.Hashable, what string) {
	for i := range s {
		for j := 0; j < i; j++ {
			sym.Assert(!s[i].Equals(s[j]), what+": repeated item")
		}
	}
}

// Reverse returns s backwards.
func Reverse(s []types.Hashable) []types.Hashable {
	r := make([]types.Hashable, len(s))
	for i := range s {
		r[len(s)-1-i] = s[i]
	}
	return r
}

// Clone copies s.
func Clone(s []types.Hashable) []types.Hashable {
	return append([]types.Hashable{}, s...)
}

// Slice iterates over s.
func Slice(s []types.Hashable) (it types.KIterator) {
	i := 0
	it = func() (types.Hashable, types.KIterator) {
		if i < len(s) {
			i++
			return s[i-1], it
		}
		return nil, nil
	}
	return it
}

// Small returns n arbitrary types.Int8 items. Code that only compares keys
// cannot tell a wider type from this one while there are fewer than 256.
func Small(n int) []types.Hashable {
	ks := make([]types.Hashable, n)
	for i := range ks {
		ks[i] = types.Int8(sym.Int8())
	}
	return ks
}

// S is a small key, ordered by one byte, whose hash code is chosen so that all
// keys share the buckets of a small hash table.
type S struct {
	ID int8
	H  int
}

func (k S) Equals(o types.Equatable) bool {
	if x, ok := o.(S); ok {
		return k.ID == x.ID
	}
	return false
}

func (k S) Less(o types.Sortable) bool {
	if x, ok := o.(S); ok {
		return k.ID < x.ID
	}
	return false
}

func (k S) Hash() int { return k.H }

// Flat returns n arbitrary keys with hash code zero.
func Flat(n int) []types.Hashable {
	ks := make([]types.Hashable, n)
	for i := range ks {
		ks[i] = S{sym.Int8(), 0}
	}
	return ks
}

// OneBucket returns n arbitrary keys with arbitrary hash codes whose low ten
// bits agree.
func OneBucket(n int) []types.Hashable {
	ks := make([]types.Hashable, n)
	low := sym.Choose(2) * 5
	for i := range ks {
		k := S{sym.Int8(), sym.Int()<<10 | low}
		for j := 0; j < i; j++ {
			p := ks[j].(S)
			sym.Assume(sym.Implies(p.ID == k.ID, p.H == k.H))
		}
		ks[i] = k
	}
	return ks
}

// Box makes the value numbered i: mostly the number itself, but there is also
// a nil value and one that cannot be compared.
func Box(i int) interface{} {
	switch i {
	case 2:
		return nil
	case 4:
		return []int{4}
	}
	return i
}

// Unbox tells the number of a value.
func Unbox(v interface{}) (int, bool) {
	switch x := v.(type) {
	case nil:
		return 2, true
	case int:
		return x, x != 2 && x != 4
	case []int:
		return 4, len(x) == 1 && x[0] == 4
	}
	return 0, false
}

// Num is the number of a value.
func Num(v interface{}) int {
	n, ok := Unbox(v)
	sym.Assert(ok, "a value that was stored")
	return n
}

// T is an item that carries a tag: items with the same ID are equal, whatever
// their tags.
type T struct {
	ID  int8
	Tag int
}

func (t T) Equals(o types.Equatable) bool {
	if x, ok := o.(T); ok {
		return t.ID == x.ID
	}
	return false
}

func (t T) Less(o types.Sortable) bool {
	if x, ok := o.(T); ok {
		return t.ID < x.ID
	}
	return false
}

func (t T) Hash() int { return 0 }

// Is tells whether x is the very item t.
func (t T) Is(x interface{}) bool {
	y, ok := x.(T)
	return ok && t.Tag == y.Tag && t.ID == y.ID
}

// A BinTree is the shape of a binary tree.
type BinTree struct{ l, r *BinTree }

// Shapes is the number of shapes Sub makes.
const Shapes = 6

// Sub makes a tree of height h: one with as few nodes as a tree can have whose
// subtrees differ by two in height, leaning left (0), right (1) or both in
// turn (2), a full tree (3), or a full tree of height h-1 with one more node at
// its left (4) or right end (5).
func Sub(h, how int) *BinTree {
	if h <= 0 {
		return nil
	}
	switch how {
	case 0:
		return &BinTree{Sub(h-1, 0), Sub(h-3, 0)}
	case 1:
		return &BinTree{Sub(h-3, 1), Sub(h-1, 1)}
	case 2:
		if h%2 == 0 {
			return &BinTree{Sub(h-3, 2), Sub(h-1, 2)}
		}
		return &BinTree{Sub(h-1, 2), Sub(h-3, 2)}
	case 4:
		return &BinTree{Sub(h-1, 4), Sub(h-2, 3)}
	case 5:
		return &BinTree{Sub(h-2, 3), Sub(h-1, 5)}
	}
	return &BinTree{Sub(h-1, 3), Sub(h-1, 3)}
}

// Join puts two trees below a root.
func Join(l, r *BinTree) *BinTree { return &BinTree{l, r} }

// Levels lists the positions of the nodes of the tree from the root down. Keys
// put in that order into a search tree make a tree of that shape.
func (t *BinTree) Levels() []int {
	var rank func(t *BinTree, d int)
	var levels [][]int
	n := 0
	rank = func(t *BinTree, d int) {
		if t == nil {
			return
		}
		if d == len(levels) {
			levels = append(levels, nil)
		}
		rank(t.l, d+1)
		levels[d] = append(levels[d], n)
		n++
		rank(t.r, d+1)
	}
	rank(t, 0)
	var all []int
	for _, l := range levels {
		all = append(all, l...)
	}
	return all
}
