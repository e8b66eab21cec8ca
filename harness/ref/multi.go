package ref

import (
	"github.com/timtadh/data-structures/tree/bptree"
	"github.com/timtadh/data-structures/types"
	"verif/harness/sym"
)

// Multi drives a B+ tree together with the pairs it should hold.
type Multi struct {
	T    *bptree.BpTree
	Keys []types.Hashable
	Vals []int
	vals int
}

func NewMulti(nodeSize int) *Multi { return &Multi{T: bptree.NewBpTree(nodeSize)} }

// Add adds a pair whose value was never used before.
func (m *Multi) Add(k types.Hashable) {
	m.vals++
	sym.Assert(m.T.Add(k, Box(m.vals)) == nil, "Add succeeds")
	// keep the reference in key order
	i := len(m.Keys)
	for i > 0 && k.Less(m.Keys[i-1]) {
		i--
	}
	m.Keys = append(m.Keys, nil)
	m.Vals = append(m.Vals, 0)
	copy(m.Keys[i+1:], m.Keys[i:])
	copy(m.Vals[i+1:], m.Vals[i:])
	m.Keys[i], m.Vals[i] = k, m.vals
}

// RemoveWhere removes the pairs whose value satisfies the predicate.
func (m *Multi) RemoveWhere(k types.Hashable, where func(v int) bool) {
	err := m.T.RemoveWhere(k, func(v interface{}) bool { return where(Num(v)) })
	sym.Assert(err == nil, "RemoveWhere succeeds")
	var ks []types.Hashable
	var vs []int
	for i := range m.Keys {
		if m.Keys[i].Equals(k) && where(m.Vals[i]) {
			continue
		}
		ks = append(ks, m.Keys[i])
		vs = append(vs, m.Vals[i])
	}
	m.Keys, m.Vals = ks, vs
}

// Replace replaces the values that satisfy the predicate.
func (m *Multi) Replace(k types.Hashable, where func(v int) bool) {
	m.vals++
	err := m.T.Replace(k, func(v interface{}) bool { return where(Num(v)) }, Box(m.vals))
	sym.Assert(err == nil, "Replace succeeds")
	for i := range m.Keys {
		if m.Keys[i].Equals(k) && where(m.Vals[i]) {
			m.Vals[i] = m.vals
		}
	}
}

// Check compares Size and Iterate with the reference.
func (m *Multi) Check() {
	sym.Assert(m.T.Size() == len(m.Keys), "Size")
	m.Are(m.T.Iterate(), m.Keys, m.Vals, "Iterate")
}

// Are drains the iterator, which must yield the pairs in key order; pairs with
// equal keys may come in any order. The wanted pairs are in key order or in
// reverse.
func (m *Multi) Are(it types.KVIterator, keys []types.Hashable, vals []int, what string) {
	ks, vs := Pairs(it, len(keys), what)
	used := make([]bool, len(keys))
	for i := range ks {
		sym.Assert(ks[i].Equals(keys[i]), what+": keys in order")
		// values are distinct unless replaced, so matching them greedily is
		// exact: pairs with equal key and equal value are interchangeable
		found := false
		for j := range keys {
			if !found && !used[j] && vals[j] == vs[i] && keys[j].Equals(ks[i]) {
				used[j], found = true, true
			}
		}
		sym.Assert(found, what+": values")
	}
}

// Lookup compares Has, Count and Find with the reference.
func (m *Multi) Lookup(k types.Hashable) {
	var ks []types.Hashable
	var vs []int
	for i := range m.Keys {
		if m.Keys[i].Equals(k) {
			ks = append(ks, m.Keys[i])
			vs = append(vs, m.Vals[i])
		}
	}
	sym.Assert(m.T.Has(k) == (len(ks) > 0), "Has")
	sym.Assert(m.T.Count(k) == len(ks), "Count")
	m.Are(m.T.Find(k), ks, vs, "Find")
}

// Range compares a range query with the reference and with Iterate: the pairs
// come in the order of Iterate or in reverse.
func (m *Multi) Range(from, to types.Hashable) {
	var ks []types.Hashable
	var vs []int
	down := to.Less(from)
	for i := range m.Keys {
		j := i
		if down {
			j = len(m.Keys) - 1 - i
		}
		lo, hi := from, to
		if down {
			lo, hi = to, from
		}
		if !m.Keys[j].Less(lo) && !hi.Less(m.Keys[j]) {
			ks = append(ks, m.Keys[j])
			vs = append(vs, m.Vals[j])
		}
	}
	m.Are(m.T.Range(from, to), ks, vs, "Range")
	// the order within equal keys
	aks, avs := Pairs(m.T.Iterate(), len(m.Keys), "Iterate")
	skip := len(aks)
	for i := len(aks) - 1; i >= 0; i-- {
		if !aks[i].Less(from) && !down || down && !aks[i].Less(to) {
			skip = i
		}
	}
	_, got := Pairs(m.T.Range(from, to), len(ks), "Range")
	for i := range got {
		j := i
		if down {
			j = len(got) - 1 - i
		}
		sym.Assert(got[i] == avs[skip+j], "Range is in the order of Iterate or in reverse")
	}
}

// Backward compares the backward iteration with the reference.
func (m *Multi) Backward() {
	var ks []types.Hashable
	var vs []int
	for i := len(m.Keys) - 1; i >= 0; i-- {
		ks = append(ks, m.Keys[i])
		vs = append(vs, m.Vals[i])
	}
	m.Are(m.T.Backward(), ks, vs, "Backward")
	_, all := Pairs(m.T.Iterate(), len(ks), "Iterate")
	_, got := Pairs(m.T.Backward(), len(ks), "Backward")
	for i := range got {
		sym.Assert(got[i] == all[len(all)-1-i], "Backward is the reverse of Iterate")
	}
}
