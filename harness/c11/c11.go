// Package c11: the chained hash table against the reference map.
package c11

import (
	"github.com/timtadh/data-structures/hashtable"
	"github.com/timtadh/data-structures/types"
	"verif/harness/ref"
	"verif/harness/sym"
)

func world(size int) *ref.World { return &ref.World{M: hashtable.NewHashTable(size)} }

// source makes keys; equal ones have equal hash codes.
type source struct {
	made []ref.K
	hash func() int
}

func (s *source) key() types.Hashable {
	k := ref.K{ID: int(sym.Int8()), H: s.hash()}
	for _, p := range s.made {
		sym.Assume(sym.Implies(p.ID == k.ID, p.H == k.H))
	}
	s.made = append(s.made, k)
	return k
}

// VAnyHash: arbitrary 64-bit hash codes in tables whose size is a power of
// two.
func VAnyHash() {
	s := source{hash: sym.Int}
	world(1<<uint(sym.Choose(3))).History(sym.Bound("operations with any 64-bit hash", 2, 3), s.key)
}

// VExtreme: extreme hash codes in tables of any size.
func VExtreme() {
	hashes := []int{-1 << 63, 1<<63 - 1, -1, -1<<63 + 1, 0, 5, -1<<31 - 1}
	s := source{hash: func() int { return hashes[sym.Choose(sym.Bound("extreme hash codes", 5, 7))] }}
	world(sym.Choose(sym.Bound("initial sizes from 0", 7, 8))).History(sym.Bound("operations with extreme hash", 2, 3), s.key)
}

// VHistory: longer histories of colliding keys across expansions.
func VHistory() {
	// the hash is the same for all keys, or the last bits of the ID
	mask := []int{0, 1, 3}[sym.Choose(3)]
	world(1+sym.Choose(3)).History(sym.Bound("operations", 4, 5), func() types.Hashable {
		id := sym.Int8()
		return ref.K{ID: int(id), H: -int(id) & mask}
	})
}

// VGrow: several expansions around arbitrary keys.
func VGrow() {
	s := source{hash: func() int { return int(sym.Int8()) }}
	w := world(1 + sym.Choose(2))
	a := s.key()
	sym.Assume(a.(ref.K).ID < 0)
	w.Put(a)
	for i := 0; i < sym.Bound("entries around", 5, 9); i++ {
		w.Put(ref.K{ID: 1000 + i, H: i * 3 * (1 - 2*(i%2))})
	}
	w.Check()
	w.CheckGets()
	w.Remove(s.key())
	w.Put(ref.K{ID: 2000, H: -7})
	w.Check()
	w.CheckGets()
}

// VLarge: an arbitrary key among many entries, after removals. Its hash code is
// that of some entry.
func VLarge() {
	n := sym.Bound("entries of larger tables", 120, 300)
	spread := []func(i int) int{
		func(i int) int { return i },
		func(i int) int { return -i * 7919 },
		func(i int) int { return i % 5 * 64 },
	}[sym.Choose(3)]
	w := world([]int{1, 3, 16}[sym.Choose(3)])
	for _, i := range ref.Order(n, sym.Choose(ref.Orders)) {
		w.Put(ref.K{ID: 4 * i, H: spread(i)})
	}
	for i := 2; i < n; i += 5 {
		w.Remove(ref.K{ID: 4 * i, H: spread(i)})
	}
	w.Check()
	j := []int{0, n / 2, n - 1}[sym.Choose(3)]
	id := sym.Int16()
	sym.Assume(sym.Or(int(id) == 4*j, id%4 != 0))
	k := ref.K{ID: int(id), H: spread(j)}
	if op := sym.Choose(3); op == 2 {
		w.Get(k)
	} else {
		w.Step(op, k)
	}
	w.Check()
	w.CheckGets()
}

// VBetween: lookups between changes.
func VBetween() { world(1 + 9*sym.Choose(2)).Between() } // the second grows in between
