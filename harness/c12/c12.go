// Package c12: the linear hash table against the reference map.
package c12

import (
	"github.com/timtadh/data-structures/hashtable"
	"github.com/timtadh/data-structures/types"
	"verif/harness/ref"
	"verif/harness/sym"
)

func world() *ref.World { return &ref.World{M: hashtable.NewLinearHash()} }

type source struct{ made []ref.K }

// key makes a key with the given hash; equal ones have equal hash codes.
func (s *source) key(h int) types.Hashable {
	k := ref.K{ID: int(sym.Int8()), H: h}
	for _, p := range s.made {
		sym.Assume(sym.Implies(p.ID == k.ID, p.H == k.H))
	}
	s.made = append(s.made, k)
	return k
}

// VAnyHash: arbitrary hash codes.
func VAnyHash() {
	var s source
	world().History(sym.Bound("operations with any 64-bit hash", 1, 2), func() types.Hashable { return s.key(sym.Int()) })
}

// VHistory: histories within two buckets.
func VHistory() {
	var s source
	world().History(sym.Bound("operations", 4, 5), func() types.Hashable {
		h := 0
		if sym.Bool() {
			h = -1
		}
		return s.key(h)
	})
}

// VCollide: histories of keys in one bucket.
func VCollide() {
	world().History(sym.Bound("operations on colliding keys", 5, 6), func() types.Hashable {
		return ref.K{ID: int(sym.Int8()), H: -1 << 63}
	})
}

// VDeepBucket: arbitrary operations in a bucket that already has many entries.
func VDeepBucket() {
	w := world()
	n := []int{6, 11, 16}[sym.Choose(sym.Bound("bucket sizes", 2, 3))]
	how := sym.Choose(3)
	for i := 0; i < n; i++ {
		id := i
		switch how {
		case 1:
			id = n - i
		case 2:
			id = i * 7 % 17
		}
		w.Put(ref.K{ID: 4*id - 64, H: 7})
	}
	for i := 0; i < sym.Bound("operations on a large bucket", 2, 3); i++ {
		w.Step(sym.Choose(2), ref.K{ID: int(sym.Int8()), H: 7})
	}
	w.Check()
	w.CheckGets()
}

// big is a linear hash with many entries next to the symbolic ones.
type big struct {
	m    types.Map
	n    int   // entries 0..n-1
	gone []int // of which these are removed
	few  ref.Map
}

// hash codes of the filling: negative and positive, all buckets
func fill(i int) ref.K { return ref.K{ID: 1000 + i, H: (i*37 + 5) * (1 - 2*(i&1))} }

func (b *big) grow(n int) {
	for ; b.n < n; b.n++ {
		sym.Assert(b.m.Put(fill(b.n), ref.Box(b.n)) == nil, "Put succeeds")
	}
}

func (b *big) put(k types.Hashable, v int) {
	sym.Assert(b.m.Put(k, ref.Box(v)) == nil, "Put succeeds")
	b.few.Put(k, v)
}

func (b *big) remove(k types.Hashable) {
	v, err := b.m.Remove(k)
	rv, ok := b.few.Remove(k)
	sym.Assert((err == nil) == ok, "Remove fails exactly for absent keys")
	if ok {
		x, isInt := ref.Unbox(v)
		sym.Assert(isInt && x == rv, "Remove returns the removed value")
	}
}

func (b *big) drop(i int) {
	v, err := b.m.Remove(fill(i))
	sym.Assert(err == nil && ref.Num(v) == i, "Remove returns the removed value")
	b.gone = append(b.gone, i)
}

func (b *big) check() {
	total := b.n - len(b.gone) + b.few.Size()
	sym.Assert(b.m.Size() == total, "Size")
	seen := make([]bool, b.n)
	for _, i := range b.gone {
		seen[i] = true
	}
	var ks []types.Hashable
	count := 0
	for k, v, next := b.m.Iterate()(); next != nil; k, v, next = next() {
		count++
		sym.Assert(count <= total, "Iterate: too many entries")
		id := k.(ref.K).ID
		if !sym.IsSym(id) && id >= 1000 {
			sym.Assert(!seen[id-1000] && ref.Num(v) == id-1000, "Iterate yields each entry once with its value")
			seen[id-1000] = true
			continue
		}
		sym.Assert(b.few.Holds(k, ref.Num(v)), "Iterate yields present entries")
		ks = append(ks, k)
	}
	sym.Assert(count == total, "Iterate: too few entries")
	ref.Distinct(ks, "Iterate")
	for i := 0; i < b.n; i++ {
		if v, err := b.m.Get(fill(i)); err == nil {
			sym.Assert(ref.Num(v) == i, "Get")
		} else {
			gone := false
			for _, j := range b.gone {
				gone = gone || i == j
			}
			sym.Assert(gone, "every present key is found")
		}
	}
	for i, k := range b.few.Keys {
		v, err := b.m.Get(k)
		sym.Assert(err == nil && b.m.Has(k) && ref.Num(v) == b.few.Vals[i], "every present key is found")
	}
}

// VSplit: arbitrary keys before, between and after bucket splits.
func VSplit() {
	b := &big{m: hashtable.NewLinearHash()}
	var s source
	// the splits happen at 385, 397, 409, ... entries; the first four split
	// buckets 0 to 3
	key := func() types.Hashable {
		h := sym.Int()
		sym.Assume(h&31 < sym.Bound("buckets hit", 2, 4))
		return s.key(h)
	}
	b.grow(370)
	b.put(key(), -1)
	b.put(key(), -2)
	at := []int{382, 383, 384, 395, 430}
	b.grow(at[sym.Choose(sym.Bound("moments", 4, 5))])
	b.remove(key())
	b.grow(433)
	b.check()
	b.remove(b.pick())
	b.check()
}

// pick is one of the keys put, or an absent one.
func (b *big) pick() types.Hashable {
	if b.few.Size() == 0 {
		return ref.K{ID: -500, H: 32}
	}
	return b.few.Keys[sym.Choose(b.few.Size())]
}

// VWidth: an arbitrary key through growth of the address width (at 33 and 65
// buckets).
func VWidth() {
	b := &big{m: hashtable.NewLinearHash()}
	var s source
	h := sym.Int()
	sym.Assume(h&31 < sym.Bound("buckets hit when widening", 4, 32))
	b.grow(300)
	b.put(s.key(h), -1)
	b.check()
	b.grow(760)
	b.put(b.few.Keys[0], -2)
	for i := 0; i < 40; i++ {
		b.drop(i * 3)
	}
	b.check()
	b.grow(860)
	b.check()
	b.remove(s.key(sym.Ite(sym.Bool(), h, h^64)))
	b.check()
}

// VDrain: shrinking after splits, down to nothing and up again.
func VDrain() {
	b := &big{m: hashtable.NewLinearHash()}
	var s source
	b.grow(420)
	h := sym.Int()
	sym.Assume(h&31 < 2)
	b.put(s.key(h), -1)
	for i := 0; i < 420; i++ {
		b.drop(i)
	}
	b.check()
	b.remove(b.few.Keys[0])
	b.check()
	b.put(s.key(h), -3)
	b.grow(440)
	b.check()
}

// VBetween: lookups between changes.
func VBetween() { world().Between() }
