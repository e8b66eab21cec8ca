package ref

import (
	"github.com/timtadh/data-structures/types"
	"verif/harness/sym"
)

// Mapping is what the map harnesses need of a map.
type Mapping interface {
	types.MapOperable
	Iterate() types.KVIterator
}

// World drives a map together with the reference. Every operation is checked.
type World struct {
	M      Mapping
	Ref    Map
	Sorted bool // iteration is in key order
	vals   int
}

// Put stores a value never used before.
func (w *World) Put(k types.Hashable) {
	w.vals++
	sym.Assert(w.M.Put(k, Box(w.vals)) == nil, "Put succeeds")
	w.Ref.Put(k, w.vals)
}

func (w *World) Remove(k types.Hashable) {
	v, err := w.M.Remove(k)
	rv, ok := w.Ref.Remove(k)
	if !ok {
		sym.Assert(err != nil, "Remove of an absent key is an error")
		return
	}
	sym.Assert(err == nil, "Remove of a present key succeeds")
	x, isInt := Unbox(v)
	sym.Assert(isInt && x == rv, "Remove returns the removed value")
}

func (w *World) Get(k types.Hashable) {
	v, err := w.M.Get(k)
	rv, ok := w.Ref.Get(k)
	sym.Assert(w.M.Has(k) == ok, "Has")
	if !ok {
		sym.Assert(err != nil, "Get of an absent key is an error")
		return
	}
	sym.Assert(err == nil, "Get of a present key succeeds")
	x, isInt := Unbox(v)
	sym.Assert(isInt && x == rv, "Get returns the latest value")
}

// Step performs one of Put and Remove with the key.
func (w *World) Step(op int, k types.Hashable) {
	if op == 0 {
		w.Put(k)
	} else {
		w.Remove(k)
	}
}

// Check compares size and iteration with the reference.
func (w *World) Check() {
	n := w.Ref.Size()
	sym.Assert(w.M.Size() == n, "Size")
	ks, vs := Pairs(w.M.Iterate(), n, "Iterate")
	for i := range ks {
		sym.Assert(w.Ref.Holds(ks[i], vs[i]), "Iterate yields present entries")
	}
	if w.Sorted {
		Rising(ks, "Iterate")
	} else {
		Distinct(ks, "Iterate")
	}
}

// CheckGets looks every key of the reference up.
func (w *World) CheckGets() {
	for i, k := range w.Ref.Keys {
		v, err := w.M.Get(k)
		sym.Assert(err == nil && w.M.Has(k), "every present key is found")
		x, isInt := Unbox(v)
		sym.Assert(isInt && x == w.Ref.Vals[i], "every present key has its value")
	}
}

// History runs n arbitrary operations on arbitrary keys with a check after
// each.
func (w *World) History(n int, key func() types.Hashable) {
	for i := 0; i < n; i++ {
		w.Step(sym.Choose(2), key())
		w.Check()
	}
	w.CheckGets()
	w.Get(key())
	w.Check()
	sym.Observe(w.M.Size())
}

// Int8 is an arbitrary small key.
func Int8() types.Hashable { return types.Int8(sym.Int8()) }

// Int16 is an arbitrary key of 16 bits.
func Int16() types.Hashable { return types.Int16(sym.Int16()) }

// Large fills the map with n keys, removes every fifth of them and performs an
// arbitrary operation.
func (w *World) Large(n int) {
	for _, i := range Order(n, sym.Choose(Orders)) {
		w.Put(types.Int16(4 * i))
	}
	for i := 2; i < n; i += 5 {
		w.Remove(types.Int16(4 * i))
	}
	w.Check()
	if op := sym.Choose(3); op == 2 {
		w.Get(Int16())
	} else {
		w.Step(op, Int16())
	}
	w.Check()
	w.CheckGets()
}

// Between looks an arbitrary key up, before and after every change.
func (w *World) Between() {
	const n = 5
	for _, i := range Order(n, 3) {
		w.Put(S{ID: int8(4 * i)})
	}
	k := S{ID: sym.Int8()}
	w.Get(k)
	for i := 0; i < sym.Bound("changes between lookups", 3, 4); i++ {
		c := k
		if j := sym.Choose(n + 1); j < n {
			c = S{ID: int8(4*j + 4)}
		}
		w.Step(sym.Choose(2), c)
		w.Get(k)
		w.Get(S{ID: 8})
		w.Check()
	}
	w.CheckGets()
}

// Shaped fills a search tree so that it is as unbalanced as it may be, the
// lower of its subtrees with the height given, and performs an arbitrary
// operation.
func (w *World) Shaped(h int) {
	l, r := Sub(h, sym.Choose(Shapes)), Sub(h+2-sym.Choose(2), sym.Choose(Shapes))
	if sym.Choose(2) == 1 {
		l, r = r, l
	}
	for _, i := range Join(l, r).Levels() {
		w.Put(types.Int8(4*i - 64))
	}
	w.Step(sym.Choose(2), Int8())
	w.Check()
	w.CheckGets()
}
