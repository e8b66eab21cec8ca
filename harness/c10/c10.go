// Package c10: the map-set against the reference map.
package c10

import (
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/types"
	"verif/harness/ref"
	"verif/harness/sym"
)

func key() types.Hashable { return types.Int8(sym.Int8()) }

type world struct {
	ref.World
	m    *set.MapSet
	adds int
}

func newWorld(n int) *world {
	m := set.NewMapSet(set.NewSortedSet(n))
	return &world{World: ref.World{M: m, Sorted: true}, m: m}
}

// add an entry with a value never used before; present keys keep theirs.
func (w *world) add(k types.Hashable) {
	w.adds++
	v := 1000 + w.adds
	sym.Assert(w.m.Add(&types.MapEntry{Key: k, Value: v}) == nil, "Add succeeds")
	w.note(k, v)
}

func (w *world) note(k types.Hashable, v int) {
	if _, has := w.Ref.Get(k); !has {
		w.Ref.Put(k, v)
	}
}

func (w *world) del(k types.Hashable) {
	err := w.m.Delete(k)
	_, ok := w.Ref.Remove(k)
	sym.Assert((err == nil) == ok, "Delete fails exactly for absent keys")
}

func (w *world) extend(ks ...types.Hashable) {
	var es []types.Hashable
	for i, k := range ks {
		es = append(es, &types.MapEntry{Key: k, Value: 2000 + i})
	}
	sym.Assert(w.m.Extend(ref.Slice(es)) == nil, "Extend succeeds")
	for i, k := range ks {
		w.note(k, 2000+i)
	}
}

func (w *world) check() {
	w.Check()
	n := w.Ref.Size()
	for _, x := range ref.Items(w.m.Items(), n, "Items") {
		e, ok := x.(*types.MapEntry)
		sym.Assert(ok, "Items yields entries")
		sym.Assert(w.Ref.Holds(e.Key, ref.Num(e.Value)), "Items yields present entries")
	}
	ref.Rising(ref.Items(w.m.Keys(), n, "Keys"), "Keys")
}

func (w *world) item(k types.Hashable) {
	x, err := w.m.Item(k)
	v, ok := w.Ref.Get(k)
	sym.Assert((err == nil) == ok, "Item fails exactly for absent keys")
	if ok {
		e := x.(*types.MapEntry)
		sym.Assert(e.Key.Equals(k) && ref.Num(e.Value) == v, "Item returns the entry")
	}
}

// VHistory: every operation in every order.
func VHistory() {
	w := newWorld(1)
	for i := 0; i < sym.Bound("operations", 3, 4); i++ {
		switch sym.Choose(5) {
		case 0:
			w.Put(key())
		case 1:
			w.Remove(key())
		case 2:
			w.add(key())
		case 3:
			w.del(key())
		case 4:
			if i > 1 {
				return
			}
			w.extend(key(), key())
		}
		w.check()
	}
	w.CheckGets()
	k := key()
	w.Get(k)
	w.item(k)
	w.check()
}

// VForms: an operation may be given the key or an entry with the key.
func VForms() {
	w := newWorld(0)
	w.Put(key())
	w.Put(key())
	k := key()
	e := &types.MapEntry{Key: k, Value: 77}
	v, err := w.m.Get(e)
	rv, ok := w.Ref.Get(k)
	sym.Assert((err == nil) == ok && w.m.Has(e) == ok, "lookup by entry")
	if ok {
		sym.Assert(ref.Num(v) == rv, "Get by entry returns the stored value")
		x, err := w.m.Item(e)
		sym.Assert(err == nil && ref.Num(x.(*types.MapEntry).Value) == rv, "Item by entry returns the stored entry")
	}
	if sym.Choose(2) == 0 {
		v, err = w.m.Remove(e)
		sym.Assert((err == nil) == ok, "Remove by entry")
		if ok {
			sym.Assert(ref.Num(v) == rv, "Remove by entry returns the stored value")
		}
	} else {
		sym.Assert((w.m.Delete(e) == nil) == ok, "Delete by entry")
	}
	w.Ref.Remove(k)
	w.check()
}

// VLong: longer histories of Put and Remove.
func VLong() {
	newWorld(3).History(sym.Bound("operations in long histories", 5, 6), key)
}

// VLarge: an arbitrary operation on larger maps after removals.
func VLarge() { newWorld(3).Large(sym.Bound("entries of larger maps", 80, 160)) }

// VBetween: lookups between changes.
func VBetween() { newWorld(2).Between() }
