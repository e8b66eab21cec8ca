// Package c09: sets under histories.
package c09

import (
	"github.com/timtadh/data-structures/hashtable"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/types"
	"verif/harness/ref"
	"verif/harness/sym"
)

func item() types.Hashable { return ref.S{ID: sym.Int8()} }

// world is a set with the distinct items it should hold.
type world struct {
	s    types.Set
	want []types.Hashable
}

func (w *world) at(x types.Hashable) int {
	for i := range w.want {
		if w.want[i].Equals(x) {
			return i
		}
	}
	return -1
}

func (w *world) noteAdd(x types.Hashable) {
	if w.at(x) < 0 {
		w.want = append(w.want, x)
	}
}

func (w *world) add(x types.Hashable) {
	sym.Assert(w.s.Add(x) == nil, "Add succeeds")
	w.noteAdd(x)
}

func (w *world) del(x types.Hashable) {
	err := w.s.Delete(x)
	i := w.at(x)
	sym.Assert((err == nil) == (i >= 0), "Delete fails exactly for absent items")
	if i >= 0 {
		w.want = append(append([]types.Hashable{}, w.want[:i]...), w.want[i+1:]...)
	}
}

func (w *world) extend(xs ...types.Hashable) {
	sym.Assert(w.s.Extend(ref.Slice(xs)) == nil, "Extend succeeds")
	for _, x := range xs {
		w.noteAdd(x)
	}
}

func (w *world) check() {
	n := len(w.want)
	sym.Assert(w.s.Size() == n, "Size")
	got := ref.Items(w.s.Items(), n, "Items")
	for _, x := range got {
		sym.Assert(ref.In(w.want, x), "Items yields members")
	}
	ref.Distinct(got, "Items")
	for _, x := range w.want {
		sym.Assert(w.s.Has(x), "Has of a member")
	}
}

func (w *world) probe() { w.probeOf(item()) }

func (w *world) probeOf(x types.Hashable) {
	has := w.s.Has(x)
	in := w.at(x) >= 0
	sym.Assert(has == in, "Has")
	sorted, ok := w.s.(*set.SortedSet)
	if !ok {
		return
	}
	y, err := sorted.Item(x)
	sym.Assert((err == nil) == in, "Item fails exactly for absent items")
	if in {
		sym.Assert(y != nil && y.Equals(x), "Item returns the member")
	}
	ref.Rising(ref.Items(sorted.Items(), len(w.want), "Items"), "Items")
	i, found, err := sorted.Find(x)
	sym.Assert(err == nil, "Find succeeds")
	sym.Assert(found == in, "Find")
	less := 0
	for _, m := range w.want {
		if m.Less(x) {
			less++
		}
	}
	sym.Assert(i == less, "Find returns the position")
	if in {
		z, err := sorted.Get(i)
		sym.Assert(err == nil && z.Equals(x), "Get at the position found")
	}
}

func kind(i int) types.Set {
	switch i {
	case 0:
		return set.NewSortedSet(0)
	case 1:
		return set.NewSetMap(hashtable.NewLinearHash())
	case 2:
		return set.NewSetMap(hashtable.NewHashTable(1))
	}
	return set.NewSetMap(avl.NewAvlTree())
}

// VHistory: histories over each kind of set.
func VHistory() {
	w := &world{s: kind(sym.Choose(4))}
	n := sym.Bound("operations", 4, 5)
	for i := 0; i < n; i++ {
		switch sym.Choose(3) {
		case 0:
			w.add(item())
		case 1:
			w.del(item())
		case 2:
			w.extend(item(), item())
			i++
		}
		w.check()
	}
	w.probe()
	w.check()
	sym.Observe(w.s.Size())
}

// VSorted: sorted sets, with Clear and Copy as well.
func VSorted() {
	ss := set.NewSortedSet(sym.Choose(3))
	w := &world{s: ss}
	var old *world
	for i := 0; i < sym.Bound("operations on sorted sets", 4, 5); i++ {
		switch sym.Choose(4) {
		case 0:
			w.add(item())
		case 1:
			w.del(item())
		case 2:
			w.s.(*set.SortedSet).Clear()
			w.want = nil
		case 3:
			if old != nil {
				return
			}
			old = w
			w = &world{s: w.s.(*set.SortedSet).Copy(), want: ref.Clone(w.want)}
		}
		w.check()
	}
	if old != nil {
		old.check()
	}
	w.probe()
}

// VRandom: every outcome of the random source.
func VRandom() {
	w := &world{s: set.NewSortedSet(2)}
	for i := sym.Choose(sym.Bound("members for Random", 4, 6)); i > 0; i-- {
		w.add(item())
	}
	for i := 0; i < 2; i++ {
		x, err := w.s.(*set.SortedSet).Random()
		if len(w.want) == 0 {
			sym.Assert(err != nil, "Random of an empty set is an error")
		} else {
			sym.Assert(err == nil && x != nil, "Random succeeds")
			sym.Assert(ref.In(w.want, x), "Random returns a member")
		}
		w.check()
	}
}

// VFromSlice: sets made from slices and from other sets.
func VFromSlice() {
	n := sym.Choose(sym.Bound("slice length", 5, 6))
	var xs []types.Hashable
	for i := 0; i < n; i++ {
		xs = append(xs, item())
	}
	w := &world{s: set.FromSlice(xs)}
	for _, x := range xs {
		w.noteAdd(x)
	}
	w.check()
	w.probe()
	for i := range xs {
		xs[i] = ref.S{ID: 0}
	}
	w.check()
	v := &world{s: set.SortedFromSet(w.s), want: ref.Clone(w.want)}
	v.check()
	v.add(item())
	w.check()
	v.check()
}

// VLarge: an arbitrary operation on larger sets.
func VLarge() {
	w := &world{s: kind(sym.Choose(4))}
	n := sym.Bound("members of larger sets", 70, 140)
	for _, i := range ref.Order(n, sym.Choose(ref.Orders)) {
		w.add(ref.S{ID: int8(2*i - 50)})
	}
	for i := 1; i < n; i += 4 {
		w.del(ref.S{ID: int8(2*i - 50)})
	}
	w.check()
	switch sym.Choose(4) {
	case 0:
		w.add(item())
	case 1:
		w.del(item())
	case 2:
		w.extend(item(), ref.S{ID: 100})
	case 3:
		w.probe()
	}
	w.check()
}

// VBetween: lookups between changes.
func VBetween() {
	w := &world{s: kind(sym.Choose(4))}
	few := []types.Hashable{ref.S{ID: 4}, ref.S{ID: 0}, ref.S{ID: 8}, ref.S{ID: 12}}
	w.extend(few...)
	q := item()
	w.probeOf(q)
	for i := 0; i < sym.Bound("changes between lookups", 3, 4); i++ {
		x := append([]types.Hashable{q}, few...)[sym.Choose(4)]
		if sym.Choose(2) == 0 {
			w.add(x)
		} else {
			w.del(x)
		}
		w.probeOf(q)
		w.check()
	}
}
