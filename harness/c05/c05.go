// Package c05: the sorted list.
package c05

import (
	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/types"
	"verif/harness/ref"
	"verif/harness/sym"
)

func item() types.Hashable { return types.Int8(sym.Int8()) }

type world struct {
	s    *list.Sorted
	dups bool
	want []types.Hashable // in order
}

func (w *world) add(x types.Hashable) {
	i := 0
	for i < len(w.want) && w.want[i].Less(x) {
		i++
	}
	if !w.dups && i < len(w.want) && w.want[i].Equals(x) {
		return
	}
	r := append([]types.Hashable{}, w.want[:i]...)
	r = append(r, x)
	w.want = append(r, w.want[i:]...)
}

// drop removes one item equal to x.
func (w *world) drop(x types.Hashable) bool {
	for i := range w.want {
		if w.want[i].Equals(x) {
			r := append([]types.Hashable{}, w.want[:i]...)
			w.want = append(r, w.want[i+1:]...)
			return true
		}
	}
	return false
}

func (w *world) step(op int) {
	switch op {
	case 0:
		x := item()
		sym.Assert(w.s.Add(x) == nil, "Add succeeds")
		w.add(x)
	case 1:
		x := item()
		err := w.s.Delete(x)
		sym.Assert((err == nil) == w.drop(x), "Delete succeeds exactly when the item is present")
	case 2:
		i := sym.Int()
		x, gerr := w.s.Get(i)
		err := w.s.Remove(i)
		if i < 0 || i >= len(w.want) {
			sym.Assert(err != nil && gerr != nil, "Remove and Get out of range are rejected")
		} else {
			sym.Assert(err == nil && gerr == nil, "Remove and Get succeed")
			sym.Assert(w.drop(x), "the removed item was present")
		}
	case 3:
		w.extend(1)
	case 4:
		w.s.Clear()
		w.want = nil
	}
}

func (w *world) extend(n int) {
	xs := ref.Small(n)
	sym.Assert(w.s.Extend(ref.Slice(xs)) == nil, "Extend succeeds")
	for _, x := range xs {
		w.add(x)
	}
}

func (w *world) check() {
	n := len(w.want)
	sym.Assert(w.s.Size() == n, "Size")
	sym.Assert(w.s.Empty() == (n == 0), "Empty")
	got := ref.Items(w.s.Items(), n, "Items")
	ref.Same(ref.Items(w.s.ItemsInReverse(), n, "ItemsInReverse"), ref.Reverse(got), "ItemsInReverse")
	ref.Same(got, w.want, "Items in order")
	for i := range got {
		x, err := w.s.Get(i)
		sym.Assert(err == nil && x.Equals(got[i]), "Get agrees with Items")
	}
}

// probe checks Find, Has and Item of q.
func (w *world) probe(q types.Hashable) {
	i, found, err := w.s.Find(q)
	i = sym.Fix(i)
	sym.Assert(err == nil, "Find does not fail")
	sym.Assert(i >= 0 && i <= len(w.want), "Find reports a position")
	if i > 0 {
		sym.Assert(w.want[i-1].Less(q), "Find reports the first position")
	}
	has := false
	if i < len(w.want) {
		sym.Assert(!w.want[i].Less(q), "Find reports the position of the item or its insertion point")
		has = w.want[i].Equals(q)
	}
	sym.Assert(found == has, "Find reports presence")
	sym.Assert(w.s.Has(q) == has, "Has")
	x, err := w.s.Item(q)
	sym.Assert((err == nil) == has, "Item fails exactly for absent items")
	if err == nil {
		sym.Assert(x.Equals(q), "Item returns an equal item")
	}
	sym.Observe(i)
}

func make(dups bool) *world {
	return &world{s: list.NewSorted(sym.Choose(2), dups), dups: dups}
}

func (w *world) history(n int) {
	for i := 0; i < n; i++ {
		w.step(sym.Choose(5))
		w.check()
	}
	w.probe(item())
}

func VDups()  { make(true).history(sym.Bound("operations", 4, 5)) }
func VNoDup() { make(false).history(sym.Bound("operations", 4, 5)) }

// VGrow: arbitrary additions, then an arbitrary deletion and probe.
func VGrow() {
	w := make(sym.Choose(2) == 1)
	for i := 0; i < sym.Bound("additions", 5, 6); i++ {
		w.step(0)
	}
	w.check()
	w.step(1)
	w.check()
}

// VExtend: extending by several items.
func VExtend() {
	w := make(sym.Choose(2) == 1)
	w.extend(sym.Choose(3))
	w.check()
	w.extend(sym.Choose(4))
	w.check()
}

// VProbe: Find in longer lists with runs of equal items.
func VProbe() {
	n := sym.Choose(sym.Bound("length", 9, 16))
	w := &world{s: list.NewSorted(0, true), dups: true}
	xs := ref.Small(n)
	for i := range xs {
		if i > 0 {
			sym.Assume(!xs[i].Less(xs[i-1]))
		}
	}
	m, u := types.Int8Marshals()
	l := list.NewMSorted(list.NewSorted(0, true), m, u)
	l.MList.List = *list.FromSlice(xs)
	w.s = l.Sorted()
	w.want = xs
	w.probe(item())
	w.step(sym.Choose(2))
	w.check()
}

// VSlice: construction from a slice in any order.
func VSlice() {
	xs := ref.Small(sym.Choose(sym.Bound("slice", 5, 6)))
	w := &world{dups: sym.Choose(2) == 1}
	w.s = list.SortedFromSlice(ref.Clone(xs), w.dups)
	for _, x := range xs {
		w.add(x)
	}
	w.check()
}

// VLarge: an arbitrary operation on longer lists.
func VLarge() {
	n := []int{20, 33, 100}[sym.Choose(sym.Bound("sizes of longer lists", 3, 3))]
	w := make(sym.Choose(2) == 1)
	for _, i := range ref.Order(n, sym.Choose(ref.Orders)) {
		x := types.Int16(3 * (i - i%4/2))
		sym.Assert(w.s.Add(x) == nil, "Add succeeds")
		w.add(x)
	}
	w.check()
	x := ref.Int16()
	switch sym.Choose(3) {
	case 0:
		sym.Assert(w.s.Add(x) == nil, "Add succeeds")
		w.add(x)
	case 1:
		sym.Assert((w.s.Delete(x) == nil) == w.drop(x), "Delete succeeds exactly when the item is present")
	case 2:
		w.probe(x)
	}
	w.check()
}

// VBetween: lookups between changes.
func VBetween() {
	w := make(sym.Choose(2) == 1)
	few := []types.Hashable{types.Int8(4), types.Int8(0), types.Int8(8), types.Int8(4), types.Int8(12)}
	for _, x := range few {
		sym.Assert(w.s.Add(x) == nil, "Add succeeds")
		w.add(x)
	}
	q := types.Hashable(types.Int8(sym.Int8()))
	w.probe(q)
	for i := 0; i < sym.Bound("changes between lookups", 3, 4); i++ {
		x := append([]types.Hashable{q}, few...)[sym.Choose(4)]
		if sym.Choose(2) == 0 {
			sym.Assert(w.s.Add(x) == nil, "Add succeeds")
			w.add(x)
		} else {
			sym.Assert((w.s.Delete(x) == nil) == w.drop(x), "Delete succeeds exactly when the item is present")
		}
		w.probe(q)
		w.probe(types.Int8(4))
		w.check()
	}
}
