// Package c03: the array list against the ideal sequence.
package c03

import (
	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/types"
	"verif/harness/ref"
	"verif/harness/sym"
)

type world struct {
	l    *list.List
	want []types.Hashable
	// earlier lists that were copied and what they must still hold
	old     []*list.List
	oldWant [][]types.Hashable
}

func item() types.Hashable { return types.Int(sym.Int()) }

func (w *world) insert(i int, x types.Hashable) {
	s := append([]types.Hashable{}, w.want[:i]...)
	s = append(s, x)
	w.want = append(s, w.want[i:]...)
}

func (w *world) remove(i int) {
	s := append([]types.Hashable{}, w.want[:i]...)
	w.want = append(s, w.want[i+1:]...)
}

const nops = 9

func (w *world) step(op int) {
	n := len(w.want)
	switch op {
	case 0:
		x := item()
		sym.Assert(w.l.Append(x) == nil, "Append succeeds")
		w.insert(n, x)
	case 1:
		i, x := sym.Int(), item()
		err := w.l.Insert(i, x)
		if i < 0 || i > n {
			sym.Assert(err != nil, "Insert out of range is rejected")
		} else {
			sym.Assert(err == nil, "Insert succeeds")
			w.insert(sym.Fix(i), x)
		}
	case 2:
		i := sym.Int()
		err := w.l.Remove(i)
		if i < 0 || i >= n {
			sym.Assert(err != nil, "Remove out of range is rejected")
		} else {
			sym.Assert(err == nil, "Remove succeeds")
			w.remove(sym.Fix(i))
		}
	case 3:
		x, err := w.l.Pop()
		if n == 0 {
			sym.Assert(err != nil, "Pop of an empty list is rejected")
		} else {
			sym.Assert(err == nil, "Pop succeeds")
			sym.Assert(x.Equals(w.want[n-1]), "Pop returns the last item")
			w.remove(n - 1)
		}
	case 4:
		i, x := sym.Int(), item()
		err := w.l.Set(i, x)
		if i < 0 || i >= n {
			sym.Assert(err != nil, "Set out of range is rejected")
		} else {
			sym.Assert(err == nil, "Set succeeds")
			i = sym.Fix(i)
			w.want = ref.Clone(w.want)
			w.want[i] = x
		}
	case 5:
		xs := ref.Ints(sym.Choose(3))
		sym.Assert(w.l.Extend(ref.Slice(xs)) == nil, "Extend succeeds")
		w.want = append(ref.Clone(w.want), xs...)
	case 6:
		w.l.Clear()
		w.want = nil
	case 7:
		c := w.l.Copy()
		w.old = append(w.old, w.l)
		w.oldWant = append(w.oldWant, w.want)
		w.l = c
	case 8:
		x := item()
		sym.Assert(w.l.Push(x) == nil, "Push succeeds")
		w.insert(n, x)
	}
}

func check(l *list.List, want []types.Hashable) {
	sym.Assert(l.Size() == len(want), "Size")
	sym.Assert(l.Empty() == (len(want) == 0), "Empty")
	sym.Assert(!l.Full(), "a growable list is never full")
	ref.Same(ref.Items(l.Items(), len(want), "Items"), want, "Items")
	ref.Same(ref.Items(l.ItemsInReverse(), len(want), "ItemsInReverse"), ref.Reverse(want), "ItemsInReverse")
	for i := range want {
		x, err := l.Get(i)
		sym.Assert(err == nil && x.Equals(want[i]), "Get")
	}
}

func (w *world) finish() {
	check(w.l, w.want)
	for i := range w.old {
		check(w.old[i], w.oldWant[i])
	}
	i := sym.Int()
	sym.Assume(sym.Or(i < 0, i >= len(w.want)))
	_, err := w.l.Get(i)
	sym.Assert(err != nil, "Get out of range is rejected")
}

// VHistory: every history of a few operations from any small initial capacity.
func VHistory() {
	w := &world{l: list.New(sym.Choose(3))}
	n := sym.Bound("operations", 4, 5)
	for i := 0; i < n; i++ {
		w.step(sym.Choose(nops))
	}
	w.finish()
	sym.Observe(len(w.want))
}

// VBuild: a list built by arbitrary insertions, then arbitrary removals.
func VBuild() {
	w := &world{l: list.New(sym.Choose(4))}
	n := sym.Bound("insertions", 5, 6)
	for i := 0; i < n; i++ {
		w.step(1)
	}
	check(w.l, w.want)
	for i := 0; i < sym.Bound("removals", 1, 2); i++ {
		w.step(2)
	}
	w.finish()
}

// VHas: Has of an arbitrary item.
func VHas() {
	xs := ref.Ints(sym.Choose(sym.Bound("items", 5, 8)))
	l := list.FromSlice(xs)
	check(l, xs)
	q := item()
	sym.Assert(l.Has(q) == ref.In(xs, q), "Has")
	l.Extend(l.Copy().Items())
	check(l, append(ref.Clone(xs), xs...))
}

// thresholds around which the storage grows or shrinks.
var big = [][2]int{
	{0, 1}, {3, 3}, {22, 12}, {23, 12}, {24, 12}, {26, 2}, {32, 17}, {0, 99}, {0, 100}, {99, 99}, {100, 52},
	{0, 101}, {1, 64}, {3, 96}, {99, 198}, {100, 100}, {100, 200}, {101, 101}, {20, 11}, {21, 11}, {22, 13}, {24, 13}, {100, 51}, {200, 101},
}

// VThreshold: one arbitrary operation, then a second one, at every size where
// the storage is about to change.
func VThreshold() {
	c := big[sym.Choose(sym.Bound("thresholds", 11, len(big)))]
	w := &world{l: list.New(c[0])}
	for i := 0; i < c[1]; i++ {
		x := types.Int(i)
		sym.Assert(w.l.Append(x) == nil, "Append succeeds")
		w.want = append(w.want, x)
	}
	w.step(sym.Choose(nops))
	check(w.l, w.want)
	if len(w.want) > 0 {
		switch sym.Choose(4) {
		case 0:
			w.step(0)
		case 1:
			w.step(3)
		case 2:
			sym.Assert(w.l.Remove(0) == nil, "Remove of the first item succeeds")
			w.remove(0)
		case 3:
			x := item()
			sym.Assert(w.l.Insert(0, x) == nil, "Insert at the front succeeds")
			w.insert(0, x)
		}
	}
	w.finish()
}

// VShrinkGrow: draining and refilling across several changes of the storage.
func VShrinkGrow() {
	c := [][2]int{{64, 40}, {0, 30}, {30, 30}, {200, 110}}[sym.Choose(4)]
	w := &world{l: list.New(c[0])}
	x := item()
	for i := 0; i < c[1]; i++ {
		var y types.Hashable = types.Int(i)
		if i == 3 {
			y = x
		}
		w.l.Append(y)
		w.want = append(w.want, y)
	}
	at := sym.Choose(3)
	for len(w.want) > 2 {
		i := []int{0, len(w.want) - 1, len(w.want) / 2}[at]
		sym.Assert(w.l.Remove(i) == nil, "Remove succeeds")
		w.remove(i)
	}
	check(w.l, w.want)
	for i := 0; i < 40; i++ {
		y := types.Int(1000 + i)
		j := []int{len(w.want), 0, len(w.want) / 2}[at]
		sym.Assert(w.l.Insert(j, y) == nil, "Insert succeeds")
		w.insert(j, y)
	}
	w.finish()
}
