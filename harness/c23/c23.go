// Package c23: the unique priority queue.
package c23

import (
	"github.com/timtadh/data-structures/heap"
	"github.com/timtadh/data-structures/types"
	"verif/harness/ref"
	"verif/harness/sym"
)

type world struct {
	q     *heap.UniquePQ
	min   bool
	items []types.Hashable
	prio  []int
}

func newWorld() *world {
	w := &world{min: sym.Choose(2) == 0}
	w.q = heap.NewUnique(heap.NewHeap(sym.Choose(2), w.min))
	return w
}

func (w *world) at(x types.Hashable) int {
	for i := range w.items {
		if w.items[i].Equals(x) {
			return i
		}
	}
	return -1
}

func (w *world) add(p int, x types.Hashable, push bool) {
	if push {
		w.q.Push(p, x)
	} else {
		w.q.Add(p, x)
	}
	if w.at(x) < 0 {
		w.items = append(w.items, x)
		w.prio = append(w.prio, p)
	}
}

func (w *world) best(x interface{}, what string) int {
	k, ok := x.(types.Hashable)
	sym.Assert(ok, what+" returns an item")
	i := w.at(k)
	sym.Assert(i >= 0, what+" returns a queued item")
	r := true
	for j := range w.prio {
		if w.min {
			r = sym.And(r, w.prio[i] <= w.prio[j])
		} else {
			r = sym.And(r, w.prio[i] >= w.prio[j])
		}
	}
	sym.Assert(r, what+" returns an item of best priority")
	return i
}

func (w *world) pop() {
	x := w.q.Pop()
	if len(w.items) == 0 {
		sym.Assert(x == nil, "Pop of an empty queue returns nil")
		return
	}
	i := w.best(x, "Pop")
	w.items = append(append([]types.Hashable{}, w.items[:i]...), w.items[i+1:]...)
	w.prio = append(append([]int{}, w.prio[:i]...), w.prio[i+1:]...)
}

func (w *world) check() {
	sym.Assert(w.q.Size() == len(w.items), "Size")
	x := w.q.Peek()
	if len(w.items) == 0 {
		sym.Assert(x == nil, "Peek of an empty queue returns nil")
	} else {
		w.best(x, "Peek")
	}
}

func item() types.Hashable { return ref.S{ID: sym.Int8()} }

func prio() int { return int(sym.Int8()) }

// VHistory: histories of adding and popping.
func VHistory() {
	w := newWorld()
	for i := 0; i < sym.Bound("operations", 4, 5); i++ {
		switch sym.Choose(2) {
		case 0:
			w.add(prio(), item(), i%2 == 1)
		case 1:
			w.pop()
		}
		w.check()
	}
	for i := len(w.items); i >= 0; i-- {
		w.pop()
		w.check()
	}
}

// VExtreme: any priorities.
func VExtreme() {
	w := newWorld()
	for i := 0; i < sym.Bound("items of any priority", 4, 5); i++ {
		w.add(sym.Int(), ref.S{ID: int8(i % 3)}, i%2 == 0)
		w.check()
	}
	for i := len(w.items); i >= 0; i-- {
		w.pop()
		w.check()
	}
}

// VHashes: items with arbitrary hash codes.
func VHashes() {
	w := newWorld()
	a := ref.K{ID: 1, H: sym.Int()}
	b := ref.K{ID: 2, H: a.H + sym.Choose(2)*32}
	w.add(prio(), a, false)
	w.add(prio(), b, true)
	w.add(prio(), a, true)
	w.check()
	w.pop()
	w.add(prio(), b, false)
	w.add(prio(), a, false)
	w.check()
	for i := 0; i < 3; i++ {
		w.pop()
		w.check()
	}
}

// VAgain: popped items are added again.
func VAgain() {
	w := newWorld()
	for i := 0; i < 3; i++ {
		w.add(prio(), ref.S{ID: int8(i)}, false)
	}
	w.pop()
	w.pop()
	w.check()
	for i := 0; i < sym.Bound("re-additions", 3, 4); i++ {
		w.add(prio(), item(), true)
		w.check()
	}
	for i := len(w.items); i >= 0; i-- {
		w.pop()
		w.check()
	}
}

// VLarge: an arbitrary item of arbitrary priority in a larger queue.
func VLarge() {
	w := newWorld()
	n := sym.Bound("items of a larger queue", 70, 140)
	for _, i := range ref.Order(n, sym.Choose(ref.Orders)) {
		w.add(3*(i-i%3), ref.S{ID: int8(2 * i)}, i%2 == 0)
	}
	for i := sym.Choose(2) * n / 2; i > 0; i-- {
		w.pop()
	}
	w.add(prio(), ref.S{ID: []int8{0, 1, int8(n)}[sym.Choose(3)]}, sym.Choose(2) == 0)
	w.check()
	for i := len(w.items); i >= 0; i-- {
		w.pop()
		w.check()
	}
}
