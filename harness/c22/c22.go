// Package c22: the heap.
package c22

import (
	"github.com/timtadh/data-structures/heap"
	"verif/harness/ref"
	"verif/harness/sym"
)

// world is a heap with the priorities of the items it should hold; the item
// pushed i-th is the number i.
type world struct {
	h    *heap.Heap
	min  bool
	prio map[int]int
	left []int // items, in order of insertion
	n    int
}

func newWorld(size int) *world {
	w := &world{min: sym.Choose(2) == 0, prio: map[int]int{}}
	switch {
	case size == 0:
		w.h = heap.NewHeap(size, w.min)
	case w.min:
		w.h = heap.NewMinHeap(size)
	default:
		w.h = heap.NewMaxHeap(size)
	}
	sym.Assert(w.h.MinHeap() == w.min && w.h.MaxHeap() == !w.min, "the kind of heap")
	return w
}

func (w *world) push(p int) {
	w.h.Push(p, w.n)
	w.prio[w.n] = p
	w.left = append(w.left, w.n)
	w.n++
}

// best checks that the item is one of best priority and returns its position.
func (w *world) best(x interface{}, what string) int {
	id, ok := x.(int)
	sym.Assert(ok, what+" returns an item")
	at := -1
	for i, y := range w.left {
		if y == id {
			at = i
		}
	}
	sym.Assert(at >= 0, what+" returns an item still in the heap")
	r := true
	for _, y := range w.left {
		if w.min {
			r = sym.And(r, w.prio[id] <= w.prio[y])
		} else {
			r = sym.And(r, w.prio[id] >= w.prio[y])
		}
	}
	sym.Assert(r, what+" returns an item of best priority")
	return at
}

func (w *world) peek() {
	x := w.h.Peek()
	if len(w.left) == 0 {
		sym.Assert(x == nil, "Peek of an empty heap")
		return
	}
	w.best(x, "Peek")
}

func (w *world) pop() {
	x := w.h.Pop()
	if len(w.left) == 0 {
		sym.Assert(x == nil, "Pop of an empty heap")
		return
	}
	i := w.best(x, "Pop")
	w.left = append(append([]int{}, w.left[:i]...), w.left[i+1:]...)
}

func (w *world) check() {
	sym.Assert(w.h.Size() == len(w.left), "Size")
	sym.Assert(w.h.Verify() == nil, "Verify")
	seen := map[int]bool{}
	n := 0
	for x, next := w.h.Items()(); next != nil; x, next = next() {
		n++
		sym.Assert(n <= len(w.left), "Items: too many")
		id := x.(int)
		in := false
		for _, y := range w.left {
			in = in || y == id
		}
		sym.Assert(in && !seen[id], "Items yields each item once")
		seen[id] = true
	}
	sym.Assert(n == len(w.left), "Items: too few")
	w.peek()
}

// few is one of eight priorities, enough for every order of eight items.
func few() int { return int(sym.Byte()&7) - 4 }

// VWide: any priorities.
func VWide() {
	w := newWorld(2 * sym.Choose(2))
	for i := 0; i < 3; i++ {
		w.push(sym.Int())
		w.check()
	}
	for i := 0; i <= 3; i++ {
		w.pop()
		w.check()
	}
}

// VHistory: histories of pushing and popping.
func VHistory() {
	w := newWorld(2 * sym.Choose(2))
	for i := 0; i < sym.Bound("operations", 5, 6); i++ {
		if sym.Choose(2) == 0 {
			w.push(few())
		} else {
			w.pop()
		}
		w.check()
	}
	for i := len(w.left); i >= 0; i-- {
		w.pop()
	}
	w.check()
}

// VSort: pushes in any order, then everything is popped.
func VSort() {
	w := newWorld(4)
	n := sym.Bound("items", 6, 7)
	for i := 0; i < n; i++ {
		w.push(few())
	}
	w.check()
	for i := 0; i <= n; i++ {
		w.pop()
	}
	w.check()
}

// VDeep: arbitrary operations on a larger heap.
func VDeep() {
	w := newWorld(0)
	n := []int{7, 10, 15}[sym.Choose(sym.Bound("sizes", 2, 3))]
	how := sym.Choose(3)
	for i := 0; i < n; i++ {
		p := i
		switch how {
		case 1:
			p = n - i
		case 2:
			p = i * 5 % n / 2
		}
		w.push(4*p - 10)
	}
	for i := 0; i < sym.Bound("operations on a larger heap", 3, 4); i++ {
		if sym.Choose(2) == 0 {
			w.push(int(sym.Int8()))
		} else {
			w.pop()
		}
		w.check()
	}
	for len(w.left) > 0 {
		w.pop()
	}
	w.check()
}

// VEmptied: a heap that went empty is as good as new.
func VEmptied() {
	w := newWorld(2)
	w.pop()
	w.check()
	for round := 0; round < 2; round++ {
		n := sym.Choose(4)
		for i := 0; i < n; i++ {
			w.push(few())
		}
		for i := 0; i < n+sym.Choose(2); i++ {
			w.pop()
		}
		w.check()
	}
}

// VLarge: an arbitrary priority in a large heap.
func VLarge() {
	w := newWorld(sym.Choose(2))
	n := sym.Bound("items in a large heap", 70, 140)
	for _, i := range ref.Order(n, sym.Choose(ref.Orders)) {
		w.push(3 * (i - i%3))
	}
	for i := sym.Choose(2) * 20; i > 0; i-- {
		w.pop()
	}
	w.push(int(sym.Int16()))
	w.check()
	for len(w.left) > 0 {
		w.pop()
	}
	w.check()
}
