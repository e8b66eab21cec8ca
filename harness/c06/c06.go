// Package c06: comparing and hashing containers of different kinds.
package c06

import (
	"github.com/timtadh/data-structures/linked"
	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/types"
	"verif/harness/ref"
	"verif/harness/sym"
)

const kinds = 6

func ok(err error) { sym.Assert(err == nil, "building a container succeeds") }

// build makes a container of the kind holding exactly xs in that order.
func build(kind int, xs []types.Hashable) types.Hashable {
	switch kind {
	case 0:
		l := list.New(sym.Choose(2) * 3)
		for _, x := range xs {
			ok(l.Append(x))
		}
		return l
	case 1:
		for i := 1; i < len(xs); i++ {
			sym.Assume(!xs[i].Less(xs[i-1]))
		}
		l := list.NewSorted(0, true)
		for i := len(xs) - 1; i >= 0; i-- {
			ok(l.Add(xs[i]))
		}
		return l
	case 2:
		for i := 1; i < len(xs); i++ {
			sym.Assume(xs[i-1].Less(xs[i]))
		}
		s := set.NewSortedSet(2)
		for i := len(xs) - 1; i >= 0; i-- {
			ok(s.Add(xs[i]))
		}
		return s
	case 3:
		l := linked.New()
		for _, x := range xs {
			ok(l.EnqueBack(x))
		}
		return l
	case 4:
		for i := range xs {
			for j := 0; j < i; j++ {
				sym.Assume(!xs[i].Equals(xs[j]))
			}
		}
		d := linked.NewUniqueDeque()
		for i := len(xs) - 1; i >= 0; i-- {
			ok(d.EnqueFront(xs[i]))
		}
		return d
	}
	l := list.Fixed(len(xs) + sym.Choose(2))
	for _, x := range xs {
		ok(l.Append(x))
	}
	return l
}

func same(a, b []types.Hashable) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = sym.And(r, a[i].Equals(b[i]))
	}
	return r
}

func less(a, b []types.Hashable) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	r := false
	for i := len(a) - 1; i >= 0; i-- {
		r = sym.Or(a[i].Less(b[i]), sym.And(a[i].Equals(b[i]), r))
	}
	return r
}

// VCompare: any two containers of any kinds with arbitrary contents.
func VCompare() {
	n := sym.Bound("items", 4, 5)
	xs, ys := ref.Flat(sym.Choose(n+1)), ref.Flat(sym.Choose(n+1))
	a := build(sym.Choose(kinds), xs)
	b := build(sym.Choose(kinds), ys)
	eq, ab, ba := same(xs, ys), less(xs, ys), less(ys, xs)
	sym.Assert(a.Equals(b) == eq, "Equals is equality of contents")
	sym.Assert(b.Equals(a) == eq, "Equals is symmetric")
	sym.Assert(a.Less(b) == ab, "Less orders by size and then items")
	sym.Assert(b.Less(a) == ba, "Less orders by size and then items (swapped)")
	sym.Assert(a.Equals(a) && !a.Less(a), "a container equals itself")
	sym.ObserveBool(eq)
	sym.ObserveBool(ab)
}

// VHash: containers of any kinds with equal contents hash equally.
func VHash() {
	n := sym.Bound("items", 4, 6)
	xs := ref.OneBucket(sym.Choose(n + 1))
	a := build(sym.Choose(kinds), xs)
	b := build(sym.Choose(kinds), xs)
	sym.Assert(a.Equals(b), "containers with the same items are equal")
	sym.Assert(a.Hash() == b.Hash(), "equal containers hash equally")
	sym.Assert(a.Hash() == a.Hash(), "Hash is a function of the contents")
}

// VNested: containers of containers compare by contents too.
func VNested() {
	xs, ys := ref.Flat(sym.Choose(3)), ref.Flat(sym.Choose(3))
	k := sym.Choose(kinds)
	a := build(0, []types.Hashable{build(k, xs)})
	b := build(3, []types.Hashable{build(sym.Choose(kinds), ys)})
	sym.Assert(a.Equals(b) == same(xs, ys), "Equals of nested containers")
	sym.Assert(b.Equals(a) == same(xs, ys), "Equals of nested containers (swapped)")
	sym.Assert(a.Less(b) == less(xs, ys), "Less of nested containers")
}

// VOther: comparing with something that is not a container.
func VOther() {
	a := build(sym.Choose(kinds), ref.Flat(sym.Choose(3)))
	x := types.Int8(sym.Int8())
	sym.Assert(!a.Equals(x), "a container does not equal a plain item")
	sym.Assert(!a.Less(x), "a container is not less than a plain item")
	sym.Assert(!x.Equals(a), "a plain item does not equal a container")
}

// VCapacity: spare capacity, history and copying do not matter.
func VCapacity() {
	xs := ref.Flat(sym.Choose(4))
	a := list.New(0)
	b := list.New(7)
	for _, x := range xs {
		ok(a.Append(x))
		ok(b.Insert(b.Size(), ref.S{ID: 9}))
		ok(b.Set(b.Size()-1, x))
	}
	ok(b.Append(ref.S{ID: 3}))
	_, err := b.Pop()
	ok(err)
	sym.Assert(a.Equals(b) && b.Equals(a), "lists with different histories are equal")
	sym.Assert(a.Hash() == b.Hash(), "lists with different histories hash equally")
	sym.Assert(a.Hash() == b.Copy().Hash(), "a copy hashes equally")
	sym.Assert(list.Hash(a) == a.Hash(), "list.Hash agrees with the method")
	sym.Assert(!a.Less(b) && !b.Less(a), "equal lists are not less")
}

// VLarge: larger containers that differ in at most one place.
func VLarge() {
	n := []int{17, 40, 130}[sym.Choose(sym.Bound("sizes of larger containers", 3, 3))]
	xs := make([]types.Hashable, n)
	for i := range xs {
		xs[i] = types.Int16(4 * i)
	}
	i := []int{0, 1, n / 2, n - 2, n - 1}[sym.Choose(5)]
	ys := append([]types.Hashable{}, xs...)
	xs[i] = types.Int16(4*i) + types.Int16(sym.Uint8()&3)
	a := build(sym.Choose(kinds), xs)
	if sym.Choose(2) == 0 {
		b := build(sym.Choose(kinds), append([]types.Hashable{}, xs...))
		sym.Assert(a.Equals(b) && b.Equals(a) && !a.Less(b) && !b.Less(a), "larger containers with equal contents")
		sym.Assert(a.Hash() == b.Hash(), "equal containers hash equally")
		return
	}
	ys[i] = types.Int16(4*i) + types.Int16(sym.Uint8()&3)
	b := build(sym.Choose(kinds), ys)
	sym.Assert(a.Equals(b) == xs[i].Equals(ys[i]), "Equals of larger containers")
	sym.Assert(b.Equals(a) == xs[i].Equals(ys[i]), "Equals of larger containers (swapped)")
	sym.Assert(a.Less(b) == xs[i].Less(ys[i]), "Less of larger containers")
	sym.Assert(b.Less(a) == ys[i].Less(xs[i]), "Less of larger containers (swapped)")
}

// VChanged: comparing and hashing a container before it is changed has no
// influence on doing so afterwards.
func VChanged() {
	items := apart(5)
	a := build(sym.Choose(5), append([]types.Hashable{}, items[:3]...))
	first := build(3, append([]types.Hashable{}, items[:sym.Choose(2)*3]...))
	for i := 0; i < sym.Bound("changes after comparing", 2, 3); i++ {
		a.Hash()
		a.Equals(first)
		a.Less(first)
		first.Equals(a)
		change(a, items[sym.Choose(5)])
	}
	var xs []types.Hashable
	for x, next := a.(interface{ Items() types.KIterator }).Items()(); next != nil; x, next = next() {
		xs = append(xs, x)
	}
	b := list.FromSlice(xs)
	sym.Assert(a.Equals(b) && b.Equals(a) && !a.Less(b) && !b.Less(a), "a changed container equals another one with its items")
	sym.Assert(a.Hash() == b.Hash(), "a changed container hashes as another one with its items")
}

// apart returns different items with different hash codes, which are known so
// that the hash codes of containers are.
func apart(n int) []types.Hashable {
	ks := make([]types.Hashable, n)
	for i := range ks {
		k := ref.S{ID: sym.Int8(), H: 1000*i - 5}
		for j := 0; j < i; j++ {
			sym.Assume(!k.Equals(ks[j]))
		}
		ks[i] = k
	}
	return ks
}

// change performs some operation.
func change(c, x types.Hashable) {
	switch c := c.(type) {
	case *list.List:
		switch sym.Choose(7) {
		case 0:
			c.Append(x)
		case 1:
			c.Insert(1, x)
		case 2:
			c.Set(1, x)
		case 3:
			c.Remove(0)
		case 4:
			c.Pop()
		case 5:
			c.Clear()
		case 6:
			c.Extend(list.FromSlice([]types.Hashable{x, x}).Items())
		}
	case *list.Sorted:
		switch sym.Choose(5) {
		case 0:
			c.Add(x)
		case 1:
			c.Delete(x)
		case 2:
			c.Remove(1)
		case 3:
			c.Clear()
		case 4:
			c.Extend(list.FromSlice([]types.Hashable{x, x}).Items())
		}
	case *set.SortedSet:
		switch sym.Choose(4) {
		case 0:
			c.Add(x)
		case 1:
			c.Delete(x)
		case 2:
			c.Clear()
		case 3:
			c.Extend(list.FromSlice([]types.Hashable{x, x}).Items())
		}
	case deque:
		switch sym.Choose(6) {
		case 0:
			c.EnqueFront(x)
		case 1:
			c.EnqueBack(x)
		case 2:
			c.DequeFront()
		case 3:
			c.DequeBack()
		case 4:
			c.Push(x)
		case 5:
			c.Pop()
		}
	}
}

type deque interface {
	EnqueFront(types.Hashable) error
	EnqueBack(types.Hashable) error
	DequeFront() (types.Hashable, error)
	DequeBack() (types.Hashable, error)
	Push(types.Hashable) error
	Pop() (types.Hashable, error)
}
