// Package c04: lists of fixed size.
package c04

import (
	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/types"
	"verif/harness/ref"
	"verif/harness/sym"
)

func item() types.Hashable { return types.Int(sym.Int()) }

func same(l *list.List, want []types.Hashable, size int) {
	sym.Assert(l.Size() == len(want), "Size")
	sym.Assert(l.Full() == (len(want) == size), "Full exactly at the capacity")
	ref.Same(ref.Items(l.Items(), len(want), "Items"), want, "Items")
}

func insert(s []types.Hashable, i int, x types.Hashable) []types.Hashable {
	r := append([]types.Hashable{}, s[:i]...)
	r = append(r, x)
	return append(r, s[i:]...)
}

func remove(s []types.Hashable, i int) []types.Hashable {
	r := append([]types.Hashable{}, s[:i]...)
	return append(r, s[i+1:]...)
}

func restore(l *list.List) *list.List {
	m, u := types.IntMarshals()
	b, err := list.NewMList(l, m, u).MarshalBinary()
	sym.Assert(err == nil, "marshalling succeeds")
	r := &list.MList{MarshalItem: m, UnmarshalItem: u}
	sym.Assert(r.UnmarshalBinary(b) == nil, "unmarshalling succeeds")
	return &r.List
}

// VList: histories on fixed lists of every small size.
func VList() {
	size := sym.Choose(sym.Bound("size", 3, 4) + 1)
	l := list.Fixed(size)
	var want []types.Hashable
	ops := sym.Bound("operations", 4, 5)
	for k := 0; k < ops; k++ {
		n := len(want)
		switch sym.Choose(8) {
		case 0:
			x := item()
			err := l.Append(x)
			sym.Assert((err == nil) == (n < size), "Append succeeds exactly when there is room")
			if n < size {
				want = insert(want, n, x)
			}
		case 1:
			x := item()
			i := sym.Int()
			err := l.Insert(i, x)
			if i < 0 || i > n || n >= size {
				sym.Assert(err != nil, "Insert without room or out of range is rejected")
			} else {
				sym.Assert(err == nil, "Insert with room succeeds")
				want = insert(want, sym.Fix(i), x)
			}
		case 2:
			x, err := l.Pop()
			sym.Assert((err == nil) == (n > 0), "Pop succeeds exactly when not empty")
			if n > 0 {
				sym.Assert(x.Equals(want[n-1]), "Pop returns the last item")
				want = remove(want, n-1)
			}
		case 3:
			if n > 0 {
				i := sym.Choose(n)
				sym.Assert(l.Remove(i) == nil, "Remove succeeds")
				want = remove(want, i)
			}
		case 4:
			xs := ref.Ints(2)
			err := l.Extend(ref.Slice(xs))
			sym.Assert((err == nil) == (n+2 <= size), "Extend fails exactly when it does not fit")
			for _, x := range xs {
				if len(want) < size {
					want = insert(want, len(want), x)
				}
			}
		case 5:
			l.Clear()
			want = nil
		case 6:
			c := l.Copy()
			same(c, want, size)
			if len(want) < size {
				sym.Assert(c.Append(item()) == nil, "the copy has the same room")
			} else {
				sym.Assert(c.Append(item()) != nil, "the copy has the same capacity")
			}
		case 7:
			l = restore(l)
		}
		same(l, want, size)
	}
	sym.Observe(len(want))
}

// VSorted: histories on fixed sorted lists of every small size.
func VSorted() {
	size := sym.Choose(3)
	dups := sym.Choose(2) == 1
	s := list.NewFixedSorted(size, dups)
	var want []types.Hashable
	ops := sym.Bound("sorted operations", 3, 4)
	for k := 0; k < ops; k++ {
		n := len(want)
		switch sym.Choose(5) {
		case 0:
			x := item()
			has := ref.In(want, x)
			err := s.Add(x)
			if n >= size {
				if dups {
					sym.Assert(err != nil, "Add to a full list is rejected")
				} else {
					sym.Assert(sym.Or(has, err != nil), "Add of a new item to a full list is rejected")
				}
			} else {
				sym.Assert(err == nil, "Add with room succeeds")
				if dups || !has {
					want = insert(want, n, x)
				}
			}
		case 1:
			x := item()
			err := s.Delete(x)
			for i := range want {
				if want[i].Equals(x) {
					sym.Assert(err == nil, "Delete succeeds")
					want = remove(want, i)
					break
				}
			}
		case 2:
			xs := ref.Ints(2)
			s.Extend(ref.Slice(xs))
			for _, x := range xs {
				if (dups || !ref.In(want, x)) && len(want) < size {
					want = insert(want, len(want), x)
				} else if dups || !ref.In(want, x) {
					break
				}
			}
		case 3:
			s.Clear()
			want = nil
		case 4:
			m, u := types.IntMarshals()
			b, err := list.NewMSorted(s, m, u).MarshalBinary()
			sym.Assert(err == nil, "marshalling succeeds")
			r := &list.MSorted{MList: list.MList{MarshalItem: m, UnmarshalItem: u}}
			sym.Assert(r.UnmarshalBinary(b) == nil, "unmarshalling succeeds")
			s = r.Sorted()
		}
		sym.Assert(s.Size() == len(want), "Size of the sorted list")
		sym.Assert(s.Full() == (len(want) == size), "the sorted list is Full exactly at the capacity")
		got := ref.Items(s.Items(), len(want), "Items of the sorted list")
		for i, x := range want {
			sym.Assert(ref.Count(got, x) == ref.Count(want, x), "contents of the sorted list")
			if i > 0 {
				sym.Assert(!got[i].Less(got[i-1]), "order of the sorted list")
			}
		}
	}
}

// VLarge: the capacity is exact also where growable lists change storage.
func VLarge() {
	size := []int{10, 21, 22, 23, 64, 99, 100, 101, 128, 200}[sym.Choose(10)]
	l := list.Fixed(size)
	var want []types.Hashable
	for i := 0; i < size; i++ {
		x := types.Int(i)
		sym.Assert(!l.Full() && l.Append(x) == nil, "Append with room succeeds")
		want = append(want, x)
	}
	x := item()
	switch sym.Choose(3) {
	case 0:
		sym.Assert(l.Append(x) != nil, "Append to a full list is rejected")
	case 1:
		sym.Assert(l.Insert(sym.Int(), x) != nil, "Insert into a full list is rejected")
	case 2:
		sym.Assert(l.Push(x) != nil, "Push to a full list is rejected")
	}
	same(l, want, size)
	// drain most of it and refill
	keep := sym.Choose(3)
	for len(want) > keep {
		sym.Assert(l.Remove(0) == nil, "Remove succeeds")
		want = want[1:]
	}
	same(l, want, size)
	if sym.Choose(2) == 1 {
		l = restore(l)
		same(l, want, size)
	}
	for len(want) < size {
		x := types.Int(1000 + len(want))
		sym.Assert(l.Append(x) == nil, "Append after removals succeeds")
		want = append(ref.Clone(want), x)
	}
	same(l, want, size)
	sym.Assert(l.Append(x) != nil, "Append to a refilled list is rejected")
	same(l, want, size)
}
