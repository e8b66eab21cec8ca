// Package c40: the layout of serialized values.
package c40

import (
	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/types"
	"verif/harness/ref"
	"verif/harness/sym"
)

// big is the layout of numbers: n bytes, the most significant first.
func big(x uint64, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(x >> (8 * uint(n-1-i)))
	}
	return b
}

// little is the layout of the lengths in lists: 4 bytes, the least significant
// first.
func little(x int) []byte {
	return []byte{byte(x), byte(x >> 8), byte(x >> 16), byte(x >> 24)}
}

func eq(a, b []byte) bool { return len(a) == len(b) && sym.EqBytes(a, b) }

// value checks one value against its layout, in both directions.
func value(x types.Hashable, ms func() (types.ItemMarshal, types.ItemUnmarshal), want []byte) {
	m, u := ms()
	got, err := m(x)
	sym.Assert(err == nil && eq(got, want), "the layout of an encoded value")
	y, err := u(want)
	sym.Assert(err == nil && x.Equals(y), "a value is read from its layout")
}

// VNumbers: every integer type.
func VNumbers() {
	x := sym.Uint64()
	switch sym.Choose(10) {
	case 0:
		value(types.Int8(x), types.Int8Marshals, big(x, 1))
	case 1:
		value(types.UInt8(x), types.UInt8Marshals, big(x, 1))
	case 2:
		value(types.Int16(x), types.Int16Marshals, big(x, 2))
	case 3:
		value(types.UInt16(x), types.UInt16Marshals, big(x, 2))
	case 4:
		value(types.Int32(x), types.Int32Marshals, big(x, 4))
	case 5:
		value(types.UInt32(x), types.UInt32Marshals, big(x, 4))
	case 6:
		value(types.Int64(x), types.Int64Marshals, big(x, 8))
	case 7:
		value(types.UInt64(x), types.UInt64Marshals, big(x, 8))
	case 8:
		value(types.Int(x), types.IntMarshals, big(x, 8))
	case 9:
		value(types.UInt(x), types.UIntMarshals, big(x, 8))
	}
}

// VTexts: strings and byte slices are stored as they are.
func VTexts() {
	b := sym.Bytes(sym.Choose(sym.Bound("bytes", 12, 20) + 1))
	if sym.Choose(2) == 0 {
		value(types.String(b), types.StringMarshals, b)
	} else {
		value(types.ByteSlice(b), types.ByteSliceMarshals, b)
	}
}

// layout is the layout of a list. The capacity of a list that may grow is
// whatever the list wrote.
func layout(xs []types.Hashable, m types.ItemMarshal, fixed bool, capacity []byte) []byte {
	b := []byte{0}
	if fixed {
		b[0] = 1
	}
	b = append(b, capacity...)
	b = append(b, little(len(xs))...)
	for _, x := range xs {
		item, err := m(x)
		sym.Assert(err == nil, "marshalling an item succeeds")
		b = append(b, little(len(item))...)
		b = append(b, item...)
	}
	return b
}

func items(n int) (xs []types.Hashable, m types.ItemMarshal, u types.ItemUnmarshal) {
	numbers := sym.Choose(2) == 0
	for i := 0; i < n; i++ {
		var x types.Hashable
		if numbers {
			x = types.Int16(sym.Int16())
		} else {
			x = types.String(sym.Bytes(i % 3))
		}
		xs = append(xs, x)
	}
	if numbers {
		m, u = types.Int16Marshals()
	} else {
		m, u = types.StringMarshals()
	}
	return xs, m, u
}

// VList: lists, of fixed size and growing.
func VList() {
	n := sym.Choose(sym.Bound("items", 6, 8) + 1)
	fixed := sym.Choose(2) == 1
	size := n + sym.Choose(3)*150
	xs, m, u := items(n)
	l := list.New(size)
	if fixed {
		l = list.Fixed(size)
	}
	for _, x := range xs {
		sym.Assert(l.Append(x) == nil, "Append succeeds")
	}
	got, err := list.NewMList(l, m, u).MarshalBinary()
	sym.Assert(err == nil && len(got) >= 9, "marshalling a list succeeds")
	capacity := little(size)
	if !fixed {
		capacity = got[1:5]
	}
	want := layout(xs, m, fixed, capacity)
	sym.Assert(eq(got, want), "the layout of an encoded list")
	r := &list.MList{MarshalItem: m, UnmarshalItem: u}
	if !fixed {
		want = layout(xs, m, fixed, little(size))
	}
	sym.Assert(r.UnmarshalBinary(want) == nil, "a list is read from its layout")
	ref.Same(ref.Items(r.Items(), n, "read list"), xs, "a list is read from its layout")
	sym.Assert(r.Full() == (fixed && size == n), "a list is read from its layout")
}

// VSorted: sorted lists and sets have a flag in front that allows duplicates.
func VSorted() {
	n := sym.Choose(sym.Bound("sorted items", 4, 5) + 1)
	xs, m, u := items(n)
	dups := sym.Choose(2) == 1
	for i := 1; i < n; i++ {
		sym.Assume(xs[i-1].Less(xs[i]))
	}
	s := list.NewSorted(0, dups)
	var got []byte
	var err error
	asSet := !dups && sym.Choose(2) == 1
	if asSet {
		got, err = set.NewMSortedSet(set.FromSlice(xs), m, u).MarshalBinary()
	} else {
		for _, x := range xs {
			sym.Assert(s.Add(x) == nil, "Add succeeds")
		}
		got, err = list.NewMSorted(s, m, u).MarshalBinary()
	}
	sym.Assert(err == nil && len(got) >= 10, "marshalling a sorted list succeeds")
	flag := byte(0)
	if dups {
		flag = 1
	}
	want := append([]byte{flag}, layout(xs, m, false, got[2:6])...)
	sym.Assert(eq(got, want), "the layout of an encoded sorted list")
	r := &set.MSortedSet{MSorted: list.MSorted{MList: list.MList{MarshalItem: m, UnmarshalItem: u}}}
	sym.Assert(r.UnmarshalBinary(want) == nil, "a sorted list is read from its layout")
	back := r.Sorted()
	ref.Same(ref.Items(back.Items(), n, "read list"), xs, "a sorted list is read from its layout")
	if n > 0 {
		sym.Assert(back.Add(xs[0]) == nil, "Add succeeds")
		if dups {
			n++
		}
		sym.Assert(back.Size() == n, "duplicates are allowed as before")
	}
}

// VLong: a list too long for a count of one byte, and an item too long for a
// length of two.
func VLong() {
	var xs []types.Hashable
	m, u := types.StringMarshals()
	if sym.Choose(2) == 0 {
		for i := 0; i < 300; i++ {
			xs = append(xs, types.String([]byte{byte(i >> 8), byte(i)}))
		}
		xs[299] = types.String(sym.Bytes(3))
	} else {
		long := make([]byte, 66000)
		long[0], long[65999] = sym.Uint8(), sym.Uint8()
		xs = []types.Hashable{types.String(long)}
	}
	l := list.New(0)
	for _, x := range xs {
		sym.Assert(l.Append(x) == nil, "Append succeeds")
	}
	got, err := list.NewMList(l, m, u).MarshalBinary()
	sym.Assert(err == nil && len(got) >= 9, "marshalling a list succeeds")
	want := layout(xs, m, false, got[1:5])
	sym.Assert(eq(got, want), "the layout of an encoded list")
	r := &list.MList{MarshalItem: m, UnmarshalItem: u}
	sym.Assert(r.UnmarshalBinary(want) == nil, "a list is read from its layout")
	ref.Same(ref.Items(r.Items(), len(xs), "read list"), xs, "a list is read from its layout")
}
