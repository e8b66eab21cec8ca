// Package c07: serialized lists and sets.
package c07

import (
	"encoding/binary"
	"errors"

	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/types"
	"verif/harness/ref"
	"verif/harness/sym"
)

type codec struct {
	m types.ItemMarshal
	u types.ItemUnmarshal
}

// items of the k-th element type
func (c *codec) items(k, n int) []types.Hashable {
	xs := make([]types.Hashable, n)
	switch k {
	case 0:
		c.m, c.u = types.Int64Marshals()
		for i := range xs {
			xs[i] = types.Int64(sym.Int64())
		}
	case 1:
		c.m, c.u = types.StringMarshals()
		for i := range xs {
			xs[i] = types.String(sym.Bytes(sym.Choose(3)))
		}
	case 2:
		c.m, c.u = types.ByteSliceMarshals()
		for i := range xs {
			xs[i] = types.ByteSlice(sym.Bytes(sym.Choose(3)))
		}
	case 3:
		c.m, c.u = types.UInt16Marshals()
		for i := range xs {
			xs[i] = types.UInt16(sym.Uint16())
		}
	}
	return xs
}

func sorted(xs []types.Hashable) {
	for i := 1; i < len(xs); i++ {
		sym.Assume(!xs[i].Less(xs[i-1]))
	}
}

func rising(xs []types.Hashable) {
	for i := 1; i < len(xs); i++ {
		sym.Assume(xs[i-1].Less(xs[i]))
	}
}

func ok(err error, what string) { sym.Assert(err == nil, what) }

// room checks that a restored list accepts exactly spare more items (or any
// number, if spare is negative).
func room(l *list.List, spare int, filler types.Hashable) {
	n := 3
	for i := 0; i < n; i++ {
		sym.Assert(l.Full() == (spare >= 0 && i >= spare), "Full of the restored list")
		err := l.Append(filler)
		sym.Assert((err == nil) == (spare < 0 || i < spare), "room in the restored list")
	}
}

func VList() {
	var c codec
	xs := c.items(sym.Choose(4), sym.Choose(sym.Bound("items", 4, 5)))
	l := list.New(sym.Choose(2) * 5)
	spare := -1
	if sym.Choose(2) == 1 {
		spare = sym.Choose(3)
		l = list.Fixed(len(xs) + spare)
	}
	for _, x := range xs {
		ok(l.Append(x), "Append")
	}
	b, err := list.NewMList(l, c.m, c.u).MarshalBinary()
	ok(err, "marshalling a list succeeds")
	ref.Same(ref.Items(l.Items(), len(xs), "original"), xs, "marshalling does not change the list")
	r := &list.MList{MarshalItem: c.m, UnmarshalItem: c.u}
	if sym.Choose(2) == 1 {
		// a receiver that already holds something
		r = list.NewMList(list.FromSlice(xs), c.m, c.u)
	}
	ok(r.UnmarshalBinary(b), "unmarshalling a list succeeds")
	for i := range b {
		b[i] ^= 0x55
	}
	sym.Assert(r.Size() == len(xs), "size of the restored list")
	ref.Same(ref.Items(r.Items(), len(xs), "restored list"), xs, "restored list")
	sym.Assert(r.List.Equals(l) && l.Equals(&r.List), "restored list equals the original")
	var filler types.Hashable = types.Int64(1)
	room(&r.List, spare, filler)
	ref.Same(ref.Items(l.Items(), len(xs), "original"), xs, "the restored list is separate from the original")
}

func VSorted() {
	var c codec
	dups := sym.Choose(2) == 1
	xs := c.items(sym.Choose(4), sym.Choose(sym.Bound("items", 4, 5)))
	spare := -1
	s := list.NewSorted(0, dups)
	if sym.Choose(2) == 1 {
		spare = sym.Choose(2)
		s = list.NewFixedSorted(len(xs)+spare, dups)
	}
	if dups {
		sorted(xs)
	} else {
		rising(xs)
	}
	for _, x := range xs {
		ok(s.Add(x), "Add")
	}
	b, err := list.NewMSorted(s, c.m, c.u).MarshalBinary()
	ok(err, "marshalling a sorted list succeeds")
	r := &list.MSorted{MList: list.MList{MarshalItem: c.m, UnmarshalItem: c.u}, AllowDups: sym.Choose(2) == 1}
	ok(r.UnmarshalBinary(b), "unmarshalling a sorted list succeeds")
	got := r.Sorted()
	ref.Same(ref.Items(got.Items(), len(xs), "restored sorted list"), xs, "restored sorted list")
	sym.Assert(got.Equals(s) && s.Equals(got), "restored sorted list equals the original")
	sym.Assert(got.Full() == (spare == 0), "Full of the restored sorted list")
	if len(xs) > 0 {
		// the duplicates policy survives
		err := got.Add(xs[0])
		switch {
		case !dups:
			sym.Assert(got.Size() == len(xs), "the restored list keeps refusing duplicates")
		case spare == 0:
			sym.Assert(err != nil, "the restored list keeps its capacity")
		default:
			sym.Assert(err == nil && got.Size() == len(xs)+1, "the restored list keeps accepting duplicates")
		}
	}
}

func VSet() {
	var c codec
	xs := c.items(sym.Choose(4), sym.Choose(sym.Bound("items", 4, 5)))
	rising(xs)
	s := set.FromSlice(ref.Reverse(xs))
	b, err := set.NewMSortedSet(s, c.m, c.u).MarshalBinary()
	ok(err, "marshalling a set succeeds")
	r := &set.MSortedSet{MSorted: list.MSorted{MList: list.MList{MarshalItem: c.m, UnmarshalItem: c.u}}}
	ok(r.UnmarshalBinary(b), "unmarshalling a set succeeds")
	got := r.SortedSet()
	ref.Same(ref.Items(got.Items(), len(xs), "restored set"), xs, "restored set")
	sym.Assert(got.Equals(s), "restored set equals the original")
	for _, x := range xs {
		sym.Assert(got.Has(x), "restored set has the items")
		ok(got.Add(x), "Add of a present item")
	}
	sym.Assert(got.Size() == len(xs), "the restored set has no duplicates")
	ref.Same(ref.Items(s.Items(), len(xs), "original set"), xs, "the original set is unchanged")
}

// encode returns a valid encoding of one of the container kinds with a
// function that decodes such data, and the offset of the list header.
func encode() ([]byte, func([]byte) error, int, int) {
	var c codec
	kind := sym.Choose(3)
	xs := c.items(sym.Choose(4), sym.Choose(3))
	var b []byte
	var err error
	switch kind {
	case 0:
		l := list.FromSlice(xs)
		if sym.Choose(2) == 1 {
			l = list.Fixed(len(xs) + 1)
			for _, x := range xs {
				l.Append(x)
			}
		}
		b, err = list.NewMList(l, c.m, c.u).MarshalBinary()
		ok(err, "marshalling succeeds")
		return b, func(d []byte) error {
			r := &list.MList{MarshalItem: c.m, UnmarshalItem: c.u}
			return r.UnmarshalBinary(d)
		}, 0, len(xs)
	case 1:
		sorted(xs)
		b, err = list.NewMSorted(list.SortedFromSlice(xs, true), c.m, c.u).MarshalBinary()
		ok(err, "marshalling succeeds")
		return b, func(d []byte) error {
			r := &list.MSorted{MList: list.MList{MarshalItem: c.m, UnmarshalItem: c.u}}
			return r.UnmarshalBinary(d)
		}, 1, len(xs)
	}
	rising(xs)
	b, err = set.NewMSortedSet(set.FromSlice(xs), c.m, c.u).MarshalBinary()
	ok(err, "marshalling succeeds")
	return b, func(d []byte) error {
		r := &set.MSortedSet{MSorted: list.MSorted{MList: list.MList{MarshalItem: c.m, UnmarshalItem: c.u}}}
		return r.UnmarshalBinary(d)
	}, 1, len(xs)
}

// VTruncated: every proper prefix is rejected.
func VTruncated() {
	b, decode, _, _ := encode()
	n := sym.Choose(len(b))
	d := b[:n]
	if sym.Choose(2) == 1 {
		d = append([]byte{}, b[:n]...) // nothing readable behind it
	}
	sym.Assert(decode(d) != nil, "truncated data is rejected")
	ok(decode(b), "complete data is accepted")
}

// VLength: a stored length that runs past the end is rejected.
func VLength() {
	b, decode, head, n := encode()
	// Locate the stored lengths; if the layout is another one this harness
	// has nothing to say.
	at := head + 5
	if len(b) < head+9 {
		return
	}
	count := int(binary.LittleEndian.Uint32(b[at:]))
	sym.Assume(count == n)
	offs := []int{at}
	off := head + 9
	for i := 0; i < n; i++ {
		if off+4 > len(b) {
			return
		}
		offs = append(offs, off)
		off += 4 + sym.Fix(int(binary.LittleEndian.Uint32(b[off:])))
	}
	if off != len(b) {
		return
	}
	k := sym.Choose(len(offs))
	v := sym.Uint32()
	if k == 0 {
		sym.Assume(int(v) > n)
	} else {
		sym.Assume(int(v) > len(b)-offs[k]-4)
	}
	d := append([]byte{}, b...)
	binary.LittleEndian.PutUint32(d[offs[k]:], v)
	sym.Reach("overlong")
	sym.Assert(decode(d) != nil, "a length past the end of the data is rejected")
}

// VAnyByte: changing any one byte behind the capacity never panics.
func VAnyByte() {
	b, decode, head, _ := encode()
	if len(b) <= head+5 {
		return
	}
	i := head + 5 + sym.Choose(len(b)-head-5)
	b[i] = sym.Byte()
	err := decode(b)
	sym.ObserveBool(err == nil)
}

// VShort: any few bytes at all are rejected.
func VShort() {
	d := sym.Bytes(sym.Choose(9))
	m, u := types.StringMarshals()
	r := &list.MList{MarshalItem: m, UnmarshalItem: u}
	sym.Assert(r.UnmarshalBinary(d) != nil, "data without a complete header is rejected")
	s := &list.MSorted{MList: list.MList{MarshalItem: m, UnmarshalItem: u}}
	sym.Assert(s.UnmarshalBinary(d) != nil, "data without a complete header is rejected (sorted)")
}

// VLong: lists and sets too long for a count of one byte, and items too long
// for a length of two.
func VLong() {
	var c codec
	var xs []types.Hashable
	if sym.Choose(2) == 0 {
		n := []int{128, 256, 600}[sym.Choose(3)]
		c.m, c.u = types.UInt16Marshals()
		xs = make([]types.Hashable, n)
		for i := range xs {
			xs[i] = types.UInt16(2 * i)
		}
		for _, i := range []int{0, n / 2, n - 1} {
			xs[i] = types.UInt16(2*i) + types.UInt16(sym.Uint8()&1)
		}
	} else {
		n := []int{128, 256, 66000}[sym.Choose(3)]
		c.m, c.u = types.StringMarshals()
		long := make([]byte, n)
		long[0], long[n-1] = sym.Uint8(), sym.Uint8()
		xs = []types.Hashable{types.String("\x00"), types.String(long), types.String("\xff\xff")}
		sym.Assume(long[0] > 0 && long[0] < 0xff)
	}
	var got func() (types.Hashable, bool)
	size := 0
	switch sym.Choose(4) {
	case 0, 1:
		l := list.New(0)
		if sym.Choose(2) == 1 {
			l = list.Fixed(len(xs))
		}
		for _, x := range xs {
			ok(l.Append(x), "Append")
		}
		b, err := list.NewMList(l, c.m, c.u).MarshalBinary()
		ok(err, "marshalling a list succeeds")
		r := &list.MList{MarshalItem: c.m, UnmarshalItem: c.u}
		ok(r.UnmarshalBinary(b), "unmarshalling a list succeeds")
		sym.Assert(r.Full() == l.Full(), "Full of the restored list")
		got, size = pull(r.Items()), r.Size()
	case 2:
		s := list.NewSorted(0, true)
		for _, x := range xs {
			ok(s.Add(x), "Add")
		}
		b, err := list.NewMSorted(s, c.m, c.u).MarshalBinary()
		ok(err, "marshalling a sorted list succeeds")
		r := &list.MSorted{MList: list.MList{MarshalItem: c.m, UnmarshalItem: c.u}}
		ok(r.UnmarshalBinary(b), "unmarshalling a sorted list succeeds")
		got, size = pull(r.Sorted().Items()), r.Sorted().Size()
	case 3:
		b, err := set.NewMSortedSet(set.FromSlice(xs), c.m, c.u).MarshalBinary()
		ok(err, "marshalling a set succeeds")
		r := &set.MSortedSet{MSorted: list.MSorted{MList: list.MList{MarshalItem: c.m, UnmarshalItem: c.u}}}
		ok(r.UnmarshalBinary(b), "unmarshalling a set succeeds")
		got, size = pull(r.SortedSet().Items()), r.SortedSet().Size()
	}
	sym.Assert(size == len(xs), "size of a restored long list")
	for _, x := range xs {
		y, more := got()
		sym.Assert(more && x.Equals(y), "items of a restored long list")
	}
	_, more := got()
	sym.Assert(!more, "end of a restored long list")
}

func pull(next types.KIterator) func() (types.Hashable, bool) {
	return func() (types.Hashable, bool) {
		var x types.Hashable
		x, next = next()
		return x, next != nil
	}
}

// VFails: what the items' own encoder or decoder rejects.
func VFails() {
	n := sym.Choose(3) + 1
	at := sym.Choose(n)
	bad := errors.New("bad item")
	seen := 0
	fail := false
	m := func(x types.Hashable) ([]byte, error) {
		seen++
		if fail && seen == at+1 {
			return nil, bad
		}
		return []byte{byte(x.(types.Int8))}, nil
	}
	u := func(b []byte) (types.Hashable, error) {
		seen++
		if fail && seen == at+1 {
			return nil, bad
		}
		return types.Int8(b[0]), nil
	}
	xs := make([]types.Hashable, n)
	for i := range xs {
		xs[i] = ref.Int8()
	}
	var enc func() ([]byte, error)
	var dec func(b []byte) error
	switch sym.Choose(3) {
	case 0:
		enc = list.NewMList(list.FromSlice(xs), m, u).MarshalBinary
		dec = (&list.MList{MarshalItem: m, UnmarshalItem: u}).UnmarshalBinary
	case 1:
		sorted(xs)
		enc = list.NewMSorted(list.SortedFromSlice(xs, true), m, u).MarshalBinary
		dec = (&list.MSorted{MList: list.MList{MarshalItem: m, UnmarshalItem: u}}).UnmarshalBinary
	case 2:
		rising(xs)
		enc = set.NewMSortedSet(set.FromSlice(xs), m, u).MarshalBinary
		dec = (&set.MSortedSet{MSorted: list.MSorted{MList: list.MList{MarshalItem: m, UnmarshalItem: u}}}).UnmarshalBinary
	}
	b, err := enc()
	ok(err, "marshalling succeeds")
	ok(dec(b), "unmarshalling succeeds")
	fail, seen = true, 0
	_, err = enc()
	sym.Assert(err != nil, "an error of the items' encoder is returned")
	seen = 0
	sym.Assert(dec(b) != nil, "an error of the items' decoder is returned")
}

// VAgain: a list written again after a change, and read into the same list.
func VAgain() {
	var c codec
	xs := c.items(sym.Choose(4), 4)
	x := xs[3]
	xs = xs[:1+sym.Choose(3)]
	l := list.NewMList(list.New(4), c.m, c.u)
	for _, y := range xs {
		ok(l.Append(y), "Append")
	}
	r := &list.MList{MarshalItem: c.m, UnmarshalItem: c.u}
	for i := 0; i < sym.Bound("changes between writing", 2, 3); i++ {
		b, err := l.MarshalBinary()
		ok(err, "marshalling a list succeeds")
		ok(r.UnmarshalBinary(b), "unmarshalling a list succeeds")
		ref.Same(ref.Items(r.Items(), len(xs), "restored list"), xs, "restored list")
		at := sym.Choose(len(xs) + 1)
		ys := append([]types.Hashable{}, xs[:at]...)
		switch op := sym.Choose(3); {
		case op == 0 || at == len(xs):
			ok(l.Insert(at, x), "Insert")
			xs = append(append(ys, x), xs[at:]...)
		case op == 1:
			ok(l.Set(at, x), "Set")
			xs = append(append(ys, x), xs[at+1:]...)
		default:
			ok(l.Remove(at), "Remove")
			xs = append(ys, xs[at+1:]...)
		}
	}
	b, err := l.MarshalBinary()
	ok(err, "marshalling a list succeeds")
	ok(r.UnmarshalBinary(b), "unmarshalling a list succeeds")
	ref.Same(ref.Items(r.Items(), len(xs), "restored list"), xs, "restored list")
}
