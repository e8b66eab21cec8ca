// Package c21: the trie and the buffers of its callers.
package c21

import (
	"github.com/timtadh/data-structures/types"
	"verif/harness/ref"
	"verif/harness/sym"
)

// buffer holds the key with arbitrary bytes after it.
type buffer struct {
	all  []byte
	copy []byte
	n    int
}

func buf(k ref.B) *buffer {
	b := &buffer{n: len(k)}
	b.all = append(append([]byte{}, k...), sym.Byte(), sym.Byte())
	b.copy = append([]byte{}, b.all...)
	return b
}

// slice has spare capacity.
func (b *buffer) slice() []byte { return b.all[:b.n] }

// same checks that the call did not write to the buffer.
func (b *buffer) same(what string) {
	for i := range b.all {
		sym.Assert(b.all[i] == b.copy[i], what+" leaves the caller's memory alone")
	}
}

// scribble overwrites the buffer.
func (b *buffer) scribble() {
	for i := range b.all {
		b.all[i] = sym.Byte()
	}
	b.copy = append([]byte{}, b.all...)
}

func start(n int) *ref.Trie {
	t := ref.NewTrie()
	for i := 0; i < n; i++ {
		t.Put(ref.AnyKey(1, 2, 1))
	}
	return t
}

// VPut: the buffer given to Put.
func VPut() {
	t := start(sym.Choose(sym.Bound("other keys", 2, 2) + 1))
	k := ref.AnyKey(1, sym.Bound("key bytes", 3, 4), 1)
	b := buf(k)
	err := t.T.Put(b.slice(), 99)
	b.same("Put")
	if k.Valid() {
		sym.Assert(err == nil, "Put succeeds")
		t.Ref.Put(append(ref.B{}, k...), 99)
	}
	b.scribble()
	t.Check()
	t.CheckGets()
	t.Put(ref.AnyKey(1, 2, 1))
	t.Check()
	b.same("Put of another key")
}

// VQueries: the buffers given to Get, Has, Remove and PrefixFind.
func VQueries() {
	t := start(sym.Bound("keys", 3, 3))
	k := ref.AnyKey(1, 3, 1)
	b := buf(k)
	switch sym.Choose(4) {
	case 0:
		t.T.Get(b.slice())
		b.same("Get")
	case 1:
		t.T.Has(b.slice())
		b.same("Has")
	case 2:
		t.T.Remove(b.slice())
		b.same("Remove")
		t.Ref.Remove(k)
	case 3:
		it := t.T.PrefixFind(types.ByteSlice(b.slice()))
		b.scribble()
		n := 0
		for _, _, next := it(); next != nil; _, _, next = next() {
			n++
		}
		b.same("PrefixFind")
		count := 0
		for _, x := range t.Ref.Keys {
			count += sym.Ite(x.(ref.B).HasPrefix(k), 1, 0)
		}
		sym.Assert(n == count, "PrefixFind does not look at the buffer again")
	}
	b.scribble()
	t.Check()
	t.CheckGets()
}

// VIterated: the keys handed out by the iterators.
func VIterated() {
	t := start(sym.Bound("keys", 3, 3))
	var ks []types.Hashable
	switch sym.Choose(3) {
	case 0:
		for k, _, next := t.T.Iterate()(); next != nil; k, _, next = next() {
			ks = append(ks, k)
		}
	case 1:
		for k, next := t.T.Keys()(); next != nil; k, next = next() {
			ks = append(ks, k)
		}
	case 2:
		for k, _, next := t.T.PrefixFind(nil)(); next != nil; k, _, next = next() {
			ks = append(ks, k)
		}
	}
	for _, k := range ks {
		s := []byte(k.(types.ByteSlice))
		for i := range s {
			s[i] = sym.Byte()
		}
		if cap(s) > len(s) {
			s = s[:len(s)+1]
			s[len(s)-1] = sym.Byte()
		}
	}
	t.Check()
	t.CheckGets()
	t.Put(ref.AnyKey(1, 2, 1))
	t.Check()
}

// VDuring: keys are overwritten while the iteration is under way, and prefix
// searches hand out keys too.
func VDuring() {
	t := start(sym.Bound("keys", 3, 3))
	it := t.T.Iterate()
	if sym.Choose(2) == 1 {
		it = t.T.PrefixFind(types.ByteSlice{7})
	}
	n := 0
	for k, _, next := it(); next != nil; k, _, next = next() {
		n++
		s := []byte(k.(types.ByteSlice))
		for i := range s {
			s[i] = 'x'
		}
	}
	sym.Assert(n == t.Ref.Size(), "the iteration is not disturbed")
	t.Check()
	t.CheckGets()
}

// VLong: long keys in buffers with spare room.
func VLong() {
	t := ref.NewTrie()
	k := make(ref.B, []int{15, 40, 100}[sym.Choose(3)])
	for i := range k {
		k[i] = byte(7 + i*31%200)
	}
	k[len(k)-1] = 9
	b := buf(k)
	sym.Assert(t.T.Put(b.slice(), 99) == nil, "Put succeeds")
	t.Ref.Put(append(ref.B{}, k...), 99)
	b.same("Put")
	c := buf(append(append(ref.B{}, k[:len(k)-1]...), sym.Byte()))
	k2 := append(ref.B{}, c.slice()...)
	if sym.Choose(2) == 0 {
		sym.Assume(k2.Valid())
		sym.Assert(t.T.Put(c.slice(), 98) == nil, "Put succeeds")
		t.Ref.Put(k2, 98)
		c.same("Put")
	} else {
		t.T.Remove(c.slice())
		t.Ref.Remove(k2)
		c.same("Remove")
	}
	b.scribble()
	c.scribble()
	t.Check()
	t.CheckGets()
	it := t.T.Iterate()
	x, _, next := it()
	for ; next != nil; x, _, next = next() {
		s := []byte(x.(types.ByteSlice))
		for i := range s {
			s[i] = 'x'
		}
	}
	t.Check()
	t.CheckGets()
}
