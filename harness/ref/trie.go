package ref

import (
	"github.com/timtadh/data-structures/trie"
	"github.com/timtadh/data-structures/types"
	"verif/harness/sym"
)

// B is a byte string as a key.
type B []byte

func (b B) Equals(o types.Equatable) bool {
	if x, ok := o.(B); ok {
		return sym.EqBytes(b, x)
	}
	return false
}

func (b B) Less(o types.Sortable) bool {
	if x, ok := o.(B); ok {
		return sym.LessBytes(b, x)
	}
	return false
}

func (b B) Hash() int { return 0 }

// HasPrefix reports, without splitting the path, whether b starts with p.
func (b B) HasPrefix(p B) bool {
	return len(p) <= len(b) && sym.EqBytes(b[:len(p)], p)
}

// Valid reports whether b may be a key of a trie.
func (b B) Valid() bool {
	if len(b) == 0 {
		return false
	}
	r := true
	for _, c := range b {
		r = sym.And(r, c != 0)
	}
	return r
}

// Trie drives a trie together with the reference.
type Trie struct {
	T    *trie.TST
	Ref  Map
	vals int
}

func NewTrie() *Trie { return &Trie{T: trie.New()} }

func own(k B) B { return append(B{}, k...) }

func (t *Trie) Put(k B) {
	t.vals++
	err := t.T.Put(append([]byte{}, k...), Box(t.vals))
	if k.Valid() {
		sym.Assert(err == nil, "Put of a valid key succeeds")
		t.Ref.Put(own(k), t.vals)
	} else {
		sym.Assert(err != nil, "Put of an invalid key is an error")
	}
}

func (t *Trie) Remove(k B) {
	v, err := t.T.Remove(append([]byte{}, k...))
	rv, ok := t.Ref.Remove(k)
	sym.Assert((err == nil) == ok, "Remove fails exactly for absent keys")
	if ok {
		x, isInt := Unbox(v)
		sym.Assert(isInt && x == rv, "Remove returns the removed value")
	}
}

func (t *Trie) Step(op int, k B) {
	if op == 0 {
		t.Put(k)
	} else {
		t.Remove(k)
	}
}

func (t *Trie) Get(k B) {
	v, err := t.T.Get(append([]byte{}, k...))
	has := t.T.Has(append([]byte{}, k...))
	rv, ok := t.Ref.Get(k)
	sym.Assert((err == nil) == ok, "Get fails exactly for absent keys")
	sym.Assert(has == ok, "Has")
	if ok {
		x, isInt := Unbox(v)
		sym.Assert(isInt && x == rv, "Get returns the latest value")
	}
}

// asB converts the key an iterator yielded.
func asB(k types.Hashable, what string) B {
	b, ok := k.(types.ByteSlice)
	sym.Assert(ok, what+": keys are byte slices")
	return B(b)
}

func (t *Trie) are(it types.KVIterator, want *Map, what string) {
	ks, vs := Pairs(it, want.Size(), what)
	bs := make([]types.Hashable, len(ks))
	for i := range ks {
		b := asB(ks[i], what)
		bs[i] = b
		sym.Assert(want.Holds(b, vs[i]), what+": yields an entry it should not")
	}
	Rising(bs, what)
}

// Check compares the iteration with the reference.
func (t *Trie) Check() { t.are(t.T.Iterate(), &t.Ref, "Iterate") }

// CheckGets looks every key up.
func (t *Trie) CheckGets() {
	for i, k := range t.Ref.Keys {
		v, err := t.T.Get(append([]byte{}, k.(B)...))
		sym.Assert(err == nil, "every present key is found")
		x, isInt := Unbox(v)
		sym.Assert(isInt && x == t.Ref.Vals[i], "every present key has its value")
	}
}

// Prefix compares a prefix search with the reference.
func (t *Trie) Prefix(p B) {
	var want Map
	for i, k := range t.Ref.Keys {
		if k.(B).HasPrefix(p) {
			want.Keys = append(want.Keys, k)
			want.Vals = append(want.Vals, t.Ref.Vals[i])
		}
	}
	t.are(t.T.PrefixFind(append(types.ByteSlice{}, p...)), &want, "PrefixFind")
}

// AnyKey is a key of at most n bytes. The first is one of a few values because
// it indexes a table; the others are arbitrary.
func AnyKey(min, n, firsts int) B {
	l := min + sym.Choose(n-min+1)
	if l == 0 {
		return B{}
	}
	k := B{[]byte{7, 250, 0}[sym.Choose(firsts)]}
	for len(k) < l {
		k = append(k, sym.Byte())
	}
	return k
}

// AnyTail is up to n arbitrary bytes.
func AnyTail(n int) B {
	var k B
	for i := sym.Choose(n + 1); i > 0; i-- {
		k = append(k, sym.Byte())
	}
	return k
}
