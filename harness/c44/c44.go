// Package c44: iterating a trie that changes.
package c44

import (
	"github.com/timtadh/data-structures/types"
	"verif/harness/ref"
	"verif/harness/sym"
)

// walk is an iterator in use: a step yields a key, a value and whether there
// are any.
type walk func() (types.Hashable, interface{}, bool)

func pairs(it types.KVIterator) walk {
	return func() (k types.Hashable, v interface{}, ok bool) {
		if it != nil {
			k, v, it = it()
		}
		return k, v, it != nil
	}
}

// start starts one of the iterations; what it does not yield is filled in from
// the entries wanted.
func start(t *ref.Trie, prefix ref.B, want *ref.Map) walk {
	i := -1
	switch sym.Choose(5) {
	case 0:
		return pairs(t.T.Iterate())
	case 1:
		return pairs(t.T.PrefixFind(append(types.ByteSlice{}, prefix...)))
	case 2:
		it := t.T.Keys()
		return func() (k types.Hashable, v interface{}, ok bool) {
			k, it = it()
			i++
			if it != nil && i < want.Size() {
				v = ref.Box(want.Vals[i])
			}
			return k, v, it != nil
		}
	case 3:
		it := t.T.Values()
		return func() (k types.Hashable, v interface{}, ok bool) {
			v, it = it()
			i++
			if it != nil && i < want.Size() {
				k = types.ByteSlice(want.Keys[i].(ref.B))
			}
			return k, v, it != nil
		}
	}
	it := t.T.Items()
	return func() (k types.Hashable, v interface{}, ok bool) {
		k, it = it()
		if it == nil {
			return nil, nil, false
		}
		e, isEntry := k.(*types.MapEntry)
		sym.Assert(isEntry, "Items yields entries")
		return e.Key, e.Value, true
	}
}

// inOrder is what the trie holds now, in order.
func inOrder(t *ref.Trie) *ref.Map {
	m := &ref.Map{}
	for i, k := range t.Ref.Keys {
		at := 0
		for at < len(m.Keys) && m.Keys[at].Less(k) {
			at++
		}
		m.Keys = append(m.Keys[:at:at], append([]types.Hashable{k}, m.Keys[at:]...)...)
		m.Vals = append(m.Vals[:at:at], append([]int{t.Ref.Vals[i]}, m.Vals[at:]...)...)
	}
	return m
}

// step checks the n-th item of an iteration; one past the last is its end.
func step(w walk, want *ref.Map, n int) {
	k, v, ok := w()
	if n == want.Size() {
		sym.Assert(!ok, "a started iteration ends where it would have ended")
		return
	}
	sym.Assert(ok && k != nil, "a started iteration goes on")
	b, isBytes := k.(types.ByteSlice)
	sym.Assert(isBytes && ref.B(b).Equals(want.Keys[n]), "a started iteration yields the keys there were")
	x, isInt := ref.Unbox(v)
	sym.Assert(isInt && x == want.Vals[n], "a started iteration yields the values there were")
}

// during starts an iteration and changes the trie at some moment of it.
func during(t *ref.Trie, prefix ref.B, change func()) {
	want := inOrder(t)
	w := start(t, prefix, want)
	at := sym.Choose(want.Size() + 1)
	for i := 0; i <= want.Size(); i++ {
		if i == at {
			change()
		}
		step(w, want, i)
	}
	t.Check()
	t.CheckGets()
}

// VAny: any keys, any change.
func VAny() {
	t := ref.NewTrie()
	for i := sym.Choose(sym.Bound("keys", 2, 3) + 1); i > 0; i-- {
		t.Put(ref.AnyKey(1, 3, 1))
	}
	during(t, ref.B{7}, func() { t.Step(sym.Choose(2), ref.AnyKey(1, 3, 1)) })
}

// VTwo: two changes.
func VTwo() {
	t := ref.NewTrie()
	for i := 0; i < 2; i++ {
		t.Put(ref.AnyKey(1, 2, 1))
	}
	during(t, ref.B{7}, func() {
		for i := 0; i < sym.Bound("changes", 2, 3); i++ {
			t.Step(sym.Choose(2), ref.AnyKey(1, 2, 1))
		}
	})
}

// VHeads: keys with different first bytes.
func VHeads() {
	t := ref.NewTrie()
	for i := 0; i < 3; i++ {
		t.Put(ref.AnyKey(1, 2, 2))
	}
	during(t, nil, func() { t.Step(sym.Choose(2), ref.AnyKey(1, 2, 2)) })
}

// VWords: a larger trie.
func VWords() {
	t := ref.NewTrie()
	ws := []string{"c", "ca", "cat", "cats", "car", "cow", "co", "coo", "cap", "c\x01", "c\xff", "carpets"}
	for _, i := range ref.Order(len(ws), sym.Choose(ref.Orders)) {
		t.Put(ref.B(ws[i]))
	}
	during(t, ref.B("c"), func() {
		t.Step(sym.Choose(2), append(ref.B("c"), ref.AnyTail(sym.Bound("bytes after the first", 2, 3))...))
	})
}

// VAll: every entry is removed or replaced as soon as it has been seen.
func VAll() {
	t := ref.NewTrie()
	for i := 0; i < sym.Bound("keys removed one by one", 3, 4); i++ {
		t.Put(ref.AnyKey(1, 2, 1))
	}
	want := inOrder(t)
	w := start(t, ref.B{7}, want)
	for i := 0; i <= want.Size(); i++ {
		step(w, want, i)
		if i < want.Size() {
			t.Step(sym.Choose(2), want.Keys[i].(ref.B))
		}
	}
	t.Check()
	t.CheckGets()
}
