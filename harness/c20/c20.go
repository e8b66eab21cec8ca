// Package c20: prefix search in the trie.
package c20

import (
	"verif/harness/ref"
	"verif/harness/sym"
)

// VAny: any keys, any prefix.
func VAny() {
	t := ref.NewTrie()
	for i := sym.Choose(sym.Bound("keys", 3, 3) + 1); i > 0; i-- {
		t.Put(ref.AnyKey(1, 3, 1))
	}
	t.Prefix(ref.AnyKey(0, sym.Bound("prefix bytes", 4, 4), 2))
	t.Check()
}

// VMany: more keys of two bytes.
func VMany() {
	t := ref.NewTrie()
	for i := 0; i < sym.Bound("short keys", 4, 4); i++ {
		t.Put(ref.AnyKey(1, 2, 1))
	}
	t.Prefix(ref.AnyKey(0, 3, 1))
}

// VFirst: keys with different first bytes.
func VFirst() {
	t := ref.NewTrie()
	for i := 0; i < sym.Bound("keys with any first byte", 3, 3); i++ {
		t.Put(ref.AnyKey(0, 2, 3))
	}
	t.Prefix(ref.AnyKey(0, 2, 3))
}

// VWords: a larger trie, any prefix.
func VWords() {
	t := ref.NewTrie()
	ws := []string{"c", "ca", "cat", "cats", "car", "cow", "co", "coo", "dog", "cap", "c\x01", "c\xff", "carpets"}
	down := sym.Choose(2) == 1
	for i := range ws {
		j := i
		if down {
			j = len(ws) - 1 - i
		}
		t.Put(ref.B(ws[j]))
	}
	if sym.Choose(2) == 1 {
		t.Remove(ref.B(ws[sym.Choose(len(ws))]))
	}
	t.Prefix(append(ref.B("c"), ref.AnyTail(4)...))
	t.Check()
}

// VRemoved: prefixes after removals.
func VRemoved() {
	t := ref.NewTrie()
	for i := 0; i < sym.Bound("keys before removing", 3, 3); i++ {
		t.Put(ref.AnyKey(1, 3, 1))
	}
	t.Remove(ref.AnyKey(1, 3, 1))
	t.Prefix(ref.AnyKey(0, 3, 1))
}

// VFan: many keys that differ in one byte, any prefix.
func VFan() {
	t := ref.NewTrie()
	n := sym.Bound("keys that differ in one byte", 70, 120)
	for _, i := range ref.Order(n, sym.Choose(ref.Orders)) {
		t.Put(ref.B{7, byte(2*i + 2), 9})
	}
	t.Prefix(append(ref.B{7}, ref.AnyTail(3)...))
	t.Check()
}

// VLong: long keys, prefixes that end anywhere near the places they differ in.
func VLong() {
	t := ref.NewTrie()
	var start ref.B
	for i, n := 0, []int{20, 70, 300}[sym.Choose(3)]; i < n; i++ {
		start = append(start, byte(7+i*31%200))
	}
	t.Put(start)
	t.Put(append(append(ref.B{}, start...), sym.Byte(), 'x'))
	t.Put(append(append(ref.B{}, start...), sym.Byte()))
	t.Prefix(append(append(ref.B{}, start[:len(start)-sym.Choose(4)]...), ref.AnyTail(2)...))
}

// VAgain: the same prefix before and after changes.
func VAgain() {
	t := ref.NewTrie()
	ws := []string{"cab", "c", "ca", "cob", "d"}
	for _, w := range ws {
		t.Put(ref.B(w))
	}
	p := append(ref.B("c"), ref.AnyTail(1)...)
	t.Prefix(p)
	for i := 0; i < sym.Bound("changes between searches", 2, 3); i++ {
		c := append(append(ref.B{}, p...), "b"[:sym.Choose(2)]...)
		if j := sym.Choose(len(ws) + 1); j < len(ws) {
			c = ref.B(ws[j])
		}
		t.Step(sym.Choose(2), c)
		t.Prefix(p)
		t.Prefix(ref.B("ca"))
	}
}
