// Package c19: the ternary search trie against the reference map.
package c19

import (
	"verif/harness/ref"
	"verif/harness/sym"
)

// VHistory: histories over keys of up to three bytes.
func VHistory() {
	t := ref.NewTrie()
	for i := 0; i < sym.Bound("operations", 3, 4); i++ {
		t.Step(sym.Choose(2), ref.AnyKey(1, sym.Bound("key bytes", 3, 3), 1))
		t.Check()
	}
	t.CheckGets()
	t.Get(ref.AnyKey(1, 3, 1))
	t.Check()
}

// VShort: longer histories over keys of one and two bytes.
func VShort() {
	t := ref.NewTrie()
	for i := 0; i < sym.Bound("operations on short keys", 4, 5); i++ {
		t.Step(sym.Choose(2), ref.AnyKey(1, 2, 1))
		t.Check()
	}
	t.CheckGets()
	t.Get(ref.AnyKey(1, 2, 1))
}

// VHeads: keys with different first bytes, empty keys and zero bytes.
func VHeads() {
	t := ref.NewTrie()
	for i := 0; i < sym.Bound("operations on any first byte", 3, 4); i++ {
		t.Step(sym.Choose(2), ref.AnyKey(0, 2, 3))
		t.Check()
	}
	t.Get(ref.AnyKey(0, 2, 3))
}

// VInsert: several insertions of longer keys in any order.
func VInsert() {
	t := ref.NewTrie()
	for i := 0; i < sym.Bound("insertions", 3, 4); i++ {
		t.Put(ref.AnyKey(2, sym.Bound("longest key", 4, 4), 1))
	}
	t.Check()
	t.CheckGets()
	t.Remove(ref.AnyKey(2, 4, 1))
	t.Check()
}

func words() []ref.B {
	var r []ref.B
	for _, w := range []string{"c", "ca", "cat", "cats", "car", "cow", "co", "coo", "dog", "cap", "c\x01", "c\xff"} {
		r = append(r, ref.B(w))
	}
	return r
}

// VWords: arbitrary operations on a larger trie.
func VWords() {
	t := ref.NewTrie()
	ws := words()
	how := sym.Choose(3)
	for i := range ws {
		j := i
		switch how {
		case 1:
			j = len(ws) - 1 - i
		case 2:
			j = i * 5 % len(ws)
		}
		t.Put(ws[j])
	}
	for i := 0; i < sym.Bound("operations on a larger trie", 1, 2); i++ {
		k := append(ref.B("c"), ref.AnyTail(3)...)
		t.Step(sym.Choose(2), k)
		t.Check()
	}
	t.CheckGets()
}

// VDrain: removing everything in some order and putting it back.
func VDrain() {
	t := ref.NewTrie()
	ws := words()[:5+sym.Choose(4)]
	for _, w := range ws {
		t.Put(w)
	}
	step := []int{1, 3, 5, 7}[sym.Choose(4)]
	for len(ws)%step == 0 && step > 1 {
		step--
	}
	stop := sym.Choose(len(ws)) + 1
	for i := 0; i < stop; i++ {
		t.Remove(ws[i*step%len(ws)])
	}
	t.Check()
	t.Step(sym.Choose(2), append(ref.B("c"), ref.AnyTail(2)...))
	t.Check()
	for _, w := range ws {
		t.Put(w)
		t.Check()
	}
	t.CheckGets()
}

// long is a common start of long keys.
func long(n int) ref.B {
	var k ref.B
	for i := 0; i < n; i++ {
		k = append(k, byte(7+i*31%200))
	}
	return k
}

// VLong: long keys that differ near the end, or end early.
func VLong() {
	t := ref.NewTrie()
	start := long([]int{20, 70, 300}[sym.Choose(3)])
	t.Put(start)
	for i := 0; i < sym.Bound("operations on long keys", 2, 3); i++ {
		k := append(ref.B{}, start...)
		if sym.Choose(2) == 0 {
			k = k[:len(k)/2]
		}
		t.Step(sym.Choose(2), append(k, ref.AnyTail(2)...))
		t.Check()
	}
	t.CheckGets()
}

// VFan: many keys that differ in one byte.
func VFan() {
	t := ref.NewTrie()
	n := sym.Bound("keys that differ in one byte", 70, 120)
	for _, i := range ref.Order(n, sym.Choose(ref.Orders)) {
		t.Put(ref.B{7, byte(2*i + 2)})
	}
	for i := 1; i < n; i += 3 {
		t.Remove(ref.B{7, byte(2*i + 2)})
	}
	t.Check()
	t.Step(sym.Choose(2), append(ref.B{7}, ref.AnyTail(2)...))
	t.Check()
	t.CheckGets()
}

// VBetween: lookups between changes.
func VBetween() {
	t := ref.NewTrie()
	ws := []string{"cab", "c", "ca", "cob", "d"}
	for _, w := range ws {
		t.Put(ref.B(w))
	}
	k := append(ref.B("c"), ref.AnyTail(2)...)
	t.Get(k)
	for i := 0; i < sym.Bound("changes between lookups", 3, 4); i++ {
		c := k
		if j := sym.Choose(len(ws) + 1); j < len(ws) {
			c = ref.B(ws[j])
		}
		t.Step(sym.Choose(2), c)
		t.Get(k)
		t.Get(ref.B("ca"))
	}
	t.Check()
	t.CheckGets()
}
