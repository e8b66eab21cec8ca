// Package c15: earlier versions of the immutable AVL tree.
package c15

import (
	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/types"
	"verif/harness/ref"
	"verif/harness/sym"
)

// shape is what a version looked like.
type shape struct {
	key         types.Hashable
	value       int
	left, right *shape
}

func look(n types.BinaryTreeNode) *shape {
	if n == nil {
		return nil
	}
	if p, ok := n.(*avl.ImmutableAvlNode); ok && p == nil {
		return nil
	}
	return &shape{n.Key(), ref.Num(n.Value()), look(n.Left()), look(n.Right())}
}

func same(n types.BinaryTreeNode, s *shape) {
	if p, ok := n.(*avl.ImmutableAvlNode); ok && p == nil {
		n = nil
	}
	sym.Assert((n == nil) == (s == nil), "an earlier version keeps its structure")
	if s == nil {
		return
	}
	sym.Assert(n.Key().Equals(s.key), "an earlier version keeps its keys")
	sym.Assert(ref.Num(n.Value()) == s.value, "an earlier version keeps its values")
	same(n.Left(), s.left)
	same(n.Right(), s.right)
}

// version is a root with what it should hold.
type version struct {
	n   *avl.ImmutableAvlNode
	s   *shape
	ref ref.Map
	it  types.KVIterator // started when the version was made
}

type history struct {
	vs   []*version
	vals int
}

func clone(m ref.Map) ref.Map {
	return ref.Map{Keys: append([]types.Hashable{}, m.Keys...), Vals: append([]int{}, m.Vals...)}
}

func (h *history) note(n *avl.ImmutableAvlNode, m ref.Map) {
	v := &version{n: n, ref: m}
	if n != nil {
		v.s = look(n)
	}
	v.it = n.Iterate()
	h.vs = append(h.vs, v)
}

// step applies an operation to a version, which gives a new version unless it
// is a failing removal.
func (h *history) step(v *version, op int, k types.Hashable) {
	m := clone(v.ref)
	if op == 0 {
		h.vals++
		n, _ := v.n.Put(k, ref.Box(h.vals))
		m.Put(k, h.vals)
		h.note(n, m)
		return
	}
	n, x, err := v.n.Remove(k)
	rv, ok := m.Remove(k)
	sym.Assert((err == nil) == ok, "Remove fails exactly for absent keys")
	if ok {
		sym.Assert(ref.Num(x) == rv, "Remove returns the removed value")
		h.note(n, m)
	}
}

func (h *history) check() {
	for _, v := range h.vs {
		if v.n != nil {
			same(v.n, v.s)
		} else {
			sym.Assert(v.n.Size() == 0, "the empty version stays empty")
		}
	}
}

// contents checks every version against the reference, through the iterator
// started when it was made.
func (h *history) contents() {
	for _, v := range h.vs {
		ks, vs := ref.Pairs(v.it, v.ref.Size(), "Iterate of an earlier version")
		for i := range ks {
			sym.Assert(v.ref.Holds(ks[i], vs[i]), "Iterate of an earlier version")
		}
		ref.Rising(ks, "Iterate of an earlier version")
	}
}

// VVersions: histories that may branch from any version.
func VVersions() {
	h := &history{}
	h.note(nil, ref.Map{})
	for i := 0; i < sym.Bound("operations", 4, 5); i++ {
		v := h.vs[sym.Choose(len(h.vs))]
		h.step(v, sym.Choose(2), ref.Int8())
	}
	h.check()
	h.contents()
}

// VLinear: longer histories where each operation uses the latest version.
func VLinear() {
	h := &history{}
	h.note(nil, ref.Map{})
	for i := 0; i < sym.Bound("operations in a row", 5, 6); i++ {
		h.step(h.vs[len(h.vs)-1], sym.Choose(2), ref.Int8())
		h.check()
	}
	h.contents()
}

func order(n, how int) []int {
	var s []int
	for i := 0; i < n; i++ {
		switch how {
		case 0:
			s = append(s, i)
		case 1:
			s = append(s, n-1-i)
		case 2:
			s = append(s, (i*7+3)%n)
		case 3:
			if i%2 == 0 {
				s = append(s, i/2)
			} else {
				s = append(s, n-1-i/2)
			}
		}
	}
	return s
}

// VDeep: arbitrary operations on larger versions.
func VDeep() {
	h := &history{}
	h.note(nil, ref.Map{})
	n := []int{6, 11, 16}[sym.Choose(sym.Bound("sizes", 2, 3))]
	for _, i := range order(n, sym.Choose(4)) {
		h.step(h.vs[len(h.vs)-1], 0, types.Int8(4*i-32))
	}
	base := h.vs[len(h.vs)-1]
	h.step(base, sym.Choose(2), ref.Int8())
	// from the new version or from the same one again
	v := base
	if sym.Choose(2) == 1 {
		v = h.vs[len(h.vs)-1]
	}
	h.step(v, sym.Choose(2), ref.Int8())
	h.check()
	h.contents()
}

// VTree: a root taken from the tree and an iterator of the tree.
func VTree() {
	t := avl.NewImmutableAvlTree()
	var m ref.Map
	n := sym.Choose(sym.Bound("entries", 4, 5))
	for i := 0; i < n; i++ {
		k := ref.Int8()
		t.Put(k, ref.Box(i))
		m.Put(k, i)
	}
	root := t.Root().(types.BinaryTreeNode)
	s := look(root)
	it := t.Iterate()
	// half way through
	half, _, next := it()
	for i := 0; i < sym.Bound("operations afterwards", 2, 2); i++ {
		if k := ref.Int8(); sym.Choose(2) == 0 {
			t.Put(k, 100+i)
		} else {
			t.Remove(k)
		}
	}
	same(root, s)
	if n == 0 {
		sym.Assert(next == nil, "iterating the empty tree")
		return
	}
	ks := []types.Hashable{half}
	rest, vs := ref.Pairs(next, m.Size()-1, "a started iterator")
	ks = append(ks, rest...)
	ref.Rising(ks, "a started iterator")
	for i := range rest {
		sym.Assert(m.Holds(rest[i], vs[i]), "a started iterator")
	}
}

// VLarge: an arbitrary operation on a version with many entries.
func VLarge() {
	n := sym.Bound("entries of larger versions", 60, 100)
	h := &history{}
	var base *avl.ImmutableAvlNode
	var m ref.Map
	for _, i := range ref.Order(n, sym.Choose(ref.Orders)) {
		h.vals++
		base, _ = base.Put(types.Int16(4*i), ref.Box(h.vals))
		m.Put(types.Int16(4*i), h.vals)
	}
	h.note(base, m)
	h.step(h.vs[0], sym.Choose(2), ref.Int16())
	h.step(h.vs[len(h.vs)-1], 1, types.Int16(4*sym.Choose(3)*(n-1)/2))
	h.check()
	h.contents()
}
