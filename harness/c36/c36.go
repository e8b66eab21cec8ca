// Package c36: the AVL trees stay balanced.
package c36

import (
	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/types"
	"verif/harness/ref"
	"verif/harness/sym"
)

type avltree interface {
	types.MapOperable
	Root() types.TreeNode
	Size() int
}

type node interface {
	types.BinaryTreeNode
	Height() int
}

func newTree() avltree {
	if sym.Choose(2) == 1 {
		return avl.NewImmutableAvlTree()
	}
	return avl.NewAvlTree()
}

// shape measures a tree and checks every node of it.
func shape(n types.BinaryTreeNode) (height, size int) {
	if n == nil {
		return 0, 0
	}
	lh, ls := shape(n.Left())
	rh, rs := shape(n.Right())
	sym.Assert(lh-rh <= 2 && rh-lh <= 2, "the subtrees of every node have nearly the same height")
	height = lh + 1
	if rh > lh {
		height = rh + 1
	}
	sym.Assert(n.(node).Height() == height, "Height is the height of the tree")
	return height, ls + rs + 1
}

func check(t avltree) {
	n := t.Size()
	if n == 0 {
		return
	}
	_, size := shape(t.Root().(types.BinaryTreeNode))
	sym.Assert(size == n, "the tree holds every entry")
}

// step puts or removes.
func step(t avltree, k types.Hashable) {
	if sym.Choose(2) == 0 {
		sym.Assert(t.Put(k, 0) == nil, "Put succeeds")
	} else {
		has := t.Has(k)
		_, err := t.Remove(k)
		sym.Assert((err == nil) == has, "Remove fails exactly for absent keys")
	}
	check(t)
}

// VHistory: every history of a few operations on arbitrary keys.
func VHistory() {
	t := newTree()
	for i := 0; i < sym.Bound("operations", 6, 7); i++ {
		step(t, ref.Int8())
	}
}

// VInsert: any order of insertion.
func VInsert() {
	t := newTree()
	for i := 0; i < sym.Bound("insertions", 6, 7); i++ {
		sym.Assert(t.Put(ref.Int8(), 0) == nil, "Put succeeds")
		check(t)
	}
}

// VOrders: trees built in several orders, at any moment an arbitrary operation.
func VOrders() {
	t := newTree()
	n := []int{12, 24, 31}[sym.Choose(sym.Bound("sizes", 2, 3))]
	order := ref.Order(n, sym.Choose(ref.Orders))
	at := sym.Choose(len(order))
	for i, k := range order {
		if i == at {
			step(t, ref.Int8())
		}
		sym.Assert(t.Put(types.Int8(4*k-64), 0) == nil, "Put succeeds")
		check(t)
	}
}

// VDrain: trees emptied in several orders, with arbitrary operations.
func VDrain() {
	t := newTree()
	n := []int{10, 20}[sym.Choose(sym.Bound("sizes to drain", 1, 2))]
	for _, k := range ref.Order(n, sym.Choose(ref.Orders)) {
		sym.Assert(t.Put(types.Int8(4*k-64), 0) == nil, "Put succeeds")
	}
	check(t)
	order := ref.Order(n, sym.Choose(ref.Orders))
	at := sym.Choose(len(order))
	for i, k := range order {
		if i == at {
			step(t, ref.Int8())
		}
		if t.Has(types.Int8(4*k - 64)) {
			_, err := t.Remove(types.Int8(4*k - 64))
			sym.Assert(err == nil, "Remove succeeds")
		}
		check(t)
	}
}

// VLarge: a few hundred entries.
func VLarge() {
	t := newTree()
	n := sym.Bound("entries of a large tree", 100, 250)
	how := sym.Choose(ref.Orders)
	x := sym.Int16()
	for i, k := range ref.Order(n, how) {
		if i == n/2 {
			sym.Assert(t.Put(types.Int16(x), 0) == nil, "Put succeeds")
		}
		sym.Assert(t.Put(types.Int16(16*k), 0) == nil, "Put succeeds")
		if i%16 == 0 {
			check(t)
		}
	}
	check(t)
	_, err := t.Remove(types.Int16(x))
	sym.Assert(err == nil, "Remove succeeds")
	check(t)
}

// VNodes: the nodes used directly.
func VNodes() {
	var a *avl.AvlNode
	var b *avl.ImmutableAvlNode
	imm := sym.Choose(2) == 1
	for i := 0; i < sym.Bound("operations on nodes", 5, 6); i++ {
		k := ref.Int8()
		put := sym.Choose(2) == 0
		var n types.BinaryTreeNode
		if imm {
			if put {
				b, _ = b.Put(k, 0)
			} else if c, _, err := b.Remove(k); err == nil {
				b = c
			}
			if b != nil {
				n = b
			}
		} else {
			if put {
				a, _ = a.Put(k, 0)
			} else if c, _, err := a.Remove(k); err == nil {
				a = c
			}
			if a != nil {
				n = a
			}
		}
		shape(n)
	}
}

// shaped builds a tree that is as unbalanced as it may be, the lower of its
// subtrees with the height given.
func shaped(h int) avltree {
	t := newTree()
	l, r := ref.Sub(h, sym.Choose(ref.Shapes)), ref.Sub(h+sym.Choose(3), sym.Choose(ref.Shapes))
	if sym.Choose(2) == 1 {
		l, r = r, l
	}
	for _, k := range ref.Join(l, r).Levels() {
		sym.Assert(t.Put(types.Int16(4*k), 0) == nil, "Put succeeds")
	}
	check(t)
	return t
}

// VShapes: an arbitrary operation on extreme trees.
func VShapes() {
	t := shaped(sym.Bound("height of the lower subtree", 3, 5))
	step(t, types.Int16(sym.Int16()))
}

// VRoots: the roots of extreme trees are removed one after the other.
func VRoots() {
	t := shaped(6 - sym.Choose(sym.Bound("heights of the lower subtree", 3, 5)))
	for i := 0; i < 4; i++ {
		_, err := t.Remove(t.Root().(node).Key())
		sym.Assert(err == nil, "Remove succeeds")
		check(t)
	}
}
