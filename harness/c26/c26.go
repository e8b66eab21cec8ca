// Package c26: tree traversals over trees of every shape.
package c26

import (
	"github.com/timtadh/data-structures/tree"
	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/types"
	"verif/harness/ref"
	"verif/harness/sym"
)

// bin is a binary tree node.
type bin struct {
	key  types.Hashable
	l, r *bin
}

func (b *bin) Key() types.Hashable { return b.key }
func (b *bin) Value() interface{}  { return nil }
func (b *bin) Left() types.BinaryTreeNode {
	if b.l == nil {
		return nil
	}
	return b.l
}
func (b *bin) Right() types.BinaryTreeNode {
	if b.r == nil {
		return nil
	}
	return b.r
}
func (b *bin) GetChild(i int) types.TreeNode    { return types.DoGetChild(b, i) }
func (b *bin) ChildCount() int                  { return types.DoChildCount(b) }
func (b *bin) Children() types.TreeNodeIterator { return types.MakeChildrenIterator(b) }

// shape decides for every place of the tree whether there is a node.
func shape(n *int) *bin {
	if *n == 0 || !sym.Bool() {
		return nil
	}
	*n--
	b := &bin{key: types.Int(sym.Int())}
	b.l = shape(n)
	b.r = shape(n)
	return b
}

func pre(b *bin, s []*bin) []*bin {
	if b == nil {
		return s
	}
	return pre(b.r, pre(b.l, append(s, b)))
}

func in(b *bin, s []*bin) []*bin {
	if b == nil {
		return s
	}
	return in(b.r, append(in(b.l, s), b))
}

func post(b *bin, s []*bin) []*bin {
	if b == nil {
		return s
	}
	return append(post(b.r, post(b.l, s)), b)
}

func is(it types.TreeNodeIterator, want []*bin, what string) {
	i := 0
	for n, next := it(); next != nil; n, next = next() {
		sym.Assert(i < len(want), what+": too many nodes")
		b, ok := n.(*bin)
		sym.Assert(ok && b == want[i], what+": nodes in order")
		i++
	}
	sym.Assert(i == len(want), what+": too few nodes")
}

func root(b *bin, typed bool) types.BinaryTreeNode {
	if b == nil && !typed {
		return nil
	}
	return b
}

// VBinary: binary trees of every shape.
func VBinary() {
	n := sym.Bound("binary tree nodes", 8, 10)
	b := shape(&n)
	p, i, q := pre(b, nil), in(b, nil), post(b, nil)
	// an empty tree is nil or a nil pointer
	t := root(b, sym.Choose(2) == 1)
	is(tree.TraverseTreePreOrder(t), p, "pre-order")
	is(tree.TraverseBinaryTreeInOrder(t), i, "in-order")
	is(tree.TraverseTreePostOrder(t), q, "post-order")
	// the tree is as before
	is(tree.TraverseTreePreOrder(t), pre(b, nil), "pre-order again")
	sym.Assert(len(pre(b, nil)) == len(p), "the tree is unchanged")
	for j := range p {
		sym.Assert(pre(b, nil)[j] == p[j] && in(b, nil)[j] == i[j], "the tree is unchanged")
	}
}

// gen is a node of a general tree.
type gen struct {
	kids  []*gen
	count bool // knows how many children it has
}

func (g *gen) Key() types.Hashable { return nil }
func (g *gen) Value() interface{}  { return nil }
func (g *gen) GetChild(i int) types.TreeNode {
	return g.kids[i]
}
func (g *gen) ChildCount() int {
	if !g.count {
		return -1
	}
	return len(g.kids)
}
func (g *gen) Children() types.TreeNodeIterator {
	i := 0
	var it types.TreeNodeIterator
	it = func() (types.TreeNode, types.TreeNodeIterator) {
		if i >= len(g.kids) {
			return nil, nil
		}
		i++
		return g.kids[i-1], it
	}
	return it
}

func grow(n *int, count bool) *gen {
	g := &gen{count: count}
	for *n > 0 && sym.Bool() {
		*n--
		g.kids = append(g.kids, grow(n, count))
	}
	return g
}

func gpre(g *gen, s []*gen) []*gen {
	s = append(s, g)
	for _, k := range g.kids {
		s = gpre(k, s)
	}
	return s
}

func gpost(g *gen, s []*gen) []*gen {
	for _, k := range g.kids {
		s = gpost(k, s)
	}
	return append(s, g)
}

func gis(it types.TreeNodeIterator, want []*gen, what string) {
	i := 0
	for n, next := it(); next != nil; n, next = next() {
		sym.Assert(i < len(want), what+": too many nodes")
		g, ok := n.(*gen)
		sym.Assert(ok && g == want[i], what+": nodes in order")
		i++
	}
	sym.Assert(i == len(want), what+": too few nodes")
}

// VGeneral: general trees of every shape.
func VGeneral() {
	n := sym.Bound("general tree nodes", 8, 9)
	count := sym.Choose(2) == 0
	g := grow(&n, count)
	p, q := gpre(g, nil), gpost(g, nil)
	gis(tree.TraverseTreePreOrder(g), p, "pre-order")
	if count {
		gis(tree.TraverseTreePostOrder(g), q, "post-order")
	}
	gis(tree.TraverseTreePreOrder(g), p, "pre-order again")
}

// VInterleaved: two traversals of one tree do not disturb each other.
func VInterleaved() {
	n := sym.Bound("interleaved tree nodes", 4, 5)
	b := shape(&n)
	if b == nil {
		return
	}
	kinds := []func() (types.TreeNodeIterator, []*bin){
		func() (types.TreeNodeIterator, []*bin) { return tree.TraverseTreePreOrder(b), pre(b, nil) },
		func() (types.TreeNodeIterator, []*bin) { return tree.TraverseBinaryTreeInOrder(b), in(b, nil) },
		func() (types.TreeNodeIterator, []*bin) { return tree.TraverseTreePostOrder(b), post(b, nil) },
	}
	x, xs := kinds[sym.Choose(3)]()
	y, ys := kinds[sym.Choose(3)]()
	for i := range xs {
		var a, c types.TreeNode
		a, x = x()
		c, y = y()
		sym.Assert(x != nil && y != nil, "traversals end together")
		sym.Assert(a.(*bin) == xs[i] && c.(*bin) == ys[i], "nodes in order")
	}
	_, x = x()
	_, y = y()
	sym.Assert(x == nil && y == nil, "traversals end")
}

// VAvl: the trees of the library, including empty ones.
func VAvl() {
	var t types.TreeMap = avl.NewAvlTree()
	if sym.Choose(2) == 1 {
		t = avl.NewImmutableAvlTree()
	}
	n := sym.Choose(sym.Bound("entries", 5, 6))
	m := ref.Map{}
	for i := 0; i < n; i++ {
		k := ref.Int8()
		t.Put(k, ref.Box(i))
		m.Put(k, i)
	}
	count := func(it types.TreeNodeIterator) int {
		c := 0
		for n, next := it(); next != nil; n, next = next() {
			sym.Assert(m.Holds(n.Key(), ref.Num(n.Value())), "traversals yield entries")
			c++
		}
		return c
	}
	sym.Assert(count(tree.TraverseTreePreOrder(t.Root())) == m.Size(), "pre-order visits every node")
	sym.Assert(count(tree.TraverseTreePostOrder(t.Root())) == m.Size(), "post-order visits every node")
	var ks []types.Hashable
	if r, ok := t.Root().(types.BinaryTreeNode); ok {
		for n, next := tree.TraverseBinaryTreeInOrder(r)(); next != nil; n, next = next() {
			ks = append(ks, n.Key())
		}
	}
	sym.Assert(len(ks) == m.Size(), "in-order visits every node")
	ref.Rising(ks, "in-order")
}

// val is a node of a binary tree that is not a pointer.
type val struct{ *bin }

func (v val) Left() types.BinaryTreeNode {
	if v.bin.l == nil {
		return nil
	}
	return val{v.bin.l}
}
func (v val) Right() types.BinaryTreeNode {
	if v.bin.r == nil {
		return nil
	}
	return val{v.bin.r}
}
func (v val) GetChild(i int) types.TreeNode    { return types.DoGetChild(v, i) }
func (v val) ChildCount() int                  { return types.DoChildCount(v) }
func (v val) Children() types.TreeNodeIterator { return types.MakeChildrenIterator(v) }

func vis(it types.TreeNodeIterator, want []*bin, what string) {
	i := 0
	for n, next := it(); next != nil; n, next = next() {
		sym.Assert(i < len(want) && n.(val).bin == want[i], what+": nodes in order")
		i++
	}
	sym.Assert(i == len(want), what+": too few nodes")
}

// VValues: trees whose nodes are plain values.
func VValues() {
	n := sym.Bound("value tree nodes", 5, 6)
	b := shape(&n)
	if b == nil {
		return
	}
	vis(tree.TraverseTreePreOrder(val{b}), pre(b, nil), "pre-order")
	vis(tree.TraverseBinaryTreeInOrder(val{b}), in(b, nil), "in-order")
	vis(tree.TraverseTreePostOrder(val{b}), post(b, nil), "post-order")
}

// VLarge: deep and wide trees.
func VLarge() {
	n := sym.Bound("nodes of larger trees", 70, 150)
	if sym.Choose(2) == 0 {
		// every node has one child, on the left, the right or either side
		how := sym.Choose(3)
		var b *bin
		for i := 0; i < n; i++ {
			b = &bin{key: types.Int(i), l: b}
			if how == 1 || how == 2 && i%3 == 0 {
				b.l, b.r = nil, b.l
			}
			if i%9 == 5 && sym.Choose(2) == 1 {
				if b.l == nil {
					b.l = &bin{key: types.Int(-i)}
				} else {
					b.r = &bin{key: types.Int(-i)}
				}
			}
		}
		is(tree.TraverseTreePreOrder(b), pre(b, nil), "pre-order")
		is(tree.TraverseBinaryTreeInOrder(b), in(b, nil), "in-order")
		is(tree.TraverseTreePostOrder(b), post(b, nil), "post-order")
		return
	}
	g := &gen{count: true}
	for i := 0; i < n; i++ {
		k := &gen{count: true}
		for j := 0; j < i%5; j++ {
			k.kids = append(k.kids, &gen{count: true})
		}
		g.kids = append(g.kids, k)
		if i%40 == 30 {
			g = &gen{count: true, kids: []*gen{g}}
		}
	}
	gis(tree.TraverseTreePreOrder(g), gpre(g, nil), "pre-order")
	gis(tree.TraverseTreePostOrder(g), gpost(g, nil), "post-order")
}
