// Package c42: the iterator adapters.
package c42

import (
	"github.com/timtadh/data-structures/types"
	"verif/harness/ref"
	"verif/harness/sym"
)

// entry is one pair of a source, also a node of a tree.
type entry struct {
	key types.Hashable
	val interface{}
}

func (e *entry) Key() types.Hashable              { return e.key }
func (e *entry) Value() interface{}               { return e.val }
func (e *entry) Children() types.TreeNodeIterator { return nil }
func (e *entry) GetChild(i int) types.TreeNode    { return nil }
func (e *entry) ChildCount() int                  { return 0 }

// entries are n pairs; a key or a value may be absent.
func entries(n, from int) (es []*entry) {
	for i := 0; i < n; i++ {
		e := &entry{val: ref.Box(from + i)}
		if !sym.Bool() {
			e.key = ref.Int8()
		}
		es = append(es, e)
	}
	return es
}

func sameKey(a, b types.Hashable) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.Equals(b)
}

func sameVal(a, b interface{}) bool {
	x, ok := ref.Unbox(a)
	y, too := ref.Unbox(b)
	return ok && too && x == y
}

// source yields its pairs in a way of its own: with a function per step, or
// with the same function for every step. Past its end it must not be asked.
type source struct {
	es      []*entry
	endless bool
	way     int
	ended   bool
	asked   int
}

func (s *source) at(i int) *entry {
	s.asked++
	sym.Assert(!s.ended, "a source that ended is not asked again")
	if s.endless {
		return s.es[i%len(s.es)]
	}
	if i >= len(s.es) {
		s.ended = true
		return nil
	}
	return s.es[i]
}

func (s *source) Iterate() types.KVIterator {
	s.ended = false
	if s.way == 0 {
		var step func(i int) types.KVIterator
		step = func(i int) types.KVIterator {
			return func() (types.Hashable, interface{}, types.KVIterator) {
				e := s.at(i)
				if e == nil {
					return nil, nil, nil
				}
				return e.key, e.val, step(i + 1)
			}
		}
		return step(0)
	}
	i := -1
	var it types.KVIterator
	it = func() (types.Hashable, interface{}, types.KVIterator) {
		i++
		e := s.at(i)
		if e == nil {
			return nil, nil, nil
		}
		return e.key, e.val, it
	}
	return it
}

func (s *source) nodes() types.TreeNodeIterator {
	if s.way == 0 {
		var step func(i int) types.TreeNodeIterator
		step = func(i int) types.TreeNodeIterator {
			return func() (types.TreeNode, types.TreeNodeIterator) {
				e := s.at(i)
				if e == nil {
					return nil, nil
				}
				return e, step(i + 1)
			}
		}
		return step(0)
	}
	i := -1
	var it types.TreeNodeIterator
	it = func() (types.TreeNode, types.TreeNodeIterator) {
		i++
		e := s.at(i)
		if e == nil {
			return nil, nil
		}
		return e, it
	}
	return it
}

// adapter takes one step: the pair, and whether there was one.
type adapter struct {
	step       func() (types.Hashable, interface{}, bool)
	keys, vals bool
}

func keysOf(s *source) *adapter {
	it := types.MakeKeysIterator(s)
	return &adapter{func() (k types.Hashable, v interface{}, ok bool) {
		k, it = it()
		return k, nil, it != nil
	}, true, false}
}

func valuesOf(s *source) *adapter {
	it := types.MakeValuesIterator(s)
	return &adapter{func() (k types.Hashable, v interface{}, ok bool) {
		v, it = it()
		return nil, v, it != nil
	}, false, true}
}

func itemsOf(s *source) *adapter {
	it := types.MakeItemsIterator(s)
	return &adapter{func() (types.Hashable, interface{}, bool) {
		var x types.Hashable
		x, it = it()
		if it == nil {
			return nil, nil, false
		}
		e, ok := x.(*types.MapEntry)
		sym.Assert(ok, "an item is an entry")
		return e.Key, e.Value, true
	}, true, true}
}

func pairsOf(s *source) *adapter {
	it := types.MakeKVIteratorFromTreeNodeIterator(s.nodes())
	return &adapter{func() (k types.Hashable, v interface{}, ok bool) {
		k, v, it = it()
		return k, v, it != nil
	}, true, true}
}

func adapt(kind int, s *source) *adapter {
	switch kind {
	case 0:
		return keysOf(s)
	case 1:
		return valuesOf(s)
	case 2:
		return itemsOf(s)
	}
	return pairsOf(s)
}

func (a *adapter) yields(e *entry) {
	k, v, ok := a.step()
	sym.Assert(ok, "the adapter goes on while its source does")
	sym.Assert(!a.keys || sameKey(k, e.key), "the adapter passes on the key")
	sym.Assert(!a.vals || sameVal(v, e.val), "the adapter passes on the value")
}

func (a *adapter) ends() {
	_, _, ok := a.step()
	sym.Assert(!ok, "the adapter ends with its source")
}

// VPairs: adapters over one source of pairs.
func VPairs() {
	s := &source{es: entries(sym.Choose(sym.Bound("pairs", 4, 6)), 0), way: sym.Choose(2)}
	a := adapt(sym.Choose(4), s)
	for _, e := range s.es {
		a.yields(e)
	}
	a.ends()
}

// VTwo: two adapters advanced in any order.
func VTwo() {
	es := entries(2, 0)
	s, t := &source{es: es, way: sym.Choose(2)}, &source{es: es, way: sym.Choose(2)}
	a, b := adapt(sym.Choose(4), s), adapt(sym.Choose(4), t)
	i, j := 0, 0
	for i < 3 || j < 3 {
		x, at := a, &i
		if i == 3 || j < 3 && sym.Bool() {
			x, at = b, &j
		}
		if *at < 2 {
			x.yields(es[*at])
		} else {
			x.ends()
		}
		*at++
	}
}

// VEndless: a source that never ends can be used.
func VEndless() {
	s := &source{es: entries(2, 0), way: sym.Choose(2), endless: true}
	a := adapt(sym.Choose(4), s)
	for i := 0; i < 5; i++ {
		a.yields(s.es[i%2])
	}
}

// VChain: sources one after another, empty ones among them.
func VChain() {
	var its []types.TreeNodeIterator
	var want []*entry
	n := 1 + sym.Choose(sym.Bound("sources", 4, 5))
	for i := 0; i < n; i++ {
		s := &source{es: entries(sym.Choose(3), i*2), way: sym.Choose(2)}
		its = append(its, s.nodes())
		want = append(want, s.es...)
	}
	it := types.ChainTreeNodeIterators(its...)
	for _, e := range want {
		var x types.TreeNode
		x, it = it()
		sym.Assert(it != nil, "the chain goes on while a source does")
		got, ok := x.(*entry)
		sym.Assert(ok && got == e, "the chain yields the nodes of its sources in order")
	}
	_, it = it()
	sym.Assert(it == nil, "the chain ends with its last source")
}

// VChainPairs: the pairs of a chain, the last source endless.
func VChainPairs() {
	s := &source{es: entries(sym.Choose(2), 0), way: sym.Choose(2)}
	t := &source{es: entries(1, 2), way: sym.Choose(2), endless: true}
	it := types.MakeKVIteratorFromTreeNodeIterator(types.ChainTreeNodeIterators(s.nodes(), t.nodes()))
	for i := 0; i < 4; i++ {
		e := t.es[0]
		if i < len(s.es) {
			e = s.es[i]
		}
		var k types.Hashable
		var v interface{}
		k, v, it = it()
		sym.Assert(it != nil && sameKey(k, e.key) && sameVal(v, e.val), "the pairs of a chain are those of its sources")
	}
}
