// Package c39: goroutines that use the same versions of an immutable AVL tree.
package c39

import (
	"sync"

	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/types"
	"verif/harness/ref"
	"verif/harness/sym"
)

// version is a root with what it should hold.
type version struct {
	n   *avl.ImmutableAvlNode
	ref ref.Map
}

func clone(m ref.Map) ref.Map {
	return ref.Map{Keys: append([]types.Hashable{}, m.Keys...), Vals: append([]int{}, m.Vals...)}
}

// result is what an operation on a version gave.
type result struct {
	n     *avl.ImmutableAvlNode
	ok    bool
	value interface{}
	ks    []types.Hashable
	vs    []interface{}
}

// do applies an operation to a version.
func do(v *avl.ImmutableAvlNode, op int, k types.Hashable, val int) (r result) {
	var err error
	switch op {
	case 0:
		r.n, r.ok = v.Put(k, ref.Box(val))
	case 1:
		r.n, r.value, err = v.Remove(k)
		r.ok = err == nil
	case 2:
		r.value, err = v.Get(k)
		r.ok = err == nil && v.Has(k)
	case 3:
		for k, x, next := v.Iterate()(); next != nil; k, x, next = next() {
			r.ks = append(r.ks, k)
			r.vs = append(r.vs, x)
		}
	}
	return r
}

// holds checks the contents of a tree.
func holds(n *avl.ImmutableAvlNode, m ref.Map, what string) {
	sym.Assert(n.Size() == m.Size(), what+": size")
	ks, vs := ref.Pairs(n.Iterate(), m.Size(), what)
	ref.Rising(ks, what)
	for i := range ks {
		sym.Assert(m.Holds(ks[i], vs[i]), what+": contents")
	}
}

// check compares what an operation gave with what it should give.
func check(v version, op int, k types.Hashable, val int, r result) {
	m := clone(v.ref)
	switch op {
	case 0:
		sym.Assert(r.ok == m.Contains(k), "Put tells whether the key was present")
		m.Put(k, val)
		holds(r.n, m, "Put beside another goroutine")
	case 1:
		x, ok := m.Remove(k)
		sym.Assert(r.ok == ok, "Remove succeeds for present keys")
		if ok {
			sym.Assert(ref.Num(r.value) == x, "Remove returns the value")
			holds(r.n, m, "Remove beside another goroutine")
		}
	case 2:
		x, ok := m.Get(k)
		sym.Assert(r.ok == ok, "Get succeeds for present keys")
		if ok {
			sym.Assert(ref.Num(r.value) == x, "Get returns the value")
		}
	case 3:
		sym.Assert(len(r.ks) == m.Size(), "Iterate yields every entry")
		for i := range r.ks {
			sym.Assert(m.Holds(r.ks[i], ref.Num(r.vs[i])), "Iterate yields the entries")
		}
	}
}

// both lets two goroutines work on two versions.
func both(a, b version) {
	opA, opB := sym.Choose(3), sym.Choose(4)
	k, l := ref.Int8(), ref.Int8()
	var x, y result
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		x = do(a.n, opA, k, 101)
		wg.Done()
	}()
	y = do(b.n, opB, l, 102)
	wg.Wait()
	check(a, opA, k, 101, x)
	check(b, opB, l, 102, y)
	holds(a.n, a.ref, "the version both started from")
	holds(b.n, b.ref, "the version both started from")
}

// VHistory: two goroutines start from versions of one history.
func VHistory() {
	vs := []version{{}}
	for i := 0; i < sym.Bound("operations before", 4, 5); i++ {
		v := vs[len(vs)-1]
		m := clone(v.ref)
		k := ref.Int8()
		if sym.Choose(2) == 0 {
			n, _ := v.n.Put(k, ref.Box(i))
			m.Put(k, i)
			vs = append(vs, version{n, m})
		} else if _, ok := m.Remove(k); ok {
			n, _, err := v.n.Remove(k)
			sym.Assert(err == nil, "Remove succeeds")
			vs = append(vs, version{n, m})
		}
	}
	both(vs[len(vs)-1], vs[sym.Choose(len(vs))])
}

// VLarger: two goroutines change a tree in which changes cause rotations.
func VLarger() {
	n := []int{4, 5, 7}[sym.Choose(3)]
	if sym.Thorough() {
		n += 4
	}
	var v version
	for _, i := range ref.Order(n, sym.Choose(ref.Orders)) {
		k := types.Int8(i * 10)
		v.n, _ = v.n.Put(k, ref.Box(i))
		v.ref.Put(k, i)
	}
	both(v, v)
}
