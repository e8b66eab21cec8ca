// Package c08: set algebra over every pairing of set kinds.
package c08

import (
	"github.com/timtadh/data-structures/hashtable"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/types"
	"verif/harness/ref"
	"verif/harness/sym"
)

// item is an arbitrary item; all of them share a hash code so that the place
// in a hash table does not multiply the cases.
func item(entry bool) types.Hashable {
	k := ref.S{ID: sym.Int8()}
	if entry {
		return &types.MapEntry{Key: k, Value: 0}
	}
	return k
}

// same treats an entry as its key, for comparing in either direction.
func key(x types.Hashable) types.Hashable {
	if e, ok := x.(*types.MapEntry); ok {
		return e.Key
	}
	return x
}

func keys(xs []types.Hashable) []types.Hashable {
	var r []types.Hashable
	for _, x := range xs {
		r = append(r, key(x))
	}
	return r
}

// items returns up to n distinct items in increasing order.
func items(n int, entry bool) []types.Hashable {
	var s []types.Hashable
	for i := sym.Choose(n + 1); i > 0; i-- {
		x := item(entry)
		if len(s) > 0 {
			sym.Assume(s[len(s)-1].Less(x))
		}
		s = append(s, x)
	}
	return s
}

func fill(s types.Set, xs []types.Hashable, down bool) types.Set {
	for i := range xs {
		x := xs[i]
		if down {
			x = xs[len(xs)-1-i]
		}
		sym.Assert(s.Add(x) == nil, "Add succeeds")
	}
	return s
}

func make1(kind int, entry bool) types.Set {
	switch kind {
	case 0:
		return set.NewSortedSet(0)
	case 1:
		return set.NewSetMap(hashtable.NewLinearHash())
	case 2:
		if entry {
			return set.NewMapSet(set.NewSortedSet(1))
		}
		return set.NewSetMap(hashtable.NewHashTable(1))
	}
	return set.NewSetMap(avl.NewAvlTree())
}

// is checks that s holds exactly the items.
func is(s types.Set, want []types.Hashable, probe types.Hashable, what string) {
	sym.Assert(s.Size() == len(want), what+": size")
	got := keys(ref.Items(s.Items(), len(want), what))
	ref.Distinct(got, what)
	for _, x := range got {
		sym.Assert(ref.In(want, x), what+": holds an item it should not")
	}
	for _, x := range want {
		sym.Assert(s.Has(wrap(probe, x)), what+": Has")
	}
	sym.Assert(s.Has(probe) == ref.In(want, key(probe)), what+": Has")
}

func wrap(like, x types.Hashable) types.Hashable {
	if _, ok := like.(*types.MapEntry); ok {
		return &types.MapEntry{Key: x, Value: 0}
	}
	return x
}

func has(xs []types.Hashable, x types.Hashable) bool {
	for i := range xs {
		if xs[i].Equals(x) {
			return true
		}
	}
	return false
}

type pair struct {
	a, b   types.Set
	xs, ys []types.Hashable
	entry  bool
}

func pairOf(n int) *pair {
	p := &pair{entry: sym.Choose(2) == 1}
	ka := sym.Choose(4)
	p.xs, p.ys = items(n, p.entry), items(n, p.entry)
	p.a = fill(make1(ka, p.entry), p.xs, false)
	p.b = fill(make1(sym.Choose(4), p.entry), p.ys, true)
	p.xs, p.ys = keys(p.xs), keys(p.ys)
	return p
}

func (p *pair) want(op int) []types.Hashable {
	var r []types.Hashable
	for _, x := range p.xs {
		in := has(p.ys, x)
		if op == 0 || in == (op == 1) {
			r = append(r, x)
		}
	}
	if op == 0 {
		for _, y := range p.ys {
			if !has(p.xs, y) {
				r = append(r, y)
			}
		}
	}
	return r
}

func (p *pair) do(op int, pkg bool) types.Set {
	var r types.Set
	var err error
	switch {
	case op == 0 && pkg:
		r, err = set.Union(p.a, p.b)
	case op == 1 && pkg:
		r, err = set.Intersect(p.a, p.b)
	case op == 2 && pkg:
		r, err = set.Subtract(p.a, p.b)
	case op == 0:
		r, err = p.a.Union(p.b)
	case op == 1:
		r, err = p.a.Intersect(p.b)
	case op == 2:
		r, err = p.a.Subtract(p.b)
	}
	sym.Assert(err == nil, "the operation succeeds")
	return r
}

// like is an item of the kind the sets hold.
func (p *pair) like() types.Hashable {
	if p.entry {
		return &types.MapEntry{}
	}
	return ref.S{}
}

var names = []string{"Union", "Intersect", "Subtract"}

// VOperations: union, intersection and difference.
func VOperations() {
	p := pairOf(sym.Bound("items per set", 2, 3))
	op := sym.Choose(3)
	r := p.do(op, sym.Choose(2) == 1)
	probe := item(p.entry)
	is(r, p.want(op), probe, names[op])
	is(p.a, p.xs, probe, "left operand of "+names[op])
	is(p.b, p.ys, probe, "right operand of "+names[op])
	sym.Observe(r.Size())
}

// VSelf: a set combined with itself.
func VSelf() {
	p := &pair{entry: sym.Choose(2) == 1}
	p.xs = items(sym.Bound("items", 3, 4), p.entry)
	p.a = fill(make1(sym.Choose(4), p.entry), p.xs, sym.Choose(2) == 1)
	p.xs = keys(p.xs)
	p.b, p.ys = p.a, p.xs
	op := sym.Choose(3)
	r := p.do(op, sym.Choose(2) == 1)
	probe := item(p.entry)
	is(r, p.want(op), probe, names[op])
	is(p.a, p.xs, probe, "operand of "+names[op])
	sym.Assert(p.a.Subset(p.a) && p.a.Superset(p.a), "a set contains itself")
	sym.Assert(!p.a.ProperSubset(p.a) && !p.a.ProperSuperset(p.a), "not properly")
}

// VShare: the result and the operands share nothing.
func VShare() {
	p := pairOf(sym.Bound("items per set when sharing", 2, 2))
	op := sym.Choose(3)
	r := p.do(op, false)
	rs := p.want(op)
	probe := wrap(p.like(), ref.S{ID: 99})
	sets := []types.Set{p.a, p.b, r}
	contents := [][]types.Hashable{p.xs, p.ys, rs}
	which := sym.Choose(3)
	s := sets[which]
	// change one of the three sets
	if sym.Choose(2) == 0 {
		sym.Assert(s.Add(wrap(probe, ref.S{ID: 100})) == nil, "Add succeeds")
		if !has(contents[which], ref.S{ID: 100}) {
			contents[which] = append(ref.Clone(contents[which]), ref.S{ID: 100})
		}
	} else if n := len(contents[which]); n > 0 {
		i := sym.Choose(n)
		sym.Assert(s.Delete(wrap(probe, contents[which][i])) == nil, "Delete succeeds")
		c := ref.Clone(contents[which])
		contents[which] = append(c[:i:i], c[i+1:]...)
	}
	for i := range sets {
		is(sets[i], contents[i], probe, "after changing one of operands and result of "+names[op])
	}
}

// VCompare: the comparisons.
func VCompare() {
	p := pairOf(sym.Bound("items per compared set", 3, 3))
	common := len(p.want(1))
	sub := common == len(p.xs)
	super := common == len(p.ys)
	if sym.Choose(2) == 0 {
		sym.Assert(p.a.Subset(p.b) == sub, "Subset")
		sym.Assert(p.a.Superset(p.b) == super, "Superset")
		sym.Assert(p.a.ProperSubset(p.b) == (sub && !super), "ProperSubset")
		sym.Assert(p.a.ProperSuperset(p.b) == (super && !sub), "ProperSuperset")
	} else {
		sym.Assert(set.Subset(p.a, p.b) == sub, "Subset")
		sym.Assert(set.Superset(p.a, p.b) == super, "Superset")
		sym.Assert(set.ProperSubset(p.a, p.b) == (sub && !super), "ProperSubset")
		sym.Assert(set.ProperSuperset(p.a, p.b) == (super && !sub), "ProperSuperset")
	}
	sa, aSorted := p.a.(*set.SortedSet)
	sb, bSorted := p.b.(*set.SortedSet)
	if aSorted && bSorted {
		sym.Assert(sa.Overlap(sb) == (common > 0), "Overlap")
		sym.Assert(sa.Equals(sb) == (sub && super), "Equals")
	}
	_, aMap := p.a.(*set.MapSet)
	_, bMap := p.b.(*set.MapSet)
	if aMap && bMap {
		sym.Assert(p.a.Equals(p.b) == (sub && super), "Equals")
	}
	probe := item(p.entry)
	is(p.a, p.xs, probe, "compared set")
	is(p.b, p.ys, probe, "compared set")
}

// shapes are pairs of larger sets: interleaved, one within the other,
// side by side, and of very different sizes.
var shapes = [][2][]int{
	{{0, 2, 4, 6, 8, 10, 12, 14}, {0, 3, 6, 9, 12, 15}},
	{{4, 5, 6, 7}, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}},
	{{20, 22, 24, 26, 28, 30}, {0, 2, 4, 6, 8, 10}},
	{{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}, {5, 60}},
}

var longer = [][2][]int{
	{steps(40, 2), steps(34, 3)},
	{steps(60, 2), {50}},
}

// steps is 0, d, 2d and so on.
func steps(n, d int) []int {
	xs := make([]int, n)
	for i := range xs {
		xs[i] = d * i
	}
	return xs
}

// large fills a set with the values and maybe one arbitrary item.
func large(s types.Set, vals []int, entry, one bool) (types.Set, []types.Hashable) {
	var xs []types.Hashable
	for _, v := range vals {
		xs = append(xs, ref.S{ID: int8(v)})
	}
	if one {
		x := ref.S{ID: sym.Int8()}
		for _, y := range xs {
			sym.Assume(!x.Equals(y))
		}
		xs = append(xs, x)
	}
	like := types.Hashable(ref.S{})
	if entry {
		like = &types.MapEntry{}
	}
	for _, i := range ref.Order(len(xs), 3) {
		sym.Assert(s.Add(wrap(like, xs[i])) == nil, "Add succeeds")
	}
	return s, xs
}

// VLarge: larger sets of which one holds an arbitrary item.
func VLarge() {
	p := &pair{entry: sym.Choose(2) == 1}
	shape := shapes[sym.Choose(len(shapes))]
	in := sym.Choose(2)
	swap := sym.Choose(2)
	p.a, p.xs = large(make1(sym.Choose(4), p.entry), shape[swap], p.entry, in == 0)
	p.b, p.ys = large(make1(sym.Choose(4), p.entry), shape[1-swap], p.entry, in == 1)
	p.all()
}

// VLonger: longer sets, of the same kind or of neighbouring ones.
func VLonger() {
	p := &pair{}
	shape := longer[sym.Choose(len(longer))]
	swap := sym.Choose(2)
	kind := sym.Choose(4)
	p.a, p.xs = large(make1(kind, false), shape[swap], false, swap == 0)
	p.b, p.ys = large(make1((kind+sym.Choose(2))%4, false), shape[1-swap], false, swap == 1)
	p.all()
}

// all tries one of the operations or the comparisons.
func (p *pair) all() {
	if op := sym.Choose(4); op < 3 {
		probe := wrap(p.like(), ref.S{ID: 5})
		is(p.do(op, true), p.want(op), probe, names[op])
		is(p.a, p.xs, probe, "left operand of "+names[op])
		is(p.b, p.ys, probe, "right operand of "+names[op])
		return
	}
	common := len(p.want(1))
	sub := common == len(p.xs)
	super := common == len(p.ys)
	sym.Assert(p.a.Subset(p.b) == sub, "Subset")
	sym.Assert(p.a.Superset(p.b) == super, "Superset")
	sym.Assert(p.a.ProperSubset(p.b) == (sub && !super), "ProperSubset")
	sym.Assert(p.a.ProperSuperset(p.b) == (super && !sub), "ProperSuperset")
}

// VAgain: the same operation before and after a change to an operand.
func VAgain() {
	p := &pair{entry: sym.Choose(2) == 1}
	at := func(ids ...int8) []types.Hashable {
		var r []types.Hashable
		for _, id := range ids {
			r = append(r, wrap(p.like(), ref.S{ID: id}))
		}
		return r
	}
	p.xs, p.ys = at(0, 4, 8), at(4, 12)
	p.a = fill(make1(sym.Choose(4), p.entry), p.xs, false)
	p.b = fill(make1(sym.Choose(4), p.entry), p.ys, true)
	p.xs, p.ys = keys(p.xs), keys(p.ys)
	op := sym.Choose(3)
	pkg := sym.Choose(2) == 1
	is(p.do(op, pkg), p.want(op), wrap(p.like(), ref.S{ID: 1}), names[op])
	x := item(p.entry)
	s, held := p.a, &p.xs
	if sym.Choose(2) == 1 {
		s, held = p.b, &p.ys
	}
	if sym.Choose(2) == 0 {
		sym.Assert(s.Add(x) == nil, "Add succeeds")
		if !has(*held, key(x)) {
			*held = append(*held, key(x))
		}
	} else {
		var left []types.Hashable
		for _, y := range *held {
			if !y.Equals(key(x)) {
				left = append(left, y)
			}
		}
		sym.Assert((s.Delete(x) == nil) == (len(left) < len(*held)), "Delete succeeds exactly when the item is present")
		*held = left
	}
	is(p.do(op, pkg), p.want(op), x, names[op]+" after a change")
	is(p.a, p.xs, x, "left operand of "+names[op])
	is(p.b, p.ys, x, "right operand of "+names[op])
}
