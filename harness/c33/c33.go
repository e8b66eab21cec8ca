// Package c33: copies and containers made from others share nothing.
package c33

import (
	"github.com/timtadh/data-structures/hashtable"
	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/types"
	"verif/harness/ref"
	"verif/harness/sym"
)

// lst is a list with what it should hold.
type lst struct {
	l     *list.List
	want  []types.Hashable
	limit int // of a fixed list, or -1
}

func (l *lst) check(what string) {
	sym.Assert(l.l.Size() == len(l.want), what+": size")
	ref.Same(ref.Items(l.l.Items(), len(l.want), what), l.want, what)
	if l.limit >= 0 {
		sym.Assert(l.l.Full() == (len(l.want) == l.limit), what+": Full")
	}
}

// op performs an operation that succeeds.
func (l *lst) op() {
	n := len(l.want)
	full := l.limit >= 0 && n >= l.limit
	switch sym.Choose(6) {
	case 0:
		if !full {
			x := ref.Int8()
			sym.Assert(l.l.Push(x) == nil, "Push succeeds")
			l.want = append(ref.Clone(l.want), x)
		}
	case 1:
		if !full {
			i, x := sym.Choose(n+1), ref.Int8()
			sym.Assert(l.l.Insert(i, x) == nil, "Insert succeeds")
			w := append(ref.Clone(l.want[:i]), x)
			l.want = append(w, l.want[i:]...)
		}
	case 2:
		if n > 0 {
			_, err := l.l.Pop()
			sym.Assert(err == nil, "Pop succeeds")
			l.want = ref.Clone(l.want[:n-1])
		}
	case 3:
		if n > 0 {
			i := sym.Choose(n)
			sym.Assert(l.l.Remove(i) == nil, "Remove succeeds")
			l.want = append(ref.Clone(l.want[:i]), l.want[i+1:]...)
		}
	case 4:
		if n > 0 {
			i, x := sym.Choose(n), ref.Int8()
			sym.Assert(l.l.Set(i, x) == nil, "Set succeeds")
			l.want = ref.Clone(l.want)
			l.want[i] = x
		}
	case 5:
		l.l.Clear()
		l.want = nil
	}
}

func items(n int) []types.Hashable {
	var s []types.Hashable
	for i, c := 0, sym.Choose(n+1); i < c; i++ {
		s = append(s, ref.Int8())
	}
	return s
}

// VListCopy: a copy of a list.
func VListCopy() {
	src := &lst{limit: -1}
	xs := items(sym.Bound("items", 3, 4))
	switch sym.Choose(3) {
	case 0:
		src.l = list.New(0)
	case 1:
		src.l = list.New(8)
	case 2:
		src.limit = len(xs) + sym.Choose(2)
		src.l = list.Fixed(src.limit)
	}
	for _, x := range xs {
		sym.Assert(src.l.Push(x) == nil, "Push succeeds")
	}
	src.want = xs
	cp := &lst{l: src.l.Copy(), want: xs, limit: src.limit}
	cp.check("copy")
	for i := 0; i < sym.Bound("operations", 2, 3); i++ {
		if sym.Choose(2) == 0 {
			src.op()
		} else {
			cp.op()
		}
	}
	src.check("source")
	cp.check("copy")
}

// slice is a caller's slice with spare room behind it.
func slice(n int) (s, all []types.Hashable) {
	all = make([]types.Hashable, 0, n+2)
	for i, c := 0, sym.Choose(n+1); i < c; i++ {
		all = append(all, ref.Int8())
	}
	s = all
	for len(all) < cap(all) {
		all = append(all, ref.Int8())
	}
	return s, all
}

// VListSlice: a list made from a slice.
func VListSlice() {
	s, all := slice(sym.Bound("slice items", 3, 4))
	mine := ref.Clone(all)
	l := &lst{l: list.FromSlice(s), want: ref.Clone(s), limit: -1}
	l.check("list from slice")
	for i := 0; i < sym.Bound("operations", 2, 3); i++ {
		if len(s) > 0 && sym.Choose(2) == 1 {
			j := sym.Choose(len(s))
			s[j] = ref.Int8()
			mine[j] = s[j]
		} else {
			l.op()
		}
	}
	l.check("list from slice")
	ref.Same(all, mine, "the caller's slice")
}

// sorted is what the sorted containers have in common.
type sorted interface {
	Size() int
	Items() types.KIterator
	Add(types.Hashable) error
	Delete(types.Hashable) error
	Remove(int) error
	Clear()
	Copy() sorted
}

type sortedList struct{ *list.Sorted }
type sortedSet struct{ *set.SortedSet }

func (s sortedList) Copy() sorted { return sortedList{s.Sorted.Copy()} }
func (s sortedSet) Copy() sorted  { return sortedSet{s.SortedSet.Copy()} }

type srt struct {
	s     sorted
	dups  bool
	limit int
	want  []types.Hashable
}

func (s *srt) add(x types.Hashable) {
	i := 0
	for i < len(s.want) && s.want[i].Less(x) {
		i++
	}
	if !s.dups && i < len(s.want) && s.want[i].Equals(x) {
		return
	}
	w := append(ref.Clone(s.want[:i]), x)
	s.want = append(w, s.want[i:]...)
}

func (s *srt) op() {
	n := len(s.want)
	switch sym.Choose(4) {
	case 0:
		if s.limit < 0 || n < s.limit {
			x := ref.Int8()
			sym.Assert(s.s.Add(x) == nil, "Add succeeds")
			s.add(x)
		}
	case 1:
		if n > 0 {
			i := sym.Choose(n)
			sym.Assert(s.s.Delete(s.want[i]) == nil, "Delete succeeds")
			s.want = append(ref.Clone(s.want[:i]), s.want[i+1:]...)
		}
	case 2:
		if n > 0 {
			i := sym.Choose(n)
			sym.Assert(s.s.Remove(i) == nil, "Remove succeeds")
			s.want = append(ref.Clone(s.want[:i]), s.want[i+1:]...)
		}
	case 3:
		s.s.Clear()
		s.want = nil
	}
}

func (s *srt) check(what string) {
	sym.Assert(s.s.Size() == len(s.want), what+": size")
	ref.Same(ref.Items(s.s.Items(), len(s.want), what), s.want, what)
}

// VSortedCopy: copies of sorted lists and sets.
func VSortedCopy() {
	xs := items(sym.Bound("sorted items", 3, 4))
	src := &srt{limit: -1}
	switch sym.Choose(4) {
	case 0:
		src.s = sortedSet{set.NewSortedSet(0)}
	case 1:
		src.s = sortedList{list.NewSorted(8, true)}
		src.dups = true
	case 2:
		src.s = sortedList{list.NewSorted(0, false)}
	case 3:
		src.limit = len(xs) + 1
		src.dups = true
		src.s = sortedList{list.NewFixedSorted(src.limit, true)}
	}
	for _, x := range xs {
		sym.Assert(src.s.Add(x) == nil, "Add succeeds")
		src.add(x)
	}
	cp := &srt{s: src.s.Copy(), dups: src.dups, limit: src.limit, want: src.want}
	cp.check("copy")
	for i := 0; i < sym.Bound("operations", 2, 3); i++ {
		if sym.Choose(2) == 0 {
			src.op()
		} else {
			cp.op()
		}
	}
	src.check("source")
	cp.check("copy")
}

// VSortedSlice: sorted containers made from a slice, which stays as it was.
func VSortedSlice() {
	s, all := slice(sym.Bound("slice items", 3, 4))
	mine := ref.Clone(all)
	l := &srt{limit: -1}
	switch sym.Choose(3) {
	case 0:
		l.s = sortedSet{set.FromSlice(s)}
	case 1:
		l.s = sortedList{list.SortedFromSlice(s, true)}
		l.dups = true
	case 2:
		l.s = sortedList{list.SortedFromSlice(s, false)}
	}
	for _, x := range s {
		l.add(x)
	}
	l.check("sorted from slice")
	for i := 0; i < sym.Bound("operations", 2, 3); i++ {
		if len(s) > 0 && sym.Choose(2) == 1 {
			j := sym.Choose(len(s))
			s[j] = ref.Int8()
			mine[j] = s[j]
		} else {
			l.op()
		}
	}
	l.check("sorted from slice")
	ref.Same(all, mine, "the caller's slice")
}

// VFromSet: a sorted set made from a set of any kind.
func VFromSet() {
	xs := items(sym.Bound("set items", 3, 4))
	var src types.Set
	switch sym.Choose(4) {
	case 0:
		src = set.NewSortedSet(8)
	case 1:
		src = set.NewSetMap(hashtable.NewHashTable(1))
		for i := range xs {
			xs[i] = ref.S{ID: int8(xs[i].(types.Int8))}
		}
	case 2:
		src = set.NewSetMap(avl.NewAvlTree())
	case 3:
		// no set at all
		sym.Assert(set.SortedFromSet(nil).Size() == 0, "nothing gives an empty set")
		return
	}
	for _, x := range xs {
		sym.Assert(src.Add(x) == nil, "Add succeeds")
	}
	l := &srt{limit: -1, s: sortedSet{set.SortedFromSet(src)}}
	for _, x := range xs {
		l.add(x)
	}
	was := ref.Clone(l.want)
	l.check("sorted from set")
	// items are of the same type as those of the source
	mk := func() types.Hashable {
		if len(xs) > 0 {
			if _, ok := xs[0].(ref.S); ok {
				return ref.S{ID: sym.Int8()}
			}
		}
		return ref.Int8()
	}
	for i := 0; i < 2; i++ {
		x := mk()
		switch sym.Choose(4) {
		case 0:
			sym.Assert(l.s.Add(x) == nil, "Add succeeds")
			l.add(x)
		case 1:
			if n := len(l.want); n > 0 {
				sym.Assert(l.s.Remove(n-1) == nil, "Remove succeeds")
				l.want = ref.Clone(l.want[:n-1])
			}
		case 2:
			sym.Assert(src.Add(x) == nil, "Add succeeds")
			s := &srt{want: was}
			s.add(x)
			was = s.want
		case 3:
			if n := len(was); n > 0 {
				sym.Assert(src.Delete(was[0]) == nil, "Delete succeeds")
				was = ref.Clone(was[1:])
			}
		}
	}
	l.check("sorted from set")
	sym.Assert(src.Size() == len(was), "source: size")
	for _, x := range ref.Items(src.Items(), len(was), "source") {
		sym.Assert(ref.In(was, x), "source")
	}
}

// VLarge: copies of longer lists and sets, and ones made from long slices.
func VLarge() {
	n := []int{18, 40, 120}[sym.Choose(sym.Bound("sizes of longer sources", 3, 3))]
	s := make([]types.Hashable, n, n+4)
	for i := range s {
		s[i] = types.Int8(i)
	}
	s[n/2] = types.Int8(n/2 - sym.Choose(2))
	mine := ref.Clone(s)
	if sym.Choose(2) == 0 {
		src := &lst{l: list.FromSlice(s), want: mine, limit: -1}
		if sym.Choose(2) == 0 {
			src.limit = n + 1
			src.l = list.Fixed(n + 1)
			for _, x := range s {
				sym.Assert(src.l.Push(x) == nil, "Push succeeds")
			}
		}
		cp := &lst{l: src.l.Copy(), want: mine, limit: src.limit}
		s[n-1], s[0] = ref.Int8(), ref.Int8()
		_ = append(s, s[0])
		if sym.Choose(2) == 0 {
			src.op()
		} else {
			cp.op()
		}
		src.check("source")
		cp.check("copy")
		return
	}
	src := &srt{limit: -1, dups: sym.Choose(2) == 0}
	if src.dups {
		src.s = sortedList{list.SortedFromSlice(s, true)}
	} else {
		src.s = sortedSet{set.FromSlice(s)}
	}
	for _, x := range mine {
		src.add(x)
	}
	s[n-1], s[0] = types.Int8(-1), types.Int8(-2)
	cp := &srt{s: src.s.Copy(), dups: src.dups, limit: -1, want: src.want}
	if sym.Choose(2) == 0 {
		src.op()
	} else {
		cp.op()
	}
	src.check("source")
	cp.check("copy")
}
