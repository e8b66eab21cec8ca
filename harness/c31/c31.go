// Package c31: the thread safe random source.
package c31

import (
	"math/rand"
	"sync"

	trand "github.com/timtadh/data-structures/rand"
	"verif/harness/sym"
)

const kinds = 6

// draw makes one draw that takes one value from the source.
func draw(r *rand.Rand, kind int) uint64 {
	switch kind {
	case 0:
		return uint64(r.Int63())
	case 1:
		return r.Uint64()
	case 2:
		return uint64(r.Uint32())
	case 3:
		return uint64(r.Int31())
	case 4:
		return uint64(r.Int())
	}
	return uint64(r.Int31n(8))
}

func reference(seed int64) *rand.Rand { return rand.New(rand.NewSource(seed)) }

// VSequence: one goroutine sees the values of math/rand.
func VSequence() {
	seed := sym.Int64()
	a, b := trand.ThreadSafeRand(seed), reference(seed)
	n := 4
	if sym.Thorough() {
		n = 6
	}
	for i := 0; i < n; i++ {
		k := sym.Choose(kinds)
		if k == 5 {
			s := sym.Int64()
			a.Seed(s)
			b.Seed(s)
			continue
		}
		sym.Assert(draw(a, k) == draw(b, k), "same values as math/rand with the same seed")
	}
}

// VConcurrent: the draws of two or three goroutines are those of the single
// threaded sequence, each used once.
func VConcurrent() {
	seed := sym.Int64()
	r := trand.ThreadSafeRand(seed)
	k := sym.Choose(kinds - 1)
	threads := sym.Choose(2) + 2
	per := 2
	if threads == 3 && !sym.Thorough() {
		per = 1
	}
	got := make([]uint64, threads*per)
	var wg sync.WaitGroup
	wg.Add(threads - 1)
	run := func(t int) {
		for i := 0; i < per; i++ {
			got[t*per+i] = draw(r, k)
		}
	}
	for t := 1; t < threads; t++ {
		go func() {
			run(t)
			wg.Done()
		}()
	}
	run(0)
	wg.Wait()
	ref := reference(seed)
	used := make([]bool, len(got))
	for range got {
		want := draw(ref, k)
		found := false
		for i, g := range got {
			if !used[i] && g == want {
				used[i], found = true, true
				break
			}
		}
		sym.Assert(found, "concurrent draws are the single threaded sequence")
	}
}

// VMixed: goroutines make different kinds of draws.
func VMixed() {
	seed := sym.Int64()
	r := trand.ThreadSafeRand(seed)
	a, b := sym.Choose(kinds-1), sym.Choose(kinds-1)
	var x, y uint64
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		x = draw(r, a)
		wg.Done()
	}()
	y = draw(r, b)
	z := draw(r, 1)
	wg.Wait()
	ref := func(p, q, s int) (uint64, uint64, uint64) {
		g := reference(seed)
		return draw(g, p), draw(g, q), draw(g, s)
	}
	x0, y0, z0 := ref(a, b, 1)
	y1, x1, z1 := ref(b, a, 1)
	y2, z2, x2 := ref(b, 1, a)
	sym.Assert(x == x0 && y == y0 && z == z0 || x == x1 && y == y1 && z == z1 || x == x2 && y == y2 && z == z2,
		"concurrent draws of different kinds are those of some order")
}

// VReseed: one goroutine reseeds while another draws.
func VReseed() {
	seed, next := sym.Int64(), sym.Int64()
	r := trand.ThreadSafeRand(seed)
	k := sym.Choose(kinds - 1)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		r.Seed(next)
		wg.Done()
	}()
	x := draw(r, k)
	y := draw(r, k)
	wg.Wait()
	z := draw(r, k)
	s, t := reference(seed), reference(next)
	s1, s2 := draw(s, k), draw(s, k)
	t1, t2, t3 := draw(t, k), draw(t, k), draw(t, k)
	sym.Assert(x == t1 && y == t2 && z == t3 || x == s1 && y == t1 && z == t2 || x == s1 && y == s2 && z == t1,
		"a reseed takes effect between two draws")
}
