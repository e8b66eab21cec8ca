// Package c41: how many jobs of a pool run at once, and in which order.
package c41

import (
	"sync"
	"sync/atomic"

	"github.com/timtadh/data-structures/pool"
	"verif/harness/sym"
)

// VLimit: no more jobs run at once than there are workers.
func VLimit() {
	w := sym.Choose(2) + 1
	n := w + 1
	p := pool.New(w)
	var running, most int32
	for i := 0; i < n; i++ {
		err := p.Do(func() {
			r := atomic.AddInt32(&running, 1)
			if r > int32(w) {
				atomic.StoreInt32(&most, r)
			}
			atomic.AddInt32(&running, -1)
		})
		sym.Assert(err == nil, "Do accepts jobs before Stop")
	}
	p.Stop()
	sym.Assert(atomic.LoadInt32(&most) == 0, "no more jobs run at once than there are workers")
	sym.Assert(atomic.LoadInt32(&running) == 0, "no job runs after Stop")
}

// VOrder: a single worker runs the jobs in the order in which they were
// submitted, each after the one before. Nothing else orders the jobs, so that
// an overlap is a race as well.
func VOrder() {
	p := pool.New(1)
	n := sym.Bound("jobs of one submitter", 4, 5)
	var log []int
	for i := 0; i < n; i++ {
		sym.Assert(p.Do(func() { log = append(log, i) }) == nil, "Do accepts jobs before Stop")
	}
	p.Stop()
	sym.Assert(len(log) == n, "every job has run")
	for i, x := range log {
		sym.Assert(x == i, "a single worker runs the jobs in the order of submission")
	}
}

// VSubmitters: the jobs of each of two submitters run in their order, and those
// submitted after others were accepted run after them.
func VSubmitters() {
	p := pool.New(1)
	var log []int
	do := func(i int) {
		sym.Assert(p.Do(func() { log = append(log, i) }) == nil, "Do accepts jobs before Stop")
	}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		do(0)
		do(1)
		wg.Done()
	}()
	do(10)
	wg.Wait()
	do(20)
	p.Stop()
	sym.Assert(len(log) == 4, "every job has run")
	at := map[int]int{}
	for i, x := range log {
		at[x] = i
	}
	sym.Assert(at[0] < at[1], "the jobs of a submitter run in their order")
	sym.Assert(at[20] == 3, "a job runs after those accepted before")
}

// VHeld: jobs submitted before and after the wait lock was held.
func VHeld() {
	p := pool.New(1)
	var log []int
	do := func(i int) {
		sym.Assert(p.Do(func() { log = append(log, i) }) == nil, "Do accepts jobs before Stop")
	}
	do(0)
	do(1)
	p.WaitLock()
	sym.Assert(len(log) == 2 && log[0] == 0 && log[1] == 1, "the jobs have run in their order")
	p.Unlock()
	do(2)
	p.Stop()
	sym.Assert(len(log) == 3 && log[2] == 2, "the jobs have run in their order")
}
