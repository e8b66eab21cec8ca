// Package c29: the thread pool runs every accepted job exactly once.
package c29

import (
	"sync"

	"github.com/timtadh/data-structures/pool"
	"verif/harness/sym"
)

// jobs counts how often each job ran. Nothing but the pool orders the jobs and
// the reader, so that reading too early is a race as well.
type jobs struct {
	p    *pool.Pool
	ran  []int
	errs []error
}

func newJobs(workers, n int) *jobs {
	return &jobs{p: pool.New(workers), ran: make([]int, n), errs: make([]error, n)}
}

// do submits job i.
func (j *jobs) do(i int) {
	j.errs[i] = j.p.Do(func() { j.ran[i]++ })
}

// done is called when Stop has returned and the submitters of the jobs are
// known to have ended before Stop was called.
func (j *jobs) done(is ...int) {
	for _, i := range is {
		sym.Assert(j.errs[i] == nil, "Do accepts jobs before Stop")
		sym.Assert(j.ran[i] == 1, "an accepted job has run once when Stop returns")
	}
}

// VSubmit: jobs are submitted, then the pool is stopped.
func VSubmit() {
	w := sym.Choose(3) + 1
	most := 3
	if w == 1 || sym.Thorough() {
		most = 4
	}
	n := sym.Choose(most + 1)
	j := newJobs(w, n+1)
	for i := 0; i < n; i++ {
		j.do(i)
	}
	j.p.Stop()
	for i := 0; i < n; i++ {
		j.done(i)
	}
	j.do(n)
	sym.Assert(j.errs[n] != nil, "Do after Stop returns an error")
	j.p.Stop()
	for i := 0; i < n; i++ {
		j.done(i)
	}
	sym.Assert(j.ran[n] == 0, "a refused job does not run")
}

// VRace: a job is submitted while the pool is being stopped.
func VRace() {
	j := newJobs(sym.Choose(2)+1, 2)
	if sym.Choose(2) == 1 {
		j.do(0)
	} else {
		j.ran[0] = 1
	}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		j.do(1)
		wg.Done()
	}()
	j.p.Stop()
	ran := j.ran[1]
	sym.Assert(j.ran[0] == 1, "an accepted job has run once when Stop returns")
	wg.Wait()
	if j.errs[1] == nil {
		sym.Assert(ran == 1, "an accepted job has run once when Stop returns")
	} else {
		sym.Assert(ran == 0, "a refused job does not run")
	}
	sym.Assert(j.ran[1] == ran, "no job runs after Stop")
}

// VStops: two callers stop the pool.
func VStops() {
	j := newJobs(1, 1)
	j.do(0)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		j.p.Stop()
		j.done(0)
		wg.Done()
	}()
	j.p.Stop()
	j.done(0)
	wg.Wait()
}

// VSubmitters2: two submitters of one job each.
func VSubmitters2() {
	j := newJobs(sym.Choose(3)+1, 2)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		j.do(0)
		wg.Done()
	}()
	j.do(1)
	wg.Wait()
	j.p.Stop()
	j.done(0, 1)
}

// VSubmitters: two submitters of three jobs.
func VSubmitters() {
	w := 1
	if sym.Thorough() {
		w = 2
	}
	j := newJobs(sym.Choose(w)+1, 3)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		j.do(0)
		wg.Done()
	}()
	j.do(1)
	j.do(2)
	wg.Wait()
	j.p.Stop()
	j.done(0, 1, 2)
}

// VRace2: two submitters while the pool is being stopped.
func VRace2() {
	j := newJobs(sym.Choose(2)+1, 2)
	var wg sync.WaitGroup
	wg.Add(2)
	for i := 0; i < 2; i++ {
		go func() {
			j.do(i)
			wg.Done()
		}()
	}
	j.p.Stop()
	a, b := j.ran[0], j.ran[1]
	wg.Wait()
	for i, ran := range []int{a, b} {
		if j.errs[i] == nil {
			sym.Assert(ran == 1, "an accepted job has run once when Stop returns")
		} else {
			sym.Assert(ran == 0, "a refused job does not run")
		}
		sym.Assert(j.ran[i] == ran, "no job runs after Stop")
	}
}

// VFull: more jobs than the pool keeps waiting; the first does not end before
// everybody waits for it.
func VFull() {
	const n = 102
	j := newJobs(1, n)
	begun, gate := make(chan int), make(chan int)
	j.errs[0] = j.p.Do(func() {
		close(begun)
		<-gate
		j.ran[0]++
	})
	<-begun
	go func() {
		sym.Idle()
		close(gate)
	}()
	for i := 1; i < n; i++ {
		j.do(i)
	}
	j.p.Stop()
	for i := 0; i < n; i++ {
		j.done(i)
	}
}

// VFull2: the queue of one of two workers is full.
func VFull2() {
	const full = 101
	n := full + sym.Bound("jobs when a queue is full", 2, 3)
	j := newJobs(2, n)
	gate := make(chan int)
	sym.Still(true)
	j.errs[0] = j.p.Do(func() {
		<-gate
		j.ran[0]++
	})
	sym.Idle()
	for i := 1; i < full; i++ {
		j.do(i)
	}
	sym.Still(false)
	for i := full; i < n; i++ {
		j.do(i)
	}
	sym.Idle()
	close(gate)
	sym.Idle()
	j.p.Stop()
	for i := 0; i < n; i++ {
		j.done(i)
	}
}
