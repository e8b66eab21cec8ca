// Package c30: holding the wait lock of the thread pool means no job is running.
package c30

import (
	"sync"
	"sync/atomic"

	"github.com/timtadh/data-structures/pool"
	"verif/harness/sym"
)

// jobs counts how often each job ran in plain memory: only the pool orders the
// jobs and the holder of its lock, so that a job that runs at the same time as
// the holder is a race.
type jobs struct {
	p        *pool.Pool
	ran      []int
	accepted []atomic.Int32
	wg       sync.WaitGroup
}

func newJobs(workers, n int) *jobs {
	return &jobs{p: pool.New(workers), ran: make([]int, n), accepted: make([]atomic.Int32, n)}
}

// do submits job i.
func (j *jobs) do(i int) {
	sym.Assert(j.p.Do(func() { j.ran[i]++ }) == nil, "Do accepts jobs before Stop")
}

// submitter submits job i from another goroutine.
func (j *jobs) submitter(i int) {
	j.wg.Add(1)
	go func() {
		j.do(i)
		j.accepted[i].Store(1)
		j.wg.Done()
	}()
}

// end waits for the other goroutines and stops the pool.
func (j *jobs) end() {
	j.wg.Wait()
	j.p.Stop()
	for i := range j.ran {
		sym.Assert(j.ran[i] == 1, "an accepted job has run once when Stop returns")
	}
}

// hold takes the lock; the first n jobs were accepted before.
func (j *jobs) hold(n int) {
	j.p.WaitLock()
	for i := 0; i < n; i++ {
		sym.Assert(j.ran[i] == 1, "when WaitLock returns the jobs accepted before have finished")
	}
	ran := append([]int(nil), j.ran...)
	sym.Idle()
	for i := range ran {
		sym.Assert(j.ran[i] == ran[i], "no job runs while the lock is held")
		if i >= n {
			sym.Assert(int(j.accepted[i].Load()) == ran[i], "no job is accepted while the lock is held")
		}
	}
	j.p.Unlock()
}

// VHold: jobs are submitted, then the lock is taken while another goroutine
// submits one more.
func VHold() {
	w := sym.Choose(2) + 1
	n := sym.Choose(2)
	more := sym.Choose(2)
	j := newJobs(w, n+more)
	for i := 0; i < n; i++ {
		j.do(i)
	}
	if more == 1 {
		j.submitter(n)
	}
	j.hold(n)
	j.end()
}

// VHoldLate: the lock is taken after another goroutine's job may or may not
// have been accepted.
func VHoldLate() {
	j := newJobs(sym.Choose(2)+1, 1)
	j.submitter(0)
	n := int(j.accepted[0].Load())
	j.hold(n)
	j.end()
}

// VHolders: two goroutines take the lock.
func VHolders() {
	j := newJobs(1, 1)
	j.do(0)
	held := 0
	take := func() {
		j.p.WaitLock()
		sym.Assert(j.ran[0] == 1, "when WaitLock returns the jobs accepted before have finished")
		held++
		j.p.Unlock()
	}
	j.wg.Add(1)
	go func() {
		take()
		j.wg.Done()
	}()
	take()
	j.end()
	sym.Assert(held == 2, "the lock is taken by one goroutine at a time")
}

// count asks for the number of unfinished jobs; the first n were accepted
// before.
func (j *jobs) count(n int) {
	c := j.p.WaitCount()
	sym.Assert(c >= 0 && c <= len(j.ran), "WaitCount returns a number of jobs")
	if c == 0 {
		for i := 0; i < n; i++ {
			sym.Assert(j.ran[i] == 1, "WaitCount returns zero when no accepted job is unfinished")
		}
	}
}

// VCount: WaitCount while jobs run and one is submitted.
func VCount() {
	w := sym.Choose(2) + 1
	n := sym.Choose(3)
	more := 0
	if n < 2 {
		more = sym.Choose(2)
	}
	j := newJobs(w, n+more)
	for i := 0; i < n; i++ {
		j.do(i)
	}
	if more == 1 {
		j.submitter(n)
	}
	j.count(n)
	j.end()
}

// VDrain: asking until nothing is left.
func VDrain() {
	j := newJobs(1, 2)
	j.do(0)
	j.do(1)
	for i := 0; i < 2 && j.p.WaitCount() > 0; i++ {
	}
	j.count(2)
	j.end()
}

// VWaiters: two goroutines wait for the same job, for its count or for the
// lock.
func VWaiters() {
	j := newJobs(1, 1)
	j.do(0)
	wait := func(lock bool) {
		if lock {
			j.p.WaitLock()
			sym.Assert(j.ran[0] == 1, "when WaitLock returns the jobs accepted before have finished")
			j.p.Unlock()
		} else {
			j.count(1)
		}
	}
	a, b := sym.Bool(), sym.Bool()
	j.wg.Add(1)
	go func() {
		wait(a)
		j.wg.Done()
	}()
	wait(b)
	j.end()
}

// VStop: the lock is taken or the count asked while the pool is stopped.
func VStop() {
	j := newJobs(1, 1)
	j.do(0)
	lock := sym.Bool()
	j.wg.Add(1)
	go func() {
		if lock {
			j.p.WaitLock()
			sym.Assert(j.ran[0] == 1, "when WaitLock returns the jobs accepted before have finished")
			j.p.Unlock()
		} else {
			j.count(1)
		}
		j.wg.Done()
	}()
	j.p.Stop()
	j.end()
	j.p.WaitLock()
	j.p.Unlock()
	sym.Assert(j.p.WaitCount() == 0, "a stopped pool has no unfinished jobs")
}
