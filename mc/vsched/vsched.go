// Package vsched runs threads one at a time and decides, at every scheduling point, which one goes on. The instrumented
// code calls P before every statement.
//
// Nothing in here is visible to the race detector: the hand-over from one thread to the next must not hide that their
// memory accesses are not ordered.
package vsched

import (
	"runtime"
	"sync"
	"time"
)

// MaxThreads and MaxPre bound a schedule.
const (
	MaxThreads = 4
	MaxPre     = 8
	Limit      = 8000000 // points in one execution
)

// Schedule of one execution: the order in which threads are preferred when the running one ends or blocks, and where it
// is interrupted: at point At[i], in favour of thread To[i].
type Schedule struct {
	Order [MaxThreads]int
	N     int
	At    [MaxPre]int
	To    [MaxPre]int
}

// Trace of one execution.
type Trace struct {
	Points   int
	Switches int
	Deadlock bool
	Endless  bool
	Missed   bool            // an interruption that could not happen: the thread had ended or was blocked
	Pos      [MaxThreads]int // points passed by each thread
	Hashes   [MaxPre * 4]uint64
	NHash    int
}

type state struct {
	active  bool
	n       int
	cur     int
	done    [MaxThreads]bool
	blocked [MaxThreads]bool
	s       Schedule
	next    int
	t       Trace
	aborted bool
}

var st state

// Cur tells which thread passed each point of the latest execution.
var Cur [Limit + 2]uint8

// Active tells whether threads are being scheduled.
//
//go:norace
//go:noinline
func Active() bool { return st.active }

// P is a scheduling point.
//
//go:norace
//go:noinline
func P() {
	if !st.active {
		return
	}
	if st.aborted {
		park()
	}
	me := st.cur
	p := st.t.Points
	st.t.Points++
	st.t.Pos[me]++
	Cur[p] = uint8(me)
	if p > Limit {
		st.t.Endless = true
		abort()
	}
	if st.next < st.s.N && st.s.At[st.next] == p {
		to := st.s.To[st.next]
		st.next++
		if to == me || to >= st.n || st.done[to] || st.blocked[to] {
			st.t.Missed = true
			return
		}
		switchTo(me, to)
	}
}

//go:norace
//go:noinline
func hash() {
	if st.t.NHash < len(st.t.Hashes) {
		h := uint64(1469598103934665603)
		for i := 0; i < st.n; i++ {
			h = (h ^ uint64(st.t.Pos[i])) * 1099511628211
			h ^= h >> 29
		}
		h = (h ^ uint64(st.cur)) * 1099511628211
		st.t.Hashes[st.t.NHash] = h
		st.t.NHash++
	}
}

//go:norace
//go:noinline
func switchTo(me, to int) {
	st.t.Switches++
	hash()
	st.cur = to
	wait(me)
}

//go:norace
//go:noinline
func wait(me int) {
	for st.cur != me {
		if st.aborted {
			park()
		}
		runtime.Gosched()
	}
	if st.aborted {
		park()
	}
}

//go:norace
//go:noinline
func park() {
	for {
		// This execution is over; its threads never go on
		select {}
	}
}

//go:norace
//go:noinline
func abort() {
	st.aborted = true
	park()
}

// pick a thread that can run, in the order of the schedule; -1: none.
//
//go:norace
//go:noinline
func pick() int {
	for i := 0; i < st.n; i++ {
		k := st.s.Order[i]
		if !st.done[k] && !st.blocked[k] {
			return k
		}
	}
	return -1
}

// Block is called by the running thread when it cannot go on; it returns when another thread may have changed that.
//
//go:norace
//go:noinline
func Block() {
	if !st.active {
		runtime.Gosched()
		return
	}
	me := st.cur
	st.blocked[me] = true
	k := pick()
	if k < 0 {
		st.t.Deadlock = true
		abort()
	}
	switchTo(me, k)
}

// Wake lets blocked threads look again whether they can go on.
//
//go:norace
//go:noinline
func Wake() {
	for i := 0; i < st.n; i++ {
		st.blocked[i] = false
	}
}

//go:norace
//go:noinline
func end(me int) {
	st.done[me] = true
	st.t.Switches++
	hash()
	Wake()
	if k := pick(); k >= 0 {
		st.cur = k
	} else {
		st.cur = -1
	}
}

//go:norace
//go:noinline
func begin(n int, s *Schedule) {
	st = state{}
	st.n = n
	st.s = *s
	st.cur = -1
}

//go:norace
//go:noinline
func ready() {
	st.active = true
	st.cur = pick()
}

//go:norace
//go:noinline
func finished() bool {
	if st.aborted {
		return true
	}
	for i := 0; i < st.n; i++ {
		if !st.done[i] {
			return false
		}
	}
	return true
}

//go:norace
//go:noinline
func stop(t *Trace) {
	st.active = false
	*t = st.t
}

//go:norace
//go:noinline
func progress() int { return st.t.Points }

//go:norace
//go:noinline
func stuck() { st.t.Endless = true; st.aborted = true }

// Run runs the threads under a schedule. It needs GOMAXPROCS 1. After an execution that was given up its threads are left
// behind.
func Run(threads []func(), s Schedule) (t Trace) {
	begin(len(threads), &s)
	// What the threads leave behind is seen by the caller; between threads this establishes no order
	var wg sync.WaitGroup
	wg.Add(len(threads))
	for i := range threads {
		i := i
		go func() {
			defer wg.Done()
			wait(i)
			threads[i]()
			end(i)
		}()
	}
	ready()
	last, since, spins := -1, time.Time{}, 0
	for !finished() {
		runtime.Gosched()
		if spins++; spins%4096 == 0 {
			if p := progress(); p != last {
				last, since = p, time.Now()
			} else if time.Since(since) > 20*time.Second {
				stuck()
			}
		}
	}
	stop(&t)
	if !t.Deadlock && !t.Endless {
		wg.Wait()
	}
	return t
}
