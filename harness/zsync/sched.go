// Package zsync is a cooperative scheduler: threads of the code under test
// run one at a time and may be switched only where they synchronise or reach
// shared storage, so that a schedule is a list of choices that can be
// enumerated and repeated.  Outside a controlled run everything behaves like
// the package sync.
//
// Everything here that touches scheduler state is exempt from the race
// detector and hands over by plain memory, so that in a race-detecting build
// only the code under test orders its own accesses.
package zsync

import (
	"runtime"
)

// Kinds of operation at a scheduling point.
const (
	KStart = iota
	KLock
	KRLock
	KUnlock
	KRead
	KWrite
	KList
	KWait
	KExit
)

// Op is what a thread is about to do.
type Op struct {
	Kind int
	Obj  uintptr // locks
	Name string  // storage keys and patterns
}

// Step is one choice the scheduler made.
type Step struct {
	Prev    int    // the thread that ran before
	Chosen  int    // the thread that runs now
	Enabled uint32 // bit set of threads that could run
	Op      Op     // what the chosen thread does
	Held    [maxHeld]uintptr
}

// maxHeld bounds the locks noted per step; the lowest bit marks a read lock.
const maxHeld = 6

const (
	maxThreads = 16
	maxSteps   = 1 << 15
)

type thread struct {
	used     bool
	done     bool
	external bool // blocked on something the scheduler does not control
	at       Op   // pending operation
	waiting  bool // tried to take a lock and is blocked
	mu       *Mutex
	rw       *RWMutex
	wg       *WaitGroup
	failed   string
	held     [maxHeld]uintptr
}

//go:norace
func hold(p uintptr) {
	if !active {
		return
	}
	me := self()
	if me < 0 {
		return
	}
	for i := range threads[me].held {
		if threads[me].held[i] == 0 {
			threads[me].held[i] = p
			return
		}
	}
}

//go:norace
func drop(p uintptr) {
	if !active {
		return
	}
	me := self()
	if me < 0 {
		return
	}
	for k := 0; k < maxThreads; k++ {
		t := &threads[(me+k)%maxThreads]
		for i := range t.held {
			if t.held[i] == p {
				t.held[i] = 0
				return
			}
		}
	}
}

var (
	active    bool
	turn      = -1
	threads   [maxThreads]thread
	nthreads  int
	steps     [maxSteps]Step
	nsteps    int
	prefix    []int
	diverged  bool
	deadlock  bool
	overflow  bool
	abort     bool
	externals int
	progress  int
)

type abortRun struct{}

// Result is one finished run.
type Result struct {
	Steps     []Step
	Deadlock  bool
	Diverged  bool // the prescribed schedule could not be followed
	Overflow  bool
	Externals int
	Failed    []string // per thread: panic message
	Blocked   []string // what each thread was waiting for at a deadlock
}

//go:norace
func reset(p []int) {
	for i := range threads {
		threads[i] = thread{}
	}
	nthreads, nsteps = 0, 0
	diverged, deadlock, overflow, abort = false, false, false, false
	externals, progress = 0, 0
	prefix = make([]int, len(p))
	for i := range p {
		prefix[i] = p[i]
	}
	turn = -1
	active = true
}

//go:norace
func newThread() int {
	if nthreads == maxThreads {
		overflow = true
		return -1
	}
	id := nthreads
	nthreads++
	threads[id].used = true
	threads[id].at = Op{Kind: KStart}
	return id
}

//go:norace
func canRun(i int) bool {
	t := &threads[i]
	if !t.used || t.done || t.external {
		return false
	}
	switch {
	case t.mu != nil:
		return !t.mu.held
	case t.rw != nil && t.at.Kind == KLock:
		if t.waiting {
			return !t.rw.writer && t.rw.readers == 0
		}
		// A writer may also arrive while there are readers, which
		// keeps further readers out.
		return !t.rw.writer && (t.rw.readers == 0 || t.rw.writersWaiting == 0)
	case t.rw != nil:
		return !t.rw.writer && t.rw.writersWaiting == 0
	case t.wg != nil:
		return t.wg.n <= 0
	}
	return true
}

// choose picks the next thread; prev is the one that ran so far.
//
//go:norace
func choose(prev int) {
	var en uint32
	alive := false
	for i := 0; i < nthreads; i++ {
		if threads[i].used && !threads[i].done {
			alive = true
		}
		if canRun(i) {
			en |= 1 << uint(i)
		}
	}
	if en == 0 {
		for i := 0; i < nthreads; i++ {
			if threads[i].external && !threads[i].done {
				turn = -2 // wait for an external one to come back
				return
			}
		}
		if alive {
			deadlock = true
			abort = true
		}
		turn = -1
		return
	}
	c := -1
	if nsteps < len(prefix) {
		c = prefix[nsteps]
		if c < 0 || c >= maxThreads || en&(1<<uint(c)) == 0 {
			diverged = true
			c = -1
		}
	}
	if c < 0 {
		if prev >= 0 && en&(1<<uint(prev)) != 0 {
			c = prev
		} else {
			for i := 0; i < nthreads; i++ {
				if en&(1<<uint(i)) != 0 {
					c = i
					break
				}
			}
		}
	}
	if nsteps >= maxSteps {
		overflow = true
		abort = true
	} else {
		s := &steps[nsteps]
		s.Prev, s.Chosen, s.Enabled = prev, c, en
		s.Op.Kind, s.Op.Obj, s.Op.Name = threads[c].at.Kind, threads[c].at.Obj, threads[c].at.Name
		for i := range s.Held {
			s.Held[i] = threads[c].held[i]
		}
		nsteps++
	}
	progress++
	turn = c
}

// await blocks until it is this thread's turn.
//
//go:norace
func await(me int) {
	for turn != me {
		if abort {
			panic(abortRun{})
		}
		if turn == -2 {
			// Somebody came back.
			choose(-1)
			continue
		}
		runtime.Gosched()
	}
	if abort {
		panic(abortRun{})
	}
	progress++
}

// point is reached by the running thread ahead of an operation.
//
//go:norace
func point(kind int, obj uintptr, name string, mu *Mutex, rw *RWMutex, wg *WaitGroup) {
	if abort {
		return
	}
	me := self()
	if me < 0 {
		return
	}
	t := &threads[me]
	t.at.Kind, t.at.Obj, t.at.Name = kind, obj, name
	t.mu, t.rw, t.wg = mu, rw, wg
	if t.external {
		t.external = false
		await(me)
	} else {
		choose(me)
		await(me)
	}
	for rw != nil && kind == KLock && (rw.writer || rw.readers > 0) {
		// Arrived, but has to wait for the readers to leave.
		rw.writersWaiting++
		t.waiting = true
		choose(me)
		await(me)
		rw.writersWaiting--
		t.waiting = false
	}
	t.mu, t.rw, t.wg = nil, nil, nil
}

// self is the running thread.  Threads that the scheduler lost sight of are
// told apart by their goroutine.
//
//go:norace
func self() int {
	if !active {
		return -1
	}
	if externals == 0 {
		return turn
	}
	g := goid()
	for i := 0; i < nthreads; i++ {
		if ids[i] == g {
			return i
		}
	}
	return -1
}

var ids [maxThreads]int

func goid() int {
	var b [32]byte
	n := runtime.Stack(b[:], false)
	id := 0
	for _, c := range b[10:n] {
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + int(c-'0')
	}
	return id
}

// Point marks an access to shared storage.
//
//go:norace
func Point(kind int, name string) {
	if active {
		point(kind, 0, name, nil, nil, nil)
	}
}

// Clock counts the choices made so far.
//
//go:norace
func Clock() int { return nsteps }

// Active reports whether a controlled run is under way.
//
//go:norace
func Active() bool { return active }

//go:norace
func begin(me int) {
	ids[me] = goid()
	await(me)
}

//go:norace
func end(me int) {
	threads[me].done = true
	if abort {
		return
	}
	if threads[me].external {
		threads[me].external = false
		if turn == -2 {
			choose(-1)
		}
		return
	}
	choose(me)
}

//go:norace
func note(me int, s string) { threads[me].failed = s }

//go:norace
func isAbort(p interface{}) bool { _, ok := p.(abortRun); return ok }
