package zsync

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

var running sync.WaitGroup

func spawn(f func()) int {
	id := newThread()
	if id < 0 {
		panic("too many threads")
	}
	running.Add(1)
	go func() {
		defer running.Done()
		defer end(id)
		defer func() {
			if p := recover(); p != nil && !isAbort(p) {
				where := ""
				for _, l := range strings.Split(string(debug.Stack()), "\n") {
					if strings.HasPrefix(l, "\t") && !strings.Contains(l, "zverif") && !strings.Contains(l, "/runtime/") && !strings.Contains(l, "/debug/") {
						where = strings.TrimSpace(l)
						break
					}
				}
				note(id, fmt.Sprintf("%v at %s", p, where))
			}
		}()
		begin(id)
		f()
	}()
	return id
}

// ExternalAfter is how long the running thread may go without reaching a
// scheduling point before another one is let run.
var ExternalAfter = 3 * time.Second

//go:norace
func probe() (int, int) { return turn, progress }

// expel marks the running thread as out of the scheduler's control.
//
//go:norace
func expel(i int) {
	if i < 0 || turn != i {
		return
	}
	externals++
	threads[i].external = true
	choose(-1)
}

//go:norace
func finished() bool {
	if abort {
		return true
	}
	for i := 0; i < nthreads; i++ {
		if threads[i].used && !threads[i].done {
			return false
		}
	}
	return true
}

//go:norace
func setAbort() { abort, deadlock = true, true }

// Run executes the bodies as threads under the given schedule prefix.  It
// returns false when threads could not be brought to an end.
func Run(bodies []func(), schedule []int) (Result, bool) {
	reset(schedule)
	for _, b := range bodies {
		spawn(b)
	}
	kick()
	last, since, checks := -1, time.Now(), 0
	for !finished() {
		runtime.Gosched()
		if checks++; checks%1024 != 0 {
			continue
		}
		t, p := probe()
		if p != last {
			last, since = p, time.Now()
		} else if time.Since(since) > ExternalAfter {
			if t >= 0 {
				expel(t)
			} else if time.Since(since) > 4*ExternalAfter {
				setAbort()
			}
			if t >= 0 {
				since = time.Now()
			}
		}
	}
	done := make(chan bool)
	go func() { running.Wait(); close(done) }()
	ok := true
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		ok = false
	}
	return collect(), ok
}

//go:norace
func kick() { choose(-1) }

//go:norace
func collect() Result {
	active = false
	r := Result{Deadlock: deadlock, Diverged: diverged, Overflow: overflow, Externals: externals}
	r.Steps = make([]Step, nsteps)
	for i := range r.Steps {
		s := &steps[i]
		r.Steps[i].Prev, r.Steps[i].Chosen, r.Steps[i].Enabled = s.Prev, s.Chosen, s.Enabled
		r.Steps[i].Op.Kind, r.Steps[i].Op.Obj, r.Steps[i].Op.Name = s.Op.Kind, s.Op.Obj, s.Op.Name
		for k := range s.Held {
			r.Steps[i].Held[k] = s.Held[k]
		}
	}
	for i := 0; i < nthreads; i++ {
		r.Failed = append(r.Failed, threads[i].failed)
		b := ""
		if !threads[i].done || deadlock {
			switch {
			case threads[i].mu != nil:
				b = "a lock"
			case threads[i].rw != nil:
				b = "a reader/writer lock"
			case threads[i].wg != nil:
				b = "other threads"
			}
		}
		r.Blocked = append(r.Blocked, b)
	}
	return r
}
