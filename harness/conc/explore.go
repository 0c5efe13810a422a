package main

import (
	"fmt"
	"os"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/netauth/netauth/internal/zverif/eng"
	"github.com/netauth/netauth/internal/zverif/zsync"
)

// scenario is a set of request sequences issued concurrently.
type scenario struct {
	name    string
	setup   []eng.Op
	threads [][]eng.Op
	u       eng.Universe
	linear  bool // answers and data must match some order of the requests
	back    bool // walk maps backwards
	limit   int  // if set, at most so many preemptions
}

func (s *scenario) String() string {
	l := []string{}
	for _, t := range s.threads {
		n := []string{}
		for _, o := range t {
			n = append(n, o.Name)
		}
		l = append(l, strings.Join(n, " then "))
	}
	return s.name + ": " + strings.Join(l, " || ")
}

// event is one request of a run.
type event struct {
	thread, pos int
	from, to    int // first and last moment
	res         eng.Res
	done        bool
}

// outcome is what a run did.
type outcome struct {
	events []event
	raw    string
	view   string
	run    zsync.Result
	kv     *KV
	w      *eng.World
	stuck  bool
}

type explorer struct {
	sc     *scenario
	bound  int
	noPOR  bool
	base   *KV
	seq    map[string][]string // order -> answers and final data
	orders [][][2]int
	codes  []map[string]bool // request -> codes it answers in some order
	runs   int
	steps  int
	div    int
	ext    int
	dead   time.Time
	full   bool
	views  map[string]error
	Seen   map[string]int // distinct outcomes
	max    int
}

func (x *explorer) world() (*eng.World, *KV) {
	kv := x.base.clone()
	w := eng.NewWorld(eng.Config{KV: kv})
	hookIndexes(w)
	return w, kv
}

func final(kv *KV) (string, *eng.World) {
	w := eng.NewWorld(eng.Config{KV: kv.mem()})
	return w.RawState(), w
}

var searches = []string{"*", "red", "e1", "g1"}

// once runs the scenario under one schedule.
func (x *explorer) once(schedule []int) *outcome {
	w, kv := x.world()
	o := &outcome{kv: kv, w: w}
	var bodies []func()
	idx := 0
	for _, t := range x.sc.threads {
		idx += len(t)
	}
	o.events = make([]event, idx)
	idx = 0
	for ti, t := range x.sc.threads {
		ev := o.events[idx : idx+len(t)]
		idx += len(t)
		for i := range ev {
			ev[i].thread, ev[i].pos = ti, i
		}
		t := t
		bodies = append(bodies, func() {
			for i := range t {
				ev[i].from = zsync.Clock()
				ev[i].res = t[i].Do(w)
				ev[i].to = zsync.Clock()
				ev[i].done = true
			}
		})
	}
	r, ok := zsync.Run(bodies, schedule)
	o.run, o.stuck = r, !ok
	x.runs++
	x.steps += len(r.Steps)
	return o
}

// sequential computes what each order of the requests leads to.
func (x *explorer) sequential() {
	x.seq = map[string][]string{}
	var rec func(pos []int, order [][2]int)
	rec = func(pos []int, order [][2]int) {
		more := false
		for t := range x.sc.threads {
			if pos[t] < len(x.sc.threads[t]) {
				more = true
				p := append([]int{}, pos...)
				p[t]++
				rec(p, append(append([][2]int{}, order...), [2]int{t, pos[t]}))
			}
		}
		if more {
			return
		}
		w, kv := x.world()
		ans := map[[2]int]string{}
		if x.codes == nil {
			n := 0
			for _, t := range x.sc.threads {
				n += len(t)
			}
			x.codes = make([]map[string]bool, n)
			for i := range x.codes {
				x.codes[i] = map[string]bool{}
			}
		}
		for _, e := range order {
			res, err := eng.Guarded(func() eng.Res { return x.sc.threads[e[0]][e[1]].Do(w) })
			ans[e] = answer(res)
			n := e[1]
			for t := 0; t < e[0]; t++ {
				n += len(x.sc.threads[t])
			}
			x.codes[n][res.Code.String()] = true
			if err != nil {
				ans[e] = err.Error()
			}
		}
		raw, _ := final(kv)
		x.orders = append(x.orders, order)
		x.seq[fmt.Sprint(order)] = append(x.answers(ans), raw)
	}
	rec(make([]int, len(x.sc.threads)), nil)
}

func answer(r eng.Res) string { return r.String() }

func (x *explorer) answers(a map[[2]int]string) []string {
	var out []string
	for t := range x.sc.threads {
		for i := range x.sc.threads[t] {
			out = append(out, a[[2]int{t, i}])
		}
	}
	return out
}

// judge decides whether a run is acceptable.
func (x *explorer) judge(o *outcome) error {
	for i, f := range o.run.Failed {
		if f != "" {
			return fmt.Errorf("the server panicked in %s: %s", names(x.sc.threads[i%len(x.sc.threads)]), f)
		}
	}
	if o.run.Deadlock || o.stuck {
		var l []string
		for i, b := range o.run.Blocked {
			if b != "" && i < len(x.sc.threads) {
				l = append(l, fmt.Sprintf("%s waits for %s", names(x.sc.threads[i]), b))
			}
		}
		return fmt.Errorf("the requests wait for one another for ever: %s", strings.Join(l, "; "))
	}
	if o.run.Overflow {
		return fmt.Errorf("the requests do not come to an end")
	}
	raw, fresh := final(o.kv)
	got := []string{}
	for _, e := range o.events {
		got = append(got, answer(e.res))
	}
	all := append(append([]string{}, got...), raw)
	key := strings.Join(all, "\x00")
	x.Seen[key]++
	// What the server goes on to answer.
	vk := raw + fmt.Sprint(o.w.HiddenHash())
	verr, seen := x.views[vk]
	if !seen || x.Seen[key] <= 3 {
		e := eng.SameView(o.w, fresh, x.sc.u, searches)
		if e != nil || !seen {
			x.views[vk] = e
			verr = e
		}
	}
	if verr != nil {
		return fmt.Errorf("when all is done, a restarted server %v", verr)
	}
	if x.seq == nil {
		x.sequential()
	}
	if !x.sc.linear {
		for i, e := range o.events {
			op := x.sc.threads[e.thread][e.pos].Name
			if strings.Contains(e.res.Data, hollow) {
				return fmt.Errorf("%s listed %s", op, hollow)
			}
			if c := e.res.Code.String(); !x.codes[i][c] {
				return fmt.Errorf("%s answered %s %q, which it does in no order of the requests", op, c, e.res.Msg)
			}
		}
		return nil
	}
	var why string
next:
	for _, order := range x.orders {
		at := map[[2]int]int{}
		for i, e := range order {
			at[e] = i
		}
		for _, a := range o.events {
			for _, b := range o.events {
				if a.thread != b.thread && a.to < b.from && at[[2]int{a.thread, a.pos}] > at[[2]int{b.thread, b.pos}] {
					continue next
				}
			}
		}
		want := x.seq[fmt.Sprint(order)]
		if strings.Join(want, "\x00") == key {
			return nil
		}
		var names []string
		for _, e := range order {
			names = append(names, x.sc.threads[e[0]][e[1]].Name)
		}
		why += fmt.Sprintf("; in the order %s: %s", strings.Join(names, ", "), diffAll(want, all))
	}
	var gl []string
	for i, e := range o.events {
		gl = append(gl, fmt.Sprintf("%s=%s", x.sc.threads[e.thread][e.pos].Name, strings.TrimSpace(got[i])))
	}
	return fmt.Errorf("no order of the requests explains the outcome: answers %s%s", strings.Join(gl, ", "), why)
}

func diffAll(want, got []string) string {
	for i := range want {
		if want[i] != got[i] {
			if i < len(want)-1 {
				return fmt.Sprintf("request %d would answer %s", i+1, strings.TrimSpace(want[i]))
			}
			return "stored data differs: " + eng.Diff(want[i], got[i])
		}
	}
	return "same"
}

func names(t []eng.Op) string {
	n := []string{}
	for _, o := range t {
		n = append(n, o.Name)
	}
	return strings.Join(n, " then ")
}

func conflict(a, b zsync.Op) bool {
	if a.Obj != 0 || b.Obj != 0 {
		return a.Obj == b.Obj && !(a.Kind == zsync.KRLock && b.Kind == zsync.KRLock)
	}
	st := func(o zsync.Op) bool { return o.Kind == zsync.KRead || o.Kind == zsync.KWrite || o.Kind == zsync.KList }
	if !st(a) || !st(b) {
		// Attempts on locks and the like: be careful.
		return (a.Kind == zsync.KLock && b.Kind != zsync.KStart) || (b.Kind == zsync.KLock && a.Kind != zsync.KStart)
	}
	if a.Kind != zsync.KWrite && b.Kind != zsync.KWrite {
		return false
	}
	if a.Kind == zsync.KList {
		ok, _ := path.Match(a.Name, b.Name)
		return ok
	}
	if b.Kind == zsync.KList {
		ok, _ := path.Match(b.Name, a.Name)
		return ok
	}
	return a.Name == b.Name
}

func excluded(a, b zsync.Step) bool {
	for _, p := range a.Held {
		if p == 0 {
			continue
		}
		for _, q := range b.Held {
			if q != 0 && p&^1 == q&^1 && (p&1 == 0 || q&1 == 0) {
				return true
			}
		}
	}
	return false
}

type node struct {
	enabled     uint32
	prev        int
	chosen      int
	done, back  uint32
	preemptions int // before this choice
}

func (n *node) cost(c int) int {
	if n.prev >= 0 && n.enabled&(1<<uint(n.prev)) != 0 && c != n.prev {
		return 1
	}
	return 0
}

// explore visits every schedule with at most bound preemptions, up to the
// order of steps that do not affect one another.
func (x *explorer) explore(report func(schedule []int, err error) bool, progress func(schedule []int)) {
	x.views = map[string]error{}
	x.Seen = map[string]int{}
	w := eng.NewWorld(eng.Config{KV: newKV()})
	kv := w.Cfg.KV.(*KV)
	for _, o := range x.sc.setup {
		if r, err := eng.Guarded(func() eng.Res { return o.Do(w) }); err != nil || !r.OK() {
			eng.SetupTrouble(fmt.Sprintf("%s: %s %s %v", o.Name, r, r.Msg, err))
		}
	}
	x.base = kv.clone()
	if l := x.sc.limit; l > 0 {
		if x.max > 0 {
			l -= 2 // only so many runs
		}
		if x.bound > l {
			x.bound = l
		}
	}
	zsync.Backwards = x.sc.back
	defer func() { zsync.Backwards = false }()
	var stack []*node
	x.full = true
	for {
		sched := make([]int, len(stack))
		for i, n := range stack {
			sched[i] = n.chosen
		}
		if progress != nil {
			progress(sched)
		}
		o := x.once(sched)
		if o.run.Diverged {
			x.div++
			x.full = false
		}
		if o.run.Externals > 0 {
			x.ext++
			x.full = false
		}
		if !o.run.Diverged && (o.run.Externals == 0 || o.stuck) {
			if err := x.judge(o); err != nil {
				full := make([]int, len(o.run.Steps))
				for i, s := range o.run.Steps {
					full[i] = s.Chosen
				}
				if !report(full, err) {
					return
				}
			}
		}
		if o.stuck || x.ext > 2 || x.div > 20 {
			x.full = false
			return
		}
		for i := len(stack); i < len(o.run.Steps); i++ {
			s := o.run.Steps[i]
			n := &node{enabled: s.Enabled, prev: s.Prev, chosen: s.Chosen}
			if i > 0 {
				p := stack[i-1]
				n.preemptions = p.preemptions + p.cost(p.chosen)
			}
			n.done = 1 << uint(s.Chosen)
			n.back = n.done
			if x.noPOR || s.Prev != s.Chosen {
				n.back = n.enabled
			}
			stack = append(stack, n)
		}
		if !x.noPOR {
			for i := range o.run.Steps {
				if i >= len(stack) {
					break
				}
				a := o.run.Steps[i]
				for j := i + 1; j < len(o.run.Steps); j++ {
					b := o.run.Steps[j]
					if a.Chosen == b.Chosen || !conflict(a.Op, b.Op) || excluded(a, b) {
						continue
					}
					if stack[i].enabled&(1<<uint(b.Chosen)) != 0 {
						stack[i].back |= 1 << uint(b.Chosen)
					} else {
						stack[i].back |= stack[i].enabled
					}
				}
			}
		}
		// The deepest choice left.
		found := false
		for len(stack) > 0 && !found {
			n := stack[len(stack)-1]
			for c := 0; c < 32; c++ {
				bit := uint32(1) << uint(c)
				if n.back&bit != 0 && n.done&bit == 0 && n.preemptions+n.cost(c) <= x.bound {
					n.done |= bit
					n.chosen = c
					if c != n.prev {
						// With bounded preemptions the
						// points of interest before a
						// block of steps collect at its
						// beginning.
						n.back = n.enabled
					}
					found = true
					break
				}
			}
			if !found {
				stack = stack[:len(stack)-1]
			}
		}
		if !found {
			return
		}
		if time.Now().After(x.dead) || (x.max > 0 && x.runs >= x.max) {
			x.full = false
			return
		}
	}
}

func sortedKeys(m map[string]int) []string {
	l := []string{}
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func debugf(f string, a ...interface{}) {
	if os.Getenv("ZV_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}
