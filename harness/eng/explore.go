package eng

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// Res is the outcome of one operation as the caller sees it.
type Res struct {
	Code codes.Code
	Msg  string
	Data string
}

// R builds a result from an error and optional rendered data.
func R(err error, data ...string) Res {
	s, _ := status.FromError(err)
	r := Res{Code: status.Code(err), Data: strings.Join(data, ";")}
	if err != nil && s != nil {
		r.Msg = s.Message()
	}
	return r
}

// OK reports success.
func (r Res) OK() bool { return r.Code == codes.OK }

func (r Res) String() string {
	if r.Data != "" {
		return r.Code.String() + "(" + r.Data + ")"
	}
	return r.Code.String()
}

// Op is one operation of the alphabet.
type Op struct {
	Name string
	Do   func(w *World) Res
	Tag  interface{} // whatever the property's step predicate needs
}

// Ghost is the history variable a property carries along a run.
type Ghost interface {
	Key() string
}

// NoGhost is the empty history variable.
type NoGhost struct{}

// Key is constant.
func (NoGhost) Key() string { return "" }

// Step is one observed transition.
type Step struct {
	W         *World
	Op        *Op
	Res       Res
	Pre, Post *Obs // nil when Spec.U is empty
	PreRaw    string
	PostRaw   string
	Ghost     Ghost
}

// Spec is one bounded exploration.
type Spec struct {
	Name  string
	U     Universe
	Ops   []Op
	Init  func() (*World, Ghost)
	Depth int
	// Step judges a transition and returns the new history variable.
	Step func(s *Step) (Ghost, error)
	// State judges a newly reached state (may probe the server with
	// operations that must not change it).
	State func(w *World, o *Obs, g Ghost) error
	// Prune stops expansion of a state.
	Prune func(o *Obs, g Ghost) bool
	// NoObs skips the observation of the universe around each step.
	NoObs bool
	// Known recognises a listed finding by its message.
	Known     func(msg string) bool
	MaxStates int64
	Deadline  time.Time
}

// Violation describes a counterexample.
type Violation struct {
	Spec  string   `json:"spec"`
	Trace []string `json:"trace"`
	Msg   string   `json:"message"`
}

func (v *Violation) String() string {
	return fmt.Sprintf("[%s] %s\n    after: %s", v.Spec, v.Msg, strings.Join(v.Trace, " ; "))
}

// Stats is what an exploration covered.
type Stats struct {
	States, Transitions, Replays int64
	Depth                        int
	Exhaustive                   bool
	Samples                      []string
	Violations                   []*Violation
	Known                        map[string][]string // listed findings met, with a trace
	Elapsed                      float64
}

type node struct {
	path []uint16
	g    Ghost
}

// CrashSlots is the file, if any, in which workers note the trace they are
// about to execute, so that a parent process can attribute a fatal crash.
var CrashSlots *os.File

var slotSeq int64

type slot struct{ off int64 }

const slotSize = 4096

func newSlot() *slot {
	return &slot{off: (atomic.AddInt64(&slotSeq, 1) - 1) * slotSize}
}

// Note records what is about to run.
func (s *slot) Note(txt string) {
	if CrashSlots == nil {
		return
	}
	if len(txt) > slotSize-8 {
		txt = txt[:slotSize-8]
	}
	b := make([]byte, 0, len(txt)+2)
	b = append(b, txt...)
	b = append(b, '\n', 0)
	CrashSlots.WriteAt(b, s.off)
}

// Guarded runs an operation, converting a panic into an error.
func Guarded(f func() Res) (r Res, err error) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			lines := strings.Split(st, "\n")
			where := ""
			for _, l := range lines {
				if strings.Contains(l, "/repo/") && !strings.Contains(l, "zverif") {
					where = strings.TrimSpace(l)
					break
				}
			}
			err = fmt.Errorf("the server panicked: %v at %s", p, where)
		}
	}()
	return f(), nil
}

// HangLimit is how long a single operation may take before the run is
// declared hung.
var HangLimit = 60 * time.Second

type watchdog struct {
	start int64 // unix nano, 0 when idle
	what  atomic.Value
}

// Explore enumerates every operation sequence up to the bound, merging only
// states that are identical in stored data, in-memory data and history
// variable.
func Explore(sp Spec) *Stats {
	t0 := time.Now()
	st := &Stats{Exhaustive: true}
	if sp.Deadline.IsZero() {
		sp.Deadline = time.Now().Add(10 * time.Minute)
	}
	nw := runtime.GOMAXPROCS(0)
	seen := map[string]struct{}{}
	var mu sync.Mutex
	var states, trans, replays int64
	names := func(p []uint16) []string {
		o := make([]string, len(p))
		for i, x := range p {
			o[i] = sp.Ops[x].Name
		}
		return o
	}
	fresh := 0
	addViol := func(p []uint16, msg string) {
		mu.Lock()
		defer mu.Unlock()
		if sp.Known != nil && sp.Known(msg) {
			if st.Known == nil {
				st.Known = map[string][]string{}
			}
			if _, ok := st.Known[msg]; !ok {
				st.Known[msg] = names(p)
			}
			return
		}
		fresh++
		for _, v := range st.Violations {
			if v.Msg == msg {
				return
			}
		}
		if len(st.Violations) < 200 {
			st.Violations = append(st.Violations, &Violation{sp.Name, names(p), msg})
		}
	}
	key := func(w *World, g Ghost) string {
		return fmt.Sprintf("%s|%x|%s|%v", w.RawState(), w.HiddenHash(), g.Key(), w.Note)
	}
	observe := func(w *World) *Obs {
		if sp.NoObs {
			return nil
		}
		return w.Observe(sp.U)
	}
	var expired int32
	// run executes one op on w with full checking.
	run := func(sl *slot, wd *watchdog, w *World, g Ghost, pre *Obs, preRaw string, p []uint16, oi int) (post *Obs, postRaw string, ng Ghost, bad bool) {
		op := &sp.Ops[oi]
		np := append(append([]uint16{}, p...), uint16(oi))
		if CrashSlots != nil {
			sl.Note(sp.Name + "\t" + strings.Join(names(np), "\t"))
		}
		wd.what.Store(strings.Join(names(np), " ; "))
		atomic.StoreInt64(&wd.start, time.Now().UnixNano())
		defer atomic.StoreInt64(&wd.start, 0)
		var r Res
		var err error
		r, err = Guarded(func() Res { return op.Do(w) })
		atomic.AddInt64(&trans, 1)
		if err != nil {
			addViol(np, err.Error())
			return nil, "", g, true
		}
		_, err = Guarded(func() Res {
			post = observe(w)
			return Res{}
		})
		if err != nil {
			addViol(np, "while reading back: "+err.Error())
			return nil, "", g, true
		}
		postRaw = w.RawState()
		ng = g
		if sp.Step != nil {
			var serr error
			_, err = Guarded(func() Res {
				ng, serr = sp.Step(&Step{W: w, Op: op, Res: r, Pre: pre, Post: post, PreRaw: preRaw, PostRaw: postRaw, Ghost: g})
				return Res{}
			})
			if err != nil {
				serr = err
			}
			if serr != nil {
				addViol(np, serr.Error())
				return nil, "", g, true
			}
		}
		return
	}
	rebuild := func(p []uint16) *World {
		atomic.AddInt64(&replays, 1)
		w, _ := sp.Init()
		for _, oi := range p {
			sp.Ops[oi].Do(w)
		}
		return w
	}
	checkState := func(w *World, o *Obs, g Ghost, p []uint16) bool {
		if o != nil && len(o.Err) > 0 {
			addViol(p, "a read of an existing object failed: "+o.Err[0])
			return false
		}
		if sp.State == nil {
			return true
		}
		before := w.RawState()
		var serr error
		_, err := Guarded(func() Res {
			serr = sp.State(w, o, g)
			return Res{}
		})
		if err != nil {
			serr = err
		}
		if serr != nil {
			addViol(p, serr.Error())
			return false
		}
		if a := w.RawState(); a != before {
			addViol(p, "an operation that must not change anything changed stored data: "+diffText(before, a))
			return false
		}
		return true
	}

	// root
	{
		w, g := sp.Init()
		o := observe(w)
		seen[key(w, g)] = struct{}{}
		states++
		if !checkState(w, o, g, nil) {
			st.States = states
			return st
		}
	}
	_, g0 := sp.Init()
	frontier := []node{{nil, g0}}
	wds := make([]*watchdog, nw)
	stop := make(chan struct{})
	for i := range wds {
		wds[i] = &watchdog{}
	}
	go func() {
		for {
			select {
			case <-stop:
				return
			case <-time.After(2 * time.Second):
			}
			for _, wd := range wds {
				s := atomic.LoadInt64(&wd.start)
				if s != 0 && time.Since(time.Unix(0, s)) > HangLimit {
					fmt.Printf("HANG %s\t%v\n", sp.Name, wd.what.Load())
					os.Exit(97)
				}
			}
		}
	}()
	defer close(stop)
	slots := make([]*slot, nw)
	for i := range slots {
		slots[i] = newSlot()
	}
	for d := 0; d < sp.Depth && len(frontier) > 0; d++ {
		var next []node
		var idx int64 = -1
		var wg sync.WaitGroup
		for wi := 0; wi < nw; wi++ {
			wg.Add(1)
			go func(wi int) {
				defer wg.Done()
				for {
					i := atomic.AddInt64(&idx, 1)
					if i >= int64(len(frontier)) {
						return
					}
					if atomic.LoadInt32(&expired) != 0 {
						return
					}
					if time.Now().After(sp.Deadline) || (sp.MaxStates > 0 && atomic.LoadInt64(&states) > sp.MaxStates) {
						atomic.StoreInt32(&expired, 1)
						return
					}
					p := frontier[i].path
					var w *World
					var g Ghost
					var pre *Obs
					var preRaw, k0 string
					for oi := range sp.Ops {
						if w == nil {
							w, g = rebuild(p), frontier[i].g
							if k0 == "" {
								pre = observe(w)
								preRaw = w.RawState()
								k0 = key(w, g)
							}
						}
						post, _, ng, bad := run(slots[wi], wds[wi], w, g, pre, preRaw, p, oi)
						if bad {
							w = nil
							continue
						}
						k := key(w, ng)
						if k == k0 {
							continue
						}
						mu.Lock()
						_, dup := seen[k]
						if !dup {
							seen[k] = struct{}{}
						}
						mu.Unlock()
						if !dup {
							np := append(append([]uint16{}, p...), uint16(oi))
							n := atomic.AddInt64(&states, 1)
							if checkState(w, post, ng, np) && (sp.Prune == nil || !sp.Prune(post, ng)) {
								mu.Lock()
								next = append(next, node{np, ng})
								if len(st.Samples) < 5 && n%997 == int64(1+len(st.Samples)) || (len(st.Samples) < 2 && d >= 1) {
									st.Samples = append(st.Samples, fmt.Sprintf("%s: %s", sp.Name, strings.Join(names(np), " ; ")))
								}
								mu.Unlock()
							}
						}
						w = nil
					}
				}
			}(wi)
		}
		wg.Wait()
		if expired != 0 {
			st.Exhaustive = false
			st.Depth = d
			break
		}
		st.Depth = d + 1
		frontier = next
		if fresh > 0 {
			break
		}
	}
	st.States, st.Transitions, st.Replays = states, trans, replays
	st.Elapsed = time.Since(t0).Seconds()
	return st
}

// Diff renders the lines that differ.
func Diff(a, b string) string { return diffText(a, b) }

func diffText(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	in := map[string]bool{}
	for _, l := range la {
		in[l] = true
	}
	var d []string
	for _, l := range lb {
		if !in[l] {
			d = append(d, "+"+l)
		}
		delete(in, l)
	}
	for l := range in {
		d = append(d, "-"+l)
	}
	s := strings.Join(d, " ")
	if len(s) > 400 {
		s = s[:400]
	}
	return s
}

// Replay runs one trace with full checking and returns the first violation.
func Replay(sp Spec, trace []string) error {
	w, g := sp.Init()
	obs := func() *Obs {
		if sp.NoObs {
			return nil
		}
		return w.Observe(sp.U)
	}
	pre := obs()
	preRaw := w.RawState()
	for _, n := range trace {
		var op *Op
		for i := range sp.Ops {
			if sp.Ops[i].Name == n {
				op = &sp.Ops[i]
			}
		}
		if op == nil {
			return nil
		}
		r, err := Guarded(func() Res { return op.Do(w) })
		fmt.Printf("  %-40s -> %s\n", n, r)
		if err != nil {
			return err
		}
		var post *Obs
		if _, err := Guarded(func() Res { post = obs(); return Res{} }); err != nil {
			return err
		}
		postRaw := w.RawState()
		if sp.Step != nil {
			var serr error
			if _, err := Guarded(func() Res {
				g, serr = sp.Step(&Step{W: w, Op: op, Res: r, Pre: pre, Post: post, PreRaw: preRaw, PostRaw: postRaw, Ghost: g})
				return Res{}
			}); err != nil {
				return err
			}
			if serr != nil {
				return serr
			}
		}
		pre, preRaw = post, postRaw
	}
	if pre != nil && len(pre.Err) > 0 {
		return fmt.Errorf("a read of an existing object failed: %s", pre.Err[0])
	}
	if sp.State != nil {
		var serr error
		if _, err := Guarded(func() Res { serr = sp.State(w, pre, g); return Res{} }); err != nil {
			return err
		}
		if serr != nil {
			return serr
		}
		if a := w.RawState(); a != preRaw {
			return fmt.Errorf("an operation that must not change anything changed stored data: %s", diffText(preRaw, a))
		}
	}
	return nil
}
