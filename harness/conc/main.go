package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/netauth/netauth/internal/zverif/eng"
	"github.com/netauth/netauth/internal/zverif/zsync"
)

// family is the set of scenarios of one property.
type family struct {
	id    string
	mk    func(thorough bool) []*scenario
	bound func(thorough bool) int
	race  bool // also run under the race detector
}

var families = map[string]*family{}

// line is what a worker tells.
type line struct {
	I        int    `json:"i"`
	Kind     string `json:"k"` // start, done, viol, end
	Runs     int    `json:"r,omitempty"`
	Steps    int    `json:"s,omitempty"`
	Outcomes int    `json:"o,omitempty"`
	Full     bool   `json:"f,omitempty"`
	Div, Ext int
	Msg      string   `json:"m,omitempty"`
	Sched    []int    `json:"c,omitempty"`
	Trouble  []string `json:"t,omitempty"`
}

// worker explores the scenarios given by number and prints its findings.
//
//	worker ID TIER BOUND MAXRUNS SECONDS NOTEFILE i,j,k...
func worker(args []string) {
	eng.Setup()
	debug.SetGCPercent(400)
	fam := families[args[0]]
	thorough := args[1] == "thorough"
	bound, _ := strconv.Atoi(args[2])
	max, _ := strconv.Atoi(args[3])
	secs, _ := strconv.Atoi(args[4])
	note, _ := os.OpenFile(args[5], os.O_RDWR|os.O_CREATE, 0600)
	dead := time.Now().Add(time.Duration(secs) * time.Second)
	all := fam.mk(thorough)
	out := bufio.NewWriter(os.Stdout)
	say := func(l line) {
		b, _ := json.Marshal(l)
		out.Write(append(b, '\n'))
		out.Flush()
	}
	go func() {
		time.Sleep(time.Until(dead) + 60*time.Second)
		os.Exit(75)
	}()
	for _, n := range strings.Split(args[6], ",") {
		i, err := strconv.Atoi(n)
		if err != nil || time.Now().After(dead) {
			break
		}
		say(line{I: i, Kind: "start"})
		x := &explorer{sc: all[i], bound: bound, dead: dead, max: max, noPOR: os.Getenv("ZV_NOPOR") != ""}
		count := 0
		msgs := map[string]bool{}
		x.explore(func(s []int, err error) bool {
			m := err.Error()
			if !msgs[m] {
				msgs[m] = true
				say(line{I: i, Kind: "viol", Msg: m, Sched: s})
				count++
			}
			return count < 3
		}, func(s []int) {
			if note != nil {
				b, _ := json.Marshal(line{I: i, Sched: s})
				note.WriteAt(append(b, '\n', 0), 0)
			}
		})
		say(line{I: i, Kind: "done", Runs: x.runs, Steps: x.steps, Outcomes: len(x.Seen), Full: x.full, Div: x.div, Ext: x.ext})
	}
	say(line{Kind: "end"})
}

// one runs a single schedule.
func one(args []string) {
	eng.Setup()
	fam := families[args[0]]
	all := fam.mk(args[1] == "thorough")
	for _, sc := range all {
		if sc.String() != args[2] {
			continue
		}
		x := &explorer{sc: sc, bound: 0, dead: time.Now().Add(time.Minute), max: 1}
		x.explore(func([]int, error) bool { return false }, nil)
		zsync.Backwards = sc.back
		sched := parseSched(args[3])
		o := x.once(sched)
		if os.Getenv("ZV_DEBUG") != "" {
			for _, s := range o.run.Steps {
				fmt.Fprintf(os.Stderr, "thread %d of %b: %d %x %s\n", s.Chosen, s.Enabled, s.Op.Kind, s.Op.Obj, s.Op.Name)
			}
			for _, e := range o.events {
				fmt.Fprintf(os.Stderr, "%+v\n", e)
			}
		}
		if err := x.judge(o); err != nil {
			fmt.Println("JUDGED", err)
			os.Exit(3)
		}
		os.Exit(0)
	}
	fmt.Println("no such scenario")
	os.Exit(4)
}

func schedString(s []int) string {
	l := make([]string, len(s))
	for i, c := range s {
		l[i] = strconv.Itoa(c)
	}
	return strings.Join(l, ",")
}

func parseSched(s string) []int {
	var o []int
	for _, p := range strings.Split(s, ",") {
		if n, err := strconv.Atoi(p); err == nil {
			o = append(o, n)
		}
	}
	return o
}

// unreduced is the mode that also tries every order of steps that are thought
// not to affect one another: it shows that the reduction loses no outcome.
const unreduced = "without reduction"

const raceExit = 66

func workerEnv() []string {
	return append(os.Environ(), "GOMAXPROCS=1", "GORACE=halt_on_error=1 exitcode="+strconv.Itoa(raceExit))
}

// describe condenses a race report to the places involved.
func describe(text string) string {
	if i := strings.Index(text, "WARNING: DATA RACE"); i >= 0 {
		var l []string
		for _, s := range strings.Split(text[i:], "\n") {
			s = strings.TrimSpace(s)
			if strings.Contains(s, "by goroutine") || strings.Contains(s, "by main") {
				f := strings.Fields(s)
				l = append(l, strings.ToLower(strings.Join(f[:2], " ")))
			}
			if strings.HasPrefix(s, "Goroutine ") {
				break
			}
			if strings.Contains(s, ".go:") && strings.Contains(s, "/internal/") && !strings.Contains(s, "zverif") {
				f := strings.Fields(s)[0]
				if n := strings.Index(f, "internal/"); n >= 0 {
					f = f[n:]
				}
				if len(l) > 0 && !strings.Contains(l[len(l)-1], " at ") {
					l[len(l)-1] += " at " + f
				}
			}
		}
		return "data race: " + strings.Join(l, " / ")
	}
	for _, s := range strings.Split(text, "\n") {
		if strings.HasPrefix(s, "fatal error:") || strings.HasPrefix(s, "panic:") || strings.Contains(s, "goroutine stack exceeds") {
			return "the server process died: " + s
		}
	}
	return ""
}

type stats struct {
	runs, steps, outcomes, scen, full, div, ext int
}

// drive distributes scenarios over worker processes.
func drive(r *eng.Run, fam *family, bin, mode string, bound, max int, dead time.Time) stats {
	all := fam.mk(r.Thorough())
	var mu sync.Mutex
	var st stats
	next := 0
	const chunk = 4
	// Interleave so that chunks are of similar weight.
	take := func() []int {
		mu.Lock()
		defer mu.Unlock()
		var l []int
		for len(l) < chunk && next < len(all) {
			l = append(l, next)
			next++
		}
		return l
	}
	report := func(i int, sched []int, msg string) {
		mu.Lock()
		defer mu.Unlock()
		r.Fail(all[i].String(), []string{mode, schedString(sched)}, "%s", msg)
	}
	var wg sync.WaitGroup
	for k := 0; k < runtime.NumCPU(); k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			notef := filepath.Join(os.TempDir(), fmt.Sprintf("zvnote-%s-%d-%d", mode, os.Getpid(), k))
			defer os.Remove(notef)
			for {
				todo := take()
				if len(todo) == 0 || time.Now().After(dead) {
					return
				}
				mu.Lock()
				enough := len(r.Viol) >= 5
				mu.Unlock()
				if enough {
					return
				}
				for len(todo) > 0 {
					var ns []string
					for _, i := range todo {
						ns = append(ns, strconv.Itoa(i))
					}
					os.WriteFile(notef, nil, 0600)
					secs := int(time.Until(dead).Seconds()) + 1
					cmd := exec.Command(bin, "worker", fam.id, r.Tier, strconv.Itoa(bound), strconv.Itoa(max), strconv.Itoa(secs), notef, strings.Join(ns, ","))
					cmd.Env = workerEnv()
					if mode == unreduced {
						cmd.Env = append(cmd.Env, "ZV_NOPOR=1")
					}
					var errb bytes.Buffer
					cmd.Stderr = &capped{b: &errb}
					p, _ := cmd.StdoutPipe()
					if err := cmd.Start(); err != nil {
						fmt.Println("cannot start a worker:", err)
						os.Exit(2)
					}
					cur, ended := -1, false
					sc := bufio.NewScanner(p)
					sc.Buffer(make([]byte, 1<<20), 1<<26)
					for sc.Scan() {
						var l line
						if json.Unmarshal(sc.Bytes(), &l) != nil {
							continue
						}
						switch l.Kind {
						case "start":
							cur = l.I
						case "viol":
							report(l.I, l.Sched, l.Msg)
						case "done":
							mu.Lock()
							st.runs += l.Runs
							st.steps += l.Steps
							st.outcomes += l.Outcomes
							st.scen++
							if l.Full {
								st.full++
							}
							st.div += l.Div
							st.ext += l.Ext
							mu.Unlock()
							cur = -1
							for n, i := range todo {
								if i == l.I {
									todo = append(append([]int{}, todo[:n]...), todo[n+1:]...)
									break
								}
							}
						case "end":
							ended = true
						}
					}
					cmd.Wait()
					if ended {
						break
					}
					code := cmd.ProcessState.ExitCode()
					msg := describe(errb.String())
					if code == raceExit || (msg != "" && code != 75) {
						var l line
						b, _ := os.ReadFile(notef)
						if n := bytes.IndexByte(b, '\n'); n > 0 {
							json.Unmarshal(b[:n], &l)
						}
						if cur < 0 {
							cur = l.I
						}
						report(cur, l.Sched, msg)
						if os.Getenv("ZV_DEBUG") != "" {
							os.Stderr.Write(errb.Bytes())
						}
					} else if code != 75 {
						fmt.Printf("worker ended with %d: %s\n", code, tail(errb.String()))
					}
					if cur < 0 {
						break
					}
					mu.Lock()
					r.Exhaustive = false
					mu.Unlock()
					// Go on with the rest.
					for n, i := range todo {
						if i == cur {
							todo = append(append([]int{}, todo[:n]...), todo[n+1:]...)
							break
						}
					}
				}
			}
		}(k)
	}
	wg.Wait()
	if st.full < len(all) {
		r.Exhaustive = false
	}
	r.Add(int64(st.outcomes), int64(st.steps), int64(st.runs))
	l, _ := r.Extra["explorations"].([]string)
	r.Extra["explorations"] = append(l, fmt.Sprintf("%s: %d of %d scenarios complete (at most %d preemptions), %d schedules run, %d steps, %d distinct outcomes, %d diverged, %d with uncontrolled blocking", mode, st.full, len(all), bound, st.runs, st.steps, st.outcomes, st.div, st.ext))
	n, _ := r.Extra["schedules"].(int)
	r.Extra["schedules"] = n + st.runs
	for i := 0; i < 4 && i < len(all); i++ {
		r.Sample("%s", all[i*len(all)/4])
	}
	return st
}

func tail(s string) string {
	if len(s) > 600 {
		s = s[len(s)-600:]
	}
	return s
}

type capped struct{ b *bytes.Buffer }

func (c *capped) Write(p []byte) (int, error) {
	if c.b.Len() < 1<<18 {
		c.b.Write(p)
	}
	return len(p), nil
}

var _ io.Writer = &capped{}

func (f *family) check() *eng.Check {
	raceBin := os.Getenv("ZV_RACE_BIN")
	return &eng.Check{ID: f.id, Level: "model_checking",
		Run: func(r *eng.Run) {
			start, dead := time.Now(), r.Deadline
			if f.race && raceBin != "" {
				// The race detector gets up to half the time.
				dead = start.Add(time.Until(r.Deadline) / 2)
			}
			a := drive(r, f, os.Args[0], "controlled", f.bound(r.Thorough()), 0, dead)
			if f.race && raceBin != "" && len(r.Viol) == 0 {
				drive(r, f, raceBin, "race detector", r.Pick(1, 2), r.Pick(40, 4000), r.Deadline)
			}
			if r.Thorough() && len(r.Viol) == 0 {
				b := drive(r, f, os.Args[0], unreduced, 2, 0, r.Deadline)
				if len(r.Viol) == 0 && a.full == a.scen && b.full == b.scen && a.outcomes < b.outcomes {
					// Not a fault of the server, but the exploration is not what it claims to be.
					r.Exhaustive = false
					r.Extra["reduction"] = fmt.Sprintf("loses outcomes: %d instead of %d", a.outcomes, b.outcomes)
				} else {
					r.Extra["reduction"] = fmt.Sprintf("%d outcomes with %d schedules, %d outcomes with %d schedules (at most 2 preemptions) when nothing is left out", a.outcomes, a.runs, b.outcomes, b.runs)
				}
			}
		},
		ReplayOne: func(r *eng.Run, v *eng.Violation) error {
			bin := os.Args[0]
			if v.Trace[0] == "race detector" {
				bin = raceBin
			}
			cmd := exec.Command(bin, "one", f.id, r.Tier, v.Spec, v.Trace[1])
			cmd.Env = workerEnv()
			b, _ := cmd.CombinedOutput()
			if os.Getenv("ZV_SHOW") != "" {
				os.Stdout.Write(b)
			}
			switch c := cmd.ProcessState.ExitCode(); {
			case c == 0 || c == 4:
				return nil
			default:
				return fmt.Errorf("%s", tail(string(b)))
			}
		}}
}

func main() {
	if len(os.Args) > 2 {
		switch os.Args[1] {
		case "worker":
			worker(os.Args[2:])
			return
		case "one":
			one(os.Args[2:])
			return
		}
	}
	var cs []*eng.Check
	for _, f := range families {
		cs = append(cs, f.check())
	}
	eng.Main(cs)
}
