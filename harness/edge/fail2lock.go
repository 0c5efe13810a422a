package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/hashicorp/go-hclog"
	"github.com/spf13/viper"

	"github.com/netauth/netauth/internal/plugin/tree/manager"
	"github.com/netauth/netauth/internal/zverif/eng"
	types "github.com/netauth/protocol"
	rpb "github.com/netauth/protocol/v2"
)

// flConf is a configuration of the plugin and what it amounts to.
type flConf struct {
	name, text string
	allowed    int
	interval   time.Duration
}

var flConfs = []flConf{
	{"both", "[plugin.fail2lock]\nallowed_fails = 2\ninterval = \"1h\"\n", 2, time.Hour},
	{"one", "[plugin.fail2lock]\nallowed_fails = 1\ninterval = \"1h\"\n", 1, time.Hour},
	{"fails", "[plugin.fail2lock]\nallowed_fails = 2\n", 2, 15 * time.Minute},
	{"interval", "[plugin.fail2lock]\ninterval = \"1h\"\n", 3, time.Hour},
	{"defaults", "[plugin]\nenabled = true\n", 3, 15 * time.Minute},
	{"level", "[plugin.fail2lock]\nlevel = \"x\"\n", 3, 15 * time.Minute},
	{"short", "[plugin.fail2lock]\nallowed_fails = 2\ninterval = \"2s\"\n", 2, 2 * time.Second},
	{"shortone", "[plugin.fail2lock]\nallowed_fails = 1\ninterval = \"2s\"\n", 1, 2 * time.Second},
}

// attempt is a failed authentication; sure tells whether it counts for
// certain (those made while the entity is locked, or about to be reset, are
// nobody's promise).
type attempt struct {
	from, to time.Time
	sure     bool
}

// flModel is what is known about one entity.
type flModel struct {
	conf   flConf
	fails  []attempt
	marker bool
	locked bool
}

const slack = 300 * time.Millisecond

// within returns between how many and how many failures count at an
// authentication that takes place between from and to.
func (m *flModel) within(from, to time.Time) (lo, hi int) {
	for _, a := range m.fails {
		if to.Sub(a.from) < m.conf.interval-slack && a.sure {
			lo++
		}
		if from.Sub(a.to) < m.conf.interval+slack {
			hi++
		}
	}
	return
}

// auth judges an authentication and notes it.
func (m *flModel) auth(right, ok bool, from, to time.Time) string {
	lo, hi := m.within(from, to)
	switch {
	case ok && !right:
		return "a wrong secret is accepted"
	case ok && m.locked:
		return "a locked entity is accepted"
	case ok && !m.marker && lo >= m.conf.allowed:
		return fmt.Sprintf("the right secret is accepted after %d failures, of which %d are allowed within %s", lo, m.conf.allowed, m.conf.interval)
	case !ok && right && !m.locked && m.marker:
		return "the right secret is refused although the count is to be reset"
	case !ok && right && !m.locked && hi < m.conf.allowed:
		return fmt.Sprintf("the right secret is refused after only %d failures, of which %d are allowed within %s", hi, m.conf.allowed, m.conf.interval)
	}
	if ok {
		m.fails, m.marker = nil, false
		return ""
	}
	if m.marker {
		for i := range m.fails {
			m.fails[i].sure = false
		}
	}
	m.fails = append(m.fails, attempt{from, to, !right && !m.marker && !m.locked && hi < m.conf.allowed})
	return ""
}

// flEvents are the steps a history is made of.
var flEvents = []string{"wrong", "right", "wrong other", "right other", "mark", "unmark", "lock", "unlock"}

type flRun struct {
	w    *eng.World
	conf flConf
	id   [2]string
	m    [2]*flModel
}

func (p *flWorld) fresh(n int) *flRun {
	w := eng.NewWorld(eng.Config{})
	p.mu.Lock()
	p.m.ConfigureEntityChains(w.Tree.RegisterEntityHookToChain)
	p.m.ConfigureGroupChains(w.Tree.RegisterGroupHookToChain)
	p.mu.Unlock()
	x := &flRun{w: w, conf: p.conf}
	for i := range x.id {
		x.id[i] = fmt.Sprintf("h%d%c", n, 'a'+i)
		x.m[i] = &flModel{conf: p.conf}
		eng.EntityCreate(eng.AsRoot, x.id[i], -1, "s").Do(w)
	}
	return x
}

func (x *flRun) do(ev string) string {
	who := 0
	if strings.HasSuffix(ev, " other") {
		who, ev = 1, strings.TrimSuffix(ev, " other")
	}
	id, m := x.id[who], x.m[who]
	var op eng.Op
	switch ev {
	case "wrong":
		op = eng.Auth(id, "w")
	case "right":
		op = eng.Auth(id, "s")
	case "mark":
		op = eng.EntityUM(eng.AsRoot, id, rpb.Action_UPSERT, "fail2lock", "RESET")
	case "note":
		op = eng.EntityUM(eng.AsRoot, id, rpb.Action_UPSERT, "fail2lock", "NEVER")
	case "unmark":
		op = eng.EntityUM(eng.AsRoot, id, rpb.Action_CLEARFUZZY, "fail2lock", "")
	case "lock":
		op = eng.EntityLock(eng.AsRoot, id)
	case "unlock":
		op = eng.EntityUnlock(eng.AsRoot, id)
	case "touch":
		op = eng.EntityUpdate(eng.AsRoot, id, "d", func() *types.EntityMeta { return &types.EntityMeta{DisplayName: eng.S("d")} })
	case "half":
		time.Sleep(x.conf.interval*6/10 + slack/2)
		return ""
	}
	from := time.Now()
	res, err := eng.Guarded(func() eng.Res { return op.Do(x.w) })
	to := time.Now()
	if err != nil {
		return fmt.Sprintf("%s takes the server down: %v", ev, err)
	}
	switch ev {
	case "wrong", "right":
		if s := m.auth(ev == "right", res.OK(), from, to); s != "" {
			return s
		}
	default:
		if !res.OK() {
			return fmt.Sprintf("%s fails: %s", ev, res.Code)
		}
		switch ev {
		case "mark":
			m.marker = true
		case "unmark", "note":
			m.marker = false
		case "lock":
			m.locked = true
		case "unlock":
			m.locked = false
		}
	}
	// What is written about the entity.
	e := x.w.Observe(eng.Universe{Entities: []string{id}}).Ents[id]
	if e == nil {
		return "the entity is gone"
	}
	if e.Locked != m.locked {
		return fmt.Sprintf("after %s the entity reads as locked=%v, as set it is %v", ev, e.Locked, m.locked)
	}
	marked := false
	for _, s := range e.UM {
		marked = marked || s == "fail2lock:RESET"
	}
	if marked != m.marker {
		return fmt.Sprintf("after %s the reset mark is there: %v, it should be: %v", ev, marked, m.marker)
	}
	return ""
}

type flWorld struct {
	mu   sync.Mutex
	m    manager.Manager
	conf flConf
	rep  *report
}

// flChild runs one configuration: lock "CONF DEPTH [FIRST]" TIER DIR SECONDS.
func flChild(args []string) {
	f := strings.Fields(args[0])
	dir := args[2]
	secs, _ := strconv.Atoi(args[3])
	deadline := time.Now().Add(time.Duration(secs) * time.Second)
	eng.Setup()
	hclog.SetDefault(hclog.NewNullLogger())
	p := &flWorld{rep: &report{Complete: true}}
	for _, c := range flConfs {
		if c.name == f[0] {
			p.conf = c
		}
	}
	if err := os.WriteFile(filepath.Join(dir, "config.toml"), []byte(p.conf.text), 0644); err != nil {
		panic(err)
	}
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	pd := filepath.Join(dir, "plugins")
	os.MkdirAll(pd, 0755)
	if out, err := exec.Command("cp", os.Getenv("ZV_FAIL2LOCK"), filepath.Join(pd, "fail2lock.treeplugin")).CombinedOutput(); err != nil {
		panic(string(out))
	}
	viper.Set("core.home", dir)
	viper.Set("plugin.path", "plugins")
	p.m, _ = manager.New(hclog.NewNullLogger())
	p.m.LoadPlugins()
	p.m.RegisterEntityHooks()
	p.m.RegisterGroupHooks()
	defer func() {
		p.m.Shutdown()
		p.rep.print()
		os.Exit(0)
	}()
	if down, listed := pluginDown("fail2lock"); down || !listed {
		p.rep.fail(nil, "the plugin does not run with this configuration:\n%s", p.conf.text)
		return
	}
	events := flEvents
	depth, _ := strconv.Atoi(f[1])
	timed := p.conf.interval < time.Minute
	if timed {
		events = []string{"wrong", "right", "half"}
	} else if depth > 4 {
		events = []string{"wrong", "right", "wrong other", "mark", "lock"}
	} else {
		events = append(append([]string{}, events...), "note", "touch")
	}
	var hist [][]string
	var gen func(h []string)
	gen = func(h []string) {
		if len(h) == depth {
			hist = append(hist, append([]string{}, h...))
			return
		}
		for _, e := range events {
			gen(append(h, e))
		}
	}
	var first []string
	if len(f) > 2 {
		n, _ := strconv.Atoi(f[2])
		first = []string{events[n]}
	}
	gen(first)
	one := func(n int, h []string) {
		x := p.fresh(n)
		for i, e := range h {
			if s := x.do(e); s != "" {
				p.mu.Lock()
				p.rep.fail(h[:i+1], "%v: %s", h[:i+1], s)
				p.mu.Unlock()
				return
			}
			p.mu.Lock()
			p.rep.Trans++
			p.mu.Unlock()
		}
	}
	p.rep.States = int64(len(hist))
	if timed {
		// The histories take their time; they run side by side, one
		// entity each, and the calls themselves one after another.
		var wg sync.WaitGroup
		var call sync.Mutex
		for n, h := range hist {
			wg.Add(1)
			call.Lock()
			x := p.fresh(n)
			call.Unlock()
			go func(h []string, x *flRun) {
				defer wg.Done()
				for i, e := range h {
					if e != "half" {
						call.Lock()
					}
					s := x.do(e)
					if e != "half" {
						call.Unlock()
					}
					p.mu.Lock()
					p.rep.Trans++
					if s != "" {
						p.rep.fail(h[:i+1], "%v: %s", h[:i+1], s)
					}
					p.mu.Unlock()
					if s != "" {
						return
					}
				}
			}(h, x)
		}
		wg.Wait()
		return
	}
	for n, h := range hist {
		if time.Now().After(deadline) {
			p.rep.Complete = false
			p.rep.States = int64(n)
			break
		}
		one(n, h)
	}
	p.rep.Samples = append(p.rep.Samples, fmt.Sprint(hist[len(hist)/2]))
}

// raced runs the pairs of calls under the race detector: the plugin proper
// with a main loop that calls it itself.
func raced(r *eng.Run) error {
	dir, err := os.MkdirTemp("", "zvrace")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(dir)
	os.WriteFile(filepath.Join(dir, "config.toml"), []byte("[plugin.fail2lock]\nallowed_fails = 2\ninterval = \"1h\"\n"), 0644)
	cmd := exec.Command(os.Getenv("ZV_FAIL2LOCK") + "-race")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	out, err := cmd.CombinedOutput()
	s := string(out)
	if i := strings.LastIndex(s, "PAIRS "); i >= 0 && err == nil {
		n, _ := strconv.Atoi(strings.Fields(s[i:])[1])
		r.Add(int64(n), int64(n), int64(n))
		l, _ := r.Extra["explorations"].([]string)
		r.Extra["explorations"] = append(l, fmt.Sprintf("pairs of simultaneous calls under the race detector: %d", n))
		return nil
	}
	what := "fails"
	if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
		what = "two calls touch the same memory without synchronisation"
	} else if i := strings.Index(s, "fatal error:"); i >= 0 {
		what = strings.SplitN(s[i:], "\n", 2)[0]
	} else if i := strings.Index(s, "panic:"); i >= 0 {
		what = strings.SplitN(s[i:], "\n", 2)[0]
	}
	last := ""
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "PAIR ") {
			last = l
		}
	}
	return fmt.Errorf("simultaneous authentications: %s (%s; %v)", what, last, err)
}

func flScenarios(r *eng.Run) []string {
	var s []string
	s = append(s, fmt.Sprintf("short %d", r.Pick(6, 7)), fmt.Sprintf("shortone %d", r.Pick(5, 7)))
	for _, c := range flConfs[:6] {
		if r.Thorough() || c.name == "both" {
			s = append(s, c.name+" 4")
		} else {
			s = append(s, c.name+" 3")
		}
	}
	for _, c := range flConfs[:6] {
		for i := 0; i < 5; i++ {
			d := 6
			if r.Thorough() {
				d = 8
			} else if c.name != "both" {
				d = 5
			}
			s = append(s, fmt.Sprintf("%s %d %d", c.name, d, i))
		}
	}
	return s
}

func c33() *eng.Check {
	return &eng.Check{ID: "C33", Level: "model_checking",
		Run: func(r *eng.Run) {
			if err := raced(r); err != nil {
				r.Fail("race", nil, "%v", err)
			}
			scenarios(r, "lock", flScenarios(r), 8)
		},
		ReplayOne: func(r *eng.Run, v *eng.Violation) error {
			if v.Spec == "race" {
				return raced(r)
			}
			return again(r, "lock", v)
		},
	}
}
