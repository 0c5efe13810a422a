package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/hashicorp/go-hclog"
	"github.com/spf13/viper"

	"github.com/netauth/netauth/internal/health"
	"github.com/netauth/netauth/internal/plugin/tree/manager"
	"github.com/netauth/netauth/internal/zverif/eng"
	types "github.com/netauth/protocol"
	rpb "github.com/netauth/protocol/v2"
)

// actions are the points at which a plugin is consulted.
var actions = []string{"EntityCreate", "EntityUpdate", "EntityLock", "EntityUnlock", "EntityDestroy", "GroupCreate", "GroupUpdate", "GroupDestroy", "PreSecretChange", "PostSecretChange", "PreAuthCheck", "PostAuthCheck"}

// pop is an operation together with what the plugins are asked on the way.
type pop struct {
	eng.Op
	acts   []string // in this order, when it succeeds
	target string   // key of the record it is about
	secret string   // secret presented, for authentications
	next   string   // new secret
}

func ekey(id string) string { return "/entities/" + id }
func gkey(n string) string  { return "/groups/" + n }

func meta(display string) func() *types.EntityMeta {
	return func() *types.EntityMeta { return &types.EntityMeta{DisplayName: eng.S(display)} }
}

func plugOps() []pop {
	r := eng.AsRoot
	auth := []string{"PreAuthCheck", "PostAuthCheck"}
	sec := []string{"PreSecretChange", "PostSecretChange"}
	both := append(append([]string{}, auth...), sec...)
	e1, e2, g1 := ekey("e1"), ekey("e2"), gkey("g1")
	upd := []string{"EntityUpdate"}
	gup := []string{"GroupUpdate"}
	return []pop{
		{Op: eng.Auth("e1", "s1"), acts: auth, target: e1, secret: "s1"},
		{Op: eng.Auth("e1", "bad"), acts: auth, target: e1, secret: "bad"},
		{Op: eng.GetToken("e2", "s2"), acts: auth, target: e2, secret: "s2"},
		{Op: eng.Auth("nobody", "s"), acts: auth, target: ekey("nobody"), secret: "s"},
		{Op: eng.ChangeSecret(eng.As("e1"), "e1", "e1", "s1", "s3"), acts: both, target: e1, secret: "s1", next: "s3"},
		{Op: eng.ChangeSecret(eng.As("e1"), "e1", "e1", "bad", "s3"), acts: both, target: e1, secret: "bad", next: "s3"},
		{Op: eng.ChangeSecret(r, "root", "e2", "", "s4"), acts: sec, target: e2, next: "s4"},
		{Op: eng.ChangeSecret(eng.As("e2"), "e2", "e1", "s1", "s4"), acts: sec, target: e1, next: "s4"},
		{Op: eng.EntityCreate(r, "e3", -1, "s"), acts: []string{"EntityCreate"}, target: ekey("e3")},
		{Op: eng.EntityCreate(r, "e1", 99, "s"), acts: []string{"EntityCreate"}, target: e1},
		{Op: eng.EntityCreate(eng.As("e2"), "e4", -1, "s").Named("EntityCreate by e2"), acts: []string{"EntityCreate"}, target: ekey("e4")},
		{Op: eng.EntityDestroy(r, "e1"), acts: []string{"EntityDestroy"}, target: e1},
		{Op: eng.EntityDestroy(r, "e3"), acts: []string{"EntityDestroy"}, target: ekey("e3")},
		{Op: eng.EntityLock(r, "e1"), acts: []string{"EntityLock"}, target: e1},
		{Op: eng.EntityUnlock(r, "e1"), acts: []string{"EntityUnlock"}, target: e1},
		{Op: eng.EntityLock(r, "e2"), acts: []string{"EntityLock"}, target: e2},
		{Op: eng.EntityUpdate(r, "e1", "display", meta("D")), acts: upd, target: e1},
		{Op: eng.EntityUpdate(r, "e2", "display", meta("D")), acts: upd, target: e2},
		{Op: eng.EntityUM(r, "e1", rpb.Action_UPSERT, "k", "v"), acts: upd, target: e1},
		{Op: eng.EntityUM(r, "e2", rpb.Action_CLEARFUZZY, "k", ""), acts: upd, target: e2},
		{Op: eng.EntityUM(r, "e2", rpb.Action_CLEAREXACT, "k{0}", ""), acts: upd, target: e2},
		{Op: eng.EntityUM(r, "e2", rpb.Action_READ, "*", "")},
		{Op: eng.EntityUM(eng.As("e1"), "e2", rpb.Action_UPSERT, "k", "v").Named("EntityUM by e1"), acts: upd, target: e2},
		{Op: eng.EntityKeys(r, "e1", rpb.Action_ADD, "SSH", "ssh-x k")},
		{Op: eng.KV2(r, true, "Add", "e1", "kk", "", "b")},
		{Op: eng.KV2(r, true, "Replace", "e2", "kk", "z")},
		{Op: eng.Member(r, true, "e1", "g1")},
		{Op: eng.Member(r, false, "e2", "g1")},
		{Op: eng.GroupCreate(r, "g3", "G3", "", -1), acts: []string{"GroupCreate"}, target: gkey("g3")},
		{Op: eng.GroupCreate(r, "g1", "again", "", 77), acts: []string{"GroupCreate"}, target: g1},
		{Op: eng.GroupDestroy(r, "g2"), acts: []string{"GroupDestroy"}, target: gkey("g2")},
		{Op: eng.GroupDestroy(r, "g9"), acts: []string{"GroupDestroy"}, target: gkey("g9")},
		{Op: eng.GroupUpdate(r, "g1", "display", func() *types.Group { return &types.Group{DisplayName: eng.S("D")} }), acts: gup, target: g1},
		{Op: eng.GroupUM(r, "g1", rpb.Action_UPSERT, "k", "v"), acts: gup, target: g1},
		{Op: eng.GroupUM(r, "g1", rpb.Action_CLEARFUZZY, "m", ""), acts: gup, target: g1},
		{Op: eng.GroupUM(r, "g1", rpb.Action_CLEAREXACT, "m", ""), acts: gup, target: g1},
		{Op: eng.GroupUM(r, "g1", rpb.Action_READ, "*", "")},
		{Op: eng.Rule(r, "g1", "g2", rpb.RuleAction_EXCLUDE)},
		{Op: eng.Capability(r, true, "e1", rpb.Action_ADD, types.Capability_LOCK_ENTITY)},
		{Op: eng.Capability(r, false, "g1", rpb.Action_ADD, types.Capability_LOCK_ENTITY)},
	}
}

var plugU = eng.Universe{Entities: []string{"e1", "e2", "e3", "e4"}, Groups: []string{"g1", "g2", "g3"}}

// plugStart is the data every run begins with; e1 has never been updated,
// e2 has a little of everything.
func plugStart() *eng.MemKV {
	w := eng.NewWorld(eng.Config{})
	r := eng.AsRoot
	for _, o := range []eng.Op{
		eng.GroupCreate(r, "g1", "", "", 10),
		eng.GroupCreate(r, "g2", "G2", "g1", -1),
		eng.GroupUM(r, "g1", rpb.Action_UPSERT, "m", ""),
		eng.GroupUM(r, "g1", rpb.Action_UPSERT, "m{1}", "x"),
		eng.KV2(r, false, "Add", "g1", "gk", "", "a", ""),
		eng.Rule(r, "g1", "g2", rpb.RuleAction_INCLUDE),
		eng.Capability(r, false, "g1", rpb.Action_ADD, types.Capability_CREATE_ENTITY),
		eng.EntityCreate(r, "e1", 1, "s1"),
		eng.EntityCreate(r, "e2", 2, "s2"),
		eng.Member(r, true, "e2", "g1"),
		eng.Member(r, true, "e2", "g2"),
		eng.EntityUpdate(r, "e2", "all", func() *types.EntityMeta {
			return &types.EntityMeta{DisplayName: eng.S("E2"), GECOS: eng.S("a:b"), LegalName: eng.S(""), Shell: eng.S("/bin/sh"), PrimaryGroup: eng.S("g1")}
		}),
		eng.EntityUM(r, "e2", rpb.Action_UPSERT, "k{0}", ""),
		eng.EntityUM(r, "e2", rpb.Action_UPSERT, "k", "v:w"),
		eng.EntityKeys(r, "e2", rpb.Action_ADD, "SSH", "ssh-a b"),
		eng.KV2(r, true, "Add", "e2", "kk", "", "b", "a"),
		eng.Capability(r, true, "e2", rpb.Action_ADD, types.Capability_GLOBAL_ROOT),
		eng.Capability(r, true, "e2", rpb.Action_ADD, types.Capability_CREATE_ENTITY),
		eng.EntityLock(r, "e2"),
		eng.EntityUnlock(r, "e2"),
	} {
		if res := o.Do(w); !res.OK() {
			eng.SetupTrouble(o.Name + ": " + res.Code.String() + " " + res.Msg)
		}
	}
	return w.KV
}

// plugged is the state of one scenario's process.
type plugged struct {
	rep      *report
	dir      string
	m        manager.Manager
	paths    []string // of the plugins
	ops      []pop
	deadline time.Time
}

func (p *plugged) expired() bool {
	if time.Now().After(p.deadline) {
		p.rep.Complete = false
		return true
	}
	return false
}

// control prescribes what plugin i does.
func (p *plugged) control(i int, c map[string]string) {
	b, _ := json.Marshal(c)
	if err := os.WriteFile(p.paths[i]+".ctl", b, 0600); err != nil {
		panic(err)
	}
}

func (p *plugged) controlAll(c map[string]string) {
	for i := range p.paths {
		p.control(i, c)
	}
}

type called struct {
	action string
	e, de  proto.Message
}

// calls returns what plugin i was asked since the last time.
func (p *plugged) calls(i int) []called {
	b, err := os.ReadFile(p.paths[i] + ".log")
	if err != nil || len(b) == 0 {
		return nil
	}
	os.Truncate(p.paths[i]+".log", 0)
	var out []called
	for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		var c struct{ Action, E, DE string }
		if err := json.Unmarshal([]byte(l), &c); err != nil {
			panic(err)
		}
		dec := func(s string, m proto.Message) proto.Message {
			b, err := base64.StdEncoding.DecodeString(s)
			if err != nil || proto.Unmarshal(b, m) != nil {
				return &types.Entity{ID: eng.S("undecodable " + s)}
			}
			return m
		}
		x := called{action: c.Action}
		if strings.HasPrefix(c.Action, "Group") {
			x.e = dec(c.E, &types.Group{})
		} else {
			x.e = dec(c.E, &types.Entity{})
		}
		if c.DE != "" {
			x.de = dec(c.DE, &types.Entity{})
		}
		out = append(out, x)
	}
	return out
}

func (p *plugged) world(kv *eng.MemKV) *eng.World {
	w := eng.NewWorld(eng.Config{KV: kv})
	p.m.ConfigureEntityChains(w.Tree.RegisterEntityHookToChain)
	p.m.ConfigureGroupChains(w.Tree.RegisterGroupHookToChain)
	return w
}

// outcome of an operation on plugged and on a plain server.
type outcome struct {
	pre, with, base map[string]proto.Message
	view            string // of the plain server before
	after           string // and afterwards
	w               *eng.World
	rw, rb          eng.Res
}

// plain is what an operation does without plugins.
type plain struct {
	res         eng.Res
	view, after string
	kv          *eng.MemKV
}

var plains = map[string]*plain{}

func without(kv *eng.MemKV, o pop) *plain {
	k := text(stored(kv)) + o.Name
	if x := plains[k]; x != nil {
		return x
	}
	w := eng.NewWorld(eng.Config{KV: kv.Clone()})
	x := &plain{view: w.Observe(plugU).String()}
	x.res = o.Do(w)
	x.after, x.kv = w.Observe(plugU).String(), w.KV
	plains[k] = x
	return x
}

func (p *plugged) step(kv *eng.MemKV, o pop, trace []string) *outcome {
	x := &outcome{pre: stored(kv)}
	x.w = p.world(kv.Clone())
	y := without(kv, o)
	for i := range p.paths {
		p.calls(i)
	}
	var err error
	x.rw, err = eng.Guarded(func() eng.Res { return o.Do(x.w) })
	if err != nil {
		p.rep.fail(trace, "%s takes the server down: %v", o.Name, err)
		return nil
	}
	x.rb, x.view, x.after = y.res, y.view, y.after
	x.with, x.base = stored(x.w.KV), stored(y.kv)
	p.rep.Trans++
	return x
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// refused checks that the operation failed and left no trace.
func (p *plugged) refused(o pop, x *outcome, trace []string, why string) {
	if x.rw.OK() {
		p.rep.fail(trace, "%s succeeds although %s", o.Name, why)
		return
	}
	if a, b := text(x.pre), text(x.with); a != b {
		p.rep.fail(trace, "%s fails (%s) but changes what is stored: %s", o.Name, why, eng.Diff(a, b))
		return
	}
	if a, b := x.w.Observe(plugU).String(), x.view; a != b {
		p.rep.fail(trace, "%s fails (%s) but the server now answers differently: %s", o.Name, why, eng.Diff(b, a))
	}
}

// same checks that the operation did what it does without plugins, apart
// from what edit does to the record it is about.
func (p *plugged) same(o pop, x *outcome, trace []string, why string, edit func(m proto.Message)) {
	if x.rw.Code != x.rb.Code || edit == nil && x.rw.Data != x.rb.Data {
		p.rep.fail(trace, "%s answers %s (%s), without plugins %s; %s", o.Name, x.rw, x.rw.Msg, x.rb, why)
		return
	}
	if m := x.base[o.target]; edit != nil && m != nil && x.rb.OK() {
		edit(m)
	}
	if a, b := text(x.base), text(x.with); a != b {
		p.rep.fail(trace, "%s leaves something else than it should; %s: %s", o.Name, why, eng.Diff(a, b))
		return
	}
	want := x.after
	if edit != nil && x.rb.OK() {
		kv := eng.NewMemKV()
		for k, m := range x.base {
			b, _ := proto.Marshal(m)
			kv.SetRaw(k, b)
		}
		want = eng.NewWorld(eng.Config{KV: kv}).Observe(plugU).String()
	}
	if a, b := x.w.Observe(plugU).String(), want; a != b {
		p.rep.fail(trace, "after %s the server answers differently than it should; %s: %s", o.Name, why, eng.Diff(b, a))
	}
}

// onlyWhatHappened checks the calls the plugins got under an operation.
func (p *plugged) onlyWhatHappened(o pop, x *outcome, trace []string) {
	for i := range p.paths {
		var got []string
		cs := p.calls(i)
		for _, c := range cs {
			got = append(got, c.action)
		}
		if !x.rb.OK() {
			// A refused request is none of the plugins' business,
			// except that an authentication is announced.
			for _, a := range got {
				if a != "PreAuthCheck" || !has(o.acts, a) {
					p.rep.fail(trace, "%s is refused (%s) and yet the plugin is told %s", o.Name, x.rb.Code, a)
				}
			}
			continue
		}
		if fmt.Sprint(got) != fmt.Sprint(o.acts) {
			p.rep.fail(trace, "%s: the plugin is told %v, not %v", o.Name, got, o.acts)
			continue
		}
		for _, c := range cs {
			want := x.with[o.target]
			switch c.action {
			case "PreAuthCheck", "PostAuthCheck", "PreSecretChange", "EntityDestroy", "GroupDestroy":
				want = x.pre[o.target]
			}
			if a, b := render(want), render(c.e); a != b {
				p.rep.fail(trace, "%s: under %s the plugin is shown %s", o.Name, c.action, eng.Diff(a, b))
			}
			if c.de != nil {
				sec, want := c.de.(*types.Entity).GetSecret(), ""
				switch c.action {
				case "PreAuthCheck", "PostAuthCheck":
					want = o.secret
				case "PreSecretChange", "PostSecretChange":
					want = o.next
				default:
					continue
				}
				if sec != want {
					p.rep.fail(trace, "%s: under %s the plugin is given the secret %q, not %q", o.Name, c.action, sec, want)
				}
			}
		}
	}
}

// reach enumerates every state within depth steps under passive plugins,
// checking every step.
type pstate struct {
	kv    *eng.MemKV
	trace []string
}

func (p *plugged) reach(depth int) []pstate {
	p.controlAll(nil)
	start := pstate{kv: plugStart()}
	all := []pstate{start}
	seen := map[string]bool{text(stored(start.kv)): true}
	level := all
	for d := 0; d < depth; d++ {
		var next []pstate
		for _, s := range level {
			for _, o := range p.ops {
				if p.expired() {
					return all
				}
				x := p.step(s.kv, o, s.trace)
				if x == nil {
					continue
				}
				p.same(o, x, s.trace, "the plugins do nothing", nil)
				p.onlyWhatHappened(o, x, s.trace)
				if k := text(x.with); !seen[k] {
					seen[k] = true
					next = append(next, pstate{x.w.KV, append(append([]string{}, s.trace...), o.Name)})
				}
			}
		}
		all = append(all, next...)
		level = next
		p.rep.Samples = append(p.rep.Samples, fmt.Sprintf("%d states at depth %d", len(next), d+1))
	}
	p.rep.States += int64(len(all))
	return all
}

func edits(mode, name, action string) func(proto.Message) {
	return func(m proto.Message) {
		switch x := m.(type) {
		case *types.Entity:
			if x.Meta == nil {
				x.Meta = &types.EntityMeta{}
			}
			switch mode {
			case "tag":
				x.Meta.UntypedMeta = append(x.Meta.UntypedMeta, name+":"+action)
			case "strip":
				x.Meta.UntypedMeta, x.Meta.Groups, x.Meta.KV = nil, nil, nil
			case "lock":
				x.Meta.Locked = proto.Bool(true)
			}
		case *types.Group:
			switch mode {
			case "tag":
				x.UntypedMeta = append(x.UntypedMeta, name+":"+action)
			case "strip":
				x.UntypedMeta, x.KV = nil, nil
			}
		}
	}
}

func pluginDown(n string) (down bool, listed bool) {
	for _, s := range health.Check().Subsystems {
		if s.Name == "plugin-"+n {
			return !s.OK, true
		}
	}
	return false, false
}

func running(path string) []int {
	var out []int
	l, _ := filepath.Glob("/proc/[0-9]*")
	for _, d := range l {
		if exe, err := os.Readlink(d + "/exe"); err == nil && exe == path {
			if b, err := os.ReadFile(d + "/stat"); err == nil && strings.Contains(string(b), ") Z ") {
				continue
			}
			n, _ := strconv.Atoi(filepath.Base(d))
			out = append(out, n)
		}
	}
	return out
}

// plugChild runs one scenario: plug SCENARIO TIER DIR SECONDS.
func plugChild(args []string) {
	scen, tier, dir := args[0], args[1], args[2]
	secs, _ := strconv.Atoi(args[3])
	eng.Setup()
	debug.SetGCPercent(1600)
	debug.SetMemoryLimit(2 << 30)
	p := &plugged{rep: &report{Complete: true}, dir: dir, ops: plugOps(), deadline: time.Now().Add(time.Duration(secs) * time.Second)}
	hclog.SetDefault(hclog.NewNullLogger())
	thorough := tier == "thorough"
	f := strings.Fields(scen)
	n := 1
	switch f[0] {
	case "null":
		n, _ = strconv.Atoi(f[1])
	case "refuse", "modify", "mixed":
		n, _ = strconv.Atoi(f[1])
	case "start", "twins":
		n = 2
	}
	home := filepath.Join(dir, "home")
	pd := filepath.Join(home, "plugins")
	os.MkdirAll(pd, 0755)
	var list []string
	for i := 0; i < n; i++ {
		path := filepath.Join(pd, fmt.Sprintf("p%d.treeplugin", i))
		if f[0] == "twins" {
			// One name, two places.
			path = filepath.Join(pd, fmt.Sprint("d", i), "p0.treeplugin")
			os.MkdirAll(filepath.Dir(path), 0755)
		}
		if out, err := exec.Command("cp", os.Getenv("ZV_TESTPLUGIN"), path).CombinedOutput(); err != nil {
			panic(string(out))
		}
		p.paths = append(p.paths, path)
		list = append(list, path)
	}
	viper.Set("core.home", home)
	if f[0] == "twice" {
		list = append(list, list...)
	}
	if len(f) > 2 && f[2] == "static" {
		viper.Set("plugin.loadstatic", true)
		viper.Set("plugin.list", list)
	} else {
		viper.Set("plugin.path", "plugins")
	}
	if f[0] == "start" {
		switch f[1] {
		case "exit", "garbage":
			p.control(1, map[string]string{"start": f[1]})
		case "noexec":
			os.Chmod(p.paths[1], 0644)
		case "text":
			os.WriteFile(p.paths[1], []byte("not a program\n"), 0755)
		}
	}
	var err error
	p.m, err = manager.New(hclog.NewNullLogger())
	if err != nil {
		panic(err)
	}
	p.m.LoadPlugins()
	p.m.RegisterEntityHooks()
	p.m.RegisterGroupHooks()
	defer func() {
		p.m.Shutdown()
		for _, path := range p.paths {
			for i := 0; len(running(path)) > 0; i++ {
				if i > 50 {
					p.rep.fail(nil, "the plugin still runs after the shutdown")
					break
				}
				time.Sleep(20 * time.Millisecond)
			}
		}
		p.rep.print()
		os.Exit(0)
	}()
	names := func(i int) string { return filepath.Base(p.paths[i]) }
	short := func(i int) string { return strings.TrimSuffix(names(i), ".treeplugin") }
	if f[0] == "start" {
		// One of the two does not come up: the other one works, and the
		// report tells.
		p.paths, list = p.paths[:1], p.paths
		p.control(0, map[string]string{"EntityLock": "error"})
		kv := plugStart()
		for _, o := range p.ops {
			x := p.step(kv, o, nil)
			if x == nil {
				continue
			}
			if x.rb.OK() && has(o.acts, "EntityLock") {
				p.refused(o, x, nil, "the plugin refuses EntityLock")
			}
		}
		w := p.world(kv.Clone())
		res, err := eng.Guarded(func() eng.Res {
			r, err := w.Srv.SystemStatus(eng.Ctx(""), &rpb.Empty{})
			return eng.R(err, r.String())
		})
		if err != nil {
			p.rep.fail(nil, "asking for the status takes the server down when a plugin has not started: %v", err)
			return
		}
		_, listed := pluginDown("p1")
		if f[1] != "noexec" || listed {
			if down, _ := pluginDown("p1"); !down {
				p.rep.fail(nil, "the status does not report that a plugin has not started: %s", res.Data)
			}
		}
		if down, listed := pluginDown("p0"); down || !listed {
			p.rep.fail(nil, "the status does not report the running plugin as running")
		}
		return
	}
	if f[0] == "twice" {
		for i := range p.paths {
			if l := running(p.paths[i]); len(l) != 1 {
				p.rep.fail(nil, "a plugin that is listed twice runs %d times", len(l))
			}
		}
	}
	for i := range p.paths {
		if down, listed := pluginDown(short(i)); down || !listed {
			p.rep.fail(nil, "plugin %s does not run after the start", names(i))
			return
		}
	}
	switch f[0] {
	case "twins":
		// Whichever of them dies is missed.
		i, _ := strconv.Atoi(f[1])
		status := func() bool {
			w := p.world(plugStart())
			r, err := w.Srv.SystemStatus(eng.Ctx(""), &rpb.Empty{})
			p.rep.Trans++
			return err == nil && r.GetSystemOK()
		}
		if !status() {
			p.rep.fail(nil, "the status is not fine with two plugins of one name running")
		}
		for _, pid := range running(p.paths[i]) {
			syscall.Kill(pid, syscall.SIGKILL)
		}
		for len(running(p.paths[i])) > 0 {
			time.Sleep(10 * time.Millisecond)
		}
		if status() {
			p.rep.fail(nil, "the status is fine after plugin %d of the two that have one name died", i+1)
		}
		p.rep.States += 2
	case "twice":
		p.reach(1)
	case "null":
		d := 2
		if thorough && n != 2 {
			d = 3
		}
		p.reach(d)
	case "refuse":
		d := 1
		if thorough {
			d = 2
		}
		all := p.reach(d)
		for _, a := range f[3:] {
			for i := range p.paths {
				p.controlAll(nil)
				p.control(i, map[string]string{a: "error"})
				for _, s := range all {
					for _, o := range p.ops {
						if p.expired() {
							return
						}
						// Elsewhere it has nothing to say.
						if !has(o.acts, a) && len(s.trace) > 0 && !thorough {
							continue
						}
						x := p.step(s.kv, o, s.trace)
						if x == nil {
							continue
						}
						why := fmt.Sprintf("plugin %d of %d refuses %s", i+1, n, a)
						switch {
						case !x.rb.OK():
							p.refused(o, x, s.trace, "it fails without plugins")
						case has(o.acts, a):
							p.refused(o, x, s.trace, why)
						default:
							p.same(o, x, s.trace, why, nil)
						}
					}
				}
			}
		}
	case "modify":
		d := 1
		if thorough {
			d = 2
		}
		all := p.reach(d)
		for _, mode := range []string{"tag", "strip", "lock"} {
			for _, a := range f[3:] {
				p.controlAll(map[string]string{a: mode})
				for _, s := range all {
					for _, o := range p.ops {
						if p.expired() {
							return
						}
						// Elsewhere it has nothing to say.
						if !has(o.acts, a) && len(s.trace) > 0 && !thorough {
							continue
						}
						x := p.step(s.kv, o, s.trace)
						if x == nil {
							continue
						}
						why := fmt.Sprintf("%d plugin(s) do %s at %s", n, mode, a)
						switch {
						case !x.rb.OK():
							p.refused(o, x, s.trace, "it fails without plugins")
						case !has(o.acts, a):
							p.same(o, x, s.trace, why, nil)
						case mode == "lock" && a == "PreAuthCheck":
							p.refused(o, x, s.trace, "the plugin locks the entity before the authentication")
						default:
							p.same(o, x, s.trace, why, func(m proto.Message) {
								for i := range p.paths {
									edits(mode, names(i), a)(m)
								}
							})
						}
					}
				}
			}
		}
	case "crash", "killed":
		kv := plugStart()
		var as []string
		if f[0] == "crash" {
			as = f[1:2]
			p.control(0, map[string]string{f[1]: "crash"})
			for _, o := range p.ops {
				if !has(o.acts, f[1]) {
					continue
				}
				x := p.step(kv, o, nil)
				if x == nil || !x.rb.OK() {
					continue
				}
				p.refused(o, x, nil, "the plugin dies at "+f[1])
				break
			}
		} else {
			for _, pid := range running(p.paths[0]) {
				syscall.Kill(pid, syscall.SIGKILL)
			}
			for len(running(p.paths[0])) > 0 {
				time.Sleep(10 * time.Millisecond)
			}
		}
		_ = as
		for _, o := range p.ops {
			x := p.step(kv, o, nil)
			if x == nil {
				continue
			}
			switch {
			case !x.rb.OK():
				p.refused(o, x, nil, "it fails without plugins")
			case len(o.acts) > 0:
				p.refused(o, x, nil, "the plugin is dead")
			default:
				p.same(o, x, nil, "the plugin is dead", nil)
			}
		}
		w := p.world(kv.Clone())
		var ok bool
		_, err := eng.Guarded(func() eng.Res {
			r, err := w.Srv.SystemStatus(eng.Ctx(""), &rpb.Empty{})
			ok = r.GetSystemOK()
			return eng.R(err)
		})
		if err != nil {
			p.rep.fail(nil, "asking for the status takes the server down when a plugin is dead: %v", err)
		} else if down, _ := pluginDown(short(0)); !down || ok {
			p.rep.fail(nil, "the status does not report that the plugin is dead")
		}
	}
}

func plugScenarios() []string {
	var s []string
	for _, x := range []string{"exit", "garbage", "noexec", "text"} {
		s = append(s, "start "+x)
	}
	s = append(s, "killed x", "twins 0 static", "twins 1 static", "twice x static")
	for _, a := range actions {
		s = append(s, "crash "+a)
	}
	s = append(s, "null 0", "null 1", "null 1 static", "null 2")
	for _, n := range []string{"1", "2"} {
		for _, a := range actions {
			s = append(s, "refuse "+n+" auto "+a, "modify "+n+" auto "+a)
		}
	}
	return s
}

func c32() *eng.Check {
	return &eng.Check{ID: "C32", Level: "model_checking",
		Run:       func(r *eng.Run) { scenarios(r, "plug", plugScenarios(), 8) },
		ReplayOne: func(r *eng.Run, v *eng.Violation) error { return again(r, "plug", v) },
	}
}
