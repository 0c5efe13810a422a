package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unicode/utf8"

	"github.com/golang/protobuf/proto"

	"github.com/netauth/netauth/internal/zverif/eng"

	types "github.com/netauth/protocol"
	rpb "github.com/netauth/protocol/v2"
)

// A request that uses an odd name must do to that name exactly what the
// same request does to an ordinary one, or nothing.  Each history is
// performed twice, with odd names and with ordinary ones in their place, and
// everything that can be observed is compared with the names exchanged.

func oddNames() []string {
	return []string{
		"", ".", "..", "/", "//", "./e1", "e1/", "/e1", "e1/.", "x/../e1", "../e1", "../entities/e1", "../groups/g1", "../groups/new", "../new",
		"../../new", "../../../new", "../../../../new", "../../kv/entities/e1", "../../bc/config.json", "../../keys/token.key", "..\\e1", "a/b", "e1/b", "entities/e1",
		"E1", "e1 ", " e1", "e1\n", "e1\x00", "e1\x00x", "\x00", "e", "e1x", "*", "e*", "?1", "e?", "[e]1", "[", "e[", "\\e1", "e1\\",
		".e1", ".e1123", "..e1", "...", "~", "~root", "-", "--help", "$HOME", "%2e%2e", "e1,e2", "e1:e2", "INCLUDE:g1", "EXCLUDE:g1", "g1:x", ":", "g1|", "(g1)", "!g1", "&", "g1&g2",
		"\xff", "\xc0\xae\xc0\xae/e1", "é", "e\u0301", "null", "0", "true", "GLOBAL_ROOT", "root ", "ROOT",
		"e1.dat", "e1.tmp", "e1.json", "e1~", "e1.", strings.Repeat("n", 200), strings.Repeat("n", 300), strings.Repeat("n", 2000), strings.Repeat("../", 3) + strings.Repeat("n", 300),
	}
}

// few are those used as the first of two names.
func fewNames() []string {
	return []string{"E1", "e1 ", "e*", ".e1", "e1:e2"}
}

const firstName, secondName = "ordinary", "plain"

func meta() *types.EntityMeta { return &types.EntityMeta{DisplayName: eng.S("d")} }

// nameOps are the requests that take a name.
func nameOps(m string) []eng.Op {
	up := rpb.Action_UPSERT
	l := []eng.Op{
		eng.EntityCreate(root, m, -1, "a"),
		eng.EntityDestroy(root, m),
		eng.EntityLock(root, m),
		eng.EntityUpdate(root, m, "display name", meta),
		eng.ChangeSecret(root, "root", m, "", "b"),
		eng.ChangeSecret(eng.As(m), "itself", m, "a", "b"),
		eng.EntityUM(root, m, up, "k", "v"),
		eng.EntityKeys(root, m, rpb.Action_ADD, "SSH", "key"),
		eng.KV2(root, true, "Add", m, "k", "v"),
		eng.Member(root, true, m, "g1"),
		eng.Member(root, true, "e1", m),
		eng.Member(root, false, "e2", m),
		eng.Capability(root, true, m, rpb.Action_ADD, types.Capability_CREATE_ENTITY),
		eng.GroupCreate(root, m, "d", "", -1),
		eng.GroupCreate(root, "managed", "d", m, -1),
		eng.GroupDestroy(root, m),
		eng.GroupUpdate(root, m, "display name", func() *types.Group { return &types.Group{DisplayName: eng.S("dd")} }),
		eng.GroupUM(root, m, up, "k", "v"),
		eng.KV2(root, false, "Add", m, "k", "v"),
		eng.Rule(root, m, "g1", rpb.RuleAction_INCLUDE),
		eng.Rule(root, "g1", m, rpb.RuleAction_INCLUDE),
		eng.Rule(root, "g2", m, rpb.RuleAction_EXCLUDE),
		eng.Rule(root, "g1", m, rpb.RuleAction_REMOVE_RULE),
		eng.Capability(root, false, m, rpb.Action_ADD, types.Capability_CREATE_ENTITY),
	}
	return l
}

// first are the ways in which the first name comes to exist.
func firstOps(n string) [][]eng.Op {
	return [][]eng.Op{
		{eng.EntityCreate(root, n, -1, "a"), eng.Member(root, true, n, "g2")},
		{eng.GroupCreate(root, n, "d", "", -1), eng.Member(root, true, "e2", n)},
	}
}

func base(w *eng.World) {
	for _, o := range []eng.Op{
		eng.EntityCreate(root, "e1", -1, "a"),
		eng.EntityCreate(root, "e2", -1, "a"),
		eng.GroupCreate(root, "g1", "d", "", -1),
		eng.GroupCreate(root, "g2", "d", "", -1),
		eng.Member(root, true, "e1", "g1"),
		eng.Member(root, true, "e2", "g2"),
	} {
		if r := o.Do(w); !r.OK() {
			panic(fmt.Sprintf("%s: %s", o.Name, r))
		}
	}
}

// roles translates names to what they stand for.
type roles map[string]string

func (ro roles) of(s string) string {
	if r, ok := ro[s]; ok {
		return r
	}
	return s
}

func rolesOf(n, m string) roles {
	if n == m {
		return roles{n: "<N>"}
	}
	return roles{n: "<N>", m: "<M>"}
}

// rules are stored as the action, a colon and the name.
func (ro roles) rule(s string) string {
	if i := strings.Index(s, ":"); i > 0 {
		return s[:i+1] + ro.of(s[i+1:])
	}
	return s
}

func (ro roles) entity(e *types.Entity) string {
	e = proto.Clone(e).(*types.Entity)
	e.ID = eng.S(ro.of(e.GetID()))
	e.Secret = nil
	if e.Meta != nil {
		for i, g := range e.Meta.Groups {
			e.Meta.Groups[i] = ro.of(g)
		}
		sort.Strings(e.Meta.Groups)
	}
	return e.String()
}

func (ro roles) group(g *types.Group) string {
	g = proto.Clone(g).(*types.Group)
	g.Name = eng.S(ro.of(g.GetName()))
	if g.ManagedBy != nil {
		g.ManagedBy = eng.S(ro.of(g.GetManagedBy()))
	}
	for i, x := range g.Expansions {
		g.Expansions[i] = ro.rule(x)
	}
	sort.Strings(g.Expansions)
	return g.String()
}

// observe lists everything the server answers about the names.
func observeNames(w *eng.World, n, m string) []string {
	c := eng.Ctx("")
	ro := rolesOf(n, m)
	var out []string
	add := func(f string, a ...interface{}) { out = append(out, fmt.Sprintf(f, a...)) }
	list := func(what string, l []string, err error) {
		sort.Strings(l)
		add("%s: %v %s", what, eng.R(err).OK(), strings.Join(l, "; "))
	}
	ents := func(l []*types.Entity) (s []string) {
		for _, e := range l {
			s = append(s, ro.entity(e))
		}
		return
	}
	grps := func(l []*types.Group) (s []string) {
		for _, g := range l {
			s = append(s, ro.group(g))
		}
		return
	}
	ids := []string{"e1", "e2", n}
	names := []string{"g1", "g2", n}
	if n != m {
		ids, names = append(ids, m), append(names, m)
	}
	for _, id := range ids {
		r, err := w.Srv.EntityInfo(c, &rpb.EntityRequest{Entity: &types.Entity{ID: eng.S(id)}})
		list("entity "+ro.of(id), ents(r.GetEntities()), err)
		r2, err := w.Srv.EntityGroups(c, &rpb.EntityRequest{Entity: &types.Entity{ID: eng.S(id)}})
		list("groups of "+ro.of(id), grps(r2.GetGroups()), err)
		add("token of %s: %v", ro.of(id), eng.GetToken(id, "a").Do(w).OK())
		if id == m {
			add("%s with b: %v", ro.of(id), eng.Auth(id, "b").Do(w).OK())
		}
	}
	for _, g := range append(names, "managed") {
		r, err := w.Srv.GroupInfo(c, &rpb.GroupRequest{Group: &types.Group{Name: eng.S(g)}})
		list("group "+ro.of(g), grps(r.GetGroups()), err)
		list("managed by "+ro.of(g), grps(r.GetGroups()), err)
		r2, err := w.Srv.GroupMembers(c, &rpb.GroupRequest{Group: &types.Group{Name: eng.S(g)}})
		list("members of "+ro.of(g), ents(r2.GetEntities()), err)
	}
	r, err := w.Srv.EntitySearch(c, &rpb.SearchRequest{Expression: eng.S("*")})
	list("all entities", ents(r.GetEntities()), err)
	r2, err := w.Srv.GroupSearch(c, &rpb.SearchRequest{Expression: eng.S("*")})
	list("all groups", grps(r2.GetGroups()), err)
	// What is stored, and under which key.
	cont, err := content(w.Cfg.KV)
	if err != nil {
		add("the store: %v", err)
		return out
	}
	var keys []string
	for k, v := range cont {
		switch {
		case strings.HasPrefix(k, "/entities/"):
			e := &types.Entity{}
			if err := proto.Unmarshal(v, e); err != nil || k != "/entities/"+e.GetID() {
				add("there is something else at %q", k)
			}
			keys = append(keys, "/entities/"+ro.of(e.GetID())+" "+ro.entity(e))
		case strings.HasPrefix(k, "/groups/"):
			g := &types.Group{}
			if err := proto.Unmarshal(v, g); err != nil || k != "/groups/"+g.GetName() {
				add("there is something else at %q", k)
			}
			keys = append(keys, "/groups/"+ro.of(g.GetName())+" "+ro.group(g))
		default:
			add("there is something at %q", k)
		}
	}
	list("stored", keys, nil)
	return out
}

func differs(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "", ""
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("%s\n    instead of %s", short(x), short(y))
		}
	}
	return ""
}

func short(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

// arena is where a store lives during one history: well inside a directory
// of its own, so that something that climbs out of it is noticed.
type arena struct {
	dir, home string
	kind      string
}

const depthOfHome = "1/2/3/4/5/home"

var canaries = []string{"e1", "g1", "1/e1", "1/2/3/new1", "1/2/3/4/5/e1", "1/2/3/4/5/home/keys/token.key", "1/2/3/4/5/home/entities/e1", "1/2/3/4/entities/e1"}

func newArena(kind, dir, template string) (*arena, error) {
	a := &arena{dir: dir, home: filepath.Join(dir, depthOfHome), kind: kind}
	if err := os.MkdirAll(a.home, 0755); err != nil {
		return nil, err
	}
	for _, c := range canaries {
		p := filepath.Join(dir, c)
		os.MkdirAll(filepath.Dir(p), 0755)
		if err := os.WriteFile(p, []byte("canary"), 0644); err != nil {
			return nil, err
		}
	}
	if template != "" {
		return a, copyTree(filepath.Join(template, depthOfHome), a.home)
	}
	return a, nil
}

// outside lists everything that is not the store's.
func (a *arena) outside() string {
	var l []string
	filepath.Walk(a.dir, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			l = append(l, p+" "+err.Error())
			return nil
		}
		r, _ := filepath.Rel(a.dir, p)
		if r == filepath.Join(depthOfHome, "kv") || r == filepath.Join(depthOfHome, "bc") {
			return filepath.SkipDir
		}
		if i.IsDir() {
			l = append(l, r+"/")
			return nil
		}
		b, _ := os.ReadFile(p)
		l = append(l, r+" "+string(b))
		return nil
	})
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func (a *arena) open() (*eng.World, error) {
	if a.kind == "memory" {
		kv, err := open("memory", a.home)
		if err != nil {
			return nil, err
		}
		return eng.NewWorld(eng.Config{KV: kv}), nil
	}
	return world(a.kind, a.home)
}

// outcome is what a history came to.
type outcome struct {
	made   bool // the first name exists
	ok     bool
	code   string
	before []string
	after  []string
	again  []string // after a restart
}

// nameCase is a history: a first name that comes to exist in way 0 or 1 (or
// not at all, -1), and then request op with the second name.
type nameCase struct {
	Kind string
	N, M string // names, as in the source of a program
	Way  int
	Op   int
}

func (c nameCase) String() string {
	s := fmt.Sprintf("on %s: ", c.Kind)
	if c.Way >= 0 {
		for _, o := range firstOps(c.N)[c.Way] {
			s += o.Name + "; "
		}
	}
	return s + nameOps(c.M)[c.Op].Name
}

// MarshalJSON keeps names that are not text as they are.
func (c nameCase) MarshalJSON() ([]byte, error) { return json.Marshal(c.trace()) }

// UnmarshalJSON is the opposite.
func (c *nameCase) UnmarshalJSON(b []byte) error {
	var l []string
	if err := json.Unmarshal(b, &l); err != nil {
		return err
	}
	*c = nameCaseOf(l)
	return nil
}

func nameCaseOf(l []string) nameCase {
	op, _ := strconv.Atoi(l[4])
	way, _ := strconv.Atoi(l[3])
	n, _ := strconv.Unquote(l[1])
	m, _ := strconv.Unquote(l[2])
	return nameCase{l[0], n, m, way, op}
}

func (c nameCase) trace() []string {
	return []string{c.Kind, strconv.Quote(c.N), strconv.Quote(c.M), strconv.Itoa(c.Way), strconv.Itoa(c.Op)}
}

func (c nameCase) run(dir, template string) (o outcome, err error) {
	defer os.RemoveAll(dir)
	a, err := newArena(c.Kind, dir, template)
	if err != nil {
		return o, nil
	}
	out := a.outside()
	w, err := a.open()
	if err != nil {
		return o, err
	}
	defer func() { w.Cfg.KV.Close() }()
	if c.Kind == "memory" {
		base(w)
	}
	if c.Way >= 0 {
		pre := observeNames(w, c.N, c.M)
		l := firstOps(c.N)[c.Way]
		r := l[0].Do(w)
		if o.made = r.OK(); o.made {
			for _, x := range l[1:] {
				if r := x.Do(w); !r.OK() {
					return o, fmt.Errorf("%s answers %s", x.Name, r)
				}
			}
		} else if d := differs(observeNames(w, c.N, c.M), pre); d != "" {
			return o, fmt.Errorf("%s is refused, but changes something: %s", l[0].Name, d)
		}
	}
	o.before = observeNames(w, c.N, c.M)
	r := nameOps(c.M)[c.Op].Do(w)
	o.ok, o.code = r.OK(), r.Code.String()
	o.after = observeNames(w, c.N, c.M)
	if c.Kind == "memory" {
		o.again = o.after
		return o, nil
	}
	if !o.made && differs(o.before, o.after) == "" {
		// Nothing has happened that a restart could change.
		o.again = o.after
		if now := a.outside(); now != out {
			return o, fmt.Errorf("something outside the store has changed: %s", eng.Diff(out, now))
		}
		return o, nil
	}
	w.DB.Shutdown()
	nw, err := a.open()
	if err != nil {
		return o, fmt.Errorf("the server does not start again: %v", err)
	}
	w = nw
	o.again = observeNames(w, c.N, c.M)
	if now := a.outside(); now != out {
		return o, fmt.Errorf("something outside the store has changed: %s", eng.Diff(out, now))
	}
	return o, nil
}

// decide runs a case and its ordinary counterpart.
func decide(c nameCase, dir, template string, ordinary func(nameCase) outcome) error {
	var o outcome
	var err error
	func() {
		defer func() {
			if p := recover(); p != nil {
				err = fmt.Errorf("panic: %v", p)
			}
		}()
		o, err = c.run(dir, template)
	}()
	if err != nil {
		return err
	}
	if o.before == nil {
		return nil
	}
	if d := differs(o.again, o.after); d != "" {
		return fmt.Errorf("after a restart: %s", d)
	}
	if !o.ok {
		if d := differs(o.after, o.before); d != "" {
			return fmt.Errorf("it is refused, but changes something: %s", d)
		}
	}
	twin := nameCase{Kind: c.Kind, N: firstName, M: secondName, Way: c.Way, Op: c.Op}
	if c.N == c.M {
		twin.M = firstName
	}
	if !o.made {
		twin.Way = -1
	}
	t := ordinary(twin)
	if d := differs(o.before, t.before); d != "" {
		return fmt.Errorf("before the request: %s", d)
	}
	if c.M == "" {
		return nil // no name at all, which some requests may contain
	}
	known := o.made && c.N == c.M
	if !o.ok && !known {
		return nil // a name that does not exist, or that is not accepted
	}
	if o.code != t.code {
		return fmt.Errorf("it is answered with %s, but with %s if the names are ordinary", o.code, t.code)
	}
	if d := differs(o.after, t.after); d != "" {
		return fmt.Errorf("afterwards: %s", d)
	}
	return nil
}

type namesReport struct {
	Cases, Total int64
	Ordinary     int
	Samples      []string
	Fails        []namesFail
}

type namesFail struct {
	Case nameCase
	Msg  string
}

func nameCases(thorough bool) []nameCase {
	var l []nameCase
	own := -1 // the request that is made by the holder of the name
	for i, o := range nameOps("x") {
		if strings.Contains(o.Name, "as itself") {
			own = i
		}
	}
	nOps := len(nameOps(""))
	for _, kind := range []string{"memory", "filesystem", "bitcask"} {
		odd := oddNames()
		for op := 0; op < nOps; op++ {
			for _, n := range odd {
				// the name does not exist; or does
				l = append(l, nameCase{kind, n, n, -1, op}, nameCase{kind, n, n, 0, op}, nameCase{kind, n, n, 1, op})
			}
			first := fewNames()
			if thorough {
				first = odd
			}
			for _, n := range first {
				for _, m := range odd {
					if n == m {
						continue
					}
					if !thorough && kind != "filesystem" {
						continue
					}
					l = append(l, nameCase{kind, n, m, 0, op}, nameCase{kind, n, m, 1, op})
				}
			}
		}
	}
	var out []nameCase
	for _, c := range l {
		if c.Op == own && !utf8.ValidString(c.M) {
			continue // the caller cannot be put into a token
		}
		out = append(out, c)
	}
	return out
}

// named is the child process, which gives up all privileges first: what gets
// out of the store by way of a name must not do any harm.
func named(args []string) {
	dir := args[0]
	// The traces under way are noted there.
	eng.CrashSlots = os.NewFile(3, "slots")
	eng.HangLimit = 40 * time.Second
	syscall.Setgroups(nil)
	if syscall.Setgid(65534) != nil || syscall.Setuid(65534) != nil {
		fmt.Println("cannot give up privileges")
	}
	debug.SetGCPercent(400)
	var rep namesReport
	templates := map[string]string{}
	for _, k := range kinds {
		t := filepath.Join(dir, "template "+k)
		a, err := newArena(k, t, "")
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		w, err := a.open()
		if err != nil {
			rep.Fails = append(rep.Fails, namesFail{nameCase{Kind: k, Way: -1}, "the server does not start: " + err.Error()})
			continue
		}
		base(w)
		w.DB.Shutdown()
		templates[k] = t
	}
	var mu sync.Mutex
	known := map[nameCase]*outcome{}
	var n int64
	next := func() string { return filepath.Join(dir, "w", strconv.FormatInt(atomic.AddInt64(&n, 1), 10)) }
	ordinary := func(c nameCase) outcome {
		mu.Lock()
		o, ok := known[c]
		mu.Unlock()
		if ok {
			return *o
		}
		over := eng.Watch("names", c.trace())
		x, err := c.run(next(), templates[c.Kind])
		over()
		mu.Lock()
		if err != nil {
			rep.Fails = append(rep.Fails, namesFail{c, err.Error()})
		}
		known[c] = &x
		mu.Unlock()
		return x
	}
	cases := nameCases(args[1] == "thorough")
	if args[1] == "one" {
		cases = []nameCase{nameCaseOf(args[2:])}
	}
	rep.Total = int64(len(cases))
	sec, _ := strconv.Atoi(os.Getenv("ZV_NAMES_SECONDS"))
	deadline := time.Now().Add(time.Duration(sec) * time.Second)
	parallel(len(cases), func(_, i int) bool {
		if time.Now().After(deadline) {
			return false
		}
		over := eng.Watch("names", cases[i].trace())
		err := decide(cases[i], next(), templates[cases[i].Kind], ordinary)
		over()
		c := atomic.AddInt64(&rep.Cases, 1)
		mu.Lock()
		defer mu.Unlock()
		if err != nil && len(rep.Fails) < 20 {
			rep.Fails = append(rep.Fails, namesFail{cases[i], err.Error()})
		}
		if c%9973 == 1 {
			rep.Samples = append(rep.Samples, cases[i].String())
		}
		return len(rep.Fails) < 20
	})
	rep.Ordinary = len(known)
	b, _ := json.Marshal(rep)
	fmt.Println("\nREPORT " + string(b))
	os.Exit(0)
}

func runNamed(r *eng.Run, args ...string) (namesReport, string) {
	var rep namesReport
	base := scratch()
	defer os.RemoveAll(base)
	os.Mkdir(filepath.Join(base, "cwd"), 0755)
	filepath.Walk(base, func(p string, _ os.FileInfo, _ error) error { return os.Chown(p, 65534, 65534) })
	exe, _ := os.Executable()
	cmd := exec.Command(exe, append([]string{"names", base}, args...)...)
	cmd.Dir = filepath.Join(base, "cwd")
	cmd.Env = append(os.Environ(), "TMPDIR="+base, "HOME="+filepath.Join(base, "cwd"), "ZV_NAMES_SECONDS="+strconv.Itoa(int(time.Until(r.Deadline).Seconds())))
	slots := filepath.Join(base, "slots")
	f, err := os.Create(slots)
	if err == nil {
		defer f.Close()
		cmd.ExtraFiles = []*os.File{f}
	}
	out, _ := cmd.CombinedOutput()
	if i := strings.LastIndex(string(out), "\nREPORT "); i >= 0 {
		if json.Unmarshal(out[i+8:], &rep) == nil {
			left, _ := os.ReadDir(cmd.Dir)
			if len(left) > 0 {
				return rep, "something was left in the working directory: " + left[0].Name()
			}
			return rep, ""
		}
	}
	msg := "the server fell over"
	for _, l := range strings.Split(string(out), "\n") {
		if strings.HasPrefix(l, "HANG") {
			msg = "the server does not answer"
		}
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") {
			msg = "the server fell over: " + l
		}
	}
	for _, t := range eng.UnderWay(slots) {
		if args[0] != "one" {
			rep.Fails = append(rep.Fails, namesFail{nameCaseOf(t[1:]), msg})
		}
	}
	if len(rep.Fails) > 0 {
		return rep, ""
	}
	if msg == "the server fell over" {
		if len(out) > 1500 {
			out = out[:1500]
		}
		msg += ": " + string(out)
	}
	return rep, msg
}

func c19() *eng.Check {
	return &eng.Check{ID: "C19", Level: "model_checking",
		Run: func(r *eng.Run) {
			rep, msg := runNamed(r, r.Tier)
			if msg != "" {
				r.Fail("all", nil, "%s", msg)
			}
			for _, f := range rep.Fails {
				r.Fail("names", f.Case.trace(), "%s: %s", f.Case, f.Msg)
			}
			if rep.Cases < rep.Total {
				r.Exhaustive = false
			}
			r.Add(rep.Cases, rep.Cases*4, rep.Cases+int64(rep.Ordinary))
			r.Extra["explorations"] = []string{fmt.Sprintf("%d of %d histories with %d odd names and %d requests on 3 kinds of store, compared with %d histories with ordinary names", rep.Cases, rep.Total, len(oddNames()), len(nameOps("")), rep.Ordinary)}
			for _, s := range rep.Samples {
				r.Sample("%s", s)
			}
		},
		ReplayOne: func(r *eng.Run, v *eng.Violation) error {
			args := []string{r.Tier}
			if v.Spec == "names" {
				args = append([]string{"one"}, v.Trace...)
			}
			rep, msg := runNamed(r, args...)
			if msg != "" {
				return fmt.Errorf("%s", msg)
			}
			for _, f := range rep.Fails {
				return fmt.Errorf("%s: %s", f.Case, f.Msg)
			}
			return nil
		}}
}
