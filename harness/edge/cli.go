package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/hashicorp/go-hclog"
	"github.com/spf13/viper"

	"github.com/netauth/netauth/internal/token"
	"github.com/netauth/netauth/internal/zverif/eng"
	types "github.com/netauth/protocol"
	rpb "github.com/netauth/protocol/v2"
)

// cliCase is one use of the program.
type cliCase struct {
	args  []string
	stdin string
	// what the request stands for; nil if it has to be refused
	direct func(w *eng.World, tok string) (string, error)
	read   bool // does not need a token
	// what has to be in the output
	out func(w *eng.World, out string) string
}

type cliEnv struct {
	rep  *report
	srv  *clServer
	dir  string
	tok  token.Service
	n    int
	base *eng.MemKV
}

func newCLI(rep *report, dir string) *cliEnv {
	eng.Setup()
	e := &cliEnv{rep: rep, dir: dir}
	conf := filepath.Join(dir, "conf")
	viper.Set("core.conf", conf)
	viper.Set("token.jwt.generate", true)
	viper.Set("token.jwt.bits", 1024)
	token.SetParentLogger(hclog.NewNullLogger())
	t, err := token.New("jwt-rsa")
	if err != nil {
		panic(err)
	}
	e.tok = t
	os.MkdirAll(filepath.Join(dir, "client", "keys"), 0755)
	b, err := os.ReadFile(filepath.Join(conf, "keys", "token.pem"))
	if err != nil {
		panic(err)
	}
	os.WriteFile(filepath.Join(dir, "client", "keys", "token.pem"), b, 0644)
	l, port := clListen(1, nil)
	e.srv = l[0]
	os.WriteFile(filepath.Join(dir, "client", "config.toml"), []byte(fmt.Sprintf("[core]\nserver = \"127.0.0.1\"\nport = %d\n[tls]\npwn_me = true\n", port)), 0644)
	e.base = cliBase()
	return e
}

// cliBase is what the server holds.
func cliBase() *eng.MemKV {
	w := eng.NewWorld(eng.Config{KV: clBase(2)})
	do := func(o eng.Op) {
		if r := o.Do(w); !r.OK() {
			panic(fmt.Sprintf("%s: %s", o.Name, r))
		}
	}
	do(eng.EntityCreate(eng.AsRoot, "root", -1, "rootpw"))
	do(eng.Capability(eng.AsRoot, true, "root", rpb.Action_ADD, types.Capability_GLOBAL_ROOT))
	do(eng.EntityCreate(eng.AsRoot, "cat", -1, "catpw"))
	do(eng.Member(eng.AsRoot, true, "cat", "eng"))
	do(eng.EntityUpdate(eng.AsRoot, "cat", "", func() *types.EntityMeta {
		return &types.EntityMeta{PrimaryGroup: eng.S("eng"), GECOS: eng.S("Cat,,,"), LegalName: eng.S("Catherine"), DisplayName: eng.S("Cat C"), Home: eng.S("/home/cat"), Shell: eng.S("/bin/zsh"), GraphicalShell: eng.S("/bin/gsh"), BadgeNumber: eng.S("0815")}
	}))
	do(eng.Rule(eng.AsRoot, "eng-ops", "none-such", rpb.RuleAction_REMOVE_RULE))
	return w.KV
}

func (e *cliEnv) world() *eng.World {
	return eng.NewWorld(eng.Config{KV: e.base.Clone(), Token: e.tok})
}

// run runs the program and says how it ended.
func (e *cliEnv) run(tmp string, stdin string, args ...string) (int, string, string) {
	cmd := exec.Command(os.Getenv("ZV_NETAUTH"), args...)
	cmd.Dir = filepath.Join(e.dir, "client")
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + tmp, "TMPDIR=" + tmp}
	cmd.Stdin = strings.NewReader(stdin)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	t := time.AfterFunc(time.Minute, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	cmd.Wait()
	t.Stop()
	return cmd.ProcessState.ExitCode(), out.String(), errb.String()
}

func (e *cliEnv) tmp() string {
	e.n++
	d := filepath.Join(e.dir, fmt.Sprint("t", e.n))
	os.Mkdir(d, 0700)
	return d
}

// judge compares one use of the program with the request made directly.
func (e *cliEnv) judge(c *cliCase, as, secret string) {
	w1, w2 := e.world(), e.world()
	e.srv.NetAuth2Server = w1.Srv
	e.srv.take()
	tmp := e.tmp()
	defer os.RemoveAll(tmp)
	args := append([]string{"--entity", as, "--secret", secret}, c.args...)
	before := text(stored(w1.KV))
	rc, out, errs := e.run(tmp, c.stdin, args...)
	e.rep.Trans++
	trace := []string{fmt.Sprintf("netauth %q", args), fmt.Sprintf("standard input %q, status %d, output %q %q", c.stdin, rc, out, errs)}
	what := strings.Join(args, " ")
	if rc != 0 && (strings.Contains(errs, "goroutine ") || rc < 0) {
		e.rep.fail(trace, "%s: the program crashes or hangs (status %d)", what, rc)
		return
	}
	after := text(stored(w1.KV))
	var err error
	want := false
	if c.direct != nil {
		tok := ""
		if !c.read {
			var r *rpb.AuthResult
			r, err = w2.Srv.AuthGetToken(eng.Ctx(""), &rpb.AuthRequest{Entity: &types.Entity{ID: &as}, Secret: &secret})
			tok = r.GetToken()
		}
		if err == nil {
			_, err = c.direct(w2, tok)
		}
		want = err == nil
	}
	if (rc == 0) != want {
		is := fmt.Sprintf("the request itself ends with %v", err)
		if c.direct == nil {
			is = "it has to be refused"
		}
		e.rep.fail(trace, "%s: it ends with status %d, and %s", what, rc, is)
		return
	}
	if direct := text(stored(w2.KV)); after != direct {
		if c.direct == nil || err != nil {
			e.rep.fail(trace, "%s: it is refused, and something changes: %s", what, eng.Diff(before, after))
		} else {
			e.rep.fail(trace, "%s: it has another effect than the request itself: %s", what, eng.Diff(direct, after))
		}
		return
	}
	for _, x := range e.srv.take() {
		if g := x.md.Get("service-name"); len(g) == 0 || g[0] != "netauth" {
			e.rep.fail(trace, "%s: it goes by service name %q", what, g)
		}
	}
	if want && c.out != nil {
		if s := c.out(w2, out); s != "" {
			e.rep.fail(trace, "%s: %s", what, s)
		}
	}
	if !want && out == "" && errs == "" && len(c.args) > 1 && c.args[1] != "check" {
		e.rep.fail(trace, "%s: it is refused without a word", what)
	}
	if !want && c.direct != nil && c.out != nil && strings.Contains(out, "Type:") {
		e.rep.fail(trace, "%s: it is refused and prints data", what)
	}
}

// column collects what follows a label in the lines of an output.
func column(out, label string) []string {
	var l []string
	for _, x := range strings.Split(out, "\n") {
		if strings.HasPrefix(strings.ToLower(x), strings.ToLower(label)+": ") {
			l = append(l, x[len(label)+2:])
		}
	}
	sort.Strings(l)
	return l
}

func sameList(what string, got, want []string) string {
	sort.Strings(want)
	sort.Strings(got)
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		return fmt.Sprintf("it prints %s %q, and should %q", what, got, want)
	}
	return ""
}

func eids(l []*types.Entity) []string {
	out := []string{}
	for _, x := range l {
		out = append(out, x.GetID())
	}
	return out
}

func gnames(l []*types.Group) []string {
	out := []string{}
	for _, x := range l {
		out = append(out, x.GetName())
	}
	return out
}

// shows says whether values are in the output, and other words are not.
func shows(out string, words []string, not []string) string {
	for _, x := range words {
		if x != "" && !strings.Contains(out, x) {
			return fmt.Sprintf("%q is not in the output", x)
		}
	}
	for _, x := range not {
		if x != "" && strings.Contains(out, x) {
			return fmt.Sprintf("%q is in the output", x)
		}
	}
	return ""
}

// listed says whether the values of the keys follow their key in order.
func listed(out string, m map[string][]string) string {
	got := map[string][]string{}
	k := ""
	for _, l := range strings.Split(out, "\n") {
		switch {
		case l == "":
		case strings.HasPrefix(l, "  "):
			got[k] = append(got[k], l[2:])
		default:
			k = strings.TrimSuffix(l, ":")
			if x := ordinalRE.FindStringSubmatch(k); x != nil {
				k = x[1]
			}
		}
	}
	if lists(got) != lists(m) {
		return fmt.Sprintf("it prints %s, and should %s", lists(got), lists(m))
	}
	return ""
}

func entityWords(x *types.Entity) []string {
	m := x.GetMeta()
	l := []string{"ID: " + x.GetID(), fmt.Sprint("Number: ", x.GetNumber()), m.GetPrimaryGroup(), m.GetGECOS(), m.GetLegalName(), m.GetDisplayName(), m.GetHome(), m.GetShell(), m.GetGraphicalShell(), m.GetBadgeNumber()}
	for _, c := range m.GetCapabilities() {
		l = append(l, c.String())
	}
	return l
}

func groupWords(x *types.Group) []string {
	l := []string{"Name: " + x.GetName(), fmt.Sprint("Number: ", x.GetNumber()), x.GetDisplayName(), x.GetManagedBy()}
	for _, c := range x.GetExpansions() {
		l = append(l, c)
	}
	for _, c := range x.GetCapabilities() {
		l = append(l, c.String())
	}
	return l
}

// cliCases are the uses of the program.
func cliCases() []*cliCase {
	var out []*cliCase
	add := func(direct func(w *eng.World, tok string) (string, error), args ...string) *cliCase {
		c := &cliCase{direct: direct, args: args}
		out = append(out, c)
		return c
	}
	type caller = eng.Caller
	up := strings.ToUpper
	E := []string{"ann", "bob", "cat", "new", "nobody"}
	G := []string{"eng", "eng-ops", "new", "none"}
	for _, id := range E {
		id := id
		// entity create
		for _, n := range []string{"", "-1", "77", "1", "2147483647", "2147483648", "4294967297", "-4294967297", "x"} {
			for _, s := range []string{"initial", "", "<input>", "<none>"} {
				if n != "" && n != "77" && s != "initial" {
					continue
				}
				num, err := strconv.ParseInt(n, 10, 32)
				if n == "" {
					num, err = -1, nil
				}
				sec := s
				args := []string{"entity", "create", id}
				stdin := ""
				switch s {
				case "<input>":
					sec, stdin = "typed in", "typed in\n"
				case "<none>":
					sec = ""
				default:
					args = append(args, "--initial-secret", s)
				}
				if n != "" {
					args = append(args, "--number="+n)
				}
				var d func(w *eng.World, tok string) (string, error)
				if err == nil {
					d = op(func(ca caller) eng.Op { return eng.EntityCreate(ca, id, int32(num), sec) })
				}
				add(d, args...).stdin = stdin
			}
		}
		add(op(func(ca caller) eng.Op { return eng.EntityDestroy(ca, id) }), "entity", "destroy", id)
		add(op(func(ca caller) eng.Op { return eng.EntityLock(ca, id) }), "entity", "lock", id)
		add(op(func(ca caller) eng.Op { return eng.EntityUnlock(ca, id) }), "entity", "unlock", id)
		// entity info
		info := func(w *eng.World, tok string) (string, error) {
			_, err := w.Srv.EntityInfo(eng.Ctx(tok), &rpb.EntityRequest{Entity: &types.Entity{ID: &id}})
			return "", err
		}
		c := add(info, "entity", "info", id)
		c.read = true
		c.out = func(w *eng.World, o string) string {
			r, _ := w.Srv.EntityInfo(eng.Ctx(""), &rpb.EntityRequest{Entity: &types.Entity{ID: &id}})
			if s := sameList("ID", column(o, "ID"), []string{id}); s != "" {
				return s
			}
			return shows(o, entityWords(r.GetEntities()[0]), []string{"secret", "hash("})
		}
		c = add(info, "entity", "info", id, "--fields", "ID")
		c.read = true
		c.out = func(w *eng.World, o string) string {
			if strings.TrimSpace(o) != "ID: "+id {
				return "it prints more than the ID"
			}
			return ""
		}
		c = add(func(w *eng.World, tok string) (string, error) {
			_, err := w.Srv.EntityGroups(eng.Ctx(tok), &rpb.EntityRequest{Entity: &types.Entity{ID: &id}})
			return "", err
		}, "entity", "memberships", id)
		c.read = true
		c.out = func(w *eng.World, o string) string {
			r, _ := w.Srv.EntityGroups(eng.Ctx(""), &rpb.EntityRequest{Entity: &types.Entity{ID: &id}})
			return sameList("groups", column(o, "Name"), gnames(r.GetGroups()))
		}
		// entity update
		flags := []struct {
			f   string
			set func(m *types.EntityMeta, s *string)
		}{
			{"primary-group", func(m *types.EntityMeta, s *string) { m.PrimaryGroup = s }},
			{"GECOS", func(m *types.EntityMeta, s *string) { m.GECOS = s }},
			{"legalName", func(m *types.EntityMeta, s *string) { m.LegalName = s }},
			{"displayName", func(m *types.EntityMeta, s *string) { m.DisplayName = s }},
			{"homedir", func(m *types.EntityMeta, s *string) { m.Home = s }},
			{"shell", func(m *types.EntityMeta, s *string) { m.Shell = s }},
			{"graphicalShell", func(m *types.EntityMeta, s *string) { m.GraphicalShell = s }},
			{"badgeNumber", func(m *types.EntityMeta, s *string) { m.BadgeNumber = s }},
		}
		for a := 0; a <= 1<<uint(len(flags)); a++ {
			n := 0
			for i := range flags {
				n += a >> uint(i) & 1
			}
			if n > 2 && n < len(flags) || n == 2 && id != "cat" {
				continue
			}
			for _, v := range []string{"some thing", ""} {
				if n == 0 && v == "" {
					continue
				}
				args := []string{"entity", "update", id}
				for i, f := range flags {
					if a>>uint(i)&1 == 1 {
						args = append(args, "--"+f.f+"="+strings.TrimSpace(v+strings.Repeat(" x", i*len(v)/10)))
					}
				}
				a, v := a, v
				add(op(func(ca caller) eng.Op {
					return eng.EntityUpdate(ca, id, "", func() *types.EntityMeta {
						m := &types.EntityMeta{}
						for i, f := range flags {
							if a>>uint(i)&1 == 1 {
								f.set(m, eng.S(strings.TrimSpace(v+strings.Repeat(" x", i*len(v)/10))))
							}
						}
						return m
					})
				}), args...)
			}
		}
		// keys
		for _, a := range []string{"add", "ADD"} {
			for _, t := range []string{"SSH", "pgp"} {
				t := t
				add(op(func(ca caller) eng.Op { return eng.EntityKeys(ca, id, rpb.Action_ADD, t, "a new key") }), "entity", "key", a, t, "a new key", "--entityID", id)
			}
		}
		for _, k := range []string{"b", "ssh-rsa AA x@y", "absent"} {
			k := k
			add(op(func(ca caller) eng.Op { return eng.EntityKeys(ca, id, rpb.Action_DROP, "SSH", k) }), "entity", "key", "drop", k, "--entityID", id)
		}
		for _, t := range []string{"", "ssh", "PGP", "*"} {
			t := t
			args := []string{"entity", "key", "read"}
			if t != "" {
				args = append(args, t)
			}
			c := add(func(w *eng.World, tok string) (string, error) {
				_, err := w.Srv.EntityKeys(eng.Ctx(tok), &rpb.KVRequest{Target: &id, Action: rpb.Action_READ.Enum()})
				return "", err
			}, append(args, "--entityID", id)...)
			c.read = true
			c.out = func(w *eng.World, o string) string {
				r, _ := w.Srv.EntityKeys(eng.Ctx(""), &rpb.KVRequest{Target: &id, Action: rpb.Action_READ.Enum()})
				if t == "" {
					return sortedListed(o, keysBy(r.GetStrings(), "SSH"))
				}
				return sortedListed(o, keysBy(r.GetStrings(), t))
			}
		}
		// membership
		for _, g := range G {
			g := g
			for _, a := range []string{"add", "DROP", "bogus"} {
				var d func(w *eng.World, tok string) (string, error)
				if a != "bogus" {
					a := a
					d = op(func(ca caller) eng.Op { return eng.Member(ca, a == "add", id, g) })
				}
				add(d, "entity", "membership", id, a, g)
			}
		}
		// secrets
		for _, s := range []string{"a new one", "<input>", "<differ>"} {
			args := []string{"auth", "change-secret", "--csEntity", id}
			sec, stdin := s, ""
			switch s {
			case "<input>":
				sec, stdin = "typed in", "typed in\ntyped in\n"
			case "<differ>":
				stdin = "typed in\ntyped inn\n"
			default:
				args = append(args, "--csSecret", s)
			}
			d := func(w *eng.World, tok string) (string, error) {
				cl, err := w.Token.Validate(tok)
				if err != nil {
					return "", err
				}
				old := ""
				if cl.EntityID == id {
					old = secretOf[id]
				}
				return op(func(ca caller) eng.Op { return eng.ChangeSecret(ca, "", id, old, sec) })(w, tok)
			}
			if s == "<differ>" {
				d = nil
			}
			add(d, args...).stdin = stdin
		}
	}
	// without an entity given, one's own
	add(func(w *eng.World, tok string) (string, error) {
		cl, err := w.Token.Validate(tok)
		if err != nil {
			return "", err
		}
		return op(func(ca caller) eng.Op {
			return eng.ChangeSecret(ca, "", cl.EntityID, secretOf[cl.EntityID], "brand-new")
		})(w, tok)
	}, "auth", "change-secret", "--csSecret", "brand-new")
	add(func(w *eng.World, tok string) (string, error) {
		cl, err := w.Token.Validate(tok)
		if err != nil {
			return "", err
		}
		return op(func(ca caller) eng.Op { return eng.EntityKeys(ca, cl.EntityID, rpb.Action_ADD, "SSH", "kk") })(w, tok)
	}, "entity", "key", "add", "ssh", "kk")
	for _, n := range G {
		n := n
		for _, f := range [][]string{{"", "", ""}, {"Shown", "eng", ""}, {"", "none", "99"}, {"x", "", "4294967297"}, {"x", "", "-1"}} {
			f := f
			args := []string{"group", "create", n}
			if f[0] != "" {
				args = append(args, "--display-name", f[0])
			}
			if f[1] != "" {
				args = append(args, "--managed-by", f[1])
			}
			num := int64(-1)
			var err error
			if f[2] != "" {
				args = append(args, "--number="+f[2])
				num, err = strconv.ParseInt(f[2], 10, 32)
			}
			d := op(func(ca caller) eng.Op { return eng.GroupCreate(ca, n, f[0], f[1], int32(num)) })
			if err != nil {
				d = nil
			}
			add(d, args...)
		}
		add(op(func(ca caller) eng.Op { return eng.GroupDestroy(ca, n) }), "group", "destroy", n)
		c := add(func(w *eng.World, tok string) (string, error) {
			_, err := w.Srv.GroupInfo(eng.Ctx(tok), &rpb.GroupRequest{Group: &types.Group{Name: &n}})
			return "", err
		}, "group", "info", n)
		c.read = true
		c.out = func(w *eng.World, o string) string {
			r, _ := w.Srv.GroupInfo(eng.Ctx(""), &rpb.GroupRequest{Group: &types.Group{Name: &n}})
			if s := shows(o, groupWords(r.GetGroups()[0]), nil); s != "" {
				return s
			}
			var want, got []string
			for _, m := range stored(w.KV) {
				if g, ok := m.(*types.Group); ok && g.GetManagedBy() == n {
					want = append(want, g.GetName())
				}
			}
			i := strings.Index(o, "managed by this group")
			if i < 0 {
				i = len(o)
			}
			for _, x := range regexp.MustCompile(`(?m)^ *- (.*)$`).FindAllStringSubmatch(o[i:], -1) {
				got = append(got, x[1])
			}
			return sameList("managed groups", got, want)
		}
		c = add(func(w *eng.World, tok string) (string, error) {
			_, err := w.Srv.GroupMembers(eng.Ctx(tok), &rpb.GroupRequest{Group: &types.Group{Name: &n}})
			return "", err
		}, "group", "members", n)
		c.read = true
		c.out = func(w *eng.World, o string) string {
			r, _ := w.Srv.GroupMembers(eng.Ctx(""), &rpb.GroupRequest{Group: &types.Group{Name: &n}})
			return sameList("members", column(o, "ID"), eids(r.GetEntities()))
		}
		for a := 0; a < 4; a++ {
			a := a
			args := []string{"group", "update", n}
			if a&1 == 1 {
				args = append(args, "--display-name=Re named")
			}
			if a&2 == 2 {
				args = append(args, "--managed-by=eng-ops")
			}
			add(op(func(ca caller) eng.Op {
				return eng.GroupUpdate(ca, n, "", func() *types.Group {
					g := &types.Group{Name: &n}
					if a&1 == 1 {
						g.DisplayName = eng.S("Re named")
					}
					if a&2 == 2 {
						g.ManagedBy = eng.S("eng-ops")
					}
					return g
				})
			}), args...)
		}
		add(op(func(ca caller) eng.Op {
			return eng.GroupUpdate(ca, n, "", func() *types.Group {
				return &types.Group{Name: &n, DisplayName: eng.S(""), ManagedBy: eng.S("")}
			})
		}), "group", "update", n, "--display-name=", "--managed-by=")
		for _, t := range G {
			for _, a := range []string{"include", "EXCLUDE", "drop", "bogus"} {
				t := t
				v := map[string]rpb.RuleAction{"include": rpb.RuleAction_INCLUDE, "EXCLUDE": rpb.RuleAction_EXCLUDE, "drop": rpb.RuleAction_REMOVE_RULE}
				var d func(w *eng.World, tok string) (string, error)
				if _, ok := v[a]; ok {
					a := a
					d = op(func(ca caller) eng.Op { return eng.Rule(ca, n, t, v[a]) })
				}
				add(d, "group", "rule", n, a, t)
			}
		}
	}
	// key/value stores
	for _, entity := range []bool{true, false} {
		entity := entity
		word, ids := "group", G
		if entity {
			word, ids = "entity", E
		}
		for _, id := range ids {
			id := id
			for _, a := range []string{"upsert", "UPSERT", "clearexact", "clearfuzzy", "bogus"} {
				for _, k := range []string{"k{1}", "k", "new", "q"} {
					a, k := a, k
					args := []string{word, "kv", id, a, k}
					if up(a) == "UPSERT" {
						args = append(args, "va:lue of")
					}
					um := eng.GroupUM
					if entity {
						um = eng.EntityUM
					}
					d := op(func(ca caller) eng.Op {
						v := ""
						if up(a) == "UPSERT" {
							v = "va:lue of"
						}
						return um(ca, id, rpb.Action(rpb.Action_value[up(a)]), k, v)
					})
					if a == "bogus" {
						d = nil
					}
					add(d, args...)
				}
			}
			for _, k := range []string{"k", "q", "*", "absent"} {
				k := k
				rd := func(w *eng.World, tok string) (*rpb.ListOfStrings, error) {
					q := &rpb.KVRequest{Target: &id, Action: rpb.Action_READ.Enum(), Key: &k}
					if entity {
						return w.Srv.EntityUM(eng.Ctx(tok), q)
					}
					return w.Srv.GroupUM(eng.Ctx(tok), q)
				}
				c := add(func(w *eng.World, tok string) (string, error) {
					_, err := rd(w, tok)
					return "", err
				}, word, "kv", id, "read", k)
				c.read = true
				c.out = func(w *eng.World, o string) string {
					r, _ := rd(w, "")
					return listed(o, umWant(r.GetStrings(), k))
				}
				get := func(w *eng.World, tok string) (*rpb.ListOfKVData, error) {
					q := &rpb.KV2Request{Target: &id, Data: &types.KVData{Key: &k}}
					if entity {
						return w.Srv.EntityKVGet(eng.Ctx(tok), q)
					}
					return w.Srv.GroupKVGet(eng.Ctx(tok), q)
				}
				c = add(func(w *eng.World, tok string) (string, error) {
					_, err := get(w, tok)
					return "", err
				}, "kv2", "get", word, id, k)
				c.read = true
				c.out = func(w *eng.World, o string) string {
					r, _ := get(w, "")
					return listed(o, kvWant(r.GetKVData()))
				}
				add(op(func(ca caller) eng.Op { return eng.KV2(ca, entity, "Del", id, k) }), "kv2", "del", word, id, k)
				for _, v := range []string{"Add", "Replace"} {
					for _, n := range []int{1, 3, 12} {
						v, n := v, n
						add(op(func(ca caller) eng.Op { return eng.KV2(ca, entity, v, id, k, vals(n)...) }), append([]string{"kv2", strings.ToLower(v), word, id, k}, vals(n)...)...)
					}
					add(nil, "kv2", strings.ToLower(v), word, id, k)
				}
			}
		}
	}
	for _, direct := range []bool{true, false} {
		for _, id := range []string{"cat", "eng", "nobody"} {
			for _, a := range []string{"add", "DROP", "bogus"} {
				for _, cp := range []string{"CREATE_ENTITY", "lock_entity", "GLOBAL_ROOT", "bogus"} {
					direct, id, a, cp := direct, id, a, cp
					args := []string{"system", "capability", id, a, cp}
					if direct {
						args = append(args, "--direct")
					}
					d := op(func(ca caller) eng.Op {
						return eng.Capability(ca, direct, id, rpb.Action(rpb.Action_value[up(a)]), types.Capability(types.Capability_value[up(cp)]))
					})
					if a == "bogus" || cp == "bogus" {
						d = nil
					}
					add(d, args...)
				}
			}
		}
	}
	for _, x := range []string{"ID:ann", "ID:*", "Number:>1", "ID:absent", "meta.Shell:zsh"} {
		x := x
		c := add(func(w *eng.World, tok string) (string, error) {
			_, err := w.Srv.EntitySearch(eng.Ctx(tok), &rpb.SearchRequest{Expression: &x})
			return "", err
		}, "entity", "search", x)
		c.read = true
		c.out = func(w *eng.World, o string) string {
			r, _ := w.Srv.EntitySearch(eng.Ctx(""), &rpb.SearchRequest{Expression: &x})
			return sameList("IDs", column(o, "ID"), eids(r.GetEntities()))
		}
		y := strings.Replace(x, "ID", "Name", 1)
		c = add(func(w *eng.World, tok string) (string, error) {
			_, err := w.Srv.GroupSearch(eng.Ctx(tok), &rpb.SearchRequest{Expression: &y})
			return "", err
		}, "group", "search", y)
		c.read = true
		c.out = func(w *eng.World, o string) string {
			r, _ := w.Srv.GroupSearch(eng.Ctx(""), &rpb.SearchRequest{Expression: &y})
			return sameList("names", column(o, "Name"), gnames(r.GetGroups()))
		}
	}
	ok := func(w *eng.World, tok string) (string, error) { return "", nil }
	add(ok, "system", "ping").read = true
	add(ok, "system", "status").read = true
	c := add(ok, "auth", "get-token")
	c = add(ok, "auth", "validate-token")
	c = add(ok, "auth", "inspect-token")
	c.out = func(w *eng.World, o string) string { return shows(o, []string{"'"}, nil) }
	add(ok, "auth", "check")
	// wrong numbers of arguments
	for _, a := range [][]string{{"entity", "create"}, {"entity", "create", "a", "b"}, {"entity", "destroy"}, {"entity", "destroy", "ann", "bob"}, {"entity", "lock"}, {"entity", "lock", "ann", "bob"}, {"entity", "unlock"}, {"entity", "update"}, {"entity", "update", "ann", "bob", "--shell", "x"}, {"entity", "membership", "ann", "add"}, {"entity", "membership", "ann", "add", "eng", "eng-ops"}, {"entity", "kv", "ann", "upsert", "k"}, {"entity", "kv", "ann", "upsert", "k", "a", "b"}, {"entity", "key"}, {"entity", "key", "add", "x"}, {"entity", "key", "drop"}, {"entity", "key", "add", "ssh", "a", "b"}, {"entity", "key", "bogus", "x"}, {"entity", "info"}, {"entity", "info", "ann", "bob"}, {"entity", "search"}, {"entity", "nonsense"}, {"group", "create"}, {"group", "create", "a", "b"}, {"group", "destroy"}, {"group", "rule", "eng", "include"}, {"group", "rule", "eng", "include", "eng-ops", "x"}, {"group", "kv", "eng", "upsert", "k"}, {"group", "update"}, {"group", "info"}, {"kv2", "add", "entity", "ann", "k"}, {"kv2", "add", "nothing", "ann", "k", "v"}, {"kv2", "del", "entity", "ann"}, {"kv2", "del", "entity", "ann", "k", "v"}, {"kv2", "replace", "group", "eng", "k"}, {"system", "capability", "cat", "add"}, {"system", "capability", "cat", "add", "CREATE_ENTITY", "x"}, {"nonsense"}, {"entity", "create", "new", "--bogus"}} {
		if a[len(a)-1] == "nonsense" && len(a) > 1 {
			// That prints how to use it.
			continue
		}
		add(nil, a...)
	}
	return out
}

// sortedListed is listed for values in no order.
func sortedListed(out string, m map[string][]string) string {
	got := map[string][]string{}
	k := ""
	for _, l := range strings.Split(out, "\n") {
		switch {
		case l == "":
		case strings.HasPrefix(l, "  "):
			got[k] = append(got[k], l[2:])
		default:
			k = strings.TrimSuffix(l, ":")
		}
	}
	got = upKeys(got)
	if lists(got) != lists(m) {
		return fmt.Sprintf("it prints %s, and should %s", lists(got), lists(m))
	}
	return ""
}

var secretOf = map[string]string{"ann": "secret", "bob": "secret", "cat": "catpw", "root": "rootpw"}

// session runs sequences of uses of the program that share a token cache.
// With a usable key of the server it can tell which tokens are valid; without
// it has to get a new one each time.
func (e *cliEnv) session(first, depth int, key string, deadline time.Time) {
	kf := filepath.Join(e.dir, "client", "keys", "token.pem")
	switch key {
	case "none":
		os.Remove(kf)
	case "junk":
		os.WriteFile(kf, []byte("junk"), 0644)
	case "private":
		os.Chmod(kf, 0600)
	}
	type act struct {
		name string
		args []string // with the entity cat
		sec  string
		srv  func(w *eng.World)
	}
	acts := []act{
		{"get a token", []string{"auth", "get-token"}, "catpw", nil},
		{"get a token with a wrong secret", []string{"auth", "get-token"}, "wrong", nil},
		{"add a key", []string{"entity", "key", "add", "ssh", "k"}, "", nil},
		{"add a key with a secret", []string{"entity", "key", "add", "ssh", "k"}, "catpw", nil},
		{"destroy the token", []string{"auth", "destroy-token"}, "", nil},
		{"be locked", nil, "", func(w *eng.World) { eng.EntityLock(eng.AsRoot, "cat").Do(w) }},
		{"be unlocked", nil, "", func(w *eng.World) { eng.EntityUnlock(eng.AsRoot, "cat").Do(w) }},
		{"validate the token", []string{"auth", "validate-token"}, "", nil},
		{"lock ann", []string{"entity", "lock", "ann"}, "", nil},
		{"gain a capability", nil, "", func(w *eng.World) {
			eng.Capability(eng.AsRoot, true, "cat", rpb.Action_ADD, types.Capability_LOCK_ENTITY).Do(w)
		}},
	}
	var seqs [][]int
	var build func(s []int)
	build = func(s []int) {
		if len(s) == depth {
			seqs = append(seqs, append([]int{}, s...))
			return
		}
		for i := range acts {
			if len(s) > 0 && s[len(s)-1] == i && acts[i].srv != nil {
				continue
			}
			build(append(s, i))
		}
	}
	build([]int{first})
	for _, s := range seqs {
		if time.Now().After(deadline) {
			return
		}
		w := e.world()
		e.srv.NetAuth2Server = w.Srv
		tmp := e.tmp()
		locked, capable, ann := false, false, false
		cached, cachedCap := false, false
		keys := 0
		var trace []string
		for _, i := range s {
			a := acts[i]
			trace = append(trace, a.name)
			if a.srv != nil {
				a.srv(w)
				switch a.name {
				case "be locked":
					locked = true
				case "be unlocked":
					locked = false
				default:
					capable = true
				}
				continue
			}
			args := append([]string{"--entity", "cat"}, a.args...)
			if a.sec != "" {
				args = append(args, "--secret", a.sec)
			}
			rc, out, errs := e.run(tmp, "", args...)
			e.rep.Trans++
			want := true
			login := func() bool {
				if locked || a.sec != "catpw" {
					return false
				}
				cached, cachedCap = true, capable
				return true
			}
			usable := cached && key == "right"
			switch a.name {
			case "get a token", "get a token with a wrong secret":
				had := usable
				want = login()
				if !want && had {
					// It may be content with the one there is.
					want = rc == 0
				}
			case "destroy the token":
				cached = false
			case "validate the token":
				if !usable {
					want = login()
				}
			case "lock ann":
				want = usable || login()
				want = want && cachedCap
				if want {
					ann = true
				}
			default:
				want = usable || login()
				if want {
					keys = 1
				}
			}
			if a.name == "get a token" && rc == 0 && cached && !cachedCap && capable {
				// unknown which one it has now
				b, _ := os.ReadFile(filepath.Join(tmp, "cat.nt"))
				cl, err := e.tok.Validate(string(b))
				cachedCap = err == nil && len(cl.Capabilities) > 0
			}
			if (rc == 0) != want {
				e.rep.fail(append(trace, fmt.Sprintf("status %d, %q %q", rc, out, errs)), "%s: it ends with status %d", a.name, rc)
				break
			}
			x, _ := w.DB.LoadEntity("cat")
			y, _ := w.DB.LoadEntity("ann")
			if x == nil || y == nil || (len(x.GetMeta().GetKeys()) > 0) != (keys > 0) || y.GetMeta().GetLocked() != ann {
				e.rep.fail(trace, "%s: the effect is another than it should be", a.name)
				break
			}
			l, _ := filepath.Glob(filepath.Join(tmp, "*"))
			n := 0
			for _, f := range l {
				fi, err := os.Stat(f)
				if err == nil && fi.Mode()&077 != 0 {
					e.rep.fail(trace, "%s: it leaves a file of mode %v", a.name, fi.Mode())
				}
				if b, _ := os.ReadFile(f); len(b) > 0 {
					n++
				}
			}
			if !cached && n > 0 {
				e.rep.fail(trace, "%s: a token is still there", a.name)
			}
		}
		os.RemoveAll(tmp)
		e.rep.States++
	}
	e.rep.Complete = true
}

func cliChild(args []string) {
	rep := &report{}
	f := strings.Fields(args[0])
	secs, _ := strconv.Atoi(args[3])
	deadline := time.Now().Add(time.Duration(secs) * time.Second)
	e := newCLI(rep, args[2])
	n, _ := strconv.Atoi(f[1])
	m, _ := strconv.Atoi(f[2])
	switch f[0] {
	case "commands":
		callers := [][2]string{{"root", "rootpw"}, {"cat", "catpw"}, {"cat", "wrong"}, {"ann", "secret"}, {"bob", "secret"}}
		if args[1] != "thorough" {
			callers = callers[:3]
		}
		rep.Complete = true
		for i, c := range cliCases() {
			if i%m != n {
				continue
			}
			rep.States++
			for j, as := range callers {
				if time.Now().After(deadline) {
					rep.Complete = false
					break
				}
				if j > 0 && (c.direct == nil || c.read && c.args[1] != "check") {
					break
				}
				e.judge(c, as[0], as[1])
			}
		}
	case "session":
		e.session(n, m, f[3], deadline)
	}
	rep.print()
	os.Exit(0)
}

func c39() *eng.Check {
	return &eng.Check{ID: "C39", Level: "model_checking",
		Run: func(r *eng.Run) {
			r.Exhaustive = true
			var names []string
			for i := 0; i < 10; i++ {
				names = append(names, fmt.Sprintf("session %d %d right", i, r.Pick(3, 4)))
				for _, key := range []string{"none", "junk", "private"} {
					names = append(names, fmt.Sprintf("session %d %d %s", i, r.Pick(2, 3), key))
				}
			}
			for i := 0; i < 16; i++ {
				names = append(names, fmt.Sprintf("commands %d 16", i))
			}
			scenarios(r, "cli", names, 8)
		},
		ReplayOne: func(r *eng.Run, v *eng.Violation) error { return again(r, "cli", v) },
	}
}
