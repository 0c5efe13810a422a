package main

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"

	"github.com/netauth/netauth/internal/zverif/eng"
	types "github.com/netauth/protocol"
	rpb "github.com/netauth/protocol/v2"
)

// daemon is a running netauthd.
type daemon struct {
	cmd  *exec.Cmd
	out  *syncBuf
	done chan error
	addr string
}

type syncBuf struct {
	mu    sync.Mutex
	b     bytes.Buffer
	lines int
	at    int // the line after which to call then
	then  func()
}

func (s *syncBuf) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, c := range p {
		if c == '\n' {
			if s.lines++; s.lines == s.at {
				s.then()
			}
		}
	}
	return s.b.Write(p)
}

func (s *syncBuf) String() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.String()
}

func (s *syncBuf) count() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.lines
}

func (s *syncBuf) tail() string {
	t := s.String()
	if len(t) > 400 {
		t = t[len(t)-400:]
	}
	return t
}

// host is an address that no other scenario uses.
func host() string {
	p := os.Getpid()
	return fmt.Sprintf("127.%d.%d.%d", 1+p>>16&0x7f, p>>8&0xff, 1+p&0xfe)
}

func freePort(h string) int {
	l, err := net.Listen("tcp", h+":0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

// launch starts the program in a directory that holds its configuration.
func launch(dir, addr string, args ...string) *daemon {
	return launchTo(&syncBuf{}, "INFO", dir, addr, args...)
}

// launchSignalled sends it a signal once it has said so many things.
func launchSignalled(sig syscall.Signal, at int, level, dir, addr string, args ...string) *daemon {
	b := &syncBuf{}
	b.mu.Lock()
	d := launchTo(b, level, dir, addr, args...)
	b.at, b.then = at, func() { d.cmd.Process.Signal(sig) }
	b.mu.Unlock()
	return d
}

func launchTo(out *syncBuf, level, dir, addr string, args ...string) *daemon {
	d := &daemon{out: out, done: make(chan error, 1), addr: addr}
	d.cmd = exec.Command(os.Getenv("ZV_NETAUTHD"), args...)
	d.cmd.Dir = dir
	d.cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + dir, "TMPDIR=" + dir, "NETAUTH_LOGLEVEL=" + level}
	d.cmd.Stdout, d.cmd.Stderr = d.out, d.out
	d.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := d.cmd.Start(); err != nil {
		panic(err)
	}
	go func() { d.done <- d.cmd.Wait() }()
	return d
}

// accepts says whether something listens there.
func accepts(addr string) bool {
	c, err := net.DialTimeout("tcp", addr, 5*time.Second)
	if err != nil {
		return false
	}
	c.Close()
	return true
}

// up waits until the server listens, or has ended.
func (d *daemon) up() (bool, error) {
	for t := time.Now(); time.Since(t) < 40*time.Second; {
		select {
		case err := <-d.done:
			d.done <- err
			if err == nil {
				return false, nil
			}
			return false, err
		default:
		}
		if strings.Contains(d.out.String(), "Ready to Serve") && accepts(d.addr) {
			return true, nil
		}
		time.Sleep(3 * time.Millisecond)
	}
	d.kill()
	return false, fmt.Errorf("it neither serves nor ends")
}

func (d *daemon) kill() {
	d.cmd.Process.Kill()
	err := <-d.done
	d.done <- err
}

// term ends the server as an operator does.
func (d *daemon) term() error {
	d.cmd.Process.Signal(syscall.SIGTERM)
	select {
	case err := <-d.done:
		d.done <- err
		return err
	case <-time.After(30 * time.Second):
		d.kill()
		return fmt.Errorf("it does not end when told to")
	}
}

// dial makes a client; tc is nil for none of TLS.
func dial(addr string, tc *tls.Config) (rpb.NetAuth2Client, func()) {
	o := grpc.WithInsecure()
	if tc != nil {
		o = grpc.WithTransportCredentials(credentials.NewTLS(tc))
	}
	c, err := grpc.Dial(addr, o)
	if err != nil {
		panic(err)
	}
	return rpb.NewNetAuth2Client(c), func() { c.Close() }
}

func octx(tok string) (context.Context, context.CancelFunc) {
	ctx, f := context.WithTimeout(context.Background(), 15*time.Second)
	return metadata.AppendToOutgoingContext(ctx, "authorization", tok, "client-name", "zv", "service-name", "zv"), f
}

// speaker makes requests to a running server.
type speaker struct {
	c   rpb.NetAuth2Client
	tok string
}

func (s *speaker) auth(id, secret string) error {
	ctx, f := octx("")
	defer f()
	_, err := s.c.AuthEntity(ctx, &rpb.AuthRequest{Entity: &types.Entity{ID: &id}, Secret: &secret})
	return err
}

func (s *speaker) login(id, secret string) error {
	ctx, f := octx("")
	defer f()
	r, err := s.c.AuthGetToken(ctx, &rpb.AuthRequest{Entity: &types.Entity{ID: &id}, Secret: &secret})
	s.tok = r.GetToken()
	return err
}

func (s *speaker) create(id, secret string) error {
	ctx, f := octx(s.tok)
	defer f()
	_, err := s.c.EntityCreate(ctx, &rpb.EntityRequest{Entity: &types.Entity{ID: &id, Secret: &secret, Number: num32(-1)}})
	return err
}

func (s *speaker) destroy(id string) error {
	ctx, f := octx(s.tok)
	defer f()
	_, err := s.c.EntityDestroy(ctx, &rpb.EntityRequest{Entity: &types.Entity{ID: &id}})
	return err
}

func (s *speaker) lock(id string) error {
	ctx, f := octx(s.tok)
	defer f()
	_, err := s.c.EntityLock(ctx, &rpb.EntityRequest{Entity: &types.Entity{ID: &id}})
	return err
}

func (s *speaker) group(name string) error {
	ctx, f := octx(s.tok)
	defer f()
	_, err := s.c.GroupCreate(ctx, &rpb.GroupRequest{Group: &types.Group{Name: &name, Number: num32(-1)}})
	return err
}

func (s *speaker) join(id, group string) error {
	ctx, f := octx(s.tok)
	defer f()
	_, err := s.c.GroupAddMember(ctx, &rpb.EntityRequest{Entity: &types.Entity{ID: &id, Meta: &types.EntityMeta{Groups: []string{group}}}})
	return err
}

func (s *speaker) secret(id, next string) error {
	ctx, f := octx(s.tok)
	defer f()
	_, err := s.c.AuthChangeSecret(ctx, &rpb.AuthRequest{Entity: &types.Entity{ID: &id}, Secret: &next})
	return err
}

func (s *speaker) members(group string) ([]string, error) {
	ctx, f := octx("")
	defer f()
	r, err := s.c.GroupMembers(ctx, &rpb.GroupRequest{Group: &types.Group{Name: &group}})
	l := eids(r.GetEntities())
	sort.Strings(l)
	return l, err
}

func (s *speaker) info(id string) (*types.Entity, error) {
	ctx, f := octx("")
	defer f()
	r, err := s.c.EntityInfo(ctx, &rpb.EntityRequest{Entity: &types.Entity{ID: &id}})
	if err != nil {
		return nil, err
	}
	return r.GetEntities()[0], nil
}

// dconf is a configuration.
type dconf map[string]string

func (c dconf) write(dir string) {
	sect := map[string][]string{}
	var names []string
	for k, v := range c {
		i := strings.LastIndex(k, ".")
		if sect[k[:i]] == nil {
			names = append(names, k[:i])
		}
		sect[k[:i]] = append(sect[k[:i]], k[i+1:]+" = "+v)
	}
	sort.Strings(names)
	b := ""
	for _, n := range names {
		b += "[" + n + "]\n" + strings.Join(sect[n], "\n") + "\n"
	}
	os.WriteFile(filepath.Join(dir, "config.toml"), []byte(b), 0644)
}

func baseConf(dir, h string, port int, backend string) dconf {
	return dconf{
		"core.home":          strconv.Quote(filepath.Join(dir, "home")),
		"core.conf":          strconv.Quote(filepath.Join(dir, "conf")),
		"db.backend":         strconv.Quote(backend),
		"server.bind":        strconv.Quote(h),
		"server.port":        fmt.Sprint(port),
		"crypto.bcrypt.cost": "4",
		"token.jwt.bits":     "1024",
		"token.jwt.generate": "true",
	}
}

// model is what the directory has to hold.
type model struct {
	ents   map[string]*ment
	groups map[string]bool
}

type ment struct {
	secret       string
	root, locked bool
	groups       map[string]bool
}

func newModel() *model {
	return &model{map[string]*ment{}, map[string]bool{}}
}

func (m *model) clone() *model {
	n := newModel()
	for k, e := range m.ents {
		x := *e
		x.groups = map[string]bool{}
		for g := range e.groups {
			x.groups[g] = true
		}
		n.ents[k] = &x
	}
	for g := range m.groups {
		n.groups[g] = true
	}
	return n
}

// differs compares a running server with the model.
func (m *model) differs(s *speaker) string {
	for _, id := range []string{"root", "ann", "boss", "new"} {
		x, err := s.info(id)
		e := m.ents[id]
		if (err == nil) != (e != nil) {
			return fmt.Sprintf("%s should be there: %v; asking for it: %v", id, e != nil, err)
		}
		for _, sec := range []string{"rootpw", "annpw", "s1", "s2", "newpw", "changed"} {
			err := s.auth(id, sec)
			want := e != nil && !e.locked && e.secret == sec
			if (err == nil) != want {
				return fmt.Sprintf("%s with secret %s: %v", id, sec, err)
			}
		}
		if e == nil {
			continue
		}
		root := false
		for _, c := range x.GetMeta().GetCapabilities() {
			root = root || c == types.Capability_GLOBAL_ROOT
			if c != types.Capability_GLOBAL_ROOT {
				return fmt.Sprintf("%s has the capability %s", id, c)
			}
		}
		if root != e.root || x.GetMeta().GetLocked() != e.locked {
			return fmt.Sprintf("%s has root %v, locked %v; should be %v, %v", id, root, x.GetMeta().GetLocked(), e.root, e.locked)
		}
	}
	for _, g := range []string{"crew"} {
		l, err := s.members(g)
		var want []string
		for id, e := range m.ents {
			if e.groups[g] {
				want = append(want, id)
			}
		}
		sort.Strings(want)
		if (err == nil) != m.groups[g] || m.groups[g] && strings.Join(l, " ") != strings.Join(want, " ") {
			return fmt.Sprintf("group %s (there: %v) has the members %q (%v), and should have %q", g, m.groups[g], l, err, want)
		}
	}
	return ""
}

type dstep struct {
	boot, act, stop string
}

func (s dstep) String() string {
	return fmt.Sprintf("start with bootstrap %q, %s, %s", s.boot, s.act, s.stop)
}

func dsteps() []dstep {
	var l []dstep
	for _, b := range []string{"", "boss:s1", "ann:s2"} {
		for _, a := range []string{"nothing", "create", "change", "lock", "destroy"} {
			for _, t := range []string{"terminate", "kill"} {
				l = append(l, dstep{b, a, t})
			}
		}
	}
	return l
}

func copyTree(from, to string) {
	if b, err := exec.Command("cp", "-a", from, to).CombinedOutput(); err != nil {
		panic(string(b))
	}
}

// life runs every sequence of starts, changes and ends.
func life(rep *report, dir, backend string, first, depth int, deadline time.Time) {
	h := host()
	seedDir := filepath.Join(dir, "seed")
	os.MkdirAll(seedDir, 0755)
	start := func(d string, boot string) (*daemon, *speaker, func(), error) {
		port := freePort(h)
		c := baseConf(d, h, port, backend)
		c.write(d)
		args := []string{"--tls.PWN_ME"}
		if boot != "" {
			args = append(args, "--server.bootstrap", boot)
		}
		s := launch(d, fmt.Sprintf("%s:%d", h, port), args...)
		if ok, err := s.up(); !ok {
			return nil, nil, nil, fmt.Errorf("it does not start: %v %s", err, s.out.tail())
		}
		cl, f := dial(s.addr, nil)
		return s, &speaker{c: cl}, f, nil
	}
	// What every sequence starts from.
	base := newModel()
	s, sp, f, err := start(seedDir, "root:rootpw")
	if err == nil {
		for _, e := range []error{sp.login("root", "rootpw"), sp.create("ann", "annpw"), sp.group("crew"), sp.join("ann", "crew")} {
			if e != nil && err == nil {
				err = e
			}
		}
		f()
		s.term()
	}
	if err != nil {
		rep.fail(nil, "the first start with a bootstrap: %v", err)
		return
	}
	base.ents["root"] = &ment{secret: "rootpw", root: true}
	base.ents["ann"] = &ment{secret: "annpw", groups: map[string]bool{"crew": true}}
	base.groups["crew"] = true

	steps := dsteps()
	var walk func(at string, m *model, trace []string, left int) bool
	walk = func(at string, m *model, trace []string, left int) bool {
		for i, st := range steps {
			if len(trace) == 0 && i != first {
				continue
			}
			if len(trace) == 2 && st.stop != "kill" {
				continue // the third end is always the hard one
			}
			if time.Now().After(deadline) {
				return false
			}
			d := filepath.Join(dir, fmt.Sprint("l", left))
			os.RemoveAll(d)
			copyTree(at, d)
			tr := append(append([]string{}, trace...), st.String())
			m := m.clone()
			s, sp, f, err := start(d, st.boot)
			if err != nil {
				rep.fail(tr, "%v", err)
				continue
			}
			rep.States++
			if st.boot != "" {
				p := strings.SplitN(st.boot, ":", 2)
				if m.ents[p[0]] == nil {
					m.ents[p[0]] = &ment{groups: map[string]bool{}}
				}
				m.ents[p[0]].secret, m.ents[p[0]].root, m.ents[p[0]].locked = p[1], true, false
			}
			if x := m.differs(sp); x != "" {
				rep.fail(tr, "after the start: %s", x)
			}
			rep.Trans++
			err = sp.login("root", "rootpw")
			if err == nil {
				switch st.act {
				case "create":
					err = sp.create("new", "newpw")
					if (err == nil) != (m.ents["new"] == nil) {
						rep.fail(tr, "creating new: %v", err)
					}
					if err == nil {
						m.ents["new"] = &ment{secret: "newpw", groups: map[string]bool{}}
						if err = sp.join("new", "crew"); err == nil {
							m.ents["new"].groups["crew"] = true
						}
					} else {
						err = nil
					}
				case "change", "lock", "destroy":
					fn := func() error { return sp.secret("ann", "changed") }
					if st.act == "lock" {
						fn = func() error { return sp.lock("ann") }
					}
					if st.act == "destroy" {
						fn = func() error { return sp.destroy("ann") }
					}
					err = fn()
					if e := m.ents["ann"]; e == nil {
						if err == nil {
							rep.fail(tr, "%s of an entity that is not there succeeds", st.act)
						}
						err = nil
					} else if err == nil {
						switch st.act {
						case "change":
							e.secret = "changed"
						case "lock":
							e.locked = true
						default:
							delete(m.ents, "ann")
						}
					}
				}
			}
			if err != nil {
				rep.fail(tr, "%s: %v", st.act, err)
			}
			if left == 1 {
				if x := m.differs(sp); x != "" {
					rep.fail(tr, "at the end: %s", x)
				}
			}
			f()
			if st.stop == "kill" {
				s.kill()
			} else if err := s.term(); err != nil {
				rep.fail(tr, "told to terminate: %v %s", err, s.out.tail())
			}
			if left > 1 && !walk(d, m, tr, left-1) {
				return false
			}
			if left == 1 && len(tr) == 1 || left == 1 && i%7 == first%7 {
				// One more start shows what a stop leaves behind.
				s, sp, f, err := start(d, "")
				if err != nil {
					rep.fail(tr, "%v", err)
					continue
				}
				if x := m.differs(sp); x != "" {
					rep.fail(tr, "started once more: %s", x)
				}
				f()
				s.kill()
			}
		}
		return true
	}
	rep.Complete = walk(seedDir, base, nil, depth)
}

// dopt is an option of the configuration with one value of it.
type dopt struct {
	opt, val string
	bad      bool // the server must not serve
	set      func(x *dsetup)
}

type dsetup struct {
	dir, h string
	port   int
	c      dconf
	args   []string
	tls    bool
	boot   bool
	ro     bool
	life   time.Duration
	hold   net.Listener
	plugs  string // where the plugins are
	write  string // where it is told to write the configuration
	conf   string // where the keys are looked for
	all    bool   // it serves on every address
}

func dopts() []dopt {
	q := strconv.Quote
	conf := func(k, v string) func(x *dsetup) { return func(x *dsetup) { x.c[k] = v } }
	keys := func(x *dsetup) string { return filepath.Join(x.conf, "keys") }
	cert := func(x *dsetup, c, k string) {
		os.MkdirAll(keys(x), 0755)
		x.tls = true
		var a []string
		for _, s := range x.args {
			if s != "--tls.PWN_ME" {
				a = append(a, s)
			}
		}
		x.args = a
		x.c["tls.certificate"], x.c["tls.key"] = q("keys/tls.pem"), q("keys/tls.key")
		if c != "" {
			os.WriteFile(filepath.Join(keys(x), "tls.pem"), []byte(c), 0644)
		}
		if k != "" {
			os.WriteFile(filepath.Join(keys(x), "tls.key"), []byte(k), 0600)
		}
	}
	// token.key and token.pem of a former start
	had := func(x *dsetup, names ...string) {
		os.MkdirAll(keys(x), 0755)
		for _, n := range names {
			b, err := os.ReadFile(filepath.Join(filepath.Dir(x.dir), "made", "conf", "keys", n))
			if err != nil {
				panic(err)
			}
			m := os.FileMode(0644)
			if n == "token.key" {
				m = 0400
			}
			os.WriteFile(filepath.Join(keys(x), n), b, m)
		}
	}
	local := func(x *dsetup) {
		x.h = "127.0.0.1"
		x.port = freePort(x.h)
		x.c["server.port"] = fmt.Sprint(x.port)
	}
	l := []dopt{
		{"bind", "everywhere", false, func(x *dsetup) { x.all = true; x.c["server.bind"] = q("0.0.0.0") }},
		{"conf", "that of the file", false, func(x *dsetup) { x.conf = x.dir; delete(x.c, "core.conf") }},
	}
	if a, err := net.LookupHost("localhost"); err == nil && len(a) > 0 && a[0] == "127.0.0.1" {
		l = append(l,
			dopt{"bind", "localhost", false, func(x *dsetup) { local(x); x.c["server.bind"] = q("localhost") }},
			dopt{"bind", "default", false, func(x *dsetup) { local(x); delete(x.c, "server.bind") }})
	}
	return append(l, []dopt{
		{"port", "on the command line", false, func(x *dsetup) {
			x.args = append(x.args, fmt.Sprint("--server.port=", x.port))
			x.c["server.port"] = "1"
		}},
		{"backend", "bitcask", false, conf("db.backend", q("bitcask"))},
		{"backend", "unknown", true, conf("db.backend", q("no-such"))},
		{"backend", "memory", true, conf("db.backend", q("memory"))},
		{"crypto", "unknown", true, conf("crypto.backend", q("no-such"))},
		{"crypto", "none", true, conf("crypto.backend", q("nocrypto"))},
		{"token", "unknown", true, conf("token.backend", q("no-such"))},
		{"keys", "none and none to be made", true, conf("token.jwt.generate", "false")},
		{"keys", "present", false, func(x *dsetup) { had(x, "token.key", "token.pem"); x.c["token.jwt.generate"] = "false" }},
		{"keys", "public one unreadable", true, func(x *dsetup) {
			had(x, "token.key")
			os.WriteFile(filepath.Join(keys(x), "token.pem"), []byte("junk"), 0644)
		}},
		{"tls", "certificate", false, func(x *dsetup) { c, k := selfSigned(x.h); cert(x, c, k) }},
		{"tls", "no certificate", true, func(x *dsetup) { _, k := selfSigned(x.h); cert(x, "", k) }},
		{"tls", "no key", true, func(x *dsetup) { c, _ := selfSigned(x.h); cert(x, c, "") }},
		{"tls", "key of another", true, func(x *dsetup) { c, _ := selfSigned(x.h); _, k := selfSigned(x.h); cert(x, c, k) }},
		{"tls", "junk", true, func(x *dsetup) { cert(x, "junk", "junk") }},
		{"tls", "disabled in the file only, certificate", false, func(x *dsetup) {
			c, k := selfSigned(x.h)
			cert(x, c, k)
			x.c["tls.PWN_ME"] = "true"
		}},
		{"tls", "disabled in the file only, nothing", true, func(x *dsetup) { cert(x, "", ""); x.c["tls.PWN_ME"] = "true" }},
		{"bootstrap", "right", false, func(x *dsetup) { x.args = append(x.args, "--server.bootstrap", "boss:s1"); x.boot = true }},
		{"bootstrap", "with colons", false, func(x *dsetup) { x.args = append(x.args, "--server.bootstrap=boss:s:1"); x.boot = true }},
		{"bootstrap", "without secret", true, func(x *dsetup) { x.args = append(x.args, "--server.bootstrap", "boss") }},
		{"bootstrap", "of nobody", true, func(x *dsetup) { x.args = append(x.args, "--server.bootstrap", ":s1") }},
		{"bootstrap", "of an impossible name", true, func(x *dsetup) { x.args = append(x.args, "--server.bootstrap", "a/b:s1") }},
		{"plugins", "one", false, func(x *dsetup) {
			x.plugs = filepath.Join(x.dir, "plugs")
			os.MkdirAll(x.plugs, 0755)
			if err := os.Link(os.Getenv("ZV_TESTPLUGIN"), filepath.Join(x.plugs, "p.treeplugin")); err != nil {
				copyTree(os.Getenv("ZV_TESTPLUGIN"), filepath.Join(x.plugs, "p.treeplugin"))
			}
			x.c["plugin.enabled"], x.c["plugin.path"] = "true", q(x.plugs)
		}},
		{"write", "somewhere", false, func(x *dsetup) { x.write = filepath.Join(x.dir, "written.toml") }},
		{"write", "nowhere", false, func(x *dsetup) { x.write = filepath.Join(x.dir, "none", "written.toml") }},
		{"option", "unknown", true, func(x *dsetup) { x.args = append(x.args, "--no-such") }},
		{"option", "of a wrong type", true, func(x *dsetup) { x.args = append(x.args, "--server.port=many") }},
		{"home", "a file", true, func(x *dsetup) {
			os.RemoveAll(filepath.Join(x.dir, "home"))
			os.WriteFile(filepath.Join(x.dir, "home"), []byte("x"), 0644)
		}},
		{"port", "in use", true, func(x *dsetup) {
			l, err := net.Listen("tcp", fmt.Sprintf("%s:%d", x.h, x.port))
			if err != nil {
				panic(err)
			}
			x.hold = l
		}},
		{"readonly", "yes", false, func(x *dsetup) { x.c["server.readonly"] = "true"; x.ro = true }},
		{"readonly", "no", false, conf("server.readonly", "false")},
		{"lifetime", "90s", false, func(x *dsetup) { x.c["token.lifetime"] = q("90s"); x.life = 90 * time.Second }},
		{"lifetime", "3h", false, func(x *dsetup) { x.c["token.lifetime"] = q("3h"); x.life = 3 * time.Hour }},
		{"lifetime", "on the command line", false, func(x *dsetup) {
			x.args = append(x.args, "--token.lifetime=20m")
			x.life = 20 * time.Minute
		}},
		{"tls", "certificate, absolute paths", false, func(x *dsetup) {
			c, k := selfSigned(x.h)
			cert(x, c, k)
			x.c["tls.certificate"], x.c["tls.key"] = q(filepath.Join(keys(x), "tls.pem")), q(filepath.Join(keys(x), "tls.key"))
		}},
		{"config", "missing", true, func(x *dsetup) { x.c = nil }},
		{"config", "malformed", true, func(x *dsetup) { x.c = dconf{"core.home": "[[["} }},
	}...)
}

// checked starts one configuration and judges what comes of it.
func checked(rep *report, dir string, opts []dopt) {
	h := host()
	x := &dsetup{dir: dir, h: h, port: freePort(h), life: 10 * time.Minute, args: []string{"--tls.PWN_ME"}, conf: filepath.Join(dir, "conf")}
	x.c = baseConf(dir, h, x.port, "filesystem")
	bad := false
	var names []string
	for _, o := range opts {
		names = append(names, o.opt+": "+o.val)
		bad = bad || o.bad
		if x.c != nil && x.c["core.home"] != "[[[" || o.opt != "config" {
			o.set(x)
		}
	}
	what := strings.Join(names, ", ")
	if x.c != nil {
		x.c.write(dir)
	}
	if x.write != "" {
		x.args = append(x.args, "--write-config", x.write)
	}
	if x.hold != nil {
		defer x.hold.Close()
	}
	rep.States++
	addr := fmt.Sprintf("%s:%d", x.h, x.port)
	d := launch(dir, addr, x.args...)
	fail := func(f string, a ...interface{}) {
		rep.fail([]string{what, d.out.tail()}, "%s: %s", what, fmt.Sprintf(f, a...))
	}
	if x.plugs != "" {
		defer func() {
			if l := runningBelow(x.plugs); len(l) > 0 {
				fail("%d plugins are left running", len(l))
			}
		}()
	}
	if x.write != "" {
		// It writes its configuration and ends, or fails.
		var err error
		select {
		case err = <-d.done:
		case <-time.After(40 * time.Second):
			d.kill()
			fail("it goes on")
			return
		}
		b, ferr := os.ReadFile(x.write)
		if ferr != nil {
			ferr = fmt.Errorf("it is not there")
		}
		if (err == nil) != (ferr == nil && len(b) > 0) && !(bad && err != nil) {
			fail("told to write its configuration it ends with %v, and reading that: %v", err, ferr)
		}
		return
	}
	if bad {
		// It has to end by itself, and not to serve before.
		t0 := time.Now()
		for {
			select {
			case err := <-d.done:
				if err == nil {
					fail("it ends as if successful")
				}
				return
			default:
			}
			if x.hold == nil && accepts(addr) {
				fail("it serves")
				d.kill()
				return
			}
			if time.Since(t0) > 40*time.Second {
				fail("it goes on")
				d.kill()
				return
			}
			time.Sleep(3 * time.Millisecond)
		}
	}
	ok, err := d.up()
	if !ok {
		fail("it does not serve: %v", err)
		return
	}
	defer d.kill()
	elsewhere := "127.0.0.1"
	if x.h == elsewhere {
		elsewhere = h
	}
	if got := accepts(fmt.Sprintf("%s:%d", elsewhere, x.port)); got != x.all {
		fail("it is to serve everywhere: %v, it serves on another address: %v", x.all, got)
	}
	var tc *tls.Config
	if x.tls {
		pool := x509.NewCertPool()
		b, _ := os.ReadFile(filepath.Join(x.conf, "keys", "tls.pem"))
		pool.AppendCertsFromPEM(b)
		tc = &tls.Config{RootCAs: pool}
	}
	c, f := dial(addr, tc)
	defer f()
	sp := &speaker{c: c}
	ctx, cf := octx("")
	_, err = c.SystemPing(ctx, &rpb.Empty{})
	cf()
	if err != nil {
		fail("no answer: %v", err)
		return
	}
	rep.Trans++
	// The other way of connecting does not work.
	other := &tls.Config{InsecureSkipVerify: true}
	if x.tls {
		other = nil
	}
	if x.tls {
		oc, of := dial(addr, other)
		octx2, ocf := context.WithTimeout(context.Background(), 2*time.Second)
		_, err = oc.SystemPing(octx2, &rpb.Empty{})
		ocf()
		of()
		if err == nil {
			fail("it answers without TLS")
		}
	}
	// root comes from the store made beforehand, if that is used.
	if x.boot {
		sec := "s1"
		if strings.Contains(what, "with colons") {
			sec = "s:1"
		}
		if err := sp.login("boss", sec); err != nil {
			fail("the bootstrapped entity cannot log in: %v", err)
			return
		}
		p := strings.Split(sp.tok, ".")
		b, _ := base64.RawURLEncoding.DecodeString(p[1])
		var cl struct {
			Exp int64 `json:"exp"`
			Iat int64 `json:"iat"`
		}
		json.Unmarshal(b, &cl)
		if got := time.Duration(cl.Exp-cl.Iat) * time.Second; got != x.life {
			fail("tokens are valid for %v, configured is %v", got, x.life)
		}
		err := sp.create("new", "newpw")
		if x.ro {
			s, _ := status.FromError(err)
			if err == nil || s.Code() == codes.OK {
				fail("a read-only server creates an entity")
			}
			if _, err := sp.info("new"); err == nil {
				fail("a read-only server created an entity")
			}
		} else if err != nil {
			fail("an entity cannot be created: %v", err)
		}
		if _, err := sp.info("boss"); err != nil {
			fail("an entity cannot be read: %v", err)
		}
		if err := sp.auth("boss", "wrong"); err == nil {
			fail("a wrong secret is accepted")
		}
	} else if err := sp.auth("boss", "s1"); err == nil {
		fail("somebody is there without bootstrapping")
	}
	if err := d.term(); err != nil {
		fail("told to terminate: %v", err)
		return
	}
	if accepts(addr) {
		fail("it still listens after its end")
	}
}

// selfSigned makes a certificate for the address and its key.
func selfSigned(h string) (string, string) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{
		SerialNumber: big.NewInt(time.Now().UnixNano()),
		Subject:      pkix.Name{CommonName: h},
		NotBefore:    time.Now().Add(-time.Hour),
		NotAfter:     time.Now().Add(24 * time.Hour),
		IsCA:         true, BasicConstraintsValid: true,
		KeyUsage:    x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
		IPAddresses: []net.IP{net.ParseIP(h)},
	}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
	if err != nil {
		panic(err)
	}
	kb, err := x509.MarshalPKCS8PrivateKey(k)
	if err != nil {
		panic(err)
	}
	return string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})), string(pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: kb}))
}

// configs runs all combinations of up to three options.
func configs(rep *report, dir string, part, parts, depth int, deadline time.Time) {
	// Keys for those that need some.
	made := filepath.Join(dir, "made")
	os.MkdirAll(made, 0755)
	h := host()
	port := freePort(h)
	baseConf(made, h, port, "filesystem").write(made)
	d := launch(made, fmt.Sprintf("%s:%d", h, port), "--tls.PWN_ME")
	if ok, err := d.up(); !ok {
		rep.fail(nil, "it does not start: %v", err)
		return
	}
	d.kill()
	opts := dopts()
	n := 0
	boot := dopt{}
	for _, o := range opts {
		if o.opt == "bootstrap" && o.val == "right" {
			boot = o
		}
	}
	var walk func(from int, chosen []dopt) bool
	walk = func(from int, chosen []dopt) bool {
		if n++; n%parts == part {
			if time.Now().After(deadline) {
				return false
			}
			// More can be asked of a server that has somebody.
			sets := [][]dopt{chosen}
			has := false
			for _, o := range chosen {
				has = has || o.opt == "bootstrap" || o.bad
			}
			if !has {
				sets = append(sets, append(append([]dopt{}, chosen...), boot))
			}
			for _, s := range sets {
				w := filepath.Join(dir, "run")
				os.RemoveAll(w)
				os.MkdirAll(w, 0755)
				checked(rep, w, s)
			}
		}
		if len(chosen) == depth {
			return true
		}
		for i := from; i < len(opts); i++ {
			dup, bad := false, 0
			for _, o := range chosen {
				dup = dup || o.opt == opts[i].opt
				if o.bad {
					bad++
				}
			}
			if dup || bad > 0 && opts[i].bad && len(chosen) > 1 {
				continue
			}
			if !walk(i+1, append(append([]dopt{}, chosen...), opts[i])) {
				return false
			}
		}
		return true
	}
	rep.Complete = walk(0, nil)
}

// pluginsRun starts the server with plugins of several kinds, and looks for
// what is left of them.
func pluginsRun(rep *report, dir string, deadline time.Time) {
	h := host()
	tool := os.Getenv("ZV_TESTPLUGIN")
	kinds := map[string]func(p string){
		"good": func(p string) {
			copyTree(tool, p)
		},
		"not executable": func(p string) { os.WriteFile(p, []byte("x"), 0644) },
		"failing":        func(p string) { os.WriteFile(p, []byte("#!/bin/sh\nexit 3\n"), 0755) },
		"of another kind": func(p string) {
			copyTree(tool, p)
			os.WriteFile(p+".ctl", []byte(`{"start":"other"}`), 0644)
		},
	}
	var names []string
	for k := range kinds {
		names = append(names, k)
	}
	sort.Strings(names)
	n := 0
	for _, enabled := range []bool{true, false} {
		for set := 0; set < 1<<uint(len(names)); set++ {
			for _, static := range []bool{false, true} {
				if time.Now().After(deadline) {
					return
				}
				n++
				w := filepath.Join(dir, fmt.Sprint("p", n))
				pd := filepath.Join(w, "plugs")
				os.MkdirAll(pd, 0755)
				var list []string
				good := ""
				for i, k := range names {
					if set>>uint(i)&1 == 0 {
						continue
					}
					p := filepath.Join(pd, fmt.Sprintf("p%d.treeplugin", i))
					kinds[k](p)
					list = append(list, strconv.Quote(p))
					if k == "good" {
						good = p
					}
				}
				port := freePort(h)
				c := baseConf(w, h, port, "filesystem")
				c["plugin.enabled"] = fmt.Sprint(enabled)
				c["plugin.path"] = strconv.Quote(pd)
				if static {
					c["plugin.loadstatic"] = "true"
					c["plugin.list"] = "[" + strings.Join(list, ", ") + "]"
				}
				c.write(w)
				what := fmt.Sprintf("plugins %v (enabled: %v, listed: %v)", list, enabled, static)
				rep.States++
				d := launch(w, fmt.Sprintf("%s:%d", h, port), "--tls.PWN_ME", "--server.bootstrap", "boss:s1")
				fail := func(f string, a ...interface{}) {
					rep.fail([]string{what, d.out.tail()}, "%s", strings.Replace(fmt.Sprintf(f, a...), dir, "", -1))
				}
				if ok, err := d.up(); !ok {
					fail("%d plugins: it does not serve: %v", len(list), err)
					continue
				}
				cl, f := dial(d.addr, nil)
				sp := &speaker{c: cl}
				err := sp.login("boss", "s1")
				if err == nil {
					err = sp.create("new", "x")
				}
				if err != nil {
					fail("%d plugins: a request fails: %v", len(list), err)
				}
				rep.Trans++
				_, e := os.Stat(good + ".log")
				if good != "" && (e == nil) != enabled {
					fail("the plugin has been called: %v, and plugins are enabled: %v", e == nil, enabled)
				}
				f()
				if err := d.term(); err != nil {
					fail("told to terminate: %v", err)
				}
				for _, p := range runningBelow(pd) {
					fail("a plugin is left running: %s", filepath.Base(p))
				}
			}
		}
	}
	rep.Complete = true
}

// signals tells the server to end at every moment of its start that can be
// told from what it says.
func signals(rep *report, dir, level string, part, parts int, deadline time.Time) {
	h := host()
	made := filepath.Join(dir, "made")
	os.MkdirAll(made, 0755)
	conf := func(w string, port int) {
		c := baseConf(w, h, port, "filesystem")
		c["plugin.enabled"], c["plugin.path"] = "true", strconv.Quote(filepath.Join(w, "plugs"))
		c.write(w)
	}
	plugs := filepath.Join(made, "plugs")
	os.MkdirAll(plugs, 0755)
	copyTree(os.Getenv("ZV_TESTPLUGIN"), filepath.Join(plugs, "p.treeplugin"))
	copyTree(os.Getenv("ZV_TESTPLUGIN"), filepath.Join(plugs, "q.treeplugin"))
	port := freePort(h)
	conf(made, port)
	args := []string{"--tls.PWN_ME", "--server.bootstrap", "boss:s1"}
	w := filepath.Join(dir, "run")
	lines := 0
	for _, at := range []string{made, w} {
		// The second start says what those say that follow.
		if at == w {
			copyTree(made, w)
			port = freePort(h)
			conf(w, port)
		}
		d := launchTo(&syncBuf{}, level, at, fmt.Sprintf("%s:%d", h, port), args...)
		if ok, err := d.up(); !ok {
			rep.fail(nil, "it does not start: %v", err)
			return
		}
		lines = d.out.count()
		d.term()
		for _, p := range runningBelow(filepath.Join(at, "plugs")) {
			rep.fail(nil, "a plugin is left running: %s", filepath.Base(p))
		}
	}
	for n := 1; n <= lines; n++ {
		for i, sig := range []syscall.Signal{syscall.SIGTERM, syscall.SIGINT} {
			if (2*n+i)%parts != part {
				continue
			}
			if time.Now().After(deadline) {
				return
			}
			os.RemoveAll(w)
			copyTree(made, w)
			port := freePort(h)
			conf(w, port)
			addr := fmt.Sprintf("%s:%d", h, port)
			d := launchSignalled(sig, n, level, w, addr, args...)
			rep.States++
			tr := []string{fmt.Sprintf("%v after line %d", sig, n)}
			if ok, _ := d.up(); ok {
				// It said less this time, or it takes a while.
				select {
				case err := <-d.done:
					d.done <- err
				case <-time.After(300 * time.Millisecond):
					d.cmd.Process.Signal(sig)
				}
			}
			select {
			case err := <-d.done:
				if err == nil {
					break
				}
				// Before it is ready for it, a signal just ends it.
				e, _ := err.(*exec.ExitError)
				if st, _ := e.Sys().(syscall.WaitStatus); !st.Signaled() || st.Signal() != sig {
					rep.fail(append(tr, d.out.tail()), "%v during the start ends it with %v", sig, err)
				}
			case <-time.After(20 * time.Second):
				rep.fail(append(tr, d.out.tail()), "%v during the start does not end it", sig)
				d.kill()
			}
			for _, p := range runningBelow(filepath.Join(w, "plugs")) {
				rep.fail(tr, "%v during the start leaves a plugin running: %s", sig, filepath.Base(p))
			}
			if accepts(addr) {
				rep.fail(tr, "after %v during the start something still listens", sig)
			}
			d = launch(w, addr, "--tls.PWN_ME")
			if ok, err := d.up(); !ok {
				rep.fail(append(tr, d.out.tail()), "after %v during the start it does not start: %v", sig, err)
				continue
			}
			cl, f := dial(addr, nil)
			sp := &speaker{c: cl}
			if err := sp.auth("boss", "s1"); err != nil {
				rep.fail(tr, "after %v during the start somebody can't authenticate: %v", sig, err)
			}
			f()
			rep.Trans++
			if err := d.term(); err != nil {
				rep.fail(tr, "told to terminate: %v", err)
			}
		}
	}
	rep.Complete = true
}

// runningBelow lists the programs below a directory that run.
func runningBelow(dir string) []string {
	var out []string
	l, _ := filepath.Glob("/proc/[0-9]*/exe")
	for _, f := range l {
		if t, err := os.Readlink(f); err == nil && strings.HasPrefix(t, dir+"/") {
			out = append(out, t)
			if pid, err := strconv.Atoi(strings.Split(f, "/")[2]); err == nil {
				syscall.Kill(pid, syscall.SIGKILL)
			}
		}
	}
	return out
}

func daemonChild(args []string) {
	rep := &report{}
	f := strings.Fields(args[0])
	secs, _ := strconv.Atoi(args[3])
	deadline := time.Now().Add(time.Duration(secs) * time.Second)
	n := func(i int) int {
		x, _ := strconv.Atoi(f[i])
		return x
	}
	eng.Setup()
	switch f[0] {
	case "life":
		life(rep, args[2], f[1], n(2), n(3), deadline)
	case "configs":
		configs(rep, args[2], n(1), n(2), n(3), deadline)
	case "signals":
		signals(rep, args[2], f[1], n(2), n(3), deadline)
	case "plugins":
		pluginsRun(rep, args[2], deadline)
	}
	rep.print()
	os.Exit(0)
}

func c38() *eng.Check {
	return &eng.Check{ID: "C38", Level: "model_checking",
		Run: func(r *eng.Run) {
			r.Exhaustive = true
			names := []string{"plugins"}
			level := "DEBUG"
			if r.Thorough() {
				level = "TRACE"
			}
			for i := 0; i < 8; i++ {
				names = append(names, fmt.Sprintf("signals %s %d 8", level, i))
			}
			for i := 0; i < 16; i++ {
				names = append(names, fmt.Sprintf("configs %d 16 %d", i, r.Pick(2, 3)))
			}
			for i := range dsteps() {
				for _, b := range []string{"filesystem", "bitcask"} {
					names = append(names, fmt.Sprintf("life %s %d %d", b, i, r.Pick(2, 3)))
				}
			}
			scenarios(r, "daemon", names, 8)
		},
		ReplayOne: func(r *eng.Run, v *eng.Violation) error { return again(r, "daemon", v) },
	}
}
