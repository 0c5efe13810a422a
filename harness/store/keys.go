package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/spf13/viper"

	"github.com/netauth/netauth/internal/health"
	"github.com/netauth/netauth/internal/token"
	"github.com/netauth/netauth/internal/zverif/eng"
	// the service whose keys these are
	_ "github.com/netauth/netauth/internal/token/jwt"
)

// keysReport is what came of starting the token service.
type keysReport struct {
	Err    string // why it did not start
	Tok    string // a token it issued
	TokErr string
	Self   string // what it says about its own token
	Old    string // what it says about an earlier token
	Health string
	Ident  string // identity in the token according to the service
}

var keysClaims = token.Claims{EntityID: "e1"}

func mintConf() token.Config {
	t := time.Now()
	return token.Config{Lifetime: time.Hour, IssuedAt: t, NotBefore: t}
}

// keysChild is the child: keys CONF GENERATE UMASK UID [OLD TOKEN].
func keysChild(args []string) {
	runtime.LockOSThread()
	if u, _ := strconv.Atoi(args[3]); u != 0 {
		syscall.Setgroups(nil)
		if syscall.Setgid(u) != nil || syscall.Setuid(u) != nil {
			fmt.Println("cannot give up privileges")
			os.Exit(3)
		}
	}
	um, _ := strconv.ParseInt(args[2], 8, 32)
	syscall.Umask(int(um))
	eng.Setup()
	viper.Set("core.conf", args[0])
	viper.Set("token.jwt.generate", args[1] == "1")
	viper.Set("token.jwt.bits", 1024)
	var rep keysReport
	mark("start", 0)
	mark("begin", 0)
	svc, err := token.New("jwt-rsa")
	mark("end", 0)
	defer func() {
		b, _ := json.Marshal(rep)
		fmt.Println("\nREPORT " + string(b))
		os.Exit(0)
	}()
	text := func(err error) string {
		if err == nil {
			return ""
		}
		return err.Error()
	}
	if err != nil {
		rep.Err = err.Error()
		return
	}
	rep.Tok, err = svc.Generate(keysClaims, mintConf())
	rep.TokErr = text(err)
	if rep.TokErr == "" {
		c, err := svc.Validate(rep.Tok)
		rep.Self, rep.Ident = text(err), c.EntityID
	}
	if len(args) > 4 {
		_, err := svc.Validate(args[4])
		rep.Old = text(err)
	}
	if s := health.Check(); !s.OK {
		rep.Health = s.FirstFailure.String()
	}
}

func runKeys(pre []string, conf string, gen bool, umask string, uid int, old string) (*keysReport, error) {
	self, _ := os.Executable()
	g := "0"
	if gen {
		g = "1"
	}
	args := append(append([]string{}, pre...), self, "keys", conf, g, umask, strconv.Itoa(uid))
	if old != "" {
		args = append(args, old)
	}
	cmd := command(args[0], args[1:]...)
	cmd.Dir = "/"
	cmd.Env = append(os.Environ(), "TMPDIR=/nonexistent", "GOMAXPROCS=1")
	out, err := cmd.CombinedOutput()
	i := strings.LastIndex(string(out), "\nREPORT ")
	if i < 0 {
		if len(out) > 400 {
			out = out[:400]
		}
		return nil, fmt.Errorf("the token service falls over: %v %s", err, out)
	}
	var rep keysReport
	if err := json.Unmarshal(out[i+8:], &rep); err != nil {
		return nil, err
	}
	return &rep, nil
}

var clientMu sync.Mutex

// clientSays presents a token to a client that has the public key file.
func clientSays(conf, scratch, tok string) error {
	b, err := os.ReadFile(filepath.Join(conf, "keys", "token.pem"))
	if err != nil {
		return fmt.Errorf("there is no public key file: %v", err)
	}
	os.MkdirAll(filepath.Join(scratch, "keys"), 0755)
	f := filepath.Join(scratch, "keys", "token.pem")
	os.WriteFile(f, b, 0644)
	os.Chmod(f, 0644)
	defer os.RemoveAll(scratch)
	clientMu.Lock()
	viper.Set("core.conf", scratch)
	viper.Set("token.jwt.generate", false)
	s, err := token.New("jwt-rsa")
	clientMu.Unlock()
	if err != nil {
		return err
	}
	c, err := s.Validate(tok)
	if err == nil && c.EntityID != keysClaims.EntityID {
		err = fmt.Errorf("it says %q", c.EntityID)
	}
	return err
}

// snapshot describes the files of a directory.
func snapshot(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel := strings.TrimPrefix(p, dir)
		if i.IsDir() {
			m[rel] = "directory"
			return nil
		}
		b, _ := os.ReadFile(p)
		m[rel] = fmt.Sprintf("%v %s", i.Mode().Perm(), b)
		return nil
	})
	return m
}

func own(base string, uid int) {
	filepath.Walk(base, func(p string, _ os.FileInfo, _ error) error { return os.Lchown(p, uid, uid) })
}

func secretKey(b []byte) bool { return bytes.Contains(b, []byte("PRIVATE KEY-----\nM")) }

// exposed reports a file with a private key that others may read.
func exposed(files map[string][]byte, modes map[string]os.FileMode) error {
	var l []string
	for p := range files {
		l = append(l, p)
	}
	sort.Strings(l)
	for _, p := range l {
		if secretKey(files[p]) && modes[p]&077 != 0 {
			return fmt.Errorf("the private key is readable to others, in %s (%v)", name(p), modes[p])
		}
	}
	return nil
}

// healthy judges a start that had to succeed, and starts once more.
func healthy(base string, uid int, umask string, rep *keysReport, old string) error {
	conf := filepath.Join(base, "conf")
	if rep.Err != "" {
		return fmt.Errorf("the token service does not start: %s", rep.Err)
	}
	if rep.TokErr != "" {
		return fmt.Errorf("no token is issued: %s", rep.TokErr)
	}
	if rep.Self != "" || rep.Ident != keysClaims.EntityID {
		return fmt.Errorf("the service refuses its own token: %s", rep.Self)
	}
	if err := clientSays(conf, filepath.Join(base, "client"), rep.Tok); err != nil {
		return fmt.Errorf("a client with the public key file refuses the token: %v", err)
	}
	if old != "" && rep.Old != "" {
		return fmt.Errorf("a token issued earlier is no longer accepted: %s", rep.Old)
	}
	if rep.Health != "" {
		return fmt.Errorf("the service reports %s", rep.Health)
	}
	was := snapshot(conf)
	for _, gen := range []bool{true, false} {
		again, err := runKeys(nil, conf, gen, umask, uid, rep.Tok)
		if err != nil {
			return err
		}
		if again.Err != "" || again.TokErr != "" || again.Self != "" || again.Old != "" {
			return fmt.Errorf("started again (generation %v) the service says %q %q %q, and of the earlier token %q", gen, again.Err, again.TokErr, again.Self, again.Old)
		}
		if d := changedFiles(was, snapshot(conf)); d != "" {
			return fmt.Errorf("starting again (generation %v) changed %s", gen, d)
		}
	}
	return nil
}

func changedFiles(a, b map[string]string) string {
	var l []string
	for k := range a {
		if a[k] != b[k] {
			l = append(l, k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			l = append(l, k)
		}
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}

type keysRun struct {
	r      *eng.Run
	base   string
	n      int64
	mu     sync.Mutex
	seen   map[string]bool
	nodes  int64
	ev     int64
	hist   int64
	starts int64
	odd    string
}

func (c *keysRun) dir() string {
	return filepath.Join(c.base, strconv.FormatInt(atomic.AddInt64(&c.n, 1), 10))
}

const straceSet = "-f --seccomp-bpf -qq -xx -s 100000 -e signal=none"

// shape describes a state of the disk without the keys themselves.
func (d *disk) shape(base string) string {
	var l []string
	for p := range d.dirs {
		l = append(l, strings.TrimPrefix(p, base)+"/")
	}
	for p, b := range d.files {
		c := "part " + strconv.Itoa(len(b))
		switch {
		case len(b) == 0:
			c = "empty"
		case bytes.HasSuffix(b, []byte("KEY-----\n")) && bytes.HasPrefix(b, []byte("-----BEGIN")):
			c = "complete " + string(b[:20])
		}
		l = append(l, fmt.Sprintf("%s %v %s", random.ReplaceAllString(strings.TrimPrefix(p, base), "#"), d.modes[p], c))
	}
	sort.Strings(l)
	return strings.Join(l, "\n") + fmt.Sprint(len(d.allow))
}

// crash records a start on the given disk and judges every state a crash of
// it can leave.
func (c *keysRun) crash(from *disk, fromBase string, umask string, uid, depth int, trail []string, only []string) error {
	base := c.dir()
	defer os.RemoveAll(base)
	os.MkdirAll(filepath.Join(base, "conf"), 0755)
	if from != nil {
		if err := from.build(fromBase, base); err != nil {
			return nil
		}
	}
	own(base, uid)
	t := &tracer{base: base, cwd: "/"}
	t.begin()
	out := base + ".strace"
	defer os.Remove(out)
	rep, err := runKeys(append(append([]string{"strace"}, strings.Fields(straceSet)...), "-e", "trace="+watched, "-o", out), filepath.Join(base, "conf"), true, umask, uid, "")
	if err != nil {
		return err
	}
	if err := t.parse(out); err != nil {
		return err
	}
	h := &history{ops: []string{"the start"}, before: map[string][]byte{"s": []byte("before")}, states: []map[string][]byte{{"s": []byte("done")}}}
	h.take(t)
	c.mu.Lock()
	c.hist++
	c.ev += int64(len(h.ev))
	if len(h.odd) > 0 {
		c.odd = h.odd[0]
	}
	c.mu.Unlock()
	if from == nil {
		if err := healthy(base, uid, umask, rep, ""); err != nil {
			return fmt.Errorf("after the first start: %v", err)
		}
	}
	var first error
	for _, power := range []bool{false, true} {
		h.crashes(power, true, func(d *disk) bool {
			if only == nil && c.r.Expired() {
				return false
			}
			if only != nil && d.what != only[0] {
				return true
			}
			k := umask + " " + strconv.Itoa(uid) + " " + d.shape(base)
			c.mu.Lock()
			dup := c.seen[k]
			c.seen[k] = true
			c.mu.Unlock()
			if dup && only == nil {
				return true
			}
			atomic.AddInt64(&c.nodes, 1)
			tr := append(append([]string{}, trail...), d.what)
			if only != nil && len(only) > 1 {
				first = c.crash(d, base, umask, uid, 0, tr, only[1:])
				return false
			}
			old := ""
			if len(d.allow) == 1 && string(d.allow[0]["s"]) == "done" {
				old = rep.Tok
			}
			if err := c.judge(d, base, umask, uid, old); err != nil {
				if first == nil {
					first = fmt.Errorf("%s: %v", strings.Join(tr, "; then "), err)
				}
				if only == nil {
					c.mu.Lock()
					c.r.Fail("crash", append([]string{umask, strconv.Itoa(uid)}, tr...), "%v", first)
					c.mu.Unlock()
				}
				return false
			}
			if depth > 0 && old == "" {
				if err := c.crash(d, base, umask, uid, depth-1, tr, nil); err != nil && first == nil {
					first = err
				}
			}
			return only == nil
		})
		if first != nil {
			return first
		}
	}
	return first
}

func (c *keysRun) judge(d *disk, base, umask string, uid int, old string) error {
	if err := exposed(d.files, d.modes); err != nil {
		return err
	}
	nb := c.dir()
	defer os.RemoveAll(nb)
	os.MkdirAll(filepath.Join(nb, "conf"), 0755)
	if err := d.build(base, nb); err != nil {
		return nil
	}
	own(nb, uid)
	atomic.AddInt64(&c.starts, 1)
	rep, err := runKeys(nil, filepath.Join(nb, "conf"), true, umask, uid, old)
	if err != nil {
		return err
	}
	return healthy(nb, uid, umask, rep, old)
}

// fault starts the service while one use of a system call fails, and then
// again without.
func (c *keysRun) fault(sys, errno string, n int, umask string, uid int) (fired bool, err error) {
	base := c.dir()
	defer os.RemoveAll(base)
	conf := filepath.Join(base, "conf")
	os.MkdirAll(conf, 0755)
	own(base, uid)
	out := base + ".strace"
	defer os.Remove(out)
	tr := sys
	if sys != "openat" {
		tr += ",openat"
	}
	args := []string{"strace", "-f", "--seccomp-bpf", "-qq", "-s", "300", "-e", "trace=" + tr, "-e", "signal=none", "-o", out, "-e", fmt.Sprintf("inject=%s:error=%s:when=%d", sys, errno, n)}
	rep, rerr := runKeys(args, conf, true, umask, uid, "")
	b, _ := os.ReadFile(out)
	inside := false
	for _, l := range strings.Split(string(b), "\n") {
		hit := injected.MatchString(l)
		if i := strings.Index(l, markPath); i >= 0 {
			inside = strings.HasPrefix(l[i+len(markPath):], "begin")
		} else if hit && inside {
			fired = true
		}
	}
	if !fired {
		return injected.MatchString(string(b)), nil
	}
	atomic.AddInt64(&c.nodes, 1)
	if rerr != nil {
		return true, rerr
	}
	var old string
	if rep.Err == "" {
		if rep.TokErr != "" || rep.Self != "" {
			return true, fmt.Errorf("the service starts, but says %q %q", rep.TokErr, rep.Self)
		}
		old = rep.Tok
	}
	files, modes := map[string][]byte{}, map[string]os.FileMode{}
	filepath.Walk(conf, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			files[p], _ = os.ReadFile(p)
			modes[p] = i.Mode().Perm()
		}
		return nil
	})
	if err := exposed(files, modes); err != nil {
		return true, err
	}
	rep, err = runKeys(nil, conf, true, umask, uid, old)
	if err != nil {
		return true, err
	}
	if err := healthy(base, uid, umask, rep, old); err != nil {
		return true, fmt.Errorf("afterwards: %v", err)
	}
	return true, nil
}

// found is a situation the service may find at its start.
type found struct {
	pub, pri string
	gen      bool
	uid      int
}

func (f found) String() string {
	return fmt.Sprintf("public key %s, private key %s, generation %v, as user %d", f.pub, f.pri, f.gen, f.uid)
}

func (f found) trace() []string {
	return []string{f.pub, f.pri, strconv.FormatBool(f.gen), strconv.Itoa(f.uid)}
}

func pems(k *rsa.PrivateKey) (pub, pri []byte) {
	d, _ := x509.MarshalPKIXPublicKey(&k.PublicKey)
	return pem.EncodeToMemory(&pem.Block{Type: "RSA PUBLIC KEY", Bytes: d}), pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(k)})
}

var pubKinds = []string{"missing", "good", "unreadable to others", "writable to others", "empty", "garbage", "cut short", "of another kind", "a private key", "a directory"}
var priKinds = []string{"missing", "good", "of another pair", "readable to others", "empty", "garbage", "cut short", "a directory"}

func (f found) try(base string) error {
	defer os.RemoveAll(base)
	conf := filepath.Join(base, "conf")
	ks := filepath.Join(conf, "keys")
	os.MkdirAll(ks, 0755)
	a, _ := rsa.GenerateKey(rand.Reader, 2048)
	b, _ := rsa.GenerateKey(rand.Reader, 2048)
	pub, pri := pems(a)
	_, pri2 := pems(b)
	ec, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	ecd, _ := x509.MarshalPKIXPublicKey(&ec.PublicKey)
	put := func(n string, b []byte, m os.FileMode) {
		os.WriteFile(filepath.Join(ks, n), b, m)
		os.Chmod(filepath.Join(ks, n), m)
	}
	switch f.pub {
	case "good":
		put("token.pem", pub, 0644)
	case "unreadable to others":
		put("token.pem", pub, 0600)
	case "writable to others":
		put("token.pem", pub, 0666)
	case "empty":
		put("token.pem", nil, 0644)
	case "garbage":
		put("token.pem", []byte("garbage\n"), 0644)
	case "cut short":
		put("token.pem", pub[:len(pub)/2], 0644)
	case "of another kind":
		put("token.pem", pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: ecd}), 0644)
	case "a private key":
		put("token.pem", pri, 0644)
	case "a directory":
		os.Mkdir(filepath.Join(ks, "token.pem"), 0755)
	}
	switch f.pri {
	case "good":
		put("token.key", pri, 0400)
	case "of another pair":
		put("token.key", pri2, 0400)
	case "readable to others":
		put("token.key", pri, 0444)
	case "empty":
		put("token.key", nil, 0400)
	case "garbage":
		put("token.key", []byte("garbage\n"), 0400)
	case "cut short":
		put("token.key", pri[:len(pri)/2], 0400)
	case "a directory":
		os.Mkdir(filepath.Join(ks, "token.key"), 0755)
	}
	own(base, f.uid)
	was := snapshot(conf)
	rep, err := runKeys(nil, conf, f.gen, "022", f.uid, "")
	if err != nil {
		return err
	}
	now := snapshot(conf)
	if f.pub == "missing" && f.gen {
		if f.pri == "a directory" {
			if rep.Err == "" {
				return fmt.Errorf("the service starts although it cannot keep its private key")
			}
			return nil
		}
		return healthy(base, f.uid, "022", rep, "")
	}
	if d := changedFiles(was, now); d != "" {
		return fmt.Errorf("the service changed what was there: %s", d)
	}
	if f.pub != "good" {
		if rep.Err == "" {
			return fmt.Errorf("the service starts without a public key it may use")
		}
		return nil
	}
	if rep.Err != "" {
		return fmt.Errorf("the service does not start: %s", rep.Err)
	}
	if f.pri == "good" {
		return healthy(base, f.uid, "022", rep, "")
	}
	if rep.Health == "" {
		return fmt.Errorf("the service reports that all is well")
	}
	if f.pri == "readable to others" {
		return nil // warned about; signing is unspecified
	}
	if rep.TokErr == "" {
		return fmt.Errorf("a token is issued, of which the service itself says %q", rep.Self)
	}
	return nil
}

var keyUmasks = []string{"022", "077", "027", "002", "000"}

var keyFaultCalls = []string{"openat", "write", "fsync", "fchmod", "fchmodat", "renameat", "renameat2", "rename", "mkdirat", "close", "read", "fstat", "newfstatat", "unlinkat", "ftruncate"}

func c28() *eng.Check {
	return &eng.Check{ID: "C28", Level: "model_checking",
		Run: func(r *eng.Run) {
			base := keysScratch()
			defer os.RemoveAll(base)
			c := &keysRun{r: r, base: base, seen: map[string]bool{}}
			fail := func(spec string, trace []string, err error) {
				c.mu.Lock()
				r.Fail(spec, trace, "%v", err)
				c.mu.Unlock()
			}
			type job struct {
				what  string
				umask string
				uid   int
				sys   string
				errno string
				f     found
			}
			var jobs []job
			uids := []int{65534, 0}
			for _, u := range uids {
				for i, m := range keyUmasks {
					jobs = append(jobs, job{what: "crash", umask: m, uid: u})
					if i < r.Pick(1, 5) {
						for _, s := range keyFaultCalls {
							for _, e := range []string{"EIO", "ENOSPC", "EACCES"} {
								if e == "EIO" || r.Thorough() || s == "openat" && e == "EACCES" || s == "write" {
									jobs = append(jobs, job{what: "fault", umask: m, uid: u, sys: s, errno: e})
								}
							}
						}
					}
				}
				for _, p := range pubKinds {
					for _, q := range priKinds {
						for _, g := range []bool{false, true} {
							jobs = append(jobs, job{what: "found", f: found{p, q, g, u}})
						}
					}
				}
			}
			var situations, faults int64
			parallel(len(jobs), func(_, i int) bool {
				j := jobs[i]
				if r.Expired() || len(r.Viol) > 5 {
					return false
				}
				switch j.what {
				case "crash":
					if err := c.crash(nil, "", j.umask, j.uid, r.Pick(0, 1), nil, nil); err != nil {
						fail("crash", []string{j.umask, strconv.Itoa(j.uid)}, err)
					}
				case "found":
					atomic.AddInt64(&situations, 1)
					if err := j.f.try(c.dir()); err != nil {
						fail("found", j.f.trace(), fmt.Errorf("%s: %v", j.f, err))
					}
				case "fault":
					quiet := 0
					for n := 1; quiet < 3 && n < 500; n++ {
						if r.Expired() {
							return false
						}
						fired, err := c.fault(j.sys, j.errno, n, j.umask, j.uid)
						if !fired {
							quiet++
							continue
						}
						quiet = 0
						atomic.AddInt64(&faults, 1)
						if err != nil {
							fail("fault", []string{j.sys, j.errno, strconv.Itoa(n), j.umask, strconv.Itoa(j.uid)}, fmt.Errorf("use %d of %s fails with %s (umask %s, user %d): %v", n, j.sys, j.errno, j.umask, j.uid, err))
							break
						}
					}
				}
				return true
			})
			r.Add(c.nodes+situations, c.ev+faults+situations, c.starts+faults+situations)
			if c.odd != "" {
				r.Exhaustive = false
			}
			r.Extra["explorations"] = []string{
				fmt.Sprintf("crashes: %d traced starts under %d umasks as 2 users, %d disk events, %d distinct disk states, each started on three times%s", c.hist, len(keyUmasks), c.ev, c.starts, c.odd),
				fmt.Sprintf("failing system calls: %d starts", faults),
				fmt.Sprintf("situations found at the start: %d", situations)}
			r.Sample("%s", found{"missing", "good", true, 65534})
		},
		ReplayOne: func(r *eng.Run, v *eng.Violation) error {
			base := keysScratch()
			defer os.RemoveAll(base)
			c := &keysRun{r: r, base: base, seen: map[string]bool{}}
			t := v.Trace
			switch v.Spec {
			case "crash":
				u, _ := strconv.Atoi(t[1])
				only := t[2:]
				if len(only) == 0 {
					only = []string{"none"}
				}
				return c.crash(nil, "", t[0], u, 0, nil, only)
			case "fault":
				n, _ := strconv.Atoi(t[2])
				u, _ := strconv.Atoi(t[4])
				_, err := c.fault(t[0], t[1], n, t[3], u)
				return err
			}
			u, _ := strconv.Atoi(t[3])
			return found{t[0], t[1], t[2] == "true", u}.try(c.dir())
		}}
}

// keysScratch is a directory another user may work in.
func keysScratch() string {
	d := scratch()
	os.Chmod(d, 0755)
	return d
}
