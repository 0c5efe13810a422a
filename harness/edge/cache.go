package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/netauth/netauth/internal/zverif/eng"
	"github.com/netauth/netauth/pkg/netauth/cache"
	_ "github.com/netauth/netauth/pkg/netauth/cache/fs"
	_ "github.com/netauth/netauth/pkg/netauth/cache/memory"
)

const (
	cacheUser = 61001
	otherUser = 61002
)

// cacheOwners are names tokens are kept for; a cache may refuse to keep
// anything for the odd ones.
var cacheOwners = []string{"ann", "bob", "Ann", "ann.nt", "a b", "a@b", "%41nn", "./ann", "x/../ann", "../ann", "a/b", "a%2Fb", "", ".", "..", "/ann", strings.Repeat("n", 300), "ann\x00", "\xff"}

func plainOwner(o string) bool {
	for _, c := range o {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '.' || c == ' ' || c == '@' || c == '-') {
			return false
		}
	}
	return o != "" && len(o) < 100 && strings.Trim(o, ".") != ""
}

// cacheMap runs all sequences of calls, on two instances.
func (x *cacheRun) maps(kind string, owners, tokens []string, depth int) {
	type call struct {
		name string
		inst int
		verb string
		own  string
		tok  string
	}
	var calls []call
	for i := 0; i < 2; i++ {
		for _, o := range owners {
			for _, t := range tokens {
				calls = append(calls, call{fmt.Sprintf("PutToken(%q,%q) at instance %d", o, t, i), i, "put", o, t})
			}
			calls = append(calls, call{fmt.Sprintf("DelToken(%q) at instance %d", o, i), i, "del", o, ""})
		}
	}
	n := 1
	for i := 0; i < depth; i++ {
		n *= len(calls)
	}
	for k := 0; k < n; k++ {
		x.clear()
		var inst []cache.TokenCache
		model := []map[string]string{{}, {}}
		for i := 0; i < 2; i++ {
			c, err := cache.NewTokenCache(kind)
			if err != nil {
				x.rep.fail(nil, "a %s cache cannot be made: %v", kind, err)
				return
			}
			inst = append(inst, c)
		}
		if kind == "fs" {
			model[1] = model[0]
		}
		var trace []string
		bad := false
		for i, m := 0, k; i < depth && !bad; i, m = i+1, m/len(calls) {
			c := calls[m%len(calls)]
			trace = append(trace, c.name)
			x.rep.Trans++
			var err error
			if c.verb == "put" {
				err = inst[c.inst].PutToken(c.own, c.tok)
			} else {
				err = inst[c.inst].DelToken(c.own)
			}
			switch {
			case err != nil && plainOwner(c.own):
				x.rep.fail(trace, "%s: %s fails: %v", kind, c.name, err)
				bad = true
			case err == nil && c.verb == "put":
				model[c.inst][c.own] = c.tok
			case err == nil:
				delete(model[c.inst], c.own)
			}
			for j := 0; j < 2 && !bad; j++ {
				for _, o := range owners {
					got, err := inst[j].GetToken(o)
					want, ok := model[j][o]
					switch {
					case ok && (err != nil || got != want):
						x.rep.fail(trace, "%s: after %s, GetToken(%q) at instance %d returns %q, %v, not %q", kind, c.name, o, j, got, err, want)
					case !ok && err == nil:
						x.rep.fail(trace, "%s: after %s, GetToken(%q) at instance %d returns %q, and there is none", kind, c.name, o, j, got)
					case !ok && err != cache.ErrNoCachedToken && plainOwner(o):
						x.rep.fail(trace, "%s: after %s, GetToken(%q) at instance %d fails with %v, not with ErrNoCachedToken", kind, c.name, o, j, err)
					default:
						continue
					}
					bad = true
				}
			}
		}
		x.rep.States++
	}
	x.rep.Complete = true
}

// cacheRun works in a scratch directory.
type cacheRun struct {
	rep  *report
	base string
}

func (x *cacheRun) clear() {
	l, _ := filepath.Glob(filepath.Join(x.base, "*"))
	for _, f := range l {
		os.Chmod(f, 0700)
		os.RemoveAll(f)
	}
	os.Mkdir(filepath.Join(x.base, "tmp"), 0777)
	os.Chmod(filepath.Join(x.base, "tmp"), 0777)
}

// cachePlace is what there is before a token is put.
type cachePlace struct {
	prior string
	dir   string
	umask int
	again bool // a token has been put before
}

func (p cachePlace) String() string {
	s := fmt.Sprintf("directory %s, umask %03o, at the file's place: %s", p.dir, p.umask, p.prior)
	if p.again {
		s += ", and a token has been put before"
	}
	return s
}

var cachePriors = []string{"nothing", "own 0600", "own 0644", "own 0666", "own 0660", "own 0606", "own 0666, linked elsewhere", "other's 0666", "other's 0644", "other's 0666, linked elsewhere",
	"own link to own 0644", "own link to nothing", "other's link to other's 0666", "other's link to nothing", "own pipe", "other's pipe", "own directory", "other's directory"}

func (x *cacheRun) place(p cachePlace, file string) (pipe *os.File) {
	x.clear()
	tmp := filepath.Join(x.base, "tmp")
	theirs := filepath.Join(x.base, "theirs")
	mine := filepath.Join(x.base, "mine")
	os.Mkdir(theirs, 0777)
	os.Chmod(theirs, 0777)
	os.Chown(theirs, otherUser, otherUser)
	os.Mkdir(mine, 0755)
	os.Chmod(mine, 0755)
	os.Chown(mine, cacheUser, cacheUser)
	put := func(f string, mode os.FileMode, uid int) {
		os.WriteFile(f, []byte("before"), mode)
		os.Chmod(f, mode)
		os.Chown(f, uid, uid)
	}
	link := func(to string, uid int) {
		os.Symlink(to, file)
		os.Lchown(file, uid, uid)
	}
	mode := func(s string) os.FileMode { n, _ := strconv.ParseInt(s[:4], 8, 32); return os.FileMode(n) }
	uid, rest := cacheUser, ""
	if i := strings.Index(p.prior, " "); i > 0 {
		rest = p.prior[i+1:]
		if p.prior[:i] == "other's" {
			uid = otherUser
		}
	}
	switch rest {
	case "":
	case "link to own 0644":
		put(filepath.Join(mine, "f"), 0644, cacheUser)
		link(filepath.Join(mine, "f"), uid)
	case "link to other's 0666":
		put(filepath.Join(theirs, "f"), 0666, otherUser)
		link(filepath.Join(theirs, "f"), uid)
	case "link to nothing":
		if uid == cacheUser {
			link(filepath.Join(mine, "f"), uid)
		} else {
			link(filepath.Join(theirs, "f"), uid)
		}
	case "pipe":
		syscall.Mkfifo(file, 0666)
		os.Chmod(file, 0666)
		os.Chown(file, uid, uid)
		if fd, err := syscall.Open(file, syscall.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil {
			pipe = os.NewFile(uintptr(fd), "pipe")
		}
	case "directory":
		os.Mkdir(file, 0777)
		os.Chmod(file, 0777)
		os.Chown(file, uid, uid)
	default:
		put(file, mode(rest), uid)
		if strings.HasSuffix(rest, "linked elsewhere") {
			os.Link(file, filepath.Join(theirs, "f"))
		}
	}
	switch p.dir {
	case "sticky":
		os.Chmod(tmp, 0777|os.ModeSticky)
	case "shared":
		os.Chmod(tmp, 0777)
	case "own":
		os.Chown(tmp, cacheUser, cacheUser)
		os.Chmod(tmp, 0700)
	case "closed":
		os.Chmod(tmp, 0755)
	}
	return pipe
}

// leak looks for a token where others can read it.
func (x *cacheRun) leak(pipe *os.File) string {
	out := ""
	if pipe != nil {
		b := make([]byte, 100)
		n, _ := syscall.Read(int(pipe.Fd()), b)
		if n > 0 && bytes.Contains(b[:n], []byte("token")) {
			out = "the token is written into a pipe that others read"
		}
	}
	filepath.Walk(x.base, func(p string, i os.FileInfo, err error) error {
		if err != nil || !i.Mode().IsRegular() {
			return nil
		}
		b, _ := os.ReadFile(p)
		if !bytes.Contains(b, []byte("token")) {
			return nil
		}
		rel, _ := filepath.Rel(x.base, p)
		if u := i.Sys().(*syscall.Stat_t).Uid; u != cacheUser && u != 0 {
			out = fmt.Sprintf("the token is in %s, which belongs to somebody else", rel)
		} else if i.Mode().Perm()&077 != 0 {
			out = fmt.Sprintf("the token is in %s, which has mode %04o", rel, i.Mode().Perm())
		}
		return nil
	})
	return out
}

// as runs something with an unprivileged user's rights.
func asUser(uid int, f func()) {
	if err := syscall.Setresgid(-1, uid, -1); err != nil {
		panic(err)
	}
	if err := syscall.Setresuid(-1, uid, -1); err != nil {
		panic(err)
	}
	defer func() {
		syscall.Setresuid(-1, 0, -1)
		syscall.Setresgid(-1, 0, -1)
	}()
	f()
}

func (x *cacheRun) privacy() {
	os.Setenv("TMPDIR", filepath.Join(x.base, "tmp"))
	syscall.Setgroups([]int{})
	// Find out where a token goes to.
	var file string
	x.place(cachePlace{prior: "nothing", dir: "shared"}, "")
	c, err := cache.NewTokenCache("fs")
	if err == nil {
		err = c.PutToken("ann", "token")
	}
	l, _ := filepath.Glob(filepath.Join(x.base, "tmp", "*"))
	if err != nil || len(l) != 1 {
		x.rep.fail(nil, "fs: putting a token makes the files %v (%v)", l, err)
		return
	}
	file = l[0]
	for _, prior := range cachePriors {
		for _, dir := range []string{"sticky", "shared", "own", "closed"} {
			for _, umask := range []int{0, 022, 077} {
				for _, again := range []bool{false, true} {
					p := cachePlace{prior, dir, umask, again}
					pipe := x.place(p, file)
					syscall.Umask(umask)
					trace := []string{p.String()}
					asUser(cacheUser, func() {
						for i := 0; ; i++ {
							tok := fmt.Sprint("token ", i)
							trace = append(trace, "PutToken")
							err := c.PutToken("ann", tok)
							x.rep.Trans++
							if i, e := os.Lstat(file); e == nil && i.Mode()&os.ModeNamedPipe != 0 {
								break
							}
							got, gerr := c.GetToken("ann")
							if err == nil && (gerr != nil || got != tok) {
								x.rep.fail(trace, "fs: a token that was put is not returned: %q, %v (%s)", got, gerr, p)
							}
							if err != nil && (dir == "own" || dir == "shared") && (prior == "nothing" || strings.HasPrefix(prior, "own 06")) {
								x.rep.fail(trace, "fs: a token cannot be put: %v (%s)", err, p)
							}
							if !again || i > 0 {
								break
							}
						}
					})
					syscall.Umask(022)
					if m := x.leak(pipe); m != "" {
						x.rep.fail(trace, "fs: %s (%s)", m, p)
					}
					if b, err := os.ReadFile(filepath.Join(x.base, "theirs", "f")); err == nil && string(b) != "before" {
						x.rep.fail(trace, "fs: another file is changed (%s)", p)
					}
					asUser(cacheUser, func() {
						if c.DelToken("ann") != nil {
							return
						}
						if _, err := c.GetToken("ann"); err != cache.ErrNoCachedToken {
							x.rep.fail(append(trace, "DelToken"), "fs: a token that was removed is still there: %v (%s)", err, p)
						}
					})
					if pipe != nil {
						pipe.Close()
					}
					x.rep.States++
				}
			}
		}
	}
	x.rep.Complete = true
}

// moments stops putting a token at every system call.
func (x *cacheRun) moments() {
	os.Setenv("TMPDIR", filepath.Join(x.base, "tmp"))
	self, _ := os.Executable()
	file := filepath.Join(x.base, "tmp", "ann.nt")
	calls := "write,close,openat,fchmod,fchmodat,renameat,renameat2,rename,unlinkat,unlink,link,linkat,ftruncate,fsync"
	for _, prior := range []string{"nothing", "own 0644", "own 0666, linked elsewhere"} {
		for _, umask := range []int{0, 022} {
			p := cachePlace{prior: prior, dir: "own", umask: umask}
			for n := 1; ; n++ {
				x.place(p, file)
				cmd := exec.Command("strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace="+calls, "-e", fmt.Sprintf("inject=%s:signal=KILL:when=%d", calls, n), self, "cacheput", strconv.Itoa(umask), strconv.Itoa(cacheUser))
				cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
				out, err := cmd.CombinedOutput()
				x.rep.Trans++
				if m := x.leak(nil); m != "" {
					x.rep.fail([]string{p.String(), fmt.Sprintf("stopped at call %d", n)}, "fs: while a token is put, %s (%s)", m, p)
				}
				x.rep.States++
				if err == nil && strings.Contains(string(out), "DONE") {
					break
				}
				if n > 300 {
					x.rep.fail(nil, "fs: putting a token does not end: %s %v", out, err)
					return
				}
			}
		}
	}
	x.rep.Complete = true
}

func cachePut(args []string) {
	m, _ := strconv.Atoi(args[0])
	u, _ := strconv.Atoi(args[1])
	syscall.Setgroups([]int{})
	if syscall.Setgid(u) != nil || syscall.Setuid(u) != nil {
		os.Exit(3)
	}
	syscall.Umask(m)
	c, err := cache.NewTokenCache("fs")
	if err == nil {
		err = c.PutToken("ann", "token of ann")
	}
	fmt.Println("DONE", err)
	os.Exit(0)
}

// cacheChild runs one scenario.
func cacheChild(args []string) {
	rep := &report{}
	x := &cacheRun{rep: rep, base: filepath.Join(args[2], "c")}
	os.Mkdir(x.base, 0755)
	os.Chmod(x.base, 0755)
	// The directories above may be closed to others.
	if err := os.Chdir(x.base); err != nil {
		panic(err)
	}
	x.base = "."
	f := strings.Fields(args[0])
	switch f[0] {
	case "map":
		x.clear()
		os.Setenv("TMPDIR", filepath.Join(x.base, "tmp"))
		n, _ := strconv.Atoi(f[2])
		owners := cacheOwners
		if len(f) > 3 {
			i, _ := strconv.Atoi(f[3])
			owners = []string{"ann", cacheOwners[i]}
		}
		x.maps(f[1], owners, []string{"T1", "a longer token"}, n)
	case "odd":
		// A token is whatever was put, to the byte.
		x.clear()
		os.Setenv("TMPDIR", filepath.Join(x.base, "tmp"))
		n, _ := strconv.Atoi(f[2])
		x.maps(f[1], []string{"ann"}, []string{"", "T1", " T1\n", "\x00\xff", strings.Repeat("long ", 2000)}, n)
	case "privacy":
		x.privacy()
	case "moments":
		x.moments()
	}
	rep.print()
	os.Exit(0)
}

// cacheRaces makes pairs of calls at once, with the race detector watching.
func cacheRaces(r *eng.Run) error {
	cmd := exec.Command(os.Getenv("ZV_CACHERACE"))
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	t := time.AfterFunc(2*time.Minute, func() { cmd.Process.Kill() })
	err := cmd.Run()
	t.Stop()
	s := out.String()
	if i := strings.LastIndex(s, "PAIRS "); i >= 0 {
		n, _ := strconv.ParseInt(strings.Fields(s[i+6:])[0], 10, 64)
		r.Add(n, 2*n, 2*n)
	}
	if strings.Contains(s, "DATA RACE") {
		return fmt.Errorf("memory: two calls at once race: %s", raceSite(s))
	}
	if err != nil {
		l := strings.Split(strings.TrimSpace(s), "\n")
		return fmt.Errorf("memory: two calls at once: %v %s", err, l[len(l)-1])
	}
	return nil
}

func raceSite(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "/cache/") {
			return strings.Fields(l)[0]
		}
	}
	return "?"
}

func c31() *eng.Check {
	return &eng.Check{ID: "C31", Level: "model_checking",
		Run: func(r *eng.Run) {
			r.Exhaustive = true
			d := r.Pick(4, 5)
			names := []string{"privacy", "moments", "map fs 2", "map memory 2", "odd fs 3", "odd memory 3"}
			for i := range cacheOwners {
				if i > 0 {
					names = append(names, fmt.Sprintf("map fs %d %d", d, i), fmt.Sprintf("map memory %d %d", d, i))
				}
			}
			scenarios(r, "cache", names, 8)
			if err := cacheRaces(r); err != nil {
				r.Fail("race", nil, "%v", err)
			}
		},
		ReplayOne: func(r *eng.Run, v *eng.Violation) error {
			if v.Spec == "race" {
				return cacheRaces(r)
			}
			return again(r, "cache", v)
		},
	}
}
