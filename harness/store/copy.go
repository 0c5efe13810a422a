package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/netauth/netauth/internal/db"
	"github.com/netauth/netauth/internal/zverif/eng"
)

// The program that copies between stores is run as it is.

type object struct{ k, v string }

var copied = []object{
	{"/entities/e1", "new e1"},
	{"/entities/.e", "dotted"},
	{"/groups/g1", strings.Repeat("0123456789", 700)},
	{"/groups/e1", "a group of the same name"},
	{"/entities/e*", "\x00\xff\n"},
	{"/groups/g2", ""},
}

// emptied are the sets with the object that has no content, which not every
// store takes.
const emptied = 1 << 5

// misuses are wrong ways to run the program.
var misuses = []struct {
	name string
	args func(from, to string) []string
}{
	{"", nil},
	{"without a target", func(from, to string) []string { return []string{"copy", from} }},
	{"without anything", func(from, to string) []string { return []string{"copy"} }},
	{"with a surplus argument", func(from, to string) []string { return []string{"copy", from, to, to} }},
	{"with an unknown option", func(from, to string) []string { return []string{"copy", from, to, "--no-such"} }},
	{"with an unknown value of an option", func(from, to string) []string { return []string{"copy", from, to, "--truncate=perhaps"} }},
	{"as an unknown command", func(from, to string) []string { return []string{"cpoy", from, to} }},
	{"from an unknown store", func(from, to string) []string { return []string{"copy", "no-such", to} }},
	{"to an unknown store", func(from, to string) []string { return []string{"copy", from, "no-such"} }},
	{"with an unreadable configuration", func(from, to string) []string { return []string{"copy", from, to, "--config", "no-such.toml"} }},
}

var present = []object{
	{"/entities/e1", "old e1, which is longer than the new one"},
	{"/groups/zz", "only in the target"},
	{"/groups/e1", "A GROUP OF THE SAME LENGTH"[:len("a group of the same name")]},
}

// copyCase is a run of the program.
type copyCase struct {
	from, to string // kinds
	src, dst int    // which objects, as bits
	flags    int    // 1: not a dry run, 2: truncate, 4 and above: misuse
	fault    string // system call, and which use of it
	n        int
}

func (c copyCase) String() string {
	f := ""
	if c.flags&1 != 0 {
		f += " --no-dry-run"
	}
	if c.flags&2 != 0 {
		f += " --truncate"
	}
	s := fmt.Sprintf("copy %s %s%s with %d objects (set %d) to a target with set %d", c.from, c.to, f, bits(c.src), c.src, c.dst)
	if c.flags>>2 > 0 {
		s += ", " + misuses[c.flags>>2].name
	}
	if c.n > 0 {
		s += fmt.Sprintf(" while use %d of %s fails", c.n, c.fault)
	}
	return s
}

func (c copyCase) trace() []string {
	return []string{c.from, c.to, strconv.Itoa(c.src), strconv.Itoa(c.dst), strconv.Itoa(c.flags), c.fault, strconv.Itoa(c.n)}
}

func caseOf(t []string) copyCase {
	n := func(i int) int { k, _ := strconv.Atoi(t[i]); return k }
	return copyCase{t[0], t[1], n(2), n(3), n(4), t[5], n(6)}
}

func bits(n int) int {
	c := 0
	for ; n > 0; n &= n - 1 {
		c++
	}
	return c
}

func choose(o []object, set int) map[string][]byte {
	m := map[string][]byte{}
	for i, x := range o {
		if set&(1<<uint(i)) != 0 {
			m[x.k] = []byte(x.v)
		}
	}
	return m
}

func fill(kind, home string, m map[string][]byte) error {
	kv, err := open(kind, home)
	if err != nil {
		return err
	}
	kv.SetEventFunc(func(db.Event) {})
	for k, v := range m {
		if err := kv.Put(k, v); err != nil {
			return err
		}
	}
	return kv.Close()
}

func holds(kind, home string) (map[string][]byte, error) {
	kv, err := open(kind, home)
	if err != nil {
		return nil, err
	}
	kv.SetEventFunc(func(db.Event) {})
	defer kv.Close()
	return content(kv)
}

// run performs a case; fired tells whether the fault happened.
func (c copyCase) run(base string) (fired bool, err error) {
	home := filepath.Join(base, "home")
	os.MkdirAll(home, 0755)
	defer os.RemoveAll(base)
	src, dst := choose(copied, c.src), choose(present, c.dst)
	same1 := c.from == c.to
	if fill(c.from, home, src) != nil || !same1 && fill(c.to, home, dst) != nil {
		return false, fmt.Errorf("the stores cannot be filled")
	}
	cfg := filepath.Join(base, "config.toml")
	os.WriteFile(cfg, []byte(fmt.Sprintf("[core]\nhome = %q\n", home)), 0644)
	args := []string{os.Getenv("ZV_NSUTIL"), "--config", cfg, "copy", c.from, c.to}
	if c.flags>>2 > 0 {
		args = append(args[:3], misuses[c.flags>>2].args(c.from, c.to)...)
	}
	if c.flags&1 != 0 {
		args = append(args, "--no-dry-run")
	}
	if c.flags&2 != 0 {
		args = append(args, "--truncate")
	}
	out := filepath.Join(base, "strace")
	if c.n > 0 {
		args = append([]string{"strace", "-f", "--seccomp-bpf", "-qq", "-e", "trace=" + c.fault, "-e", "signal=none", "-o", out, "-e", fmt.Sprintf("inject=%s:error=EIO:when=%d", c.fault, c.n)}, args...)
	}
	cmd := command(args[0], args[1:]...)
	cmd.Dir = base
	cmd.Env = append(os.Environ(), "TMPDIR=/nonexistent", "HOME="+base, "GOMAXPROCS=1")
	said, rerr := cmd.CombinedOutput()
	if rerr != nil {
		if _, ok := rerr.(*exec.ExitError); !ok {
			return false, nil
		}
	}
	if c.n > 0 {
		tr, _ := os.ReadFile(out)
		fired = injected.Match(tr)
		if !fired {
			return false, nil
		}
	}
	got, err := holds(c.from, home)
	if err == nil {
		if d := same(src, got); d != "" {
			err = fmt.Errorf("%s", d)
		}
	}
	if err != nil {
		return fired, fmt.Errorf("the source is changed: %v", err)
	}
	if same1 {
		return fired, nil
	}
	want := clone(dst)
	if c.flags>>2 > 0 {
		if rerr == nil {
			return fired, fmt.Errorf("the program reports success: %s", cut(said))
		}
		rerr = nil
	} else if c.flags&1 != 0 {
		if c.flags&2 != 0 {
			want = map[string][]byte{}
		}
		for k, v := range src {
			want[k] = v
		}
	}
	got, err = holds(c.to, home)
	if err != nil {
		return fired, fmt.Errorf("the target is unreadable: %v", err)
	}
	d := same(want, got)
	if c.n == 0 {
		if rerr != nil && c.src&emptied != 0 && c.flags == c.flags&3|1 {
			// The rest is there nevertheless.
			delete(want, copied[5].k)
			rerr = nil
			d = same(want, got)
		}
		if rerr != nil {
			return fired, fmt.Errorf("the program ends with %v: %s", rerr, cut(said))
		}
		if d != "" {
			return fired, fmt.Errorf("the target is wrong: %s", d)
		}
		return fired, nil
	}
	if rerr == nil && d != "" {
		return fired, fmt.Errorf("the program reports success, but in the target %s", d)
	}
	for k, v := range got {
		if string(v) != string(src[k]) && string(v) != string(dst[k]) {
			return fired, fmt.Errorf("the target holds a %s that never was", k)
		}
	}
	if c.flags&1 == 0 {
		if d := same(dst, got); d != "" {
			return fired, fmt.Errorf("a dry run changes the target: %s", d)
		}
	}
	return fired, nil
}

func c26() *eng.Check {
	return &eng.Check{ID: "C26", Level: "model_checking",
		Run: func(r *eng.Run) {
			base := scratch()
			defer os.RemoveAll(base)
			var mu sync.Mutex
			var n, runs, faults int64
			fail := func(c copyCase, err error) {
				mu.Lock()
				r.Fail("nsutil", c.trace(), "%s: %s", c, err)
				mu.Unlock()
			}
			dir := func() string { return filepath.Join(base, strconv.FormatInt(atomic.AddInt64(&n, 1), 10)) }
			var cases []copyCase
			for _, f := range kinds {
				for _, t := range kinds {
					for s := 0; s < 1<<uint(len(copied)); s++ {
						if s&emptied != 0 && (f != "filesystem" || !r.Thorough() && s != emptied && s != emptied|7) {
							continue
						}
						for d := 0; d < 1<<uint(len(present)); d++ {
							for fl := 0; fl < 4; fl++ {
								if f == t && d > 0 {
									continue
								}
								if !r.Thorough() && fl == 2 && s != 3 {
									continue
								}
								cases = append(cases, copyCase{from: f, to: t, src: s, dst: d, flags: fl})
							}
						}
					}
				}
			}
			for i := 1; i < len(misuses); i++ {
				for _, f := range kinds {
					for _, t := range kinds {
						for fl := 0; fl < 4; fl++ {
							if f != t {
								cases = append(cases, copyCase{from: f, to: t, src: 7, dst: 3, flags: i<<2 | fl})
							}
						}
					}
				}
			}
			parallel(len(cases), func(_, i int) bool {
				if r.Expired() {
					return false
				}
				if _, err := cases[i].run(dir()); err != nil {
					fail(cases[i], err)
				}
				atomic.AddInt64(&runs, 1)
				return true
			})
			var fc []copyCase
			for _, f := range kinds {
				for _, t := range kinds {
					for _, sys := range []string{"openat", "read", "pread64", "write", "getdents64", "fsync", "renameat", "unlinkat", "newfstatat", "close", "mkdirat", "ftruncate"} {
						for fl := 0; fl < 4; fl++ {
							if fl != 3 && !r.Thorough() && !(fl == 1 && f != t) {
								continue
							}
							fc = append(fc, copyCase{from: f, to: t, src: 7, dst: 3, flags: fl, fault: sys})
						}
					}
				}
			}
			parallel(len(fc), func(_, i int) bool {
				quiet := 0
				for k := 1; quiet < 3 && k < 3000; k++ {
					if r.Expired() {
						return false
					}
					c := fc[i]
					c.n = k
					fired, err := c.run(dir())
					if !fired {
						quiet++
						continue
					}
					quiet = 0
					atomic.AddInt64(&faults, 1)
					if err != nil {
						fail(c, err)
					}
				}
				return true
			})
			r.Add(runs+faults, runs+faults, runs+faults)
			r.Extra["explorations"] = []string{
				fmt.Sprintf("%d of %d combinations of stores, contents and options", runs, len(cases)),
				fmt.Sprintf("%d runs with each use of each of 12 system calls failing", faults),
			}
			r.Sample("%s", copyCase{from: "filesystem", to: "bitcask", src: 21, dst: 1, flags: 3})
			r.Sample("%s", copyCase{from: "bitcask", to: "filesystem", src: 7, dst: 3, flags: 3, fault: "getdents64", n: 2})
		},
		ReplayOne: func(r *eng.Run, v *eng.Violation) error {
			base := scratch()
			defer os.RemoveAll(base)
			_, err := caseOf(v.Trace).run(filepath.Join(base, "r"))
			if err != nil {
				err = fmt.Errorf("%s: %s", caseOf(v.Trace), err)
			}
			return err
		}}
}
