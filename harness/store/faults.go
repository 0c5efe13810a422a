package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/netauth/netauth/internal/db"
	"github.com/netauth/netauth/internal/zverif/eng"
)

// The stores are used directly while the disk fails: a system call of theirs
// is refused, or a write finds too little space.

// call is one use of the store: put KEY VALUE, del KEY, get KEY, keys.
type call struct {
	what, key, val string
}

func (c call) String() string { return strings.TrimSpace(c.what + " " + c.key + " " + c.val) }

func parseCall(s string) call {
	f := strings.SplitN(s, " ", 3)
	for len(f) < 3 {
		f = append(f, "")
	}
	return call{f[0], f[1], f[2]}
}

const (
	ka = "/entities/a"
	kb = "/groups/b"
	kc = "/entities/c"
)

func faultCalls() []call {
	return []call{
		{"put", ka, "first value"}, {"put", kb, "other"}, {"get", ka, ""}, {"put", ka, "second value, longer"},
		{"keys", "", ""}, {"get", ka, ""}, {"get", kb, ""}, {"del", kb, ""}, {"get", kb, ""}, {"put", kc, "third"},
		{"get", "/entities/none", ""}, {"keys", "", ""}, {"put", kb, "anew"}, {"get", ka, ""}, {"get", kb, ""}, {"del", ka, ""}, {"keys", "", ""},
	}
}

// result is what came of a call.
type result struct {
	Err  string // "", "none" (no such key), or anything else
	Val  string
	Keys []string
}

func perform(kv db.KVStore, c call) result {
	class := func(err error) string {
		switch err {
		case nil:
			return ""
		case db.ErrNoValue:
			return "none"
		}
		return "error: " + err.Error()
	}
	switch c.what {
	case "put":
		return result{Err: class(kv.Put(c.key, []byte(c.val)))}
	case "del":
		return result{Err: class(kv.Del(c.key))}
	case "get":
		v, err := kv.Get(c.key)
		return result{Err: class(err), Val: string(v)}
	}
	l, err := kv.Keys("/*/*")
	sort.Strings(l)
	return result{Err: class(err), Keys: l}
}

type faultReport struct {
	Open    string
	Results []result
	End     map[string]result // afterwards
	Listed  result
}

func report(kv db.KVStore, rep *faultReport) {
	rep.End = map[string]result{}
	for _, k := range []string{ka, kb, kc} {
		rep.End[k] = perform(kv, call{"get", k, ""})
	}
	rep.Listed = perform(kv, call{"keys", "", ""})
}

// faulted is the child: fault KIND HOME CALL...
func faulted(args []string) {
	runtime.LockOSThread()
	var rep faultReport
	defer func() {
		b, _ := json.Marshal(rep)
		fmt.Println("\nREPORT " + string(b))
		os.Exit(0)
	}()
	mark("start", 0)
	kv, err := open(args[0], args[1])
	if err != nil {
		rep.Open = err.Error()
		return
	}
	kv.SetEventFunc(func(db.Event) {})
	for i, s := range args[2:] {
		mark("begin", i)
		rep.Results = append(rep.Results, perform(kv, parseCall(s)))
		mark("end", i)
	}
	mark("finish", 0)
	report(kv, &rep)
}

// space is the child for full disks: it reads jobs (a kind, a home, the call
// during which space is scarce, the size no file may exceed, and the calls)
// and answers each with a report.
type spaceJob struct {
	Kind, Home string
	At         int
	Limit      uint64
	Calls      []string
}

func space() {
	signal.Ignore(syscall.SIGXFSZ)
	rd := bufio.NewReader(os.Stdin)
	for {
		l, err := rd.ReadBytes('\n')
		if err != nil {
			os.Exit(0)
		}
		var j spaceJob
		if json.Unmarshal(l, &j) != nil {
			os.Exit(1)
		}
		var rep faultReport
		os.MkdirAll(j.Home, 0755)
		kv, err := open(j.Kind, j.Home)
		if err != nil {
			rep.Open = err.Error()
		} else {
			kv.SetEventFunc(func(db.Event) {})
			var old syscall.Rlimit
			syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
			for i, s := range j.Calls {
				if i == j.At {
					syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: j.Limit, Max: old.Max})
				}
				rep.Results = append(rep.Results, perform(kv, parseCall(s)))
				if i == j.At {
					syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
				}
			}
			report(kv, &rep)
			copyTree(j.Home, j.Home+"-after")
			kv.Close()
			os.RemoveAll(j.Home)
			// What a restart finds.
			kv, err = open(j.Kind, j.Home+"-after")
			var rep2 faultReport
			if err != nil {
				rep2.Open = err.Error()
			} else {
				report(kv, &rep2)
				kv.Close()
			}
			os.RemoveAll(j.Home + "-after")
			b, _ := json.Marshal([]faultReport{rep, rep2})
			fmt.Println(string(b))
			continue
		}
		b, _ := json.Marshal([]faultReport{rep})
		fmt.Println(string(b))
	}
}

// possible is what a key may hold: values, and absent for "".
type possible map[string]map[string]bool

const absent = "(absent)"

func (p possible) get(k string) map[string]bool {
	if p[k] == nil {
		p[k] = map[string]bool{absent: true}
	}
	return p[k]
}

func (p possible) only(k, v string) { p[k] = map[string]bool{v: true} }

func (p possible) String(k string) string {
	l := []string{}
	for v := range p.get(k) {
		l = append(l, v)
	}
	sort.Strings(l)
	return strings.Join(l, " or ")
}

// account follows what a store may hold and tells whether a result is right.
func (p possible) account(c call, r result, faulty bool) error {
	failed := r.Err != "" && r.Err != "none"
	if failed && !faulty {
		return fmt.Errorf("%s fails without need: %s", c, r.Err)
	}
	switch c.what {
	case "put":
		if r.Err == "" {
			p.only(c.key, c.val)
		} else {
			p.get(c.key)[c.val] = true
		}
	case "del":
		if r.Err == "" {
			p.only(c.key, absent)
		} else if failed {
			p.get(c.key)[absent] = true
		} else if !p.get(c.key)[absent] {
			return fmt.Errorf("%s finds nothing to delete although there is %s", c, p.String(c.key))
		} else {
			p.only(c.key, absent)
		}
	case "get":
		switch {
		case failed:
		case r.Err == "none":
			if !p.get(c.key)[absent] {
				return fmt.Errorf("%s finds nothing instead of %s", c, p.String(c.key))
			}
			p.only(c.key, absent)
		default:
			if !p.get(c.key)[r.Val] {
				return fmt.Errorf("%s finds %q instead of %s", c, r.Val, p.String(c.key))
			}
			p.only(c.key, r.Val)
		}
	case "keys":
		if failed {
			return nil
		}
		in := map[string]bool{}
		for _, k := range r.Keys {
			if in[k] {
				return fmt.Errorf("%s is listed twice", k)
			}
			in[k] = true
			if len(p.get(k)) == 1 && p.get(k)[absent] {
				return fmt.Errorf("%s is listed but was never stored, or is deleted", k)
			}
			delete(p.get(k), absent)
		}
		for k := range p {
			if !in[k] {
				if !p[k][absent] {
					return fmt.Errorf("%s is left out of the listing", k)
				}
				p.only(k, absent)
			}
		}
	}
	return nil
}

// judgeFault decides on the results of calls, during those in faulty the
// disk failed, and on what a restart finds.
func judgeFault(calls []call, rep, after *faultReport, faulty map[int]bool, closing bool) error {
	p := possible{}
	for i, r := range rep.Results {
		if err := p.account(calls[i], r, faulty[i]); err != nil {
			return fmt.Errorf("call %d: %v", i+1, err)
		}
	}
	look := func(r *faultReport, when string) error {
		var keys []string
		for k := range r.End {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			if err := p.account(call{"get", k, ""}, r.End[k], closing && r == rep); err != nil {
				return fmt.Errorf("%s %v", when, err)
			}
		}
		if err := p.account(call{what: "keys"}, r.Listed, closing && r == rep); err != nil {
			return fmt.Errorf("%s %v", when, err)
		}
		return nil
	}
	if rep.End != nil {
		if err := look(rep, "afterwards"); err != nil {
			return err
		}
	}
	if after == nil {
		return nil
	}
	if after.Open != "" {
		return fmt.Errorf("after a restart the store does not open: %s", after.Open)
	}
	return look(after, "after a restart")
}

var faultSyscalls = []string{"openat", "write", "fsync", "fdatasync", "renameat", "rename", "unlinkat", "unlink", "mkdirat", "mkdir", "fchmod", "fchmodat", "chmod", "ftruncate", "close", "pread64", "read", "getdents64", "newfstatat", "fstat", "lseek", "flock", "fcntl", "mmap"}

var injected = regexp.MustCompile(`\(INJECTED\)`)

// inject runs the calls with the n-th use of a system call failing, and
// tells during which calls it failed (-1 stands for opening the store,
// len(calls) for the time after).
func inject(kind, base string, calls []call, sys, errno string, n int) (*faultReport, *faultReport, map[int]bool, error) {
	home := filepath.Join(base, "home")
	os.MkdirAll(home, 0755)
	defer os.RemoveAll(base)
	self, _ := os.Executable()
	out := filepath.Join(base, "strace")
	traceSet := sys
	if sys != "openat" {
		traceSet += ",openat"
	}
	args := []string{"-f", "--seccomp-bpf", "-qq", "-s", "300", "-e", "trace=" + traceSet, "-e", "signal=none", "-o", out}
	if n > 0 {
		args = append(args, "-e", fmt.Sprintf("inject=%s:error=%s:when=%d", sys, errno, n))
	}
	args = append(args, self, "fault", kind, home)
	for _, c := range calls {
		args = append(args, c.String())
	}
	cmd := command("strace", args...)
	cmd.Dir = base
	cmd.Env = append(os.Environ(), "TMPDIR=/nonexistent", "GOMAXPROCS=1")
	b, _ := cmd.Output()
	s := string(b)
	var rep *faultReport
	if i := strings.LastIndex(s, "REPORT "); i >= 0 {
		rep = &faultReport{}
		if json.Unmarshal([]byte(strings.TrimSpace(s[i+7:])), rep) != nil {
			rep = nil
		}
	}
	where := map[int]bool{}
	tr, err := os.ReadFile(out)
	if err != nil {
		return nil, nil, nil, err
	}
	at := -2
	for _, l := range strings.Split(string(tr), "\n") {
		if i := strings.Index(l, markPath); i >= 0 {
			f := strings.FieldsFunc(l[i+len(markPath):], func(r rune) bool { return r == '/' || r == '"' })
			k, _ := strconv.Atoi(f[1])
			switch f[0] {
			case "start":
				at = -1
			case "begin":
				at = k
			case "finish":
				at = len(calls)
			}
			if injected.MatchString(l) {
				at = -2
				where[-2] = true
			}
			continue
		}
		if injected.MatchString(l) {
			where[at] = true
		}
	}
	if rep == nil {
		return nil, nil, where, nil
	}
	kv, err := open(kind, home)
	var after faultReport
	if err != nil {
		after.Open = err.Error()
	} else {
		report(kv, &after)
		kv.Close()
	}
	return rep, &after, where, nil
}

func joinCalls(calls []call) []string {
	var l []string
	for _, c := range calls {
		l = append(l, c.String())
	}
	return l
}

func c37one(kind, base string, calls []call, sys, errno string, n int) (fired bool, err error) {
	rep, after, where, e := inject(kind, base, calls, sys, errno, n)
	if e != nil || len(where) == 0 || where[-2] {
		return where[-2], nil
	}
	if rep == nil && len(where) == 1 && where[len(calls)] {
		return true, nil // the report itself is lost
	}
	if rep == nil {
		return true, fmt.Errorf("the program using the store dies")
	}
	if rep.Open != "" {
		// It may well not open; what is there must still be.
		if !where[-1] {
			return true, fmt.Errorf("the store does not open: %s", rep.Open)
		}
		return true, judgeFault(calls, rep, after, where, false)
	}
	return true, judgeFault(calls, rep, after, where, where[len(calls)])
}

func c37() *eng.Check {
	type job struct {
		kind, sys, errno string
	}
	return &eng.Check{ID: "C37", Level: "model_checking",
		Run: func(r *eng.Run) {
			base := scratch()
			defer os.RemoveAll(base)
			var n, runs int64
			var mu sync.Mutex
			fail := func(kind string, trace []string, err error) {
				mu.Lock()
				r.Fail(kind, trace, "%s", err)
				mu.Unlock()
			}
			calls := faultCalls()
			var jobs []job
			for _, k := range append(append([]string{}, kinds...), smallFiles) {
				for _, s := range faultSyscalls {
					jobs = append(jobs, job{k, s, "EIO"})
					if r.Thorough() && (s == "openat" || s == "write" || s == "mkdirat") {
						jobs = append(jobs, job{k, s, "ENOSPC"})
					}
				}
			}
			parallel(len(jobs), func(_, i int) bool {
				j := jobs[i]
				quiet := 0
				for k := 1; quiet < 3 && k < 2000; k++ {
					if r.Expired() {
						return false
					}
					b := filepath.Join(base, strconv.FormatInt(atomic.AddInt64(&n, 1), 10))
					prepareKind(j.kind, b)
					fired, err := c37one(j.kind, b, calls, j.sys, j.errno, k)
					if !fired {
						quiet++
						continue
					}
					quiet = 0
					atomic.AddInt64(&runs, 1)
					if err != nil {
						fail(j.kind, append([]string{j.sys, j.errno, strconv.Itoa(k)}, joinCalls(calls)...), fmt.Errorf("when use %d of %s fails with %s: %v", k, j.sys, j.errno, err))
					}
				}
				return true
			})
			r.Add(runs, runs*int64(len(calls)), runs)
			ex := []string{fmt.Sprintf("failing system calls: %d runs, each use of %d system calls on %d kinds of store", runs, len(faultSyscalls), len(kinds)+1)}
			r.Sample("bitcask: %s with use 3 of fsync failing with EIO", strings.Join(joinCalls(calls), "; "))
			ex = append(ex, fullDisks(r, base, fail))
			r.Extra["explorations"] = ex
		},
		ReplayOne: func(r *eng.Run, v *eng.Violation) error {
			base := scratch()
			defer os.RemoveAll(base)
			var calls []call
			for _, s := range v.Trace[3:] {
				calls = append(calls, parseCall(s))
			}
			n, _ := strconv.Atoi(v.Trace[2])
			b := filepath.Join(base, "r")
			if v.Trace[0] == "full" {
				at, _ := strconv.Atoi(v.Trace[1])
				w := newSpaceWorker()
				defer w.stop()
				return w.judge(spaceJob{Kind: v.Spec, Home: b, At: at, Limit: uint64(n), Calls: v.Trace[3:]})
			}
			prepareKind(v.Spec, b)
			_, err := c37one(v.Spec, b, calls, v.Trace[0], v.Trace[1], n)
			return err
		}}
}

// prepareKind readies the home of a store for its kind.
func prepareKind(kind, base string) {
	if kind == smallFiles {
		// Have bitcask begin another file every other record.
		bc := filepath.Join(base, "home", "bc")
		os.MkdirAll(bc, 0755)
		os.WriteFile(filepath.Join(bc, "config.json"), []byte(`{"max_datafile_size":60,"max_key_size":64,"max_value_size":65536,"sync":false,"autorecovery":false,"DirFileModeBeforeUmask":448,"FileFileModeBeforeUmask":384}`), 0644)
	}
}

// spaceWorker is a process performing jobs.
type spaceWorker struct {
	cmd *exec.Cmd
	in  *json.Encoder
	out *bufio.Reader
	cl  func() error
}

func newSpaceWorker() *spaceWorker {
	self, _ := os.Executable()
	w := &spaceWorker{cmd: exec.Command(self, "space")}
	w.cmd.Env = append(os.Environ(), "TMPDIR=/nonexistent")
	in, _ := w.cmd.StdinPipe()
	out, _ := w.cmd.StdoutPipe()
	w.cmd.Start()
	w.in, w.out, w.cl = json.NewEncoder(in), bufio.NewReader(out), in.Close
	return w
}

func (w *spaceWorker) stop() { w.cl(); w.cmd.Wait() }

func (w *spaceWorker) judge(j spaceJob) error {
	t := time.AfterFunc(time.Minute, func() { w.cmd.Process.Kill() })
	defer t.Stop()
	w.in.Encode(j)
	l, err := w.out.ReadBytes('\n')
	if err != nil {
		return fmt.Errorf("the program using the store dies")
	}
	var rep []faultReport
	if json.Unmarshal(l, &rep) != nil || len(rep) < 2 {
		return nil
	}
	var calls []call
	for _, s := range j.Calls {
		calls = append(calls, parseCall(s))
	}
	return judgeFault(calls, &rep[0], &rep[1], map[int]bool{j.At: true}, false)
}

// fullDisks has every call of every sequence run out of space, after every
// number of bytes.
func fullDisks(r *eng.Run, base string, fail func(string, []string, error)) string {
	alphabet := []call{{"put", ka, "second value, longer"}, {"put", kb, "x"}, {"put", kc, "third"}, {"del", ka, ""}, {"del", kb, ""}}
	var seqs [][]call
	var rec func(p []call)
	depth := r.Pick(2, 3)
	rec = func(p []call) {
		if len(p) == depth {
			seqs = append(seqs, append([]call{{"put", ka, "first value"}, {"put", kb, "other"}}, p...))
			return
		}
		for _, c := range alphabet {
			rec(append(append([]call{}, p...), c))
		}
	}
	rec(nil)
	var n, runs int64
	var done int64
	parallel(len(seqs), func(_, i int) bool {
		w := newSpaceWorker()
		defer w.stop()
		for _, k := range kinds {
			for at := range seqs[i] {
				top := 40
				if k == "bitcask" {
					top = 45 * (at + 1)
				}
				for l := 0; l < top; l++ {
					if r.Expired() {
						return false
					}
					j := spaceJob{Kind: k, Home: filepath.Join(base, "s"+strconv.FormatInt(atomic.AddInt64(&n, 1), 10)), At: at, Limit: uint64(l), Calls: joinCalls(seqs[i])}
					err := w.judge(j)
					atomic.AddInt64(&runs, 1)
					if err != nil {
						fail(k, append([]string{"full", strconv.Itoa(at), strconv.Itoa(l)}, j.Calls...), fmt.Errorf("when no file can grow beyond %d bytes during call %d: %v", l, at+1, err))
						if strings.Contains(err.Error(), "dies") {
							return false
						}
					}
				}
			}
		}
		atomic.AddInt64(&done, 1)
		return true
	})
	r.Add(runs, runs*int64(depth+2), runs)
	return fmt.Sprintf("full disks: %d of %d sequences of %d calls, running out of space in each call after each number of bytes, %d runs", done, len(seqs), depth+2, runs)
}
