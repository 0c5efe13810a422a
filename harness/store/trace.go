package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/netauth/netauth/internal/db"
	"github.com/netauth/netauth/internal/zverif/eng"
)

// This file watches the real back ends at work: a child process performs a
// history under strace, and the system calls by which it changes the disk
// are turned into a list of events.

const markPath = "/zv-mark/"

func mark(what string, i int) {
	if f, err := os.Open(markPath + what + "/" + strconv.Itoa(i)); err == nil {
		f.Close()
	}
}

// write is a change the server made to the store.
type write struct {
	Op  int
	Key string
	Val string // base64
	Del bool
}

// recorder passes everything on to the store and writes down the changes.
type recorder struct {
	db.KVStore
	op  int
	log []write
}

func (r *recorder) Put(k string, v []byte) error {
	r.log = append(r.log, write{Op: r.op, Key: k, Val: base64.StdEncoding.EncodeToString(v)})
	return r.KVStore.Put(k, v)
}

func (r *recorder) Del(k string) error {
	r.log = append(r.log, write{Op: r.op, Key: k, Del: true})
	return r.KVStore.Del(k)
}

// traced is the child: trace KIND HOME OPS...
func traced(args []string) {
	kind, home := args[0], args[1]
	all := crashOps()
	mark("start", 0)
	kv, err := open(kind, home)
	if err != nil {
		fmt.Println("START", err)
		os.Exit(3)
	}
	rec := &recorder{KVStore: kv}
	w := eng.NewWorld(eng.Config{KV: rec})
	mark("started", 0)
	codes := []string{}
	for i, o := range byName(all, args[2:]) {
		rec.op = i
		mark("begin", i)
		if o.Name == stop.Name {
			w.DB.Shutdown()
			kv, err := open(kind, home)
			if err != nil {
				fmt.Println("START", err)
				os.Exit(3)
			}
			rec.KVStore = kv
			w = eng.NewWorld(eng.Config{KV: rec})
			codes = append(codes, "OK")
		} else {
			codes = append(codes, o.Do(w).Code.String())
		}
		mark("end", i)
	}
	b, _ := json.Marshal(map[string]interface{}{"log": rec.log, "codes": codes})
	fmt.Println("LOG " + string(b))
	os.Exit(0)
}

// event is one change of the disk, a request to make changes durable, or a
// mark.
type event struct {
	kind string // create, mkdir, rename, unlink, rmdir | write, trunc | sync | start, started, begin, end
	ino  int
	path string
	to   string
	off  int64
	data []byte
	size int64
	op   int
	mode os.FileMode
}

var random = regexp.MustCompile("[0-9]{5,}")

func name(p string) string { return random.ReplaceAllString(filepath.Base(p), "#") }

func (e *event) String() string {
	switch e.kind {
	case "write":
		return fmt.Sprintf("write of %d bytes at %d to file %d", len(e.data), e.off, e.ino)
	case "trunc":
		return fmt.Sprintf("truncation of file %d to %d", e.ino, e.size)
	case "sync":
		return fmt.Sprintf("sync of file %d", e.ino)
	case "rename":
		return "rename of " + name(e.path) + " to " + name(e.to)
	case "chmod":
		return fmt.Sprintf("permission change of file %d to %o", e.ino, e.mode)
	case "create", "mkdir", "unlink", "rmdir":
		return e.kind + " of " + name(e.path)
	}
	return fmt.Sprintf("%s %d", e.kind, e.op)
}

func (e *event) meta() bool {
	switch e.kind {
	case "create", "mkdir", "rename", "unlink", "rmdir", "chmod":
		return true
	}
	return false
}

type tfd struct {
	ino    int
	off    int64
	append bool
}

// tracer turns system calls into events.
type tracer struct {
	base  string
	cwd   string
	names map[string]int // path -> file
	dirs  map[string]int
	size  map[int]int64
	fds   map[int]*tfd
	next  int
	ev    []event
	first map[string][]byte // files at the beginning
	fino  map[string]int
	init  []string // directories at the beginning
	odd   []string
	umask int64
	modes map[string]os.FileMode // of the files at the beginning
}

func unhex(s string) ([]byte, bool) {
	if len(s) < 2 || s[0] != '"' {
		return nil, false
	}
	e := strings.LastIndexByte(s, '"')
	if e <= 0 || strings.HasSuffix(s, "...") {
		return nil, false
	}
	s = s[1:e]
	out := make([]byte, 0, len(s)/4)
	for i := 0; i+3 < len(s); i += 4 {
		n, err := strconv.ParseUint(s[i+2:i+4], 16, 8)
		if err != nil || s[i] != '\\' || s[i+1] != 'x' {
			return nil, false
		}
		out = append(out, byte(n))
	}
	return out, true
}

func (t *tracer) begin() {
	t.names, t.dirs, t.size, t.fds = map[string]int{}, map[string]int{}, map[int]int64{}, map[int]*tfd{}
	t.first, t.fino = map[string][]byte{}, map[string]int{}
	t.next = 1
	t.umask, t.modes = 022, map[string]os.FileMode{}
	filepath.Walk(t.base, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if i.IsDir() {
			t.dirs[p] = t.next
			t.next++
			t.init = append(t.init, p)
			return nil
		}
		b, _ := os.ReadFile(p)
		t.first[p] = b
		t.modes[p] = i.Mode().Perm()
		t.fino[p] = t.next
		t.names[p] = t.next
		t.size[t.next] = int64(len(b))
		t.next++
		return nil
	})
}

func (t *tracer) abs(dirfd, raw string) (string, bool) {
	b, ok := unhex(raw)
	if !ok {
		return "", false
	}
	p := string(b)
	if !filepath.IsAbs(p) {
		if dirfd != "AT_FDCWD" {
			t.odd = append(t.odd, "relative to "+dirfd+": "+p)
			return "", false
		}
		p = filepath.Join(t.cwd, p)
	}
	return filepath.Clean(p), true
}

func (t *tracer) mine(p string) bool { return p == t.base || strings.HasPrefix(p, t.base+"/") }

func (t *tracer) add(e event) { t.ev = append(t.ev, e) }

// call handles one completed system call.
func (t *tracer) call(name string, a []string, ret int64) {
	if ret < 0 && !(strings.HasPrefix(name, "open") && ret == -1) {
		return
	}
	fd := func(s string) *tfd {
		n, _ := strconv.Atoi(s)
		return t.fds[n]
	}
	num := func(s string) int64 {
		n, _ := strconv.ParseInt(strings.TrimSpace(s), 0, 64)
		return n
	}
	switch name {
	case "openat", "open", "creat":
		if name != "openat" {
			a = append([]string{"AT_FDCWD"}, a...)
		}
		if b, ok := unhex(a[1]); ok && strings.HasPrefix(string(b), markPath) {
			f := strings.Split(strings.TrimPrefix(string(b), markPath), "/")
			n, _ := strconv.Atoi(f[1])
			t.add(event{kind: f[0], op: n})
			return
		}
		if ret < 0 {
			return
		}
		delete(t.fds, int(ret))
		p, ok := t.abs(a[0], a[1])
		if !ok || !t.mine(p) {
			return
		}
		fl := ""
		if len(a) > 2 {
			fl = a[2]
		}
		creat := name == "creat"
		if creat {
			fl = "O_WRONLY|O_CREAT|O_TRUNC"
		}
		if d, ok := t.dirs[p]; ok {
			t.fds[int(ret)] = &tfd{ino: d}
			return
		}
		ino, ok := t.names[p]
		if !ok {
			ino = t.next
			t.next++
			t.names[p] = ino
			m := int64(0666)
			if len(a) > 3 {
				m = num(a[3])
			} else if creat && len(a) > 2 {
				m = num(a[2])
			}
			t.add(event{kind: "create", ino: ino, path: p, mode: os.FileMode(m &^ t.umask)})
		} else if strings.Contains(fl, "O_TRUNC") && t.size[ino] > 0 {
			t.add(event{kind: "trunc", ino: ino, size: 0})
			t.size[ino] = 0
		}
		t.fds[int(ret)] = &tfd{ino: ino, append: strings.Contains(fl, "O_APPEND")}
	case "close":
		delete(t.fds, int(num(a[0])))
	case "umask":
		t.umask = num(a[0])
	case "fchmod":
		if f := fd(a[0]); f != nil {
			t.add(event{kind: "chmod", ino: f.ino, mode: os.FileMode(num(a[1]))})
		}
	case "chmod", "fchmodat", "fchmodat2":
		if name == "chmod" {
			a = append([]string{"AT_FDCWD"}, a...)
		}
		if p, ok := t.abs(a[0], a[1]); ok && t.mine(p) {
			if ino, ok := t.names[p]; ok {
				t.add(event{kind: "chmod", ino: ino, mode: os.FileMode(num(a[2]))})
			}
		}
	case "dup", "dup2", "dup3", "fcntl":
		f := fd(a[0])
		if f != nil && (name != "fcntl" || strings.HasPrefix(a[1], "F_DUPFD")) {
			c := *f
			t.fds[int(ret)] = &c
		}
	case "write", "pwrite64":
		f := fd(a[0])
		if f == nil {
			return
		}
		b, ok := unhex(a[1])
		if !ok || int64(len(b)) < ret {
			t.odd = append(t.odd, "write cut short")
			return
		}
		b = b[:ret]
		off := f.off
		if name == "pwrite64" {
			off = num(a[3])
		} else if f.append {
			off = t.size[f.ino]
		}
		t.add(event{kind: "write", ino: f.ino, off: off, data: b})
		if off+ret > t.size[f.ino] {
			t.size[f.ino] = off + ret
		}
		if name == "write" {
			f.off = off + ret
		}
	case "read":
		if f := fd(a[0]); f != nil {
			f.off += ret
		}
	case "lseek":
		if f := fd(a[0]); f != nil {
			f.off = ret
		}
	case "fsync", "fdatasync", "sync_file_range":
		if f := fd(a[0]); f != nil {
			t.add(event{kind: "sync", ino: f.ino})
		}
	case "sync", "syncfs":
		t.add(event{kind: "sync", ino: -1})
	case "ftruncate":
		if f := fd(a[0]); f != nil {
			n := num(a[1])
			t.add(event{kind: "trunc", ino: f.ino, size: n})
			t.size[f.ino] = n
		}
	case "truncate":
		if p, ok := t.abs("AT_FDCWD", a[0]); ok && t.mine(p) {
			if ino, ok := t.names[p]; ok {
				t.add(event{kind: "trunc", ino: ino, size: num(a[1])})
				t.size[ino] = num(a[1])
			}
		}
	case "mkdir", "mkdirat":
		if name == "mkdir" {
			a = append([]string{"AT_FDCWD"}, a...)
		}
		if p, ok := t.abs(a[0], a[1]); ok && t.mine(p) {
			t.dirs[p] = t.next
			t.add(event{kind: "mkdir", ino: t.next, path: p})
			t.next++
		}
	case "rename", "renameat", "renameat2":
		if name == "rename" {
			a = []string{"AT_FDCWD", a[0], "AT_FDCWD", a[1]}
		}
		p, ok := t.abs(a[0], a[1])
		q, ok2 := t.abs(a[2], a[3])
		if !ok || !ok2 || (!t.mine(p) && !t.mine(q)) {
			return
		}
		ino, ok := t.names[p]
		if !ok {
			t.odd = append(t.odd, "rename of the unknown "+p)
			return
		}
		delete(t.names, p)
		t.names[q] = ino
		t.add(event{kind: "rename", ino: ino, path: p, to: q})
	case "link", "linkat", "symlink", "symlinkat":
		t.odd = append(t.odd, name)
	case "unlink", "unlinkat", "rmdir":
		if name != "unlinkat" {
			a = append([]string{"AT_FDCWD"}, a...)
		}
		if p, ok := t.abs(a[0], a[1]); ok && t.mine(p) {
			if ino, ok := t.names[p]; ok {
				delete(t.names, p)
				t.add(event{kind: "unlink", ino: ino, path: p})
			} else {
				delete(t.dirs, p)
				t.add(event{kind: "rmdir", path: p})
			}
		}
	}
}

const watched = "openat,open,creat,close,dup,dup2,dup3,fcntl,write,pwrite64,writev,pwritev,lseek,fsync,fdatasync,sync,syncfs,ftruncate,truncate,mkdir,mkdirat,rename,renameat,renameat2,link,linkat,symlink,symlinkat,unlink,unlinkat,rmdir,copy_file_range,fallocate,umask,chmod,fchmod,fchmodat,fchmodat2"

// args splits the arguments of a system call.
func callArgs(s string) []string {
	var out []string
	quote := false
	depth := 0
	from := 0
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '"':
			quote = !quote
		case quote:
		case c == '{' || c == '[' || c == '(':
			depth++
		case c == '}' || c == ']' || c == ')':
			depth--
		case c == ',' && depth == 0:
			out = append(out, strings.TrimSpace(s[from:i]))
			from = i + 1
		}
	}
	return append(out, strings.TrimSpace(s[from:]))
}

func (t *tracer) parse(file string) error {
	f, err := os.Open(file)
	if err != nil {
		return err
	}
	defer f.Close()
	rd := bufio.NewReaderSize(f, 1<<20)
	part := map[string]string{}
	for {
		l, err := rd.ReadString('\n')
		if l == "" && err != nil {
			return nil
		}
		l = strings.TrimRight(l, "\n")
		sp := strings.IndexByte(l, ' ')
		if sp < 0 {
			continue
		}
		pid, rest := l[:sp], strings.TrimLeft(l[sp:], " ")
		if strings.HasSuffix(rest, "<unfinished ...>") {
			part[pid] = strings.TrimSuffix(rest, "<unfinished ...>")
			continue
		}
		if strings.HasPrefix(rest, "<... ") {
			i := strings.Index(rest, " resumed>")
			if i < 0 {
				continue
			}
			rest = part[pid] + rest[i+len(" resumed>"):]
			delete(part, pid)
		}
		o := strings.IndexByte(rest, '(')
		c := strings.LastIndex(rest, ") ")
		e := strings.LastIndex(rest, "= ")
		if o <= 0 || c < o || e < c {
			continue
		}
		fs := strings.Fields(rest[e+2:])
		if len(fs) == 0 {
			continue
		}
		ret, err2 := strconv.ParseInt(fs[0], 0, 64)
		if err2 != nil {
			continue
		}
		name := rest[:o]
		switch name {
		case "writev", "pwritev", "copy_file_range", "fallocate":
			a := callArgs(rest[o+1 : c])
			if n, err := strconv.Atoi(a[0]); err == nil && t.fds[n] != nil {
				t.odd = append(t.odd, name)
			}
			continue
		}
		t.call(name, callArgs(rest[o+1:c]), ret)
	}
}

// history is a traced run of the server.
type history struct {
	kind   string
	ops    []string
	ev     []event
	first  map[string][]byte
	fino   map[string]int
	init   []string
	base   string
	writes []write
	codes  []string
	before map[string][]byte   // content at the beginning
	states []map[string][]byte // content after each operation
	failed string
	odd    []string
	modes  map[string]os.FileMode
}

func (h *history) take(t *tracer) {
	h.ev, h.first, h.fino, h.init, h.odd, h.modes = t.ev, t.first, t.fino, t.init, t.odd, t.modes
}

// record runs a history in base/home, which holds a store with the given
// content.
func record(kind, base string, ops []string, before map[string][]byte, tmp string) (*history, error) {
	h := &history{kind: kind, ops: ops, base: base, before: before}
	home := filepath.Join(base, "home")
	for _, d := range []string{home, filepath.Join(base, "cwd"), filepath.Join(base, "tmp")} {
		if err := os.MkdirAll(d, 0755); err != nil {
			return nil, err
		}
	}
	t := &tracer{base: base, cwd: filepath.Join(base, "cwd")}
	t.begin()
	self, _ := os.Executable()
	out := base + ".strace"
	defer os.Remove(out)
	cmd := command("strace", append([]string{"-f", "--seccomp-bpf", "-qq", "-xx", "-s", "4000000", "-e", "trace=" + watched, "-e", "signal=none", "-o", out, self, "trace", kind, home}, ops...)...)
	cmd.Dir = t.cwd
	if tmp == "" {
		tmp = filepath.Join(base, "tmp")
	}
	cmd.Env = append(os.Environ(), "TMPDIR="+tmp, "GOMAXPROCS=2")
	res, err := cmd.Output()
	s := string(res)
	if i := strings.Index(s, "START "); i >= 0 {
		h.failed = strings.TrimSpace(s[i+6:])
	} else if i := strings.Index(s, "LOG "); i >= 0 {
		var l struct {
			Log   []write
			Codes []string
		}
		if err := json.Unmarshal([]byte(strings.TrimSpace(s[i+4:])), &l); err != nil {
			return nil, err
		}
		h.writes, h.codes = l.Log, l.Codes
	} else {
		return nil, fmt.Errorf("tracing failed: %v %s", err, cut(res))
	}
	if err := t.parse(out); err != nil {
		return nil, err
	}
	h.take(t)
	cur := clone(before)
	for i := range ops {
		cur = clone(cur)
		for _, w := range h.writes {
			if w.Op != i {
				continue
			}
			if w.Del {
				delete(cur, w.Key)
			} else {
				b, _ := base64.StdEncoding.DecodeString(w.Val)
				cur[w.Key] = b
			}
		}
		h.states = append(h.states, cur)
	}
	return h, nil
}

func clone(m map[string][]byte) map[string][]byte {
	o := map[string][]byte{}
	for k, v := range m {
		o[k] = v
	}
	return o
}

func digest(m map[string][]byte) string {
	l := []string{}
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	s := sha256.New()
	for _, k := range l {
		fmt.Fprintf(s, "%d %s %d ", len(k), k, len(m[k]))
		s.Write(m[k])
	}
	return string(s.Sum(nil))
}
