package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/netauth/netauth/internal/zverif/eng"

	types "github.com/netauth/protocol"
	rpb "github.com/netauth/protocol/v2"
)

func crashOps() []eng.Op {
	return []eng.Op{
		eng.EntityCreate(root, "e1", -1, "a"),
		eng.EntityDestroy(root, "e1"),
		eng.ChangeSecret(root, "root", "e1", "", "b"),
		big("e1", "k", 6000),
		stop,
		eng.GroupCreate(root, "g1", "d", "", -1),
		eng.GroupDestroy(root, "g1"),
		eng.Member(root, true, "e1", "g1"),
		eng.EntityCreate(root, "e2", 7, "a"),
		eng.EntityUpdate(root, "e1", "Shell=s", func() *types.EntityMeta { return &types.EntityMeta{Shell: eng.S("s")} }),
		eng.GroupUM(root, "g1", rpb.Action_UPSERT, "k", "v"),
		eng.Capability(root, false, "g1", rpb.Action_ADD, types.Capability_LOCK_ENTITY),
		// Large enough for bitcask to begin another file.
		big("e1", "large", 600000),
		big("e2", "large", 700000),
	}
}

// disk is a state of the disk: the directories and files under the base.
type disk struct {
	dirs  map[string]bool
	files map[string][]byte
	what  string
	modes map[string]os.FileMode
	allow []map[string][]byte // contents the store may then have
	ops   string
}

func (d *disk) key() string {
	m := map[string][]byte{}
	for p := range d.dirs {
		m[p+"/"] = nil
	}
	for p, b := range d.files {
		m[p] = b
	}
	s := digest(m)
	for _, a := range d.allow {
		s += digest(a)
	}
	return s
}

// pending is what has been written to a file but not synced.
type pending struct {
	upto int // events before this one are durable
}

// crashes calls f with every state the disk may be left in.  When power is
// false only the process dies.
func (h *history) crashes(power, full bool, f func(*disk) bool) {
	lastSync := map[int]int{} // file -> events before are durable
	metaSync := 0
	cur, began := -1, false
	upto := -1 // last finished request
	for p := 0; p <= len(h.ev); p++ {
		if p > 0 {
			e := &h.ev[p-1]
			switch e.kind {
			case "begin":
				cur, began = e.op, true
			case "end":
				upto, began = e.op, false
			case "sync":
				if e.ino < 0 {
					for _, x := range h.ev[:p] {
						lastSync[x.ino] = p
					}
				} else {
					lastSync[e.ino] = p
				}
				metaSync = p
			}
		}
		what := "at the end"
		if p < len(h.ev) {
			what = "before the " + h.ev[p].String()
		}
		if p > 0 {
			what += ", after the " + h.ev[p-1].String()
		}
		in := "between requests"
		if began {
			in = "during " + h.ops[cur]
		}
		at := fmt.Sprintf("%s, %s (event %d)", in, what, p)
		allow := []map[string][]byte{h.state(upto)}
		if began {
			allow = append(allow, h.state(cur))
		}
		if !power {
			if !f(&disk{what: "killed " + at, allow: allow, modes: h.modesAt(p), dirs: h.dirsAt(p, p), files: h.filesAt(p, p, nil)}) {
				return
			}
			if p < len(h.ev) && h.ev[p].kind == "write" && len(h.ev[p].data) > 4096 {
				// A large write may be interrupted.
				n := len(h.ev[p].data) / 2 &^ 4095
				if n == 0 {
					n = 4096
				}
				if !f(&disk{what: "killed half way " + at, allow: allow, modes: h.modesAt(p), dirs: h.dirsAt(p, p), files: h.filesAt(p, p+1, map[int]cutAt{h.ev[p].ino: {p, n, -1}})}) {
					return
				}
			}
			continue
		}
		// Which files have changes the disk may not have yet.
		unsynced := map[int][]int{}
		for i := 0; i < p; i++ {
			e := &h.ev[i]
			if (e.kind == "write" || e.kind == "trunc") && i >= lastSync[e.ino] {
				unsynced[e.ino] = append(unsynced[e.ino], i)
			}
		}
		var inos []int
		for i := range unsynced {
			inos = append(inos, i)
		}
		sort.Ints(inos)
		metas := []int{metaSync}
		for i := metaSync; i < p; i++ {
			if h.ev[i].meta() {
				metas = append(metas, i+1)
			}
		}
		for _, m := range metas {
			choice := map[int]cutAt{}
			torn := -1
			var rec func(k int) bool
			rec = func(k int) bool {
				if k == len(inos) {
					c := map[int]cutAt{}
					for i, v := range choice {
						c[i] = v
					}
					return f(&disk{what: fmt.Sprintf("power lost %s, directory changes up to event %d kept, unsynced data %v", at, m, c), allow: allow, modes: h.modesAt(m), dirs: h.dirsAt(m, p), files: h.filesAt(m, p, c)})
				}
				ino := inos[k]
				for i, c := range h.cuts(unsynced[ino]) {
					// Of the other files either everything is
					// there or nothing.
					if i > 1 && torn >= 0 && !full {
						continue
					}
					choice[ino] = c
					if i > 1 {
						torn++
					}
					ok := rec(k + 1)
					if i > 1 {
						torn--
					}
					if !ok {
						return false
					}
				}
				delete(choice, ino)
				return true
			}
			if !rec(0) {
				return
			}
		}
	}
}

func (h *history) state(i int) map[string][]byte {
	if i < 0 {
		return h.before
	}
	return h.states[i]
}

// cutAt says that of a file's changes those before event upto are kept, of
// the change at upto (if it is a write) the first keep bytes, followed by
// zeros up to byte zero of it.
type cutAt struct{ upto, keep, zero int }

func (c cutAt) String() string {
	if c.keep < 0 {
		return fmt.Sprintf("kept before event %d", c.upto)
	}
	if c.zero > 0 {
		return fmt.Sprintf("kept before event %d and %d bytes of it, then zeros", c.upto, c.keep)
	}
	return fmt.Sprintf("kept before event %d and %d bytes of it", c.upto, c.keep)
}

// cuts lists how much of a file's unsynced changes may have been kept.
func (h *history) cuts(ev []int) []cutAt {
	out := []cutAt{{1 << 30, -1, -1}}
	for _, i := range ev {
		out = append(out, cutAt{i, -1, -1})
		e := &h.ev[i]
		if e.kind == "write" && len(e.data) > 0 {
			n := len(e.data)
			seen := map[int]bool{0: true, n: true}
			for _, k := range []int{1, 11, 12, n / 2, n - 1} {
				if k < n && !seen[k] {
					seen[k] = true
					out = append(out, cutAt{i, k, -1})
				}
			}
			out = append(out, cutAt{i, 0, n})
			if n > 24 {
				out = append(out, cutAt{i, n / 2, n})
				out = append(out, cutAt{i, n - 6, n})
			}
		}
	}
	return out
}

func (h *history) dirsAt(m, p int) map[string]bool {
	d := map[string]bool{}
	for _, p := range h.init {
		d[p] = true
	}
	for i := 0; i < m && i < len(h.ev); i++ {
		switch e := &h.ev[i]; e.kind {
		case "mkdir":
			d[e.path] = true
		case "rmdir":
			delete(d, e.path)
		}
	}
	return d
}

func (h *history) modesAt(m int) map[string]os.FileMode {
	names, modes := map[string]int{}, map[int]os.FileMode{}
	for n, i := range h.fino {
		names[n] = i
		modes[i] = h.modes[n]
	}
	for i := 0; i < m && i < len(h.ev); i++ {
		switch e := &h.ev[i]; e.kind {
		case "create":
			names[e.path] = e.ino
			modes[e.ino] = e.mode
		case "chmod":
			modes[e.ino] = e.mode
		case "rename":
			delete(names, e.path)
			names[e.to] = e.ino
		case "unlink":
			delete(names, e.path)
		}
	}
	out := map[string]os.FileMode{}
	for n, i := range names {
		out[n] = modes[i]
	}
	return out
}

// filesAt has the directory changes before event m and the data changes
// before event p, except those not kept.
func (h *history) filesAt(m, p int, cuts map[int]cutAt) map[string][]byte {
	names := map[string]int{}
	data := map[int][]byte{}
	for n, i := range h.fino {
		names[n] = i
		data[i] = h.first[n]
	}
	own := map[int]bool{}
	for i := 0; i < p && i < len(h.ev); i++ {
		e := &h.ev[i]
		if e.meta() {
			if i >= m {
				continue
			}
			switch e.kind {
			case "create":
				names[e.path] = e.ino
			case "rename":
				delete(names, e.path)
				names[e.to] = e.ino
			case "unlink":
				delete(names, e.path)
			}
			continue
		}
		if e.kind != "write" && e.kind != "trunc" {
			continue
		}
		b := e.data
		if c, ok := cuts[e.ino]; ok && i >= c.upto {
			if i > c.upto || c.keep < 0 || e.kind == "trunc" {
				continue
			}
			if c.zero > 0 {
				z := make([]byte, c.zero)
				copy(z, b[:c.keep])
				b = z
			} else {
				b = b[:c.keep]
			}
		}
		old := data[e.ino]
		if !own[e.ino] {
			old = append([]byte{}, old...)
			own[e.ino] = true
		}
		if e.kind == "trunc" {
			for int64(len(old)) < e.size {
				old = append(old, 0)
			}
			data[e.ino] = old[:e.size]
			continue
		}
		for int64(len(old)) < e.off+int64(len(b)) {
			if int64(len(old)) == e.off {
				old = append(old, b...)
			} else {
				old = append(old, 0)
			}
		}
		copy(old[e.off:], b)
		data[e.ino] = old
	}
	out := map[string][]byte{}
	for n, i := range names {
		out[n] = data[i]
	}
	return out
}

// build makes a state of the disk real, with base in place of the base of
// the history.
func (d *disk) build(from, base string) error {
	if err := os.MkdirAll(filepath.Join(base, "home"), 0755); err != nil {
		return err
	}
	at := func(p string) string { return filepath.Join(base, strings.TrimPrefix(p, from)) }
	var dirs []string
	for p := range d.dirs {
		dirs = append(dirs, p)
	}
	sort.Strings(dirs)
	for _, p := range dirs {
		if err := os.MkdirAll(at(p), 0755); err != nil {
			return err
		}
	}
	for p, b := range d.files {
		if err := os.WriteFile(at(p), b, 0644); err != nil {
			if os.IsNotExist(err) {
				continue // its directory was lost, and so was it
			}
			return err
		}
		if m, ok := d.modes[p]; ok && m != 0644 {
			if err := os.Chmod(at(p), m.Perm()); err != nil {
				return err
			}
		}
	}
	return nil
}

// recovers starts a server on a state of the disk and judges it.  It
// returns the content found.
func recovers(kind, base string, allow []map[string][]byte) (map[string][]byte, error) {
	home := filepath.Join(base, "home")
	again := filepath.Join(base, "again")
	w, err := world(kind, home)
	if err != nil {
		return nil, fmt.Errorf("the server does not start: %v", err)
	}
	got, err := content(w.Cfg.KV)
	if err == nil {
		err = anyOf(allow, got)
	}
	if err != nil {
		w.Cfg.KV.Close()
		return got, err
	}
	kv := eng.NewMemKV()
	for k, v := range got {
		kv.SetRaw(k, v)
	}
	ref := eng.NewWorld(eng.Config{KV: kv})
	more := []eng.Op{eng.EntityCreate(root, "zz", -1, "s"), eng.ChangeSecret(root, "root", "e1", "", "zz"), eng.EntityDestroy(root, "e1")}
	for _, o := range more {
		a, e1 := eng.Guarded(func() eng.Res { return o.Do(w) })
		b, e2 := eng.Guarded(func() eng.Res { return o.Do(ref) })
		if e1 != nil || e2 != nil || a.Code != b.Code {
			w.Cfg.KV.Close()
			return got, fmt.Errorf("after the restart %s answers %s %q %v instead of %s", o.Name, a, a.Msg, e1, b)
		}
	}
	err = eng.SameView(w, ref, eng.Universe{Entities: []string{"e1", "e2", "zz"}, Groups: []string{"g1"}}, []string{"*"})
	if err != nil {
		w.Cfg.KV.Close()
		return got, fmt.Errorf("after the restart %v", err)
	}
	// And once more, the hard way.
	cerr := copyTree(home, again)
	w.Cfg.KV.Close()
	if cerr != nil {
		return got, nil
	}
	kv2, err := open(kind, again)
	if err != nil {
		return got, fmt.Errorf("after a further change and another crash the store does not open: %v", err)
	}
	defer kv2.Close()
	got2, err := content(kv2)
	if err == nil {
		if d := same(kv.Raw(), got2); d != "" {
			err = fmt.Errorf("%s", d)
		}
	}
	if err != nil {
		return got, fmt.Errorf("after a further change and another crash: %v", err)
	}
	return got, nil
}

func anyOf(allow []map[string][]byte, got map[string][]byte) error {
	var l []string
	for _, a := range allow {
		d := same(a, got)
		if d == "" {
			return nil
		}
		l = append(l, d)
	}
	if len(l) == 1 {
		return fmt.Errorf("an acknowledged change is lost or the data damaged: %s", l[0])
	}
	return fmt.Errorf("the data is neither as before the request (%s) nor as after it (%s)", l[0], l[1])
}

const smallFiles = "bitcask with small files"

// crashRun explores the crashes of one history.
type crashRun struct {
	r     *eng.Run
	base  string
	tmp   string
	mu    sync.Mutex
	seen  map[string]bool
	n     int64
	nodes int64
	ev    int64
	full  bool // combine every state of one file with every state of the others
	hist  int64
	err   string
}

func (c *crashRun) dir() string {
	return filepath.Join(c.base, strconv.FormatInt(atomic.AddInt64(&c.n, 1), 10))
}

// explore records one history on the given disk and judges what each crash
// leaves; with depth, what crashes of the server started on that leave.
func (c *crashRun) explore(kind string, from *disk, fromBase string, ops []string, before map[string][]byte, trail []string, depth int, only string) error {
	base := c.dir()
	defer os.RemoveAll(base)
	if from != nil {
		if err := from.build(fromBase, base); err != nil {
			return nil
		}
	}
	if from == nil {
		prepareKind(kind, base)
	}
	h, err := record(kind, base, ops, before, c.tmp)
	if err != nil {
		c.mu.Lock()
		c.err = err.Error()
		c.mu.Unlock()
		return nil
	}
	if h.failed != "" {
		return fmt.Errorf("the server does not start: %s", h.failed)
	}
	for _, o := range h.odd {
		c.mu.Lock()
		c.err = "not followed: " + o
		c.mu.Unlock()
	}
	atomic.AddInt64(&c.hist, 1)
	atomic.AddInt64(&c.ev, int64(len(h.ev)))
	var first error
	for _, power := range []bool{false, true} {
		h.crashes(power, c.full, func(d *disk) bool {
			if only == "" && c.r.Expired() {
				return false
			}
			if only != "" && d.what != only {
				return true
			}
			k := kind + d.relKey(base)
			c.mu.Lock()
			dup := c.seen[k]
			c.seen[k] = true
			c.mu.Unlock()
			if dup && only == "" {
				return true
			}
			atomic.AddInt64(&c.nodes, 1)
			nb := c.dir()
			defer os.RemoveAll(nb)
			if err := d.build(base, nb); err != nil {
				return true
			}
			over := eng.Watch(kind, append(append([]string{c.tmp}, ops...), d.what))
			got, err := recovers(kind, nb, d.allow)
			over()
			if err != nil {
				if first == nil {
					first = fmt.Errorf("%s: %s: %v", strings.Join(append(trail, ops...), "; "), d.what, err)
				}
				if only == "" {
					before := len(c.r.Viol)
					c.mu.Lock()
					c.r.Fail(kind, append(append([]string{c.tmp}, ops...), d.what), "%s", first)
					c.mu.Unlock()
					return len(c.r.Viol) == before
				}
				return false
			}
			if depth > 0 {
				t := append(append([]string{}, trail...), ops...)
				t = append(t, "("+d.what+")")
				if err := c.explore(kind, d, base, []string{crashOps()[0].Name}, got, t, depth-1, ""); err != nil && first == nil {
					first = err
				}
			}
			return true
		})
	}
	return first
}

func (d *disk) relKey(base string) string {
	n := &disk{dirs: map[string]bool{}, files: map[string][]byte{}, allow: d.allow}
	for p := range d.dirs {
		n.dirs[strings.TrimPrefix(p, base)] = true
	}
	for p, b := range d.files {
		if strings.HasPrefix(p, base+"/home") {
			n.files[strings.TrimPrefix(p, base)] = b
		}
	}
	return n.key()
}

func c24() *eng.Check {
	return &eng.Check{ID: "C24", Level: "model_checking",
		Run: func(r *eng.Run) {
			base := scratch()
			defer os.RemoveAll(base)
			ops := crashOps()
			var items []crashItem
			for _, k := range append(append([]string{}, kinds...), smallFiles) {
				for _, tmp := range []string{"/nonexistent", ""} {
					if tmp == "" && k != "filesystem" {
						continue
					}
					add := func(depth int, idx ...int) {
						items = append(items, crashItem{k, tmp, seqNames(ops, idx), depth})
					}
					small := 5
					sequences(ops[:small], r.Pick(2, 3), func(p []int) bool { add(0, p...); return true })
					add(0, 0, 5, 7, 8, 9, 10, 11, 3, 2, 6, 1)
					if k == "bitcask" && r.Thorough() {
						add(0, 0, 8, 12, 13, 2, 1)
						add(0, 0, 12, 12, 2, 4, 1)
					}
					for i := range ops[:small] {
						add(1, 0, i)
					}
				}
			}
			runs := map[string]*crashRun{}
			for _, t := range []string{"/nonexistent", ""} {
				runs[t] = &crashRun{r: r, base: filepath.Join(base, "t"+strings.Trim(t, "/")), tmp: t, seen: map[string]bool{}, full: r.Thorough()}
				os.MkdirAll(runs[t].base, 0755)
			}
			var done int64
			parallel(len(items), func(k, i int) bool {
				if r.Expired() || len(r.Viol) > 5 {
					return false
				}
				it := items[i]
				runs[it.tmp].explore(it.kind, nil, "", it.ops, map[string][]byte{}, nil, it.depth, "")
				atomic.AddInt64(&done, 1)
				return true
			})
			var x []string
			for t, c := range runs {
				r.Add(c.nodes, c.ev, c.nodes)
				where := "temporary files beside the store"
				if t == "" {
					where = "temporary files elsewhere"
				}
				x = append(x, fmt.Sprintf("%s: %d traced histories, %d disk events, %d distinct disk states after a crash", where, c.hist, c.ev, c.nodes))
				if c.err != "" {
					x = append(x, "incomplete: "+c.err)
					r.Exhaustive = false
				}
			}
			sort.Strings(x)
			r.Extra["explorations"] = x
		},
		ReplayOne: func(r *eng.Run, v *eng.Violation) error {
			base := scratch()
			defer os.RemoveAll(base)
			c := &crashRun{r: r, base: base, tmp: v.Trace[0], seen: map[string]bool{}, full: r.Thorough()}
			n := len(v.Trace)
			return c.explore(v.Spec, nil, "", v.Trace[1:n-1], map[string][]byte{}, nil, 0, v.Trace[n-1])
		}}
}

type crashItem struct {
	kind, tmp string
	ops       []string
	depth     int
}
