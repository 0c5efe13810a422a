package main

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/netauth/netauth/internal/db"
	// the third store
	_ "github.com/netauth/netauth/internal/db/memory"

	"github.com/netauth/netauth/internal/zverif/eng"
)

// The stores are used directly, without a server, and compared with a map.

// dop is an operation: put, del, stop, kill.
type dop struct {
	what, key, val string
}

func (o dop) String() string {
	switch o.what {
	case "put":
		return fmt.Sprintf("put %q %s", o.key, o.val)
	case "del":
		return fmt.Sprintf("del %q", o.key)
	}
	return o.what
}

// values by name
var values = map[string][]byte{
	"short":  []byte("v"),
	"long":   []byte(strings.Repeat("0123456789", 900)),
	"empty":  {},
	"binary": {0, 255, '\n', 0, 0x0a, 0x12, 0},
}

func directOps(wide bool) []dop {
	var l []dop
	keys := []string{"/entities/a", "/groups/a"}
	vals := []string{"short", "long", "binary", "empty"}
	if wide {
		keys = []string{"/entities/a", "/entities/A", "/entities/.a", "/entities/a.b", "/entities/*", "/entities/[a", `/entities/\a`, "/entities/a b", "/entities/a ", "/entities/ a", "/entities/\xff", "/entities/~a", "/entities/..a", "/groups/entities", "/entities/" + strings.Repeat("n", 200)}
		vals = vals[:1]
	}
	for _, k := range keys {
		for _, v := range vals {
			l = append(l, dop{"put", k, v})
		}
		l = append(l, dop{"del", k, ""})
	}
	return append(l, dop{what: "stop"}, dop{what: "kill"})
}

var patterns = []string{"/*/*", "/entities/*", "/groups/*", "/entities/a*", "/entities/[aA]", "/entities/?a", "/*/a", "/none/*"}

// directAll is every key that is looked at.
func directAll(ops []dop) []string {
	seen := map[string]bool{"/entities/none": true, "/groups/none": true, "/none/a": true}
	for _, o := range ops {
		if o.key != "" {
			seen[o.key] = true
		}
	}
	var l []string
	for k := range seen {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func announced(key, what string) db.Event {
	e := db.Event{PK: path.Base(key)}
	switch {
	case strings.HasPrefix(key, "/entities/") && what == "put":
		e.Type = db.EventEntityUpdate
	case strings.HasPrefix(key, "/entities/"):
		e.Type = db.EventEntityDestroy
	case what == "put":
		e.Type = db.EventGroupUpdate
	default:
		e.Type = db.EventGroupDestroy
	}
	return e
}

func direct(kind, dir string, ops []dop, looked []string) error {
	n := 0
	home := func() string { n++; return filepath.Join(dir, strconv.Itoa(n)) }
	defer os.RemoveAll(dir)
	h := home()
	os.MkdirAll(h, 0755)
	var events []db.Event
	start := func() (db.KVStore, error) {
		kv, err := open(kind, h)
		if err == nil {
			kv.SetEventFunc(func(e db.Event) { events = append(events, e) })
		}
		return kv, err
	}
	kv, err := start()
	if err != nil {
		return fmt.Errorf("an empty %s store does not open: %v", kind, err)
	}
	defer func() { kv.Close() }()
	want := map[string][]byte{}
	for i, o := range ops {
		at := func(f string, a ...interface{}) error {
			return fmt.Errorf("step %d, %s, on %s: %s", i+1, o, kind, fmt.Sprintf(f, a...))
		}
		events = nil
		var expect []db.Event
		switch o.what {
		case "put":
			err := kv.Put(o.key, append([]byte{}, values[o.val]...))
			if err != nil && o.val == "empty" {
				// Not every store has a notion of these.
				break
			}
			if err != nil {
				return at("fails: %v", err)
			}
			want[o.key] = values[o.val]
			expect = []db.Event{announced(o.key, "put")}
		case "del":
			err := kv.Del(o.key)
			_, had := want[o.key]
			if had {
				expect = []db.Event{announced(o.key, "del")}
			}
			if had && err != nil || !had && err != nil && err != db.ErrNoValue {
				return at("fails: %v", err)
			}
			if !had {
				// Nothing to announce, but no harm in it either.
				for _, e := range events {
					if e != announced(o.key, "del") {
						return at("there was an event %+v", e)
					}
				}
				events = nil
			}
			delete(want, o.key)
		default:
			if kind == "memory" {
				continue
			}
			old := kv
			nh := home()
			if o.what == "stop" {
				if err := old.Close(); err != nil {
					return at("closing fails: %v", err)
				}
			}
			if err := copyTree(h, nh); err != nil {
				return nil
			}
			if o.what == "kill" {
				old.Close()
			}
			h = nh
			if kv, err = start(); err != nil {
				kv = old
				return at("the store does not open again: %v", err)
			}
		}
		if len(events) != len(expect) || len(events) == 1 && events[0] != expect[0] {
			return at("the events were %+v instead of %+v", events, expect)
		}
		for _, k := range looked {
			v, err := kv.Get(k)
			w, had := want[k]
			if !had && err != db.ErrNoValue {
				return at("then %q is not there, but reading it gives %q, %v", k, cut(v), err)
			}
			if had && (err != nil || string(v) != string(w)) {
				return at("then %q reads %q (%d bytes), %v instead of %q (%d bytes)", k, cut(v), len(v), err, cut(w), len(w))
			}
		}
		for _, p := range patterns {
			l, err := kv.Keys(p)
			if err != nil {
				return at("then listing %s fails: %v", p, err)
			}
			var w []string
			for k := range want {
				if m, _ := path.Match(p, k); m {
					w = append(w, k)
				}
			}
			sort.Strings(l)
			sort.Strings(w)
			if strings.Join(l, "\x01") != strings.Join(w, "\x01") {
				return at("then %s lists %q instead of %q", p, l, w)
			}
		}
		events = nil
	}
	return nil
}

func exploreDirect(r *eng.Run, name, kind string, ops []dop, depth int) {
	base := scratch()
	defer os.RemoveAll(base)
	var all [][]int
	stub := make([]eng.Op, len(ops))
	sequences(stub, depth, func(p []int) bool { all = append(all, p); return true })
	looked := directAll(ops)
	var mu sync.Mutex
	var done int64
	fails := 0
	seq := func(i int) (l []dop, names []string) {
		for _, j := range all[i] {
			l = append(l, ops[j])
			names = append(names, ops[j].String())
		}
		return
	}
	parallel(len(all), func(k, i int) bool {
		if r.Expired() {
			return false
		}
		l, names := seq(i)
		var err error
		over := eng.Watch("direct "+kind, names)
		defer over()
		func() {
			defer func() {
				if p := recover(); p != nil {
					err = fmt.Errorf("panic: %v", p)
				}
			}()
			err = direct(kind, filepath.Join(base, strconv.Itoa(i)), l, looked)
		}()
		atomic.AddInt64(&done, 1)
		if err != nil {
			mu.Lock()
			defer mu.Unlock()
			before := len(r.Viol)
			r.Fail("direct "+kind, names, "%s", err)
			if len(r.Viol) > before {
				fails++
			}
			return fails < 5
		}
		return true
	})
	r.Add(done, done*int64(depth), done)
	l, _ := r.Extra["explorations"].([]string)
	r.Extra["explorations"] = append(l, fmt.Sprintf("%s on %s: alphabet %d ops, depth %d, %d of %d sequences", name, kind, len(ops), depth, done, len(all)))
	_, s := seq(len(all) / 3)
	r.Sample("%s on %s: %s", name, kind, strings.Join(s, "; "))
}

func replayDirect(kind string, names []string) error {
	base := scratch()
	defer os.RemoveAll(base)
	all := append(directOps(false), directOps(true)...)
	var l []dop
	for _, n := range names {
		for _, o := range all {
			if o.String() == n {
				l = append(l, o)
				break
			}
		}
	}
	return direct(kind, filepath.Join(base, "r"), l, directAll(all))
}
