package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/golang/protobuf/proto"

	"github.com/netauth/netauth/internal/zverif/eng"

	types "github.com/netauth/protocol"
	rpb "github.com/netauth/protocol/v2"
)

var root = eng.AsRoot

var univ = eng.Universe{Entities: []string{"e1", "e2", ".e", "e*", "[e", `e\1`}, Groups: []string{"g1", "g2"}}

func big(id, key string, n int) eng.Op {
	v := strings.Repeat("x", n)
	return eng.Op{Name: fmt.Sprintf("EntityKVAdd(%s,%s,%d bytes)", id, key, n), Do: func(w *eng.World) eng.Res {
		_, err := w.Srv.EntityKVAdd(w.Root(), &rpb.KV2Request{Target: eng.S(id), Data: &types.KVData{Key: &key, Values: []*types.KVValue{{Value: &v, Index: proto.Int32(0)}}}})
		return eng.R(err)
	}}
}

// stop and kill are interpreted by the driver: the server is stopped in an
// orderly way or killed, and started again.
var stop = eng.Op{Name: "stop and start"}
var kill = eng.Op{Name: "kill and start"}

func conformOps(wide bool) []eng.Op {
	o := []eng.Op{
		eng.EntityCreate(root, "e1", -1, "a"),
		eng.EntityDestroy(root, "e1"),
		eng.ChangeSecret(root, "root", "e1", "", "b"),
		eng.EntityCreate(root, "e2", 7, "a"),
		eng.GroupCreate(root, "g1", "d", "", -1),
		eng.GroupDestroy(root, "g1"),
		eng.Member(root, true, "e1", "g1"),
		eng.EntityCreate(root, ".e", -1, "a"),
		stop,
		kill,
	}
	if wide {
		o = append(o,
			eng.EntityCreate(root, "e*", -1, "a"),
			eng.EntityDestroy(root, "e*"),
			eng.EntityCreate(root, "[e", -1, "a"),
			eng.EntityCreate(root, `e\1`, -1, "a"),
			eng.EntityDestroy(root, ".e"),
			big("e1", "k", 5000),
		)
	}
	return o
}

type conform struct {
	kind string
	dir  string
}

// run performs a history on the store and on the reference and compares.
func (c *conform) run(ops []eng.Op) (err error) {
	n := 0
	home := func() string { n++; return filepath.Join(c.dir, strconv.Itoa(n)) }
	defer os.RemoveAll(c.dir)
	h := home()
	if err := os.MkdirAll(h, 0755); err != nil {
		return nil
	}
	w, err := world(c.kind, h)
	if err != nil {
		return fmt.Errorf("the server does not start on an empty %s store: %v", c.kind, err)
	}
	ref := eng.NewWorld(eng.Config{})
	defer func() { w.Cfg.KV.Close() }()
	for i, o := range ops {
		switch o.Name {
		case stop.Name, kill.Name:
			old := w
			nh := home()
			if o.Name == stop.Name {
				old.DB.Shutdown()
			}
			if err := copyTree(h, nh); err != nil {
				return nil
			}
			if o.Name == kill.Name {
				old.Cfg.KV.Close()
			}
			h = nh
			nw, err := world(c.kind, h)
			if err != nil {
				return fmt.Errorf("after step %d the server does not start again: %v", i+1, err)
			}
			w = nw
			ref = ref.Restart()
		default:
			a, e1 := eng.Guarded(func() eng.Res { return o.Do(w) })
			b, e2 := eng.Guarded(func() eng.Res { return o.Do(ref) })
			if e1 != nil || e2 != nil {
				return fmt.Errorf("%s: %v %v", o.Name, e1, e2)
			}
			if a.Code != b.Code || a.Data != b.Data {
				return fmt.Errorf("step %d, %s, answers %s %q on %s and %s on the reference store", i+1, o.Name, a, a.Msg, c.kind, b)
			}
		}
		got, err := content(w.Cfg.KV)
		if err != nil {
			return fmt.Errorf("after step %d: %v", i+1, err)
		}
		if d := same(ref.KV.Raw(), got); d != "" {
			return fmt.Errorf("after step %d the %s store differs: %s", i+1, c.kind, d)
		}
	}
	if err := eng.SameView(w, ref, univ, []string{"*", "e1"}); err != nil {
		return fmt.Errorf("the server on the reference store %v", err)
	}
	return nil
}

// sequences calls f with every sequence of up to depth operations; it stops
// when f says so.
func sequences(ops []eng.Op, depth int, f func(idx []int) bool) {
	var rec func(p []int) bool
	rec = func(p []int) bool {
		if len(p) == depth {
			return f(p)
		}
		for i := range ops {
			if !rec(append(append([]int{}, p...), i)) {
				return false
			}
		}
		return true
	}
	rec(nil)
}

func seqNames(ops []eng.Op, idx []int) []string {
	var l []string
	for _, i := range idx {
		l = append(l, ops[i].Name)
	}
	return l
}

func byName(ops []eng.Op, names []string) []eng.Op {
	var l []eng.Op
	for _, n := range names {
		for _, o := range ops {
			if o.Name == n {
				l = append(l, o)
				break
			}
		}
	}
	return l
}

// parallel runs every item on all processors; f returns false to stop.
func parallel(n int, f func(worker, i int) bool) {
	var next, stopped int64
	var wg sync.WaitGroup
	for k := 0; k < runtime.NumCPU(); k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for atomic.LoadInt64(&stopped) == 0 {
				i := int(atomic.AddInt64(&next, 1)) - 1
				if i >= n {
					return
				}
				if !f(k, i) {
					atomic.StoreInt64(&stopped, 1)
				}
			}
		}(k)
	}
	wg.Wait()
}

func explore(r *eng.Run, name, kind string, ops []eng.Op, depth int, run func(kind, dir string, ops []eng.Op) error) {
	base := scratch()
	defer os.RemoveAll(base)
	var all [][]int
	sequences(ops, depth, func(p []int) bool { all = append(all, p); return true })
	var mu sync.Mutex
	var done int64
	fails := 0
	parallel(len(all), func(k, i int) bool {
		if r.Expired() {
			return false
		}
		var l []eng.Op
		for _, j := range all[i] {
			l = append(l, ops[j])
		}
		over := eng.Watch(name+" "+kind, seqNames(ops, all[i]))
		err := run(kind, filepath.Join(base, strconv.Itoa(i)), l)
		over()
		atomic.AddInt64(&done, 1)
		if err != nil {
			mu.Lock()
			defer mu.Unlock()
			before := len(r.Viol)
			r.Fail(name+" "+kind, seqNames(ops, all[i]), "%s", err)
			if len(r.Viol) > before {
				fails++
			}
			return fails < 5
		}
		return true
	})
	r.Add(done, done*int64(depth), done)
	l, _ := r.Extra["explorations"].([]string)
	r.Extra["explorations"] = append(l, fmt.Sprintf("%s on %s: alphabet %d ops, depth %d, %d of %d sequences", name, kind, len(ops), depth, done, len(all)))
	for i := 0; i < 3; i++ {
		r.Sample("%s on %s: %s", name, kind, strings.Join(seqNames(ops, all[(i*7919+13)%len(all)]), "; "))
	}
}

func runConform(kind, dir string, ops []eng.Op) error {
	return (&conform{kind: kind, dir: dir}).run(ops)
}

func c23() *eng.Check {
	return &eng.Check{ID: "C23", Level: "model_checking",
		Run: func(r *eng.Run) {
			for _, k := range []string{"memory", "filesystem", "bitcask"} {
				exploreDirect(r, "store alone", k, directOps(false), r.Pick(4, 6))
				exploreDirect(r, "store alone, odd keys", k, directOps(true), 3)
			}
			for _, k := range kinds {
				explore(r, "histories", k, conformOps(false), r.Pick(3, 4), runConform)
				explore(r, "odd names", k, conformOps(true), r.Pick(2, 3), runConform)
			}
		},
		ReplayOne: func(r *eng.Run, v *eng.Violation) error {
			base := scratch()
			defer os.RemoveAll(base)
			f := strings.Fields(v.Spec)
			if f[0] == "direct" {
				return replayDirect(f[1], v.Trace)
			}
			return runConform(f[len(f)-1], filepath.Join(base, "r"), byName(conformOps(true), v.Trace))
		}}
}
