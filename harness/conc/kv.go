package main

import (
	"path"
	"strings"

	"github.com/netauth/netauth/internal/db"
	"github.com/netauth/netauth/internal/zverif/eng"
	"github.com/netauth/netauth/internal/zverif/zsync"
)

// KV is the store of a concurrent run: every call is a scheduling point and
// takes effect at once; it orders nothing for the race detector.
type KV struct {
	keys []string
	vals [][]byte
	n    int
	ef   func(db.Event)
}

const kvMax = 256

func newKV() *KV { return &KV{keys: make([]string, kvMax), vals: make([][]byte, kvMax)} }

//go:norace
func (kv *KV) find(k string) int {
	for i := 0; i < kv.n; i++ {
		if kv.keys[i] == k {
			return i
		}
	}
	return -1
}

//go:norace
func dup(v []byte) []byte {
	o := make([]byte, len(v))
	for i := 0; i < len(v); i++ {
		o[i] = v[i]
	}
	return o
}

//go:norace
func (kv *KV) put(k string, v []byte) {
	i := kv.find(k)
	if i < 0 {
		i = kv.n
		if i == kvMax {
			panic("the store is full")
		}
		kv.n++
		kv.keys[i] = k
	}
	kv.vals[i] = dup(v)
}

//go:norace
func (kv *KV) get(k string) ([]byte, bool) {
	i := kv.find(k)
	if i < 0 {
		return nil, false
	}
	return dup(kv.vals[i]), true
}

//go:norace
func (kv *KV) del(k string) bool {
	i := kv.find(k)
	if i < 0 {
		return false
	}
	kv.n--
	for ; i < kv.n; i++ {
		kv.keys[i], kv.vals[i] = kv.keys[i+1], kv.vals[i+1]
	}
	return true
}

//go:norace
func (kv *KV) count() int { return kv.n }

//go:norace
func (kv *KV) key(i int) string { return kv.keys[i] }

func (kv *KV) fire(del bool, k string) {
	if kv.ef == nil {
		return
	}
	e := db.Event{PK: path.Base(k)}
	switch {
	case strings.HasPrefix(k, "/entities"):
		e.Type = db.EventEntityUpdate
		if del {
			e.Type = db.EventEntityDestroy
		}
	case strings.HasPrefix(k, "/groups"):
		e.Type = db.EventGroupUpdate
		if del {
			e.Type = db.EventGroupDestroy
		}
	default:
		return
	}
	kv.ef(e)
}

// Put ...
func (kv *KV) Put(k string, v []byte) error {
	zsync.Point(zsync.KWrite, k)
	kv.put(k, v)
	kv.fire(false, k)
	return nil
}

// Get ...
func (kv *KV) Get(k string) ([]byte, error) {
	zsync.Point(zsync.KRead, k)
	if v, ok := kv.get(k); ok {
		return v, nil
	}
	return nil, db.ErrNoValue
}

// Del ...
func (kv *KV) Del(k string) error {
	zsync.Point(zsync.KWrite, k)
	if !kv.del(k) {
		return db.ErrNoValue
	}
	kv.fire(true, k)
	return nil
}

// Keys ...
func (kv *KV) Keys(f string) ([]string, error) {
	zsync.Point(zsync.KList, f)
	out := []string{}
	for i := 0; i < kv.count(); i++ {
		k := kv.key(i)
		if ok, _ := path.Match(f, k); ok {
			out = append(out, k)
		}
	}
	return out, nil
}

// Close ...
func (kv *KV) Close() error { return nil }

// Capabilities ...
func (kv *KV) Capabilities() []db.KVCapability { return []db.KVCapability{db.KVMutable} }

// SetEventFunc ...
func (kv *KV) SetEventFunc(f func(db.Event)) { kv.ef = f }

// mem copies the data to a plain store.
func (kv *KV) mem() *eng.MemKV {
	m := eng.NewMemKV()
	for i := 0; i < kv.n; i++ {
		m.SetRaw(kv.keys[i], kv.vals[i])
	}
	return m
}

func (kv *KV) clone() *KV {
	c := newKV()
	for i := 0; i < kv.n; i++ {
		c.put(kv.keys[i], kv.vals[i])
	}
	return c
}
