// Package eng is the shared model-checking engine: it builds complete
// NetAuth servers in process, runs operation histories against them and
// explores the reachable states exhaustively within stated bounds.
package eng

import (
	"path"
	"sort"
	"strings"
	"sync"

	"github.com/hashicorp/go-hclog"

	"github.com/netauth/netauth/internal/db"
)

// MemKV is the key/value store the explored servers run on.  It honours
// the contract of the shipped stores (atomic values, an event after each
// write) and lets a check observe, fault or schedule every storage call.
type MemKV struct {
	mu sync.Mutex
	m  map[string][]byte
	ef func(db.Event)

	// Before, when set, is called ahead of each storage call.  A
	// non-nil error makes the call fail without taking effect.
	Before func(op, key string) error
	// After, when set, is called when a storage call took effect
	// and before its event fires.  A non-nil error makes the call
	// report failure although it took effect.
	After func(op, key string) error
	// Reverse makes Keys list in the opposite order.
	Reverse bool
}

// NewMemKV returns an empty store.
func NewMemKV() *MemKV { return &MemKV{m: map[string][]byte{}} }

// Clone copies the stored data (not the hooks).
func (kv *MemKV) Clone() *MemKV {
	kv.mu.Lock()
	defer kv.mu.Unlock()
	n := NewMemKV()
	n.Reverse = kv.Reverse
	for k, v := range kv.m {
		n.m[k] = append([]byte(nil), v...)
	}
	return n
}

// Raw returns a copy of the stored data.
func (kv *MemKV) Raw() map[string][]byte { return kv.Clone().m }

// SetRaw stores a value with no event and no hook.
func (kv *MemKV) SetRaw(k string, v []byte) {
	kv.mu.Lock()
	kv.m[k] = append([]byte(nil), v...)
	kv.mu.Unlock()
}

func (kv *MemKV) fire(del bool, k string) {
	if kv.ef == nil {
		return
	}
	e := db.Event{PK: path.Base(k)}
	switch {
	case strings.HasPrefix(k, "/entities"):
		e.Type = db.EventEntityUpdate
		if del {
			e.Type = db.EventEntityDestroy
		}
	case strings.HasPrefix(k, "/groups"):
		e.Type = db.EventGroupUpdate
		if del {
			e.Type = db.EventGroupDestroy
		}
	default:
		return
	}
	kv.ef(e)
}

func (kv *MemKV) before(op, k string) error {
	if kv.Before != nil {
		return kv.Before(op, k)
	}
	return nil
}

func (kv *MemKV) after(op, k string) error {
	if kv.After != nil {
		return kv.After(op, k)
	}
	return nil
}

// Put stores a value.
func (kv *MemKV) Put(k string, v []byte) error {
	if err := kv.before("put", k); err != nil {
		return err
	}
	kv.mu.Lock()
	kv.m[k] = append([]byte(nil), v...)
	kv.mu.Unlock()
	if err := kv.after("put", k); err != nil {
		return err
	}
	kv.fire(false, k)
	return nil
}

// Get retrieves a value.
func (kv *MemKV) Get(k string) ([]byte, error) {
	if err := kv.before("get", k); err != nil {
		return nil, err
	}
	kv.mu.Lock()
	v, ok := kv.m[k]
	out := append([]byte(nil), v...)
	kv.mu.Unlock()
	if !ok {
		return nil, db.ErrNoValue
	}
	return out, nil
}

// Del removes a value; like the filesystem store it reports a missing key.
func (kv *MemKV) Del(k string) error {
	if err := kv.before("del", k); err != nil {
		return err
	}
	kv.mu.Lock()
	_, ok := kv.m[k]
	delete(kv.m, k)
	kv.mu.Unlock()
	if !ok {
		return db.ErrNoValue
	}
	if err := kv.after("del", k); err != nil {
		return err
	}
	kv.fire(true, k)
	return nil
}

// Keys lists the keys matching the shell pattern.
func (kv *MemKV) Keys(f string) ([]string, error) {
	if err := kv.before("keys", f); err != nil {
		return nil, err
	}
	kv.mu.Lock()
	defer kv.mu.Unlock()
	out := []string{}
	for k := range kv.m {
		if ok, _ := path.Match(f, k); ok {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	if kv.Reverse {
		sort.Sort(sort.Reverse(sort.StringSlice(out)))
	}
	return out, nil
}

// Close does nothing.
func (kv *MemKV) Close() error { return nil }

// Capabilities reports a writable store.
func (kv *MemKV) Capabilities() []db.KVCapability { return []db.KVCapability{db.KVMutable} }

// SetEventFunc binds the event sink.
func (kv *MemKV) SetEventFunc(f func(db.Event)) { kv.ef = f }

var nextKV db.KVStore

func kvFactory(hclog.Logger) (db.KVStore, error) {
	k := nextKV
	nextKV = nil
	return k, nil
}
