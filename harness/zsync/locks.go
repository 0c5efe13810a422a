package zsync

import (
	"reflect"
	"sort"
	"sync"
	"unsafe"
)

// Mutex is a sync.Mutex whose acquisition is a scheduling point.
type Mutex struct {
	held bool
	mu   sync.Mutex
}

//go:norace
func (m *Mutex) take() {
	if active && !abort {
		point(KLock, uintptr(unsafe.Pointer(m)), "", m, nil, nil)
	}
}

//go:norace
func (m *Mutex) set(v bool) {
	m.held = v
	if v {
		hold(uintptr(unsafe.Pointer(m)))
	} else {
		drop(uintptr(unsafe.Pointer(m)))
	}
}

// Lock ...
func (m *Mutex) Lock() {
	m.take()
	if skip() {
		return
	}
	m.mu.Lock()
	m.set(true)
}

// TryLock ...
func (m *Mutex) TryLock() bool {
	Point(KLock, "")
	if m.mu.TryLock() {
		m.set(true)
		return true
	}
	return false
}

// Unlock ...
func (m *Mutex) Unlock() {
	if skip() {
		return
	}
	m.set(false)
	m.mu.Unlock()
}

// skip is true while a run is being torn down: locks no longer matter.
//
//go:norace
func skip() bool { return active && abort }

// RWMutex is a sync.RWMutex whose acquisitions are scheduling points; like
// the original, a waiting writer keeps new readers out.
type RWMutex struct {
	writer         bool
	readers        int
	writersWaiting int
	mu             sync.RWMutex
}

//go:norace
func (m *RWMutex) takeW() {
	if active && !abort {
		point(KLock, uintptr(unsafe.Pointer(m)), "", nil, m, nil)
	}
}

//go:norace
func (m *RWMutex) takeR() {
	if active && !abort {
		point(KRLock, uintptr(unsafe.Pointer(m)), "", nil, m, nil)
	}
}

//go:norace
func (m *RWMutex) setW(v bool) {
	m.writer = v
	if v {
		hold(uintptr(unsafe.Pointer(m)))
	} else {
		drop(uintptr(unsafe.Pointer(m)))
	}
}

//go:norace
func (m *RWMutex) addR(n int) {
	m.readers += n
	if n > 0 {
		hold(uintptr(unsafe.Pointer(m)) | 1)
	} else {
		drop(uintptr(unsafe.Pointer(m)) | 1)
	}
}

// Lock ...
func (m *RWMutex) Lock() {
	m.takeW()
	if skip() {
		return
	}
	m.mu.Lock()
	m.setW(true)
}

// TryLock ...
func (m *RWMutex) TryLock() bool {
	Point(KLock, "")
	if m.mu.TryLock() {
		m.setW(true)
		return true
	}
	return false
}

// Unlock ...
func (m *RWMutex) Unlock() {
	if skip() {
		return
	}
	m.setW(false)
	m.mu.Unlock()
}

// RLock ...
func (m *RWMutex) RLock() {
	m.takeR()
	if skip() {
		return
	}
	m.mu.RLock()
	m.addR(1)
}

// TryRLock ...
func (m *RWMutex) TryRLock() bool {
	Point(KRLock, "")
	if m.mu.TryRLock() {
		m.addR(1)
		return true
	}
	return false
}

// RUnlock ...
func (m *RWMutex) RUnlock() {
	if skip() {
		return
	}
	m.addR(-1)
	m.mu.RUnlock()
}

// RLocker ...
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup is a sync.WaitGroup whose Wait is a scheduling point.
type WaitGroup struct {
	n  int
	wg sync.WaitGroup
}

//go:norace
func (w *WaitGroup) add(n int) { w.n += n }

//go:norace
func (w *WaitGroup) take() {
	if active && !abort {
		point(KWait, uintptr(unsafe.Pointer(w)), "", nil, nil, w)
	}
}

// Add ...
func (w *WaitGroup) Add(n int) { w.add(n); w.wg.Add(n) }

// Done ...
func (w *WaitGroup) Done() { w.add(-1); w.wg.Done() }

// Go ...
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Wait ...
func (w *WaitGroup) Wait() {
	w.take()
	if skip() {
		return
	}
	w.wg.Wait()
}

// Once is a sync.Once whose first call is a scheduling point.
type Once struct {
	m    Mutex
	done bool
}

// Do ...
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Go starts f(args...) as a thread of the run.
func Go(f interface{}, args ...interface{}) {
	fv := reflect.ValueOf(f)
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		if a == nil {
			t := fv.Type()
			k := i
			if t.IsVariadic() && k >= t.NumIn()-1 {
				in[i] = reflect.Zero(t.In(t.NumIn() - 1).Elem())
			} else {
				in[i] = reflect.Zero(t.In(k))
			}
			continue
		}
		in[i] = reflect.ValueOf(a)
	}
	call := func() { fv.Call(in) }
	if !Active() {
		go call()
		return
	}
	spawn(call)
}

// Keys lists the keys of a map in sorted order (or the reverse).
func Keys(m interface{}) []interface{} {
	v := reflect.ValueOf(m)
	ks := v.MapKeys()
	sort.Slice(ks, func(i, j int) bool { return less(ks[i], ks[j]) != Backwards })
	out := make([]interface{}, len(ks))
	for i, k := range ks {
		out[i] = k.Interface()
	}
	return out
}

// Backwards reverses the order in which maps are walked.
var Backwards bool

func less(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.String:
		return a.String() < b.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return a.Uint() < b.Uint()
	}
	return false
}
