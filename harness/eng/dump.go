package eng

import (
	"fmt"
	"hash"
	"hash/fnv"
	"reflect"
	"sort"
	"strings"
	"unsafe"
)

// HiddenHash fingerprints the server's in-memory state: every plain datum
// reachable from the tree manager, whatever its layout, so that two states
// that could behave differently later are never merged.  Storage handles,
// loggers, functions and synchronisation primitives are skipped.
func (w *World) HiddenHash() uint64 {
	h := fnv.New64a()
	d := dumper{h: h, seen: map[uintptr]int{}}
	d.walk(reflect.ValueOf(w.Tree), 0)
	return h.Sum64()
}

type dumper struct {
	h    hash.Hash64
	seen map[uintptr]int
}

func skipType(t reflect.Type) bool {
	p := t.PkgPath()
	if p == "" {
		return false
	}
	switch {
	case p == "github.com/netauth/netauth/internal/zverif/zfilter":
		return false
	case strings.HasPrefix(p, "github.com/netauth/netauth/internal/zverif"),
		p == "github.com/netauth/netauth/internal/db",
		strings.HasPrefix(p, "github.com/netauth/netauth/internal/crypto"),
		p == "sync", p == "sync/atomic", p == "time":
		return true
	case strings.HasPrefix(p, "github.com/netauth/"), strings.HasPrefix(p, "github.com/the-maldridge/"):
		return false
	}
	return t.Kind() == reflect.Struct || t.Kind() == reflect.Interface
}

func (d *dumper) walk(v reflect.Value, depth int) {
	if !v.IsValid() || depth > 60 {
		return
	}
	if skipType(v.Type()) {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			d.h.Write([]byte("nil"))
			return
		}
		p := v.Pointer()
		if n, ok := d.seen[p]; ok {
			fmt.Fprintf(d.h, "@%d", n)
			return
		}
		d.seen[p] = len(d.seen)
		d.walk(v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		d.walk(v.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if !f.CanInterface() && f.CanAddr() {
				f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			}
			d.h.Write([]byte{'.'})
			d.walk(f, depth+1)
		}
	case reflect.Map:
		type kv struct {
			k string
			v reflect.Value
		}
		l := []kv{}
		for _, k := range v.MapKeys() {
			l = append(l, kv{fmt.Sprint(k), v.MapIndex(k)})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].k < l[j].k })
		d.h.Write([]byte{'{'})
		for _, e := range l {
			d.h.Write([]byte(e.k))
			d.h.Write([]byte{':'})
			d.walk(e.v, depth+1)
		}
		d.h.Write([]byte{'}'})
	case reflect.Slice, reflect.Array:
		d.h.Write([]byte{'['})
		for i := 0; i < v.Len(); i++ {
			d.walk(v.Index(i), depth+1)
			d.h.Write([]byte{','})
		}
		d.h.Write([]byte{']'})
	case reflect.String:
		d.h.Write([]byte(v.String()))
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float64, reflect.Float32:
		fmt.Fprint(d.h, v)
	}
}
