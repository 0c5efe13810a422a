package main

import (
	"reflect"
	"unsafe"

	"github.com/blevesearch/bleve"

	"github.com/netauth/netauth/internal/zverif/eng"
	"github.com/netauth/netauth/internal/zverif/zsync"
)

// index makes the accesses to a search index scheduling points.
type index struct {
	bleve.Index
	name string
}

// indexer has the methods that are intercepted.
type indexer struct{ index }

// Index ...
func (x *indexer) Index(id string, d interface{}) error {
	zsync.Point(zsync.KWrite, x.name+"/"+id)
	return x.index.Index.Index(id, d)
}

// Delete ...
func (x *indexer) Delete(id string) error {
	zsync.Point(zsync.KWrite, x.name+"/"+id)
	return x.index.Index.Delete(id)
}

// Search ...
func (x *indexer) Search(r *bleve.SearchRequest) (*bleve.SearchResult, error) {
	zsync.Point(zsync.KList, x.name+"/*")
	return x.index.Index.Search(r)
}

var indexType = reflect.TypeOf((*bleve.Index)(nil)).Elem()

// hookIndexes finds the search indexes below v and wraps them.
func hookIndexes(w *eng.World) int {
	n := 0
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		if depth > 4 {
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			walk(v.Elem(), depth+1)
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				f := v.Field(i)
				if !f.CanAddr() {
					continue
				}
				f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
				if f.Type() == indexType && !f.IsNil() {
					n++
					ix := f.Interface().(bleve.Index)
					f.Set(reflect.ValueOf(&indexer{index{ix, "index" + string(rune('0'+n))}}))
					continue
				}
				if k := f.Kind(); k == reflect.Struct || (k == reflect.Ptr && f.Type().Elem().Kind() == reflect.Struct && f.Type().Elem().PkgPath() == "github.com/netauth/netauth/internal/db") {
					walk(f, depth+1)
				}
			}
		}
	}
	walk(reflect.ValueOf(w.DB), 0)
	return n
}
