// Package main decides the properties of the storage back ends: the real
// servers of these checks run on the file system and bitcask stores.
package main

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/hashicorp/go-hclog"
	"github.com/spf13/viper"

	"github.com/netauth/netauth/internal/db"
	// the stores under test
	_ "github.com/netauth/netauth/internal/db/bitcask"
	_ "github.com/netauth/netauth/internal/db/filesystem"

	"github.com/netauth/netauth/internal/zverif/eng"
)

var kinds = []string{"filesystem", "bitcask"}

var openMu sync.Mutex

// open opens a store of the given kind in home.
func open(kind, home string) (kv db.KVStore, err error) {
	eng.Setup()
	openMu.Lock()
	defer openMu.Unlock()
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	viper.Set("core.home", home)
	return db.NewKV(strings.Fields(kind)[0], hclog.NewNullLogger())
}

// world starts a server on the store in home.
func world(kind, home string) (w *eng.World, err error) {
	kv, err := open(kind, home)
	if err != nil {
		return nil, err
	}
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("%v", p)
		}
	}()
	return eng.NewWorld(eng.Config{KV: kv}), nil
}

// content reads everything a store holds.
func content(kv db.KVStore) (map[string][]byte, error) {
	l, err := kv.Keys("/*/*")
	if err != nil {
		return nil, err
	}
	out := map[string][]byte{}
	for _, k := range l {
		if _, dup := out[k]; dup {
			return nil, fmt.Errorf("%q is listed twice", k)
		}
		v, err := kv.Get(k)
		if err != nil {
			return nil, fmt.Errorf("%q is listed but cannot be read: %v", k, err)
		}
		out[k] = v
	}
	return out, nil
}

// same compares contents; "" means they agree.
func same(want, got map[string][]byte) string {
	for k, v := range want {
		g, ok := got[k]
		if !ok {
			return fmt.Sprintf("%s is missing", k)
		}
		if string(g) != string(v) {
			return fmt.Sprintf("%s holds %d bytes %q instead of %q", k, len(g), cut(g), cut(v))
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			return fmt.Sprintf("there is an unexpected %s", k)
		}
	}
	return ""
}

func cut(b []byte) []byte {
	if len(b) > 80 {
		return b[:80]
	}
	return b
}

// scratch is where stores are kept: on memory when possible, for syncing to
// disk would take most of the time.
func scratch() string {
	for _, d := range []string{"/dev/shm", os.TempDir()} {
		if p, err := os.MkdirTemp(d, "zvstore"); err == nil {
			return p
		}
	}
	fmt.Println("no place for scratch files")
	os.Exit(2)
	return ""
}

// copyTree copies the files of a stopped (or killed) store.
func copyTree(from, to string) error {
	return filepath.Walk(from, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		r, _ := filepath.Rel(from, p)
		t := filepath.Join(to, r)
		if i.IsDir() {
			return os.MkdirAll(t, 0755)
		}
		src, err := os.Open(p)
		if err != nil {
			return err
		}
		defer src.Close()
		dst, err := os.OpenFile(t, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
		if err != nil {
			return err
		}
		if _, err := io.Copy(dst, src); err != nil {
			return err
		}
		return dst.Close()
	})
}
