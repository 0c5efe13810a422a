package main

import (
	"fmt"
	"path"
	"reflect"
	"sort"
	"strings"

	"github.com/golang/protobuf/proto"

	"github.com/netauth/netauth/internal/zverif/eng"
	types "github.com/netauth/protocol"
)

// render writes a message down such that values that read alike look alike:
// an optional field that is not set is the same as one set to its default.
func render(m proto.Message) string {
	b := &strings.Builder{}
	walk(b, reflect.ValueOf(m))
	return b.String()
}

func walk(b *strings.Builder, v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			v = reflect.New(v.Type().Elem())
		}
		walk(b, v.Elem())
	case reflect.Struct:
		t := v.Type()
		b.WriteString("{")
		for i := 0; i < t.NumField(); i++ {
			n := t.Field(i).Name
			if strings.HasPrefix(n, "XXX_") {
				continue
			}
			p := &strings.Builder{}
			walk(p, v.Field(i))
			switch s := p.String(); s {
			case `""`, "0", "false", "[]", "{}":
			default:
				b.WriteString(n + ":" + s + " ")
			}
		}
		s := b.String()
		if strings.HasSuffix(s, " ") {
			b.Reset()
			b.WriteString(s[:len(s)-1])
		}
		b.WriteString("}")
	case reflect.Slice:
		l := []string{}
		for i := 0; i < v.Len(); i++ {
			p := &strings.Builder{}
			walk(p, v.Index(i))
			l = append(l, p.String())
		}
		sort.Strings(l)
		b.WriteString("[" + strings.Join(l, ",") + "]")
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	default:
		fmt.Fprint(b, v.Interface())
	}
}

// stored decodes what is in the store.
func stored(kv *eng.MemKV) map[string]proto.Message {
	out := map[string]proto.Message{}
	for k, v := range kv.Raw() {
		var m proto.Message
		switch path.Dir(k) {
		case "/entities":
			m = &types.Entity{}
		case "/groups":
			m = &types.Group{}
		default:
			m = &types.Entity{ID: proto.String(fmt.Sprintf("unknown key with %x", v))}
			out[k] = m
			continue
		}
		if err := proto.Unmarshal(v, m); err != nil {
			m = &types.Entity{ID: proto.String("undecodable: " + err.Error())}
		}
		out[k] = m
	}
	return out
}

// text renders a whole store.
func text(s map[string]proto.Message) string {
	ks := []string{}
	for k := range s {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	b := &strings.Builder{}
	for _, k := range ks {
		fmt.Fprintf(b, "%s = %s\n", k, render(s[k]))
	}
	return b.String()
}
