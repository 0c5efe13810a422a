package main

import (
	"context"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/golang/protobuf/proto"
	"google.golang.org/grpc/metadata"

	"github.com/netauth/netauth/internal/zverif/eng"

	types "github.com/netauth/protocol"
	rpb "github.com/netauth/protocol/v2"
)

// domain lists the values a field takes, the first being the usual one.
func domain(name string, t reflect.Type, nested bool) []reflect.Value {
	strs := func(l ...string) (o []reflect.Value) {
		for _, s := range l {
			s := s
			o = append(o, reflect.ValueOf(&s))
		}
		return
	}
	switch {
	case t == reflect.TypeOf((*string)(nil)):
		switch name {
		case "ID":
			return strs("e1", "", "e9", "../groups/g1")
		case "Name":
			return strs("g1", "", "g9", ".")
		case "Target":
			return strs("e1", "g1", "", "g9")
		case "Key":
			return strs("k", "", "*")
		case "Secret":
			return strs("s", "")
		case "Expression":
			return strs("*", "")
		case "ManagedBy":
			return strs("g2", "", "g9", "g1")
		}
		return strs("v", "")
	case t == reflect.TypeOf((*int32)(nil)):
		var o []reflect.Value
		for _, n := range []int32{-1, 0, 1<<31 - 1, -1 << 31} {
			n := n
			o = append(o, reflect.ValueOf(&n))
		}
		return o
	case t == reflect.TypeOf((*bool)(nil)):
		a, b := true, false
		return []reflect.Value{reflect.ValueOf(&a), reflect.ValueOf(&b)}
	case t.Kind() == reflect.Ptr && t.Elem().Kind() == reflect.Int32: // enums
		var o []reflect.Value
		for _, n := range []int64{1, 0, 2, 3, 4, 5, 99, -1} {
			v := reflect.New(t.Elem())
			v.Elem().SetInt(n)
			o = append(o, v)
		}
		return o
	case t.Kind() == reflect.Ptr && t.Elem().Kind() == reflect.Struct:
		return messages(t.Elem())
	case t.Kind() == reflect.Slice && t.Elem().Kind() == reflect.String:
		lists := [][]string{{"x:y"}, {""}, {"x"}, {":"}, {"a:b:c", "a"}}
		if name == "Groups" {
			lists = [][]string{{"g1"}, {""}, {"g9"}, {"g1", "g1", "g9"}}
		}
		if name == "Expansions" {
			lists = [][]string{{"INCLUDE:g2"}, {""}, {"g2"}, {"INCLUDE:g9"}, {"EXCLUDE:g1"}}
		}
		var o []reflect.Value
		for _, l := range lists {
			o = append(o, reflect.ValueOf(l))
		}
		return o
	case t.Kind() == reflect.Slice && t.Elem().Kind() == reflect.Int32:
		var o []reflect.Value
		for _, n := range []int64{10, 0, 99} {
			v := reflect.MakeSlice(t, 1, 1)
			v.Index(0).SetInt(n)
			o = append(o, v)
		}
		return o
	case t.Kind() == reflect.Slice && t.Elem().Kind() == reflect.Ptr:
		var o []reflect.Value
		for _, m := range messages(t.Elem().Elem()) {
			v := reflect.MakeSlice(t, 1, 1)
			v.Index(0).Set(m)
			o = append(o, v)
		}
		return o
	}
	return nil
}

func fields(t reflect.Type) []int {
	var o []int
	for i := 0; i < t.NumField(); i++ {
		if t.Field(i).PkgPath == "" && !strings.HasPrefix(t.Field(i).Name, "XXX_") {
			o = append(o, i)
		}
	}
	return o
}

// messages lists the variants of a message: empty, complete, complete but
// for one field, complete with one field at each of its values, and each
// field alone.
func messages(t reflect.Type) []reflect.Value {
	fs := fields(t)
	dom := map[int][]reflect.Value{}
	for _, i := range fs {
		dom[i] = domain(t.Field(i).Name, t.Field(i).Type, true)
	}
	full := func() reflect.Value {
		m := reflect.New(t)
		for _, i := range fs {
			if len(dom[i]) > 0 {
				m.Elem().Field(i).Set(dom[i][0])
			}
		}
		return m
	}
	out := []reflect.Value{full(), reflect.New(t)}
	for _, i := range fs {
		m := full()
		m.Elem().Field(i).Set(reflect.Zero(t.Field(i).Type))
		out = append(out, m)
		for k, v := range dom[i] {
			if k > 0 {
				m = full()
				m.Elem().Field(i).Set(v)
				out = append(out, m)
			}
		}
		if len(dom[i]) > 0 && len(fs) > 1 {
			m = reflect.New(t)
			m.Elem().Field(i).Set(dom[i][0])
			out = append(out, m)
		}
	}
	return out
}

type callerVariant struct {
	name string
	ctx  func(w *eng.World) context.Context
}

func callerVariants() []callerVariant {
	md := func(kv ...string) func(*eng.World) context.Context {
		return func(*eng.World) context.Context {
			return metadata.NewIncomingContext(context.Background(), metadata.Pairs(kv...))
		}
	}
	return []callerVariant{
		{"root", func(w *eng.World) context.Context { return w.Root() }},
		{"nobody", md("client-name", "zv")},
		{"no metadata at all", func(*eng.World) context.Context { return context.Background() }},
		{"an empty token", md("authorization", "")},
		{"a malformed token", md("authorization", "tok:{")},
		{"two tokens", md("authorization", "x", "authorization", "y")},
		{"an entity", func(w *eng.World) context.Context { return eng.Ctx(w.Tok("e1")) }},
		{"a nameless entity", func(w *eng.World) context.Context { return eng.Ctx(w.Tok("")) }},
	}
}

// wire sends a message through its encoding, as the network does.
func wire(m proto.Message) (proto.Message, bool) {
	b, err := proto.Marshal(m)
	if err != nil {
		return nil, false
	}
	n := reflect.New(reflect.TypeOf(m).Elem()).Interface().(proto.Message)
	if proto.Unmarshal(b, n) != nil {
		return nil, false
	}
	return n, true
}

// requests lists every call with every variant of its argument.
func requests(callers []callerVariant) []eng.Op {
	var ops []eng.Op
	st := reflect.TypeOf((*rpb.NetAuth2Server)(nil)).Elem()
	for i := 0; i < st.NumMethod(); i++ {
		m := st.Method(i)
		seen := map[string]bool{}
		for _, v := range messages(m.Type.In(1).Elem()) {
			msg, ok := wire(v.Interface().(proto.Message))
			if !ok {
				continue
			}
			txt := proto.CompactTextString(msg)
			if seen[txt] {
				continue
			}
			seen[txt] = true
			for _, c := range callers {
				c := c
				ops = append(ops, eng.Op{Name: fmt.Sprintf("%s{%s} by %s", m.Name, strings.TrimSpace(txt), c.name), Do: func(w *eng.World) eng.Res {
					in, _ := wire(msg)
					out := reflect.ValueOf(w.Srv).MethodByName(m.Name).Call([]reflect.Value{reflect.ValueOf(c.ctx(w)), reflect.ValueOf(in)})
					err, _ := out[1].Interface().(error)
					if resp, ok := out[0].Interface().(proto.Message); ok && err == nil {
						proto.Marshal(resp)
					}
					return eng.R(err)
				}})
			}
		}
	}
	return ops
}

// alive makes sure the server still serves reads and writes of everything.
func alive(w *eng.World) {
	readEverything(w, []string{"e1", "e2", ""}, []string{"g1", "g2", ""}, []string{"*"})
	eng.Auth("e1", "s").Do(w)
	eng.GroupUpdate(R, "g1", "nothing", func() *types.Group { return &types.Group{} }).Do(w)
	eng.EntityCreate(R, "e1", -1, "s").Do(w)
	eng.EntityDestroy(R, "nobody").Do(w)
	eng.GroupDestroy(R, "nothing").Do(w)
}

func init() {
	register(&eng.Check{ID: "C36", Level: "model_checking", Specs: func(r *eng.Run) []eng.Spec {
		mk := func(name string, depth int, ops []eng.Op, setupOps ...eng.Op) eng.Spec {
			return eng.Spec{Name: name, NoObs: true, Ops: ops, Depth: depth,
				Init: func() (*eng.World, eng.Ghost) {
					w := setup(eng.Config{}, setupOps...)
					alive(w)
					return w, eng.NoGhost{}
				},
				Step: func(s *eng.Step) (eng.Ghost, error) {
					alive(s.W)
					return s.Ghost, nil
				}}
		}
		all := callerVariants()
		start := []eng.Op{eng.GroupCreate(R, "g2", "", "", -1), eng.GroupCreate(R, "g1", "", "g2", -1), eng.EntityCreate(R, "e1", -1, "s"), eng.EntityCreate(R, "e2", -1, "s")}
		// Search expressions: every short string over the symbols the
		// expression language gives a meaning to.
		alpha := []string{"a", ":", "+", "-", "\"", "(", "/", "~", "*", "\\", ">", "<", "=", "^", "1", " "}
		var exprs []string
		level := []string{""}
		for d := 0; d < r.Pick(4, 5); d++ {
			var next []string
			for _, p := range level {
				for _, a := range alpha {
					next = append(next, p+a)
				}
			}
			exprs = append(exprs, next...)
			level = next
		}
		sort.Strings(exprs)
		var sops []eng.Op
		const chunk = 64
		for i := 0; i < len(exprs); i += chunk {
			end := i + chunk
			if end > len(exprs) {
				end = len(exprs)
			}
			part := exprs[i:end]
			sops = append(sops, eng.Op{Name: fmt.Sprintf("search for each of %q..%q", part[0], part[len(part)-1]), Do: func(w *eng.World) eng.Res {
				for _, e := range part {
					w.Srv.EntitySearch(eng.Ctx(""), &rpb.SearchRequest{Expression: eng.S(e)})
					w.Srv.GroupSearch(eng.Ctx(""), &rpb.SearchRequest{Expression: eng.S(e)})
				}
				return eng.Res{}
			}})
		}
		search := mk("search expressions", 1, sops, start...)
		search.Step = nil
		return []eng.Spec{
			mk("every request, every caller", 1, requests(all), start...),
			mk("on an empty directory", 1, requests(all[:1])),
			mk("pairs of requests", r.Pick(2, 3), requests(all[:1]), start...),
			search,
		}
	}})
}
