package eng

import (
	"context"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/golang/protobuf/proto"

	types "github.com/netauth/protocol"
	rpb "github.com/netauth/protocol/v2"
)

// S is a shorthand for an optional string.
func S(s string) *string { return proto.String(s) }

// Caller produces the request context an operation is issued with.
// Context is a request context.
type Context = context.Context

type Caller func(w *World) context.Context

// AsRoot issues the request with a GLOBAL_ROOT token.
func AsRoot(w *World) context.Context { return w.Root() }

// Anon issues the request without a token.
func Anon(*World) context.Context { return Ctx("") }

// As issues the request with a token for id carrying caps.
func As(id string, caps ...types.Capability) Caller {
	return func(w *World) context.Context { return Ctx(w.Tok(id, caps...)) }
}

func entReq(id string) *rpb.EntityRequest {
	return &rpb.EntityRequest{Entity: &types.Entity{ID: S(id)}}
}

// EntityCreate ...
func EntityCreate(c Caller, id string, num int32, secret string) Op {
	return Op{Name: fmt.Sprintf("EntityCreate(%q,%d,%q)", id, num, secret), Do: func(w *World) Res {
		_, err := w.Srv.EntityCreate(c(w), &rpb.EntityRequest{Entity: &types.Entity{ID: S(id), Number: proto.Int32(num), Secret: S(secret)}})
		return R(err)
	}}
}

// EntityDestroy ...
func EntityDestroy(c Caller, id string) Op {
	return Op{Name: fmt.Sprintf("EntityDestroy(%q)", id), Do: func(w *World) Res {
		_, err := w.Srv.EntityDestroy(c(w), entReq(id))
		return R(err)
	}}
}

// EntityLock ...
func EntityLock(c Caller, id string) Op {
	return Op{Name: fmt.Sprintf("EntityLock(%q)", id), Do: func(w *World) Res {
		_, err := w.Srv.EntityLock(c(w), entReq(id))
		return R(err)
	}}
}

// EntityUnlock ...
func EntityUnlock(c Caller, id string) Op {
	return Op{Name: fmt.Sprintf("EntityUnlock(%q)", id), Do: func(w *World) Res {
		_, err := w.Srv.EntityUnlock(c(w), entReq(id))
		return R(err)
	}}
}

// EntityUpdate ...; mk builds the metadata afresh for every call.
func EntityUpdate(c Caller, id, what string, mk func() *types.EntityMeta) Op {
	return Op{Name: fmt.Sprintf("EntityUpdate(%q,%s)", id, what), Do: func(w *World) Res {
		_, err := w.Srv.EntityUpdate(c(w), &rpb.EntityRequest{Data: &types.Entity{ID: S(id), Meta: mk()}})
		return R(err)
	}}
}

// Auth ...
func Auth(id, secret string) Op {
	return Op{Name: fmt.Sprintf("AuthEntity(%q,%q)", id, secret), Do: func(w *World) Res {
		_, err := w.Srv.AuthEntity(Ctx(""), &rpb.AuthRequest{Entity: &types.Entity{ID: S(id)}, Secret: S(secret)})
		return R(err)
	}}
}

// GetToken ...
func GetToken(id, secret string) Op {
	return Op{Name: fmt.Sprintf("AuthGetToken(%q,%q)", id, secret), Do: func(w *World) Res {
		r, err := w.Srv.AuthGetToken(Ctx(""), &rpb.AuthRequest{Entity: &types.Entity{ID: S(id)}, Secret: S(secret)})
		return R(err, r.GetToken())
	}}
}

// ChangeSecret ...; cur is what the caller presents as the present secret.
func ChangeSecret(c Caller, who, id, cur, next string) Op {
	return Op{Name: fmt.Sprintf("AuthChangeSecret(as %s,%q,current %q,new %q)", who, id, cur, next), Do: func(w *World) Res {
		_, err := w.Srv.AuthChangeSecret(c(w), &rpb.AuthRequest{Entity: &types.Entity{ID: S(id), Secret: S(cur)}, Secret: S(next)})
		return R(err)
	}}
}

// EntityUM ...
func EntityUM(c Caller, id string, a rpb.Action, k, v string) Op {
	return Op{Name: fmt.Sprintf("EntityUM(%q,%s,%q,%q)", id, a, k, v), Do: func(w *World) Res {
		r, err := w.Srv.EntityUM(c(w), &rpb.KVRequest{Target: S(id), Action: a.Enum(), Key: S(k), Value: S(v)})
		return R(err, strings.Join(r.GetStrings(), "|"))
	}}
}

// EntityKeys ...
func EntityKeys(c Caller, id string, a rpb.Action, typ, key string) Op {
	return Op{Name: fmt.Sprintf("EntityKeys(%q,%s,%q,%q)", id, a, typ, key), Do: func(w *World) Res {
		r, err := w.Srv.EntityKeys(c(w), &rpb.KVRequest{Target: S(id), Action: a.Enum(), Key: S(typ), Value: S(key)})
		l := append([]string{}, r.GetStrings()...)
		sort.Strings(l)
		return R(err, strings.Join(l, "|"))
	}}
}

// At is a value with an index of its own, for KVD.
func At(i int, v string) string { return fmt.Sprintf("\x02%d\x02%s", i, v) }

// KVD builds key/value data.
func KVD(k string, vs ...string) *types.KVData {
	d := &types.KVData{Key: S(k)}
	for i, v := range vs {
		if p := strings.SplitN(v, "\x02", 3); len(p) == 3 && p[0] == "" {
			i, _ = strconv.Atoi(p[1])
			v = p[2]
		}
		d.Values = append(d.Values, &types.KVValue{Value: S(v), Index: proto.Int32(int32(i))})
	}
	return d
}

type kv2call func(rpb.NetAuth2Server) func(context.Context, *rpb.KV2Request) (*rpb.Empty, error)

// KV2 is one of the mutating key/value calls: verb is Add, Del or Replace.
func KV2(c Caller, entity bool, verb, target, k string, vs ...string) Op {
	kind := "Group"
	if entity {
		kind = "Entity"
	}
	return Op{Name: fmt.Sprintf("%sKV%s(%q,%q,%q)", kind, verb, target, k, vs), Do: func(w *World) Res {
		var f func(context.Context, *rpb.KV2Request) (*rpb.Empty, error)
		switch kind + verb {
		case "EntityAdd":
			f = w.Srv.EntityKVAdd
		case "EntityDel":
			f = w.Srv.EntityKVDel
		case "EntityReplace":
			f = w.Srv.EntityKVReplace
		case "GroupAdd":
			f = w.Srv.GroupKVAdd
		case "GroupDel":
			f = w.Srv.GroupKVDel
		case "GroupReplace":
			f = w.Srv.GroupKVReplace
		}
		_, err := f(c(w), &rpb.KV2Request{Target: S(target), Data: KVD(k, vs...)})
		return R(err)
	}}
}

// KVGet reads key/value data.
func KVGet(w *World, entity bool, target, k string) ([]*types.KVData, error) {
	q := &rpb.KV2Request{Target: S(target), Data: &types.KVData{Key: S(k)}}
	f := w.Srv.GroupKVGet
	if entity {
		f = w.Srv.EntityKVGet
	}
	r, err := f(Ctx(""), q)
	return r.GetKVData(), err
}

// GroupCreate ...
func GroupCreate(c Caller, name, display, managed string, num int32) Op {
	return Op{Name: fmt.Sprintf("GroupCreate(%q,%q,%q,%d)", name, display, managed, num), Do: func(w *World) Res {
		_, err := w.Srv.GroupCreate(c(w), &rpb.GroupRequest{Group: &types.Group{Name: S(name), DisplayName: S(display), ManagedBy: S(managed), Number: proto.Int32(num)}})
		return R(err)
	}}
}

// GroupDestroy ...
func GroupDestroy(c Caller, name string) Op {
	return Op{Name: fmt.Sprintf("GroupDestroy(%q)", name), Do: func(w *World) Res {
		_, err := w.Srv.GroupDestroy(c(w), &rpb.GroupRequest{Group: &types.Group{Name: S(name)}})
		return R(err)
	}}
}

// GroupUpdate ...
func GroupUpdate(c Caller, name, what string, mk func() *types.Group) Op {
	return Op{Name: fmt.Sprintf("GroupUpdate(%q,%s)", name, what), Do: func(w *World) Res {
		g := mk()
		g.Name = S(name)
		_, err := w.Srv.GroupUpdate(c(w), &rpb.GroupRequest{Group: g})
		return R(err)
	}}
}

// GroupUM ...
func GroupUM(c Caller, name string, a rpb.Action, k, v string) Op {
	return Op{Name: fmt.Sprintf("GroupUM(%q,%s,%q,%q)", name, a, k, v), Do: func(w *World) Res {
		r, err := w.Srv.GroupUM(c(w), &rpb.KVRequest{Target: S(name), Action: a.Enum(), Key: S(k), Value: S(v)})
		return R(err, strings.Join(r.GetStrings(), "|"))
	}}
}

// Rule ...
func Rule(c Caller, group, target string, a rpb.RuleAction) Op {
	return Op{Name: fmt.Sprintf("GroupUpdateRules(%q,%s,%q)", group, a, target), Do: func(w *World) Res {
		_, err := w.Srv.GroupUpdateRules(c(w), &rpb.GroupRulesRequest{Group: &types.Group{Name: S(group)}, Target: &types.Group{Name: S(target)}, RuleAction: a.Enum()})
		return R(err)
	}}
}

// Member adds (or, with add false, removes) a direct membership.
func Member(c Caller, add bool, id string, groups ...string) Op {
	n := "GroupAddMember"
	if !add {
		n = "GroupDelMember"
	}
	return Op{Name: fmt.Sprintf("%s(%q,%q)", n, id, groups), Do: func(w *World) Res {
		q := &rpb.EntityRequest{Entity: &types.Entity{ID: S(id), Meta: &types.EntityMeta{Groups: append([]string{}, groups...)}}}
		var err error
		if add {
			_, err = w.Srv.GroupAddMember(c(w), q)
		} else {
			_, err = w.Srv.GroupDelMember(c(w), q)
		}
		return R(err)
	}}
}

// Capability ...
func Capability(c Caller, direct bool, target string, a rpb.Action, cp types.Capability) Op {
	return Op{Name: fmt.Sprintf("SystemCapabilities(direct=%v,%q,%s,%s)", direct, target, a, cp), Do: func(w *World) Res {
		_, err := w.Srv.SystemCapabilities(c(w), &rpb.CapabilityRequest{Direct: proto.Bool(direct), Target: S(target), Action: a.Enum(), Capability: cp.Enum()})
		return R(err)
	}}
}

// Restart models stopping the server and starting it again on the same data.
func Restart() Op {
	return Op{Name: "Restart", Do: func(w *World) Res { w.Become(w.Restart()); return Res{} }}
}

// With attaches a tag.
func (o Op) With(tag interface{}) Op { o.Tag = tag; return o }

// Named renames.
func (o Op) Named(f string, a ...interface{}) Op { o.Name = fmt.Sprintf(f, a...); return o }

// Background is the empty context.
func Background() Context { return context.Background() }
