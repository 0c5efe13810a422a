package main

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/hashicorp/go-hclog"
	"github.com/spf13/viper"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"

	"github.com/netauth/netauth/internal/token"
	"github.com/netauth/netauth/internal/zverif/eng"
	"github.com/netauth/netauth/pkg/netauth"
	types "github.com/netauth/protocol"
	rpb "github.com/netauth/protocol/v2"
)

// clServer is one address at which a server listens; what it serves can be
// exchanged.
type clServer struct {
	rpb.NetAuth2Server
	name string
	g    *grpc.Server

	mu   sync.Mutex
	seen []clSeen
}

// clSeen is a request that arrived.
type clSeen struct {
	method string
	md     metadata.MD
}

func (s *clServer) note(ctx context.Context, req interface{}, info *grpc.UnaryServerInfo, h grpc.UnaryHandler) (interface{}, error) {
	md, _ := metadata.FromIncomingContext(ctx)
	s.mu.Lock()
	s.seen = append(s.seen, clSeen{filepath.Base(info.FullMethod), md})
	s.mu.Unlock()
	return h(ctx, req)
}

func (s *clServer) take() []clSeen {
	s.mu.Lock()
	defer s.mu.Unlock()
	l := s.seen
	s.seen = nil
	return l
}

// clListen starts servers at several loopback addresses and one port.
func clListen(n int, opts func(i int) []grpc.ServerOption) ([]*clServer, int) {
	for try := 0; try < 200; try++ {
		var ls []net.Listener
		port := 0
		for i := 0; i < n; i++ {
			l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.%d:%d", i+1, port))
			if err != nil {
				break
			}
			port = l.Addr().(*net.TCPAddr).Port
			ls = append(ls, l)
		}
		if len(ls) < n {
			for _, l := range ls {
				l.Close()
			}
			continue
		}
		var out []*clServer
		for i, l := range ls {
			s := &clServer{name: fmt.Sprintf("127.0.0.%d", i+1)}
			var o []grpc.ServerOption
			if opts != nil {
				o = opts(i)
			}
			s.g = grpc.NewServer(append(o, grpc.UnaryInterceptor(s.note))...)
			rpb.RegisterNetAuth2Server(s.g, s)
			go s.g.Serve(l)
			out = append(out, s)
		}
		return out, port
	}
	panic("no port to listen at")
}

// clRes is the outcome of a call through the client library.
type clRes struct {
	code  codes.Code
	msg   string
	value string
	fails bool // without a code from the server
}

func clResult(v string, err error) clRes {
	if err == nil {
		return clRes{value: v}
	}
	s, ok := status.FromError(err)
	if !ok {
		return clRes{fails: true, msg: err.Error(), code: codes.Unknown}
	}
	return clRes{code: s.Code(), msg: s.Message()}
}

// clCall is one call of the library and what it stands for.
type clCall struct {
	name  string
	rpc   string // the method that has to arrive
	write bool
	bad   bool // the library has to refuse it by itself
	may   bool // the library may refuse it by itself
	via   func(ctx context.Context, c *netauth.Client) (string, error)
	// direct does the same at the server, and tells what the library
	// should return.
	direct func(w *eng.World, tok string) (string, error)
}

func clCtx(tok string) eng.Caller { return func(*eng.World) context.Context { return eng.Ctx(tok) } }

// op makes an operation of the engine into the reference of a call.
func op(f func(c eng.Caller) eng.Op) func(w *eng.World, tok string) (string, error) {
	return func(w *eng.World, tok string) (string, error) {
		r := f(clCtx(tok)).Do(w)
		if r.OK() {
			return "", nil
		}
		return "", status.Error(r.Code, r.Msg)
	}
}

func ents(l []*types.Entity) string {
	out := []string{}
	for _, e := range l {
		out = append(out, render(e))
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func grps(l []*types.Group) string {
	out := []string{}
	for _, e := range l {
		out = append(out, render(e))
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

// lists renders a map from key to values, without those that have none.
func lists(m map[string][]string) string {
	ks := []string{}
	for k, v := range m {
		if len(v) > 0 {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	out := []string{}
	for _, k := range ks {
		out = append(out, fmt.Sprintf("%q: %q", k, m[k]))
	}
	return strings.Join(out, ", ")
}

var ordinalRE = regexp.MustCompile(`^(.*)\{(\d+)\}$`)

// umWant is how untyped metadata has to be returned: by key, values in the
// order of their ordinals.
func umWant(l []string, key string) map[string][]string {
	type val struct {
		n int
		v string
	}
	m := map[string][]val{}
	for _, s := range l {
		i := strings.Index(s, ":")
		k, v, n := s[:i], s[i+1:], -1
		if x := ordinalRE.FindStringSubmatch(k); x != nil {
			k = x[1]
			n, _ = strconv.Atoi(x[2])
		}
		m[k] = append(m[k], val{n, v})
	}
	out := map[string][]string{}
	for k, vs := range m {
		if key != "*" && k != key {
			continue
		}
		sort.SliceStable(vs, func(i, j int) bool { return vs[i].n < vs[j].n })
		for _, v := range vs {
			out[k] = append(out[k], v.v)
		}
	}
	return out
}

func oneOf(s string, l []string) bool {
	for _, x := range l {
		if s == x {
			return true
		}
	}
	return false
}

// umAnswers are the answers that are right when a key is read. One that names
// an ordinal may be answered with the value it has, or with all of the key.
func umAnswers(l []string, key string) string {
	x := ordinalRE.FindStringSubmatch(key)
	if x == nil {
		return lists(umWant(l, key))
	}
	all := lists(umWant(l, x[1]))
	var one []string
	for _, s := range l {
		if strings.HasPrefix(s, key+":") {
			one = append(one, s)
		}
	}
	return all + "\x00" + lists(umWant(one, x[1]))
}

// umGot drops the ordinal from the keys of a reply, so that it does not
// matter whether a reply to a request for k{2} is filed under k{2} or k.
func umGot(m map[string][]string) map[string][]string {
	out := map[string][]string{}
	for k, v := range m {
		if x := ordinalRE.FindStringSubmatch(k); x != nil {
			k = x[1]
		}
		out[k] = append(out[k], v...)
	}
	return out
}

func kvWant(l []*types.KVData) map[string][]string {
	out := map[string][]string{}
	for _, d := range l {
		vs := append([]*types.KVValue{}, d.GetValues()...)
		sort.SliceStable(vs, func(i, j int) bool { return vs[i].GetIndex() < vs[j].GetIndex() })
		for _, v := range vs {
			out[d.GetKey()] = append(out[d.GetKey()], v.GetValue())
		}
	}
	return out
}

// keysBy files keys by their type, in no order.
func keysBy(l []string, typ string) map[string][]string {
	out := map[string][]string{}
	for _, s := range l {
		i := strings.Index(s, ":")
		if typ == "*" || strings.ToUpper(typ) == s[:i] {
			out[s[:i]] = append(out[s[:i]], s[i+1:])
		}
	}
	for _, v := range out {
		sort.Strings(v)
	}
	return out
}

func upKeys(m map[string][]string) map[string][]string {
	out := map[string][]string{}
	for k, v := range m {
		k = strings.ToUpper(k)
		out[k] = append(out[k], v...)
		sort.Strings(out[k])
	}
	return out
}

func ping(err error) (string, error) { return "", err }

// vals numbers n values.
func vals(n int) []string {
	out := []string{}
	for i := 0; i < n; i++ {
		out = append(out, fmt.Sprintf("v%d", (i*7)%100))
	}
	return out
}

type clNames struct{ ents, grps []string }

var clAll = clNames{
	ents: []string{"ann", "bob", "new-one", "nobody", ""},
	grps: []string{"eng", "eng-ops", "new one", "none", ""},
}

// clCalls builds the calls; short leaves out all but one of each method.
func clCalls(short bool) []*clCall {
	var out []*clCall
	add := func(rpc string, write bool, f string, a ...interface{}) *clCall {
		c := &clCall{rpc: rpc, write: write, name: fmt.Sprintf(f, a...)}
		out = append(out, c)
		return c
	}
	E, G := clAll.ents, clAll.grps
	if short {
		E, G = []string{"ann"}, []string{"eng"}
	}
	pick := func(l ...string) []string {
		if short {
			return l[:1]
		}
		return l
	}
	up := func(a string) string { return strings.ToUpper(a) }
	for _, id := range E {
		id := id
		for _, s := range pick("secret", "wrong", "") {
			s := s
			c := add("AuthEntity", false, "AuthEntity(%q,%q)", id, s)
			c.via = func(ctx context.Context, c *netauth.Client) (string, error) { return ping(c.AuthEntity(ctx, id, s)) }
			c.direct = op(func(eng.Caller) eng.Op { return eng.Auth(id, s) })
			c = add("AuthGetToken", false, "AuthGetToken(%q,%q)", id, s)
			c.via = func(ctx context.Context, c *netauth.Client) (string, error) { return c.AuthGetToken(ctx, id, s) }
			c.direct = func(w *eng.World, tok string) (string, error) {
				r, err := w.Srv.AuthGetToken(eng.Ctx(tok), &rpb.AuthRequest{Entity: &types.Entity{ID: &id}, Secret: &s})
				return r.GetToken(), err
			}
			for _, old := range pick("secret", "") {
				old := old
				c = add("AuthChangeSecret", true, "AuthChangeSecret(%q,new %q,old %q)", id, s, old)
				c.via = func(ctx context.Context, c *netauth.Client) (string, error) {
					return ping(c.AuthChangeSecret(ctx, id, s, old))
				}
				c.direct = op(func(ca eng.Caller) eng.Op { return eng.ChangeSecret(ca, "", id, old, s) })
			}
		}
		nums := []int{-1, 4242, 1, 1<<31 - 1, 1 << 31, 1<<32 + 1, -1 << 32}
		if short {
			nums = nums[:1]
		}
		for _, n := range nums {
			n := n
			for _, s := range pick("x", "") {
				s := s
				c := add("EntityCreate", true, "EntityCreate(%q,%q,%d)", id, s, n)
				c.via = func(ctx context.Context, c *netauth.Client) (string, error) {
					return ping(c.EntityCreate(ctx, id, s, n))
				}
				c.direct = op(func(ca eng.Caller) eng.Op { return eng.EntityCreate(ca, id, int32(n), s) })
				c.bad = int(int32(n)) != n
			}
		}
		meta := func() *types.EntityMeta {
			return &types.EntityMeta{GECOS: eng.S("g"), Shell: eng.S("/bin/x"), Groups: []string{"eng"}, Keys: []string{"SSH:k"}, UntypedMeta: []string{"k:v"}}
		}
		c := add("EntityUpdate", true, "EntityUpdate(%q)", id)
		c.via = func(ctx context.Context, c *netauth.Client) (string, error) {
			return ping(c.EntityUpdate(ctx, id, meta()))
		}
		c.direct = op(func(ca eng.Caller) eng.Op { return eng.EntityUpdate(ca, id, "", meta) })
		c = add("EntityInfo", false, "EntityInfo(%q)", id)
		c.via = func(ctx context.Context, c *netauth.Client) (string, error) {
			e, err := c.EntityInfo(ctx, id)
			return render(&e), err
		}
		c.direct = func(w *eng.World, tok string) (string, error) {
			r, err := w.Srv.EntityInfo(eng.Ctx(tok), &rpb.EntityRequest{Entity: &types.Entity{ID: &id}})
			if err != nil {
				return "", err
			}
			return render(r.GetEntities()[0]), err
		}
		c = add("EntityDestroy", true, "EntityDestroy(%q)", id)
		c.via = func(ctx context.Context, c *netauth.Client) (string, error) { return ping(c.EntityDestroy(ctx, id)) }
		c.direct = op(func(ca eng.Caller) eng.Op { return eng.EntityDestroy(ca, id) })
		c = add("EntityLock", true, "EntityLock(%q)", id)
		c.via = func(ctx context.Context, c *netauth.Client) (string, error) { return ping(c.EntityLock(ctx, id)) }
		c.direct = op(func(ca eng.Caller) eng.Op { return eng.EntityLock(ca, id) })
		c = add("EntityUnlock", true, "EntityUnlock(%q)", id)
		c.via = func(ctx context.Context, c *netauth.Client) (string, error) { return ping(c.EntityUnlock(ctx, id)) }
		c.direct = op(func(ca eng.Caller) eng.Op { return eng.EntityUnlock(ca, id) })
		c = add("EntityGroups", false, "EntityGroups(%q)", id)
		c.via = func(ctx context.Context, c *netauth.Client) (string, error) {
			l, err := c.EntityGroups(ctx, id)
			return grps(l), err
		}
		c.direct = func(w *eng.World, tok string) (string, error) {
			r, err := w.Srv.EntityGroups(eng.Ctx(tok), &rpb.EntityRequest{Entity: &types.Entity{ID: &id}})
			return grps(r.GetGroups()), err
		}
		for _, a := range pick("ADD", "DROP", "READ", "add", "Read", "UPSERT", "bogus", "") {
			for _, t := range pick("SSH", "pgp", "*") {
				for _, k := range pick("ssh-rsa AA x@y", "a:b", "") {
					a, t, k := a, t, k
					c := add("EntityKeys", up(a) != "READ", "EntityKeys(%q,%q,%q,%q)", id, a, t, k)
					c.bad = a == "bogus" || a == ""
					c.may = a == "UPSERT"
					c.via = func(ctx context.Context, c *netauth.Client) (string, error) {
						m, err := c.EntityKeys(ctx, id, a, t, k)
						return lists(upKeys(m)), err
					}
					c.direct = func(w *eng.World, tok string) (string, error) {
						r, err := w.Srv.EntityKeys(eng.Ctx(tok), &rpb.KVRequest{Target: &id, Action: rpb.Action(rpb.Action_value[up(a)]).Enum(), Key: &t, Value: &k})
						return lists(keysBy(r.GetStrings(), t)), err
					}
				}
			}
		}
		if !short {
			c := add("EntityKeys", false, "EntityKeys(%q,READ,SSH)", id)
			c.via = func(ctx context.Context, c *netauth.Client) (string, error) {
				m, err := c.EntityKeys(ctx, id, "READ", "ssh", "")
				return lists(upKeys(m)), err
			}
			c.direct = func(w *eng.World, tok string) (string, error) {
				r, err := w.Srv.EntityKeys(eng.Ctx(tok), &rpb.KVRequest{Target: &id, Action: rpb.Action_READ.Enum()})
				return lists(keysBy(r.GetStrings(), "ssh")), err
			}
		}
		for _, a := range pick("ADD", "DROP", "add", "bogus") {
			for _, cp := range pick("CREATE_ENTITY", "GLOBAL_ROOT", "create_entity", "bogus", "") {
				for _, direct := range []bool{true, false} {
					a, cp, direct := a, cp, direct
					target := id
					if !direct {
						if id != "ann" {
							continue
						}
						target = "eng"
					}
					c := add("SystemCapabilities", true, "SystemCapabilities(%q,%q,%q,%v)", target, a, cp, direct)
					c.bad = a == "bogus" || cp == "bogus" || cp == ""
					c.may = a != up(a) || cp != up(cp)
					c.via = func(ctx context.Context, c *netauth.Client) (string, error) {
						return ping(c.SystemCapabilities(ctx, target, a, cp, direct))
					}
					c.direct = op(func(ca eng.Caller) eng.Op {
						return eng.Capability(ca, direct, target, rpb.Action(rpb.Action_value[up(a)]), types.Capability(types.Capability_value[up(cp)]))
					})
				}
			}
		}
	}
	tgt := func(entity bool) []string {
		if entity {
			return E
		}
		return G
	}
	for _, entity := range []bool{true, false} {
		entity := entity
		pre := "Group"
		if entity {
			pre = "Entity"
		}
		for _, id := range tgt(entity) {
			id := id
			for _, a := range pick("UPSERT", "CLEARFUZZY", "CLEAREXACT", "READ", "upsert", "read", "ADD", "bogus") {
				for _, k := range pick("k", "k{1}", "*", "") {
					vs := pick("v", "a:b", "")
					if up(a) != "UPSERT" {
						vs = vs[:1]
					}
					for _, v := range vs {
						a, k, v := a, k, v
						c := add(pre+"UM", up(a) != "READ", "%sUM(%q,%q,%q,%q)", pre, id, a, k, v)
						c.bad, c.may = a == "bogus", a == "ADD"
						c.via = func(ctx context.Context, c *netauth.Client) (string, error) {
							f := c.GroupUM
							if entity {
								f = c.EntityUM
							}
							m, err := f(ctx, id, a, k, v)
							return lists(umGot(m)), err
						}
						c.direct = func(w *eng.World, tok string) (string, error) {
							f := w.Srv.GroupUM
							if entity {
								f = w.Srv.EntityUM
							}
							r, err := f(eng.Ctx(tok), &rpb.KVRequest{Target: &id, Action: rpb.Action(rpb.Action_value[up(a)]).Enum(), Key: &k, Value: &v})
							return umAnswers(r.GetStrings(), k), err
						}
					}
				}
			}
			for _, k := range pick("k", "q", "*", "") {
				k := k
				c := add(pre+"KVGet", false, "%sKVGet(%q,%q)", pre, id, k)
				c.via = func(ctx context.Context, c *netauth.Client) (string, error) {
					f := c.GroupKVGet
					if entity {
						f = c.EntityKVGet
					}
					m, err := f(ctx, id, k)
					return lists(m), err
				}
				c.direct = func(w *eng.World, tok string) (string, error) {
					f := w.Srv.GroupKVGet
					if entity {
						f = w.Srv.EntityKVGet
					}
					r, err := f(eng.Ctx(tok), &rpb.KV2Request{Target: &id, Data: &types.KVData{Key: &k}})
					return lists(kvWant(r.GetKVData())), err
				}
				for _, verb := range []string{"Add", "Del", "Replace"} {
					ns := []int{2, 0, 1, 13}
					if short || verb == "Del" {
						ns = ns[:1]
					}
					for _, n := range ns {
						verb, n := verb, n
						c := add(pre+"KV"+verb, true, "%sKV%s(%q,%q,%d values)", pre, verb, id, k, n)
						c.via = func(ctx context.Context, c *netauth.Client) (string, error) {
							switch pre + verb {
							case "EntityAdd":
								return ping(c.EntityKVAdd(ctx, id, k, vals(n)))
							case "EntityDel":
								return ping(c.EntityKVDel(ctx, id, k))
							case "EntityReplace":
								return ping(c.EntityKVReplace(ctx, id, k, vals(n)))
							case "GroupAdd":
								return ping(c.GroupKVAdd(ctx, id, k, vals(n)))
							case "GroupDel":
								return ping(c.GroupKVDel(ctx, id, k))
							}
							return ping(c.GroupKVReplace(ctx, id, k, vals(n)))
						}
						c.direct = op(func(ca eng.Caller) eng.Op {
							if verb == "Del" {
								return eng.KV2(ca, entity, verb, id, k)
							}
							return eng.KV2(ca, entity, verb, id, k, vals(n)...)
						})
					}
				}
			}
		}
	}
	for _, n := range G {
		n := n
		for _, m := range pick("", "eng", "none") {
			for _, d := range pick("Disp", "", "Wide") {
				num := -1
				if d == "" {
					num = 77
				}
				if d == "Wide" {
					num = 1<<32 + 5
				}
				m, d := m, d
				c := add("GroupCreate", true, "GroupCreate(%q,%q,%q,%d)", n, d, m, num)
				c.via = func(ctx context.Context, c *netauth.Client) (string, error) {
					return ping(c.GroupCreate(ctx, n, d, m, num))
				}
				c.direct = op(func(ca eng.Caller) eng.Op { return eng.GroupCreate(ca, n, d, m, int32(num)) })
				c.bad = int(int32(num)) != num
			}
		}
		g := func() *types.Group {
			return &types.Group{Name: &n, DisplayName: eng.S("other"), UntypedMeta: []string{"k:v"}, Expansions: []string{"INCLUDE:eng"}, Capabilities: []types.Capability{types.Capability_GLOBAL_ROOT}}
		}
		c := add("GroupUpdate", true, "GroupUpdate(%q)", n)
		c.via = func(ctx context.Context, c *netauth.Client) (string, error) { return ping(c.GroupUpdate(ctx, g())) }
		c.direct = op(func(ca eng.Caller) eng.Op { return eng.GroupUpdate(ca, n, "", g) })
		c = add("GroupInfo", false, "GroupInfo(%q)", n)
		c.via = func(ctx context.Context, c *netauth.Client) (string, error) {
			g, l, err := c.GroupInfo(ctx, n)
			if err != nil {
				return "", err
			}
			return render(g) + " manages " + grps(l), err
		}
		c.direct = func(w *eng.World, tok string) (string, error) {
			r, err := w.Srv.GroupInfo(eng.Ctx(tok), &rpb.GroupRequest{Group: &types.Group{Name: &n}})
			if err != nil {
				return "", err
			}
			var l []*types.Group
			for _, m := range stored(w.KV) {
				if g, ok := m.(*types.Group); ok && g.GetManagedBy() == n {
					l = append(l, g)
				}
			}
			return render(r.GetGroups()[0]) + " manages " + grps(l), nil
		}
		c = add("GroupDestroy", true, "GroupDestroy(%q)", n)
		c.via = func(ctx context.Context, c *netauth.Client) (string, error) { return ping(c.GroupDestroy(ctx, n)) }
		c.direct = op(func(ca eng.Caller) eng.Op { return eng.GroupDestroy(ca, n) })
		c = add("GroupMembers", false, "GroupMembers(%q)", n)
		c.via = func(ctx context.Context, c *netauth.Client) (string, error) {
			l, err := c.GroupMembers(ctx, n)
			return ents(l), err
		}
		c.direct = func(w *eng.World, tok string) (string, error) {
			r, err := w.Srv.GroupMembers(eng.Ctx(tok), &rpb.GroupRequest{Group: &types.Group{Name: &n}})
			return ents(r.GetEntities()), err
		}
		for _, a := range pick("INCLUDE", "EXCLUDE", "REMOVE_RULE", "DROP", "include", "drop", "bogus", "") {
			for _, t := range pick("eng-ops", "eng", "none") {
				a, t := a, t
				c := add("GroupUpdateRules", true, "GroupUpdateRules(%q,%q,%q)", n, a, t)
				c.bad = a == "bogus" || a == ""
				c.via = func(ctx context.Context, c *netauth.Client) (string, error) {
					return ping(c.GroupUpdateRules(ctx, n, a, t))
				}
				ra := up(a)
				if ra == "DROP" {
					ra = "REMOVE_RULE"
				}
				c.direct = op(func(ca eng.Caller) eng.Op { return eng.Rule(ca, n, t, rpb.RuleAction(rpb.RuleAction_value[ra])) })
			}
		}
		for _, id := range E {
			for _, in := range []bool{true, false} {
				id, in := id, in
				nm := "GroupDelMember"
				if in {
					nm = "GroupAddMember"
				}
				c := add(nm, true, "%s(%q,%q)", nm, n, id)
				c.via = func(ctx context.Context, c *netauth.Client) (string, error) {
					if in {
						return ping(c.GroupAddMember(ctx, n, id))
					}
					return ping(c.GroupDelMember(ctx, n, id))
				}
				c.direct = op(func(ca eng.Caller) eng.Op { return eng.Member(ca, in, id, n) })
			}
		}
	}
	for _, x := range pick("ID:ann", "*", "eng", "") {
		x := x
		c := add("EntitySearch", false, "EntitySearch(%q)", x)
		c.via = func(ctx context.Context, c *netauth.Client) (string, error) {
			l, err := c.EntitySearch(ctx, x)
			return ents(l), err
		}
		c.direct = func(w *eng.World, tok string) (string, error) {
			r, err := w.Srv.EntitySearch(eng.Ctx(tok), &rpb.SearchRequest{Expression: &x})
			return ents(r.GetEntities()), err
		}
		c = add("GroupSearch", false, "GroupSearch(%q)", x)
		c.via = func(ctx context.Context, c *netauth.Client) (string, error) {
			l, err := c.GroupSearch(ctx, x)
			return grps(l), err
		}
		c.direct = func(w *eng.World, tok string) (string, error) {
			r, err := w.Srv.GroupSearch(eng.Ctx(tok), &rpb.SearchRequest{Expression: &x})
			return grps(r.GetGroups()), err
		}
	}
	for _, t := range pick("good", "garbage", "") {
		t := t
		f := func(w *eng.World) string {
			if t == "good" {
				return w.Tok("ann")
			}
			return t
		}
		c := add("AuthValidateToken", false, "AuthValidateToken(%s)", t)
		c.via = func(ctx context.Context, c *netauth.Client) (string, error) {
			tok := t
			if t == "good" {
				tok, _ = eng.FakeToken{}.Generate(claimsOf("ann"), cfgNow())
			}
			return ping(c.AuthValidateToken(ctx, tok))
		}
		c.direct = func(w *eng.World, tok string) (string, error) {
			s := f(w)
			_, err := w.Srv.AuthValidateToken(eng.Ctx(tok), &rpb.AuthRequest{Token: &s})
			return "", err
		}
	}
	c := add("SystemPing", false, "SystemPing()")
	c.via = func(ctx context.Context, c *netauth.Client) (string, error) { return ping(c.SystemPing(ctx)) }
	c.direct = func(w *eng.World, tok string) (string, error) {
		_, err := w.Srv.SystemPing(eng.Ctx(tok), &rpb.Empty{})
		return "", err
	}
	c = add("SystemStatus", false, "SystemStatus()")
	c.via = func(ctx context.Context, c *netauth.Client) (string, error) {
		s, err := c.SystemStatus(ctx)
		return render(s), err
	}
	c.direct = func(w *eng.World, tok string) (string, error) {
		s, err := w.Srv.SystemStatus(eng.Ctx(tok), &rpb.Empty{})
		return render(s), err
	}
	return out
}

// clBase is the store the calls start from.
func clBase(n int) *eng.MemKV {
	w := eng.NewWorld(eng.Config{})
	do := func(o eng.Op) {
		if r := o.Do(w); !r.OK() {
			panic(fmt.Sprintf("%s: %s", o.Name, r))
		}
	}
	if n > 0 {
		do(eng.GroupCreate(eng.AsRoot, "eng", "Engineers", "", -1))
		do(eng.GroupCreate(eng.AsRoot, "eng-ops", "", "eng", -1))
		do(eng.EntityCreate(eng.AsRoot, "ann", -1, "secret"))
		do(eng.EntityCreate(eng.AsRoot, "bob", -1, "secret"))
	}
	if n > 1 {
		do(eng.Member(eng.AsRoot, true, "ann", "eng"))
		do(eng.Member(eng.AsRoot, true, "bob", "eng-ops"))
		do(eng.Rule(eng.AsRoot, "eng", "eng-ops", rpb.RuleAction_INCLUDE))
		do(eng.EntityKeys(eng.AsRoot, "ann", rpb.Action_ADD, "SSH", "ssh-rsa AA x@y"))
		do(eng.EntityKeys(eng.AsRoot, "ann", rpb.Action_ADD, "SSH", "b"))
		do(eng.EntityKeys(eng.AsRoot, "ann", rpb.Action_ADD, "PGP", "a:b"))
		for _, e := range []bool{true, false} {
			id := "eng"
			um := eng.GroupUM
			if e {
				id = "ann"
				um = eng.EntityUM
			}
			for _, k := range []string{"k{10}", "k{2}", "k{1}", "q", "qq{0}"} {
				do(um(eng.AsRoot, id, rpb.Action_UPSERT, k, "val:of "+k))
			}
			do(eng.KV2(eng.AsRoot, e, "Add", id, "k", vals(13)...))
			do(eng.KV2(eng.AsRoot, e, "Add", id, "q", "a"))
		}
		do(eng.Capability(eng.AsRoot, true, "ann", rpb.Action_ADD, types.Capability_CREATE_ENTITY))
		do(eng.EntityLock(eng.AsRoot, "bob"))
	}
	return w.KV
}

type clEnv struct {
	rep  *report
	srv  []*clServer
	port int
}

func (e *clEnv) client(server, master string) (*netauth.Client, error) {
	viper.Set("core.server", server)
	viper.Set("core.master", master)
	viper.Set("core.port", e.port)
	viper.Set("core.conf", "/nonexistent")
	viper.Set("client.ID", "this-client")
	c, err := netauth.NewWithLog(hclog.NewNullLogger())
	if err == nil {
		c.SetServiceName("this-service")
	}
	return c, err
}

// tokens are the ways a call can be authorized.
func clTokens() []string {
	root, _ := eng.FakeToken{}.Generate(claimsOf("root-operator", types.Capability_GLOBAL_ROOT), cfgNow())
	self, _ := eng.FakeToken{}.Generate(claimsOf("ann"), cfgNow())
	return []string{root, self, "", "garbage"}
}

func clWith(tok string) context.Context {
	ctx, _ := context.WithTimeout(context.Background(), 20*time.Second)
	if tok != "" {
		ctx = netauth.Authorize(ctx, tok)
	}
	return ctx
}

// metaErr judges what accompanied a request.
func metaErr(s clSeen, tok string) string {
	if g := s.md.Get("authorization"); strings.Join(g, "|") != tok {
		return fmt.Sprintf("%s arrives with authorization %q, not %q", s.method, g, tok)
	}
	if g := s.md.Get("client-name"); len(g) == 0 || g[0] != "this-client" {
		return fmt.Sprintf("%s arrives with client name %q", s.method, g)
	}
	if g := s.md.Get("service-name"); len(g) == 0 || g[0] != "this-service" {
		return fmt.Sprintf("%s arrives with service name %q", s.method, g)
	}
	return ""
}

// clStep makes one call through the library and directly, and compares.
func (e *clEnv) step(c *netauth.Client, s *clServer, call *clCall, tok string, w1, w2 *eng.World, trace []string) bool {
	s.NetAuth2Server = w1.Srv
	s.take()
	trace = append(append([]string{}, trace...), call.name)
	before := text(stored(w1.KV))
	var got clRes
	_, err := eng.Guarded(func() eng.Res {
		got = clResult(call.via(clWith(tok), c))
		return eng.Res{}
	})
	e.rep.Trans++
	fail := func(f string, a ...interface{}) bool {
		e.rep.fail(trace, "%s: %s", call.name, fmt.Sprintf(f, a...))
		return false
	}
	if err != nil {
		return fail("%v", err)
	}
	seen := s.take()
	after := text(stored(w1.KV))
	if call.bad || call.may && got.fails {
		if !got.fails && got.code == codes.OK {
			return fail("it is accepted")
		}
		if after != before {
			return fail("it is refused, yet something changed: %s", eng.Diff(before, after))
		}
		return true
	}
	if call.write {
		n := 0
		for _, x := range seen {
			if x.method == call.rpc {
				n++
			}
		}
		if n > 1 {
			return fail("it is sent %d times", n)
		}
	}
	for _, x := range seen {
		if m := metaErr(x, tok); m != "" {
			return fail("%s", m)
		}
	}
	want := clResult(call.direct(w2, tok))
	if got.code != want.code || got.msg != want.msg {
		return fail("it ends with %s %q, and with %s %q when done directly", got.code, got.msg, want.code, want.msg)
	}
	if want.code == codes.OK && !oneOf(got.value, strings.Split(want.value, "\x00")) {
		return fail("it returns %s, not %s", got.value, strings.Replace(want.value, "\x00", " or ", -1))
	}
	if direct := text(stored(w2.KV)); after != direct {
		return fail("it has another effect than when done directly: %s", eng.Diff(direct, after))
	}
	return true
}

func clWorlds(kv *eng.MemKV) (*eng.World, *eng.World) {
	return eng.NewWorld(eng.Config{KV: kv.Clone()}), eng.NewWorld(eng.Config{KV: kv.Clone()})
}

// fidelity compares all calls in a base state, and all calls after each one
// that changes it.
func (e *clEnv) fidelity(base int, part, parts, depth int, deadline time.Time) {
	c, err := e.client("127.0.0.1", "")
	if err != nil {
		e.rep.fail(nil, "a client cannot be made: %v", err)
		return
	}
	calls := clCalls(false)
	type node struct {
		kv    *eng.MemKV
		trace []string
	}
	root := clBase(base)
	level := []node{{root, nil}}
	seen := map[string]bool{text(stored(root)): true}
	for d := 0; d < depth; d++ {
		var next []node
		for _, n := range level {
			w1, w2 := clWorlds(n.kv)
			before := text(stored(w1.KV))
			for i, call := range calls {
				if d == depth-1 && depth > 1 && i%parts != part {
					continue
				}
				for ti, tok := range clTokens() {
					if ti > 0 && (d > 0 || !call.write && ti > 1) {
						continue
					}
					if time.Now().After(deadline) {
						return
					}
					ok := e.step(c, e.srv[0], call, tok, w1, w2, n.trace)
					now := text(stored(w1.KV))
					if ok && now != before && d < depth-1 && !seen[now] {
						seen[now] = true
						next = append(next, node{w1.KV.Clone(), append(append([]string{}, n.trace...), call.name)})
					}
					if now != before || !ok {
						w1, w2 = clWorlds(n.kv)
					}
				}
			}
			e.rep.States++
		}
		level = next
	}
	e.rep.Complete = true
}

// route makes every pair of calls that begins with one of the given ones.
func (e *clEnv) route(first int, calls []*clCall, deadline time.Time) {
	kv := clBase(1)
	tok := clTokens()[0]
	for _, second := range calls {
		for _, master := range []string{"127.0.0.2", "127.0.0.1", ""} {
			if time.Now().After(deadline) {
				return
			}
			pair := []*clCall{calls[first], second}
			w1 := eng.NewWorld(eng.Config{KV: kv.Clone()})
			w2 := eng.NewWorld(eng.Config{KV: kv.Clone(), ReadOnly: master == "127.0.0.2"})
			e.srv[0].NetAuth2Server, e.srv[1].NetAuth2Server = w2.Srv, w1.Srv
			if master != "127.0.0.2" {
				e.srv[1].NetAuth2Server = eng.NewWorld(eng.Config{KV: kv.Clone(), ReadOnly: true}).Srv
			}
			c, err := e.client("127.0.0.1", master)
			if err != nil {
				e.rep.fail(nil, "a client cannot be made: %v", err)
				return
			}
			wrote := false
			trace := []string{"server 127.0.0.1, master " + master}
			for _, call := range pair {
				trace = append(trace, call.name)
				e.srv[0].take()
				e.srv[1].take()
				got := clResult(call.via(clWith(tok), c))
				e.rep.Trans++
				if got.fails || got.code == codes.Unavailable || got.code == codes.DeadlineExceeded || got.code == codes.Canceled {
					e.rep.fail(trace, "%s: the call does not get through: %s %s", call.name, got.code, got.msg)
					return
				}
				a, b := e.srv[0].take(), e.srv[1].take()
				for _, x := range append(append([]clSeen{}, a...), b...) {
					if m := metaErr(x, tok); m != "" {
						e.rep.fail(trace, "%s: %s", call.name, m)
					}
				}
				switch {
				case len(a)+len(b) == 0:
					e.rep.fail(trace, "%s: nothing arrives anywhere", call.name)
				case master == "127.0.0.2" && call.write && len(a) > 0:
					e.rep.fail(trace, "%s: sent to the replica, not to the master", call.name)
				case master == "127.0.0.2" && !call.write && !wrote && len(b) > 0:
					e.rep.fail(trace, "%s: sent to the master although nothing was written", call.name)
				case master != "127.0.0.2" && len(b) > 0:
					e.rep.fail(trace, "%s: sent to an address that is not configured", call.name)
				}
				wrote = wrote || call.write
			}
			e.rep.States++
		}
	}
	e.rep.Complete = true
}

// metadata sets up to three untyped entries in every order and reads them.
func (e *clEnv) um(entity bool, deadline time.Time) {
	c, err := e.client("127.0.0.1", "")
	if err != nil {
		e.rep.fail(nil, "a client cannot be made: %v", err)
		return
	}
	kind, id := "Group", "eng"
	if entity {
		kind, id = "Entity", "ann"
	}
	mk := func(a, k, v string) *clCall {
		x := &clCall{name: fmt.Sprintf("%sUM(%q,%q,%q,%q)", kind, id, a, k, v), rpc: kind + "UM", write: a != "READ"}
		x.via = func(ctx context.Context, c *netauth.Client) (string, error) {
			f := c.GroupUM
			if entity {
				f = c.EntityUM
			}
			m, err := f(ctx, id, a, k, v)
			return lists(umGot(m)), err
		}
		x.direct = func(w *eng.World, tok string) (string, error) {
			f := w.Srv.GroupUM
			if entity {
				f = w.Srv.EntityUM
			}
			r, err := f(eng.Ctx(tok), &rpb.KVRequest{Target: &id, Action: rpb.Action(rpb.Action_value[a]).Enum(), Key: &k, Value: &v})
			return umAnswers(r.GetStrings(), k), err
		}
		return x
	}
	keys := []string{"k", "k{0}", "k{2}", "k{10}", "kk", "k{1}x", "{3}", "{3}k"}
	tok := clTokens()[0]
	root := clBase(1)
	for mask := 0; mask < 1<<uint(len(keys)); mask++ {
		for _, v := range []string{"v", "a:b", ""} {
			if time.Now().After(deadline) {
				return
			}
			w1, w2 := clWorlds(root)
			trace := []string{}
			for i := range keys {
				if mask>>uint(i)&1 == 0 {
					continue
				}
				x := mk("UPSERT", keys[i], v+keys[i])
				if !e.step(c, e.srv[0], x, tok, w1, w2, trace) {
					break
				}
				trace = append(trace, x.name)
			}
			for _, k := range append([]string{"*", "missing"}, keys...) {
				e.step(c, e.srv[0], mk("READ", k, ""), "", w1, w2, trace)
			}
			e.rep.States++
		}
	}
	e.rep.Complete = true
}

// kvOrder reads values stored under indexes in every order.
func (e *clEnv) kvOrder(entity bool) {
	c, err := e.client("127.0.0.1", "")
	if err != nil {
		e.rep.fail(nil, "a client cannot be made: %v", err)
		return
	}
	id := "eng"
	if entity {
		id = "ann"
	}
	root := clBase(1)
	try := func(idx []int32) {
		w := eng.NewWorld(eng.Config{KV: root.Clone()})
		d := &types.KVData{Key: eng.S("k")}
		for _, i := range idx {
			d.Values = append(d.Values, &types.KVValue{Value: eng.S(fmt.Sprint("at ", i)), Index: proto.Int32(i)})
		}
		f, g := w.Srv.GroupKVAdd, c.GroupKVGet
		if entity {
			f, g = w.Srv.EntityKVAdd, c.EntityKVGet
		}
		if _, err := f(w.Root(), &rpb.KV2Request{Target: &id, Data: d}); err != nil {
			e.rep.fail(nil, "values %v cannot be stored: %v", idx, err)
			return
		}
		e.srv[0].NetAuth2Server = w.Srv
		m, err := g(clWith(""), id, "k")
		e.rep.Trans++
		e.rep.States++
		want := append([]int32{}, idx...)
		sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
		l := []string{}
		for _, i := range want {
			l = append(l, fmt.Sprint("at ", i))
		}
		if err != nil || lists(m) != lists(map[string][]string{"k": l}) {
			e.rep.fail([]string{fmt.Sprintf("%s stores values at %v", id, idx)}, "values stored at %v are returned as %v (%v)", idx, m, err)
		}
	}
	var perm func(done, rest []int32)
	perm = func(done, rest []int32) {
		if len(rest) == 0 {
			try(done)
			return
		}
		for i := range rest {
			r := append(append([]int32{}, rest[:i]...), rest[i+1:]...)
			perm(append(append([]int32{}, done...), rest[i]), r)
		}
	}
	for _, set := range [][]int32{{0, 1}, {0, 1, 2}, {1, 2, 10}, {-1, 0, 2147483647}, {0, 9, 10, 11}, {0, 1, 2, 3, 4}} {
		perm(nil, set)
	}
	for n := int32(1); n <= 30; n++ {
		var up, down []int32
		for i := int32(0); i < n; i++ {
			up, down = append(up, i), append([]int32{i}, down...)
		}
		try(up)
		try(down)
	}
	e.rep.Complete = true
}

// manage has groups managed by each of a choice of groups.
func (e *clEnv) manage(deadline time.Time) {
	c, err := e.client("127.0.0.1", "")
	if err != nil {
		e.rep.fail(nil, "a client cannot be made: %v", err)
		return
	}
	names := []string{"eng", "Eng", "eng-ops", "ops", "the", "net admins", "x:y", "a*", "q\"x", "back\\slash", "-not", "ManagedBy", "eng.x", "12"}
	for i, a := range names {
		for j, b := range names {
			if time.Now().After(deadline) {
				return
			}
			w := eng.NewWorld(eng.Config{})
			ok := true
			do := func(o eng.Op) { ok = ok && o.Do(w).OK() }
			trace := []string{}
			for _, n := range []string{a, b} {
				if n == b && i == j && len(trace) > 0 {
					break
				}
				do(eng.GroupCreate(eng.AsRoot, n, "", "", -1))
				trace = append(trace, "group "+n)
			}
			do(eng.GroupCreate(eng.AsRoot, "m1", "shows "+b, a, -1))
			do(eng.GroupCreate(eng.AsRoot, "m2", a, b, -1))
			trace = append(trace, "m1 managed by "+a, "m2 managed by "+b)
			if !ok {
				continue
			}
			e.srv[0].NetAuth2Server = w.Srv
			for _, n := range []string{a, b, "m1"} {
				g, l, err := c.GroupInfo(clWith(""), n)
				e.rep.Trans++
				want := []string{}
				if a == n {
					want = append(want, "m1")
				}
				if b == n {
					want = append(want, "m2")
				}
				got := []string{}
				for _, x := range l {
					got = append(got, x.GetName())
				}
				sort.Strings(got)
				switch {
				case err != nil || g.GetName() != n:
					e.rep.fail(trace, "GroupInfo(%q) returns %q, %v", n, g.GetName(), err)
				case strings.Join(got, " ") != strings.Join(want, " "):
					e.rep.fail(trace, "GroupInfo(%q) tells that it manages %q; it manages %q", n, got, want)
				}
			}
			e.rep.States++
		}
	}
	e.rep.Complete = true
}

// cert makes a self-signed certificate for the loopback addresses.
func cert(dir, name string) (tls.Certificate, string) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour),
		IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1), net.IPv4(127, 0, 0, 2)}, BasicConstraintsValid: true, IsCA: true, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
	if err != nil {
		panic(err)
	}
	f := filepath.Join(dir, name+".pem")
	if err := os.WriteFile(f, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0644); err != nil {
		panic(err)
	}
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k}, f
}

// tlsCases tries every way the two servers and the client can be set up.
func (e *clEnv) tlsCases(dir string, calls []*clCall) {
	good, goodFile := cert(dir, "good")
	other, otherFile := cert(dir, "other")
	kinds := []string{"plain", "good", "other"}
	opts := map[string][]grpc.ServerOption{
		"plain": nil,
		"good":  {grpc.Creds(credentials.NewServerTLSFromCert(&good))},
		"other": {grpc.Creds(credentials.NewServerTLSFromCert(&other))},
	}
	os.WriteFile(filepath.Join(dir, "junk.pem"), []byte("junk"), 0644)
	// The system trusts the impostor.
	os.Setenv("SSL_CERT_FILE", otherFile)
	os.Setenv("SSL_CERT_DIR", dir)
	tok := clTokens()[0]
	for _, k1 := range kinds {
		for _, k2 := range kinds {
			srv, port := clListen(2, func(i int) []grpc.ServerOption { return opts[[]string{k1, k2}[i]] })
			for _, cf := range []struct {
				cert string
				pwn  bool
				home string
			}{{goodFile, false, ""}, {"good.pem", false, dir}, {filepath.Join(dir, "none.pem"), false, ""}, {filepath.Join(dir, "junk.pem"), false, ""}, {"", true, ""}, {"good.pem", false, "/nonexistent"}} {
				viper.Set("tls.certificate", cf.cert)
				viper.Set("tls.pwn_me", cf.pwn)
				usable := cf.cert == goodFile || cf.home == dir
				setup := fmt.Sprintf("server %s, master %s, certificate %q, pwn_me %v", k1, k2, filepath.Base(cf.cert), cf.pwn)
				for _, call := range calls {
					w := eng.NewWorld(eng.Config{KV: clBase(1)})
					srv[0].NetAuth2Server, srv[1].NetAuth2Server = w.Srv, w.Srv
					e.port = port
					viper.Set("core.server", "127.0.0.1")
					viper.Set("core.master", "127.0.0.2")
					viper.Set("core.port", port)
					viper.Set("core.conf", cf.home)
					if cf.home == "" {
						viper.Set("core.conf", "/nonexistent")
					}
					c, err := netauth.NewWithLog(hclog.NewNullLogger())
					e.rep.Trans++
					if err != nil {
						if cf.pwn || usable {
							e.rep.fail([]string{setup}, "a client cannot be made: %v", err)
						}
						break
					}
					if !cf.pwn && !usable {
						e.rep.fail([]string{setup}, "a client is made without a usable certificate (%s)", setup)
					}
					ctx, cancel := context.WithTimeout(netauth.Authorize(context.Background(), tok), 10*time.Second)
					got := clResult(call.via(ctx, c))
					cancel()
					to, kind := srv[0], k1
					if call.write {
						to, kind = srv[1], k2
					}
					a, b := srv[0].take(), srv[1].take()
					through := len(a)+len(b) > 0
					trusted := kind == "good" && !cf.pwn && usable || kind == "plain" && cf.pwn
					trace := []string{setup, call.name}
					switch {
					case through && !trusted:
						e.rep.fail(trace, "%s arrives at a server that should not be trusted (%s)", call.name, setup)
					case !through && trusted:
						e.rep.fail(trace, "%s does not arrive (%s): %s", call.name, setup, got.msg)
					case !trusted && got.code == codes.OK:
						e.rep.fail(trace, "%s succeeds without arriving anywhere (%s)", call.name, setup)
					}
					_ = to
					e.rep.States++
				}
			}
			for _, s := range srv {
				s.g.Stop()
			}
		}
	}
	e.rep.Complete = true
}

// keyCases gives the client every kind of key to judge tokens with.
func (e *clEnv) keyCases(dir string) {
	svc := map[string]token.Service{}
	pub := map[string][]byte{}
	viper.Set("token.jwt.bits", 1024)
	for _, k := range []string{"right", "other"} {
		viper.Set("core.conf", filepath.Join(dir, k))
		viper.Set("token.jwt.generate", true)
		t, err := token.New("jwt-rsa")
		if err != nil {
			panic(err)
		}
		svc[k] = t
		if pub[k], err = os.ReadFile(filepath.Join(dir, k, "keys", "token.pem")); err != nil {
			panic(err)
		}
	}
	viper.Set("token.jwt.generate", false)
	cl := claimsOf("ann", types.Capability_LOCK_ENTITY)
	gen := func(k string, c token.Claims, at time.Time) string {
		s, err := svc[k].Generate(c, token.Config{Lifetime: time.Hour, IssuedAt: at, NotBefore: at})
		if err != nil {
			panic(err)
		}
		return s
	}
	now := time.Now()
	valid := gen("right", cl, now)
	p := strings.Split(valid, ".")
	boss := strings.Split(gen("other", claimsOf("root", types.Capability_GLOBAL_ROOT), now), ".")
	toks := map[string]string{
		"valid": valid, "other": gen("other", cl, now), "expired": gen("right", cl, now.Add(-2*time.Hour)), "early": gen("right", cl, now.Add(time.Hour)),
		"none": "", "junk": "junk", "cut": valid[:len(valid)/2], "unsigned": p[0] + "." + p[1] + ".", "spliced": p[0] + "." + boss[1] + "." + p[2],
	}
	for _, k := range []string{"right", "other", "nothing", "no directory", "junk", "no key inside", "empty", "private mode", "a directory", "no backend"} {
		conf := filepath.Join(dir, "client "+k)
		f := filepath.Join(conf, "keys", "token.pem")
		os.MkdirAll(filepath.Dir(f), 0755)
		viper.Set("token.backend", "jwt-rsa")
		b, mode := pub["right"], os.FileMode(0644)
		switch k {
		case "other":
			b = pub["other"]
		case "nothing":
			b = nil
		case "no directory":
			os.RemoveAll(conf)
			b = nil
		case "junk":
			b = []byte("junk")
		case "no key inside":
			b = pem.EncodeToMemory(&pem.Block{Type: "RSA PUBLIC KEY", Bytes: []byte("junk")})
		case "empty":
			b = []byte{}
		case "private mode":
			mode = 0600
		case "a directory":
			os.Mkdir(f, 0755)
			b = nil
		case "no backend":
			viper.Set("token.backend", "none-such")
		}
		if b != nil {
			os.WriteFile(f, b, mode)
			os.Chmod(f, mode)
		}
		w := eng.NewWorld(eng.Config{KV: clBase(1)})
		e.srv[0].NetAuth2Server = w.Srv
		viper.Set("core.server", "127.0.0.1")
		viper.Set("core.master", "")
		viper.Set("core.port", e.port)
		viper.Set("core.conf", conf)
		c, err := netauth.NewWithLog(hclog.NewNullLogger())
		e.rep.States++
		if err != nil {
			e.rep.fail([]string{"key: " + k}, "key %s: a client cannot be made: %v", k, err)
			continue
		}
		for name, tok := range toks {
			e.rep.Trans++
			var got token.Claims
			err, died := fmt.Errorf("it panics"), true
			func() {
				defer func() { recover() }()
				got, err = c.Validate(tok)
				died = false
			}()
			want := k == "right" && name == "valid" || k == "other" && name == "other"
			if died || (err == nil) != want || want && fmt.Sprint(got) != fmt.Sprint(cl) || !want && fmt.Sprint(got) != fmt.Sprint(token.Claims{}) {
				e.rep.fail([]string{"key: " + k, "token: " + name}, "with the key %s, a token that is %s is taken for %v (%v)", k, name, got, err)
			}
		}
		if _, err := c.SystemStatus(clWith("")); err != nil {
			e.rep.fail([]string{"key: " + k}, "with the key %s, a request fails: %v", k, err)
		}
	}
	e.rep.Complete = true
}

// clChild runs one scenario.
func clChild(args []string) {
	scen, tier, dir := args[0], args[1], args[2]
	secs, _ := strconv.Atoi(args[3])
	deadline := time.Now().Add(time.Duration(secs) * time.Second)
	rep := &report{}
	eng.Setup()
	viper.Set("tls.pwn_me", true)
	viper.Set("token.cache", "memory")
	e := &clEnv{rep: rep}
	f := strings.Fields(scen)
	num := func(i int) int { n, _ := strconv.Atoi(f[i]); return n }
	if f[0] != "tls" {
		n := 1
		if f[0] == "route" {
			n = 2
		}
		e.srv, e.port = clListen(n, nil)
	}
	depth := 1
	_ = tier
	switch f[0] {
	case "fidelity":
		e.fidelity(num(1), 0, 1, depth, deadline)
	case "deep":
		e.fidelity(num(1), num(2), num(3), 2, deadline)
	case "route":
		e.route(num(1), clRoutes(), deadline)
	case "um":
		e.um(f[1] == "entity", deadline)
	case "kv":
		e.kvOrder(f[1] == "entity")
	case "manage":
		e.manage(deadline)
	case "keys":
		e.keyCases(dir)
	case "tls":
		var l []*clCall
		for _, c := range clRoutes() {
			if c.rpc == "AuthEntity" || c.rpc == "AuthChangeSecret" || c.rpc == "EntityLock" || c.rpc == "SystemPing" {
				l = append(l, c)
			}
		}
		e.tlsCases(dir, l)
	}
	rep.print()
	os.Exit(0)
}

// clRoutes is one call of each method, or two where it can read and write.
func clRoutes() []*clCall {
	var out []*clCall
	have := map[string]bool{}
	for _, c := range clCalls(false) {
		k := fmt.Sprint(c.rpc, c.write)
		if c.bad || c.may || have[k] {
			continue
		}
		have[k] = true
		out = append(out, c)
	}
	return out
}

func clScenarios(r *eng.Run) []string {
	names := []string{"tls"}
	for i := range clRoutes() {
		names = append(names, fmt.Sprint("route ", i))
	}
	parts := r.Pick(4, 8)
	if r.Thorough() {
		for b := 0; b < 3; b++ {
			for i := 0; i < parts; i++ {
				names = append(names, fmt.Sprintf("deep %d %d %d", b, i, parts))
			}
		}
	}
	return append(names, "fidelity 0", "fidelity 1", "fidelity 2", "um entity", "um group", "kv entity", "kv group", "manage", "keys")
}

func c30() *eng.Check {
	return &eng.Check{ID: "C30", Level: "model_checking",
		Run: func(r *eng.Run) {
			r.Exhaustive = true
			scenarios(r, "client", clScenarios(r), 8)
		},
		ReplayOne: func(r *eng.Run, v *eng.Violation) error { return again(r, "client", v) },
	}
}
