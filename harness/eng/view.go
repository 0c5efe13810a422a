package eng

import (
	"fmt"
	"sort"
	"strings"

	"github.com/golang/protobuf/proto"

	types "github.com/netauth/protocol"
	rpb "github.com/netauth/protocol/v2"
)

// Reply is one answer a client can get.
type Reply struct {
	Call string
	Text string
}

func Render(m proto.Message, err error) string {
	t := proto.MarshalTextString(m)
	l := strings.Split(t, "\n")
	if err != nil {
		l = append(l, "error: "+err.Error())
	}
	// The order of keys, groups and the like is not defined.
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// ReadEverything performs every reading call with many arguments.
func ReadEverything(w *World, ents, grps, searches []string) []Reply {
	var out []Reply
	c := Ctx("")
	add := func(call string, m proto.Message, err error) { out = append(out, Reply{call, Render(m, err)}) }
	for _, id := range ents {
		r1, err := w.Srv.EntityInfo(c, &rpb.EntityRequest{Entity: &types.Entity{ID: S(id)}})
		add("EntityInfo "+id, r1, err)
		r2, err := w.Srv.EntityGroups(c, &rpb.EntityRequest{Entity: &types.Entity{ID: S(id)}})
		sort.Slice(r2.Groups, func(i, j int) bool { return r2.Groups[i].GetName() < r2.Groups[j].GetName() })
		add("EntityGroups "+id, r2, err)
		r3, err := w.Srv.EntityUM(c, &rpb.KVRequest{Target: S(id), Action: rpb.Action_READ.Enum(), Key: S("*")})
		add("EntityUM "+id, r3, err)
		r4, err := w.Srv.EntityKeys(c, &rpb.KVRequest{Target: S(id), Action: rpb.Action_READ.Enum()})
		add("EntityKeys "+id, r4, err)
		r5, err := w.Srv.EntityKVGet(c, &rpb.KV2Request{Target: S(id), Data: &types.KVData{Key: S("*")}})
		add("EntityKVGet "+id, r5, err)
		r6, err := w.Srv.AuthEntity(c, &rpb.AuthRequest{Entity: &types.Entity{ID: S(id)}, Secret: S("wrong")})
		add("AuthEntity "+id, r6, err)
		r7, err := w.Srv.AuthGetToken(c, &rpb.AuthRequest{Entity: &types.Entity{ID: S(id)}, Secret: S("wrong")})
		add("AuthGetToken "+id, r7, err)
	}
	for _, n := range grps {
		r1, err := w.Srv.GroupInfo(c, &rpb.GroupRequest{Group: &types.Group{Name: S(n)}})
		add("GroupInfo "+n, r1, err)
		r2, err := w.Srv.GroupMembers(c, &rpb.GroupRequest{Group: &types.Group{Name: S(n)}})
		sort.Slice(r2.Entities, func(i, j int) bool { return r2.Entities[i].GetID() < r2.Entities[j].GetID() })
		add("GroupMembers "+n, r2, err)
		r3, err := w.Srv.GroupUM(c, &rpb.KVRequest{Target: S(n), Action: rpb.Action_READ.Enum(), Key: S("*")})
		add("GroupUM "+n, r3, err)
		r4, err := w.Srv.GroupKVGet(c, &rpb.KV2Request{Target: S(n), Data: &types.KVData{Key: S("*")}})
		add("GroupKVGet "+n, r4, err)
	}
	for _, s := range searches {
		r1, err := w.Srv.EntitySearch(c, &rpb.SearchRequest{Expression: S(s)})
		sort.Slice(r1.Entities, func(i, j int) bool { return r1.Entities[i].GetID() < r1.Entities[j].GetID() })
		add("EntitySearch "+s, r1, err)
		r2, err := w.Srv.GroupSearch(c, &rpb.SearchRequest{Expression: S(s)})
		sort.Slice(r2.Groups, func(i, j int) bool { return r2.Groups[i].GetName() < r2.Groups[j].GetName() })
		add("GroupSearch "+s, r2, err)
	}
	st, err := w.Srv.SystemStatus(c, &rpb.Empty{})
	_ = err
	add("SystemStatus", &rpb.Empty{}, err)
	_ = st
	return out
}

// TokenClaims renders the capabilities of a fresh token.
func TokenClaims(w *World, id, secret string) string {
	r := GetToken(id, secret).Do(w)
	if !r.OK() {
		return r.Code.String()
	}
	c, err := w.Token.Validate(r.Data)
	if err != nil {
		return err.Error()
	}
	l := []string{}
	for _, x := range c.Capabilities {
		l = append(l, x.String())
	}
	sort.Strings(l)
	return fmt.Sprintf("%s %v", c.EntityID, l)
}

// SameView compares everything two servers answer.
func SameView(a, b *World, u Universe, searches []string) error {
	x, y := a.Observe(u).String(), b.Observe(u).String()
	if x != y {
		return fmt.Errorf("reads as %s", Diff(x, y))
	}
	for _, id := range u.Entities {
		for _, s := range []string{"a", "b", "s"} {
			if p, q := TokenClaims(a, id, s), TokenClaims(b, id, s); p != q {
				return fmt.Errorf("a token for %q carries %s rather than %s", id, q, p)
			}
		}
	}
	p, q := ReadEverything(a, u.Entities, u.Groups, searches), ReadEverything(b, u.Entities, u.Groups, searches)
	for i := range p {
		if p[i] != q[i] {
			return fmt.Errorf("%s answers %s", p[i].Call, Diff(p[i].Text, q[i].Text))
		}
	}
	return nil
}
