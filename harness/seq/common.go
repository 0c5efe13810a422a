package main

import (
	"fmt"
	"sort"
	"strings"

	"google.golang.org/grpc/codes"

	"github.com/netauth/netauth/internal/zverif/eng"

	types "github.com/netauth/protocol"
)

// setup runs operations on a fresh world.  A step that is refused is noted
// in the evidence; the exploration then starts from what there is.
func setup(cfg eng.Config, ops ...eng.Op) *eng.World {
	w := eng.NewWorld(cfg)
	for _, o := range ops {
		if r, err := eng.Guarded(func() eng.Res { return o.Do(w) }); err != nil || !r.OK() {
			eng.SetupTrouble(fmt.Sprintf("%s: %s %s %v", o.Name, r, r.Msg, err))
		}
	}
	return w
}

func initOps(ops ...eng.Op) func() (*eng.World, eng.Ghost) {
	return func() (*eng.World, eng.Ghost) { return setup(eng.Config{}, ops...), eng.NoGhost{} }
}

var allCaps = []types.Capability{
	types.Capability_GLOBAL_ROOT,
	types.Capability_CREATE_ENTITY, types.Capability_DESTROY_ENTITY, types.Capability_MODIFY_ENTITY_META,
	types.Capability_MODIFY_ENTITY_KEYS, types.Capability_CHANGE_ENTITY_SECRET, types.Capability_LOCK_ENTITY,
	types.Capability_UNLOCK_ENTITY, types.Capability_CREATE_GROUP, types.Capability_DESTROY_GROUP,
	types.Capability_MODIFY_GROUP_META, types.Capability_MODIFY_GROUP_MEMBERS,
}

// without lists every capability except the given ones and GLOBAL_ROOT.
func without(c ...types.Capability) []types.Capability {
	var out []types.Capability
next:
	for _, x := range allCaps {
		if x == types.Capability_GLOBAL_ROOT {
			continue
		}
		for _, y := range c {
			if x == y {
				continue next
			}
		}
		out = append(out, x)
	}
	return out
}

// acct is what a property remembers about one entity.
type acct struct {
	secret string
	locked bool
}

// accounts is the reference account book.
type accounts map[string]acct

func (a accounts) Key() string {
	ks := []string{}
	for k, v := range a {
		ks = append(ks, fmt.Sprintf("%q:%q:%v", k, v.secret, v.locked))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

func (a accounts) with(id string, f func(x *acct)) accounts {
	n := accounts{}
	for k, v := range a {
		n[k] = v
	}
	x := n[id]
	f(&x)
	n[id] = x
	return n
}

func (a accounts) drop(id string) accounts {
	n := accounts{}
	for k, v := range a {
		if k != id {
			n[k] = v
		}
	}
	return n
}

// authOK is the whole meaning of authentication.
func (a accounts) authOK(id, secret string) bool {
	x, ok := a[id]
	return ok && !x.locked && secret != "" && x.secret == secret
}

// acctEffect is how a successful operation changes the account book.
type acctEffect func(a accounts) accounts

func accountStep(s *eng.Step) eng.Ghost {
	if f, ok := s.Op.Tag.(acctEffect); ok && s.Res.OK() {
		return f(s.Ghost.(accounts))
	}
	return s.Ghost
}

func created(id, secret string) acctEffect {
	return func(a accounts) accounts { return a.with(id, func(x *acct) { *x = acct{secret: secret} }) }
}
func destroyed(id string) acctEffect { return func(a accounts) accounts { return a.drop(id) } }
func locked(id string, v bool) acctEffect {
	return func(a accounts) accounts {
		if _, ok := a[id]; !ok {
			return a
		}
		return a.with(id, func(x *acct) { x.locked = v })
	}
}
func secretSet(id, s string) acctEffect {
	return func(a accounts) accounts {
		if _, ok := a[id]; !ok {
			return a
		}
		return a.with(id, func(x *acct) { x.secret = s })
	}
}

func refused(r eng.Res) bool { return r.Code != codes.OK }

func unchanged(s *eng.Step) error {
	if s.PreRaw != s.PostRaw {
		return fmt.Errorf("%s was refused (%s) but changed stored data: %s", s.Op.Name, s.Res.Code, eng.Diff(s.PreRaw, s.PostRaw))
	}
	return nil
}
