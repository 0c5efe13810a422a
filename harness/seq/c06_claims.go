package main

import (
	"fmt"
	"reflect"

	"github.com/netauth/netauth/internal/zverif/eng"

	types "github.com/netauth/protocol"
	rpb "github.com/netauth/protocol/v2"
)

// claimsState asks for a token for every entity and compares its claims
// with what direct capabilities and effective memberships grant.
func claimsState(w *eng.World, o *eng.Obs) error {
	for id, e := range o.Ents {
		r := eng.GetToken(id, "s").Do(w)
		for _, s := range []string{"z", "new " + id} {
			if !r.OK() {
				r = eng.GetToken(id, s).Do(w)
			}
		}
		if e.Locked {
			if r.OK() {
				return fmt.Errorf("a token was issued to the locked entity %q", id)
			}
			continue
		}
		if !r.OK() {
			return fmt.Errorf("no token was issued to %q: %s", id, r.Code)
		}
		c, err := w.Token.Validate(r.Data)
		if err != nil {
			return err
		}
		if c.EntityID != id {
			return fmt.Errorf("the token of %q names %q", id, c.EntityID)
		}
		want := set{}
		for _, x := range e.Caps {
			want[x] = true
		}
		for g := range o.Grps {
			if refMember(o, id, g, 0) {
				for _, x := range o.Grps[g].Caps {
					want[x] = true
				}
			}
		}
		got := set{}
		for _, x := range c.Capabilities {
			got[x.String()] = true
		}
		if !reflect.DeepEqual(want.list(), got.list()) {
			return fmt.Errorf("the token of %q carries %q; direct and group capabilities say %q\n%s", id, got.list(), want.list(), o)
		}
		// What the token lets its holder do follows from its claims alone.
		for _, x := range allCaps {
			if c.HasCapability(x) != (want[x.String()] || want["GLOBAL_ROOT"]) {
				return fmt.Errorf("the token of %q (%q) answers %v for %s", id, got.list(), c.HasCapability(x), x)
			}
		}
	}
	return nil
}

func init() {
	register(&eng.Check{ID: "C06", Level: "model_checking", Specs: func(r *eng.Run) []eng.Spec {
		u := eng.Universe{Entities: []string{"e1", "e2"}, Groups: []string{"g1", "g2", "g3"}}
		var ops []eng.Op
		CE, LE, GR := types.Capability_CREATE_ENTITY, types.Capability_LOCK_ENTITY, types.Capability_GLOBAL_ROOT
		for _, a := range []rpb.Action{rpb.Action_ADD, rpb.Action_DROP} {
			ops = append(ops, eng.Capability(R, true, "e1", a, CE), eng.Capability(R, true, "e1", a, GR), eng.Capability(R, false, "g1", a, types.Capability_UNLOCK_ENTITY), eng.Capability(R, false, "g2", a, CE), eng.Capability(R, false, "g3", a, types.Capability_DESTROY_GROUP))
		}
		for _, add := range []bool{true, false} {
			ops = append(ops, eng.Member(R, add, "e1", "g1"), eng.Member(R, add, "e1", "g2"))
		}
		ops = append(ops, eng.Member(R, true, "e2", "g2"),
			eng.Rule(R, "g1", "g2", rpb.RuleAction_INCLUDE), eng.Rule(R, "g1", "g2", rpb.RuleAction_EXCLUDE), eng.Rule(R, "g1", "g2", rpb.RuleAction_REMOVE_RULE), eng.Rule(R, "g3", "g1", rpb.RuleAction_INCLUDE),
			eng.GroupDestroy(R, "g2"), eng.GroupCreate(R, "g2", "", "", -1), eng.GroupDestroy(R, "g1"),
			eng.EntityLock(R, "e1"), eng.EntityUnlock(R, "e1"), eng.EntityDestroy(R, "e1"), eng.EntityCreate(R, "e1", -1, "s"),
			eng.EntityUpdate(R, "e1", "every field", fullMeta), eng.GroupUpdate(R, "g1", "every field", fullGroup), eng.Restart())
		init := initOps(eng.GroupCreate(R, "g1", "", "", -1), eng.GroupCreate(R, "g2", "", "", -1), eng.GroupCreate(R, "g3", "", "", -1),
			eng.EntityCreate(R, "e1", -1, "s"), eng.EntityCreate(R, "e2", -1, "s"), eng.Capability(R, false, "g2", rpb.Action_ADD, LE))
		return []eng.Spec{crowdSpec(func(w *eng.World, o *eng.Obs) error { return claimsState(w, o) }), {Name: "look-alike names", U: alikeUniverse(), Ops: append(alikeOps(), mUnlock(R, "e1")), Depth: r.Pick(2, 3), Init: initOps(alikeSetup()...),
			State: func(w *eng.World, o *eng.Obs, _ eng.Ghost) error { return claimsState(w, o) }}, {Name: "claims", U: u, Ops: ops, Depth: r.Pick(4, 6), Init: init,
			State: func(w *eng.World, o *eng.Obs, _ eng.Ghost) error { return claimsState(w, o) }}}
	}})
}
