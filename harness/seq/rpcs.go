package main

import (
	"github.com/golang/protobuf/proto"

	"github.com/netauth/netauth/internal/zverif/eng"

	types "github.com/netauth/protocol"
	rpb "github.com/netauth/protocol/v2"
)

// rpc is one mutating call on a fixed target.
type rpc struct {
	mk     func(c eng.Caller) eng.Op
	need   types.Capability
	self   string // the entity that may make the call for itself
	group  string // the group for which management may be delegated
	entity string // the entity it is about
}

// mutators lists every mutating call of the protocol, aimed at entity e1
// and group g1 (and creating e3, g3).
func mutators() []rpc {
	type C = eng.Caller
	kv := func(c C, ent bool, verb, t, k string, v ...string) eng.Op { return eng.KV2(c, ent, verb, t, k, v...) }
	return []rpc{
		{mk: func(c C) eng.Op { return eng.EntityCreate(c, "e3", -1, "s") }, need: types.Capability_CREATE_ENTITY},
		{mk: func(c C) eng.Op { return eng.EntityDestroy(c, "e1") }, need: types.Capability_DESTROY_ENTITY},
		{mk: func(c C) eng.Op { return eng.EntityLock(c, "e1") }, need: types.Capability_LOCK_ENTITY},
		{mk: func(c C) eng.Op { return eng.EntityUnlock(c, "e1") }, need: types.Capability_UNLOCK_ENTITY},
		{mk: func(c C) eng.Op {
			return eng.EntityUpdate(c, "e1", "GECOS", func() *types.EntityMeta { return &types.EntityMeta{GECOS: eng.S("new")} })
		}, need: types.Capability_MODIFY_ENTITY_META},
		{mk: func(c C) eng.Op { return eng.EntityUM(c, "e1", rpb.Action_UPSERT, "k", "v") }, need: types.Capability_MODIFY_ENTITY_META},
		{mk: func(c C) eng.Op { return eng.EntityUM(c, "e1", rpb.Action_CLEAREXACT, "um", "") }, need: types.Capability_MODIFY_ENTITY_META},
		{mk: func(c C) eng.Op { return eng.EntityUM(c, "e1", rpb.Action_CLEARFUZZY, "um", "") }, need: types.Capability_MODIFY_ENTITY_META},
		{mk: func(c C) eng.Op { return eng.EntityKeys(c, "e1", rpb.Action_ADD, "SSH", "k2") }, need: types.Capability_MODIFY_ENTITY_KEYS, self: "e1"},
		{mk: func(c C) eng.Op { return eng.EntityKeys(c, "e1", rpb.Action_DROP, "SSH", "k1") }, need: types.Capability_MODIFY_ENTITY_KEYS, self: "e1"},
		{mk: func(c C) eng.Op { return kv(c, true, "Add", "e1", "n", "v") }, need: types.Capability_MODIFY_ENTITY_META},
		{mk: func(c C) eng.Op { return kv(c, true, "Del", "e1", "k") }, need: types.Capability_MODIFY_ENTITY_META},
		{mk: func(c C) eng.Op { return kv(c, true, "Replace", "e1", "k", "w") }, need: types.Capability_MODIFY_ENTITY_META},
		{mk: func(c C) eng.Op { return eng.ChangeSecret(c, "caller", "e1", "", "new") }, need: types.Capability_CHANGE_ENTITY_SECRET},
		{mk: func(c C) eng.Op { return eng.GroupCreate(c, "g3", "", "", -1) }, need: types.Capability_CREATE_GROUP},
		{mk: func(c C) eng.Op { return eng.GroupDestroy(c, "g1") }, need: types.Capability_DESTROY_GROUP},
		{mk: func(c C) eng.Op {
			return eng.GroupUpdate(c, "g1", "display", func() *types.Group { return &types.Group{DisplayName: proto.String("new")} })
		}, need: types.Capability_MODIFY_GROUP_META, group: "g1"},
		{mk: func(c C) eng.Op { return eng.GroupUM(c, "g1", rpb.Action_UPSERT, "k", "v") }, need: types.Capability_MODIFY_GROUP_META, group: "g1"},
		{mk: func(c C) eng.Op { return eng.GroupUM(c, "g1", rpb.Action_CLEAREXACT, "um", "") }, need: types.Capability_MODIFY_GROUP_META, group: "g1"},
		{mk: func(c C) eng.Op { return eng.GroupUM(c, "g1", rpb.Action_CLEARFUZZY, "um", "") }, need: types.Capability_MODIFY_GROUP_META, group: "g1"},
		{mk: func(c C) eng.Op { return kv(c, false, "Add", "g1", "n", "v") }, need: types.Capability_MODIFY_GROUP_META},
		{mk: func(c C) eng.Op { return kv(c, false, "Del", "g1", "k") }, need: types.Capability_MODIFY_GROUP_META},
		{mk: func(c C) eng.Op { return kv(c, false, "Replace", "g1", "k", "w") }, need: types.Capability_MODIFY_GROUP_META},
		{mk: func(c C) eng.Op { return eng.Rule(c, "g1", "g2", rpb.RuleAction_INCLUDE) }, need: types.Capability_MODIFY_GROUP_META, group: "g1"},
		{mk: func(c C) eng.Op { return eng.Rule(c, "g1", "g2", rpb.RuleAction_EXCLUDE) }, need: types.Capability_MODIFY_GROUP_META, group: "g1"},
		{mk: func(c C) eng.Op { return eng.Rule(c, "g1", "g2", rpb.RuleAction_REMOVE_RULE) }, need: types.Capability_MODIFY_GROUP_META, group: "g1"},
		{mk: func(c C) eng.Op { return eng.Member(c, true, "e1", "g1") }, need: types.Capability_MODIFY_GROUP_MEMBERS, group: "g1"},
		{mk: func(c C) eng.Op { return eng.Member(c, false, "e2", "g1") }, need: types.Capability_MODIFY_GROUP_MEMBERS, group: "g1"},
		{mk: func(c C) eng.Op {
			return eng.Capability(c, true, "e1", rpb.Action_ADD, types.Capability_LOCK_ENTITY)
		}, need: types.Capability_GLOBAL_ROOT},
		{mk: func(c C) eng.Op {
			return eng.Capability(c, true, "e1", rpb.Action_DROP, types.Capability_UNLOCK_ENTITY)
		}, need: types.Capability_GLOBAL_ROOT},
		{mk: func(c C) eng.Op {
			return eng.Capability(c, false, "g1", rpb.Action_ADD, types.Capability_LOCK_ENTITY)
		}, need: types.Capability_GLOBAL_ROOT},
		{mk: func(c C) eng.Op {
			return eng.Capability(c, false, "g1", rpb.Action_DROP, types.Capability_UNLOCK_ENTITY)
		}, need: types.Capability_GLOBAL_ROOT},
	}
}

// populated is a state in which every mutator would succeed and change
// something.
func populated(managed string) []eng.Op {
	R := eng.AsRoot
	return []eng.Op{
		eng.GroupCreate(R, "mgr", "Managers", "", -1),
		eng.GroupCreate(R, "g2", "Second", "", -1),
		eng.GroupCreate(R, "g1", "First", managed, -1),
		eng.EntityCreate(R, "e1", -1, "a"),
		eng.EntityCreate(R, "e2", -1, "b"),
		eng.EntityCreate(R, "mallory", -1, "m"),
		eng.Member(R, true, "e2", "g1"),
		eng.EntityUM(R, "e1", rpb.Action_UPSERT, "um", "1"),
		eng.GroupUM(R, "g1", rpb.Action_UPSERT, "um", "1"),
		eng.EntityKeys(R, "e1", rpb.Action_ADD, "SSH", "k1"),
		eng.KV2(R, true, "Add", "e1", "k", "v"),
		eng.KV2(R, false, "Add", "g1", "k", "v"),
		eng.Capability(R, true, "e1", rpb.Action_ADD, types.Capability_UNLOCK_ENTITY),
		eng.Capability(R, false, "g1", rpb.Action_ADD, types.Capability_UNLOCK_ENTITY),
	}
}
