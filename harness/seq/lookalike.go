package main

import (
	"github.com/netauth/netauth/internal/zverif/eng"

	types "github.com/netauth/protocol"
	rpb "github.com/netauth/protocol/v2"
)

// Names that are different but look alike: by case, as prefixes, by blanks.
var (
	alikeEntities = []string{"e1", "E1", "e10", "e", " e1"}
	alikeGroups   = []string{"g1", "G1", "g10", "g", "g1 "}
)

func alikeUniverse() eng.Universe {
	return eng.Universe{Entities: alikeEntities, Groups: alikeGroups}
}

// alikeSetup creates all of them, with secrets of their own.
func alikeSetup() []eng.Op {
	var ops []eng.Op
	for _, g := range alikeGroups {
		ops = append(ops, mGroupCreate(R, g, "", "", -1))
	}
	for _, e := range alikeEntities {
		ops = append(ops, mEntityCreate(R, e, -1, "s"))
	}
	return append(ops, mMember(R, true, "e1", "g1"), mMember(R, true, "e10", "g10"), mRule(R, "G1", "g10", rpb.RuleAction_INCLUDE), mRule(R, "G1", "g1", rpb.RuleAction_INCLUDE),
		mKV2(R, true, "Add", "e1", "k", "v"), mKV2(R, true, "Add", "e1", "K", "v"), mKV2(R, false, "Add", "g1", "k", "v"), mKV2(R, false, "Add", "g1", "k1", "v"),
		mKeys(R, "e1", rpb.Action_ADD, "SSH", "k1"), mKeys(R, "e1", rpb.Action_ADD, "SSH", "k10"), mCapability(R, false, "g1", rpb.Action_ADD, types.Capability_UNLOCK_ENTITY))
}

// alikeOps aims requests at each of them.
func alikeOps() []eng.Op {
	LE := types.Capability_LOCK_ENTITY
	var ops []eng.Op
	for _, e := range alikeEntities {
		e := e
		ops = append(ops, mEntityDestroy(R, e), mEntityCreate(R, e, -1, "z"), mLock(R, e), mChangeSecret(R, e, "new "+e),
			mEntityUpdate(R, e, "GECOS", func() *types.EntityMeta { return &types.EntityMeta{GECOS: eng.S(e)} }),
			mEntityUM(R, e, rpb.Action_UPSERT, "um", e), mKeys(R, e, rpb.Action_ADD, "SSH", "k1"), mKV2(R, true, "Add", e, "k", "v"), mCapability(R, true, e, rpb.Action_ADD, LE))
	}
	for _, g := range alikeGroups {
		ops = append(ops, mGroupDestroy(R, g), mGroupCreate(R, g, "new", "g1", -1), mGroupUpdate(R, g, "display", func() *types.Group { return &types.Group{DisplayName: eng.S("dd")} }),
			mGroupUM(R, g, rpb.Action_UPSERT, "um", "2"), mKV2(R, false, "Add", g, "k", "v"), mCapability(R, false, g, rpb.Action_ADD, LE),
			mMember(R, true, "e1", g), mMember(R, false, "e1", g), mMember(R, false, "e10", g))
		if g != "G1" {
			ops = append(ops, mRule(R, "G1", g, rpb.RuleAction_EXCLUDE), mRule(R, "G1", g, rpb.RuleAction_REMOVE_RULE))
		}
	}
	return append(ops, mKV2(R, true, "Del", "e1", "k"), mKV2(R, true, "Replace", "e1", "k", "w"), mKV2(R, false, "Del", "g1", "k"), mKV2(R, false, "Replace", "g1", "k1", "w"),
		mKeys(R, "e1", rpb.Action_DROP, "SSH", "k1"), mKeys(R, "e1", rpb.Action_DROP, "ssh", "K1"), eng.Restart())
}
