package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/golang/protobuf/proto"

	"github.com/netauth/netauth/internal/zverif/eng"

	types "github.com/netauth/protocol"
	rpb "github.com/netauth/protocol/v2"
)

var R = eng.AsRoot

// fullMeta fills every field of an entity's metadata, privileged ones too.
func fullMeta() *types.EntityMeta {
	return &types.EntityMeta{
		PrimaryGroup: eng.S("pg"), GECOS: eng.S("gecos"), LegalName: eng.S("legal"), DisplayName: eng.S("disp"),
		Home: eng.S("/home"), Shell: eng.S("/sh"), GraphicalShell: eng.S("/gsh"), BadgeNumber: eng.S("b"),
		Locked: proto.Bool(false), Groups: []string{"g2"}, Capabilities: []types.Capability{types.Capability_GLOBAL_ROOT},
		Keys: []string{"SSH:evil"}, UntypedMeta: []string{"evil:1"}, KV: []*types.KVData{eng.KVD("evil", "1")},
	}
}

func lockMeta() *types.EntityMeta { m := fullMeta(); m.Locked = proto.Bool(true); return m }

// fullGroup fills every field of a group, privileged ones too.
func fullGroup() *types.Group {
	return &types.Group{
		DisplayName: eng.S("evil"), ManagedBy: eng.S("g2"), Number: proto.Int32(999),
		Capabilities: []types.Capability{types.Capability_GLOBAL_ROOT}, Expansions: []string{"INCLUDE:g2"},
		UntypedMeta: []string{"evil:1"}, KV: []*types.KVData{eng.KVD("evil", "1")},
	}
}

// effectOps is every kind of request aimed at two entities and two groups.
func effectOps() []eng.Op {
	LE, UE := types.Capability_LOCK_ENTITY, types.Capability_UNLOCK_ENTITY
	var ops []eng.Op
	add := func(o ...eng.Op) { ops = append(ops, o...) }
	add(mEntityCreate(R, "e3", -1, "s"), mEntityCreate(R, "e3", 77, ""), mEntityDestroy(R, "e1"), mEntityDestroy(R, "e2"), mEntityCreate(R, "e1", -1, "z"),
		mLock(R, "e1"), mUnlock(R, "e1"), mLock(R, "e3"),
		mEntityUpdate(R, "e1", "every field", fullMeta), mEntityUpdate(R, "e1", "every field, locked", lockMeta),
		mEntityUpdate(R, "e1", "GECOS", func() *types.EntityMeta { return &types.EntityMeta{GECOS: eng.S("one")} }),
		mEntityUpdate(R, "e2", "Shell", func() *types.EntityMeta { return &types.EntityMeta{Shell: eng.S("two")} }),
		mEntityUpdate(R, "e1", "nothing", func() *types.EntityMeta { return nil }),
		mEntityUpdate(R, "nobody", "GECOS", func() *types.EntityMeta { return &types.EntityMeta{GECOS: eng.S("one")} }),
		mEntityUM(R, "e1", rpb.Action_UPSERT, "um", "2"), mEntityUM(R, "e1", rpb.Action_CLEAREXACT, "um", ""), mEntityUM(R, "e2", rpb.Action_UPSERT, "um", "3"), mEntityUM(R, "e1", rpb.Action_CLEARFUZZY, "um", ""),
		mKeys(R, "e1", rpb.Action_ADD, "SSH", "k2"), mKeys(R, "e1", rpb.Action_DROP, "SSH", "k1"), mKeys(R, "e2", rpb.Action_ADD, "PGP", "k1"),
		mKV2(R, true, "Add", "e1", "n", "v"), mKV2(R, true, "Del", "e1", "k"), mKV2(R, true, "Replace", "e1", "k", "w", "x"), mKV2(R, true, "Add", "e2", "k", "other"),
		mChangeSecret(R, "e1", "new"), mChangeSecret(R, "e2", "new2"), mChangeSecret(R, "nobody", "x"),
		mGroupCreate(R, "g3", "Third", "g1", -1), mGroupCreate(R, "g3", "", "missing", -1), mGroupCreate(R, "g4", "", "g4", 55), mGroupDestroy(R, "g1"), mGroupDestroy(R, "g2"), mGroupCreate(R, "g1", "Again", "", -1),
		mGroupUpdate(R, "g1", "every field", fullGroup), mGroupUpdate(R, "g2", "display", func() *types.Group { return &types.Group{DisplayName: eng.S("dd")} }),
		mGroupUpdate(R, "missing", "display", func() *types.Group { return &types.Group{DisplayName: eng.S("dd")} }),
		mGroupUM(R, "g1", rpb.Action_UPSERT, "um", "2"), mGroupUM(R, "g1", rpb.Action_CLEAREXACT, "um", ""), mGroupUM(R, "g2", rpb.Action_UPSERT, "um", "3"), mGroupUM(R, "g1", rpb.Action_CLEARFUZZY, "um", ""),
		mKV2(R, false, "Add", "g1", "n", "v"), mKV2(R, false, "Del", "g1", "k"), mKV2(R, false, "Replace", "g1", "k", "w", "x"), mKV2(R, false, "Add", "g2", "k", "other"),
		mRule(R, "g1", "g2", rpb.RuleAction_INCLUDE), mRule(R, "g1", "g2", rpb.RuleAction_EXCLUDE), mRule(R, "g1", "g2", rpb.RuleAction_REMOVE_RULE), mRule(R, "g2", "g1", rpb.RuleAction_INCLUDE),
		mMember(R, true, "e1", "g1"), mMember(R, false, "e1", "g1"), mMember(R, true, "e2", "g2"), mMember(R, false, "e2", "g1"), mMember(R, true, "nobody", "g1"),
		mCapability(R, true, "e1", rpb.Action_ADD, LE), mCapability(R, true, "e1", rpb.Action_DROP, UE), mCapability(R, true, "e2", rpb.Action_ADD, UE),
		mCapability(R, false, "g1", rpb.Action_ADD, LE), mCapability(R, false, "g1", rpb.Action_DROP, UE), mCapability(R, false, "g2", rpb.Action_ADD, UE), mCapability(R, true, "nobody", rpb.Action_ADD, LE),
		eng.Auth("e1", "a"), eng.GetToken("e1", "a"), eng.Auth("e1", "wrong"), eng.Auth("e2", "b"), eng.Restart())
	return ops
}

// effectSetup is the populated start, with its meaning.
func effectSetup() []eng.Op {
	return []eng.Op{
		mGroupCreate(R, "g2", "Second", "", -1), mGroupCreate(R, "g1", "First", "", -1),
		mEntityCreate(R, "e1", -1, "a"), mEntityCreate(R, "e2", -1, "b"),
		mMember(R, true, "e2", "g1"),
		mEntityUM(R, "e1", rpb.Action_UPSERT, "um", "1"), mGroupUM(R, "g1", rpb.Action_UPSERT, "um", "1"),
		mKeys(R, "e1", rpb.Action_ADD, "SSH", "k1"),
		mKV2(R, true, "Add", "e1", "k", "v"), mKV2(R, false, "Add", "g1", "k", "v"),
		mCapability(R, true, "e1", rpb.Action_ADD, types.Capability_UNLOCK_ENTITY), mCapability(R, false, "g1", rpb.Action_ADD, types.Capability_UNLOCK_ENTITY),
	}
}

func effectUniverse() eng.Universe {
	return eng.Universe{Entities: []string{"e1", "e2", "e3"}, Groups: []string{"g1", "g2", "g3", "g4"}}
}

// readBack compares every way of reading with what is stored.
func readBack(w *eng.World, o *eng.Obs, u eng.Universe, keys []string) error {
	raw := rawAttrs(w)
	for k := range raw {
		if strings.HasSuffix(k, "/secret") {
			delete(raw, k)
		}
	}
	got := map[string]string{}
	for k, v := range o.Attrs() {
		switch {
		case strings.HasSuffix(k, "/id"):
			if v != strings.Split(k, "/")[1] {
				return fmt.Errorf("asked for entity %q, got %q", strings.Split(k, "/")[1], v)
			}
		case strings.HasSuffix(k, "/name"):
			if v != strings.Split(k, "/")[1] {
				return fmt.Errorf("asked for group %q, got %q", strings.Split(k, "/")[1], v)
			}
		case strings.HasSuffix(k, "/caps"):
			l := strings.Fields(strings.Trim(v, "[]"))
			got[k] = fmt.Sprintf("%q", l)
		default:
			got[k] = v
		}
	}
	for _, k := range eng.DiffAttrs(raw, got) {
		return fmt.Errorf("%s reads as %q; stored is %q", k, show(got, k), show(raw, k))
	}
	for _, id := range u.Entities {
		for _, k := range keys {
			if err := readOne(w, true, id, k, o); err != nil {
				return err
			}
		}
		kr, err := w.Srv.EntityKeys(eng.Ctx(""), &rpb.KVRequest{Target: eng.S(id), Action: rpb.Action_READ.Enum()})
		if (err == nil) != (o.Ents[id] != nil) {
			return fmt.Errorf("EntityKeys(%q,READ): %v", id, err)
		}
		if err == nil {
			l := append([]string{}, kr.GetStrings()...)
			sort.Strings(l)
			if fmt.Sprintf("%q", l) != fmt.Sprintf("%q", o.Ents[id].Keys) {
				return fmt.Errorf("EntityKeys(%q,READ) lists %q, stored are %q", id, l, o.Ents[id].Keys)
			}
		}
	}
	for _, n := range u.Groups {
		for _, k := range keys {
			if err := readOne(w, false, n, k, o); err != nil {
				return err
			}
		}
	}
	return nil
}

// readOne reads key/value data and untyped metadata by key.
func readOne(w *eng.World, entity bool, t, k string, o *eng.Obs) error {
	var um, kv []string
	exists := false
	if entity {
		if e := o.Ents[t]; e != nil {
			um, kv, exists = e.UM, e.KV, true
		}
	} else if g := o.Grps[t]; g != nil {
		um, kv, exists = g.UM, g.KV, true
	}
	wantKV := []string{}
	for _, x := range kv {
		if k == "*" || strings.HasPrefix(x, k+"->") {
			wantKV = append(wantKV, x)
		}
	}
	d, err := eng.KVGet(w, entity, t, k)
	if !exists || (len(wantKV) == 0 && k != "*") {
		if eng.R(err).Code.String() != "NotFound" {
			return fmt.Errorf("reading missing key/value data %q of %q answered %v", k, t, eng.R(err))
		}
	} else if err != nil || fmt.Sprintf("%q", eng.KVStrings(d)) != fmt.Sprintf("%q", wantKV) {
		return fmt.Errorf("reading key/value data %q of %q gave %q (%v); stored is %q", k, t, eng.KVStrings(d), err, wantKV)
	}
	var r *rpb.ListOfStrings
	q := &rpb.KVRequest{Target: eng.S(t), Action: rpb.Action_READ.Enum(), Key: eng.S(k)}
	if entity {
		r, err = w.Srv.EntityUM(eng.Ctx(""), q)
	} else {
		r, err = w.Srv.GroupUM(eng.Ctx(""), q)
	}
	if !exists {
		if eng.R(err).Code.String() != "NotFound" {
			return fmt.Errorf("reading untyped metadata of missing %q answered %v", t, eng.R(err))
		}
		return nil
	}
	wantUM := []string{}
	for _, x := range um {
		if k == "*" || umBase(strings.SplitN(x, ":", 2)[0]) == umBase(k) {
			wantUM = append(wantUM, x)
		}
	}
	if err != nil || fmt.Sprintf("%q", r.GetStrings()) != fmt.Sprintf("%q", wantUM) {
		return fmt.Errorf("reading untyped metadata %q of %q gave %q (%v); stored is %q", k, t, r.GetStrings(), err, wantUM)
	}
	return nil
}

func init() {
	register(&eng.Check{ID: "C09", Level: "model_checking", Specs: func(r *eng.Run) []eng.Spec {
		crowd := crowdSpec(nil)
		crowd.NoObs, crowd.State = true, nil
		return []eng.Spec{crowd, oddFields(r), {Name: "effects", NoObs: true, Ops: effectOps(), Depth: r.Pick(3, 4), Init: modelInit(eng.Config{}, effectSetup()...), Step: modelStep},
			{Name: "effects from nothing", NoObs: true, Ops: effectOps(), Depth: r.Pick(3, 4), Init: modelInit(eng.Config{}), Step: modelStep},
			{Name: "look-alike names", NoObs: true, Ops: alikeOps(), Depth: r.Pick(2, 3), Init: modelInit(eng.Config{}, alikeSetup()...), Step: modelStep}}
	}})
	register(&eng.Check{ID: "C10", Level: "model_checking", Specs: func(r *eng.Run) []eng.Spec {
		u := effectUniverse()
		au := alikeUniverse()
		return []eng.Spec{oddKV(r, true), oddKV(r, false), oddUM(r, true), oddUM(r, false), orders(r, true), orders(r, false), crowdSpec(func(w *eng.World, o *eng.Obs) error {
			return readBack(w, o, crowdUniverse(), []string{"*", "k7", "k21", "k"})
		}), {Name: "look-alike names", U: au, Ops: alikeOps(), Depth: r.Pick(2, 3), Init: modelInit(eng.Config{}, alikeSetup()...),
			State: func(w *eng.World, o *eng.Obs, _ eng.Ghost) error {
				return readBack(w, o, au, []string{"*", "k", "K", "k1", "um", ""})
			}}, {Name: "reads", U: u, Ops: effectOps(), Depth: r.Pick(2, 4), Init: modelInit(eng.Config{}, effectSetup()...),
			State: func(w *eng.World, o *eng.Obs, _ eng.Ghost) error {
				return readBack(w, o, u, []string{"*", "k", "n", "um", "evil", ""})
			}}}
	}})
}
