package main

import (
	"fmt"
	"strings"
	"sync"

	"github.com/netauth/netauth/internal/zverif/eng"

	types "github.com/netauth/protocol"
	rpb "github.com/netauth/protocol/v2"
)

// oddWords are values that a careless comparison, clean-up or pattern would
// take for one another.
func oddWords() []string {
	return []string{"k", "K", " k", "k ", "k\t", "k\n", "\nk", "k\r\n", "k{0}", "k{00}", "k*", "*k", "**", "?", "[k]", ".*", "k\x00", "k/../k", "\u00e9", "e\u0301", "%s", "\"k\"", "kk", strings.Repeat("k", 70), strings.Repeat("k", 70) + "l", strings.Repeat("long ", 1000)}
}

// oddKV adds, replaces and removes odd keys and values.
func oddKV(r *eng.Run, entity bool) eng.Spec {
	var ops []eng.Op
	words := append(oddWords(), "k:v")
	for i, k := range words {
		ops = append(ops, mKV2(R, entity, "Add", "t1", k, k, "x", k), mKV2(R, entity, "Del", "t1", k), mKV2(R, entity, "Replace", "t1", k, words[(i+1)%len(words)]))
	}
	u, setup := oddTarget(entity)
	setup = append(setup, mKV2(R, entity, "Add", "t1", "k", "v"), mKV2(R, entity, "Add", "t1", "K", "v"), mKV2(R, entity, "Add", "t1", "k{0}", "v"))
	return eng.Spec{Name: "odd keys and values of " + oddName(entity), U: u, Ops: ops, Depth: r.Pick(2, 3), Init: modelInit(eng.Config{}, setup...), Step: modelStep,
		State: func(w *eng.World, o *eng.Obs, g eng.Ghost) error {
			for _, k := range append([]string{"*"}, words...) {
				if err := readOne(w, entity, "t1", k, o); err != nil {
					return err
				}
			}
			return nil
		}}
}

// orders stores the same and other values in various orders, in that of the
// list and in that of their indices.
func orders(r *eng.Run, entity bool) eng.Spec {
	at := eng.At
	lists := [][]string{
		{"a", "b"}, {"b", "a"}, {at(1, "a"), at(0, "b")}, {at(1, "b"), at(0, "a")}, {at(0, "a"), at(0, "b")}, {at(1, "a"), at(2, "b")},
		{"a"}, {at(7, "a")}, {at(-1, "a")}, {"a", "a"}, {""}, {"", "a"}, {}, {"a b"}, {at(1<<31-1, "a"), at(-1<<31, "b")}, {at(10, "a"), at(9, "b"), at(1, "c")}, {at(1, "c"), at(9, "b"), at(10, "a")},
	}
	var ops []eng.Op
	for _, l := range lists {
		ops = append(ops, mKV2(R, entity, "Add", "t1", "k", l...), mKV2(R, entity, "Replace", "t1", "k", l...))
	}
	ops = append(ops, mKV2(R, entity, "Del", "t1", "k"), mKV2(R, entity, "Replace", "t1", "other", "b", "a"))
	u, setup := oddTarget(entity)
	setup = append(setup, mKV2(R, entity, "Add", "t1", "other", "a", "b"))
	return eng.Spec{Name: "orders of values of " + oddName(entity), U: u, Ops: ops, Depth: r.Pick(3, 4), Init: modelInit(eng.Config{}, setup...), Step: modelStep,
		State: func(w *eng.World, o *eng.Obs, g eng.Ghost) error {
			for _, k := range []string{"*", "k", "other"} {
				if err := readOne(w, entity, "t1", k, o); err != nil {
					return err
				}
			}
			return nil
		}}
}

func oddName(entity bool) string {
	if entity {
		return "entities"
	}
	return "groups"
}

func oddTarget(entity bool) (eng.Universe, []eng.Op) {
	if entity {
		return eng.Universe{Entities: []string{"t1"}}, []eng.Op{mEntityCreate(R, "t1", -1, "s")}
	}
	return eng.Universe{Groups: []string{"t1"}}, []eng.Op{mGroupCreate(R, "t1", "", "", -1)}
}

// oddUM does the same for untyped metadata.
func oddUM(r *eng.Run, entity bool) eng.Spec {
	um := mEntityUM
	if !entity {
		um = mGroupUM
	}
	var ops []eng.Op
	words := oddWords()
	for i, k := range words {
		ops = append(ops, um(R, "t1", rpb.Action_UPSERT, k, words[(i+1)%len(words)]), um(R, "t1", rpb.Action_UPSERT, "k", k), um(R, "t1", rpb.Action_CLEAREXACT, k, ""), um(R, "t1", rpb.Action_CLEARFUZZY, k, ""))
	}
	u, setup := oddTarget(entity)
	setup = append(setup, um(R, "t1", rpb.Action_UPSERT, "k", "v"), um(R, "t1", rpb.Action_UPSERT, "K", "v"), um(R, "t1", rpb.Action_UPSERT, "k{0}", "v"))
	return eng.Spec{Name: "odd keys and values of " + oddName(entity), U: u, Ops: ops, Depth: r.Pick(2, 3), Init: modelInit(eng.Config{}, setup...), Step: modelStep,
		State: func(w *eng.World, o *eng.Obs, g eng.Ghost) error {
			for _, k := range append([]string{"*"}, words...) {
				if err := readOne(w, entity, "t1", k, o); err != nil {
					return err
				}
			}
			return nil
		}}
}

// oddKeys adds and drops odd public keys.
func oddKeys(r *eng.Run) eng.Spec {
	var ops []eng.Op
	for _, k := range append(oddWords(), "k:v", "SSH:k", "ssh:k", "SSH:SSH:k", ":k", "k:", "SSH") {
		for _, t := range []string{"SSH", "SSHX"} {
			ops = append(ops, mKeys(R, "t1", rpb.Action_ADD, t, k), mKeys(R, "t1", rpb.Action_DROP, t, k))
		}
	}
	u, setup := oddTarget(true)
	setup = append(setup, mKeys(R, "t1", rpb.Action_ADD, "SSH", "k"), mKeys(R, "t1", rpb.Action_ADD, "SSH", "K"), mKeys(R, "t1", rpb.Action_ADD, "SSHX", "k"), mKeys(R, "t1", rpb.Action_ADD, "SSH", "k "))
	return eng.Spec{Name: "odd keys", U: u, Ops: ops, Depth: r.Pick(2, 3), Init: modelInit(eng.Config{}, setup...), Step: modelStep}
}

// oddFields puts odd values in every field of an entity and of a group.
func oddFields(r *eng.Run) eng.Spec {
	fields := map[string]func(m *types.EntityMeta, v string){
		"PrimaryGroup": func(m *types.EntityMeta, v string) { m.PrimaryGroup = &v }, "GECOS": func(m *types.EntityMeta, v string) { m.GECOS = &v },
		"LegalName": func(m *types.EntityMeta, v string) { m.LegalName = &v }, "DisplayName": func(m *types.EntityMeta, v string) { m.DisplayName = &v },
		"Home": func(m *types.EntityMeta, v string) { m.Home = &v }, "Shell": func(m *types.EntityMeta, v string) { m.Shell = &v },
		"GraphicalShell": func(m *types.EntityMeta, v string) { m.GraphicalShell = &v }, "BadgeNumber": func(m *types.EntityMeta, v string) { m.BadgeNumber = &v },
	}
	var ops []eng.Op
	for i, v := range append(oddWords(), "") {
		v := v
		for _, f := range []string{"PrimaryGroup", "GECOS", "LegalName", "DisplayName", "Home", "Shell", "GraphicalShell", "BadgeNumber"} {
			set := fields[f]
			ops = append(ops, mEntityUpdate(R, "e1", fmt.Sprintf("%s = %q", f, v), func() *types.EntityMeta {
				m := &types.EntityMeta{}
				set(m, v)
				return m
			}))
		}
		ops = append(ops, mGroupUpdate(R, "g1", fmt.Sprintf("DisplayName = %q", v), func() *types.Group { return &types.Group{DisplayName: eng.S(v)} }),
			mGroupCreate(R, fmt.Sprintf("new%d", i), v, "g1", -1))
	}
	ops = append(ops, mGroupUpdate(R, "g1", "managed by nobody", func() *types.Group { return &types.Group{ManagedBy: eng.S("")} }), mGroupUpdate(R, "g1", "managed by g2", func() *types.Group { return &types.Group{ManagedBy: eng.S("g2")} }))
	return eng.Spec{Name: "odd values", NoObs: true, Ops: ops, Depth: r.Pick(1, 2), Init: modelInit(eng.Config{}, append(effectSetup(), mEntityUpdate(R, "e1", "every field", fullMeta))...), Step: modelStep}
}

const (
	crowdN = 22 // entities, leaf groups, values of each kind
	chainN = 9  // groups in a chain
)

func crowdE(i int) string { return fmt.Sprintf("e%d", i) }
func crowdL(i int) string { return fmt.Sprintf("leaf%d", i) }
func crowdC(i int) string { return fmt.Sprintf("c%d", i) }

func crowdUniverse() eng.Universe {
	u := eng.Universe{Entities: []string{"fresh"}, Groups: []string{"hub", "some", "fresh"}}
	for i := 0; i < crowdN; i++ {
		u.Entities = append(u.Entities, crowdE(i))
		u.Groups = append(u.Groups, crowdL(i))
	}
	for i := 0; i < chainN; i++ {
		u.Groups = append(u.Groups, crowdC(i))
	}
	return u
}

// crowdSetup makes many of everything: entities, groups, rules of one group,
// a long chain of rules, memberships, keys, key/value data and capabilities.
func crowdSetup() []eng.Op {
	ops := []eng.Op{mGroupCreate(R, "hub", "", "", -1), mGroupCreate(R, "some", "", "", -1), mRule(R, "some", "hub", rpb.RuleAction_INCLUDE)}
	for i := 0; i < crowdN; i++ {
		e, l, v := crowdE(i), crowdL(i), fmt.Sprint(i)
		ops = append(ops, mEntityCreate(R, e, -1, "s"), mGroupCreate(R, l, "red", "hub", -1), mMember(R, true, e, l), mRule(R, "hub", l, rpb.RuleAction_INCLUDE))
		if i%2 == 1 {
			ops = append(ops, mRule(R, "some", l, rpb.RuleAction_EXCLUDE))
		}
		if i > 0 {
			ops = append(ops, mMember(R, true, crowdE(0), l))
		}
		ops = append(ops, mKV2(R, true, "Add", "e0", "k"+v, v), mKV2(R, false, "Add", "hub", "k"+v, v), mEntityUM(R, "e0", rpb.Action_UPSERT, "k{"+v+"}", v), mGroupUM(R, "hub", rpb.Action_UPSERT, "k"+v, v), mKeys(R, "e0", rpb.Action_ADD, "SSH", v))
	}
	for i := chainN - 1; i >= 0; i-- {
		ops = append(ops, mGroupCreate(R, crowdC(i), "", "", -1))
		if i < chainN-1 {
			ops = append(ops, mRule(R, crowdC(i), crowdC(i+1), rpb.RuleAction_INCLUDE))
		}
	}
	return append(ops, mMember(R, true, "e1", crowdC(chainN-1)), mMember(R, true, "e2", crowdC(chainN-1)), mRule(R, crowdC(0), "leaf2", rpb.RuleAction_EXCLUDE), mRule(R, "some", crowdC(0), rpb.RuleAction_INCLUDE),
		mCapability(R, false, crowdC(0), rpb.Action_ADD, types.Capability_UNLOCK_ENTITY), mCapability(R, false, crowdL(crowdN-1), rpb.Action_ADD, types.Capability_LOCK_ENTITY))
}

// crowdOps aims a request of each kind at the first, some middle and the last
// of many.
func crowdOps() []eng.Op {
	ops := []eng.Op{mEntityCreate(R, "fresh", -1, "s"), mGroupCreate(R, "fresh", "", "hub", -1), mGroupDestroy(R, "hub"), mRule(R, crowdC(chainN-1), crowdC(0), rpb.RuleAction_INCLUDE), mRule(R, crowdC(chainN-1), crowdC(chainN/2), rpb.RuleAction_EXCLUDE),
		mRule(R, crowdC(chainN-1), "leaf0", rpb.RuleAction_EXCLUDE), mRule(R, "leaf3", "some", rpb.RuleAction_INCLUDE), mMember(R, false, "e1", crowdC(chainN-1)), mGroupDestroy(R, crowdC(chainN/2)),
		mKV2(R, true, "Add", "e0", "kmore", "v"), mKV2(R, false, "Add", "hub", "kmore", "v"), mEntityUM(R, "e0", rpb.Action_CLEARFUZZY, "k", ""), mEntityUM(R, "e0", rpb.Action_UPSERT, "k{99}", "v"), mKeys(R, "e0", rpb.Action_DROP, "SSH", ""), mKeys(R, "e0", rpb.Action_ADD, "PGP", "1"), eng.Restart()}
	vs := []string{}
	for i := 0; i < crowdN; i++ {
		vs = append(vs, fmt.Sprint(i))
	}
	ops = append(ops, mKV2(R, true, "Replace", "e0", "k7", vs...))
	for _, i := range []int{0, 1, 10, 16, crowdN - 1} {
		e, l, v := crowdE(i), crowdL(i), fmt.Sprint(i)
		ops = append(ops, mEntityDestroy(R, e), mLock(R, e), mEntityUpdate(R, e, "GECOS", func() *types.EntityMeta { return &types.EntityMeta{GECOS: eng.S("x")} }), mMember(R, false, e, l), mMember(R, false, "e0", l), mMember(R, true, e, "hub"), mCapability(R, true, e, rpb.Action_ADD, types.Capability_CREATE_GROUP),
			mGroupDestroy(R, l), mGroupUpdate(R, l, "display", func() *types.Group { return &types.Group{DisplayName: eng.S("blue")} }), mRule(R, "hub", l, rpb.RuleAction_REMOVE_RULE), mRule(R, "some", l, rpb.RuleAction_REMOVE_RULE), mRule(R, crowdC(chainN/2), l, rpb.RuleAction_EXCLUDE), mCapability(R, false, l, rpb.Action_ADD, types.Capability_CREATE_GROUP),
			mKV2(R, true, "Del", "e0", "k"+v), mKV2(R, true, "Replace", "e0", "k"+v, "new"), mKV2(R, false, "Del", "hub", "k"+v), mEntityUM(R, "e0", rpb.Action_CLEAREXACT, "k{"+v+"}", ""), mGroupUM(R, "hub", rpb.Action_CLEARFUZZY, "k"+v, ""), mKeys(R, "e0", rpb.Action_DROP, "SSH", v))
	}
	return ops
}

var crowdBase struct {
	sync.Mutex
	kv *eng.MemKV
	m  *model
}

// crowdInit starts a server on the data that crowdSetup has made.
func crowdInit() (*eng.World, eng.Ghost) {
	crowdBase.Lock()
	defer crowdBase.Unlock()
	if crowdBase.kv == nil {
		w, g := modelInit(eng.Config{}, crowdSetup()...)()
		crowdBase.kv, crowdBase.m = w.KV, g.(*model)
	}
	return eng.NewWorld(eng.Config{KV: crowdBase.kv.Clone()}), crowdBase.m.clone()
}

func crowdSpec(state func(w *eng.World, o *eng.Obs) error) eng.Spec {
	return eng.Spec{Name: "many of everything", U: crowdUniverse(), Ops: crowdOps(), Depth: 1, Init: crowdInit, Step: modelStep,
		State: func(w *eng.World, o *eng.Obs, _ eng.Ghost) error { return state(w, o) }}
}

// limits has numbers given out automatically next to ones that have a meaning
// somewhere or are at the limits of some type.
func limits(r *eng.Run, entity bool) eng.Spec {
	cr := func(n string, num int32) eng.Op {
		if entity {
			return mEntityCreate(R, n, num, "s")
		}
		return mGroupCreate(R, n, "", "", num)
	}
	ops := []eng.Op{cr("x", -1), cr("y", -1)}
	for _, n := range []int32{99, 100, 499, 500, 999, 1000, 1024, 1<<15 - 1, 1 << 15, 59999, 60000, 60578, 61183, 61184, 65519, 65533, 65534, 65535, 65536, 99999, 524287, 1<<24 - 1, 1 << 24, 1e9, 1<<30 - 1, 1 << 30, 1<<31 - 2} {
		ops = append(ops, cr("a", n), cr("b", n+1))
	}
	return eng.Spec{Name: "limits of numbers of " + oddName(entity), NoObs: true, Ops: ops, Depth: r.Pick(3, 4), Init: modelInit(eng.Config{}), Step: modelStep}
}
