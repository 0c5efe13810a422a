package main

import (
	"fmt"
	"math"

	"google.golang.org/grpc/codes"

	"github.com/netauth/netauth/internal/zverif/eng"

	types "github.com/netauth/protocol"
	rpb "github.com/netauth/protocol/v2"
)

func init() {
	register(&eng.Check{ID: "C13", Level: "model_checking", Specs: func(r *eng.Run) []eng.Spec {
		mk := func(entity bool) eng.Spec {
			names := []string{"a", "b", "c"}
			var ops []eng.Op
			cr := func(n string, num int32) eng.Op {
				if entity {
					return mEntityCreate(R, n, num, "s")
				}
				return mGroupCreate(R, n, "disp", "", num)
			}
			for _, n := range names {
				ops = append(ops, cr(n, -1))
				if entity {
					ops = append(ops, mEntityDestroy(R, n))
				} else {
					ops = append(ops, mGroupDestroy(R, n))
				}
			}
			for _, num := range []int32{5, 0, math.MaxInt32, math.MaxInt32 - 1, -7} {
				ops = append(ops, cr("b", num))
			}
			ops = append(ops, cr("c", 5), eng.Restart())
			if entity {
				// Something to lose when an entity is created over another.
				ops = append(ops, mMember(R, true, "a", "g"), mCapability(R, true, "a", rpb.Action_ADD, types.Capability_GLOBAL_ROOT), mLock(R, "a"), mEntityUpdate(R, "b", "number through metadata", func() *types.EntityMeta { return &types.EntityMeta{GECOS: eng.S("x")} }))
			} else {
				ops = append(ops, mCapability(R, false, "a", rpb.Action_ADD, types.Capability_GLOBAL_ROOT), mRule(R, "a", "b", rpb.RuleAction_INCLUDE), mGroupUpdate(R, "b", "every field", fullGroup))
			}
			name := "entities"
			if !entity {
				name = "groups"
			}
			return eng.Spec{Name: name, NoObs: true, Ops: ops, Depth: r.Pick(5, 7), Init: modelInit(eng.Config{}), Step: modelStep}
		}
		return []eng.Spec{limits(r, true), limits(r, false), mk(true), mk(false)}
	}})

	register(&eng.Check{ID: "C14", Level: "model_checking", Specs: func(r *eng.Run) []eng.Spec {
		mk := func(entity bool) eng.Spec {
			var ops, setup []eng.Op
			u := eng.Universe{Entities: []string{"t1", "t2"}}
			setup = append(setup, mEntityCreate(R, "t1", -1, "s"), mEntityCreate(R, "t2", -1, "s"))
			name := "entities"
			if !entity {
				setup = []eng.Op{mGroupCreate(R, "t1", "", "", -1), mGroupCreate(R, "t2", "", "", -1)}
				u = eng.Universe{Groups: []string{"t1", "t2"}}
				name = "groups"
			}
			vs := [][]string{{"v"}, {"v", "w"}, {}}
			for _, k := range []string{"k", "kk", "k{0}"} {
				for i, v := range vs {
					if k != "k" && i > 0 {
						continue
					}
					ops = append(ops, mKV2(R, entity, "Add", "t1", k, v...), mKV2(R, entity, "Replace", "t1", k, append(append([]string{}, v...), "new")...))
				}
				ops = append(ops, mKV2(R, entity, "Del", "t1", k))
			}
			ops = append(ops, mKV2(R, entity, "Add", "t2", "k", "other"), mKV2(R, entity, "Del", "t2", "k"), mKV2(R, entity, "Replace", "t2", "k", "other2"),
				mKV2(R, entity, "Add", "none", "k", "v"), mKV2(R, entity, "Del", "none", "k"), mKV2(R, entity, "Replace", "none", "k", "v"))
			if entity {
				ops = append(ops, mEntityUpdate(R, "t1", "every field", fullMeta), mEntityUM(R, "t1", rpb.Action_UPSERT, "k", "v"), mEntityDestroy(R, "t2"))
			} else {
				ops = append(ops, mGroupUpdate(R, "t1", "every field", fullGroup), mGroupUM(R, "t1", rpb.Action_UPSERT, "k", "v"), mGroupDestroy(R, "t2"))
			}
			return eng.Spec{Name: name, U: u, Ops: ops, Depth: r.Pick(5, 7), Init: modelInit(eng.Config{}, setup...), Step: modelStep,
				State: func(w *eng.World, o *eng.Obs, g eng.Ghost) error {
					for _, t := range []string{"t1", "t2", "none"} {
						for _, k := range []string{"k", "kk", "k{0}", "*", "absent", ""} {
							if err := readOne(w, entity, t, k, o); err != nil {
								return err
							}
						}
					}
					return nil
				}}
		}
		return []eng.Spec{oddKV(r, true), oddKV(r, false), orders(r, true), orders(r, false), mk(true), mk(false)}
	}})

	register(&eng.Check{ID: "C15", Level: "model_checking", Specs: func(r *eng.Run) []eng.Spec {
		mk := func(entity bool) eng.Spec {
			var ops, setup []eng.Op
			u := eng.Universe{Entities: []string{"t1", "t2"}}
			setup = append(setup, mEntityCreate(R, "t1", -1, "s"), mEntityCreate(R, "t2", -1, "s"))
			name := "entities"
			um := mEntityUM
			if !entity {
				setup = []eng.Op{mGroupCreate(R, "t1", "", "", -1), mGroupCreate(R, "t2", "", "", -1)}
				u = eng.Universe{Groups: []string{"t1", "t2"}}
				name = "groups"
				um = mGroupUM
			}
			keys := []string{"k", "k{0}", "k{10}", "kk", "x{a}"}
			for _, k := range keys {
				ops = append(ops, um(R, "t1", rpb.Action_UPSERT, k, "v"), um(R, "t1", rpb.Action_CLEAREXACT, k, ""), um(R, "t1", rpb.Action_CLEARFUZZY, k, ""))
			}
			ops = append(ops, um(R, "t1", rpb.Action_UPSERT, "k", "w:x"), um(R, "t1", rpb.Action_UPSERT, "k", ""), um(R, "t1", rpb.Action_UPSERT, "k", "kk:v"),
				um(R, "t2", rpb.Action_UPSERT, "k", "o"), um(R, "t2", rpb.Action_CLEARFUZZY, "k{0}", ""), um(R, "none", rpb.Action_UPSERT, "k", "v"), um(R, "none", rpb.Action_CLEAREXACT, "k", ""))
			return eng.Spec{Name: name, U: u, Ops: ops, Depth: r.Pick(5, 7), Init: modelInit(eng.Config{}, setup...), Step: modelStep,
				State: func(w *eng.World, o *eng.Obs, g eng.Ghost) error {
					for _, t := range []string{"t1", "t2", "none"} {
						for _, k := range append([]string{"*", "absent", "k{7}"}, keys...) {
							if err := readOne(w, entity, t, k, o); err != nil {
								return err
							}
						}
					}
					return nil
				}}
		}
		return []eng.Spec{oddUM(r, true), oddUM(r, false), mk(true), mk(false)}
	}})

	register(&eng.Check{ID: "C16", Level: "model_checking", Specs: func(r *eng.Run) []eng.Spec {
		var ops []eng.Op
		me := eng.As("e1")
		for _, t := range []string{"SSH", "PGP"} {
			for _, k := range []string{"k1", "k10", "k 1 user@host", ""} {
				ops = append(ops, mKeys(R, "e1", rpb.Action_ADD, t, k), mKeys(R, "e1", rpb.Action_DROP, t, k))
			}
		}
		own := mKeys(me, "e1", rpb.Action_ADD, "ssh", "k1:x")
		own2 := mKeys(me, "e1", rpb.Action_DROP, "ssh", "k1")
		ops = append(ops, own.Named("%s by e1", own.Name), own2.Named("%s by e1", own2.Name),
			mKeys(R, "e2", rpb.Action_ADD, "SSH", "k1"), mKeys(R, "e2", rpb.Action_DROP, "SSH", "k1"),
			mKeys(R, "none", rpb.Action_ADD, "SSH", "k1"), mEntityUpdate(R, "e1", "every field", fullMeta))
		u := eng.Universe{Entities: []string{"e1", "e2"}}
		return []eng.Spec{oddKeys(r), {Name: "keys", U: u, Ops: ops, Depth: r.Pick(5, 7), Init: modelInit(eng.Config{}, mEntityCreate(R, "e1", -1, "s"), mEntityCreate(R, "e2", -1, "s")), Step: modelStep,
			State: func(w *eng.World, o *eng.Obs, g eng.Ghost) error {
				for _, id := range []string{"e1", "e2", "none"} {
					q := &rpb.KVRequest{Target: eng.S(id), Action: rpb.Action_READ.Enum(), Key: eng.S("SSH")}
					resp, err := w.Srv.EntityKeys(eng.Ctx(""), q)
					if id == "none" {
						if eng.R(err).Code != codes.NotFound {
							return fmt.Errorf("reading keys of a missing entity answered %v", eng.R(err))
						}
						continue
					}
					got := set{}
					for _, k := range resp.GetStrings() {
						got[k] = true
					}
					m := g.(*model).E[id]
					if err != nil || fmt.Sprint(got.list()) != fmt.Sprint(m.keys.list()) || len(got) != len(resp.GetStrings()) {
						return fmt.Errorf("keys of %q read as %q (%v); added and not dropped are %q", id, resp.GetStrings(), err, m.keys.list())
					}
				}
				return nil
			}}}
	}})
}
