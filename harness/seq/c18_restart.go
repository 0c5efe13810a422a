package main

import (
	"fmt"

	"github.com/netauth/netauth/internal/zverif/eng"

	types "github.com/netauth/protocol"
	rpb "github.com/netauth/protocol/v2"
)

// withFresh performs an operation on the long-running server and on one
// that was started just before it.
func withFresh(o eng.Op) eng.Op {
	do := o.Do
	o.Do = func(w *eng.World) eng.Res {
		w.Peer = w.Peer.Restart()
		r, q := do(w), do(w.Peer)
		if r.String() != q.String() || r.Msg != q.Msg {
			w.Note["differs"] = fmt.Sprintf("%s answers %s %q after a restart and %s %q without", o.Name, q, q.Msg, r, r.Msg)
		}
		return r
	}
	return o
}

func init() {
	register(&eng.Check{ID: "C18", Level: "model_checking", Specs: func(r *eng.Run) []eng.Spec {
		mk := func(name string, depth int, u eng.Universe, searches []string, ops []eng.Op, setupOps ...eng.Op) eng.Spec {
			var wrapped []eng.Op
			for _, o := range ops {
				if o.Name != "Restart" {
					wrapped = append(wrapped, withFresh(o))
				}
			}
			return eng.Spec{Name: name, NoObs: true, Ops: wrapped, Depth: depth,
				Init: func() (*eng.World, eng.Ghost) {
					var w *eng.World
					if setupOps == nil {
						w, _ = crowdInit()
					} else {
						w = setup(eng.Config{}, setupOps...)
					}
					w.Peer = w.Restart()
					w.Peer.KV.Reverse = true
					return w, eng.NoGhost{}
				},
				Step: func(s *eng.Step) (eng.Ghost, error) {
					if d := s.W.Note["differs"]; d != "" {
						return s.Ghost, fmt.Errorf("%s", d)
					}
					if d := s.W.Peer.RawState(); d != s.PostRaw {
						return s.Ghost, fmt.Errorf("after %s, stored data depends on a restart: %s", s.Op.Name, eng.Diff(s.PostRaw, d))
					}
					n := s.W.Peer.Restart()
					n.KV.Reverse = false
					for _, p := range []*eng.World{s.W.Peer, n.Restart()} {
						if err := sameView(s.W, p, u, searches); err != nil {
							return s.Ghost, fmt.Errorf("%s: a restarted server %v", s.Op.Name, err)
						}
					}
					return s.Ghost, nil
				}}
		}
		LE := types.Capability_LOCK_ENTITY
		searches := []string{"*", "red", "e1", "g1"}
		u := eng.Universe{Entities: []string{"e1", "e2"}, Groups: []string{"g1", "g2", "g3"}}
		var mem []eng.Op
		for _, add := range []bool{true, false} {
			mem = append(mem, eng.Member(R, add, "e1", "g1"), eng.Member(R, add, "e1", "g2"), eng.Member(R, add, "e2", "g2"))
		}
		for _, p := range [][2]string{{"g1", "g2"}, {"g2", "g3"}, {"g3", "g1"}} {
			mem = append(mem, eng.Rule(R, p[0], p[1], rpb.RuleAction_INCLUDE), eng.Rule(R, p[0], p[1], rpb.RuleAction_EXCLUDE), eng.Rule(R, p[0], p[1], rpb.RuleAction_REMOVE_RULE))
		}
		for _, g := range []string{"g1", "g2"} {
			mem = append(mem, eng.GroupDestroy(R, g), eng.GroupCreate(R, g, "red", "", -1))
		}
		mem = append(mem, eng.EntityDestroy(R, "e1"), eng.EntityCreate(R, "e1", -1, "a"), eng.Capability(R, false, "g1", rpb.Action_ADD, LE), eng.EntityLock(R, "e2"))
		base := []eng.Op{eng.GroupCreate(R, "g1", "", "", -1), eng.GroupCreate(R, "g2", "", "", -1), eng.GroupCreate(R, "g3", "", "", -1), eng.EntityCreate(R, "e1", -1, "a"), eng.EntityCreate(R, "e2", -1, "b")}
		return []eng.Spec{
			mk("many of everything", 1, crowdUniverse(), searches, crowdOps()),
			mk("every request", r.Pick(2, 3), effectUniverse(), searches, effectOps(), effectSetup()...),
			mk("memberships", r.Pick(3, 5), u, searches, mem, base...),
		}
	}})
}
