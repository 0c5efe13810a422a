package main

import (
	"fmt"
	"strings"

	"github.com/netauth/netauth/internal/zverif/eng"

	types "github.com/netauth/protocol"
	rpb "github.com/netauth/protocol/v2"
)

// twin performs an operation on both servers of a pair that differ only in
// the secrets of their entities.
func twin(a, b eng.Op) eng.Op {
	da, db := a.Do, b.Do
	a.Do = func(w *eng.World) eng.Res {
		r := da(w)
		q := db(w.Peer)
		if r != q {
			w.Note["differs"] = fmt.Sprintf("%s answered %s %q and, for another secret, %s %q", a.Name, r, r.Msg, q, q.Msg)
		}
		return r
	}
	return a
}

func both(o eng.Op) eng.Op { return twin(o, o) }

func init() {
	searches := []string{"alpha", "gamma", "secret:alpha", "Secret:alpha", "secret:hash", "secret:al*", "secret:/al.*/", "al*", "/al.*/", "alpha~1", "\"hash alpha\"", "hash", "+hash -beta", "secret:*", "*", "e1", "secret:<zzz", "secret:redacted"}
	secretsOf := [][2]string{{"alpha", "beta"}, {"gamma", "delta"}}
	register(&eng.Check{ID: "C08", Level: "model_checking", Specs: func(r *eng.Run) []eng.Spec {
		var ops []eng.Op
		for _, id := range []string{"e1", "e2"} {
			for _, s := range secretsOf {
				ops = append(ops, twin(eng.EntityCreate(R, id, -1, s[0]), eng.EntityCreate(R, id, -1, s[1])),
					twin(eng.ChangeSecret(R, "root", id, "", s[0]), eng.ChangeSecret(R, "root", id, "", s[1])),
					twin(eng.Auth(id, s[0]), eng.Auth(id, s[1])))
			}
		}
		own := twin(eng.ChangeSecret(eng.As("e1"), "e1", "e1", "alpha", "gamma"), eng.ChangeSecret(eng.As("e1"), "e1", "e1", "beta", "delta"))
		ops = append(ops, own, both(eng.EntityDestroy(R, "e1")), both(eng.EntityLock(R, "e1")), both(eng.EntityUnlock(R, "e1")),
			both(eng.EntityUpdate(R, "e1", "every field", fullMeta)), both(eng.Member(R, true, "e1", "g1")), both(eng.EntityUM(R, "e1", rpb.Action_UPSERT, "k", "v")),
			both(eng.Capability(R, true, "e1", rpb.Action_ADD, types.Capability_LOCK_ENTITY)),
			both(eng.EntityUpdate(R, "e1", "a secret in the update", func() *types.EntityMeta { return &types.EntityMeta{DisplayName: eng.S("dn")} })),
			eng.Op{Name: "Restart", Do: func(w *eng.World) eng.Res { w.Become(w.Restart()); return eng.Res{} }})
		initf := func() (*eng.World, eng.Ghost) {
			w := eng.NewWorld(eng.Config{})
			w.Peer = eng.NewWorld(eng.Config{})
			for _, o := range []eng.Op{both(eng.GroupCreate(R, "g1", "", "", -1)), twin(eng.EntityCreate(R, "e1", -1, "alpha"), eng.EntityCreate(R, "e1", -1, "beta"))} {
				if r := o.Do(w); !r.OK() {
					eng.SetupTrouble(o.Name + ": " + r.String())
				}
			}
			return w, eng.NoGhost{}
		}
		return []eng.Spec{{Name: "pair of servers", NoObs: true, Ops: ops, Depth: r.Pick(4, 5), Init: initf,
			Step: func(s *eng.Step) (eng.Ghost, error) {
				if d := s.W.Note["differs"]; d != "" {
					return s.Ghost, fmt.Errorf("%s", d)
				}
				return s.Ghost, nil
			},
			State: func(w *eng.World, _ *eng.Obs, _ eng.Ghost) error {
				ents, grps := []string{"e1", "e2"}, []string{"g1"}
				a, b := readEverything(w, ents, grps, searches), readEverything(w.Peer, ents, grps, searches)
				for i := range a {
					for _, x := range []string{"alpha", "gamma", "hash("} {
						if strings.Contains(a[i].Text, x) {
							return fmt.Errorf("%s reveals a stored secret: %s", a[i].Call, strings.ReplaceAll(a[i].Text, "\n", " "))
						}
					}
					if a[i] != b[i] {
						return fmt.Errorf("%s answers differently depending on a stored secret: %s", a[i].Call, eng.Diff(a[i].Text, b[i].Text))
					}
				}
				return nil
			}}}
	}})
}
