package main

import (
	"fmt"
	"strings"

	"google.golang.org/grpc/codes"

	"github.com/netauth/netauth/internal/zverif/eng"

	"github.com/golang/protobuf/proto"
	types "github.com/netauth/protocol"
	rpb "github.com/netauth/protocol/v2"
)

// authProbe tries every identity with every candidate secret and compares
// the answers with the account book.
func authProbe(w *eng.World, a accounts, ids, secrets []string) error {
	var refusal *eng.Res
	for _, id := range ids {
		for _, s := range secrets {
			want := a.authOK(id, s)
			ra := eng.Auth(id, s).Do(w)
			rt := eng.GetToken(id, s).Do(w)
			for i, r := range []eng.Res{ra, rt} {
				call := []string{"AuthEntity", "AuthGetToken"}[i]
				if r.OK() != want {
					x, ok := a[id]
					return fmt.Errorf("%s(%q,%q) answered %s; exists=%v locked=%v, secret most recently set %q", call, id, s, r.Code, ok, x.locked, x.secret)
				}
				if !want {
					if refusal == nil {
						c := r
						refusal = &c
					}
					if r.Code != codes.Unauthenticated || r.Code != refusal.Code || r.Msg != refusal.Msg {
						return fmt.Errorf("%s(%q,%q) is refused with %s %q, another failed authentication with %s %q", call, id, s, r.Code, r.Msg, refusal.Code, refusal.Msg)
					}
					if i == 1 && r.Data != "" {
						return fmt.Errorf("AuthGetToken(%q,%q) was refused but returned a token", id, s)
					}
				}
			}
			if want {
				c, err := w.Token.Validate(rt.Data)
				if err != nil || c.EntityID != id {
					return fmt.Errorf("AuthGetToken(%q,%q) returned a token for %q (%v)", id, s, c.EntityID, err)
				}
			}
		}
	}
	return nil
}

// oddLike lists what is close to a secret without being it.
func oddLike(s string) []string {
	return []string{s + "\n", s + "\r\n", s + " ", " " + s, "\t" + s, s + "\x00", "\x00" + s, s + s, s + "\x00" + s, s + ":", ":" + s, strings.ToUpper(s), "\"" + s + "\""}
}

// oddSecrets has secrets that are easily taken for each other set in every
// way, and presents all of them.
func oddSecrets(r *eng.Run) eng.Spec {
	long := strings.Repeat("p", 72)
	set := append([]string{"a", "é", "e\u0301", long, long + "p", long + "q", strings.Repeat("p", 71), "%61", "a%00", "\\n", "\n", " ", "root:a"}, oddLike("a")...)
	probe := append(append([]string{"", "p", "e"}, set...), oddLike(long)...)
	var ops []eng.Op
	for _, s := range set {
		ops = append(ops,
			eng.EntityCreate(eng.AsRoot, "e2", -1, s).With(created("e2", s)),
			eng.ChangeSecret(eng.AsRoot, "root", "e1", "", s).With(secretSet("e1", s)))
	}
	for _, old := range set {
		for _, s := range []string{"a", "a\n", long + "p"} {
			old, s := old, s
			ops = append(ops, eng.ChangeSecret(eng.As("e1"), "e1", "e1", old, s).With(ownChange{"e1", old, s}))
		}
	}
	ops = append(ops, eng.Restart())
	return eng.Spec{Name: "odd secrets", NoObs: true, Ops: ops, Depth: r.Pick(2, 3),
		Init: func() (*eng.World, eng.Ghost) {
			return setup(eng.Config{}, eng.EntityCreate(eng.AsRoot, "e1", -1, "a")), accounts{"e1": {secret: "a"}}
		},
		Step: func(s *eng.Step) (eng.Ghost, error) {
			if o, ok := s.Op.Tag.(ownChange); ok {
				a := s.Ghost.(accounts)
				if want := a.authOK(o.id, o.old); want != s.Res.OK() {
					return a, fmt.Errorf("%s answered %s; the present secret is %q", s.Op.Name, s.Res.Code, a[o.id].secret)
				} else if want {
					return secretSet(o.id, o.next)(a), nil
				}
				return a, nil
			}
			return accountStep(s), nil
		},
		State: func(w *eng.World, _ *eng.Obs, g eng.Ghost) error {
			return authProbe(w, g.(accounts), []string{"e1", "e2"}, probe)
		}}
}

type ownChange struct{ id, old, next string }

func init() {
	ids := []string{"e1", "e2", "nobody", "", "E1", "e", "e1 "}
	register(&eng.Check{ID: "C01", Level: "model_checking", Specs: func(r *eng.Run) []eng.Spec {
		var ops []eng.Op
		for _, id := range []string{"e1"} {
			for _, s := range []string{"", "a", "b"} {
				ops = append(ops, eng.EntityCreate(eng.AsRoot, id, -1, s).With(created(id, s)))
				ops = append(ops, eng.ChangeSecret(eng.AsRoot, "root", id, "", s).With(secretSet(id, s)))
			}
			ops = append(ops,
				eng.EntityDestroy(eng.AsRoot, id).With(destroyed(id)),
				eng.EntityLock(eng.AsRoot, id).With(locked(id, true)),
				eng.EntityUnlock(eng.AsRoot, id).With(locked(id, false)),
				eng.ChangeSecret(eng.As(id), id, id, "a", "b").With(secretSet(id, "b")),
				eng.ChangeSecret(eng.As(id), id, id, "b", "").With(secretSet(id, "")),
				eng.ChangeSecret(eng.As(id), id, id, "", "b").With(secretSet(id, "b")),
				eng.EntityUpdate(eng.AsRoot, id, "GECOS,unlocked", func() *types.EntityMeta {
					return &types.EntityMeta{GECOS: eng.S("x"), Locked: proto.Bool(false)}
				}),
				eng.EntityUpdate(eng.AsRoot, id, "locked", func() *types.EntityMeta {
					return &types.EntityMeta{Locked: proto.Bool(true)}
				}),
				eng.EntityUpdate(eng.AsRoot, id, "no metadata", func() *types.EntityMeta { return nil }),
			)
		}
		ops = append(ops,
			eng.Auth("e1", "a"), eng.Auth("e1", "zz"), eng.GetToken("e1", "b"),
			eng.EntityCreate(eng.AsRoot, "e2", -1, "b").With(created("e2", "b")),
			eng.EntityDestroy(eng.AsRoot, "e2").With(destroyed("e2")),
			eng.EntityLock(eng.AsRoot, "e2").With(locked("e2", true)),
			eng.Member(eng.AsRoot, true, "e1", "g1"),
			eng.Capability(eng.AsRoot, true, "e1", rpb.Action_ADD, types.Capability_LOCK_ENTITY),
			eng.EntityUM(eng.AsRoot, "e1", rpb.Action_UPSERT, "k", "v"),
			eng.EntityKeys(eng.AsRoot, "e1", rpb.Action_ADD, "SSH", "k1"),
			eng.KV2(eng.AsRoot, true, "Add", "e1", "k", "v"),
			eng.Restart(),
		)
		return []eng.Spec{{Name: "accounts", NoObs: true, Ops: ops, Depth: r.Pick(6, 8),
			Init: func() (*eng.World, eng.Ghost) {
				return setup(eng.Config{}, eng.GroupCreate(eng.AsRoot, "g1", "", "", -1), eng.EntityCreate(eng.AsRoot, "e1", -1, "a"), eng.EntityCreate(eng.AsRoot, "E1", -1, "b"), eng.EntityCreate(eng.AsRoot, "e1 ", -1, "ab")), accounts{"e1": {secret: "a"}, "E1": {secret: "b"}, "e1 ": {secret: "ab"}}
			},
			Step: func(s *eng.Step) (eng.Ghost, error) { return accountStep(s), nil },
			State: func(w *eng.World, _ *eng.Obs, g eng.Ghost) error {
				return authProbe(w, g.(accounts), ids, []string{"", "a", "b", "A", "ab", "hash(a)", "hash()", "<REDACTED>"})
			}}, oddSecrets(r)}
	}})

	// C02: who may change a secret.
	type who struct {
		name   string
		caller eng.Caller
		id     string
		cap    bool
		valid  bool
	}
	callers := []who{
		{"nobody", eng.Anon, "", false, false},
		{"bad token", func(*eng.World) eng.Context { return eng.Ctx("bogus") }, "", false, false},
		{"e1", eng.As("e1"), "e1", false, true},
		{"e1+CHANGE_ENTITY_SECRET", eng.As("e1", types.Capability_CHANGE_ENTITY_SECRET), "e1", true, true},
		{"e1+GLOBAL_ROOT", eng.As("e1", types.Capability_GLOBAL_ROOT), "e1", true, true},
		{"e2", eng.As("e2"), "e2", false, true},
		{"e2+CHANGE_ENTITY_SECRET", eng.As("e2", types.Capability_CHANGE_ENTITY_SECRET), "e2", true, true},
		{"e2+all others", eng.As("e2", without(types.Capability_CHANGE_ENTITY_SECRET)...), "e2", false, true},
		{"root", eng.AsRoot, "root-operator", true, true},
		{"E1", eng.As("E1"), "E1", false, true},
		{"'e1 '", eng.As("e1 "), "e1 ", false, true},
		{"e", eng.As("e"), "e", false, true},
	}
	type req struct {
		who
		target, cur, next string
	}
	register(&eng.Check{ID: "C02", Level: "model_checking", Specs: func(r *eng.Run) []eng.Spec {
		var ops []eng.Op
		for _, c := range callers {
			for _, t := range []string{"e1", "e2", "nobody"} {
				curs := []string{"", "a", "b", "hash(a)", "<REDACTED>"}
				if c.id == "e1" && t == "e1" {
					curs = append(curs, oddLike("a")...)
				}
				if c.id != t {
					curs = []string{"", "a"}
				}
				for _, cur := range curs {
					for _, nx := range []string{"a", "b", "c"} {
						if nx != "b" && len(cur) > 1 || nx == "c" && cur != "a" {
							continue
						}
						ops = append(ops, eng.ChangeSecret(c.caller, c.name, t, cur, nx).With(req{c, t, cur, nx}))
					}
				}
			}
		}
		ops = append(ops,
			eng.ChangeSecret(eng.AsRoot, "root", "e1", "", "").With(req{callers[8], "e1", "", ""}),
			eng.EntityLock(eng.AsRoot, "e1").With(locked("e1", true)),
			eng.EntityUnlock(eng.AsRoot, "e1").With(locked("e1", false)),
			eng.EntityDestroy(eng.AsRoot, "e1").With(destroyed("e1")),
			eng.EntityCreate(eng.AsRoot, "e1", -1, "").With(created("e1", "")),
			eng.Restart())
		u := eng.Universe{Entities: []string{"e1", "e2"}}
		return []eng.Spec{{Name: "change", U: u, Ops: ops, Depth: r.Pick(6, 9),
			Init: func() (*eng.World, eng.Ghost) {
				return setup(eng.Config{}, eng.EntityCreate(eng.AsRoot, "e1", -1, "a"), eng.EntityCreate(eng.AsRoot, "e2", -1, "b")), accounts{"e1": {secret: "a"}, "e2": {secret: "b"}}
			},
			Step: func(s *eng.Step) (eng.Ghost, error) {
				q, ok := s.Op.Tag.(req)
				if !ok {
					return accountStep(s), nil
				}
				a := s.Ghost.(accounts)
				_, exists := a[q.target]
				want := q.valid && exists
				if want && q.id == q.target {
					want = a.authOK(q.target, q.cur)
				} else if want {
					want = q.cap
				}
				if s.Res.OK() != want {
					return a, fmt.Errorf("%s answered %s; the present secret of %q is %q (exists=%v locked=%v)", s.Op.Name, s.Res.Code, q.target, a[q.target].secret, exists, a[q.target].locked)
				}
				if !want {
					return a, unchanged(s)
				}
				if d := eng.DiffAttrs(s.Pre.Attrs(), s.Post.Attrs()); len(d) > 0 {
					return a, fmt.Errorf("%s also changed %v", s.Op.Name, d)
				}
				return secretSet(q.target, q.next)(a), nil
			},
			State: func(w *eng.World, _ *eng.Obs, g eng.Ghost) error {
				return authProbe(w, g.(accounts), []string{"e1", "e2"}, []string{"", "a", "b", "c"})
			}}}
	}})
}
