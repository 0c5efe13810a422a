package main

import (
	"fmt"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"

	"github.com/netauth/netauth/internal/zverif/eng"

	"github.com/golang/protobuf/proto"
	types "github.com/netauth/protocol"
	rpb "github.com/netauth/protocol/v2"
)

// authority is the verdict a mutating request must meet.
type authority struct {
	allowed bool
	caller  string
	token   string
}

func capNames(c []types.Capability) string {
	if len(c) == 0 {
		return "no capability"
	}
	if len(c) > 3 {
		return fmt.Sprintf("all %d others", len(c))
	}
	return fmt.Sprint(c)
}

func authorityStep(s *eng.Step) (eng.Ghost, error) {
	a, ok := s.Op.Tag.(authority)
	if !ok {
		return s.Ghost, nil
	}
	if !a.allowed {
		if s.Res.OK() {
			return s.Ghost, fmt.Errorf("%s by %s was carried out", s.Op.Name, a.caller)
		}
		return s.Ghost, unchanged(s)
	}
	switch s.Res.Code {
	case codes.PermissionDenied, codes.Unauthenticated, codes.InvalidArgument, codes.Unimplemented:
		return s.Ghost, fmt.Errorf("%s by %s was refused (%s)", s.Op.Name, a.caller, s.Res.Code)
	}
	return s.Ghost, nil
}

func init() {
	mkOps := func(r *eng.Run) []eng.Op {
		var ops []eng.Op
		add := func(m rpc, name string, c eng.Caller, ok bool) {
			o := m.mk(c)
			base := o.Name
			ops = append(ops, o.Named("%s by %s", base, name).With(authority{allowed: ok, caller: name}))
		}
		for _, m := range mutators() {
			m := m
			add(m, "a caller without token", eng.Anon, false)
			add(m, "a caller with an invalid token", func(*eng.World) eng.Context { return eng.Ctx("bogus") }, false)
			add(m, "a caller with a token in the wrong place", func(w *eng.World) eng.Context {
				return metadata.NewIncomingContext(eng.Background(), metadata.Pairs("token", w.Tok("x", types.Capability_GLOBAL_ROOT)))
			}, false)
			add(m, "a caller with two tokens", func(w *eng.World) eng.Context {
				return metadata.NewIncomingContext(eng.Background(), metadata.Pairs("authorization", w.Tok("mallory"), "authorization", w.Tok("x", types.Capability_GLOBAL_ROOT)))
			}, false)
			for _, c := range append([]types.Capability{-1}, allCaps...) {
				var l []types.Capability
				if c != -1 {
					l = append(l, c)
				}
				ok := c == m.need || c == types.Capability_GLOBAL_ROOT
				add(m, "mallory with "+capNames(l), eng.As("mallory", l...), ok)
			}
			add(m, "mallory with every other capability", eng.As("mallory", without(m.need)...), false)
			if m.self != "" {
				add(m, m.self+" itself with no capability", eng.As(m.self), true)
				for _, id := range []string{"E1", "e", "e10", "e1 ", " e1", ""} {
					add(m, fmt.Sprintf("%q (not the subject) with no capability", id), eng.As(id), false)
				}
				add(m, "e2 (not the subject) with every other capability", eng.As("e2", without(m.need)...), false)
			} else {
				add(m, "e1 itself with every other capability", eng.As("e1", without(m.need)...), false)
			}
		}
		// Malformed variants must not slip through either.
		for _, cp := range []eng.Op{
			{Name: "SystemCapabilities(no capability)", Do: func(w *eng.World) eng.Res {
				_, err := w.Srv.SystemCapabilities(eng.As("mallory", without()...)(w), &rpb.CapabilityRequest{Direct: proto.Bool(true), Target: eng.S("mallory"), Action: rpb.Action_ADD.Enum()})
				return eng.R(err)
			}},
			{Name: "EntityUM(odd action)", Do: func(w *eng.World) eng.Res {
				_, err := w.Srv.EntityUM(eng.Ctx(""), &rpb.KVRequest{Target: eng.S("e1"), Action: rpb.Action_ADD.Enum(), Key: eng.S("k"), Value: eng.S("v")})
				return eng.R(err)
			}},
			{Name: "EntityKeys(odd action)", Do: func(w *eng.World) eng.Res {
				_, err := w.Srv.EntityKeys(eng.Ctx(""), &rpb.KVRequest{Target: eng.S("e1"), Action: rpb.Action_UPSERT.Enum(), Key: eng.S("SSH"), Value: eng.S("v")})
				return eng.R(err)
			}},
			{Name: "GroupUM(odd action)", Do: func(w *eng.World) eng.Res {
				_, err := w.Srv.GroupUM(eng.Ctx(""), &rpb.KVRequest{Target: eng.S("g1"), Action: rpb.Action_DROP.Enum(), Key: eng.S("k"), Value: eng.S("v")})
				return eng.R(err)
			}},
		} {
			ops = append(ops, cp.With(authority{caller: "an unauthorised caller"}))
		}
		return ops
	}
	register(&eng.Check{ID: "C03", Level: "model_checking", Specs: func(r *eng.Run) []eng.Spec {
		return []eng.Spec{{Name: "matrix", NoObs: true, Ops: mkOps(r), Depth: r.Pick(3, 4), Init: initOps(populated("")...), Step: authorityStep}}
	}})

	// C05: a read-only server.
	register(&eng.Check{ID: "C05", Level: "model_checking", Specs: func(r *eng.Run) []eng.Spec {
		var specs []eng.Spec
		for _, managed := range []string{"", "mgr"} {
			var ops []eng.Op
			for _, m := range mutators() {
				for _, c := range []struct {
					n string
					c eng.Caller
				}{{"root", eng.AsRoot}, {"mallory with the capability", eng.As("mallory", m.need)}, {"mallory", eng.As("mallory")}, {"e1", eng.As("e1")}, {"manager", eng.As("boss")}, {"nobody", eng.Anon}} {
					o := m.mk(c.c)
					ops = append(ops, o.Named("%s by %s", o.Name, c.n).With(authority{caller: c.n}))
				}
			}
			ops = append(ops,
				eng.ChangeSecret(eng.As("e1"), "e1", "e1", "a", "n").With(authority{caller: "e1"}),
				eng.Auth("e1", "a"), eng.GetToken("e1", "a"), eng.Auth("e1", "wrong"), eng.Restart())
			pop := append(populated(managed), eng.EntityCreate(eng.AsRoot, "boss", -1, "x"), eng.Member(eng.AsRoot, true, "boss", "mgr"))
			specs = append(specs, eng.Spec{Name: "readonly managed=" + managed, NoObs: true, Ops: ops, Depth: 3,
				Init: func() (*eng.World, eng.Ghost) {
					w := setup(eng.Config{}, pop...)
					w.Cfg.ReadOnly = true
					return w.Restart(), eng.NoGhost{}
				},
				Step: func(s *eng.Step) (eng.Ghost, error) {
					if _, mut := s.Op.Tag.(authority); mut && s.Res.OK() {
						return s.Ghost, fmt.Errorf("a read-only server carried out %s", s.Op.Name)
					}
					if s.PreRaw != s.PostRaw {
						return s.Ghost, fmt.Errorf("stored data of a read-only server changed in %s: %s", s.Op.Name, eng.Diff(s.PreRaw, s.PostRaw))
					}
					if s.Op.Name == "AuthEntity(\"e1\",\"a\")" && !s.Res.OK() {
						return s.Ghost, fmt.Errorf("a read-only server refused a correct authentication: %s", s.Res.Code)
					}
					return s.Ghost, nil
				},
				State: func(w *eng.World, _ *eng.Obs, _ eng.Ghost) error {
					rw := *w
					rw.Cfg.ReadOnly = false
					n := rw.Restart()
					for _, s := range []string{"a", "wrong", ""} {
						for _, id := range []string{"e1", "e2", "boss", "nobody"} {
							if p, q := claims(w, id, s), claims(n, id, s); p != q {
								return fmt.Errorf("a read-only server answers a token request for %q with %s, a writable one with %s", id, p, q)
							}
						}
					}
					p := readEverything(w, []string{"e1", "e2", "boss", "nobody"}, []string{"g1", "g2", "mgr", "none"}, []string{"*", "e1", "g1"})
					q := readEverything(n, []string{"e1", "e2", "boss", "nobody"}, []string{"g1", "g2", "mgr", "none"}, []string{"*", "e1", "g1"})
					for i := range p {
						if p[i] != q[i] {
							return fmt.Errorf("%s on a read-only server answers %s", p[i].Call, eng.Diff(q[i].Text, p[i].Text))
						}
					}
					return nil
				}})
		}
		return specs
	}})
}
