package main

import (
	"fmt"

	"google.golang.org/grpc/codes"

	"github.com/netauth/netauth/internal/zverif/eng"

	"github.com/golang/protobuf/proto"
	types "github.com/netauth/protocol"
	rpb "github.com/netauth/protocol/v2"
)

// delegated is a request that only delegated management could permit.
type delegated struct {
	caller  string // "" when the token identifies nobody
	group   string
	never   bool // not something management is delegated for
	partial bool // names g1 and, after it, the unmanaged g2
}

// probeGhost marks histories that end with a judged request.
type probeGhost bool

func (p probeGhost) Key() string { return fmt.Sprint(bool(p)) }

func init() {
	R := eng.AsRoot
	u := eng.Universe{Entities: []string{"boss", "deputy", "e1", "other", "Boss"}, Groups: []string{"g1", "g2", "mgr", "sub", "bad", "MGR", "mg"}}
	manager := func(o *eng.Obs, who, grp string) bool {
		g, ok := o.Grps[grp]
		return ok && g.ManagedBy != "" && o.Ents[who] != nil && refMember(o, who, g.ManagedBy, 0)
	}
	register(&eng.Check{ID: "C04", Level: "model_checking", Specs: func(r *eng.Run) []eng.Spec {
		ops := []eng.Op{
			eng.Member(R, true, "boss", "mgr"), eng.Member(R, false, "boss", "mgr"),
			eng.Member(R, true, "boss", "bad"), eng.Member(R, true, "deputy", "sub"), eng.Member(R, true, "deputy", "g1"),
			eng.Rule(R, "mgr", "sub", rpb.RuleAction_INCLUDE), eng.Rule(R, "mgr", "sub", rpb.RuleAction_REMOVE_RULE),
			eng.Rule(R, "mgr", "bad", rpb.RuleAction_EXCLUDE),
			eng.GroupUpdate(R, "g1", "managed by sub", func() *types.Group { return &types.Group{ManagedBy: proto.String("sub")} }),
			eng.GroupUpdate(R, "g2", "managed by mgr", func() *types.Group { return &types.Group{ManagedBy: proto.String("mgr")} }),
			eng.GroupUpdate(R, "mgr", "managed by itself", func() *types.Group { return &types.Group{ManagedBy: proto.String("mgr")} }),
			eng.GroupUpdate(R, "mgr", "managed by bad", func() *types.Group { return &types.Group{ManagedBy: proto.String("bad")} }),
			eng.GroupDestroy(R, "mgr"), eng.EntityDestroy(R, "boss"), eng.EntityLock(R, "boss"), eng.Restart(),
		}
		for _, id := range []string{"boss", "deputy", "e1", "ghost", "other", "Boss", "", "anon", "invalid"} {
			id := id
			c := eng.As(id)
			who := id
			switch id {
			case "anon":
				c, who = eng.Anon, ""
			case "invalid":
				c, who = func(w *eng.World) eng.Context { return eng.Ctx("x" + w.Tok("boss")) }, ""
			case "e1":
				c = eng.As("e1", without(types.Capability_MODIFY_GROUP_META, types.Capability_MODIFY_GROUP_MEMBERS, types.Capability_DESTROY_GROUP)...)
			}
			add := func(o eng.Op, d delegated) {
				ops = append(ops, o.Named("%s by %s", o.Name, map[bool]string{true: "nobody", false: id}[id == ""]).With(d))
			}
			for _, g := range []string{"g1", "g2", "mgr"} {
				y, n := delegated{caller: who, group: g}, delegated{caller: who, group: g, never: true}
				add(eng.GroupUpdate(c, g, "display", func() *types.Group { return &types.Group{DisplayName: proto.String("by manager")} }), y)
				add(eng.Member(c, true, "e1", g), y)
				if g == "mgr" {
					continue
				}
				add(eng.GroupUM(c, g, rpb.Action_UPSERT, "k", "v"), y)
				add(eng.GroupUM(c, g, rpb.Action_CLEAREXACT, "k", ""), y)
				add(eng.GroupUM(c, g, rpb.Action_CLEARFUZZY, "k", ""), y)
				add(eng.Rule(c, g, "bad", rpb.RuleAction_INCLUDE), y)
				add(eng.Rule(c, g, "bad", rpb.RuleAction_EXCLUDE), y)
				add(eng.Rule(c, g, "bad", rpb.RuleAction_REMOVE_RULE), y)
				add(eng.Member(c, false, "deputy", g), y)
				add(eng.GroupDestroy(c, g), n)
				if id == "boss" {
					add(eng.KV2(c, false, "Add", g, "k", "v"), n)
					add(eng.Capability(c, false, g, rpb.Action_ADD, types.Capability_GLOBAL_ROOT), n)
					add(eng.EntityLock(c, "e1"), n)
					add(eng.GroupCreate(c, "fresh", "", g, -1), n)
				}
			}
			add(eng.Member(c, true, "e1", "g1", "g2"), delegated{caller: who, partial: true})
		}
		return []eng.Spec{{Name: "managed", U: u, Ops: ops, Depth: r.Pick(3, 5),
			Init: func() (*eng.World, eng.Ghost) {
				return setup(eng.Config{},
					eng.GroupCreate(R, "mgr", "", "", -1), eng.GroupCreate(R, "sub", "", "", -1), eng.GroupCreate(R, "bad", "", "", -1),
					eng.GroupCreate(R, "g1", "", "mgr", -1), eng.GroupCreate(R, "g2", "", "", -1),
					eng.EntityCreate(R, "boss", -1, "x"), eng.EntityCreate(R, "deputy", -1, "x"), eng.EntityCreate(R, "e1", -1, "x"), eng.EntityCreate(R, "Boss", -1, "x"), eng.EntityCreate(R, "other", -1, "x"),
					eng.GroupCreate(R, "MGR", "", "", -1), eng.GroupCreate(R, "mg", "", "", -1), eng.Member(R, true, "other", "MGR"), eng.Member(R, true, "other", "mg")), probeGhost(false)
			},
			Prune: func(_ *eng.Obs, g eng.Ghost) bool { return bool(g.(probeGhost)) },
			Step: func(s *eng.Step) (eng.Ghost, error) {
				d, ok := s.Op.Tag.(delegated)
				if !ok {
					return s.Ghost, nil
				}
				done := probeGhost(true)
				if d.partial {
					for _, g := range []string{"g1", "g2"} {
						if contains(s.Post.Ents["e1"].Groups, g) && !contains(s.Pre.Ents["e1"].Groups, g) && !manager(s.Pre, d.caller, g) {
							return done, fmt.Errorf("%s added to %q, which the caller does not manage", s.Op.Name, g)
						}
					}
					return done, nil
				}
				if d.never || !manager(s.Pre, d.caller, d.group) {
					if s.Res.OK() {
						return done, fmt.Errorf("%s was carried out; the group is managed by %q, whose members are %q", s.Op.Name, managedBy(s.Pre, d.group), s.Pre.Members[managedBy(s.Pre, d.group)])
					}
					return done, unchanged(s)
				}
				switch s.Res.Code {
				case codes.PermissionDenied, codes.Unauthenticated, codes.InvalidArgument, codes.Unimplemented:
					return done, fmt.Errorf("%s was refused (%s) although the caller belongs to the managing group %q", s.Op.Name, s.Res.Code, managedBy(s.Pre, d.group))
				}
				return done, nil
			}}}
	}})
}

func managedBy(o *eng.Obs, g string) string {
	if x, ok := o.Grps[g]; ok {
		return x.ManagedBy
	}
	return ""
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
