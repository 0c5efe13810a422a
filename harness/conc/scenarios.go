package main

import (
	"github.com/netauth/netauth/internal/zverif/eng"

	types "github.com/netauth/protocol"
	rpb "github.com/netauth/protocol/v2"
)

var root = eng.AsRoot

const lockCap = types.Capability_LOCK_ENTITY

var universe = eng.Universe{Entities: []string{"e1", "e2", "e3", "e4"}, Groups: []string{"g1", "g2", "g3", "g4"}}

// full is a state in which every operation would succeed.
func full() []eng.Op {
	return []eng.Op{
		eng.GroupCreate(root, "g2", "Second", "", -1),
		eng.GroupCreate(root, "g1", "First", "", -1),
		eng.EntityCreate(root, "e1", -1, "a"),
		eng.EntityCreate(root, "e2", -1, "b"),
		eng.Member(root, true, "e1", "g2"),
		eng.Member(root, true, "e2", "g1"),
		eng.EntityUM(root, "e1", rpb.Action_UPSERT, "um", "1"),
		eng.GroupUM(root, "g1", rpb.Action_UPSERT, "um", "1"),
		eng.EntityKeys(root, "e1", rpb.Action_ADD, "SSH", "k1"),
		eng.KV2(root, true, "Add", "e1", "k", "v"),
		eng.KV2(root, false, "Add", "g1", "k", "v"),
		eng.Capability(root, true, "e1", rpb.Action_ADD, types.Capability_UNLOCK_ENTITY),
		eng.Capability(root, false, "g1", rpb.Action_ADD, types.Capability_UNLOCK_ENTITY),
	}
}

func info(id string) eng.Op {
	return eng.Op{Name: "EntityInfo(" + id + ")", Do: func(w *eng.World) eng.Res {
		r, err := w.Srv.EntityInfo(eng.Ctx(""), &rpb.EntityRequest{Entity: &types.Entity{ID: eng.S(id)}})
		return eng.R(err, eng.Render(r, nil))
	}}
}

func ginfo(n string) eng.Op {
	return eng.Op{Name: "GroupInfo(" + n + ")", Do: func(w *eng.World) eng.Res {
		r, err := w.Srv.GroupInfo(eng.Ctx(""), &rpb.GroupRequest{Group: &types.Group{Name: eng.S(n)}})
		return eng.R(err, eng.Render(r, nil))
	}}
}

// hollow marks a listing with an entry that names nothing.
const hollow = "an entry that names nothing"

func blankE(l []*types.Entity) string {
	for _, e := range l {
		if e.GetID() == "" {
			return hollow
		}
	}
	return ""
}

func blankG(l []*types.Group) string {
	for _, g := range l {
		if g.GetName() == "" {
			return hollow
		}
	}
	return ""
}

func members(n string) eng.Op {
	return eng.Op{Name: "GroupMembers(" + n + ")", Do: func(w *eng.World) eng.Res {
		r, err := w.Srv.GroupMembers(eng.Ctx(""), &rpb.GroupRequest{Group: &types.Group{Name: eng.S(n)}})
		return eng.R(err, eng.Render(r, nil), blankE(r.GetEntities()))
	}}
}

func groupsOf(id string) eng.Op {
	return eng.Op{Name: "EntityGroups(" + id + ")", Do: func(w *eng.World) eng.Res {
		r, err := w.Srv.EntityGroups(eng.Ctx(""), &rpb.EntityRequest{Entity: &types.Entity{ID: eng.S(id)}})
		return eng.R(err, eng.Render(r, nil), blankG(r.GetGroups()))
	}}
}

func search(group bool, e string) eng.Op {
	n := "EntitySearch"
	if group {
		n = "GroupSearch"
	}
	return eng.Op{Name: n + "(" + e + ")", Do: func(w *eng.World) eng.Res {
		q := &rpb.SearchRequest{Expression: eng.S(e)}
		if group {
			r, err := w.Srv.GroupSearch(eng.Ctx(""), q)
			return eng.R(err, eng.Render(r, nil), blankG(r.GetGroups()))
		}
		r, err := w.Srv.EntitySearch(eng.Ctx(""), q)
		return eng.R(err, eng.Render(r, nil), blankE(r.GetEntities()))
	}}
}

func gecos(v string) eng.Op {
	return eng.EntityUpdate(root, "e1", "GECOS="+v, func() *types.EntityMeta { return &types.EntityMeta{GECOS: eng.S(v)} })
}

func shell(v string) eng.Op {
	return eng.EntityUpdate(root, "e1", "Shell="+v, func() *types.EntityMeta { return &types.EntityMeta{Shell: eng.S(v)} })
}

func entityOps() []eng.Op {
	self := eng.As("e1")
	return []eng.Op{
		eng.EntityCreate(root, "e1", -1, "z"),
		eng.EntityCreate(root, "e3", -1, "z"),
		eng.EntityCreate(root, "e4", -1, "z"),
		eng.EntityCreate(root, "e4", 3, "z"),
		eng.EntityDestroy(root, "e1"),
		eng.EntityDestroy(root, "e2"),
		eng.EntityLock(root, "e1"),
		eng.EntityUnlock(root, "e1"),
		gecos("x"),
		shell("y"),
		eng.ChangeSecret(root, "root", "e1", "", "n1"),
		eng.ChangeSecret(self, "itself", "e1", "a", "n2"),
		eng.ChangeSecret(self, "itself", "e1", "a", "n3"),
		eng.Auth("e1", "a"),
		eng.EntityUM(root, "e1", rpb.Action_UPSERT, "x", "2"),
		eng.EntityUM(root, "e1", rpb.Action_CLEAREXACT, "um", ""),
		eng.EntityKeys(root, "e1", rpb.Action_ADD, "SSH", "k2"),
		eng.EntityKeys(root, "e1", rpb.Action_DROP, "SSH", "k1"),
		eng.KV2(root, true, "Add", "e1", "n", "v"),
		eng.KV2(root, true, "Replace", "e1", "k", "w"),
		eng.KV2(root, true, "Del", "e1", "k"),
		eng.Member(root, true, "e1", "g1"),
		eng.Member(root, false, "e1", "g2"),
		eng.Capability(root, true, "e1", rpb.Action_ADD, lockCap),
		eng.Capability(root, true, "e1", rpb.Action_DROP, types.Capability_UNLOCK_ENTITY),
		info("e1"),
	}
}

func display(n, v string) eng.Op {
	return eng.GroupUpdate(root, n, "display="+v, func() *types.Group { return &types.Group{DisplayName: eng.S(v)} })
}

func managed(n, v string) eng.Op {
	return eng.GroupUpdate(root, n, "managedby="+v, func() *types.Group { return &types.Group{ManagedBy: eng.S(v)} })
}

func groupOps() []eng.Op {
	in, ex, rm := rpb.RuleAction_INCLUDE, rpb.RuleAction_EXCLUDE, rpb.RuleAction_REMOVE_RULE
	return []eng.Op{
		eng.GroupCreate(root, "g1", "again", "", -1),
		eng.GroupCreate(root, "g3", "third", "", -1),
		eng.GroupCreate(root, "g4", "fourth", "g1", -1),
		eng.GroupCreate(root, "g4", "fourth", "", 3),
		eng.GroupDestroy(root, "g1"),
		eng.GroupDestroy(root, "g2"),
		display("g1", "x"),
		managed("g1", "g2"),
		eng.Rule(root, "g1", "g2", in),
		eng.Rule(root, "g2", "g1", in),
		eng.Rule(root, "g1", "g2", ex),
		eng.Rule(root, "g2", "g1", rm),
		eng.GroupUM(root, "g1", rpb.Action_UPSERT, "x", "2"),
		eng.GroupUM(root, "g1", rpb.Action_CLEAREXACT, "um", ""),
		eng.KV2(root, false, "Add", "g1", "n", "v"),
		eng.KV2(root, false, "Replace", "g1", "k", "w"),
		eng.KV2(root, false, "Del", "g1", "k"),
		eng.Capability(root, false, "g1", rpb.Action_ADD, lockCap),
		eng.Capability(root, false, "g1", rpb.Action_DROP, types.Capability_UNLOCK_ENTITY),
		ginfo("g1"),
	}
}

// pairs lists every unordered pair of operations, including an operation
// with itself.
func pairs(name string, setup []eng.Op, ops []eng.Op, linear bool) []*scenario {
	var out []*scenario
	for i := range ops {
		for j := i; j < len(ops); j++ {
			out = append(out, &scenario{name: name, setup: setup, threads: [][]eng.Op{{ops[i]}, {ops[j]}}, u: universe, linear: linear})
		}
	}
	return out
}

func triples(name string, setup []eng.Op, ops []eng.Op, linear bool) []*scenario {
	var out []*scenario
	for i := range ops {
		for j := i; j < len(ops); j++ {
			for k := j; k < len(ops); k++ {
				out = append(out, &scenario{name: name, setup: setup, threads: [][]eng.Op{{ops[i]}, {ops[j]}, {ops[k]}}, u: universe, linear: linear})
			}
		}
	}
	return out
}

// against runs a sequence next to each operation.
func against(name string, setup []eng.Op, seq []eng.Op, ops []eng.Op, linear bool) []*scenario {
	var out []*scenario
	for i := range ops {
		out = append(out, &scenario{name: name, setup: setup, threads: [][]eng.Op{seq, {ops[i]}}, u: universe, linear: linear})
	}
	return out
}

func pick(ops []eng.Op, idx ...int) []eng.Op {
	var o []eng.Op
	for _, i := range idx {
		o = append(o, ops[i])
	}
	return o
}

func init() {
	two := func(q, t int) func(bool) int {
		return func(th bool) int {
			if th {
				return t
			}
			return q
		}
	}
	families["C20"] = &family{id: "C20", bound: two(3, 4), mk: func(th bool) []*scenario {
		ops := entityOps()
		out := pairs("two requests", full(), ops, true)
		cyc := []eng.Op{eng.EntityDestroy(root, "e1"), eng.EntityCreate(root, "e1", -1, "a")}
		out = append(out, against("destroyed and made again", full(), cyc, ops, true)...)
		out = append(out, triples("three requests", full(), pick(ops, 1, 2, 4, 8), true)...)
		for _, e := range ops {
			for _, g := range groupOps() {
				out = append(out, &scenario{name: "an entity and a group request", setup: full(), threads: [][]eng.Op{{e}, {g}}, u: universe, linear: true})
			}
		}
		if th {
			out = append(out, triples("three requests", full(), pick(ops, 0, 1, 5, 6, 10, 11, 13, 14, 16, 18, 21, 23, 25), true)...)
		}
		return out
	}}
	families["C21"] = &family{id: "C21", bound: two(3, 4), mk: func(th bool) []*scenario {
		ops := groupOps()
		out := pairs("two requests", full(), ops, true)
		cyc := []eng.Op{eng.GroupDestroy(root, "g1"), eng.GroupCreate(root, "g1", "", "", -1)}
		out = append(out, against("destroyed and made again", full(), cyc, ops, true)...)
		out = append(out, triples("three requests", full(), pick(ops, 1, 2, 4, 8, 9), true)...)
		if th {
			out = append(out, triples("three requests", full(), pick(ops, 0, 1, 5, 6, 7, 10, 11, 12, 14, 17, 19), true)...)
		}
		return out
	}}
	families["C22"] = &family{id: "C22", race: true, bound: two(3, 4), mk: func(th bool) []*scenario {
		in, rm := rpb.RuleAction_INCLUDE, rpb.RuleAction_REMOVE_RULE
		ents := []eng.Op{
			eng.EntityCreate(root, "e3", -1, "z"),
			eng.EntityDestroy(root, "e1"),
			gecos("red"),
			eng.Member(root, true, "e1", "g1"),
			eng.Member(root, false, "e1", "g2"),
			eng.Member(root, true, "e2", "g1", "g2"),
			eng.Auth("e1", "a"),
		}
		grps := []eng.Op{
			eng.GroupCreate(root, "g3", "red", "", -1),
			eng.GroupDestroy(root, "g1"),
			eng.GroupDestroy(root, "g2"),
			display("g1", "red"),
			eng.Rule(root, "g1", "g2", in),
			eng.Rule(root, "g2", "g1", in),
			eng.Rule(root, "g1", "g2", rm),
			eng.Capability(root, false, "g2", rpb.Action_ADD, lockCap),
		}
		reads := []eng.Op{
			members("g1"), groupsOf("e1"), search(false, "red"), search(true, "red"), eng.GetToken("e1", "a"), info("e1"), ginfo("g1"),
		}
		all := append(append(append([]eng.Op{}, ents...), grps...), reads...)
		out := pairs("two requests", full(), all, false)
		sub := append(append([]eng.Op{}, pick(ents, 1, 3)...), pick(grps, 1, 4)...)
		sub = append(sub, pick(reads, 0, 1, 2, 4)...)
		// Readers and writers of both kinds at once.
		quad := func(l ...eng.Op) {
			sc := &scenario{name: "four requests", setup: full(), u: universe, limit: 2}
			for _, o := range l {
				sc.threads = append(sc.threads, []eng.Op{o})
			}
			out = append(out, sc)
		}
		quad(members("g1"), groupsOf("e1"), gecos("red"), display("g1", "red"))
		quad(members("g1"), groupsOf("e1"), eng.EntityDestroy(root, "e2"), eng.GroupDestroy(root, "g2"))
		quad(search(false, "red"), search(true, "red"), gecos("red"), display("g1", "red"))
		if th {
			quad(members("g1"), eng.GetToken("e1", "a"), eng.Member(root, true, "e1", "g1"), eng.Rule(root, "g1", "g2", in))
			quad(groupsOf("e1"), groupsOf("e1"), eng.EntityCreate(root, "e3", -1, "z"), eng.GroupCreate(root, "g3", "red", "", -1))
			out = append(out, triples("three requests", full(), sub, false)...)
			for _, s := range pairs("maps walked backwards", full(), all, false) {
				s.back = true
				out = append(out, s)
			}
		}
		return out
	}}
}
