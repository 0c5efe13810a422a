package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/netauth/netauth/internal/zverif/eng"

	rpb "github.com/netauth/protocol/v2"
)

// refMember is the reference meaning of effective membership, computed from
// nothing but direct memberships and rules: a member directly or through an
// included group, and in no excluded group.  A rule naming a group that does
// not exist contributes nothing.
func refMember(o *eng.Obs, ent, grp string, depth int) bool {
	g, ok := o.Grps[grp]
	if !ok || depth > 200 {
		return false
	}
	in := false
	for _, x := range o.Ents[ent].Groups {
		if x == grp {
			in = true
		}
	}
	var exc []string
	for _, r := range g.Rules {
		p := strings.SplitN(r, ":", 2)
		switch p[0] {
		case "INCLUDE":
			in = in || refMember(o, ent, p[1], depth+1)
		case "EXCLUDE":
			exc = append(exc, p[1])
		}
	}
	if !in {
		return false
	}
	for _, x := range exc {
		if refMember(o, ent, x, depth+1) {
			return false
		}
	}
	return true
}

func membershipState(o *eng.Obs) error {
	for grp := range o.Grps {
		want := []string{}
		for id := range o.Ents {
			if refMember(o, id, grp, 0) {
				want = append(want, id)
			}
		}
		sort.Strings(want)
		if !reflect.DeepEqual(want, o.Members[grp]) {
			return fmt.Errorf("members of %q are %q; the stored rules and direct memberships say %q\n%s", grp, o.Members[grp], want, o)
		}
	}
	for id := range o.Ents {
		want := []string{}
		for grp := range o.Grps {
			if refMember(o, id, grp, 0) {
				want = append(want, grp)
			}
		}
		sort.Strings(want)
		if !reflect.DeepEqual(want, o.GroupsOf[id]) {
			return fmt.Errorf("groups of %q are %q; the stored rules and direct memberships say %q\n%s", id, o.GroupsOf[id], want, o)
		}
	}
	return nil
}

func init() {
	register(&eng.Check{ID: "C11", Level: "model_checking", Specs: func(r *eng.Run) []eng.Spec {
		gs := []string{"g1", "g2", "g3"}
		u := eng.Universe{Entities: []string{"e1", "e2"}, Groups: gs}
		var ops []eng.Op
		for _, a := range gs {
			for _, b := range gs {
				if a != b {
					ops = append(ops, eng.Rule(eng.AsRoot, a, b, rpb.RuleAction_INCLUDE), eng.Rule(eng.AsRoot, a, b, rpb.RuleAction_EXCLUDE))
				}
				ops = append(ops, eng.Rule(eng.AsRoot, a, b, rpb.RuleAction_REMOVE_RULE))
			}
			ops = append(ops, eng.Member(eng.AsRoot, true, "e1", a), eng.Member(eng.AsRoot, false, "e1", a))
			ops = append(ops, eng.GroupDestroy(eng.AsRoot, a), eng.GroupCreate(eng.AsRoot, a, "", "", -1))
		}
		ops = append(ops, eng.Member(eng.AsRoot, true, "e2", "g1"), eng.EntityDestroy(eng.AsRoot, "e1"), eng.EntityCreate(eng.AsRoot, "e1", -1, "s"), eng.Restart())
		init := func() (*eng.World, eng.Ghost) {
			w := eng.NewWorld(eng.Config{})
			for _, g := range gs {
				eng.GroupCreate(eng.AsRoot, g, "", "", -1).Do(w)
			}
			eng.EntityCreate(eng.AsRoot, "e1", -1, "s").Do(w)
			eng.EntityCreate(eng.AsRoot, "e2", -1, "s").Do(w)
			return w, eng.NoGhost{}
		}
		return []eng.Spec{crowdSpec(func(w *eng.World, o *eng.Obs) error { return membershipState(o) }), {Name: "look-alike names", U: alikeUniverse(), Ops: alikeOps(), Depth: r.Pick(2, 3), Init: initOps(alikeSetup()...),
			State: func(w *eng.World, o *eng.Obs, g eng.Ghost) error { return membershipState(o) }}, {Name: "rules", U: u, Ops: ops, Init: init, Depth: r.Pick(4, 6),
			State: func(w *eng.World, o *eng.Obs, g eng.Ghost) error { return membershipState(o) }}}
	}})
}
