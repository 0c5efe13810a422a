package main

import (
	"fmt"
	"strings"

	"github.com/netauth/netauth/internal/zverif/eng"

	types "github.com/netauth/protocol"
	rpb "github.com/netauth/protocol/v2"
)

// acyclic looks for a cycle among the rules of existing groups.
func acyclic(o *eng.Obs) error {
	for start := range o.Grps {
		seen := set{}
		var walk func(n string, trail []string) error
		walk = func(n string, trail []string) error {
			g := o.Grps[n]
			if g == nil || seen[n] {
				return nil
			}
			seen[n] = true
			targets := set{}
			for _, r := range g.Rules {
				p := strings.SplitN(r, ":", 2)
				if len(p) != 2 || (p[0] != "INCLUDE" && p[0] != "EXCLUDE") {
					return fmt.Errorf("group %q holds the malformed rule %q", n, r)
				}
				if targets[p[1]] {
					return fmt.Errorf("group %q holds two rules for %q: %q", n, p[1], g.Rules)
				}
				targets[p[1]] = true
				if p[1] == start {
					return fmt.Errorf("the rules form a cycle: %s", strings.Join(append(trail, n, start), " -> "))
				}
				if err := walk(p[1], append(trail, n)); err != nil {
					return err
				}
			}
			return nil
		}
		if err := walk(start, nil); err != nil {
			return err
		}
	}
	return nil
}

func init() {
	register(&eng.Check{ID: "C12", Level: "model_checking", Specs: func(r *eng.Run) []eng.Spec {
		mk := func(name string, depth int, gs []string, dyn []string) eng.Spec {
			u := eng.Universe{Entities: []string{"e1"}, Groups: gs}
			var ops, setup []eng.Op
			for _, a := range gs {
				for _, b := range append(append([]string{}, gs...), "missing") {
					ops = append(ops, mRule(R, a, b, rpb.RuleAction_INCLUDE), mRule(R, a, b, rpb.RuleAction_EXCLUDE))
					if b != "missing" {
						ops = append(ops, mRule(R, a, b, rpb.RuleAction_REMOVE_RULE))
					}
				}
				setup = append(setup, mGroupCreate(R, a, "", "", -1))
			}
			for _, a := range dyn {
				ops = append(ops, mGroupDestroy(R, a), mGroupCreate(R, a, "", "", -1))
			}
			ops = append(ops, mRule(R, "missing", gs[0], rpb.RuleAction_INCLUDE), mGroupUpdate(R, gs[0], "rules through metadata", func() *types.Group {
				return &types.Group{Expansions: []string{"INCLUDE:" + gs[0]}}
			}))
			setup = append(setup, mEntityCreate(R, "e1", -1, "s"), mMember(R, true, "e1", gs[len(gs)-1]))
			return eng.Spec{Name: name, U: u, Ops: ops, Depth: depth, Init: modelInit(eng.Config{}, setup...), Step: modelStep,
				State: func(w *eng.World, o *eng.Obs, _ eng.Ghost) error { return acyclic(o) }}
		}
		return []eng.Spec{
			crowdSpec(func(w *eng.World, o *eng.Obs) error { return acyclic(o) }),
			mk("three groups that come and go", r.Pick(4, 5), []string{"a", "ab", "b"}, []string{"a", "ab", "b"}),
			mk("four groups", r.Pick(3, 4), []string{"w", "x", "y", "z"}, nil),
		}
	}})
}
