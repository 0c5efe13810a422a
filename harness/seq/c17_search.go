package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/netauth/netauth/internal/zverif/eng"

	types "github.com/netauth/protocol"
	rpb "github.com/netauth/protocol/v2"
)

// query is a search expression with its meaning.
type query struct {
	expr string
	ent  func(e *eng.EntObs) bool
	grp  func(g *eng.GrpObs) bool
}

func noEnt(*eng.EntObs) bool { return false }
func noGrp(*eng.GrpObs) bool { return false }

// word reports whether a value contains a word.
func word(v, w string) bool {
	for _, x := range strings.Fields(v) {
		if strings.EqualFold(x, w) {
			return true
		}
	}
	return false
}

// anyWord is what a search for a bare word looks at.
func anyWord(e *eng.EntObs, w string) bool {
	if word(e.ID, w) {
		return true
	}
	for _, v := range e.Typed {
		if word(v, w) {
			return true
		}
	}
	for _, g := range e.Groups {
		if word(g, w) {
			return true
		}
	}
	return false
}

func anyWordG(g *eng.GrpObs, w string) bool {
	return word(g.Name, w) || word(g.Display, w) || word(g.ManagedBy, w)
}

func bare(w string) query {
	return query{w, func(e *eng.EntObs) bool { return anyWord(e, w) }, func(g *eng.GrpObs) bool { return anyWordG(g, w) }}
}

func field(f, w string, ent func(*eng.EntObs) string, grp func(*eng.GrpObs) string) query {
	q := query{f + ":" + w, noEnt, noGrp}
	if ent != nil {
		q.ent = func(e *eng.EntObs) bool { return word(ent(e), w) }
	}
	if grp != nil {
		q.grp = func(g *eng.GrpObs) bool { return word(grp(g), w) }
	}
	return q
}

func searchQueries() []query {
	all := query{"*", func(*eng.EntObs) bool { return true }, func(*eng.GrpObs) bool { return true }}
	qs := []query{all}
	for _, w := range []string{"e1", "e2", "g1", "g2", "red", "blue", "green", "absent"} {
		qs = append(qs, bare(w))
	}
	for _, w := range []string{"e1", "e2", "g1"} {
		qs = append(qs, field("ID", w, func(e *eng.EntObs) string { return e.ID }, nil))
	}
	for _, w := range []string{"red", "blue", "green"} {
		qs = append(qs,
			field("meta.LegalName", w, func(e *eng.EntObs) string { return e.Typed["LegalName"] }, nil),
			field("meta.DisplayName", w, func(e *eng.EntObs) string { return e.Typed["DisplayName"] }, nil),
			field("DisplayName", w, nil, func(g *eng.GrpObs) string { return g.Display }),
		)
	}
	for _, w := range []string{"g1", "g2"} {
		qs = append(qs,
			field("Name", w, nil, func(g *eng.GrpObs) string { return g.Name }),
			field("ManagedBy", w, nil, func(g *eng.GrpObs) string { return g.ManagedBy }),
			field("meta.Groups", w, func(e *eng.EntObs) string { return strings.Join(e.Groups, " ") }, nil),
		)
	}
	for _, n := range []int32{7, 8} {
		n := n
		qs = append(qs, query{fmt.Sprintf("Number:%d", n), func(e *eng.EntObs) bool { return e.Number == n }, func(g *eng.GrpObs) bool { return g.Number == n }})
	}
	and := func(x, y query) query {
		return query{"+" + x.expr + " +" + y.expr, func(e *eng.EntObs) bool { return x.ent(e) && y.ent(e) }, func(g *eng.GrpObs) bool { return x.grp(g) && y.grp(g) }}
	}
	not := func(x query, y query) query {
		return query{"+" + x.expr + " -" + y.expr, func(e *eng.EntObs) bool { return x.ent(e) && !y.ent(e) }, func(g *eng.GrpObs) bool { return x.grp(g) && !y.grp(g) }}
	}
	or := func(x, y query) query {
		return query{x.expr + " " + y.expr, func(e *eng.EntObs) bool { return x.ent(e) || y.ent(e) }, func(g *eng.GrpObs) bool { return x.grp(g) || y.grp(g) }}
	}
	qs = append(qs, and(bare("red"), bare("blue")), not(all, bare("red")), not(bare("blue"), bare("red")), or(bare("red"), bare("green")))
	return qs
}

// searchStep compares every search with what the objects say themselves.
func searchStep(w *eng.World, o *eng.Obs, qs []query) error {
	for _, q := range qs {
		var want, got []string
		for _, e := range o.Ents {
			if q.ent(e) {
				want = append(want, e.String())
			}
		}
		r, err := w.Srv.EntitySearch(eng.Ctx(""), &rpb.SearchRequest{Expression: eng.S(q.expr)})
		for _, e := range r.GetEntities() {
			got = append(got, eng.ObsEntity(e).String())
		}
		sort.Strings(want)
		sort.Strings(got)
		if err != nil || fmt.Sprint(want) != fmt.Sprint(got) {
			return fmt.Errorf("searching entities for %q found %q (%v); those that match are %q", q.expr, got, err, want)
		}
		want, got = nil, nil
		for _, g := range o.Grps {
			if q.grp(g) {
				want = append(want, g.String())
			}
		}
		gr, err := w.Srv.GroupSearch(eng.Ctx(""), &rpb.SearchRequest{Expression: eng.S(q.expr)})
		for _, g := range gr.GetGroups() {
			got = append(got, eng.ObsGroup(g).String())
		}
		sort.Strings(want)
		sort.Strings(got)
		if err != nil || fmt.Sprint(want) != fmt.Sprint(got) {
			return fmt.Errorf("searching groups for %q found %q (%v); those that match are %q", q.expr, got, err, want)
		}
	}
	return nil
}

func init() {
	register(&eng.Check{ID: "C17", Level: "model_checking", Specs: func(r *eng.Run) []eng.Spec {
		u := eng.Universe{Entities: []string{"e1", "e2"}, Groups: []string{"g1", "g2"}}
		qs := searchQueries()
		meta := func(legal, display string) func() *types.EntityMeta {
			return func() *types.EntityMeta {
				m := &types.EntityMeta{}
				if legal != "" {
					m.LegalName = eng.S(legal)
				}
				if display != "" {
					m.DisplayName = eng.S(display)
				}
				return m
			}
		}
		ops := []eng.Op{
			eng.EntityUpdate(R, "e1", "red", meta("red", "")), eng.EntityUpdate(R, "e1", "blue", meta("blue", "")), eng.EntityUpdate(R, "e1", "red blue, green", meta("red blue", "green")),
			eng.EntityUpdate(R, "e2", "Blue", meta("", "Blue")),
			eng.EntityDestroy(R, "e1"), eng.EntityDestroy(R, "e2"), eng.EntityCreate(R, "e1", 7, "s"), eng.EntityCreate(R, "e2", 8, "s"),
			eng.EntityLock(R, "e1"), eng.EntityUM(R, "e1", rpb.Action_UPSERT, "absent", "absent"), eng.EntityKeys(R, "e1", rpb.Action_ADD, "absent", "absent"),
			eng.Member(R, true, "e1", "g1"), eng.Member(R, false, "e1", "g1"), eng.Member(R, true, "e2", "g2"),
			eng.GroupDestroy(R, "g1"), eng.GroupCreate(R, "g1", "red", "", 7), eng.GroupCreate(R, "g1", "green", "g2", 8), eng.GroupDestroy(R, "g2"), eng.GroupCreate(R, "g2", "", "", 8),
			eng.GroupUpdate(R, "g1", "display blue", func() *types.Group { return &types.Group{DisplayName: eng.S("blue")} }),
			eng.GroupUpdate(R, "g2", "display red blue, managed by g1", func() *types.Group { return &types.Group{DisplayName: eng.S("red blue"), ManagedBy: eng.S("g1")} }),
			eng.GroupUpdate(R, "g1", "no display name", func() *types.Group { return &types.Group{DisplayName: eng.S("")} }),
			eng.GroupUpdate(R, "g2", "neither display name nor manager", func() *types.Group { return &types.Group{DisplayName: eng.S(""), ManagedBy: eng.S("")} }),
			eng.EntityUpdate(R, "e1", "no names", func() *types.EntityMeta { return &types.EntityMeta{LegalName: eng.S(""), DisplayName: eng.S("")} }),
			eng.Rule(R, "g1", "g2", rpb.RuleAction_INCLUDE), eng.GroupUM(R, "g1", rpb.Action_UPSERT, "absent", "absent"),
			eng.Restart(),
		}
		return []eng.Spec{crowdSpec(func(w *eng.World, o *eng.Obs) error { return searchStep(w, o, qs) }), {Name: "search", U: u, Ops: ops, Depth: r.Pick(3, 5), Init: initOps(eng.GroupCreate(R, "g1", "", "", 7), eng.EntityCreate(R, "e1", 7, "s")),
			Step: func(s *eng.Step) (eng.Ghost, error) { return s.Ghost, searchStep(s.W, s.Post, qs) }}}
	}})
}
