package main

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"github.com/golang/protobuf/proto"

	"github.com/netauth/netauth/internal/zverif/eng"

	types "github.com/netauth/protocol"
	rpb "github.com/netauth/protocol/v2"
)

// failing makes the n-th storage call of an operation fail, before it takes
// effect or (late) after it did.
func failing(o eng.Op, n int, late bool) eng.Op {
	do := o.Do
	how := "fails"
	if late {
		how = "takes effect but reports failure"
	}
	o.Name = fmt.Sprintf("%s while storage call %d %s", o.Name, n, how)
	o.Do = func(w *eng.World) eng.Res {
		i := 0
		fired, wrote := "", ""
		f := func(op, key string) error {
			i++
			if i == n {
				fired = op + " " + key
				if op == "get" && key == wrote {
					fired = "reading back " + path.Dir(key)
				}
				return eng.ErrFault
			}
			if op == "put" {
				wrote = key
			}
			return nil
		}
		if late {
			w.KV.After = f
		} else {
			w.KV.Before = f
		}
		r := do(w)
		w.KV.Before, w.KV.After = nil, nil
		w.Peer = nil
		delete(w.Note, "fired")
		if fired != "" {
			w.Note["fired"] = fired
		}
		return r
	}
	return o
}

// reading renders the answer of a call that changes nothing; an answer given
// in spite of a fault must be the right one.
func reading(name string, f func(w *eng.World) (string, error)) eng.Op {
	return readingIf(name, f, func(got, want string) bool { return got == want })
}

// readingSome is for a call that is meant to leave out what it can not load.
func readingSome(name string, f func(w *eng.World) (string, error)) eng.Op {
	return readingIf(name, f, func(got, want string) bool {
		for _, l := range strings.Split(got, "\n") {
			if !strings.Contains("\n"+want+"\n", "\n"+l+"\n") && l != "" {
				return false
			}
		}
		return true
	})
}

func readingIf(name string, f func(w *eng.World) (string, error), right func(got, want string) bool) eng.Op {
	return eng.Op{Name: name, Do: func(w *eng.World) eng.Res {
		b, a := w.KV.Before, w.KV.After
		w.KV.Before, w.KV.After = nil, nil
		want, werr := f(w)
		w.KV.Before, w.KV.After = b, a
		got, err := f(w)
		if err == nil && (werr != nil || !right(got, want)) {
			w.Note["differs"] = fmt.Sprintf("%s answered %q when storage failed; the right answer is %q (%v)", name, got, want, werr)
		}
		return eng.Res{}
	}, Tag: effect(func(m *model, s *eng.Step) want { return wOK })}
}

func sortedLines(m proto.Message) string {
	l := strings.Split(proto.MarshalTextString(m), "\n")
	sort.Strings(l)
	return strings.Join(l, " ")
}

// tokenUnderFault asks for a token; what it grants must be granted.
func tokenUnderFault(id, secret string) eng.Op {
	return eng.Op{Name: fmt.Sprintf("AuthGetToken(%q,%q)", id, secret), Do: func(w *eng.World) eng.Res {
		b, a := w.KV.Before, w.KV.After
		w.KV.Before, w.KV.After = nil, nil
		right := eng.GetToken(id, secret).Do(w)
		w.KV.Before, w.KV.After = b, a
		r := eng.GetToken(id, secret).Do(w)
		if r.OK() {
			c, err := w.Token.Validate(r.Data)
			g, err2 := w.Token.Validate(right.Data)
			ok := right.OK() && err == nil && err2 == nil && c.EntityID == id
			for _, x := range c.Capabilities {
				ok = ok && g.HasCapability(x)
			}
			if !ok {
				w.Note["differs"] = fmt.Sprintf("AuthGetToken(%q,%q) answered %s when storage failed; without, %s", id, secret, r, right)
			}
		}
		return eng.Res{}
	}, Tag: effect(func(m *model, s *eng.Step) want { return wOK })}
}

func unauthorised(o eng.Op) eng.Op {
	o.Name += " without authority"
	o.Tag = effect(func(m *model, s *eng.Step) want { return wAny })
	return o
}

func faultStep(u eng.Universe) func(s *eng.Step) (eng.Ghost, error) {
	return func(s *eng.Step) (eng.Ghost, error) {
		if d := s.W.Note["differs"]; d != "" {
			return s.Ghost, fmt.Errorf("%s", d)
		}
		fired := s.W.Note["fired"]
		delete(s.W.Note, "fired")
		old := s.Ghost.(*model)
		var g eng.Ghost = old
		if fired != "" && !s.Res.OK() {
			// Refused: nothing happened, or (when the store did its
			// work all the same) all of it.
			if err := sameAttrs(s, old); err != nil {
				n := old.clone()
				if f, ok := s.Op.Tag.(effect); ok && f(n, s).ok && sameAttrs(s, n) == nil && strings.Contains(s.Op.Name, "takes effect") {
					g = n
				} else {
					return old, fmt.Errorf("%s [%s] was refused but %v", s.Op.Name, fired, err)
				}
			}
		} else {
			var err error
			if g, err = modelStep(s); err != nil {
				return old, fmt.Errorf("%v [%s]", err, fired)
			}
		}
		if strings.Contains(s.Op.Name, "takes effect") {
			// A store that misreports a write misses the event, too,
			// so what is kept in memory is as old as the store says.
			if fired != "" {
				n := g.(*model).clone()
				n.over = true
				g = n
			}
			return g, nil
		}
		back := strings.HasPrefix(fired, "reading back")
		if back {
			// Listed finding: what follows builds upon it.
			n := g.(*model).clone()
			n.over = true
			g = n
		}
		if err := sameView(s.W, s.W.Restart(), u, []string{"*", "First", "e1"}); err != nil {
			if back && s.Res.OK() {
				return g, fmt.Errorf("an accepted change takes effect on memberships, capabilities and searches only after a restart when %s after the write fails", fired)
			}
			return g, fmt.Errorf("%s [%s]: a restarted server %v", s.Op.Name, fired, err)
		}
		return g, nil
	}
}

func init() {
	register(&eng.Check{ID: "C25", Level: "model_checking", Specs: func(r *eng.Run) []eng.Spec {
		u := effectUniverse()
		LE, UE := types.Capability_LOCK_ENTITY, types.Capability_UNLOCK_ENTITY
		none := eng.As("mallory")
		c := eng.Ctx("")
		base := []eng.Op{
			mEntityCreate(R, "e3", -1, "s"), mEntityCreate(R, "e1", -1, "stolen"), mEntityCreate(R, "e3", 9, "s"), mEntityDestroy(R, "e2"), mLock(R, "e1"), mUnlock(R, "e1"),
			mEntityUpdate(R, "e1", "every field", fullMeta), mEntityUM(R, "e1", rpb.Action_UPSERT, "um", "2"), mKeys(R, "e1", rpb.Action_ADD, "SSH", "k2"), mKeys(R, "e1", rpb.Action_DROP, "SSH", "k1"),
			mKV2(R, true, "Add", "e1", "n", "v"), mKV2(R, true, "Del", "e1", "k"), mKV2(R, true, "Replace", "e1", "k", "w"),
			mChangeSecret(R, "e1", "new"),
			mGroupCreate(R, "g3", "Third", "g1", -1), mGroupCreate(R, "g1", "stolen", "", -1), mGroupDestroy(R, "g1"), mGroupDestroy(R, "g2"), mGroupUpdate(R, "g1", "every field", fullGroup),
			mGroupUM(R, "g1", rpb.Action_UPSERT, "um", "2"), mKV2(R, false, "Add", "g1", "n", "v"), mKV2(R, false, "Del", "g1", "k"),
			mRule(R, "g1", "g2", rpb.RuleAction_INCLUDE), mRule(R, "g2", "g1", rpb.RuleAction_INCLUDE), mRule(R, "g2", "g1", rpb.RuleAction_EXCLUDE), mRule(R, "g1", "g2", rpb.RuleAction_REMOVE_RULE),
			mMember(R, true, "e1", "g1"), mMember(R, false, "e2", "g1"), mMember(R, true, "e2", "g2"),
			mCapability(R, true, "e1", rpb.Action_ADD, LE), mCapability(R, true, "e1", rpb.Action_DROP, UE), mCapability(R, false, "g1", rpb.Action_ADD, LE), mCapability(R, false, "g1", rpb.Action_DROP, UE),
			unauthorised(eng.GroupUpdate(none, "g1", "display", func() *types.Group { return &types.Group{DisplayName: eng.S("mine")} })),
			unauthorised(eng.Member(none, true, "mallory", "g1")), unauthorised(eng.Rule(none, "g1", "g2", rpb.RuleAction_INCLUDE)),
			unauthorised(eng.ChangeSecret(eng.As("e1"), "e1", "e1", "wrong", "mine")), unauthorised(eng.ChangeSecret(none, "mallory", "e1", "", "mine")),
			reading("EntityInfo", func(w *eng.World) (string, error) {
				m, err := w.Srv.EntityInfo(c, &rpb.EntityRequest{Entity: &types.Entity{ID: eng.S("e1")}})
				return sortedLines(m), err
			}),
			reading("EntityInfo of a missing entity", func(w *eng.World) (string, error) {
				m, err := w.Srv.EntityInfo(c, &rpb.EntityRequest{Entity: &types.Entity{ID: eng.S("e9")}})
				return sortedLines(m), err
			}),
			readingSome("EntityGroups", func(w *eng.World) (string, error) {
				m, err := w.Srv.EntityGroups(c, &rpb.EntityRequest{Entity: &types.Entity{ID: eng.S("e2")}})
				l := []string{}
				for _, g := range m.GetGroups() {
					if g.GetName() != "" {
						l = append(l, sortedLines(g))
					}
				}
				return strings.Join(l, "\n"), err
			}),
			reading("GroupInfo", func(w *eng.World) (string, error) {
				m, err := w.Srv.GroupInfo(c, &rpb.GroupRequest{Group: &types.Group{Name: eng.S("g1")}})
				return sortedLines(m), err
			}),
			reading("GroupMembers", func(w *eng.World) (string, error) {
				m, err := w.Srv.GroupMembers(c, &rpb.GroupRequest{Group: &types.Group{Name: eng.S("g1")}})
				return sortedLines(m), err
			}),
			reading("EntitySearch", func(w *eng.World) (string, error) {
				m, err := w.Srv.EntitySearch(c, &rpb.SearchRequest{Expression: eng.S("*")})
				return sortedLines(m), err
			}),
			reading("GroupSearch", func(w *eng.World) (string, error) {
				m, err := w.Srv.GroupSearch(c, &rpb.SearchRequest{Expression: eng.S("*")})
				return sortedLines(m), err
			}),
			reading("EntityKVGet", func(w *eng.World) (string, error) {
				m, err := w.Srv.EntityKVGet(c, &rpb.KV2Request{Target: eng.S("e1"), Data: &types.KVData{Key: eng.S("*")}})
				return sortedLines(m), err
			}),
			reading("GroupKVGet", func(w *eng.World) (string, error) {
				m, err := w.Srv.GroupKVGet(c, &rpb.KV2Request{Target: eng.S("g1"), Data: &types.KVData{Key: eng.S("*")}})
				return sortedLines(m), err
			}),
			reading("EntityUM", func(w *eng.World) (string, error) {
				m, err := w.Srv.EntityUM(c, &rpb.KVRequest{Target: eng.S("e1"), Action: rpb.Action_READ.Enum(), Key: eng.S("*")})
				return sortedLines(m), err
			}),
			reading("EntityKeys", func(w *eng.World) (string, error) {
				m, err := w.Srv.EntityKeys(c, &rpb.KVRequest{Target: eng.S("e1"), Action: rpb.Action_READ.Enum(), Key: eng.S("*")})
				return sortedLines(m), err
			}),
			reading("AuthEntity wrong", func(w *eng.World) (string, error) {
				_, err := w.Srv.AuthEntity(c, &rpb.AuthRequest{Entity: &types.Entity{ID: eng.S("e1")}, Secret: eng.S("wrong")})
				return "", err
			}),
			tokenUnderFault("e2", "b"), tokenUnderFault("e2", "wrong"), tokenUnderFault("e1", "a"),
		}
		var ops []eng.Op
		for _, o := range base {
			for n := 1; n <= r.Pick(8, 12); n++ {
				ops = append(ops, failing(o, n, false))
				if n <= 2 {
					ops = append(ops, failing(o, n, true))
				}
			}
			ops = append(ops, o)
		}
		start := append(effectSetup(), mEntityCreate(R, "mallory", -1, "m"), mRule(R, "g1", "g2", rpb.RuleAction_INCLUDE), mMember(R, true, "e2", "g2"))
		// What one request leaves behind must not show in a later failure.
		auth := func(id, secret string) eng.Op {
			return reading(fmt.Sprintf("AuthEntity(%q,%q)", id, secret), func(w *eng.World) (string, error) {
				_, err := w.Srv.AuthEntity(c, &rpb.AuthRequest{Entity: &types.Entity{ID: eng.S(id)}, Secret: eng.S(secret)})
				return "", err
			})
		}
		info := func(id string) eng.Op {
			return reading(fmt.Sprintf("EntityInfo(%q)", id), func(w *eng.World) (string, error) {
				m, err := w.Srv.EntityInfo(c, &rpb.EntityRequest{Entity: &types.Entity{ID: eng.S(id)}})
				return sortedLines(m), err
			})
		}
		ginfo := reading("GroupInfo", func(w *eng.World) (string, error) {
			m, err := w.Srv.GroupInfo(c, &rpb.GroupRequest{Group: &types.Group{Name: eng.S("g2")}})
			return sortedLines(m), err
		})
		var twice []eng.Op
		for _, o := range []eng.Op{
			mEntityDestroy(R, "e2"), mEntityCreate(R, "e2", -1, "b2"), mChangeSecret(R, "e1", "new"), mLock(R, "e1"), mKV2(R, true, "Add", "e1", "n", "v"),
			mMember(R, true, "e1", "g1"), mRule(R, "g1", "g2", rpb.RuleAction_REMOVE_RULE), mGroupDestroy(R, "g2"), mGroupUpdate(R, "g2", "display", func() *types.Group { return &types.Group{DisplayName: eng.S("dd")} }),
			mCapability(R, true, "e1", rpb.Action_ADD, LE),
		} {
			for n := 1; n <= 3; n++ {
				twice = append(twice, failing(o, n, false))
			}
			twice = append(twice, o)
		}
		for _, o := range []eng.Op{info("e1"), info("e2"), ginfo, auth("e1", "new"), auth("e2", "b"), tokenUnderFault("e1", "a")} {
			twice = append(twice, failing(o, 1, false), failing(o, 2, false), o)
		}
		return []eng.Spec{{Name: "after a failure", NoObs: true, Ops: twice, Depth: r.Pick(2, 3), Init: modelInit(eng.Config{}, start...), Step: func(s *eng.Step) (eng.Ghost, error) {
			g, err := faultStep(u)(s)
			n := g.(*model).clone()
			n.trail += s.Op.Name + ";"
			return n, err
		},
			Prune: func(_ *eng.Obs, g eng.Ghost) bool { return g.(*model).over }}, {Name: "failing storage", NoObs: true, Ops: ops, Depth: r.Pick(1, 2), Init: modelInit(eng.Config{}, start...), Step: faultStep(u),
			Prune: func(_ *eng.Obs, g eng.Ghost) bool { return g.(*model).over }}}
	}})
}
