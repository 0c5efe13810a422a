package main

import (
	"fmt"
	"strings"

	"github.com/netauth/netauth/internal/zverif/eng"

	types "github.com/netauth/protocol"
	rpb "github.com/netauth/protocol/v2"
)

func mBootstrap(id, secret string) eng.Op {
	return eng.Op{Name: fmt.Sprintf("Bootstrap(%q,%q)", id, secret), Do: func(w *eng.World) eng.Res {
		w.Tree.Bootstrap(id, secret)
		return eng.Res{}
	}, Tag: effect(func(m *model, s *eng.Step) want {
		if m.closed {
			return wOK
		}
		m.closed = true
		if id == "" || strings.ContainsAny(id, "/") {
			return wOK
		}
		e := m.E[id]
		if e == nil {
			e = &mEnt{num: storedNumber(s.W, "/entities/"+id)}
			for _, o := range m.E {
				if o.num == e.num || e.num < 1 {
					e.num = -99
				}
			}
			m.E[id] = e
		}
		e.secret, e.locked = secret, false
		e.caps = cs(e.caps)
		e.caps["GLOBAL_ROOT"] = true
		return wOK
	})}
}

func init() {
	register(&eng.Check{ID: "C27", Level: "model_checking", Specs: func(r *eng.Run) []eng.Spec {
		ops := []eng.Op{
			mBootstrap("boot", "first"), mBootstrap("boot", "second"), mBootstrap("e1", "first"), mBootstrap("", "x"), mBootstrap("../groups/g1", "x"),
			{Name: "DisableBootstrap", Do: func(w *eng.World) eng.Res { w.Tree.DisableBootstrap(); return eng.Res{} }, Tag: effect(func(m *model, s *eng.Step) want { m.closed = true; return wOK })},
			{Name: "Restart", Do: func(w *eng.World) eng.Res { w.Become(w.Restart()); return eng.Res{} }, Tag: effect(func(m *model, s *eng.Step) want { m.closed = false; return wOK })},
			mEntityDestroy(R, "boot"), mLock(R, "boot"), mChangeSecret(R, "boot", "third"), mEntityDestroy(R, "e1"), mEntityCreate(R, "boot", 7, "mine"),
			mCapability(R, true, "boot", rpb.Action_DROP, types.Capability_GLOBAL_ROOT), mKV2(R, true, "Add", "boot", "k", "v"),
		}
		setup := append(effectSetup(), mLock(R, "e1"))
		state := func(w *eng.World, o *eng.Obs, g eng.Ghost) error {
			m := g.(*model)
			for id, e := range m.E {
				for _, s := range []string{"first", "second", "third", "mine", "a"} {
					r := eng.GetToken(id, s).Do(w)
					if want := !e.locked && e.secret == s; r.OK() != want {
						return fmt.Errorf("authenticating %q with %q answered %s; its secret is %q, locked=%v", id, s, r.Code, e.secret, e.locked)
					}
					if r.OK() {
						c, err := w.Token.Validate(r.Data)
						if err != nil || c.HasCapability(types.Capability_GLOBAL_ROOT) != e.caps["GLOBAL_ROOT"] {
							return fmt.Errorf("the token of %q carries %v (%v)", id, c.Capabilities, err)
						}
					}
				}
			}
			return nil
		}
		return []eng.Spec{
			{Name: "populated", NoObs: true, Ops: ops, Depth: r.Pick(6, 8), Init: modelInit(eng.Config{}, setup...), Step: modelStep, State: state},
			{Name: "first start", NoObs: true, Ops: ops, Depth: r.Pick(6, 8), Init: modelInit(eng.Config{}), Step: modelStep, State: state},
		}
	}})
}
