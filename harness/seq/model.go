package main

import (
	"fmt"
	"path"
	"reflect"
	"sort"
	"strings"

	"github.com/golang/protobuf/proto"
	"google.golang.org/grpc/codes"

	"github.com/netauth/netauth/internal/zverif/eng"

	types "github.com/netauth/protocol"
	rpb "github.com/netauth/protocol/v2"
)

// The reference model: what the stored data means and what every request
// does to it, written down as plainly as possible.

type set map[string]bool

func (s set) list() []string {
	l := []string{}
	for k, v := range s {
		if v {
			l = append(l, k)
		}
	}
	sort.Strings(l)
	return l
}

type mEnt struct {
	num                int32
	secret             string
	locked             bool
	typed              map[string]string
	groups, caps, keys set
	um                 set
	kv                 map[string]string
}

type mGrp struct {
	num              int32
	display, managed string
	caps             set
	rules            map[string]string // target -> INCLUDE or EXCLUDE
	um               set
	kv               map[string]string
}

type model struct {
	E map[string]*mEnt
	G map[string]*mGrp
	// closed: bootstrapping is over for this run of the server
	closed bool
	// over: nothing is judged beyond this point
	over bool

	// trail keeps histories apart that led to the same state.
	trail string
}

func newModel() *model { return &model{E: map[string]*mEnt{}, G: map[string]*mGrp{}} }

func cs(s set) set {
	n := set{}
	for k, v := range s {
		n[k] = v
	}
	return n
}

func cm(s map[string]string) map[string]string {
	n := map[string]string{}
	for k, v := range s {
		n[k] = v
	}
	return n
}

func (m *model) clone() *model {
	n := newModel()
	n.closed, n.over, n.trail = m.closed, m.over, m.trail
	for k, e := range m.E {
		c := *e
		c.typed, c.groups, c.caps, c.keys, c.um, c.kv = cm(e.typed), cs(e.groups), cs(e.caps), cs(e.keys), cs(e.um), cm(e.kv)
		n.E[k] = &c
	}
	for k, g := range m.G {
		c := *g
		c.caps, c.rules, c.um, c.kv = cs(g.caps), cm(g.rules), cs(g.um), cm(g.kv)
		n.G[k] = &c
	}
	return n
}

func vals(m map[string]string) []string {
	l := []string{}
	for _, v := range m {
		l = append(l, v)
	}
	sort.Strings(l)
	return l
}

// attrs flattens the model.
func (m *model) attrs() map[string]string {
	a := map[string]string{}
	for id, e := range m.E {
		p := "entity/" + id + "/"
		a[p+"exists"] = "yes"
		a[p+"number"] = fmt.Sprint(e.num)
		a[p+"secret"] = "hash(" + e.secret + ")"
		a[p+"locked"] = fmt.Sprint(e.locked)
		for k, v := range e.typed {
			if v != "" {
				a[p+"typed/"+k] = v
			}
		}
		a[p+"groups"] = fmt.Sprintf("%q", e.groups.list())
		a[p+"caps"] = fmt.Sprintf("%q", e.caps.list())
		a[p+"keys"] = fmt.Sprintf("%q", e.keys.list())
		a[p+"um"] = fmt.Sprintf("%q", e.um.list())
		a[p+"kv"] = fmt.Sprintf("%q", vals(e.kv))
	}
	for n, g := range m.G {
		p := "group/" + n + "/"
		a[p+"exists"] = "yes"
		a[p+"number"] = fmt.Sprint(g.num)
		a[p+"display"] = g.display
		a[p+"managedby"] = g.managed
		a[p+"caps"] = fmt.Sprintf("%q", g.caps.list())
		l := []string{}
		for t, k := range g.rules {
			l = append(l, k+":"+t)
		}
		sort.Strings(l)
		a[p+"rules"] = fmt.Sprintf("%q", l)
		a[p+"um"] = fmt.Sprintf("%q", g.um.list())
		a[p+"kv"] = fmt.Sprintf("%q", vals(g.kv))
	}
	return a
}

// Key identifies the model state.
func (m *model) Key() string {
	a := m.attrs()
	ks := []string{}
	for k := range a {
		ks = append(ks, k+"="+a[k])
	}
	sort.Strings(ks)
	return fmt.Sprint(m.closed, m.over, m.trail) + strings.Join(ks, "\n")
}

// rawAttrs flattens what is stored, in the same form.
func rawAttrs(w *eng.World) map[string]string {
	a := map[string]string{}
	sl := func(in []string) string {
		l := append([]string{}, in...)
		sort.Strings(l)
		return fmt.Sprintf("%q", l)
	}
	cl := func(in []types.Capability) string {
		l := []string{}
		for _, c := range in {
			l = append(l, c.String())
		}
		return sl(l)
	}
	for k, v := range w.KV.Raw() {
		switch path.Dir(k) {
		case "/entities":
			e := &types.Entity{}
			if err := proto.Unmarshal(v, e); err != nil {
				a[k+"/corrupt"] = err.Error()
				continue
			}
			p := "entity/" + path.Base(k) + "/"
			if e.GetID() != path.Base(k) {
				a[p+"id"] = e.GetID()
			}
			a[p+"exists"] = "yes"
			a[p+"number"] = fmt.Sprint(e.GetNumber())
			a[p+"secret"] = e.GetSecret()
			m := e.GetMeta()
			a[p+"locked"] = fmt.Sprint(m.GetLocked())
			for f, x := range eng.ObsEntity(e).Typed {
				a[p+"typed/"+f] = x
			}
			a[p+"groups"] = sl(m.GetGroups())
			a[p+"caps"] = cl(m.GetCapabilities())
			a[p+"keys"] = sl(m.GetKeys())
			a[p+"um"] = sl(m.GetUntypedMeta())
			a[p+"kv"] = sl(eng.KVStrings(m.GetKV()))
		case "/groups":
			g := &types.Group{}
			if err := proto.Unmarshal(v, g); err != nil {
				a[k+"/corrupt"] = err.Error()
				continue
			}
			p := "group/" + path.Base(k) + "/"
			if g.GetName() != path.Base(k) {
				a[p+"name"] = g.GetName()
			}
			a[p+"exists"] = "yes"
			a[p+"number"] = fmt.Sprint(g.GetNumber())
			a[p+"display"] = g.GetDisplayName()
			a[p+"managedby"] = g.GetManagedBy()
			a[p+"caps"] = cl(g.GetCapabilities())
			a[p+"rules"] = sl(g.GetExpansions())
			a[p+"um"] = sl(g.GetUntypedMeta())
			a[p+"kv"] = sl(eng.KVStrings(g.GetKV()))
		default:
			a["stray key "+k] = "present"
		}
	}
	return a
}

// want is the outcome the model expects.
type want struct {
	ok     bool
	code   codes.Code // when not ok: this code, or codes.OK for any refusal
	either bool       // both outcomes are acceptable
}

var (
	wOK      = want{ok: true}
	wAny     = want{}
	wMissing = want{code: codes.NotFound}
	wExists  = want{code: codes.AlreadyExists}
)

// effect applies a request to the model.  The server's response is given
// for values the server may choose (numbers).
type effect func(m *model, s *eng.Step) want

func reqSucceeds(s *eng.Step) bool { return s.Res.OK() }

// modelStep compares a transition with the reference model.
func modelStep(s *eng.Step) (eng.Ghost, error) {
	old := s.Ghost.(*model)
	f, ok := s.Op.Tag.(effect)
	if !ok {
		return old, sameAttrs(s, old)
	}
	n := old.clone()
	w := f(n, s)
	if w.either {
		if !s.Res.OK() {
			n = old
		}
	} else if w.ok != s.Res.OK() {
		if w.ok {
			return old, fmt.Errorf("%s was refused: %s %s", s.Op.Name, s.Res.Code, s.Res.Msg)
		}
		return old, fmt.Errorf("%s was accepted; expected %s", s.Op.Name, expectName(w))
	} else if !w.ok {
		n = old
		if w.code != codes.OK && w.code != s.Res.Code {
			return old, fmt.Errorf("%s was refused with %s; expected %s", s.Op.Name, s.Res.Code, w.code)
		}
	}
	return n, sameAttrs(s, n)
}

func expectName(w want) string {
	if w.code == codes.OK {
		return "a refusal"
	}
	return w.code.String()
}

func sameAttrs(s *eng.Step, m *model) error {
	a, b := m.attrs(), rawAttrs(s.W)
	for _, k := range eng.DiffAttrs(a, b) {
		return fmt.Errorf("%s (%s): %s is now %q, expected %q", s.Op.Name, s.Res.Code, k, show(b, k), show(a, k))
	}
	return nil
}

func show(m map[string]string, k string) string {
	if v, ok := m[k]; ok {
		return v
	}
	return "(absent)"
}

// modelInit starts from a populated server together with its model, built
// by the same operations.
func modelInit(cfg eng.Config, ops ...eng.Op) func() (*eng.World, eng.Ghost) {
	return func() (*eng.World, eng.Ghost) {
		w := eng.NewWorld(cfg)
		m := newModel()
		for _, o := range ops {
			r, err := eng.Guarded(func() eng.Res { return o.Do(w) })
			if err != nil || !r.OK() {
				eng.SetupTrouble(fmt.Sprintf("%s: %s %s %v", o.Name, r, r.Msg, err))
				continue
			}
			if f, ok := o.Tag.(effect); ok {
				f(m, &eng.Step{W: w, Op: &o, Res: r, Ghost: m})
			}
		}
		return w, m
	}
}

// storedNumber reads the number the server chose.
func storedNumber(w *eng.World, key string) int32 {
	b, ok := w.KV.Raw()[key]
	if !ok {
		return -1
	}
	if strings.HasPrefix(key, "/entities/") {
		e := &types.Entity{}
		proto.Unmarshal(b, e)
		return e.GetNumber()
	}
	g := &types.Group{}
	proto.Unmarshal(b, g)
	return g.GetNumber()
}

// The requests with their meaning.

func mEntityCreate(c eng.Caller, id string, num int32, secret string) eng.Op {
	return eng.EntityCreate(c, id, num, secret).With(effect(func(m *model, s *eng.Step) want {
		if m.E[id] != nil {
			return wExists
		}
		n := num
		if num == -1 {
			// Any unused positive number will do.
			n = storedNumber(s.W, "/entities/"+id)
			max := int32(0)
			for _, e := range m.E {
				if e.num > max {
					max = e.num
				}
				if e.num == n {
					n = -1
				}
			}
			if n < 1 {
				n = max + 1
			}
			if max == 1<<31-1 {
				m.E[id] = &mEnt{num: n, secret: secret}
				return want{either: true}
			}
		}
		m.E[id] = &mEnt{num: n, secret: secret}
		return wOK
	}))
}

func mEntityDestroy(c eng.Caller, id string) eng.Op {
	return eng.EntityDestroy(c, id).With(effect(func(m *model, s *eng.Step) want {
		if m.E[id] == nil {
			return wMissing
		}
		delete(m.E, id)
		return wOK
	}))
}

// onEnt wraps a change of one existing entity.
func onEnt(id string, f func(e *mEnt) want) effect {
	return func(m *model, s *eng.Step) want {
		e := m.E[id]
		if e == nil {
			return wMissing
		}
		for _, p := range []*set{&e.groups, &e.caps, &e.keys, &e.um} {
			if *p == nil {
				*p = set{}
			}
		}
		if e.typed == nil {
			e.typed = map[string]string{}
		}
		if e.kv == nil {
			e.kv = map[string]string{}
		}
		return f(e)
	}
}

func onGrp(name string, f func(g *mGrp) want) effect {
	return func(m *model, s *eng.Step) want {
		g := m.G[name]
		if g == nil {
			return wMissing
		}
		if g.caps == nil {
			g.caps = set{}
		}
		if g.um == nil {
			g.um = set{}
		}
		if g.rules == nil {
			g.rules = map[string]string{}
		}
		if g.kv == nil {
			g.kv = map[string]string{}
		}
		return f(g)
	}
}

func mLock(c eng.Caller, id string) eng.Op {
	return eng.EntityLock(c, id).With(onEnt(id, func(e *mEnt) want { e.locked = true; return wOK }))
}

func mUnlock(c eng.Caller, id string) eng.Op {
	return eng.EntityUnlock(c, id).With(onEnt(id, func(e *mEnt) want { e.locked = false; return wOK }))
}

func mEntityUpdate(c eng.Caller, id, what string, mk func() *types.EntityMeta) eng.Op {
	return eng.EntityUpdate(c, id, what, mk).With(onEnt(id, func(e *mEnt) want {
		m := mk()
		for k, v := range eng.ObsEntity(&types.Entity{Meta: m}).Typed {
			e.typed[k] = v
		}
		if m != nil {
			// A field given as empty is cleared.
			for k := range e.typed {
				if f := reflect.ValueOf(m).Elem().FieldByName(k); f.IsValid() && f.Kind() == reflect.Ptr && !f.IsNil() && f.Elem().Kind() == reflect.String && f.Elem().Len() == 0 {
					delete(e.typed, k)
				}
			}
		}
		return wOK
	}))
}

func mChangeSecret(c eng.Caller, id, next string) eng.Op {
	return eng.ChangeSecret(c, "root", id, "", next).With(effect(func(m *model, s *eng.Step) want {
		e := m.E[id]
		if e == nil {
			return wAny
		}
		e.secret = next
		return wOK
	}))
}

// z-index of an untyped key, which the fuzzy calls ignore.
func umBase(key string) string {
	for {
		i := strings.Index(key, "{")
		if i < 0 {
			return key
		}
		j := i + 1
		for j < len(key) && key[j] >= '0' && key[j] <= '9' {
			j++
		}
		if j == i+1 || j >= len(key) || key[j] != '}' {
			return key[:i+1] + umBase(key[i+1:])
		}
		key = key[:i] + key[j+1:]
	}
}

func umApply(um set, a rpb.Action, k, v string) {
	key := func(e string) string { return strings.SplitN(e, ":", 2)[0] }
	for e := range um {
		switch a {
		case rpb.Action_UPSERT, rpb.Action_CLEAREXACT:
			if key(e) == k {
				delete(um, e)
			}
		case rpb.Action_CLEARFUZZY:
			if umBase(key(e)) == umBase(k) {
				delete(um, e)
			}
		}
	}
	if a == rpb.Action_UPSERT {
		um[k+":"+v] = true
	}
}

func mEntityUM(c eng.Caller, id string, a rpb.Action, k, v string) eng.Op {
	return eng.EntityUM(c, id, a, k, v).With(onEnt(id, func(e *mEnt) want { umApply(e.um, a, k, v); return wOK }))
}

func mGroupUM(c eng.Caller, n string, a rpb.Action, k, v string) eng.Op {
	return eng.GroupUM(c, n, a, k, v).With(onGrp(n, func(g *mGrp) want { umApply(g.um, a, k, v); return wOK }))
}

func mKeys(c eng.Caller, id string, a rpb.Action, typ, key string) eng.Op {
	return eng.EntityKeys(c, id, a, typ, key).With(onEnt(id, func(e *mEnt) want {
		if key == "" && a == rpb.Action_DROP {
			// Naming only the type drops all keys of it.
			for k := range e.keys {
				if strings.HasPrefix(k, strings.ToUpper(typ)+":") {
					delete(e.keys, k)
				}
			}
			return wOK
		}
		e.keys[strings.ToUpper(typ)+":"+key] = a == rpb.Action_ADD
		return wOK
	}))
}

func kvApply(kv map[string]string, verb, k string, vs []string) want {
	_, have := kv[k]
	switch verb {
	case "Add":
		if have {
			return wExists
		}
		kv[k] = eng.KVString(eng.KVD(k, vs...))
	case "Del":
		if !have {
			return wMissing
		}
		delete(kv, k)
	case "Replace":
		if !have {
			return wMissing
		}
		kv[k] = eng.KVString(eng.KVD(k, vs...))
	}
	return wOK
}

func mKV2(c eng.Caller, entity bool, verb, target, k string, vs ...string) eng.Op {
	o := eng.KV2(c, entity, verb, target, k, vs...)
	if entity {
		return o.With(onEnt(target, func(e *mEnt) want { return kvApply(e.kv, verb, k, vs) }))
	}
	return o.With(onGrp(target, func(g *mGrp) want { return kvApply(g.kv, verb, k, vs) }))
}

func mGroupCreate(c eng.Caller, name, display, managed string, num int32) eng.Op {
	return eng.GroupCreate(c, name, display, managed, num).With(effect(func(m *model, s *eng.Step) want {
		if m.G[name] != nil {
			return wExists
		}
		if managed != "" && managed != name && m.G[managed] == nil {
			return wAny
		}
		n := num
		w := wOK
		if num == -1 {
			n = storedNumber(s.W, "/groups/"+name)
			max := int32(0)
			for _, g := range m.G {
				if g.num > max {
					max = g.num
				}
				if g.num == n {
					n = -1
				}
			}
			if n < 1 {
				n = max + 1
			}
			w.either = max == 1<<31-1
		}
		m.G[name] = &mGrp{num: n, display: display, managed: managed}
		return w
	}))
}

func mGroupDestroy(c eng.Caller, name string) eng.Op {
	return eng.GroupDestroy(c, name).With(effect(func(m *model, s *eng.Step) want {
		if m.G[name] == nil {
			return wMissing
		}
		delete(m.G, name)
		return wOK
	}))
}

func mGroupUpdate(c eng.Caller, name, what string, mk func() *types.Group) eng.Op {
	return eng.GroupUpdate(c, name, what, mk).With(onGrp(name, func(g *mGrp) want {
		u := mk()
		if u.DisplayName != nil {
			g.display = u.GetDisplayName()
		}
		if u.ManagedBy != nil {
			g.managed = u.GetManagedBy()
		}
		return wOK
	}))
}

// reaches reports whether the rules lead from group a to group b, and
// whether one of the groups on the way does not exist.
func (m *model) reaches(a, b string) (hit, dangling bool) {
	seen := set{}
	var walk func(x string)
	walk = func(x string) {
		if seen[x] {
			return
		}
		seen[x] = true
		if x == b {
			hit = true
		}
		g := m.G[x]
		if g == nil {
			dangling = true
			return
		}
		for t := range g.rules {
			walk(t)
		}
	}
	walk(a)
	return
}

func mRule(c eng.Caller, group, target string, a rpb.RuleAction) eng.Op {
	return eng.Rule(c, group, target, a).With(effect(func(m *model, s *eng.Step) want {
		g := m.G[group]
		if g == nil {
			return wMissing
		}
		if g.rules == nil {
			g.rules = map[string]string{}
		}
		if a == rpb.RuleAction_REMOVE_RULE {
			delete(g.rules, target)
			return wOK
		}
		if _, have := g.rules[target]; have || m.G[target] == nil || target == group {
			return wAny
		}
		hit, dangling := m.reaches(target, group)
		if hit {
			return wAny
		}
		g.rules[target] = a.String()
		// Rules that name a missing group may stand in the way.
		return want{ok: true, either: dangling}
	}))
}

func mMember(c eng.Caller, add bool, id string, group string) eng.Op {
	return eng.Member(c, add, id, group).With(effect(func(m *model, s *eng.Step) want {
		e := m.E[id]
		if e == nil {
			return wAny
		}
		if e.groups == nil {
			e.groups = set{}
		}
		e.groups[group] = add
		return want{ok: true, either: m.G[group] == nil}
	}))
}

func mCapability(c eng.Caller, direct bool, target string, a rpb.Action, cp types.Capability) eng.Op {
	return eng.Capability(c, direct, target, a, cp).With(effect(func(m *model, s *eng.Step) want {
		if direct {
			e := m.E[target]
			if e == nil {
				return wAny
			}
			if e.caps == nil {
				e.caps = set{}
			}
			e.caps[cp.String()] = a == rpb.Action_ADD
			return wOK
		}
		g := m.G[target]
		if g == nil {
			return wAny
		}
		if g.caps == nil {
			g.caps = set{}
		}
		g.caps[cp.String()] = a == rpb.Action_ADD
		return wOK
	}))
}
