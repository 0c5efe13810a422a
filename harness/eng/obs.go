package eng

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"github.com/golang/protobuf/proto"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	types "github.com/netauth/protocol"
	rpb "github.com/netauth/protocol/v2"
)

// EntObs is what a client can read about one entity.
type EntObs struct {
	ID     string
	Number int32
	Secret string
	HasSec bool
	Locked bool
	Typed  map[string]string
	Groups []string
	Caps   []string
	Keys   []string
	UM     []string
	KV     []string
}

// GrpObs is what a client can read about one group.
type GrpObs struct {
	Name, Display, ManagedBy string
	Number                   int32
	Caps                     []string
	Rules                    []string
	UM                       []string
	KV                       []string
}

// KVString renders one key/value entry.
func KVString(d *types.KVData) string {
	vs := []string{}
	for _, v := range d.GetValues() {
		vs = append(vs, fmt.Sprintf("%d=%s", v.GetIndex(), v.GetValue()))
	}
	return d.GetKey() + "->[" + strings.Join(vs, ",") + "]"
}

// KVStrings renders a list of key/value entries, ordered by key text.
func KVStrings(d []*types.KVData) []string {
	out := []string{}
	for _, x := range d {
		out = append(out, KVString(x))
	}
	sort.Strings(out)
	return out
}

func sorted(in []string) []string {
	out := append([]string{}, in...)
	sort.Strings(out)
	return out
}

func capStrings(c []types.Capability) []string {
	out := []string{}
	for _, x := range c {
		out = append(out, x.String())
	}
	sort.Strings(out)
	return out
}

// ObsEntity converts a message.
func ObsEntity(e *types.Entity) *EntObs {
	m := e.GetMeta()
	o := &EntObs{ID: e.GetID(), Number: e.GetNumber(), Secret: e.GetSecret(), HasSec: e.Secret != nil, Locked: m.GetLocked(),
		Typed:  map[string]string{},
		Groups: sorted(m.GetGroups()), Caps: capStrings(m.GetCapabilities()), Keys: sorted(m.GetKeys()),
		UM: sorted(m.GetUntypedMeta()), KV: KVStrings(m.GetKV())}
	put := func(k string, v *string) {
		if v != nil && *v != "" {
			o.Typed[k] = *v
		}
	}
	if m != nil {
		put("PrimaryGroup", m.PrimaryGroup)
		put("GECOS", m.GECOS)
		put("LegalName", m.LegalName)
		put("DisplayName", m.DisplayName)
		put("Home", m.Home)
		put("Shell", m.Shell)
		put("GraphicalShell", m.GraphicalShell)
		put("BadgeNumber", m.BadgeNumber)
	}
	return o
}

// ObsGroup converts a message.
func ObsGroup(g *types.Group) *GrpObs {
	return &GrpObs{Name: g.GetName(), Display: g.GetDisplayName(), ManagedBy: g.GetManagedBy(), Number: g.GetNumber(),
		Caps: capStrings(g.GetCapabilities()), Rules: sorted(g.GetExpansions()), UM: sorted(g.GetUntypedMeta()), KV: KVStrings(g.GetKV())}
}

func (o *EntObs) String() string {
	t := []string{}
	for k, v := range o.Typed {
		t = append(t, k+"="+v)
	}
	sort.Strings(t)
	return fmt.Sprintf("entity %q num=%d locked=%v typed=%q groups=%q caps=%v keys=%q um=%q kv=%q", o.ID, o.Number, o.Locked, t, o.Groups, o.Caps, o.Keys, o.UM, o.KV)
}

func (o *GrpObs) String() string {
	return fmt.Sprintf("group %q num=%d display=%q managed=%q caps=%v rules=%q um=%q kv=%q", o.Name, o.Number, o.Display, o.ManagedBy, o.Caps, o.Rules, o.UM, o.KV)
}

// Universe is the set of names an exploration talks about.
type Universe struct {
	Entities, Groups []string
}

// Obs is everything a client can observe about the universe.
type Obs struct {
	Ents     map[string]*EntObs
	Grps     map[string]*GrpObs
	Members  map[string][]string // by group name, via the members query
	GroupsOf map[string][]string // by entity id, via the groups query
	Err      []string            // unexpected read failures
}

// Observe reads the whole universe through the public read calls.
func (w *World) Observe(u Universe) *Obs {
	o := &Obs{Ents: map[string]*EntObs{}, Grps: map[string]*GrpObs{}, Members: map[string][]string{}, GroupsOf: map[string][]string{}}
	c := Ctx("")
	for _, id := range u.Entities {
		r, err := w.Srv.EntityInfo(c, &rpb.EntityRequest{Entity: &types.Entity{ID: proto.String(id)}})
		switch {
		case err == nil && len(r.GetEntities()) == 1:
			o.Ents[id] = ObsEntity(r.GetEntities()[0])
			gr, err := w.Srv.EntityGroups(c, &rpb.EntityRequest{Entity: &types.Entity{ID: proto.String(id)}})
			if err != nil {
				o.Err = append(o.Err, fmt.Sprintf("EntityGroups(%q): %v", id, err))
			}
			l := []string{}
			for _, g := range gr.GetGroups() {
				if g == nil {
					o.Err = append(o.Err, fmt.Sprintf("EntityGroups(%q) lists a group that cannot be read", id))
					continue
				}
				l = append(l, g.GetName())
			}
			o.GroupsOf[id] = sorted(l)
		case status.Code(err) == codes.NotFound:
		default:
			o.Err = append(o.Err, fmt.Sprintf("EntityInfo(%q): %v", id, err))
		}
	}
	for _, n := range u.Groups {
		r, err := w.Srv.GroupInfo(c, &rpb.GroupRequest{Group: &types.Group{Name: proto.String(n)}})
		switch {
		case err == nil && len(r.GetGroups()) == 1:
			o.Grps[n] = ObsGroup(r.GetGroups()[0])
			mr, err := w.Srv.GroupMembers(c, &rpb.GroupRequest{Group: &types.Group{Name: proto.String(n)}})
			if err != nil {
				o.Err = append(o.Err, fmt.Sprintf("GroupMembers(%q): %v", n, err))
			}
			l := []string{}
			for _, e := range mr.GetEntities() {
				l = append(l, e.GetID())
			}
			o.Members[n] = sorted(l)
		case status.Code(err) == codes.NotFound:
		default:
			o.Err = append(o.Err, fmt.Sprintf("GroupInfo(%q): %v", n, err))
		}
	}
	return o
}

// Attrs flattens an observation to attribute -> value, for frame checks.
func (o *Obs) Attrs() map[string]string {
	a := map[string]string{}
	for id, e := range o.Ents {
		p := "entity/" + id + "/"
		a[p+"exists"] = "yes"
		a[p+"id"] = e.ID
		a[p+"number"] = fmt.Sprint(e.Number)
		a[p+"locked"] = fmt.Sprint(e.Locked)
		for k, v := range e.Typed {
			a[p+"typed/"+k] = v
		}
		a[p+"groups"] = fmt.Sprintf("%q", e.Groups)
		a[p+"caps"] = fmt.Sprintf("%v", e.Caps)
		a[p+"keys"] = fmt.Sprintf("%q", e.Keys)
		a[p+"um"] = fmt.Sprintf("%q", e.UM)
		a[p+"kv"] = fmt.Sprintf("%q", e.KV)
	}
	for n, g := range o.Grps {
		p := "group/" + n + "/"
		a[p+"exists"] = "yes"
		a[p+"name"] = g.Name
		a[p+"number"] = fmt.Sprint(g.Number)
		a[p+"display"] = g.Display
		a[p+"managedby"] = g.ManagedBy
		a[p+"caps"] = fmt.Sprintf("%v", g.Caps)
		a[p+"rules"] = fmt.Sprintf("%q", g.Rules)
		a[p+"um"] = fmt.Sprintf("%q", g.UM)
		a[p+"kv"] = fmt.Sprintf("%q", g.KV)
	}
	return a
}

// DiffAttrs lists the attributes whose value differs.
func DiffAttrs(a, b map[string]string) []string {
	d := map[string]bool{}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			d[k] = true
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			d[k] = true
		}
	}
	out := []string{}
	for k := range d {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (o *Obs) String() string {
	b := &strings.Builder{}
	ids := []string{}
	for k := range o.Ents {
		ids = append(ids, k)
	}
	sort.Strings(ids)
	for _, id := range ids {
		fmt.Fprintf(b, "%s in=%q\n", o.Ents[id], o.GroupsOf[id])
	}
	ns := []string{}
	for k := range o.Grps {
		ns = append(ns, k)
	}
	sort.Strings(ns)
	for _, n := range ns {
		fmt.Fprintf(b, "%s members=%q\n", o.Grps[n], o.Members[n])
	}
	for _, e := range o.Err {
		fmt.Fprintln(b, "ERR", e)
	}
	return b.String()
}

// RawState renders the stored data canonically (list order that the server
// itself does not define is normalised).
func (w *World) RawState() string {
	if w.KV == nil {
		return ""
	}
	raw := w.KV.Raw()
	ks := []string{}
	for k := range raw {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	b := &strings.Builder{}
	for _, k := range ks {
		v := raw[k]
		switch path.Dir(k) {
		case "/entities":
			e := &types.Entity{}
			if proto.Unmarshal(v, e) == nil {
				m := e.GetMeta()
				if m != nil {
					sort.Strings(m.Groups)
					sort.Strings(m.Keys)
					sort.Slice(m.Capabilities, func(i, j int) bool { return m.Capabilities[i] < m.Capabilities[j] })
				}
				fmt.Fprintf(b, "%s=%s\n", k, proto.CompactTextString(e))
				continue
			}
		case "/groups":
			g := &types.Group{}
			if proto.Unmarshal(v, g) == nil {
				sort.Strings(g.Expansions)
				sort.Slice(g.Capabilities, func(i, j int) bool { return g.Capabilities[i] < g.Capabilities[j] })
				fmt.Fprintf(b, "%s=%s\n", k, proto.CompactTextString(g))
				continue
			}
		}
		fmt.Fprintf(b, "%s=%x\n", k, v)
	}
	return b.String()
}
