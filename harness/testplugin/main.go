// Command testplugin is a tree plugin whose behaviour is prescribed, action
// by action, by the file next to it; it writes down what it was called with.
package main

import (
	"encoding/base64"
	"encoding/json"
	"errors"
	"os"
	"path/filepath"

	"github.com/golang/protobuf/proto"
	"github.com/hashicorp/go-plugin"

	"github.com/netauth/netauth/pkg/plugin/tree"
	types "github.com/netauth/protocol"
)

// call is one line of the log.
type call struct {
	Action, E, DE string
}

type plug struct{ self, name string }

func enc(m proto.Message) string {
	b, err := proto.Marshal(m)
	if err != nil {
		return "unencodable: " + err.Error()
	}
	return base64.StdEncoding.EncodeToString(b)
}

func (p plug) act(action string, e, de proto.Message) (string, error) {
	c := call{action, enc(e), ""}
	if de != nil {
		c.DE = enc(de)
	}
	b, _ := json.Marshal(c)
	if f, err := os.OpenFile(p.self+".log", os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600); err == nil {
		f.Write(append(b, '\n'))
		f.Close()
	}
	ctl := map[string]string{}
	b, _ = os.ReadFile(p.self + ".ctl")
	json.Unmarshal(b, &ctl)
	switch ctl[action] {
	case "error":
		return "", errors.New("refused by the plugin")
	case "crash":
		os.Exit(7)
	}
	return ctl[action], nil
}

func (p plug) ent(action string, e types.Entity, de *types.Entity) (types.Entity, error) {
	var d proto.Message
	if de != nil {
		d = de
	}
	what, err := p.act(action, &e, d)
	if err != nil {
		return types.Entity{}, err
	}
	if what != "" && e.Meta == nil {
		e.Meta = &types.EntityMeta{}
	}
	switch what {
	case "tag":
		e.Meta.UntypedMeta = append(e.Meta.UntypedMeta, p.name+":"+action)
	case "strip":
		e.Meta.UntypedMeta, e.Meta.Groups, e.Meta.KV = nil, nil, nil
	case "lock":
		e.Meta.Locked = proto.Bool(true)
	}
	return e, nil
}

func (p plug) grp(action string, g types.Group) (types.Group, error) {
	what, err := p.act(action, &g, nil)
	if err != nil {
		return types.Group{}, err
	}
	switch what {
	case "tag":
		g.UntypedMeta = append(g.UntypedMeta, p.name+":"+action)
	case "strip":
		g.UntypedMeta, g.KV = nil, nil
	}
	return g, nil
}

func (p plug) EntityCreate(e, de types.Entity) (types.Entity, error) {
	return p.ent("EntityCreate", e, &de)
}
func (p plug) EntityUpdate(e types.Entity) (types.Entity, error) {
	return p.ent("EntityUpdate", e, nil)
}
func (p plug) EntityLock(e types.Entity) (types.Entity, error) { return p.ent("EntityLock", e, nil) }
func (p plug) EntityUnlock(e types.Entity) (types.Entity, error) {
	return p.ent("EntityUnlock", e, nil)
}
func (p plug) EntityDestroy(e types.Entity) (types.Entity, error) {
	return p.ent("EntityDestroy", e, nil)
}
func (p plug) GroupCreate(g types.Group) (types.Group, error)  { return p.grp("GroupCreate", g) }
func (p plug) GroupUpdate(g types.Group) (types.Group, error)  { return p.grp("GroupUpdate", g) }
func (p plug) GroupDestroy(g types.Group) (types.Group, error) { return p.grp("GroupDestroy", g) }
func (p plug) PreSecretChange(e, de types.Entity) (types.Entity, error) {
	return p.ent("PreSecretChange", e, &de)
}
func (p plug) PostSecretChange(e, de types.Entity) (types.Entity, error) {
	return p.ent("PostSecretChange", e, &de)
}
func (p plug) PreAuthCheck(e, de types.Entity) (types.Entity, error) {
	return p.ent("PreAuthCheck", e, &de)
}
func (p plug) PostAuthCheck(e, de types.Entity) (types.Entity, error) {
	return p.ent("PostAuthCheck", e, &de)
}

func main() {
	self := os.Args[0]
	ctl := map[string]string{}
	if b, err := os.ReadFile(self + ".ctl"); err == nil {
		json.Unmarshal(b, &ctl)
	}
	switch ctl["start"] {
	case "exit":
		os.Exit(1)
	case "garbage":
		os.Stdout.WriteString("hello, world\n")
		os.Exit(0)
	}
	if ctl["start"] == "other" {
		// Properly started, but with nothing the server looks for.
		plugin.Serve(&plugin.ServeConfig{
			HandshakeConfig: plugin.HandshakeConfig{ProtocolVersion: 1, MagicCookieKey: "TREE_PLUGIN", MagicCookieValue: "treehello"},
			Plugins:         map[string]plugin.Plugin{},
		})
		return
	}
	tree.PluginMain(plug{self, filepath.Base(self)})
}
