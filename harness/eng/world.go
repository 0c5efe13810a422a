package eng

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	"github.com/hashicorp/go-hclog"
	"github.com/spf13/viper"
	"google.golang.org/grpc/metadata"

	"github.com/netauth/netauth/internal/crypto"
	"github.com/netauth/netauth/internal/db"
	"github.com/netauth/netauth/internal/rpc2"
	"github.com/netauth/netauth/internal/startup"
	"github.com/netauth/netauth/internal/token"
	"github.com/netauth/netauth/internal/tree"
	// all hooks
	_ "github.com/netauth/netauth/internal/tree/hooks"

	types "github.com/netauth/protocol"
	rpb "github.com/netauth/protocol/v2"
)

var (
	worldMu   sync.Mutex
	setupOnce sync.Once
)

// Setup performs the process-wide start-up the server's main does.
func Setup() {
	setupOnce.Do(func() {
		// Requests do not nest deeply: notice endless recursion early.
		debug.SetMaxStack(64 << 20)
		startup.DoCallbacks()
		db.RegisterKV("zv", kvFactory)
	})
}

// Config selects the variant of the server to assemble.
type Config struct {
	KV       db.KVStore
	ReadOnly bool
	Crypto   crypto.EMCrypto
	Token    token.Service
	NoLoad   bool // skip the start-up load
}

// World is one assembled server.
type World struct {
	Cfg    Config
	KV     *MemKV // nil when Cfg.KV is some other store
	DB     *db.DB
	Tree   *tree.Manager
	Srv    rpb.NetAuth2Server
	Token  token.Service
	Crypto crypto.EMCrypto
	Note   map[string]string // scratch space for harness operations
	Peer   *World            // a second server run in step with this one
}

// NewWorld assembles a server exactly as the daemon's main does: storage,
// crypto, tree, start-up load, token service, RPC layer.
func NewWorld(c Config) *World {
	Setup()
	if c.KV == nil {
		c.KV = NewMemKV()
	}
	if c.Crypto == nil {
		c.Crypto = FakeCrypto{}
	}
	if c.Token == nil {
		c.Token = FakeToken{}
	}
	w := &World{Cfg: c, Crypto: c.Crypto, Token: c.Token, Note: map[string]string{}}
	w.KV, _ = c.KV.(*MemKV)
	worldMu.Lock()
	nextKV = c.KV
	d, err := db.New("zv")
	worldMu.Unlock()
	if err != nil {
		panic(err)
	}
	w.DB = d
	w.Tree, err = tree.New(d, c.Crypto, hclog.NewNullLogger())
	if err != nil {
		panic(err)
	}
	if !c.NoLoad {
		if err := d.EventUpdateAll(); err != nil {
			panic(fmt.Errorf("start-up load failed: %w", err))
		}
	}
	worldMu.Lock()
	viper.Set("server.readonly", c.ReadOnly)
	w.Srv = rpc2.New(rpc2.Refs{TokenService: c.Token, Tree: w.Tree}, hclog.NewNullLogger())
	viper.Set("server.readonly", false)
	worldMu.Unlock()
	return w
}

// Restart builds a fresh server over the same stored data.
func (w *World) Restart() *World {
	c := w.Cfg
	if w.KV != nil {
		k := w.KV.Clone()
		c.KV = k
	}
	n := NewWorld(c)
	for k, v := range w.Note {
		n.Note[k] = v
	}
	if w.Peer != nil {
		n.Peer = w.Peer.Restart()
	}
	return n
}

// Become replaces w's contents by n's; used to model a restart in place.
func (w *World) Become(n *World) { *w = *n }

// FakeCrypto is a transparent stand-in for the password hash: deterministic
// and injective, but the stored form differs from the secret.
type FakeCrypto struct{}

// SecureSecret secures.
func (FakeCrypto) SecureSecret(s string) (string, error) { return "hash(" + s + ")", nil }

// VerifySecret verifies.
func (FakeCrypto) VerifySecret(s, h string) error {
	if "hash("+s+")" != h {
		return crypto.ErrAuthorizationFailure
	}
	return nil
}

// FakeToken is a transparent token service: the token is the JSON of the
// claims behind a marker; anything else is invalid.
type FakeToken struct{}

// Generate issues.
func (FakeToken) Generate(c token.Claims, _ token.Config) (string, error) {
	// The order of capabilities means nothing.
	c.Capabilities = append([]types.Capability{}, c.Capabilities...)
	sort.Slice(c.Capabilities, func(i, j int) bool { return c.Capabilities[i] < c.Capabilities[j] })
	b, err := json.Marshal(c)
	return "tok:" + string(b), err
}

// Validate checks.
func (FakeToken) Validate(t string) (token.Claims, error) {
	if !strings.HasPrefix(t, "tok:") {
		return token.Claims{}, token.ErrTokenInvalid
	}
	var c token.Claims
	if err := json.Unmarshal([]byte(t[4:]), &c); err != nil {
		return token.Claims{}, token.ErrTokenInvalid
	}
	return c, nil
}

// Tok mints a token with the world's own token service.
func (w *World) Tok(id string, caps ...types.Capability) string {
	t, err := w.Token.Generate(token.Claims{EntityID: id, Capabilities: caps}, token.GetConfig())
	if err != nil {
		panic(err)
	}
	return t
}

// Ctx returns a request context carrying the given token.
func Ctx(tok string) context.Context {
	md := metadata.Pairs("client-name", "zv", "service-name", "zv")
	if tok != "" {
		md.Append("authorization", tok)
	}
	return metadata.NewIncomingContext(context.Background(), md)
}

// Root returns a context holding full authority.
func (w *World) Root() context.Context {
	return Ctx(w.Tok("root-operator", types.Capability_GLOBAL_ROOT))
}

// ErrFault is the injected storage failure.
var ErrFault = errors.New("injected storage fault")
