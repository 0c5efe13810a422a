package main

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"hash"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"github.com/spf13/viper"
	"google.golang.org/grpc/codes"

	"github.com/netauth/netauth/internal/token"
	"github.com/netauth/netauth/internal/zverif/eng"
	// the signing service itself
	_ "github.com/netauth/netauth/internal/token/jwt"

	types "github.com/netauth/protocol"
	rpb "github.com/netauth/protocol/v2"
)

// authorityOf is one server's signing service together with what everybody
// can know about it.
type issuer struct {
	dir string
	svc token.Service
	pub *rsa.PublicKey
	pem []byte
	der []byte
}

var issuerMu sync.Mutex

func service(dir string) (token.Service, error) {
	issuerMu.Lock()
	defer issuerMu.Unlock()
	viper.Set("core.conf", dir)
	viper.Set("token.jwt.generate", true)
	viper.Set("token.jwt.bits", 2048)
	return token.New("jwt-rsa")
}

func newIssuer(base, name string) *issuer {
	s := &issuer{dir: filepath.Join(base, name)}
	var err error
	if s.svc, err = service(s.dir); err != nil {
		panic(err)
	}
	s.pem, err = os.ReadFile(filepath.Join(s.dir, "keys", "token.pem"))
	if err != nil {
		panic(err)
	}
	b, _ := pem.Decode(s.pem)
	s.der = b.Bytes
	k, err := x509.ParsePKIXPublicKey(b.Bytes)
	if err != nil {
		panic(err)
	}
	s.pub = k.(*rsa.PublicKey)
	return s
}

func conf(from, life time.Duration) token.Config {
	t := time.Now().Add(from)
	return token.Config{Lifetime: life, IssuedAt: t, NotBefore: t}
}

// bench is what the cases are built from.
type bench struct {
	a, b     *issuer
	client   token.Service // knows only a's public key
	restart  token.Service // a's keys, loaded again
	attacker *rsa.PrivateKey
	ec       *ecdsa.PrivateKey
	root     token.Claims
	plain    token.Claims
	good     string // plain, valid
	goodRoot string // root, valid
	expired  string // root, no longer valid
	early    string // root, not valid yet
	foreign  string // root, by another server
}

func newBench(base string) *bench {
	x := &bench{a: newIssuer(base, "a"), b: newIssuer(base, "b")}
	var err error
	if x.restart, err = service(x.a.dir); err != nil {
		panic(err)
	}
	cd := filepath.Join(base, "client")
	os.MkdirAll(filepath.Join(cd, "keys"), 0755)
	f := filepath.Join(cd, "keys", "token.pem")
	os.WriteFile(f, x.a.pem, 0644)
	os.Chmod(f, 0644)
	if x.client, err = service(cd); err != nil {
		panic(err)
	}
	x.attacker, _ = rsa.GenerateKey(rand.Reader, 2048)
	x.ec, _ = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	x.root = token.Claims{EntityID: "admin", Capabilities: []types.Capability{types.Capability_GLOBAL_ROOT}}
	x.plain = token.Claims{EntityID: "mallory"}
	mint := func(s *issuer, c token.Claims, cf token.Config) string {
		t, err := s.svc.Generate(c, cf)
		if err != nil {
			panic(err)
		}
		return t
	}
	x.good = mint(x.a, x.plain, conf(0, time.Hour))
	x.goodRoot = mint(x.a, x.root, conf(0, time.Hour))
	x.expired = mint(x.a, x.root, conf(-2*time.Hour, time.Hour))
	x.early = mint(x.a, x.root, conf(time.Hour, time.Hour))
	x.foreign = mint(x.b, token.Claims{EntityID: "foreign admin", Capabilities: x.root.Capabilities}, conf(0, time.Hour))
	return x
}

func sameClaims(p, q token.Claims) bool {
	if p.EntityID != q.EntityID || len(p.Capabilities) != len(q.Capabilities) {
		return false
	}
	k := func(c token.Claims) string {
		l := append([]types.Capability{}, c.Capabilities...)
		sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
		return fmt.Sprint(l)
	}
	return k(p) == k(q)
}

// forged is a presented string; ok lists the claims it may be accepted with.
type forged struct {
	name string
	tok  string
	ok   []token.Claims
}

var b64 = base64.RawURLEncoding

const tokenAlphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.=+/ \n\x00"

// mutants lists every small change of a token.
func mutants(what, t string, ok []token.Claims, pairs bool) []forged {
	var out []forged
	add := func(n, v string) { out = append(out, forged{what + ": " + n, v, ok}) }
	for i := 0; i <= len(t); i++ {
		if i < len(t) {
			for _, c := range []byte(tokenAlphabet) {
				if c != t[i] {
					add(fmt.Sprintf("character %d becomes %q", i, c), t[:i]+string([]byte{c})+t[i+1:])
				}
			}
			add(fmt.Sprintf("character %d removed", i), t[:i]+t[i+1:])
			add(fmt.Sprintf("cut to %d characters", i), t[:i])
			add(fmt.Sprintf("first %d characters removed", i+1), t[i+1:])
			if i+1 < len(t) {
				add(fmt.Sprintf("characters %d and %d swapped", i, i+1), t[:i]+t[i+1:i+2]+t[i:i+1]+t[i+2:])
			}
		}
		for _, c := range []string{"A", ".", "=", "\n", " ", "%", "\u00e9"} {
			add(fmt.Sprintf("%q put in at %d", c, i), t[:i]+c+t[i:])
		}
	}
	if pairs {
		p := strings.Split(t, ".")
		for k := range p {
			for n := 0; n <= len(p[k]); n += 3 {
				q := append([]string{}, p...)
				q[k] = p[k][:n]
				add(fmt.Sprintf("part %d cut to %d characters", k, n), strings.Join(q, "."))
			}
		}
	}
	return out
}

func (x *bench) sign(alg string, in []byte, key string) []byte {
	hs := map[string]crypto.Hash{"256": crypto.SHA256, "384": crypto.SHA384, "512": crypto.SHA512}
	h := crypto.SHA512
	if len(alg) > 3 {
		if q, ok := hs[alg[len(alg)-3:]]; ok {
			h = q
		}
	}
	d := h.New()
	d.Write(in)
	sum := d.Sum(nil)
	switch key {
	case "no signature":
		return nil
	case "the attacker's RSA key":
		var s []byte
		if strings.HasPrefix(alg, "PS") {
			s, _ = rsa.SignPSS(rand.Reader, x.attacker, h, sum, &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthAuto})
		} else {
			s, _ = rsa.SignPKCS1v15(rand.Reader, x.attacker, h, sum)
		}
		return s
	case "the attacker's EC key":
		r, s, _ := ecdsa.Sign(rand.Reader, x.ec, sum)
		out := make([]byte, 64)
		r.FillBytes(out[:32])
		s.FillBytes(out[32:])
		return out
	case "a genuine signature of something else":
		b, _ := b64.DecodeString(strings.Split(x.good, ".")[2])
		return b
	case "zeroes":
		return make([]byte, 256)
	case "the digest":
		return sum
	}
	var k []byte
	switch key {
	case "HMAC by the public key's PEM":
		k = x.a.pem
	case "HMAC by the public key's PEM, trimmed":
		k = []byte(strings.TrimSpace(string(x.a.pem)))
	case "HMAC by the public key's DER":
		k = x.a.der
	case "HMAC by the modulus":
		k = x.a.pub.N.Bytes()
	case "HMAC by nothing":
	}
	f := map[crypto.Hash]func() hash.Hash{crypto.SHA256: sha256.New, crypto.SHA384: sha512.New384, crypto.SHA512: sha512.New}[h]
	m := hmac.New(f, k)
	m.Write(in)
	return m.Sum(nil)
}

func payload(c token.Claims, extra map[string]interface{}) []byte {
	now := time.Now().Unix()
	m := map[string]interface{}{"EntityID": c.EntityID, "Capabilities": c.Capabilities, "iat": now, "nbf": now, "exp": now + 3600, "jti": c.EntityID, "sub": "NetAuth Standard Token", "aud": "Unrestricted"}
	for k, v := range extra {
		if v == nil {
			delete(m, k)
		} else {
			m[k] = v
		}
	}
	b, _ := json.Marshal(m)
	return b
}

// forgeries lists the strings an outsider can build.
func (x *bench) forgeries(thorough bool) []forged {
	var out []forged
	algs := []interface{}{"none", "None", "NONE", "nOnE", "HS256", "HS384", "HS512", "RS256", "RS384", "RS512", "PS256", "PS384", "PS512", "ES256", "ES384", "ES512", "rs512", "RS512 ", "", "A256GCM", "dir", "EdDSA", 1, nil, true, []string{"RS512"}, map[string]string{"RS512": ""}}
	keys := []string{"no signature", "the attacker's RSA key", "the attacker's EC key", "a genuine signature of something else", "zeroes", "the digest", "HMAC by the public key's PEM", "HMAC by the public key's PEM, trimmed", "HMAC by the public key's DER", "HMAC by the modulus", "HMAC by nothing"}
	payloads := []struct {
		n string
		b []byte
	}{
		{"root", payload(x.root, nil)},
		{"root for ever", payload(x.root, map[string]interface{}{"exp": nil, "nbf": nil, "iat": nil})},
		{"plain", payload(x.plain, nil)},
		{"nothing", []byte("{}")}, {"null", []byte("null")}, {"empty", nil}, {"list", []byte("[]")}, {"not JSON", []byte("{")},
	}
	jwk := map[string]interface{}{"kty": "RSA", "n": b64.EncodeToString(x.attacker.N.Bytes()), "e": "AQAB", "kid": "k"}
	heads := []struct {
		n string
		h map[string]interface{}
	}{
		{"plain header", map[string]interface{}{"typ": "JWT"}},
		{"header with a key", map[string]interface{}{"typ": "JWT", "jwk": jwk, "kid": "../../../../dev/null", "jku": "file:///dev/null"}},
		{"bare header", map[string]interface{}{}},
	}
	for _, hd := range heads {
		for _, alg := range algs {
			h := map[string]interface{}{}
			for k, v := range hd.h {
				h[k] = v
			}
			if alg != nil {
				h["alg"] = alg
			}
			hb, _ := json.Marshal(h)
			for _, p := range payloads {
				for _, k := range keys {
					in := b64.EncodeToString(hb) + "." + b64.EncodeToString(p.b)
					a, _ := alg.(string)
					sig := x.sign(a, []byte(in), k)
					out = append(out, forged{fmt.Sprintf("%s, alg %v, payload %s, signed with %s", hd.n, alg, p.n, k), in + "." + b64.EncodeToString(sig), nil})
					if k == "no signature" {
						out = append(out, forged{fmt.Sprintf("%s, alg %v, payload %s, two parts", hd.n, alg, p.n), in, nil})
					}
				}
			}
		}
	}
	// every way of putting parts of genuine tokens together
	src := []struct {
		n  string
		t  string
		ok []token.Claims
	}{{"valid", x.good, []token.Claims{x.plain}}, {"root", x.goodRoot, []token.Claims{x.root}}, {"expired", x.expired, nil}, {"early", x.early, nil}, {"foreign", x.foreign, nil}}
	for i := range src {
		for j := range src {
			for k := range src {
				p, q, s := strings.Split(src[i].t, "."), strings.Split(src[j].t, "."), strings.Split(src[k].t, ".")
				var ok []token.Claims
				for _, g := range src {
					// The claims of two tokens may be the same.
					if g.t == p[0]+"."+q[1]+"."+s[2] {
						ok = g.ok
					}
				}
				n := fmt.Sprintf("header of %s, claims of %s, signature of %s", src[i].n, src[j].n, src[k].n)
				out = append(out, forged{n, p[0] + "." + q[1] + "." + s[2], ok})
				out = append(out, forged{n + ", and more", p[0] + "." + q[1] + "." + s[2] + "." + s[2], nil})
				out = append(out, forged{n + ", twice", p[0] + "." + q[1] + "." + s[2] + ";" + src[1].t, nil})
			}
		}
	}
	for _, s := range []string{"", " ", ".", "..", "...", "null", "{}", "bogus", "Bearer", "admin", strings.Repeat("A", 1<<16), strings.Repeat(".", 1000), "\xff\xfe", "eyJ.eyJ.eyJ"} {
		n := s
		if len(n) > 20 {
			n = fmt.Sprintf("%d times %q", len(s), s[:1])
		}
		out = append(out, forged{fmt.Sprintf("the string %q", n), s, nil})
	}
	out = append(out, forged{"Bearer and a valid token", "Bearer " + x.goodRoot, []token.Claims{x.root}}, forged{"lower case", strings.ToLower(x.goodRoot), nil}, forged{"upper case", strings.ToUpper(x.goodRoot), nil})
	out = append(out, mutants("valid", x.good, []token.Claims{x.plain}, thorough)...)
	out = append(out, mutants("expired root", x.expired, nil, thorough)...)
	out = append(out, mutants("root of another server", x.foreign, nil, thorough)...)
	if thorough {
		out = append(out, mutants("root", x.goodRoot, []token.Claims{x.root}, true)...)
		out = append(out, mutants("early root", x.early, nil, true)...)
	}
	return out
}

func present(s token.Service, tok string) (c token.Claims, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("CRASH %v", p)
		}
	}()
	return s.Validate(tok)
}

func (x *bench) judge(f forged) error {
	for _, v := range []struct {
		n string
		s token.Service
	}{{"the server", x.a.svc}, {"a client with the public key", x.client}} {
		c, err := present(v.s, f.tok)
		if err != nil {
			if strings.HasPrefix(err.Error(), "CRASH") {
				return fmt.Errorf("%s presented to %s: %v", f.name, v.n, err)
			}
			continue
		}
		good := false
		for _, o := range f.ok {
			good = good || sameClaims(o, c)
		}
		if !good {
			return fmt.Errorf("%s is accepted by %s, as %q with %v", f.name, v.n, c.EntityID, c.Capabilities)
		}
	}
	return nil
}

// genuine is a token that was issued.
type genuine struct {
	name string
	c    token.Claims
	from time.Duration
	life time.Duration
}

var claimIDs = []string{"a", "", " ", "e1", "E1", "é", "e\u0301", "\u2028", "<b>&amp;", `"`, `\`, `","Capabilities":[0],"x":"`, "\x00", "\n", "\u0130", "\U0001f511", strings.Repeat("long", 500), "../a", ".", "..", "\xff", "a\xffb", "\xed\xa0\x80", "\ufffd", "null", "0", "EntityID"}

func genuines(thorough bool) []genuine {
	var out []genuine
	n := len(allCaps)
	for set := 0; set < 1<<uint(n); set++ {
		var cs []types.Capability
		for i, c := range allCaps {
			if set&(1<<uint(i)) != 0 {
				cs = append(cs, c)
			}
		}
		bits := len(cs)
		if !thorough && bits > 2 && bits < n-1 {
			continue
		}
		out = append(out, genuine{fmt.Sprintf("capabilities %v", cs), token.Claims{EntityID: "e1", Capabilities: cs}, 0, time.Hour})
	}
	for _, cs := range [][]types.Capability{{7, 7}, {-1}, {999}, {2147483647, 0}} {
		out = append(out, genuine{fmt.Sprintf("capabilities %v", cs), token.Claims{EntityID: "e1", Capabilities: cs}, 0, time.Hour})
	}
	for _, id := range claimIDs {
		for _, cs := range [][]types.Capability{nil, {types.Capability_GLOBAL_ROOT}} {
			n := id
			if len(n) > 40 {
				n = n[:40] + "..."
			}
			out = append(out, genuine{fmt.Sprintf("entity %q with %v", n, cs), token.Claims{EntityID: id, Capabilities: cs}, 0, time.Hour})
		}
	}
	// Lifetimes and moments; nothing is asked within half a minute of a limit.
	steps := []time.Duration{0, time.Minute, 5 * time.Minute, time.Hour, 24 * time.Hour, 400 * 24 * time.Hour, 20 * 365 * 24 * time.Hour}
	for _, life := range steps[1:] {
		for _, ago := range steps {
			for _, sign := range []time.Duration{-1, 1} {
				from := ago * sign
				out = append(out, genuine{fmt.Sprintf("valid for %v from %v on", life, from), token.Claims{EntityID: "e1"}, from, life})
			}
		}
	}
	return out
}

// expect tells whether the token must be accepted now (1), refused (-1) or
// is too close to call.
func (g genuine) expect() int {
	const m = 30 * time.Second
	if g.from > m || g.from+g.life < -m {
		return -1
	}
	if g.from <= 0 && g.from+g.life > m {
		return 1
	}
	return 0
}

func (x *bench) try(g genuine) error {
	for _, issued := range []time.Duration{g.from, -time.Minute, -time.Hour} {
		cf := conf(g.from, g.life)
		cf.IssuedAt = time.Now().Add(issued)
		if err := x.tryConf(g, cf); err != nil {
			return err
		}
		if g.from == 0 {
			break
		}
	}
	return nil
}

// tryConf issues a token with the given moments, and presents it.
func (x *bench) tryConf(g genuine, cf token.Config) error {
	t, err := x.a.svc.Generate(g.c, cf)
	if err != nil {
		if !utf8.ValidString(g.c.EntityID) {
			return nil // cannot be written down; refusing is right
		}
		return fmt.Errorf("no token is issued for %s: %v", g.name, err)
	}
	for _, v := range []struct {
		n string
		s token.Service
	}{{"the server", x.a.svc}, {"the server after a restart", x.restart}, {"a client with the public key", x.client}} {
		c, err := present(v.s, t)
		switch want := g.expect(); {
		case err == nil && want < 0:
			return fmt.Errorf("a token %s is accepted by %s", g.name, v.n)
		case err != nil && want > 0:
			return fmt.Errorf("a token with %s is refused by %s: %v", g.name, v.n, err)
		case err == nil && !sameClaims(c, g.c):
			return fmt.Errorf("a token with %s says %q with %v to %s", g.name, c.EntityID, c.Capabilities, v.n)
		}
	}
	if c, err := present(x.b.svc, t); err == nil {
		return fmt.Errorf("a token with %s is accepted by another server, as %q", g.name, c.EntityID)
	}
	return nil
}

func tokenBase() string {
	d, err := os.MkdirTemp("", "zvtok")
	if err != nil {
		panic(err)
	}
	return d
}

// badTokens lists presented strings that no request may be honoured for.
func badTokens() []struct {
	n string
	f func(x *bench) string
} {
	type bt = struct {
		n string
		f func(x *bench) string
	}
	forge := func(alg, key string) func(x *bench) string {
		return func(x *bench) string {
			h, _ := json.Marshal(map[string]string{"alg": alg, "typ": "JWT"})
			in := b64.EncodeToString(h) + "." + b64.EncodeToString(payload(x.root, nil))
			return in + "." + b64.EncodeToString(x.sign(alg, []byte(in), key))
		}
	}
	return []bt{
		{"an expired token", func(x *bench) string { return x.expired }},
		{"a token that is not valid yet", func(x *bench) string { return x.early }},
		{"another server's token", func(x *bench) string { return x.foreign }},
		{"an unsigned token", forge("none", "no signature")},
		{"a token signed by the caller", forge("RS512", "the attacker's RSA key")},
		{"a token signed with HMAC by the public key", forge("HS512", "HMAC by the public key's PEM")},
		{"a token whose claims were exchanged", func(x *bench) string {
			p, q := strings.Split(x.good, "."), strings.Split(x.goodRoot, ".")
			return p[0] + "." + q[1] + "." + p[2]
		}},
		{"a token cut short", func(x *bench) string { return x.goodRoot[:len(x.goodRoot)-3] }},
		{"a token without signature", func(x *bench) string { return x.goodRoot[:strings.LastIndex(x.goodRoot, ".")+1] }},
		{"nonsense", func(x *bench) string { return "bogus" }},
	}
}

var (
	rpcBench     *bench
	rpcBenchOnce sync.Once
)

func theBench() *bench {
	rpcBenchOnce.Do(func() {
		base := tokenBase()
		rpcBench = newBench(base)
		os.RemoveAll(base)
	})
	return rpcBench
}

func init() {
	register(&eng.Check{ID: "C07", Level: "model_checking",
		Specs: func(r *eng.Run) []eng.Spec {
			var ops []eng.Op
			for _, m := range mutators() {
				for _, b := range badTokens() {
					b := b
					o := m.mk(func(*eng.World) eng.Context { return eng.Ctx(b.f(theBench())) })
					ops = append(ops, o.Named("%s with %s", o.Name, b.n).With(authority{caller: b.n, token: "bad"}))
				}
				o := m.mk(func(*eng.World) eng.Context { return eng.Ctx(theBench().good) })
				if m.self == "" {
					ops = append(ops, o.Named("%s with a valid token of somebody else", o.Name).With(authority{caller: "mallory, with a token without capabilities"}))
				}
				o = m.mk(func(*eng.World) eng.Context { return eng.Ctx(theBench().goodRoot) })
				ops = append(ops, o.Named("%s with a valid root token", o.Name).With(authority{caller: "root", allowed: true}))
			}
			check := func(n string, f func(x *bench) string, ok bool) {
				ops = append(ops, eng.Op{Name: "AuthValidateToken of " + n, Do: func(w *eng.World) eng.Res {
					_, err := w.Srv.AuthValidateToken(eng.Ctx(""), &rpb.AuthRequest{Token: eng.S(f(theBench()))})
					return eng.R(err)
				}, Tag: ok})
			}
			for _, b := range badTokens() {
				check(b.n, b.f, false)
			}
			check("a valid token", func(x *bench) string { return x.good }, true)
			return []eng.Spec{{Name: "requests", NoObs: true, Ops: ops, Depth: r.Pick(2, 3),
				Init: func() (*eng.World, eng.Ghost) {
					return setup(eng.Config{Token: theBench().a.svc}, populated("")...), eng.NoGhost{}
				},
				Step: func(s *eng.Step) (eng.Ghost, error) {
					if ok, is := s.Op.Tag.(bool); is {
						if s.Res.OK() != ok {
							return s.Ghost, fmt.Errorf("%s answers %s", s.Op.Name, s.Res)
						}
						return s.Ghost, unchanged(s)
					}
					if a := s.Op.Tag.(authority); a.token == "bad" && s.Res.Code != codes.Unauthenticated {
						return s.Ghost, fmt.Errorf("%s answers %s", s.Op.Name, s.Res)
					}
					return authorityStep(s)
				}}}
		},
		Run: func(r *eng.Run) {
			base := tokenBase()
			defer os.RemoveAll(base)
			x := newBench(base)
			t0 := time.Now()
			gs := genuines(r.Thorough())
			eachOf(len(gs), func(i int) {
				if !r.Expired() {
					if err := x.try(gs[i]); err != nil {
						failSafe(r, "issued", []string{gs[i].name}, err)
					}
				}
			})
			fs := x.forgeries(r.Thorough())
			eachOf(len(fs), func(i int) {
				if !r.Expired() {
					if err := x.judge(fs[i]); err != nil {
						failSafe(r, "forged", []string{fs[i].name}, err)
					}
				}
			})
			r.Add(int64(len(gs)+len(fs)), int64(len(gs)*4+len(fs)*2), int64(len(gs)*4+len(fs)*2))
			l, _ := r.Extra["explorations"].([]string)
			l = append(l, fmt.Sprintf("issued tokens: %d (claims, lifetimes and moments), each presented to the server, the server restarted, a client, another server", len(gs)),
				fmt.Sprintf("forged tokens: %d (algorithms x keys x payloads, splices, every single-character change), each presented to the server and a client; %.1fs", len(fs), time.Since(t0).Seconds()))
			for _, err := range lifetimes() {
				failSafe(r, "lifetime", nil, err)
			}
			r.Extra["explorations"] = append(l, "lifetimes: 2 s and an hour configured, token asked for, presented at once and after the 2 s have passed")
			r.Sample("forged: %s", fs[len(fs)/3].name)
			r.Sample("issued: %s", gs[len(gs)/2].name)
		},
		ReplayOne: func(r *eng.Run, v *eng.Violation) error {
			base := tokenBase()
			defer os.RemoveAll(base)
			if v.Spec == "lifetime" {
				for _, err := range lifetimes() {
					return err
				}
				return nil
			}
			x := newBench(base)
			if v.Spec == "issued" {
				for _, g := range genuines(true) {
					if g.name == v.Trace[0] {
						return x.try(g)
					}
				}
			}
			for _, f := range x.forgeries(true) {
				if f.name == v.Trace[0] {
					return x.judge(f)
				}
			}
			return nil
		}})
}

// lifetimes asks a server for tokens and waits.
func lifetimes() (errs []error) {
	w := setup(eng.Config{Token: theBench().a.svc}, eng.EntityCreate(eng.AsRoot, "e1", -1, "a"))
	defer token.SetLifetime(5 * time.Minute)
	ask := func(l time.Duration) string {
		token.SetLifetime(l)
		r := eng.GetToken("e1", "a").Do(w)
		if !r.OK() {
			errs = append(errs, fmt.Errorf("no token is issued: %s", r))
		}
		return r.Data
	}
	use := func(t string) error {
		_, err := w.Srv.AuthValidateToken(eng.Ctx(""), &rpb.AuthRequest{Token: eng.S(t)})
		return err
	}
	long := ask(time.Hour)
	short := ask(2 * time.Second)
	t0 := time.Now()
	if err := use(short); err != nil && time.Since(t0) < time.Second {
		errs = append(errs, fmt.Errorf("a token just issued for 2 seconds is refused: %v", err))
	}
	if err := use(long); err != nil {
		errs = append(errs, fmt.Errorf("a token just issued for an hour is refused: %v", err))
	}
	time.Sleep(4500 * time.Millisecond)
	if err := use(short); err == nil {
		errs = append(errs, fmt.Errorf("a token issued for 2 seconds is accepted after 4.5 seconds"))
	}
	if err := use(long); err != nil {
		errs = append(errs, fmt.Errorf("a token issued for an hour is refused after 5 seconds: %v", err))
	}
	return errs
}

var failMu sync.Mutex

func failSafe(r *eng.Run, spec string, trace []string, err error) {
	failMu.Lock()
	defer failMu.Unlock()
	r.Fail(spec, trace, "%v", err)
}

// eachOf runs f on every index, on all cores.
func eachOf(n int, f func(i int)) {
	var wg sync.WaitGroup
	p := runtime.NumCPU()
	for c := 0; c < p; c++ {
		wg.Add(1)
		go func(c int) {
			defer wg.Done()
			for i := c; i < n; i += p {
				f(i)
			}
		}(c)
	}
	wg.Wait()
}
