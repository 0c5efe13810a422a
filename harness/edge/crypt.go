package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/hashicorp/go-hclog"
	"github.com/spf13/viper"
	xbcrypt "golang.org/x/crypto/bcrypt"

	"github.com/netauth/netauth/internal/crypto"
	_ "github.com/netauth/netauth/internal/crypto/bcrypt"
	"github.com/netauth/netauth/internal/zverif/eng"
	types "github.com/netauth/protocol"
	rpb "github.com/netauth/protocol/v2"
)

// short is every string up to a length over a few bytes that hashes like to
// trip over.
func short(n int) []string {
	out := []string{""}
	last := out
	for i := 0; i < n; i++ {
		var next []string
		for _, s := range last {
			for _, c := range []string{"a", "A", "\x00", " ", "\xff"} {
				next = append(next, s+c)
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

// long is secrets around the lengths at which the hash's input ends, that
// agree up to some place.
func long(lo, hi, step int) []string {
	var out []string
	for n := lo; n <= hi; n += step {
		a := strings.Repeat("correct horse ", n/14+1)[:n]
		out = append(out, a)
		for _, i := range []int{0, n / 2, n - 2, n - 1} {
			if i < 0 || i >= n {
				continue
			}
			for _, c := range []string{"X", "\x00"} {
				out = append(out, a[:i]+c+a[i+1:])
			}
		}
	}
	return out
}

// periodic is secrets that repeat, with and without a zero byte.
func periodic(n int) []string {
	var out []string
	for _, p := range []string{"a", "ab", "a\x00", "ab\x00", "\x00", "secret\x00", "\xff", "é"} {
		for i := 1; i <= n; i++ {
			out = append(out, strings.Repeat(p, i))
			out = append(out, strings.TrimSuffix(strings.Repeat(p, i), "\x00"))
		}
	}
	return out
}

// words is secrets that people would take for the same.
func words(n int) []string {
	var out []string
	for _, s := range []string{"password", "Password", "PASSWORD", "passw0rd", "pässword", "pa\u0308ssword", "p\xe4ssword", "пароль", "暗号", "$2a$04$abcdefghijklmnopqrstuu", "\u212a", "K", "k", "ſ", "s", "ß", "ss", "１", "1", "\ufeffx", "x", "x\u200b", "%41", "A", "&amp;", "&", "a\\", "a\"", "'", "`", "${HOME}"} {
		for _, t := range []string{s, " " + s, s + " ", s + "\n", s + "\r\n", s + "\x00", "\x00" + s, "\t" + s, s + s, s + "\x00" + s, s + ":" + s}[:n] {
			out = append(out, t)
		}
	}
	return out
}

func distinct(l []string) []string {
	m := map[string]bool{}
	var out []string
	for _, s := range l {
		if !m[s] {
			m[s] = true
			out = append(out, s)
		}
	}
	sort.Strings(out)
	return out
}

func secretsOf(fam, tier string) []string {
	t := tier == "thorough"
	pick := func(a, b int) int {
		if t {
			return b
		}
		return a
	}
	switch fam {
	case "short":
		return distinct(short(pick(3, 4)))
	case "long":
		return distinct(append(append(long(0, 48, pick(12, 3)), long(pick(70, 49), 74, 1)...), append(long(pick(144, 75), 145, 1), long(200, 300, pick(100, 25))...)...))
	case "periodic":
		return distinct(periodic(pick(9, 40)))
	case "words":
		return distinct(words(pick(5, 11)))
	}
	panic(fam)
}

func newBcrypt(cost int) crypto.EMCrypto {
	eng.Setup()
	viper.Set("crypto.bcrypt.cost", cost)
	crypto.SetParentLogger(hclog.NewNullLogger())
	c, err := crypto.New("bcrypt")
	if err != nil {
		panic(err)
	}
	return c
}

// hashOf secures a secret, or says why it must not be refused.
func hashOf(rep *report, c crypto.EMCrypto, s string, cost int) (string, bool) {
	h, err := c.SecureSecret(s)
	if err != nil {
		// It may be refused; then it is nobody's secret.
		return "", false
	}
	if n, err := xbcrypt.Cost([]byte(h)); err != nil || n != cost {
		rep.fail([]string{fmt.Sprintf("secret %q", s)}, "a cost of %d is set, and %d used (%v)", cost, n, err)
	}
	if len(s) >= 6 && strings.Contains(h[7:], s) {
		rep.fail([]string{fmt.Sprintf("secret %q", s)}, "the stored form contains the secret")
	}
	return h, true
}

// pairs presents every secret of a family for every other one.
func pairs(rep *report, fam, tier string, part, parts int) {
	const cost = 4
	c := newBcrypt(cost)
	l := secretsOf(fam, tier)
	for i, s := range l {
		if i%parts != part {
			continue
		}
		h, ok := hashOf(rep, c, s, cost)
		if !ok {
			if len(s) > 0 && len(s) <= 72 && strings.Index(s, "\x00") < 0 {
				rep.fail([]string{fmt.Sprintf("secret %q", s)}, "an ordinary secret is refused")
			}
			continue
		}
		rep.States++
		h2, _ := hashOf(rep, c, s, cost)
		if h == h2 {
			rep.fail([]string{fmt.Sprintf("secret %q", s)}, "the same secret is stored in the same form twice")
		}
		for _, t := range l {
			rep.Trans++
			err := c.VerifySecret(t, h)
			switch {
			case s == t && err != nil:
				rep.fail([]string{fmt.Sprintf("secret %q", s)}, "the secret is not accepted: %v", err)
			case s != t && err == nil:
				rep.fail([]string{fmt.Sprintf("secret %q (%d bytes), presented %q (%d bytes)", s, len(s), t, len(t))}, "another secret is accepted")
			case s != t && err != crypto.ErrAuthorizationFailure:
				rep.fail([]string{fmt.Sprintf("secret %q, presented %q", s, t)}, "a wrong secret is answered with %v", err)
			}
		}
	}
	rep.Complete = true
}

// storedForms presents secrets for stored forms that no secret was secured to.
func storedForms(rep *report) {
	const cost = 4
	c := newBcrypt(cost)
	secrets := []string{"", "x", "secret", "\x00", "$2a$04$", strings.Repeat("x", 80)}
	for _, s := range secrets {
		h, ok := hashOf(rep, c, s, cost)
		if !ok {
			continue
		}
		forms := []string{"", "x", s, "secret", "$", "$2a$", "$2a$04$", "{PLAIN}" + s, strings.ToUpper(h), " " + h, "x" + h}
		for i := 0; i < len(h); i++ {
			forms = append(forms, h[:i], h[i+1:])
		}
		// What comes before is not the hash itself.
		for i := 29; i < len(h); i++ {
			forms = append(forms, h[:i]+string([]byte{h[i] ^ 1})+h[i+1:], h[:i]+"\x00"+h[i+1:])
		}
		rep.States++
		for _, f := range distinct(forms) {
			if f == h {
				continue
			}
			for _, t := range append([]string{s, f, h}, secrets...) {
				rep.Trans++
				if c.VerifySecret(t, f) == nil {
					rep.fail([]string{fmt.Sprintf("stored %q instead of %q, presented %q", f, h, t)}, "a secret is accepted for a stored form that is damaged")
				}
			}
		}
		for _, t := range []string{h, h[7:], h[29:], h[7:29]} {
			rep.Trans++
			if c.VerifySecret(t, h) == nil {
				rep.fail([]string{fmt.Sprintf("stored %q, presented %q", h, t)}, "the stored form passes for the secret")
			}
		}
	}
	rep.Complete = true
}

// costs runs engines with different costs; each accepts what others stored.
func costs(rep *report) {
	type one struct {
		c    crypto.EMCrypto
		cost int
		h    map[string]string
	}
	var l []*one
	secrets := []string{"one", "two", "\x00x", strings.Repeat("y", 75)}
	for _, n := range []int{4, 5, 6, 8} {
		o := &one{newBcrypt(n), n, map[string]string{}}
		for _, s := range secrets {
			if h, ok := hashOf(rep, o.c, s, n); ok {
				o.h[s] = h
			}
		}
		l = append(l, o)
	}
	for _, a := range l {
		for _, b := range l {
			rep.States++
			for s, h := range a.h {
				for _, t := range secrets {
					rep.Trans++
					if err := b.c.VerifySecret(t, h); (err == nil) != (s == t) {
						rep.fail([]string{fmt.Sprintf("%q stored with cost %d, %q presented with cost %d", s, a.cost, t, b.cost)}, "the answer is %v", err)
					}
				}
			}
		}
	}
	// One engine is used by all requests at once.
	var wg sync.WaitGroup
	var mu sync.Mutex
	c := newBcrypt(4)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 20; i++ {
				s := fmt.Sprint("secret ", g)
				h, err := c.SecureSecret(s)
				bad := err != nil || c.VerifySecret(s, h) != nil || c.VerifySecret(fmt.Sprint("secret ", g+1), h) == nil
				if bad {
					mu.Lock()
					rep.fail(nil, "used by several at once, the answers are wrong")
					mu.Unlock()
				}
			}
		}(g)
	}
	wg.Wait()
	rep.Complete = true
}

// served sets secrets through the server in every way there is and then
// presents each of a family, and looks for them in what is stored.
func served(rep *report, way string, tier string) {
	const cost = 4
	c := newBcrypt(cost)
	l := []string{"simple-secret", "simple-secret ", "Simple-secret", "simple", "simple-secret\x00", strings.Repeat("p", 72), strings.Repeat("p", 73), strings.Repeat("p", 71), "äöü-secret", "a\x00a", "a"}
	for _, s := range l {
		w := eng.NewWorld(eng.Config{Crypto: c})
		ctx := w.Root()
		set := func(id, s string) error {
			switch way {
			case "create":
				_, err := w.Srv.EntityCreate(ctx, &rpb.EntityRequest{Entity: &types.Entity{ID: &id, Secret: &s, Number: num32(-1)}})
				return err
			case "change", "own":
				old := "the-old-secret"
				if _, err := w.Srv.EntityCreate(ctx, &rpb.EntityRequest{Entity: &types.Entity{ID: &id, Secret: &old, Number: num32(-1)}}); err != nil {
					return err
				}
				if way == "own" {
					_, err := w.Srv.AuthChangeSecret(eng.Ctx(w.Tok(id)), &rpb.AuthRequest{Entity: &types.Entity{ID: &id, Secret: &old}, Secret: &s})
					return err
				}
				_, err := w.Srv.AuthChangeSecret(ctx, &rpb.AuthRequest{Entity: &types.Entity{ID: &id}, Secret: &s})
				return err
			}
			w.Tree.Bootstrap(id, s)
			return nil
		}
		err := set("ann", s)
		rep.States++
		if err != nil {
			continue
		}
		for _, b := range w.KV.Raw() {
			k := string(b)
			for _, x := range l {
				if len(x) > 6 && strings.Contains(k, x) {
					rep.fail([]string{fmt.Sprintf("%s %q", way, s)}, "the stored data contain the secret")
				}
			}
		}
		for _, t := range append(l, "the-old-secret", "") {
			rep.Trans++
			id := "ann"
			_, err := w.Srv.AuthEntity(eng.Ctx(""), &rpb.AuthRequest{Entity: &types.Entity{ID: &id}, Secret: &t})
			if (err == nil) != (s == t) {
				rep.fail([]string{fmt.Sprintf("%s %q, then authenticate with %q", way, s, t)}, "the answer is %v", err)
			}
		}
	}
	rep.Complete = true
}

func num32(n int32) *int32 { return &n }

func cryptChild(args []string) {
	rep := &report{}
	f := strings.Fields(args[0])
	switch f[0] {
	case "pairs":
		a, _ := strconv.Atoi(f[2])
		b, _ := strconv.Atoi(f[3])
		pairs(rep, f[1], args[1], a, b)
	case "stored":
		storedForms(rep)
	case "costs":
		costs(rep)
	case "served":
		served(rep, f[1], args[1])
	}
	rep.print()
	os.Exit(0)
}

func c35() *eng.Check {
	return &eng.Check{ID: "C35", Level: "model_checking",
		Run: func(r *eng.Run) {
			r.Exhaustive = true
			names := []string{"stored", "costs", "served create", "served change", "served own", "served bootstrap"}
			for _, f := range []string{"short", "long", "periodic", "words"} {
				for i := 0; i < 4; i++ {
					names = append(names, fmt.Sprintf("pairs %s %d 4", f, i))
				}
			}
			scenarios(r, "crypt", names, 8)
		},
		ReplayOne: func(r *eng.Run, v *eng.Violation) error { return again(r, "crypt", v) },
	}
}
