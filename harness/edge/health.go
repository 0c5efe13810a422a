package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/hashicorp/go-hclog"
	"github.com/spf13/viper"

	"github.com/netauth/netauth/internal/health"
	"github.com/netauth/netauth/internal/token"
	_ "github.com/netauth/netauth/internal/token/jwt"
	"github.com/netauth/netauth/internal/zverif/eng"
	rpb "github.com/netauth/protocol/v2"
)

// statusErr compares the server's answer with what the subsystems say.
func statusErr(w *eng.World, want map[string]string, ok map[string]bool) string {
	s, err := w.Srv.SystemStatus(eng.Ctx(""), &rpb.Empty{})
	if err != nil {
		return fmt.Sprintf("SystemStatus fails: %v", err)
	}
	all := true
	for _, b := range ok {
		all = all && b
	}
	names := []string{}
	for n := range want {
		names = append(names, n)
	}
	sort.Strings(names)
	got := []string{}
	for _, x := range s.GetSubSystems() {
		got = append(got, x.GetName())
		n := x.GetName()
		if b, have := ok[n]; have && (b != x.GetOK() || want[n] != x.GetFaultMessage()) {
			return fmt.Sprintf("subsystem %s says ok=%v %q, and is reported as ok=%v %q", n, b, want[n], x.GetOK(), x.GetFaultMessage())
		}
	}
	sort.Strings(got)
	if strings.Join(got, " ") != strings.Join(names, " ") {
		return fmt.Sprintf("subsystems %q are registered, and %q reported", names, got)
	}
	if s.GetSystemOK() != all {
		return fmt.Sprintf("the system is reported as ok=%v with subsystems %v", s.GetSystemOK(), ok)
	}
	f := s.GetFirstFailure()
	switch {
	case all && f != nil && f.GetName() != "":
		return fmt.Sprintf("a first failure %s is reported with nothing failing", f.GetName())
	case !all && f == nil:
		return fmt.Sprintf("no first failure is reported with subsystems %v", ok)
	case !all && (ok[f.GetName()] || f.GetOK() || f.GetFaultMessage() != want[f.GetName()]):
		return fmt.Sprintf("the first failure is reported as %s ok=%v %q with subsystems %v", f.GetName(), f.GetOK(), f.GetFaultMessage(), ok)
	}
	if _, err := w.Srv.SystemPing(eng.Ctx(""), &rpb.Empty{}); err != nil {
		return fmt.Sprintf("SystemPing fails: %v", err)
	}
	// The report itself.
	h := health.Check()
	if h.OK != all || !all && ok[h.FirstFailure.Name] || all && h.FirstFailure != (health.SubsystemStatus{}) {
		return fmt.Sprintf("the report says ok=%v, first failure %v, with subsystems %v", h.OK, h.FirstFailure, ok)
	}
	if t := h.String(); strings.Contains(strings.SplitN(t, "\n", 2)[0], "PASS") != all {
		return fmt.Sprintf("the text of the report begins with %q, with subsystems %v", strings.SplitN(t, "\n", 2)[0], ok)
	}
	return ""
}

// subsystems has n subsystems fail in every combination, one after another.
func subsystems(rep *report, n int) {
	eng.Setup()
	state := make([]bool, n)
	word := make([]string, n)
	for i := 0; i < n; i++ {
		i := i
		nm := fmt.Sprint("sub", i)
		health.RegisterCheck(nm, func() health.SubsystemStatus {
			return health.SubsystemStatus{OK: state[i], Name: nm, Status: word[i]}
		})
		// A second one of the same name is not to take its place.
		health.RegisterCheck(nm, func() health.SubsystemStatus {
			return health.SubsystemStatus{OK: !state[i], Name: "second " + nm, Status: "x"}
		})
	}
	w := eng.NewWorld(eng.Config{})
	for _, style := range []string{"each its own message", "the same message", "no message"} {
		for a := 0; a < 1<<uint(n); a++ {
			for b := 0; b < 1<<uint(n); b++ {
				for _, m := range []int{a, b} {
					want, ok := map[string]string{}, map[string]bool{}
					for i := 0; i < n; i++ {
						state[i] = m>>uint(i)&1 == 1
						switch style {
						case "each its own message":
							word[i] = fmt.Sprintf("message %d of %d", m, i)
						case "the same message":
							word[i] = "message"
						default:
							word[i] = ""
						}
						nm := fmt.Sprint("sub", i)
						want[nm], ok[nm] = word[i], state[i]
					}
					rep.Trans++
					if s := statusErr(w, want, ok); s != "" {
						rep.fail([]string{fmt.Sprint(ok), style}, "%s", s)
					}
				}
				rep.States++
			}
		}
	}
	rep.Complete = true
}

// tokenHealth starts the token service with keys in every condition, and
// changes their files afterwards.
func tokenHealth(rep *report, dir string, pri, pub string) {
	eng.Setup()
	conf := filepath.Join(dir, "conf")
	viper.Set("core.conf", conf)
	viper.Set("token.jwt.generate", false)
	keys := filepath.Join(conf, "keys")
	prif, pubf := filepath.Join(keys, "token.key"), filepath.Join(keys, "token.pem")
	first := func() token.Service {
		s, err := token.New("jwt-rsa")
		if err != nil {
			return nil
		}
		return s
	}
	// The keys are made by another process.
	cond := func(f, c string) {
		switch c {
		case "good":
		case "missing":
			os.Remove(f)
		case "junk":
			m := os.FileMode(0400)
			if f == pubf {
				m = 0644
			}
			os.Remove(f)
			os.WriteFile(f, []byte("junk"), m)
			os.Chmod(f, m)
		default:
			n, _ := strconv.ParseInt(c, 8, 32)
			os.Chmod(f, os.FileMode(n))
		}
	}
	cond(prif, pri)
	cond(pubf, pub)
	svc := first()
	if svc == nil {
		// Without it the server does not run.
		rep.States++
		rep.Complete = true
		return
	}
	w := eng.NewWorld(eng.Config{})
	judge := func(what string, pri, pub string) {
		rep.Trans++
		rep.States++
		s, err := w.Srv.SystemStatus(eng.Ctx(""), &rpb.Empty{})
		if err != nil {
			rep.fail([]string{what}, "SystemStatus fails: %v", err)
			return
		}
		_, gerr := svc.Generate(token.Claims{EntityID: "x"}, token.GetConfig())
		good := gerr == nil && pri == "good" && pub == "good"
		bad := gerr != nil || pri != "good" && pri != "junk" || pub != "good" && pub != "junk"
		switch {
		case good && !s.GetSystemOK():
			rep.fail([]string{what}, "%s: reported as failing: %v", what, s.GetFirstFailure())
		case bad && s.GetSystemOK():
			rep.fail([]string{what}, "%s: reported as fine (generating a token: %v)", what, gerr)
		}
	}
	judge(fmt.Sprintf("private key %s, public key %s", pri, pub), pri, pub)
	if pri == "good" && pub == "good" {
		for _, c := range []string{"0600", "0440", "0000", "0644", "good"} {
			if c == "good" {
				os.Chmod(prif, 0400)
			} else {
				cond(prif, c)
			}
			judge(fmt.Sprintf("private key file turns %s", c), c, "good")
		}
		for _, c := range []string{"0600", "0666", "0664", "good"} {
			if c == "good" {
				os.Chmod(pubf, 0644)
			} else {
				cond(pubf, c)
			}
			judge(fmt.Sprintf("public key file turns %s", c), "good", c)
		}
		os.Rename(prif, prif+"x")
		judge("private key file vanishes", "missing", "good")
		os.Rename(prif+"x", prif)
		os.Rename(pubf, pubf+"x")
		judge("public key file vanishes", "good", "missing")
		os.Rename(pubf+"x", pubf)
		judge("keys are back", "good", "good")
	}
	rep.Complete = true
}

func healthChild(args []string) {
	rep := &report{}
	f := strings.Fields(args[0])
	switch f[0] {
	case "subsystems":
		n, _ := strconv.Atoi(f[1])
		subsystems(rep, n)
	case "keys":
		if f[1] == "make" {
			eng.Setup()
			viper.Set("core.conf", filepath.Join(args[2], "conf"))
			viper.Set("token.jwt.generate", true)
			viper.Set("token.jwt.bits", 1024)
			token.SetParentLogger(hclog.NewNullLogger())
			if _, err := token.New("jwt-rsa"); err != nil {
				rep.fail(nil, "keys cannot be generated: %v", err)
			}
			break
		}
		kr, err := runChild("health", "keys make", args[1], args[2], timeIn(60))
		if err != nil {
			rep.fail(nil, "keys cannot be generated: %v", err)
			break
		}
		rep.Fails = kr.Fails
		tokenHealth(rep, args[2], f[1], f[2])
	}
	rep.print()
	os.Exit(0)
}

func c29() *eng.Check {
	return &eng.Check{ID: "C29", Level: "model_checking",
		Run: func(r *eng.Run) {
			r.Exhaustive = true
			var names []string
			for n := 0; n <= r.Pick(5, 7); n++ {
				names = append(names, fmt.Sprint("subsystems ", n))
			}
			for _, a := range []string{"good", "missing", "junk", "0600", "0444", "0644"} {
				for _, b := range []string{"good", "missing", "junk", "0600", "0666"} {
					names = append(names, "keys "+a+" "+b)
				}
			}
			scenarios(r, "health", names, 8)
		},
		ReplayOne: func(r *eng.Run, v *eng.Violation) error { return again(r, "health", v) },
	}
}
