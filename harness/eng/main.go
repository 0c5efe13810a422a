package eng

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Check is one registered property check.
type Check struct {
	ID    string
	Level string // evidence level
	// Specs lists the explorations (for those that use Explore).
	Specs func(c *Run) []Spec
	// Run, when set, performs the check itself (it may call c.Explore).
	Run func(c *Run)
	// ReplayOne re-runs a recorded counterexample of a custom check.
	ReplayOne func(c *Run, v *Violation) error
	// CrashMsg reports whether a fatal crash of the server inside the
	// check counts as a violation (it does unless stated otherwise).
	Assumptions []string
}

// Run is one execution of a check.
type Run struct {
	Check      *Check
	Tier       string
	Deadline   time.Time
	Start      time.Time
	States     int64
	Trans      int64
	Validated  int64
	Exhaustive bool
	Samples    []string
	Viol       []*Violation
	KnownHit   map[string]string
	Extra      map[string]interface{}
	Assume     []string
}

// Thorough reports the tier.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Pick returns q for the quick tier and t for the thorough one.
func (r *Run) Pick(q, t int) int {
	if r.Thorough() {
		return t
	}
	return q
}

// Sample records an example case.
func (r *Run) Sample(f string, a ...interface{}) {
	if len(r.Samples) < 12 {
		r.Samples = append(r.Samples, fmt.Sprintf(f, a...))
	}
}

// Add counts explored states, transitions and executions on the real code.
func (r *Run) Add(states, trans, validated int64) {
	r.States += states
	r.Trans += trans
	r.Validated += validated
}

// Fail records a violation unless it is a listed finding.
func (r *Run) Fail(spec string, trace []string, f string, a ...interface{}) {
	msg := fmt.Sprintf(f, a...)
	if what, ok := r.known(msg); ok {
		r.KnownHit[what] = msg
		return
	}
	for _, v := range r.Viol {
		if v.Msg == msg && v.Spec == spec {
			return
		}
	}
	if len(r.Viol) < 100 {
		r.Viol = append(r.Viol, &Violation{spec, append([]string{}, trace...), msg})
	}
}

// Expired reports that the time budget is used up.
func (r *Run) Expired() bool {
	if time.Now().After(r.Deadline) {
		r.Exhaustive = false
		return true
	}
	return false
}

// Explore runs one exploration and merges its statistics.
func (r *Run) Explore(sp Spec) {
	if sp.Deadline.IsZero() {
		sp.Deadline = r.Deadline
	}
	sp.Known = func(m string) bool { _, ok := r.known(m); return ok }
	st := Explore(sp)
	r.Add(st.States, st.Transitions, st.Replays+1)
	if !st.Exhaustive {
		r.Exhaustive = false
	}
	r.Samples = append(r.Samples, st.Samples...)
	for m := range st.Known {
		what, _ := r.known(m)
		r.KnownHit[what] = m
	}
	r.Viol = append(r.Viol, st.Violations...)
	l, _ := r.Extra["explorations"].([]string)
	r.Extra["explorations"] = append(l, fmt.Sprintf("%s: alphabet %d ops, depth %d, %d states, %d transitions, %d rebuilt runs, complete=%v, %.1fs", sp.Name, len(sp.Ops), st.Depth, st.States, st.Transitions, st.Replays, st.Exhaustive, st.Elapsed))
}

type finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	What     string `json:"what"`
	Match    string `json:"match"` // exact message of the failing case
	Commit   string `json:"commit,omitempty"`
}

var findings []finding

func (r *Run) known(msg string) (string, bool) {
	for _, f := range findings {
		if f.Status == "known" && f.Property == r.Check.ID && f.Match == msg {
			return f.What, true
		}
	}
	return "", false
}

// missed tells whether a listed finding did not show.
func (r *Run) missed() bool {
	for _, f := range findings {
		if _, hit := r.KnownHit[f.What]; f.Status == "known" && f.Property == r.Check.ID && !hit {
			return true
		}
	}
	return false
}

// VerifDir is where evidence and counterexamples go.
func VerifDir() string {
	if d := os.Getenv("ZV_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

func loadFindings() {
	b, err := os.ReadFile(filepath.Join(VerifDir(), "known-findings.json"))
	if err != nil {
		return
	}
	if err := json.Unmarshal(b, &findings); err != nil {
		fmt.Println("known-findings.json is unreadable:", err)
		os.Exit(2)
	}
}

// Main runs the checks linked into a binary.
//
//	BIN check ID TIER       run a check (parent: survives server crashes)
//	BIN child ID TIER FILE  the exploring process
//	BIN replay FILE         re-run one counterexample
//	BIN list
func Main(checks []*Check) {
	loadFindings()
	byID := map[string]*Check{}
	for _, c := range checks {
		byID[c.ID] = c
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: check|replay|list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		ids := []string{}
		for id := range byID {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
	case "check":
		c := byID[os.Args[2]]
		if c == nil {
			fmt.Println("no such check", os.Args[2])
			os.Exit(2)
		}
		os.Exit(parent(c, os.Args[3]))
	case "child":
		c := byID[os.Args[2]]
		f, err := os.OpenFile(os.Args[4], os.O_RDWR, 0600)
		if err == nil {
			CrashSlots = f
		}
		os.Exit(child(c, os.Args[3]))
	case "replay":
		os.Exit(replay(byID, os.Args[2]))
	default:
		os.Exit(2)
	}
}

func newRun(c *Check, tier string) *Run {
	budget := 240 * time.Second
	if tier == "thorough" {
		budget = 840 * time.Second
	}
	if s := os.Getenv("ZV_BUDGET"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			budget = time.Duration(n) * time.Second
		}
	}
	return &Run{Check: c, Tier: tier, Start: time.Now(), Deadline: time.Now().Add(budget), Exhaustive: true, KnownHit: map[string]string{}, Extra: map[string]interface{}{}, Assume: c.Assumptions}
}

func child(c *Check, tier string) int {
	Setup()
	debug.SetGCPercent(1600)
	debug.SetMemoryLimit(8 << 30)
	r := newRun(c, tier)
	if c.Specs != nil {
		for _, sp := range c.Specs(r) {
			r.Explore(sp)
		}
		// A listed finding may depend on the order of a map.
		for i := 0; i < 3 && len(r.Viol) == 0 && r.missed() && !r.Expired(); i++ {
			for _, sp := range c.Specs(r) {
				r.Explore(sp)
			}
		}
	}
	if c.Run != nil {
		c.Run(r)
	}
	return finish(r)
}

func writeEvidence(r *Run) {
	cov := map[string]interface{}{
		"states": r.States, "transitions": r.Trans, "traces_validated_against_impl": r.Validated,
		"exhaustive": r.Exhaustive, "samples": r.Samples,
	}
	if len(r.Samples) == 0 {
		cov["samples"] = []string{"(none recorded)"}
	}
	for k, v := range r.Extra {
		cov[k] = v
	}
	seed := 1
	if n, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = n
	}
	ev := map[string]interface{}{
		"property": r.Check.ID, "tier": r.Tier, "seed": seed, "level": r.Check.Level,
		"coverage": cov, "assumptions": r.Assume, "wall_s": time.Since(r.Start).Seconds(), "violations": len(r.Viol),
	}
	if r.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(VerifDir(), "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(VerifDir(), "evidence", r.Check.ID+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Println("cannot write evidence:", err)
		os.Exit(2)
	}
}

type replayFile struct {
	Property string     `json:"property"`
	Tier     string     `json:"tier"`
	V        *Violation `json:"violation"`
}

func saveReplay(r *Run, i int, v *Violation) string {
	p := filepath.Join(VerifDir(), "evidence", fmt.Sprintf("replay-%s-%d.json", r.Check.ID, i))
	b, _ := json.MarshalIndent(replayFile{r.Check.ID, r.Tier, v}, "", " ")
	os.MkdirAll(filepath.Dir(p), 0755)
	os.WriteFile(p, b, 0644)
	return p
}

var (
	troubleMu sync.Mutex
	trouble   []string
)

// SetupTrouble notes that a starting state could not be built as intended.
func SetupTrouble(s string) {
	troubleMu.Lock()
	defer troubleMu.Unlock()
	for _, t := range trouble {
		if t == s {
			return
		}
	}
	if len(trouble) < 20 {
		trouble = append(trouble, s)
	}
}

func finish(r *Run) int {
	if len(trouble) > 0 {
		r.Extra["refused_setup_steps"] = trouble
		r.Exhaustive = false
		for _, t := range trouble {
			fmt.Println("note: set-up step refused:", t)
		}
	}
	// A counterexample is believed when it reproduces.
	var keep []*Violation
	began := time.Now()
	for _, v := range r.Viol {
		if len(keep) > 0 && time.Since(began) > time.Minute {
			break
		}
		if confirmed(r, v) {
			keep = append(keep, v)
		} else {
			fmt.Printf("note: not reproduced, dropped: %s\n", v)
			r.Extra["unreproduced"] = v.String()
		}
		if len(keep) >= 5 {
			break
		}
	}
	r.Viol = keep
	writeEvidence(r)
	ks := []string{}
	for w := range r.KnownHit {
		ks = append(ks, w)
	}
	sort.Strings(ks)
	for _, w := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Check.ID, w)
	}
	fmt.Printf("%s %s: %d states, %d transitions, %d runs on the real code, exhaustive=%v, %.1fs\n", r.Check.ID, r.Tier, r.States, r.Trans, r.Validated, r.Exhaustive, time.Since(r.Start).Seconds())
	if l, ok := r.Extra["explorations"].([]string); ok {
		for _, x := range l {
			fmt.Println("  ", x)
		}
	}
	if len(r.Viol) == 0 {
		return 0
	}
	for i, v := range r.Viol {
		p := saveReplay(r, i, v)
		fmt.Println(v)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Check.ID, p)
	}
	return 1
}

func confirmed(r *Run, v *Violation) bool {
	if r.Check.ReplayOne == nil && r.Check.Specs == nil {
		return true
	}
	// There has to be an answer in time: what does not even end when it is
	// run again is believed.
	limit := 660 * time.Second
	if r.Thorough() {
		limit = 865 * time.Second
	}
	out := make(chan bool, 20)
	go func() {
		for i := 0; i < 20; i++ {
			err := replayOne(r, v)
			out <- err != nil
			if err != nil {
				return
			}
		}
	}()
	for i := 0; i < 20; i++ {
		select {
		case ok := <-out:
			if ok {
				return true
			}
		case <-time.After(time.Until(r.Start.Add(limit))):
			return i == 0
		}
	}
	return false
}

func replayOne(r *Run, v *Violation) error {
	old := os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil && os.Getenv("ZV_SHOW") == "" {
		os.Stdout = null
		defer func() { os.Stdout = old; null.Close() }()
	}
	if r.Check.Specs != nil {
		for _, sp := range r.Check.Specs(r) {
			if sp.Name == v.Spec {
				return Replay(sp, v.Trace)
			}
		}
	}
	if r.Check.ReplayOne != nil {
		return r.Check.ReplayOne(r, v)
	}
	return fmt.Errorf("%s", v.Msg)
}

func replay(byID map[string]*Check, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var f replayFile
	if err := json.Unmarshal(b, &f); err != nil || byID[f.Property] == nil {
		fmt.Println("unreadable replay file", err)
		return 2
	}
	Setup()
	os.Setenv("ZV_SHOW", "1")
	r := newRun(byID[f.Property], f.Tier)
	if err := replayOne(r, f.V); err != nil {
		fmt.Println(err)
		fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, file)
		return 1
	}
	fmt.Println("did not reproduce")
	return 0
}

func parent(c *Check, tier string) int {
	r := newRun(c, tier)
	tmp, err := os.MkdirTemp("", "zvslots")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(tmp)
	slots := filepath.Join(tmp, "slots")
	os.WriteFile(slots, nil, 0600)
	cmd := exec.Command(os.Args[0], "child", c.ID, tier, slots)
	var errb bytes.Buffer
	var outb bytes.Buffer
	cmd.Stdout = &tee{&outb}
	cmd.Stderr = &limited{b: &errb, n: 1 << 20}
	err = cmd.Run()
	code := cmd.ProcessState.ExitCode()
	if code == 0 || code == 1 {
		os.Stderr.Write(errb.Bytes())
		return code
	}
	// The exploring process died: the server took the whole process down
	// (stack overflow, concurrent map access, deadlock, hang).  Find which
	// trace does it.
	reason := firstFatal(errb.String() + outb.String())
	fmt.Printf("exploring process died (%d): %s\n", code, reason)
	data, _ := os.ReadFile(slots)
	for off := 0; off < len(data); off += slotSize {
		end := off + slotSize
		if end > len(data) {
			end = len(data)
		}
		ln := bytes.IndexByte(data[off:end], '\n')
		if ln <= 0 {
			continue
		}
		parts := strings.Split(string(data[off:off+ln]), "\t")
		v := &Violation{Spec: parts[0], Trace: parts[1:], Msg: "the server process died: " + reason}
		p := saveReplay(r, off/slotSize, v)
		died := false
		for i := 0; i < 2 && !died; i++ {
			rc := exec.Command(os.Args[0], "replay", p)
			var eb bytes.Buffer
			rc.Stdout = &limited{b: &eb, n: 1 << 18}
			rc.Stderr = rc.Stdout
			if rc.Start() != nil {
				continue
			}
			done := make(chan error, 1)
			go func() { done <- rc.Wait() }()
			select {
			case <-done:
				ec := rc.ProcessState.ExitCode()
				if ec != 0 && ec != 2 {
					died = true
				}
				if ec == 2 && strings.Contains(eb.String(), "goroutine ") {
					died = true
				}
				if f := firstFatal(eb.String()); died && f != "" {
					v.Msg = "the server process died: " + f
				}
			case <-time.After(HangLimit + 30*time.Second):
				rc.Process.Kill()
				<-done
				died = true
				v.Msg = "the server hung"
			}
		}
		if !died {
			os.Remove(p)
			continue
		}
		if what, ok := r.known(v.Msg + " [" + strings.Join(v.Trace, " ; ") + "]"); ok {
			r.KnownHit[what] = v.Msg
			continue
		}
		r.Viol = append(r.Viol, v)
		r.Add(1, 1, 1)
		r.Exhaustive = false
		r.Sample("%s", v)
		writeEvidence(r)
		fmt.Println(v)
		saveReplay(r, off/slotSize, v)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, p)
		return 1
	}
	os.Stderr.Write(errb.Bytes())
	return 2
}

func firstFatal(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "HANG") || strings.Contains(l, "goroutine stack exceeds") {
			if strings.HasPrefix(l, "HANG") {
				return "an operation did not return"
			}
			return l
		}
	}
	return ""
}

type tee struct{ b *bytes.Buffer }

func (t *tee) Write(p []byte) (int, error) {
	if t.b.Len() < 1<<20 {
		t.b.Write(p)
	}
	return os.Stdout.Write(p)
}

type limited struct {
	b *bytes.Buffer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		q := p
		if len(q) > l.n-l.b.Len() {
			q = q[:l.n-l.b.Len()]
		}
		l.b.Write(q)
	}
	return len(p), nil
}
