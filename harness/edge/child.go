package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/netauth/netauth/internal/zverif/eng"
)

// report is what a scenario's process has to say.
type report struct {
	States, Trans int64
	Complete      bool
	Fails         []fail
	Samples       []string
	Note          string
}

type fail struct {
	Trace []string
	Msg   string
}

func (r *report) fail(trace []string, f string, a ...interface{}) {
	m := fmt.Sprintf(f, a...)
	for _, x := range r.Fails {
		if x.Msg == m {
			return
		}
	}
	if len(r.Fails) < 30 {
		r.Fails = append(r.Fails, fail{append([]string{}, trace...), m})
	}
}

func (r *report) print() {
	b, _ := json.Marshal(r)
	os.Stdout.WriteString("\nREPORT " + string(b) + "\n")
}

// runChild runs one scenario in a process of its own.
func runChild(kind, scen, tier, dir string, deadline time.Time, env ...string) (*report, error) {
	self, _ := os.Executable()
	var out, errb bytes.Buffer
	cmd := exec.Command(self, kind, scen, tier, dir, fmt.Sprint(int(time.Until(deadline).Seconds())))
	cmd.Dir = dir
	cmd.Env = append(append(os.Environ(), "TMPDIR="+dir), env...)
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	timer := time.AfterFunc(time.Until(deadline)+30*time.Second, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	err := cmd.Wait()
	timer.Stop()
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	s := out.String()
	i := strings.LastIndex(s, "\nREPORT ")
	if i < 0 {
		e := errb.String()
		for _, l := range strings.Split(e, "\n") {
			if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
				e = l
				break
			}
		}
		if len(e) > 600 {
			e = e[len(e)-600:]
		}
		return nil, fmt.Errorf("the process ended: %v %s", err, e)
	}
	r := &report{}
	s = s[i+8:]
	if j := strings.Index(s, "\n"); j >= 0 {
		s = s[:j]
	}
	if err := json.Unmarshal([]byte(s), r); err != nil {
		return nil, err
	}
	return r, nil
}

// scenarios runs the named ones, several at a time, and collects reports.
func scenarios(r *eng.Run, kind string, names []string, par int, env ...string) {
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, par)
	for _, n := range names {
		if r.Expired() {
			break
		}
		wg.Add(1)
		sem <- true
		go func(n string) {
			defer wg.Done()
			defer func() { <-sem }()
			dir, err := os.MkdirTemp("", "zvedge")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			t0 := time.Now()
			rep, err := runChild(kind, n, r.Tier, dir, r.Deadline, env...)
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				r.Fail(n, nil, "%s: %v", n, err)
				return
			}
			r.Add(rep.States, rep.Trans, rep.Trans)
			if !rep.Complete {
				r.Exhaustive = false
			}
			for _, s := range rep.Samples {
				r.Sample("%s: %s", n, s)
			}
			for _, f := range rep.Fails {
				r.Fail(n, f.Trace, "%s: %s", n, f.Msg)
			}
			l, _ := r.Extra["explorations"].([]string)
			r.Extra["explorations"] = append(l, fmt.Sprintf("%s: %d states, %d transitions, complete=%v, %s%.1fs", n, rep.States, rep.Trans, rep.Complete, rep.Note, time.Since(t0).Seconds()))
		}(n)
	}
	wg.Wait()
}

// again re-runs a scenario and looks for the same failure.
func again(r *eng.Run, kind string, v *eng.Violation, env ...string) error {
	q := *r
	q.Viol = nil
	if m := time.Now().Add(time.Minute); q.Deadline.Before(m) {
		q.Deadline = m
	}
	q.Extra = map[string]interface{}{}
	scenarios(&q, kind, []string{v.Spec}, 1, env...)
	for _, x := range q.Viol {
		if x.Msg == v.Msg {
			return fmt.Errorf("%s", x)
		}
	}
	return nil
}
