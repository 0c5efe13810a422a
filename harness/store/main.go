package main

import (
	"context"
	"os"
	"os/exec"
	"syscall"
	"time"

	"github.com/netauth/netauth/internal/zverif/eng"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "trace" {
		traced(os.Args[2:])
	}
	if len(os.Args) > 1 && os.Args[1] == "fault" {
		faulted(os.Args[2:])
	}
	if len(os.Args) > 1 && os.Args[1] == "space" {
		space()
	}
	if len(os.Args) > 1 && os.Args[1] == "names" {
		named(os.Args[2:])
	}
	if len(os.Args) > 1 && os.Args[1] == "keys" {
		keysChild(os.Args[2:])
	}
	eng.Main([]*eng.Check{c19(), c23(), c24(), c26(), c28(), c37()})
}

// command is a program that is ended when it takes far too long.
func command(name string, args ...string) *exec.Cmd {
	ctx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
	time.AfterFunc(100*time.Second, cancel)
	c := exec.CommandContext(ctx, name, args...)
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	c.Cancel = func() error { return syscall.Kill(-c.Process.Pid, syscall.SIGKILL) }
	c.WaitDelay = 5 * time.Second
	return c
}
