package main

// C29: commands interrupted while protoc runs, at any of the calls of protoc
// that the uninterrupted command makes.

import (
	"bytes"
	"errors"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

type stopCase struct {
	Files  []allFile
	Group  string
	Data   bool
	Saved  bool // what the command writes exists already
	Cmd    string
	At     int // which call of protoc is the first not to end by itself
	Signal int // 0 INT, 1 TERM
	Wait   int // milliseconds until the signal
	Bad    string
}

var stopCmds = []string{
	"compile", "lint", "format -w", "format -w --fix", "format -l", "all", "all --fix", "generate", "descriptor-set -o", "break descriptor-set -o",
	"break check", "break check git", "x inspect packages", "grpc",
}

func genStop(t *rapid.T) *stopCase {
	c := &stopCase{}
	n := 1 + bits(t, 4, "directories")
	for i := 0; i < n; i++ {
		p := fmt.Sprintf("d%02d/a.proto", i)
		c.Files = append(c.Files, allFile{Path: p, Body: bits(t, 4, "body") % protoBodies})
		if bits(t, 2, "second file") == 3 {
			c.Files = append(c.Files, allFile{Path: fmt.Sprintf("d%02d/b.proto", i), Body: bits(t, 4, "body") % protoBodies})
		}
	}
	if bits(t, 2, "bad file") == 3 {
		c.Files[uniform(t, len(c.Files), "which")].Bad = sample(t, []string{"type", "lint", "unused"}, "bad")
	}
	c.Group = sample(t, []string{"empty", "google", "uber2"}, "group")
	c.Data = bits(t, 2, "data") == 3
	c.Saved = bits(t, 1, "saved") == 1
	c.Cmd = sample(t, stopCmds, "command")
	c.At = bits(t, 6, "at")
	c.Signal = bits(t, 1, "signal")
	c.Wait = sample(t, []int{0, 0, 5, 40}, "wait")
	return c
}

// stopProtoc is the protoc of C29: each call takes the next number; from the
// number at on a call only ends when it is made to.
func stopProtoc(bin, dir string, at int) {
	must(os.MkdirAll(dir, 0755))
	must(ioutil.WriteFile(bin, []byte(fmt.Sprintf(`#!/bin/sh
n=1
while ! mkdir %[1]s/n.$n 2>/dev/null; do n=$((n+1)); done
if [ $n -ge %[2]d ]; then
  echo $$ > %[1]s/p.$n
  mv %[1]s/p.$n %[1]s/b.$n
  exec sleep 1000
fi
exec /usr/bin/protoc "$@"
`, dir, at)), 0755))
}

func countOf(dir, prefix string) []string {
	l, err := filepath.Glob(filepath.Join(dir, prefix+"*"))
	must(err)
	return l
}

// alive says whether a process runs (and is no zombie).
func alive(pid int) bool {
	b, err := ioutil.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return false
	}
	s := string(b)
	f := strings.Fields(s[strings.LastIndex(s, ")")+1:])
	return len(f) > 0 && f[0] != "Z" && f[0] != "X"
}

// stopWait is how long an interrupted run may go on; shorter once one did.
var stopWait = 60 * time.Second

func (x *Ctx) interrupted(c *stopCase, dir, calls string, env, args []string) (r *Result, sent bool, err error) {
	cmd := exec.Command(x.Bin, args...)
	cmd.Dir, cmd.Env = dir, env
	cmd.WaitDelay = 5 * time.Second
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	must(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	kill := func() {
		_ = cmd.Process.Kill()
		<-done
		for round := 0; round < 3; round++ {
			for _, p := range countOf(calls, "b.") {
				if pid, err := strconv.Atoi(strings.TrimSpace(readFile(p))); err == nil && alive(pid) {
					_ = syscall.Kill(pid, syscall.SIGKILL)
				}
			}
			time.Sleep(50 * time.Millisecond)
		}
	}
	res := func() *Result {
		return &Result{Args: append([]string{"prototool"}, args...), Out: out.String(), Err: errb.String()}
	}
	start := time.Now()
	var werr error
	for ended := false; !ended && !sent; {
		select {
		case werr = <-done:
			ended = true
		case <-time.After(2 * time.Millisecond):
			if len(countOf(calls, "b.")) > 0 {
				time.Sleep(time.Duration(c.Wait) * time.Millisecond)
				sig := []syscall.Signal{syscall.SIGINT, syscall.SIGTERM}[c.Signal]
				must(cmd.Process.Signal(sig))
				sent = true
			} else if time.Since(start) > procTimeout {
				kill()
				infra("no call of protoc in %v", procTimeout)
			}
		}
	}
	if sent {
		select {
		case werr = <-done:
		case <-time.After(stopWait):
			n := len(countOf(calls, "n."))
			kill()
			was := stopWait
			stopWait = 10 * time.Second
			return res(), true, bad("goes on %v after the signal, with %d calls of protoc", was, n)
		}
	}
	r = res()
	if werr != nil {
		var ee *exec.ExitError
		if !errors.As(werr, &ee) {
			if errors.Is(werr, exec.ErrWaitDelay) {
				return r, sent, bad("a process that prototool started outlives it")
			}
			infra("%v", werr)
		}
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			r.Code = 128 + int(ws.Signal())
		} else {
			r.Code = ee.ExitCode()
		}
	}
	return r, sent, nil
}

func runStop(x *Ctx, c *stopCase) error {
	pristine := map[string]string{}
	for i, f := range c.Files {
		s := protoBody(fmt.Sprintf("p%s.v1", f.Path[1:3]), msgNameFor(i), f.Body)
		switch f.Bad {
		case "type":
			s += "\nmessage Bad { NoSuch a = 1; }\n"
		case "lint":
			s += "\nmessage bad_name { float UpperCase = 1; }\n"
		case "unused":
			s = strings.Replace(s, "message", "import \"google/protobuf/any.proto\";\nmessage", 1)
		}
		pristine[f.Path] = s
	}
	cfg := M{"lint": M{"group": c.Group}, "generate": M{"plugins": []M{{"name": "vrec", "output": "gen"}}}}
	var flags []string
	if c.Data {
		flags = append(flags, "--config-data", jsonOf(cfg))
	} else {
		pristine["prototool.yaml"] = yamlOf(cfg)
	}
	name := strings.Fields(c.Cmd)
	if name[len(name)-1] == "-o" {
		flags = append(flags, "-o", "out.bin")
		name = name[:len(name)-1]
		if c.Saved {
			pristine["out.bin"] = strings.Repeat("before ", 5000)
		}
	}
	switch c.Cmd {
	case "break check git":
		name = name[:2]
	case "break check":
		flags = append(flags, "--descriptor-set-path", "saved.bin")
	case "grpc":
		flags = append(flags, "--address", "127.0.0.1:1", "--method", "p00.v1.No/Such", "--data", "{}", "--connect-timeout", "1s")
	}
	if c.Saved {
		pristine["gen/d00/a.proto.vrec"] = "before"
	}
	if c.Cmd == "break check" {
		old := filepath.Join(x.Dir, "old")
		writeFiles(old, pristine)
		r := x.PT(old, append(append([]string{"break", "descriptor-set"}, flags[:len(flags)-2]...), "-o", "saved.bin")...)
		pristine["saved.bin"] = ""
		if r.Code == 0 {
			pristine["saved.bin"] = readFile(filepath.Join(old, "saved.bin"))
		}
	}
	git := func(dir string) {
		for _, a := range [][]string{{"init", "-q", "-b", "main", "."}, {"config", "gc.auto", "0"}, {"add", "-A"}, {"commit", "-q", "-m", "one"}} {
			if r := x.Exec(dir, x.baseEnv(), nil, "/usr/bin/git", a...); r.Code != 0 {
				infra("%s", r)
			}
		}
	}
	bin, calls := filepath.Join(x.Dir, "bin", "protoc"), ""
	must(os.MkdirAll(filepath.Dir(bin), 0755))
	protocs := func(name string, at int) {
		calls = filepath.Join(x.Dir, name)
		stopProtoc(bin, calls, at)
	}
	args := append(append(append([]string{}, name...), "--walk-timeout", "600s"), flags...)
	if c.Cmd != "grpc" {
		args = append(args, ".")
	} else {
		args = append(args, "d00")
	}
	env := append(append(x.baseEnv(), protocEnv...), "PATH="+x.Aux+":/usr/local/bin:/usr/bin:/bin", "PROTOTOOL_PROTOC_BIN_PATH="+bin)
	whole := func(dir string) *Result { return x.Exec(dir, env, nil, x.Bin, args...) }
	prepare := func(name string) string {
		dir := filepath.Join(x.Dir, name, "root")
		writeFiles(dir, pristine)
		if c.Cmd == "break check git" {
			git(dir)
		}
		return dir
	}

	// without an interruption
	protocs("calls0", 1<<30)
	ref := prepare("ref")
	want := whole(ref)
	total := len(countOf(calls, "n."))
	if total == 0 {
		x.Label("protoc is not called")
		return nil
	}
	after := snapshot(ref)

	root := prepare("run")
	before := snapshot(root)
	tmp, home := snapshot(x.Tmp), snapshot(x.Home)
	at := 1 + c.At%total
	protocs("calls1", at)
	r, sent, err := x.interrupted(c, root, calls, env, args)
	explain := func() string {
		return fmt.Sprintf("\nsignal %v while call %d of %d of protoc runs\n%s\nwithout an interruption:\n%s\n%s", []string{"INT", "TERM"}[c.Signal], at, total, r, want, dumpFiles(root, []string{"prototool.yaml"}))
	}
	if err != nil {
		return bad("%v%s", err, explain())
	}
	if !sent {
		return bad("ends with fewer calls of protoc than before, of %d%s", total, explain())
	}
	if r.Code == 0 {
		return bad("an interrupted run exits 0%s", explain())
	}
	if strings.Contains(r.Err, "goroutine ") {
		return bad("an interrupted run crashes%s", explain())
	}
	if r.Code == 1 && r.Out+r.Err == "" {
		return bad("an interrupted run does not say so%s", explain())
	}
	// A killed process may take a moment to be gone.
	var left []string
	for begin := time.Now(); ; time.Sleep(10 * time.Millisecond) {
		left = nil
		for _, p := range countOf(calls, "b.") {
			pid, err := strconv.Atoi(strings.TrimSpace(readFile(p)))
			must(err)
			if alive(pid) {
				left = append(left, strconv.Itoa(pid))
			}
		}
		if len(left) == 0 && time.Since(begin) > 60*time.Millisecond || time.Since(begin) > stopWait/4 {
			break
		}
	}
	for _, p := range left {
		pid, _ := strconv.Atoi(p)
		_ = syscall.Kill(pid, syscall.SIGKILL)
	}
	if len(left) > 0 {
		stopWait = 10 * time.Second
		return bad("%d calls of protoc still run after prototool ended%s", len(left), explain())
	}
	if d := diffSnap(tmp, snapshot(x.Tmp)); d != "" {
		return bad("leaves files in the temporary directory: %s%s", d, explain())
	}
	if d := diffSnap(home, snapshot(x.Home)); d != "" {
		return bad("leaves files in the home directory: %s%s", d, explain())
	}
	now := snapshot(root)
	partly := false
	for _, p := range sortedKeys(now) {
		if now[p] == before[p] {
			continue
		}
		partly = true
		// What a plugin was about to write when its protoc was killed is protoc's.
		if now[p] != after[p] && !strings.HasPrefix(p, "gen/") {
			return bad("leaves %s neither as it was nor as it should become:\n%s%s", p, clip(now[p]), explain())
		}
	}
	for p := range before {
		if _, ok := now[p]; !ok {
			return bad("removes %s%s", p, explain())
		}
	}
	switch c.Cmd {
	case "format -w", "format -w --fix", "descriptor-set -o", "break descriptor-set -o":
		if partly {
			return bad("writes files although it was interrupted: %s%s", diffSnap(before, now), explain())
		}
	}
	// the next run makes good for it
	protocs("calls2", 1<<30)
	again := whole(root)
	if again.Code != want.Code {
		return bad("the run after the interruption exits %d%s\n%s", again.Code, explain(), again)
	}
	final := snapshot(root)
	for _, p := range sortedKeys(after) {
		if !strings.HasPrefix(p, ".git/") && final[p] != after[p] {
			return bad("the run after the interruption leaves another %s:\n%s\ninstead of\n%s%s\n%s", p, clip(final[p]), clip(after[p]), explain(), again)
		}
	}
	for _, p := range sortedKeys(final) {
		if _, ok := after[p]; !ok && !strings.HasPrefix(p, ".git/") {
			return bad("the run after the interruption leaves %s%s\n%s", p, explain(), again)
		}
	}
	x.Label("%s, exit %d", c.Cmd, r.Code)
	x.Label("changed files partly %v", partly)
	if total > 8 {
		x.Label("more calls than processors")
	}
	if at > 1 {
		x.Label("after the first call")
	}
	if total > 1 {
		x.NonTrivial()
	}
	return nil
}

func init() {
	prop("C29", "metamorphic", "trees of 1-16 directories, a command that calls protoc, a signal while the k-th of its calls runs, against the same command left alone; non-trivial: the command makes more than one call of protoc",
		newPart("interrupt", 500, 8000, genStop, runStop))
}
