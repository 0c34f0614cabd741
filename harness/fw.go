package main

// Framework: every property is one or more parts; a part is a generator (all
// random choices through rapid) and an oracle run on a JSON-serialisable case.

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

// part is one generator plus oracle of a property.
type part struct {
	name     string
	quick    int // number of cases over all workers
	thorough int
	gen      func(t *rapid.T) interface{}
	decode   func(raw []byte) (interface{}, error)
	run      func(x *Ctx, c interface{}) error
}

type property struct {
	id    string
	level string
	rule  string
	parts []*part
}

var properties = map[string]*property{}

func prop(id, level, rule string, parts ...*part) {
	properties[id] = &property{id: id, level: level, rule: rule, parts: parts}
}

func newPart[C any](name string, quick, thorough int, gen func(t *rapid.T) *C, run func(x *Ctx, c *C) error) *part {
	return &part{
		name: name, quick: quick, thorough: thorough,
		gen: func(t *rapid.T) interface{} { return gen(t) },
		decode: func(raw []byte) (interface{}, error) {
			c := new(C)
			return c, json.Unmarshal(raw, c)
		},
		run: func(x *Ctx, c interface{}) error { return run(x, c.(*C)) },
	}
}

// savedCase is the replay file format.
type savedCase struct {
	Property string          `json:"property"`
	Part     string          `json:"part"`
	Message  string          `json:"message,omitempty"`
	Key      string          `json:"key,omitempty"`
	Case     json.RawMessage `json:"case"`
}

// infraError is an error of the machinery, never a verdict.
type infraError struct{ err error }

func (e infraError) Error() string { return "machinery: " + e.err.Error() }

func infra(format string, args ...interface{}) {
	panic(infraError{fmt.Errorf(format, args...)})
}

func must(err error) {
	if err != nil {
		panic(infraError{err})
	}
}

// violation is a failed oracle. key identifies a known finding.
type violation struct {
	key string
	msg string
}

func (v *violation) Error() string { return v.msg }

func bad(format string, args ...interface{}) error {
	return &violation{msg: fmt.Sprintf(format, args...)}
}

func badKey(key, format string, args ...interface{}) error {
	return &violation{key: key, msg: fmt.Sprintf(format, args...)}
}

// Ctx is the execution context of one case.
type Ctx struct {
	Bin    string // prototool binary
	Aux    string // directory with this harness binary (recording plugin)
	Root   string // worker scratch root
	Dir    string // case scratch directory
	Home   string
	Tmp    string
	Tier   string
	labels map[string]bool
	nontr  bool
	crash  *Result
	Extra  []string // extra environment
}

func (x *Ctx) Label(format string, args ...interface{}) {
	x.labels[fmt.Sprintf(format, args...)] = true
}
func (x *Ctx) NonTrivial() { x.nontr = true }

func (x *Ctx) reset() {
	x.labels = map[string]bool{}
	x.nontr = false
	x.crash = nil
	x.Extra = nil
	forceRemove(x.Dir)
	forceRemove(x.Home)
	forceRemove(x.Tmp)
	must(os.MkdirAll(x.Dir, 0755))
	must(os.MkdirAll(x.Home, 0755))
	must(os.MkdirAll(x.Tmp, 0755))
}

func forceRemove(dir string) {
	if err := os.RemoveAll(dir); err == nil {
		return
	}
	_ = filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if fi != nil && fi.IsDir() {
			_ = os.Chmod(p, 0755)
		}
		return nil
	})
	must(os.RemoveAll(dir))
}

// Result of one process.
type Result struct {
	Args   []string
	Out    string
	Err    string
	Code   int
	Signal bool
}

func (r *Result) OK() bool { return r.Code == 0 }
func (r *Result) String() string {
	return fmt.Sprintf("%s -> exit %d\nstdout:\n%s\nstderr:\n%s", strings.Join(r.Args, " "), r.Code, clip(r.Out), clip(r.Err))
}

func clip(s string) string {
	if len(s) > 3000 {
		return s[:3000] + "...(clipped)"
	}
	return s
}

func (x *Ctx) baseEnv() []string {
	env := []string{
		"PATH=/usr/local/bin:/usr/bin:/bin",
		"HOME=" + x.Home,
		"TMPDIR=" + x.Tmp,
		"LANG=C.UTF-8",
		"GIT_AUTHOR_NAME=v", "GIT_AUTHOR_EMAIL=v@example.com",
		"GIT_COMMITTER_NAME=v", "GIT_COMMITTER_EMAIL=v@example.com",
		"GIT_CONFIG_NOSYSTEM=1",
	}
	return env
}

var protocEnv = []string{
	"PROTOTOOL_PROTOC_BIN_PATH=/usr/bin/protoc",
	"PROTOTOOL_PROTOC_WKT_PATH=/usr/include",
}

const procTimeout = 240 * time.Second

// hangTimeout is how long a call of prototool may take; shorter once one hung.
var hangTimeout = 150 * time.Second

// Exec runs any program.
func (x *Ctx) Exec(dir string, env []string, stdin []byte, name string, args ...string) *Result {
	timeout := procTimeout
	if name == x.Bin {
		timeout = hangTimeout
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.WaitDelay = 30 * time.Second
	cmd.Dir = dir
	cmd.Env = env
	if stdin != nil {
		cmd.Stdin = bytes.NewReader(stdin)
	}
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	err := cmd.Run()
	if ctx.Err() != nil && name == x.Bin {
		hangTimeout = 40 * time.Second
		panic(bad("prototool hangs (more than %v): %v\n%s\n%s", timeout, args, clip(out.String()), clip(errb.String())))
	}
	if ctx.Err() != nil {
		infra("%s %v: did not finish in %v", name, args, procTimeout)
	}
	r := &Result{Args: append([]string{filepath.Base(name)}, args...), Out: out.String(), Err: errb.String()}
	if err != nil {
		var ee *exec.ExitError
		if !errors.As(err, &ee) {
			infra("%s %v: %v", name, args, err)
		}
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			r.Signal = true
			r.Code = 128 + int(ws.Signal())
			if ws.Signal() == syscall.SIGKILL {
				infra("%s %v: killed", name, args)
			}
		} else {
			r.Code = ee.ExitCode()
		}
	}
	return r
}

// needsWalk are the commands with a --walk-timeout flag.
var needsWalk = map[string]bool{
	"all": true, "compile": true, "descriptor-set": true, "files": true, "format": true,
	"generate": true, "grpc": true, "lint": true, "break check": true, "break descriptor-set": true,
	"x inspect packages": true, "x inspect package-deps": true, "x inspect package-importers": true,
}

// PT runs prototool in dir with the system protoc.
func (x *Ctx) PT(dir string, args ...string) *Result {
	return x.PTEnv(dir, append(x.baseEnv(), protocEnv...), nil, args...)
}

func (x *Ctx) PTEnv(dir string, env []string, stdin []byte, args ...string) *Result {
	env = append(append([]string{}, env...), x.Extra...)
	full := args
	for n := 3; n >= 1; n-- {
		if len(args) >= n && needsWalk[strings.Join(args[:n], " ")] {
			full = append(append(append([]string{}, args[:n]...), "--walk-timeout", "600s"), args[n:]...)
			break
		}
	}
	r := x.Exec(dir, env, stdin, x.Bin, full...)
	r.Args = append([]string{"prototool"}, args...)
	if r.Code == 2 && strings.Contains(r.Err, "goroutine ") || r.Signal {
		x.crash = r
	}
	return r
}

// Protoc runs the system protoc directly.
func (x *Ctx) Protoc(dir string, args ...string) *Result {
	return x.Exec(dir, x.baseEnv(), nil, "/usr/bin/protoc", args...)
}

// Write writes files below dir.
func writeFiles(dir string, files map[string]string) {
	for _, p := range sortedKeys(files) {
		full := filepath.Join(dir, p)
		must(os.MkdirAll(filepath.Dir(full), 0755))
		must(ioutil.WriteFile(full, []byte(files[p]), 0644))
	}
}

func readFile(p string) string {
	b, err := ioutil.ReadFile(p)
	must(err)
	return string(b)
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// snapshot lists every path below dir with kind, mode and content.
func snapshot(dir string) map[string]string {
	out := map[string]string{}
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		switch {
		case fi.IsDir():
			out[rel+"/"] = fi.Mode().String()
		case fi.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			out[rel] = "-> " + l
		default:
			b, err := ioutil.ReadFile(p)
			if err != nil {
				return err
			}
			out[rel] = fi.Mode().String() + " " + string(b)
		}
		return nil
	})
	must(err)
	return out
}

// diffSnap describes the first differences between snapshots.
func diffSnap(a, b map[string]string) string {
	var out []string
	for _, k := range sortedKeys(a) {
		v, ok := b[k]
		if !ok {
			out = append(out, "removed "+k)
		} else if v != a[k] {
			out = append(out, fmt.Sprintf("changed %s: %q -> %q", k, clip(a[k]), clip(v)))
		}
	}
	for _, k := range sortedKeys(b) {
		if _, ok := a[k]; !ok {
			out = append(out, "added "+k)
		}
	}
	return strings.Join(out, "\n")
}

func lines(s string) []string {
	s = strings.TrimSuffix(s, "\n")
	if s == "" {
		return nil
	}
	return strings.Split(s, "\n")
}

func hashCase(part string, raw []byte) string {
	h := sha256.Sum256(append([]byte(part+"\x00"), raw...))
	return hex.EncodeToString(h[:10])
}

// runCase runs the oracle on one case; the error is a violation or nil.
func runCase(x *Ctx, p *part, c interface{}) (err error) {
	x.reset()
	defer func() {
		if r := recover(); r != nil {
			if v, ok := r.(*violation); ok {
				err = v
				return
			}
			panic(r)
		}
	}()
	err = p.run(x, c)
	if x.crash != nil {
		return bad("prototool crashed: %s", x.crash)
	}
	return err
}
