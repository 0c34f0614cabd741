package main

// C30: the same command on the same files under different schedules: which
// protoc ends first, on one or on all processors, with the race detector.

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

type schedCase struct {
	Files   []allFile
	Imports []int // file i imports file Imports[i]-1
	Group   string
	Plugins int
	Cmd     string
	Arg     string
	JSON    bool
	Delays  [2][]int // by directory, in steps
	One     bool     // the second run has one processor
	Exits   []int    // by directory: how its protoc ends after all, 0 for as it does
	Timeout int      // microseconds; 0 none
}

var schedCmds = []string{
	"compile", "compile", "lint", "lint --generate-ignores", "format -l", "format -d", "format -w", "all", "all --fix", "generate", "descriptor-set", "descriptor-set --include-imports",
	"break descriptor-set", "break check", "x inspect packages", "x inspect package-deps --name p00.v1", "files", "grpc",
}

func genSched(t *rapid.T) *schedCase {
	c := &schedCase{}
	n := 2 + bits(t, 4, "directories")%13
	for i := 0; i < n; i++ {
		for k := 1 + bits(t, 2, "more files")/3; k > 0; k-- {
			c.Files = append(c.Files, allFile{Path: fmt.Sprintf("d%02d/%c.proto", i, 'd'-k), Body: bits(t, 4, "body") % protoBodies})
		}
	}
	for i := range c.Files {
		k := 0
		if bits(t, 1, "imports") == 1 {
			k = uniform(t, i+1, "imported")
		}
		c.Imports = append(c.Imports, k)
	}
	if bits(t, 1, "bad files") == 1 {
		for k := 1 + bits(t, 2, "how many"); k > 0; k-- {
			c.Files[uniform(t, len(c.Files), "which")].Bad = sample(t, []string{"syntax", "type", "type", "import", "unused", "parser", "lint", "lint"}, "bad")
		}
	}
	c.Group = sample(t, []string{"empty", "google", "uber2"}, "group")
	c.Plugins = bits(t, 1, "plugins")
	c.Cmd = sample(t, schedCmds, "command")
	if bits(t, 2, "argument") == 3 {
		f := c.Files[uniform(t, len(c.Files), "argument file")]
		c.Arg = f.Path
		if rapid.Bool().Draw(t, "its directory") {
			c.Arg = dirOf(f.Path)
		}
	}
	c.JSON = bits(t, 2, "json") == 3
	for k := range c.Delays {
		for i := 0; i < n; i++ {
			c.Delays[k] = append(c.Delays[k], bits(t, 2, "delay"))
		}
	}
	c.One = bits(t, 1, "one processor") == 1
	for i := 0; i < n; i++ {
		c.Exits = append(c.Exits, 0)
	}
	if bits(t, 3, "broken protocs") == 5 {
		for k := 1 + bits(t, 1, "broken ones"); k >= 0; k-- {
			c.Exits[uniform(t, n, "broken one")] = sample(t, []int{1, 3, 4, 137}, "its exit")
		}
	}
	if bits(t, 3, "timeout") == 5 {
		c.Timeout = 1 << uniform(t, 15, "microseconds")
	}
	return c
}

// schedProtoc is a protoc that takes its time depending on the directory.
func schedProtoc(bin string, delays, exits []int) {
	var b strings.Builder
	b.WriteString("#!/bin/sh\nwait=0 end=\nfor a in \"$@\"; do case \"$a\" in\n")
	for i, d := range delays {
		end := ""
		switch {
		case exits[i] == 137:
			end = "kill -KILL $$"
		case exits[i] > 0:
			end = fmt.Sprintf("exit %d", exits[i])
		}
		fmt.Fprintf(&b, "-*) ;; */d%02d/*) wait=%d.%02d end='%s';;\n", i, d*4/100, d*4%100, end)
	}
	b.WriteString("esac; done\n[ $wait = 0.00 ] || sleep $wait\n[ -z \"$end\" ] || eval \"$end\"\nexec /usr/bin/protoc \"$@\"\n")
	must(os.MkdirAll(filepath.Dir(bin), 0755))
	must(ioutil.WriteFile(bin, []byte(b.String()), 0755))
}

func runSched(x *Ctx, c *schedCase) error {
	pristine := map[string]string{}
	for i, f := range c.Files {
		s := protoBody(fmt.Sprintf("p%s.v1", f.Path[1:3]), msgNameFor(i), f.Body)
		add, imp := "", ""
		if n := c.Imports[i]; n > 0 {
			imp = fmt.Sprintf("import %q;", c.Files[n-1].Path)
			add = fmt.Sprintf("\nmessage Use%d { p%s.v1.%s x = 1; }\n", i, c.Files[n-1].Path[1:3], msgNameFor(n-1))
		}
		switch f.Bad {
		case "syntax":
			add += "\nmessage Bad {\n"
		case "type":
			add += "\nmessage Bad { NoSuch a = 1; }\n"
		case "import":
			imp += "import \"no/such.proto\";\n"
		case "unused":
			imp += "import \"google/protobuf/any.proto\";\n"
		case "parser":
			add += "\nenum Bad { BAD_INVALID = 0; reserved -5 to -1; }\n"
		case "lint":
			add += "\nmessage bad_name { float UpperCase = 1; }\n"
		}
		if imp != "" {
			s = strings.Replace(s, "message", imp+"\nmessage", 1)
		}
		pristine[f.Path] = s + add
	}
	cfg := M{"lint": M{"group": c.Group}}
	plugins := []M{{"name": "vrec", "output": "gen"}}
	if c.Plugins > 0 {
		plugins = append(plugins, M{"name": "vgo", "output": "gen2/x", "type": "go"})
		cfg["generate"] = M{"go_options": M{"import_path": "example.com/x"}, "plugins": plugins}
	} else {
		cfg["generate"] = M{"plugins": plugins}
	}
	pristine["prototool.yaml"] = yamlOf(cfg)
	args := strings.Fields(c.Cmd)
	switch c.Cmd {
	case "grpc":
		args = append(args, "--address", "127.0.0.1:1", "--method", "p00.v1.No/Such", "--data", "{}", "--connect-timeout", "1s")
	case "break check":
		old := filepath.Join(x.Dir, "old")
		writeFiles(old, map[string]string{"gone/a.proto": "syntax = \"proto3\";\n\npackage gone.v1;\n\nmessage Gone {\n  int64 id = 1;\n}\n"})
		saved := filepath.Join(x.Dir, "saved.bin")
		if r := x.PT(old, "break", "descriptor-set", "-o", saved, "."); r.Code != 0 {
			return bad("cannot save: %s", r)
		}
		args = append(args, "--descriptor-set-path", saved)
	case "break descriptor-set":
		args = append(args, "-o", "out.bin")
	}
	if c.JSON && (args[0] == "compile" || args[0] == "all" || c.Cmd == "lint") {
		args = append(args, "--json")
	}
	walk := "600s"
	if c.Timeout > 0 {
		walk = fmt.Sprintf("%dus", c.Timeout)
	}
	args = append(args, "--walk-timeout", walk)
	arg := "."
	if c.Arg != "" {
		arg = c.Arg
		if (args[0] == "break" || args[0] == "x") && strings.HasSuffix(arg, ".proto") {
			arg = dirOf(arg)
		}
	}
	args = append(args, arg)
	racing := x.Bin + ".race"
	if _, err := os.Stat(racing); err != nil {
		infra("%v", err)
	}
	bin, root := filepath.Join(x.Dir, "bin", "protoc"), filepath.Join(x.Dir, "root")
	reports := filepath.Join(x.Dir, "race")
	env := append(append(x.baseEnv(), protocEnv...), "PATH="+x.Aux+":/usr/local/bin:/usr/bin:/bin", "PROTOTOOL_PROTOC_BIN_PATH="+bin,
		"GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path="+filepath.Join(reports, "r"))
	run := func(k int) (*Result, map[string]string, error) {
		forceRemove(root)
		forceRemove(reports)
		must(os.MkdirAll(reports, 0777))
		writeFiles(root, pristine)
		schedProtoc(bin, c.Delays[k], c.Exits)
		name, full := racing, args
		if k == 1 && c.One {
			name, full = "/usr/bin/taskset", append([]string{"-c", "0", racing}, args...)
		}
		r := x.Exec(root, env, nil, name, full...)
		r.Args = append([]string{"prototool"}, args...)
		after := snapshot(root)
		if r.Code == 2 && strings.Contains(r.Err, "goroutine ") {
			return r, after, bad("crashes: %s", r)
		}
		l, err := filepath.Glob(filepath.Join(reports, "*"))
		must(err)
		if len(l) > 0 {
			return r, after, bad("has a data race:\n%s\n%s", clip(readFile(l[0])), r)
		}
		return r, after, nil
	}
	show := func(rs ...*Result) string {
		var b strings.Builder
		for _, r := range rs {
			fmt.Fprintf(&b, "%s\n", r)
		}
		return fmt.Sprintf("%sdelays %v, one processor second: %v, broken protocs %v\n%s", b.String(), c.Delays, c.One, c.Exits, dumpFiles(root, sortedKeys(pristine)))
	}
	a, filesA, err := run(0)
	if err != nil {
		return bad("%v\n%s", err, show())
	}
	b, filesB, err := run(1)
	if err != nil {
		return bad("%v\n%s", err, show())
	}
	x.Label("%s, exit %d", c.Cmd, a.Code)
	norm := func(r *Result) string { return stable(c.Cmd, strings.ReplaceAll(r.Out, root, ".")) }
	if c.Timeout > 0 {
		// Either the walk ended in time or there is an error; never some of the files.
		x.Label("walk timeout")
		timeout := func(r *Result) bool {
			return r.Code == 1 && (strings.Contains(r.Out, "timed out") || strings.Contains(r.Out, "internal prototool error"))
		}
		c2 := *c
		c2.Timeout = 0
		if ta, tb := timeout(a), timeout(b); ta || tb {
			x.Label("timed out")
			for i, r := range []*Result{a, b} {
				d := diffSnap(rootOf(pristine), contents([]map[string]string{filesA, filesB}[i]))
				if timeout(r) && d != "" {
					return bad("writes files although it timed out: %s\n%s", d, show(r))
				}
			}
			if ta && tb {
				return nil
			}
			// one was in time: it must have done all
			args[len(args)-2] = "600s"
			full, filesFull, err := run(1)
			if err != nil {
				return bad("%v\n%s", err, show())
			}
			in, filesIn := a, filesA
			if ta {
				in, filesIn = b, filesB
			}
			a, filesA, b, filesB = in, filesIn, full, filesFull
		}
	}
	if a.Code != b.Code {
		return bad("exits %d or %d\n%s", a.Code, b.Code, show(a, b))
	}
	brokenWrites := false
	for _, e := range c.Exits {
		brokenWrites = brokenWrites || e > 0
	}
	if norm(a) != norm(b) {
		return bad("prints different things\n%s", show(a, b))
	}
	if d := diffSnap(filesA, filesB); d != "" {
		return bad("leaves different files: %s\n%s", d, show(a, b))
	}
	dirs := map[string]bool{}
	for _, f := range c.Files {
		dirs[dirOf(f.Path)] = true
	}
	order := func(k int) string {
		idx := make([]int, len(c.Delays[k]))
		for i := range idx {
			idx[i] = i
		}
		sort.SliceStable(idx, func(i, j int) bool { return c.Delays[k][idx[i]] < c.Delays[k][idx[j]] })
		return fmt.Sprint(idx)
	}
	if order(0) != order(1) && c.Cmd != "files" {
		x.NonTrivial()
	}
	if c.One {
		x.Label("one processor")
	}
	if brokenWrites {
		x.Label("broken protocs")
	}
	if strings.Count(a.Out, "\n") > 1 {
		x.Label("several lines")
	}
	return nil
}

// rootOf and contents make a set of files and a snapshot comparable.
func rootOf(files map[string]string) map[string]string {
	out := map[string]string{}
	for p, s := range files {
		out[p] = s
	}
	return out
}

func contents(snap map[string]string) map[string]string {
	out := map[string]string{}
	for p, s := range snap {
		if !strings.HasSuffix(p, "/") {
			out[p] = s[strings.Index(s, " ")+1:]
		}
	}
	return out
}

func init() {
	prop("C30", "metamorphic", "trees of 2-14 directories with imports between them, some failing; a command twice with other delays of each protoc, the second time possibly on one processor, both with the race detector; some with protocs that break or a walk timeout; non-trivial: the protocs end in another order",
		newPart("schedule", 400, 7000, genSched, runSched))
}
