package main

// C28: commands that only look, from several places and with several
// spellings of their argument, in a workspace that they must not touch.

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"pgregory.net/rapid"
)

type traceCase struct {
	Files    []allFile
	Imports  []int // file i imports file Imports[i]-1
	Config   int   // 0 yaml, 1 json, 2 --config-data, 3 none
	Below    string
	Group    string
	Add      []string
	Header   headerCfg
	Excludes []string
	Unused   bool
	Cmd      string
	Arg      string
	How      int
	Work2    string
	How2     int
	JSON     bool
	Protoc   string
	ReadOnly bool
	Moved    bool
	Debug    bool
}

var traceCmds = []string{
	"compile", "compile", "compile", "lint", "lint", "lint", "format", "format -l", "format -d", "format --fix", "format -d --fix", "format -l --fix", "files",
	"x inspect packages", "x inspect package-deps --name p0.v1", "x inspect package-importers --name p0.v1",
	"descriptor-set", "descriptor-set --include-imports", "descriptor-set --include-source-info",
	"compile --dry-run", "generate --dry-run", "break check", "break check git", "break descriptor-set", "lint --list-linters", "lint --list-lint-group google",
	"x inspect package-deps --name no.such", "grpc",
}

// A protoc that breaks, each way with what it writes left behind.
var traceProtocs = map[string]string{
	"fails":    "#!/bin/sh\n/usr/bin/protoc \"$@\"\nexit 1\n",
	"killed":   "#!/bin/sh\n/usr/bin/protoc \"$@\"\nkill -KILL $$\n",
	"babbles":  "#!/bin/sh\necho '[libprotobuf FATAL what] this is: no:such:message' >&2\n/usr/bin/protoc \"$@\"\nexit 1\n",
	"truncate": "#!/bin/sh\n/usr/bin/protoc \"$@\" || exit $?\nfor a in \"$@\"; do case \"$a\" in -o*) printf '\\nx' >\"${a#-o}\";; --descriptor_set_out=*) printf '\\nx' >\"${a#--descriptor_set_out=}\";; esac; done\n",
}

func genTrace(t *rapid.T) *traceCase {
	c := &traceCase{}
	for _, p := range genTreePaths(t, 1, 8) {
		c.Files = append(c.Files, allFile{Path: p, Body: bits(t, 4, "body") % protoBodies})
	}
	for i := range c.Files {
		n := 0
		if bits(t, 1, "imports") == 1 {
			n = uniform(t, i+1, "imported")
		}
		c.Imports = append(c.Imports, n)
	}
	if bits(t, 1, "bad file") == 1 {
		for k := 1 + bits(t, 1, "bad files"); k > 0; k-- {
			c.Files[uniform(t, len(c.Files), "which")].Bad = sample(t, []string{"syntax", "type", "duplicate", "import", "parser", "lint", "lint", "unused"}, "bad")
		}
	}
	c.Config = sample(t, []int{0, 0, 0, 1, 2, 3}, "configuration")
	c.Below = sample(t, []string{"", "", "", "x y", "..r"}, "configuration below")
	c.Group = sample(t, []string{"empty", "google", "uber1", "uber2"}, "group")
	if bits(t, 1, "rules") == 1 {
		c.Add = append(c.Add, sample(t, []string{"MESSAGES_HAVE_COMMENTS", "PACKAGES_SAME_IN_DIR", "FILE_OPTIONS_REQUIRE_JAVA_PACKAGE", "FILE_HEADER", "MESSAGE_FIELDS_NOT_FLOATS"}, "rule"))
	}
	if bits(t, 1, "header") == 1 {
		c.Header = genHeader(t)
	}
	c.Unused = bits(t, 1, "unused allowed") == 1
	var paths []string
	for _, f := range c.Files {
		paths = append(paths, f.Path)
	}
	dirs := dirsOf(paths)
	if bits(t, 2, "exclude") == 3 {
		c.Excludes = append(c.Excludes, sample(t, append(append([]string{}, paths...), dirs[1:]...), "excluded"))
	}
	c.Cmd = sample(t, traceCmds, "command")
	c.Arg = sample(t, append(append([]string{"", ""}, dirs...), paths...), "argument")
	c.How = uniform(t, 7, "spelling")
	c.Work2 = sample(t, append([]string{"", "..", "../other", "../../other dir"}, dirs...), "other working directory")
	c.How2 = uniform(t, 7, "other spelling")
	c.JSON = bits(t, 2, "json") == 3
	if bits(t, 2, "protoc") == 3 {
		c.Protoc = sample(t, sorted2(traceProtocs), "breaking protoc")
	}
	c.ReadOnly = bits(t, 2, "read only") == 3
	c.Moved = bits(t, 2, "moved") == 3
	c.Debug = bits(t, 2, "debug") == 3
	return c
}

func sorted2(m map[string]string) []string { return sortedKeys(m) }

// times lists the times of change of everything below dir.
func times(dir string) map[string]time.Time {
	out := map[string]time.Time{}
	must(filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil {
			out[p] = fi.ModTime()
		}
		return err
	}))
	return out
}

func runTrace(x *Ctx, c *traceCase) error {
	top := filepath.Join(x.Dir, "t")
	root := filepath.Join(top, "s", "root", c.Below)
	if c.Config >= 2 {
		root = filepath.Join(top, "s", "root")
	}
	pristine := map[string]string{}
	for i, f := range c.Files {
		s := protoBody(fmt.Sprintf("p%d.v1", i), msgNameFor(i), f.Body)
		add, imp := "", ""
		if n := c.Imports[i]; n > 0 {
			imp = fmt.Sprintf("import %q;", c.Files[n-1].Path)
			add = fmt.Sprintf("\nmessage Use%d { p%d.v1.Msg%d x = 1; }\n", i, n-1, n-1)
		}
		switch f.Bad {
		case "syntax":
			add += "\nmessage Bad {\n"
		case "type":
			add += "\nmessage Bad { NoSuch a = 1; }\n"
		case "duplicate":
			add += "\nmessage Bad { int64 a = 1; int64 b = 1; }\n"
		case "import":
			imp += "import \"no/such.proto\";\n"
		case "unused":
			imp += "import \"google/protobuf/any.proto\";\n"
		case "parser":
			add += "\nenum Bad { BAD_INVALID = 0; reserved -5 to -1; }\n"
		case "lint":
			add += "\nmessage bad_name { float UpperCase = 1; }\n"
		}
		if imp != "" {
			s = strings.Replace(s, "message", imp+"\nmessage", 1)
		}
		pristine[f.Path] = s + add
	}
	lint := M{"group": c.Group}
	if len(c.Add) > 0 {
		lint["rules"] = M{"add": c.Add}
	}
	c.Header.apply(lint, pristine)
	cfg := M{"lint": lint}
	if len(c.Excludes) > 0 {
		cfg["excludes"] = c.Excludes
	}
	if c.Unused {
		cfg["protoc"] = M{"allow_unused_imports": true}
	}
	cfg["generate"] = M{"plugins": []M{{"name": "java", "output": "gen"}}}
	var flags []string
	switch c.Config {
	case 0:
		pristine["prototool.yaml"] = yamlOf(cfg)
	case 1:
		pristine["prototool.json"] = jsonOf(cfg)
	case 2:
		flags = append(flags, "--config-data", jsonOf(cfg))
	}
	if c.JSON && c.Cmd != "files" && !strings.HasPrefix(c.Cmd, "x") && !strings.Contains(c.Cmd, "--list") {
		flags = append(flags, "--json")
	}
	if c.Cmd == "grpc" {
		flags = append(flags[:len(flags):len(flags)], "--address", "127.0.0.1:1", "--method", "p0.v1.No/Such", "--data", "{}", "--connect-timeout", "1s")
	}
	writeFiles(root, pristine)
	must(os.MkdirAll(filepath.Join(root, "../other"), 0755))
	must(os.MkdirAll(filepath.Join(root, "../../other dir"), 0755))
	if c.Protoc != "" {
		p := filepath.Join(x.Dir, "bin", "protoc")
		writeFiles(filepath.Dir(p), map[string]string{"protoc": traceProtocs[c.Protoc]})
		must(os.Chmod(p, 0755))
	}
	name := strings.Fields(c.Cmd)
	saved := filepath.Join(top, "saved")
	git := false
	switch c.Cmd {
	case "break check", "break check git":
		git = c.Cmd == "break check git"
		name = name[:2]
		if git {
			g := func(args ...string) {
				if r := x.Exec(root, x.baseEnv(), nil, "/usr/bin/git", args...); r.Code != 0 {
					infra("%s", r)
				}
			}
			g("init", "-q", "-b", "main", ".")
			g("config", "gc.auto", "0")
			g("add", "-A")
			g("commit", "-q", "--allow-empty", "-m", "one")
		} else {
			// one file less is one package less
			old := filepath.Join(x.Dir, "old")
			writeFiles(old, pristine)
			writeFiles(old, map[string]string{"gone.proto": "syntax = \"proto3\";\n\npackage gone.v1;\n\nmessage Gone {\n  int64 id = 1;\n}\n"})
			r := x.PT(old, append([]string{"break", "descriptor-set", "-o", saved}, flags...)...)
			if r.Code != 0 {
				writeFiles(top, map[string]string{"saved": ""})
			}
			flags = append(flags, "--descriptor-set-path", saved)
		}
	case "break descriptor-set":
		// not a place that is looked at, and not a device
		flags = append(flags, "-o", filepath.Join(filepath.Dir(x.Dir), "sink.bin"))
	}
	if c.Protoc != "" {
		x.Extra = []string{"PROTOTOOL_PROTOC_BIN_PATH=" + filepath.Join(x.Dir, "bin", "protoc")}
	}
	list := strings.Contains(c.Cmd, "--list")
	how, how2, arg := c.How, c.How2, c.Arg
	relOnly := strings.HasPrefix(c.Cmd, "break") // an argument of these is a relative directory
	if relOnly || strings.HasPrefix(c.Cmd, "x") {
		if strings.HasSuffix(arg, ".proto") {
			arg = dirOf(arg)
		}
	}
	if relOnly {
		rels := []int{0, 2, 4, 5, 6}
		how, how2 = rels[how%5], rels[how2%5]
	}
	run := func(root, work string, how int) *Result {
		args := append([]string{}, name...)
		args = append(args, flags...)
		if !list {
			a := spell(root, work, arg, how)
			args = append(args, a)
		}
		return x.PT(filepath.Join(root, work), args...)
	}
	explain := func(rs ...*Result) string {
		var b strings.Builder
		for _, r := range rs {
			fmt.Fprintf(&b, "%s\n", r)
		}
		return fmt.Sprintf("%sconfiguration %v\n%s", b.String(), jsonOf(cfg), dumpFiles(root, sortedKeys(pristine)))
	}
	before, timesBefore := snapshot(x.Dir), times(x.Dir)
	home, tmp := snapshot(x.Home), snapshot(x.Tmp)
	clean := func(r *Result) error {
		if d := diffSnap(tmp, snapshot(x.Tmp)); d != "" {
			return bad("leaves files in the temporary directory: %s\n%s", d, explain(r))
		}
		if d := diffSnap(home, snapshot(x.Home)); d != "" {
			return bad("leaves files in the home directory: %s\n%s", d, explain(r))
		}
		if d := diffSnap(before, snapshot(x.Dir)); d != "" {
			return bad("changes files: %s\n%s", d, explain(r))
		}
		now := times(x.Dir)
		for p, m := range timesBefore {
			if !now[p].Equal(m) {
				return bad("writes %s\n%s", strings.TrimPrefix(p, x.Dir), explain(r))
			}
		}
		return nil
	}
	first := run(root, "", how)
	if err := clean(first); err != nil {
		return err
	}
	again := run(root, "", how)
	if err := clean(again); err != nil {
		return err
	}
	if again.Code != first.Code {
		return bad("exits %d and then %d\n%s", first.Code, again.Code, explain(first, again))
	}
	timing := c.Protoc != "" || git
	if !timing && stable(c.Cmd, again.Out) != stable(c.Cmd, first.Out) {
		return bad("prints something else the second time\n%s", explain(first, again))
	}
	work2 := c.Work2
	if c.Config >= 2 || git || list {
		work2 = "" // what the working directory is matters there
	}
	if relOnly && strings.HasPrefix(work2, "..") {
		work2 = ""
	}
	if strings.HasPrefix(work2, "..") {
		x.Label("from outside")
	} else if work2 != "" {
		x.Label("from below")
	}
	same := func(r *Result, root2, w string) error {
		if r.Code != first.Code {
			return bad("exits %d and, from %q, %d\n%s", first.Code, w, r.Code, explain(first, r))
		}
		if timing {
			return nil
		}
		a, b := placed(c, first, root, ""), placed(c, r, root2, w)
		if a != b {
			return bad("prints something else from %q:\n%s\ninstead of\n%s\n%s", w, b, a, explain(first, r))
		}
		return nil
	}
	second := run(root, work2, how2)
	if err := clean(second); err != nil {
		return err
	}
	if err := same(second, root, work2); err != nil {
		return err
	}
	x.Label("%s, exit %d", c.Cmd, first.Code)
	if c.Debug {
		x.Label("debug")
		flags = append(flags, "--debug") // which is about stderr
		r := run(root, "", how)
		flags = flags[:len(flags)-1]
		if err := clean(r); err != nil {
			return err
		}
		if r.Code != first.Code || !timing && stable(c.Cmd, r.Out) != stable(c.Cmd, first.Out) {
			return bad("differs with --debug\n%s", explain(first, r))
		}
	}
	if c.ReadOnly {
		x.Label("read only")
		set := func(f, d os.FileMode) {
			var all []string
			must(filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
				if err == nil && fi.Mode()&os.ModeSymlink == 0 {
					all = append(all, p)
				}
				return err
			}))
			for i := range all {
				p := all[len(all)-1-i]
				fi, err := os.Lstat(p)
				must(err)
				m := f
				if fi.IsDir() {
					m = d
				}
				must(os.Chmod(p, m))
			}
		}
		set(0444, 0555)
		before, timesBefore = snapshot(x.Dir), times(x.Dir)
		r := run(root, work2, how2)
		if err := clean(r); err != nil {
			return err
		}
		set(0644, 0755)
		if r.Code != second.Code || !timing && stable(c.Cmd, r.Out) != stable(c.Cmd, second.Out) {
			return bad("differs where the files cannot be written\n%s", explain(second, r))
		}
	}
	if c.Moved && c.Cmd != "break check git" {
		x.Label("moved")
		root2 := filepath.Join(x.Dir, "else", "where")
		must(os.MkdirAll(filepath.Dir(root2), 0755))
		must(os.Rename(root, root2))
		must(os.MkdirAll(filepath.Join(root2, "../other"), 0755))
		must(os.MkdirAll(filepath.Join(root2, "../../other dir"), 0755))
		r := run(root2, work2, how2)
		if err := same(r, root2, work2); err != nil {
			return err
		}
	}
	if c.Protoc != "" {
		x.Label("protoc %s, exit %v", c.Protoc, first.Code)
	}
	if first.Out != "" || how != how2 || work2 != "" {
		x.NonTrivial()
	}
	return nil
}

// stable leaves out what differs from run to run by nature.
func stable(cmd, out string) string {
	if !strings.HasPrefix(cmd, "format -d") {
		return out
	}
	var keep []string
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "diff ") || strings.HasPrefix(l, "--- ") || strings.HasPrefix(l, "+++ ") {
			if i := strings.Index(l, "\t"); i >= 0 {
				l = l[:i]
			}
		}
		keep = append(keep, l)
	}
	return strings.Join(keep, "\n")
}

// placed is the output of a command in work with paths made relative to root.
func placed(c *traceCase, r *Result, root, work string) string {
	rel := func(p string) string {
		if !filepath.IsAbs(p) {
			p = filepath.Join(root, work, p)
		}
		q, err := filepath.Rel(root, p)
		must(err)
		return q
	}
	if r.Code == 1 {
		return "an error"
	}
	out := stable(c.Cmd, r.Out)
	// a failure, whose name is a path; anything else as it is
	line := func(l string) string {
		f := &failure{}
		if err := json.Unmarshal([]byte(l), f); err == nil && f.Filename != nil {
			*f.Filename = rel(*f.Filename)
			return jsonOf(M{"f": f})
		}
		if i := strings.Index(l, ".proto:"); i > 0 && !strings.ContainsAny(l[:1], " +-@{") {
			return rel(l[:i+6]) + l[i+6:]
		}
		return l
	}
	if strings.HasPrefix(c.Cmd, "format -d") {
		// headers name the file
		var keep, fails []string
		for _, l := range strings.Split(out, "\n") {
			if strings.HasPrefix(l, "diff ") || strings.HasPrefix(l, "--- ") || strings.HasPrefix(l, "+++ ") {
				l = l[:4]
			}
			if n := line(l); n != l || strings.Contains(l, ".proto:") {
				fails = append(fails, n)
			} else {
				keep = append(keep, l)
			}
		}
		sort.Strings(fails) // they are in the order of the names as printed
		return strings.Join(append(keep, fails...), "\n")
	}
	paths := func() string {
		var ls []string
		for _, l := range lines(out) {
			ls = append(ls, rel(l))
		}
		sort.Strings(ls)
		return strings.Join(ls, "\n")
	}
	switch {
	case c.Cmd == "files":
		return paths()
	case c.Cmd == "compile --dry-run" || c.Cmd == "generate --dry-run":
		return "" // see C20
	case r.Code != 0:
		var ls []string
		for _, l := range lines(out) {
			ls = append(ls, line(l))
		}
		sort.Strings(ls)
		return strings.Join(ls, "\n")
	}
	return out
}

func init() {
	prop("C28", "metamorphic", "trees of 1-8 files, some failing, a command that only looks, run twice from the root and again with another spelling of the argument, from another directory, on read-only files or a moved tree, some with a protoc that breaks; non-trivial: something is printed or the second run differs from the first in spelling or place",
		newPart("trace", 2600, 36000, genTrace, runTrace))
}
