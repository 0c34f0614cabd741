package main

// C27: all, against the commands it consists of run in turn on the same files.

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

type allFile struct {
	Path string
	Body int
	Bad  string
}

type allPlugin struct {
	Name, Output, Flags, Suffix string
}

type allCase struct {
	Files         []allFile
	Config        int // 0 yaml, 1 json, 2 --config-data, 3 none
	Group         string
	Add           []string
	Prefix        string
	Header        headerCfg
	Excludes      []string
	Plugins       []allPlugin
	Arg, Work     string
	How           int
	NoArg         bool
	Fix           bool
	DisableFormat bool
	DisableLint   bool
	JSON          bool
	ErrorFormat   string
	Trouble       string
}

var allBads = []string{"syntax", "type", "duplicate", "import", "parser", "octal", "read only", "lint", "lint", "lint", "unused"}
var allTroubles = []string{"output below a file", "no plugin", "unknown rule", "no header file", "bad configuration", "unknown argument", "no files"}

func genAll(t *rapid.T) *allCase {
	c := &allCase{}
	for _, p := range genTreePaths(t, 1, 6) {
		c.Files = append(c.Files, allFile{Path: p, Body: bits(t, 4, "body") % protoBodies})
	}
	if bits(t, 1, "bad file") == 1 {
		for k := 1 + bits(t, 1, "bad files"); k > 0; k-- {
			c.Files[uniform(t, len(c.Files), "which")].Bad = sample(t, allBads, "bad")
		}
	}
	c.Config = sample(t, []int{0, 0, 0, 1, 2, 3}, "configuration")
	c.Group = sample(t, []string{"empty", "empty", "empty", "google", "uber1", "uber2"}, "group")
	if bits(t, 1, "rules") == 1 {
		c.Add = append(c.Add, sample(t, []string{"MESSAGES_HAVE_COMMENTS", "SYNTAX_PROTO3", "FILE_OPTIONS_REQUIRE_JAVA_PACKAGE", "FILE_OPTIONS_EQUAL_JAVA_PACKAGE_PREFIX", "FILE_HEADER", "FILE_OPTIONS_EQUAL_GO_PACKAGE_V2_SUFFIX", "MESSAGE_FIELDS_NOT_FLOATS"}, "rule"))
	}
	c.Prefix = sample(t, []string{"", "", "org"}, "prefix")
	if bits(t, 1, "header") == 1 {
		c.Header = genHeader(t)
	}
	var paths []string
	for _, f := range c.Files {
		paths = append(paths, f.Path)
	}
	dirs := dirsOf(paths)
	if bits(t, 2, "exclude") == 3 {
		c.Excludes = append(c.Excludes, sample(t, append(append([]string{}, paths...), dirs[1:]...), "excluded"))
	}
	seen := map[string]bool{}
	for k := bits(t, 2, "plugins"); k > 0; k-- {
		p := allPlugin{Name: sample(t, []string{"vrec", "vgo", "java", "python", "descriptor_set"}, "plugin"), Output: sample(t, []string{"gen", "gen/x", "../out", "a/gen", "o p"}, "output")}
		if p.Name == "descriptor_set" {
			p.Suffix = "bin"
		}
		if seen[p.Name] {
			continue
		}
		seen[p.Name] = true
		if p.Name[0] == 'v' && bits(t, 3, "plugin fails") == 7 {
			p.Flags = sample(t, []string{"fail=error", "fail=exit", "fail=output"}, "flags")
		}
		c.Plugins = append(c.Plugins, p)
	}
	c.Arg = sample(t, append(append([]string{"", ""}, dirs...), paths...), "argument")
	c.Work = sample(t, append([]string{"", ""}, dirs...), "working directory")
	c.How = uniform(t, 7, "spelling")
	c.NoArg = bits(t, 2, "no argument") == 3
	c.Fix = bits(t, 1, "fix") == 1
	c.DisableFormat = bits(t, 2, "disable format") == 3
	c.DisableLint = bits(t, 2, "disable lint") == 3
	c.JSON = bits(t, 2, "json") == 3
	c.ErrorFormat = sample(t, []string{"", "", "filename:line:column:message", "id:filename:message:line"}, "error format")
	if bits(t, 3, "trouble") == 7 {
		c.Trouble = sample(t, allTroubles, "what trouble")
	}
	return c
}

func runAll(x *Ctx, c *allCase) error {
	root := filepath.Join(x.Dir, "top", "root")
	log := filepath.Join(x.Dir, "log")
	pristine := map[string]string{}
	ro := []string{}
	broken := map[int]bool{}
	for i, f := range c.Files {
		s := protoBody(fmt.Sprintf("p%d.v1", i), msgNameFor(i), f.Body)
		// two files of one name and Java package generate the same Java file
		s = strings.Replace(s, "\"x.y\"", fmt.Sprintf("\"x.y%d\"", i), 1)
		add := ""
		switch f.Bad {
		case "syntax":
			add = "\nmessage Bad {\n"
		case "type":
			add = "\nmessage Bad { NoSuch a = 1; }\n"
		case "duplicate":
			add = "\nmessage Bad { int64 a = 1; int64 b = 1; }\n"
		case "import":
			s = strings.Replace(s, "message", "import \"no/such.proto\";\nmessage", 1)
		case "unused":
			s = strings.Replace(s, "message", "import \"google/protobuf/any.proto\";\nmessage", 1)
		case "parser":
			add = "\nenum Bad { BAD_INVALID = 0; reserved -5 to -1; }\n"
		case "octal":
			add = "\nmessage Bad { int64 a = 010; int64 b = 10; }\n"
		case "lint":
			add = "\nmessage bad_name { float UpperCase = 1; }\n"
		case "read only":
			ro = append(ro, f.Path)
		}
		switch f.Bad {
		case "syntax", "type", "duplicate", "import", "unused":
			broken[i] = true
		}
		pristine[f.Path] = s + add
	}
	cfg := M{}
	lint := M{"group": c.Group}
	add := append([]string{}, c.Add...)
	if c.Trouble == "unknown rule" {
		add = append(add, "NO_SUCH_RULE")
	}
	if len(add) > 0 {
		lint["rules"] = M{"add": add}
	}
	if c.Prefix != "" {
		lint["java_package_prefix"] = c.Prefix
	}
	c.Header.apply(lint, pristine)
	if c.Trouble == "no header file" {
		lint["file_header"] = M{"path": "no/such/header"}
	}
	cfg["lint"] = lint
	if len(c.Excludes) > 0 {
		cfg["excludes"] = c.Excludes
	}
	var plugins []M
	for _, p := range c.Plugins {
		m := M{"name": p.Name, "output": p.Output}
		if p.Flags != "" {
			m["flags"] = p.Flags
		}
		if p.Suffix != "" {
			m["file_suffix"] = p.Suffix
		}
		plugins = append(plugins, m)
	}
	fails := false
	for _, p := range c.Plugins {
		fails = fails || p.Flags != ""
	}
	switch c.Trouble {
	case "output below a file":
		pristine["blocked"] = "x"
		plugins = append(plugins, M{"name": "cpp", "output": "blocked/gen"})
		fails = true
	case "no plugin":
		plugins = append(plugins, M{"name": "nosuchplugin", "output": "gen"})
		fails = true
	}
	if plugins != nil {
		cfg["generate"] = M{"plugins": plugins}
	}
	if c.Trouble == "bad configuration" {
		cfg["no"] = "such"
	}
	arg := c.Arg
	work := c.Work
	if c.Config >= 2 {
		work = "" // the configuration, or none, is one of the working directory
	}
	if c.NoArg {
		arg = work
	}
	if c.Trouble == "no files" {
		arg = "w/o"
		pristine["w/o/x"] = ""
	}
	var flags []string
	switch c.Config {
	case 0:
		pristine["prototool.yaml"] = yamlOf(cfg)
	case 1:
		pristine["prototool.json"] = jsonOf(cfg)
	case 2:
		flags = append(flags, "--config-data", jsonOf(cfg))
	case 3:
		cfg = M{}
	}
	if c.JSON {
		flags = append(flags, "--json")
	}
	if c.ErrorFormat != "" {
		flags = append(flags, "--error-format", c.ErrorFormat)
	}
	reset := func() {
		forceRemove(filepath.Join(x.Dir, "top"))
		forceRemove(log)
		must(os.MkdirAll(log, 0755))
		writeFiles(root, pristine)
		must(os.MkdirAll(filepath.Join(root, work), 0755))
		for _, p := range ro {
			must(os.Chmod(filepath.Join(root, p), 0444))
		}
	}
	x.Extra = []string{"PATH=" + x.Aux + ":/usr/local/bin:/usr/bin:/bin", "VREC_LOG=" + log}
	reset()
	if !c.NoArg || c.Trouble == "no files" {
		a := spell(root, work, arg, c.How)
		if c.Trouble == "unknown argument" {
			a += "x"
		}
		flags = append(flags, a)
	}
	calls := func() (out []string) {
		fis, err := ioutil.ReadDir(log)
		must(err)
		for _, fi := range fis {
			out = append(out, strings.SplitN(fi.Name(), "@", 2)[0]+" "+readFile(filepath.Join(log, fi.Name())))
		}
		sort.Strings(out)
		return
	}
	run := func(name ...string) *Result {
		return x.PT(filepath.Join(root, work), append(append([]string{}, name...), flags...)...)
	}
	describe := func() string {
		reset()
		return fmt.Sprintf("in %q\n%s", work, dumpFiles(root, sortedKeys(pristine)))
	}
	opts := []string{"all"}
	if c.Fix {
		opts = append(opts, "--fix")
	}
	if c.DisableFormat {
		opts = append(opts, "--disable-format")
	}
	if c.DisableLint {
		opts = append(opts, "--disable-lint")
	}
	before := snapshot(filepath.Join(x.Dir, "top"))
	all := run(opts...)
	after := snapshot(filepath.Join(x.Dir, "top"))
	called := calls()

	// the same with the commands, from the same start
	reset()
	format := []string{"format", "-w"}
	if c.Fix {
		format = append(format, "--fix")
	}
	steps := [][]string{{"compile"}}
	if !c.DisableFormat {
		steps = append(steps, format)
	}
	steps = append(steps, []string{"generate"})
	if !c.DisableLint {
		steps = append(steps, []string{"lint"})
	}
	out, errs, code, stopped := "", "", 0, "end"
	for _, s := range steps {
		r := run(s...)
		out, errs, code = out+r.Out, errs+r.Err, r.Code
		if r.Code != 0 {
			stopped = s[0]
			break
		}
	}
	wantAfter, wantCalled := snapshot(filepath.Join(x.Dir, "top")), calls()
	// where a plugin fails, what the others did by then is a matter of time
	timing := fails && stopped == "generate"
	if all.Code != code {
		return bad("all exits %d, its commands exit %d at %s\n%s\ncommands print %q %q\n%s", all.Code, code, stopped, all, out, errs, describe())
	}
	if all.Out != out && !timing {
		return bad("all prints %q\nits commands, to %s, print %q\n%s", clip(all.Out), stopped, clip(out), describe())
	}
	if !timing {
		if d := diffSnap(wantAfter, after); d != "" {
			return bad("all leaves other files than its commands, to %s: %s\n%s\n%s", stopped, d, all, describe())
		}
		if strings.Join(called, "\x00") != strings.Join(wantCalled, "\x00") {
			return bad("all calls plugins %d times, its commands, to %s, %d times, or with other requests\n%s\n%s", len(called), stopped, len(wantCalled), all, describe())
		}
	} else {
		for _, f := range c.Files {
			if p := filepath.Join("root", f.Path); after[p] != wantAfter[p] {
				return bad("all leaves another text in %s than its commands\n%s\n%s", f.Path, all, describe())
			}
		}
	}

	// and on its own
	dir, single := arg, ""
	if strings.HasSuffix(arg, ".proto") {
		dir, single = dirOf(arg), arg
	}
	compiled, wrong := 0, false
	formatted := map[string]bool{}
	for i, f := range c.Files {
		ok := within(f.Path, dir)
		for _, e := range c.Excludes {
			ok = ok && (c.Config == 3 || !within(f.Path, e))
		}
		if ok {
			compiled++
			wrong = wrong || broken[i]
			if single == "" || single == f.Path {
				formatted[f.Path] = true
			}
		}
	}
	if wrong && c.Trouble == "" {
		if all.Code == 0 {
			return bad("all succeeds although a file does not compile\n%s\n%s", all, describe())
		}
		if d := diffSnap(before, after); d != "" || len(called) > 0 {
			return bad("all changes files or calls plugins (%d times) although a file does not compile: %s\n%s\n%s", len(called), d, all, describe())
		}
	}
	for _, f := range c.Files {
		p := filepath.Join("root", f.Path)
		if after[p] != before[p] && (c.DisableFormat || !formatted[f.Path]) {
			return bad("all rewrites %s, which it must not\n%s\n%s", f.Path, all, describe())
		}
	}
	if c.DisableLint && c.DisableFormat && !wrong && !fails && c.Trouble == "" && all.Code != 0 {
		return bad("all fails without anything to fail\n%s\n%s", all, describe())
	}
	if all.Code == 0 && compiled > 0 && c.Trouble == "" {
		for _, p := range c.Plugins {
			if p.Flags != "" && p.Flags != "fail=output" && c.Config != 3 {
				return bad("all succeeds although the plugin %s fails\n%s\n%s", p.Name, all, describe())
			}
		}
		// the state is that after all here, too
		if !c.DisableFormat {
			a := []string{"format", "-l"}
			if c.Fix {
				a = append(a, "--fix")
			}
			if r := run(a...); r.Code != 0 || r.Out != "" {
				return bad("files are not formatted after all\n%s\n%s\n%s", r, all, describe())
			}
		}
		if !c.DisableLint {
			if r := run("lint"); r.Code != 0 || r.Out != "" {
				return bad("files do not pass lint after all\n%s\n%s\n%s", r, all, describe())
			}
		}
		was := snapshot(filepath.Join(x.Dir, "top"))
		if r := run(opts...); r.Code != 0 || r.Out != all.Out {
			return bad("all again gives another result\n%s\n%s\n%s", r, all, describe())
		}
		for p, s := range snapshot(filepath.Join(x.Dir, "top")) {
			if was[p] != s && !strings.HasSuffix(p, ".jar") {
				return bad("all again changes %s\n%s\n%s", p, all, describe())
			}
		}
	}
	if c.Config != 3 && len(c.Plugins) > 0 && (stopped == "lint" || stopped == "end") && compiled > 0 && c.Trouble == "" && !fails {
		for _, p := range c.Plugins {
			if p.Name[0] == 'v' && len(called) == 0 {
				return bad("all does not call the plugin %s\n%s\n%s", p.Name, all, describe())
			}
		}
	}
	x.Label("stopped at %s", stopped)
	x.Label("stopped at %s, format %v, lint %v", stopped, !c.DisableFormat, !c.DisableLint)
	x.Label("calls of plugins: %v", len(called) > 0)
	for _, f := range c.Files {
		if f.Bad != "" {
			x.Label("bad %s", f.Bad)
		}
	}
	if compiled > 0 {
		x.NonTrivial()
	}
	return nil
}

func init() {
	prop("C27", "differential", "trees of 1-6 files with syntax, type, parser and lint errors, read-only files and files that format breaks, under configurations with plugins, headers and rules, with failing plugins and every combination of flags; non-trivial: a file is compiled",
		newPart("all", 1800, 24000, genAll, runAll))
}
