package main

// C20: generate with a plugin that records its calls, against the calls and
// files the configuration asks for; dry runs are executed by a shell.

import (
	"archive/zip"
	"fmt"
	"io/ioutil"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"github.com/golang/protobuf/proto"
	descpb "github.com/golang/protobuf/protoc-gen-go/descriptor"
	plugin "github.com/golang/protobuf/protoc-gen-go/plugin"
	"pgregory.net/rapid"
)

type genPlugin struct {
	Name    string
	Type    string
	Flags   string
	Output  string
	Path    int // 0 none, 1 absolute, 2 looked up
	As      string
	Suffix  string
	Imports bool
	Info    bool
}

type generateCase struct {
	Top      string // the directory of the configuration, below the root
	Files    []string
	Imports  [][]int
	WKT      []int
	Excludes []string
	Include  string // an additional include path
	Plugins  []genPlugin
	Import   string
	Extra    map[string]string
	Config   int // yaml, json, --config-data
	Work     int
	Target   int
	How      int
	Dry      bool
	Broken   int // 0 none, 1 a file does not compile
	Stale    bool
}

var wktNames = []string{"any", "api", "compiler/plugin", "descriptor", "duration", "empty", "field_mask", "source_context", "struct", "timestamp", "type", "wrappers"}

// wktGo are the packages of the Well-Known Types of golang/protobuf and gogo/protobuf.
var wktGo = map[string][2]string{
	"any":             {"github.com/golang/protobuf/ptypes/any", "github.com/gogo/protobuf/types"},
	"api":             {"google.golang.org/genproto/protobuf/api", "google.golang.org/genproto/protobuf/api"},
	"compiler/plugin": {"github.com/golang/protobuf/protoc-gen-go/plugin", "github.com/gogo/protobuf/protoc-gen-gogo/plugin"},
	"descriptor":      {"github.com/golang/protobuf/protoc-gen-go/descriptor", "github.com/gogo/protobuf/protoc-gen-gogo/descriptor"},
	"duration":        {"github.com/golang/protobuf/ptypes/duration", "github.com/gogo/protobuf/types"},
	"empty":           {"github.com/golang/protobuf/ptypes/empty", "github.com/gogo/protobuf/types"},
	"field_mask":      {"google.golang.org/genproto/protobuf/field_mask", "github.com/gogo/protobuf/types"},
	"source_context":  {"google.golang.org/genproto/protobuf/source_context", "google.golang.org/genproto/protobuf/source_context"},
	"struct":          {"github.com/golang/protobuf/ptypes/struct", "github.com/gogo/protobuf/types"},
	"timestamp":       {"github.com/golang/protobuf/ptypes/timestamp", "github.com/gogo/protobuf/types"},
	"type":            {"google.golang.org/genproto/protobuf/ptype", "google.golang.org/genproto/protobuf/ptype"},
	"wrappers":        {"github.com/golang/protobuf/ptypes/wrappers", "github.com/gogo/protobuf/types"},
}

func genGenerate(fail bool) func(t *rapid.T) *generateCase {
	return func(t *rapid.T) *generateCase {
		c := &generateCase{
			Top:   sample(t, []string{"", "idl", "idl/uber", "my idl", "a.b"}, "top"),
			Files: genTreePaths(t, sample(t, []int{1, 3, 5}, "at least"), 9), Config: sample(t, []int{0, 0, 0, 1, 2}, "config"),
			Work: bits(t, 4, "work"), Target: bits(t, 4, "target"), How: bits(t, 3, "how"), Dry: bits(t, 1, "dry") == 1,
			Stale: bits(t, 1, "stale") == 1,
		}
		for i := range c.Files {
			var imps []int
			for j := 0; j < i; j++ {
				if bits(t, 2, "import") == 1 {
					imps = append(imps, j)
				}
			}
			c.Imports = append(c.Imports, imps)
			w := -1
			if bits(t, 1, "wkt") == 1 {
				w = sample(t, []int{0, 4, 5, 9, 3}, "which wkt")
			}
			c.WKT = append(c.WKT, w)
		}
		dirs := dirsOf(c.Files)
		if bits(t, 2, "exclude") == 1 {
			for i := 1 + bits(t, 1, "excludes"); i > 0; i-- {
				if e := sample(t, append(dirs[:len(dirs):len(dirs)], c.Files...), "excluded"); e != "" {
					c.Excludes = append(c.Excludes, e)
				}
			}
		}
		if bits(t, 2, "include") == 1 {
			c.Include = sample(t, []string{"../third", "/third", "third/sub"}, "include path")
		}
		c.Import = sample(t, []string{"uber/foo/bar.git/idl/uber", "github.com/x/y/z", "a/b/c/", "a//b/c"}, "import path")
		if bits(t, 1, "extra") == 1 {
			c.Extra = map[string]string{}
			for i := bits(t, 2, "modifiers"); i > 0; i-- {
				c.Extra[sample(t, []string{"google/api/http.proto", "x/y.proto", "a.proto", "third/t.proto"}, "extra file")] = sample(t, []string{"google.golang.org/genproto/googleapis/api/annotations", "x/y", "z"}, "extra package")
			}
		}
		taken := map[string]bool{}
		for i := bits(t, 3, "plugins") % 7; i > 0 || fail && len(c.Plugins) == 0; i-- {
			p := genPlugin{Name: sample(t, []string{"vrec", "vgo", "vgogo", "own", "go", "descriptor_set"}, "plugin")}
			if taken[p.Name] {
				continue
			}
			taken[p.Name] = true
			p.Output = sample(t, []string{"gen", "gen", "../gen", "gen/a/b", "./gen/x/", ".", "../.gen/proto/go", "gen c", "/abs", "gen/../out", "/in/gen/b", "/in/idl/../x/y"}, "output")
			if p.Name == "descriptor_set" {
				p.Suffix = sample(t, []string{"bin", "bin", "d.bin", "x-y"}, "suffix")
				p.Imports = rapid.Bool().Draw(t, "include imports")
				p.Info = rapid.Bool().Draw(t, "include source info")
				c.Plugins = append(c.Plugins, p)
				continue
			}
			p.Type = sample(t, []string{"", "go", "gogo", "go", "GO"}, "type")
			p.Flags = sample(t, []string{"", "", "plugins=grpc", "a=b,c", "paths=source_relative", "x"}, "flags")
			p.Path = sample(t, []int{0, 0, 1, 2}, "path")
			if p.Name == "own" || p.Name == "go" {
				p.Path = 1 + bits(t, 1, "path of")
			}
			p.As = sample(t, []string{"vrec", "vgo", "vgogo"}, "as")
			if p.Name == "own" || p.Name == "go" || p.Path != 0 {
				if taken["as "+p.As] {
					continue
				}
				taken["as "+p.As] = true
			} else if taken["as "+p.Name] {
				continue
			} else {
				taken["as "+p.Name] = true
			}
			if bits(t, 2, "jar") == 1 {
				p.Suffix = sample(t, []string{"jar", "zip", "x.jar"}, "jar suffix")
			}
			if p.Suffix != "" {
				// one file: not two plugins with one output
				if taken[p.Output+p.Suffix] {
					continue
				}
				taken[p.Output+p.Suffix] = true
			}
			if fail && bits(t, 1, "fails") == 1 {
				p.Flags = sample(t, []string{"fail=error", "fail=exit", "fail=output", "a,fail=exit"}, "failure")
			}
			c.Plugins = append(c.Plugins, p)
		}
		if fail {
			c.Broken = bits(t, 2, "broken")
			c.Dry = false
		}
		return c
	}
}

// genCall is what one call of a plugin must look like.
type genCall struct {
	dir    string
	plugin genPlugin
	files  []string
	flags  string
	mods   []string
}

func runGenerate(x *Ctx, c *generateCase) error {
	root := filepath.Join(x.Dir, "r")
	cfgDir := filepath.Join(root, "w", c.Top)
	third := c.Include
	if strings.HasPrefix(third, "/") {
		third = filepath.Join(root, third)
	}
	files := map[string]string{}
	for i, p := range c.Files {
		var b strings.Builder
		fmt.Fprintf(&b, "syntax = \"proto3\";\n\npackage p%d;\n\n", i)
		var uses []string
		for _, j := range c.Imports[i] {
			fmt.Fprintf(&b, "import \"%s\";\n", c.Files[j])
			uses = append(uses, fmt.Sprintf(".p%d.Msg", j))
		}
		if w := c.WKT[i]; w >= 0 {
			fmt.Fprintf(&b, "import \"google/protobuf/%s.proto\";\n", wktNames[w])
			uses = append(uses, ".google.protobuf."+map[int]string{0: "Any", 4: "Duration", 5: "Empty", 9: "Timestamp", 3: "FileDescriptorProto"}[w])
			if w == 3 {
				uses = uses[:len(uses)-1]
				fmt.Fprintf(&b, "\nextend google.protobuf.FieldOptions {\n  string ext = %d;\n}\n", 50000+i)
			}
		}
		if c.Include != "" && i == 0 {
			b.WriteString("import \"third/t.proto\";\n")
			uses = append(uses, ".third.T")
		}
		b.WriteString("\nmessage Msg {\n")
		for k, u := range uses {
			fmt.Fprintf(&b, "  %s f%d = %d;\n", u, k, k+1)
		}
		b.WriteString("}\n")
		files[p] = b.String()
	}
	if c.Broken == 1 {
		files[c.Files[c.How%len(c.Files)]] += "message Bad { Unknown u = 1; }\n"
	}
	writeFiles(cfgDir, files)
	cfg := M{"protoc": M{"allow_unused_imports": true}}
	if c.Include != "" {
		dir := third
		if !filepath.IsAbs(dir) {
			dir = filepath.Join(cfgDir, dir)
		}
		// an include path inside of the tree is excluded from the files
		writeFiles(dir, map[string]string{"third/t.proto": "syntax = \"proto3\";\n\npackage third;\n\nmessage T {}\n"})
		cfg["protoc"] = M{"allow_unused_imports": true, "includes": []string{third}}
		if within(dir, cfgDir) {
			rel, err := filepath.Rel(cfgDir, dir)
			must(err)
			cfg["excludes"] = append(append([]string{}, c.Excludes...), rel)
		}
	}
	if cfg["excludes"] == nil && len(c.Excludes) > 0 {
		cfg["excludes"] = c.Excludes
	}
	log := filepath.Join(x.Dir, "log")
	must(os.MkdirAll(log, 0755))
	x.Extra = []string{"PATH=" + x.Aux + ":/usr/local/bin:/usr/bin:/bin", "VREC_LOG=" + log}
	outOf := func(p genPlugin) string {
		if strings.HasPrefix(p.Output, "/in/") { // absolute, in the directory of the configuration
			return cfgDir + p.Output[3:]
		}
		if strings.HasPrefix(p.Output, "/") {
			return filepath.Join(root, p.Output)
		}
		return filepath.Join(cfgDir, p.Output)
	}
	var plugins []M
	for _, p := range c.Plugins {
		m := M{"name": p.Name, "output": p.Output}
		if strings.HasPrefix(p.Output, "/") {
			m["output"] = outOf(p)
		}
		if p.Type != "" {
			m["type"] = p.Type
		}
		if p.Flags != "" {
			m["flags"] = p.Flags
		}
		switch p.Path {
		case 1:
			m["path"] = filepath.Join(x.Aux, "protoc-gen-"+p.As)
		case 2:
			m["path"] = "protoc-gen-" + p.As
		}
		if p.Suffix != "" {
			m["file_suffix"] = p.Suffix
		}
		if p.Imports {
			m["include_imports"] = true
		}
		if p.Info {
			m["include_source_info"] = true
		}
		plugins = append(plugins, m)
	}
	g := M{}
	if plugins != nil {
		g["plugins"] = plugins
	}
	opts := M{"import_path": c.Import}
	if len(c.Extra) > 0 {
		opts["extra_modifiers"] = c.Extra
	}
	g["go_options"] = opts
	cfg["generate"] = g
	dirs := dirsOf(c.Files)
	work := ""
	target := ""
	if c.Target < 10 {
		target = c.Files[c.Target%len(c.Files)]
		if c.Target%2 == 0 {
			target = dirOf(target)
		}
	}
	if c.Work < 10 {
		work = dirs[c.Work%len(dirs)]
	}
	var flags []string
	switch c.Config {
	case 0:
		writeFiles(cfgDir, map[string]string{"prototool.yaml": yamlOf(cfg)})
	case 1:
		writeFiles(cfgDir, map[string]string{"prototool.json": jsonOf(cfg)})
	case 2:
		work = "" // the configuration is one of the working directory
		flags = []string{"--config-data", jsonOf(cfg)}
	}
	excluded := func(p string) bool {
		for _, e := range c.Excludes {
			if within(p, e) {
				return true
			}
		}
		return false
	}
	targetDir := target
	if strings.HasSuffix(target, ".proto") {
		targetDir = dirOf(target)
	}
	byDir := map[string][]string{}
	var known []string
	for _, p := range c.Files {
		if excluded(p) {
			continue
		}
		known = append(known, p)
		if within(p, targetDir) {
			byDir[dirOf(p)] = append(byDir[dirOf(p)], p)
		}
	}
	if len(byDir) == 0 {
		x.Label("nothing selected")
		return nil
	}
	var calls []genCall
	for _, d := range sortedKeys(byDir) {
		fs := byDir[d]
		sort.Strings(fs)
		for _, p := range c.Plugins {
			call := genCall{dir: d, plugin: p, files: fs, flags: p.Flags}
			if typ := strings.ToLower(p.Type); typ != "" && p.Name != "descriptor_set" {
				rel, err := filepath.Rel(cfgDir, outOf(p))
				must(err)
				for _, f := range known {
					if dirOf(f) != d {
						call.mods = append(call.mods, "M"+f+"="+path.Clean(c.Import+"/"+rel+"/"+path.Dir(f)))
					}
				}
				for n, pkgs := range wktGo {
					pkg := pkgs[0]
					if typ == "gogo" {
						pkg = pkgs[1]
					}
					call.mods = append(call.mods, "Mgoogle/protobuf/"+n+".proto="+pkg)
				}
				for f, pkg := range c.Extra {
					call.mods = append(call.mods, "M"+f+"="+pkg)
				}
				sort.Strings(call.mods)
			}
			calls = append(calls, call)
		}
	}
	w := filepath.Join(cfgDir, work)
	arg := spell(cfgDir, work, target, c.How)
	run := func(args ...string) *Result { return x.PT(w, append(append(args, flags...), arg)...) }
	before := snapshot(root)
	records := func() []string {
		fis, err := ioutil.ReadDir(log)
		must(err)
		var out []string
		for _, fi := range fis {
			out = append(out, fi.Name())
		}
		return out
	}
	takeRecords := func() (out []string) {
		for _, n := range records() {
			out = append(out, strings.SplitN(n, "@", 2)[0]+"@"+readFile(filepath.Join(log, n)))
			must(os.Remove(filepath.Join(log, n)))
		}
		sort.Strings(out)
		return out
	}
	cfgText := func() string { return "\nconfiguration:\n" + yamlOf(cfg) + dumpFiles(cfgDir, c.Files) }

	// dry runs first
	var dryCmds []string
	if c.Dry {
		for _, cmd := range []string{"compile", "generate"} {
			r := run(cmd, "--dry-run")
			if r.Code != 0 || r.Err != "" {
				return bad("the dry run fails: %s%s", r, cfgText())
			}
			if d := diffSnap(before, snapshot(root)); d != "" || len(records()) > 0 || len(snapshot(x.Tmp)) > 1 {
				return bad("the dry run leaves a trace: %s%s%v %v%s", r, d, records(), sortedKeys(snapshot(x.Tmp)), cfgText())
			}
			dryCmds = lines(r.Out)
			want := len(byDir)
			if cmd == "generate" && len(c.Plugins) > 0 {
				want = len(calls)
			}
			if len(dryCmds) != want {
				return bad("%d commands in the dry run, want %d: %s%s", len(dryCmds), want, r, cfgText())
			}
			if cmd == "compile" {
				for _, l := range dryCmds {
					sh := x.Exec(w, append(x.baseEnv(), x.Extra...), nil, "/bin/sh", "-c", l)
					if sh.Code != 0 || sh.Err != "" {
						return bad("a command of the dry run fails: %s%s", sh, cfgText())
					}
				}
				if d := diffSnap(before, snapshot(root)); d != "" {
					return bad("the commands of compile --dry-run change files: %s%s", d, cfgText())
				}
			}
		}
	}
	brokenPath := "" // what does not compile, unless it is outside of what is compiled
	if c.Broken == 1 {
		for _, fs := range byDir {
			for _, f := range fs {
				if p := c.Files[c.How%len(c.Files)]; c.reaches(f, p) {
					brokenPath = p
				}
			}
		}
	}
	// compile does not call plugins
	if r := run("compile"); (r.Code != 0) != (brokenPath != "") || len(records()) > 0 {
		return bad("compile: %s%v%s", r, records(), cfgText())
	} else if d := diffSnap(before, snapshot(root)); d != "" {
		return bad("compile changes files: %s%s%s", r, d, cfgText())
	}
	want := map[string]string{} // files written, by absolute path
	if c.Stale {
		// an older output is replaced
		for _, call := range calls {
			if call.plugin.Suffix == "" {
				stale := filepath.Join(outOf(call.plugin), call.files[0]+"."+call.plugin.Name)
				if call.plugin.Path == 0 && !within(stale, log) {
					writeFiles("/", map[string]string{strings.TrimPrefix(stale, "/"): strings.Repeat("stale", 1000)})
				}
			}
		}
		before = snapshot(root)
	}
	r := run("generate")
	got := takeRecords()
	show := func() string { return "\n" + r.String() + cfgText() }
	failing := brokenPath != ""
	for _, call := range calls {
		failing = failing || strings.Contains(call.flags, "fail=")
	}
	if failing {
		if r.Code != 255 || r.Out == "" && !(brokenPath != "" && strings.HasSuffix(target, ".proto")) {
			return bad("a failing plugin or file, and exit code %d%s", r.Code, show())
		}
		for _, call := range calls {
			broken := false
			for _, f := range call.files {
				broken = broken || brokenPath != "" && c.reaches(f, brokenPath)
			}
			if broken {
				continue
			}
			as := call.plugin.as()
			name := "protoc-gen-" + call.plugin.Name
			switch {
			case strings.Contains(call.flags, "fail=error"):
				if !strings.Contains(r.Out, name+": the plugin says no\n") && !strings.Contains(r.Out, "--"+call.plugin.Name+"_out: the plugin says no\n") && !strings.Contains(r.Out, "protoc-gen-"+call.plugin.Name) {
					return bad("the error of the plugin %s is not printed%s", as, show())
				}
				x.Label("plugin error")
			case strings.Contains(call.flags, "fail=exit"):
				if !strings.Contains(r.Out, name+" failed with status code 3.\n") {
					return bad("the exit code of the plugin %s is not printed%s", as, show())
				}
				x.Label("plugin exits")
			case strings.Contains(call.flags, "fail=output"):
				if !strings.Contains(r.Out, "the plugin has something to say") {
					return bad("the output of the plugin %s is not printed%s", as, show())
				}
				x.Label("plugin prints")
			}
		}
		x.NonTrivial()
		return nil
	}
	if r.Code != 0 || r.Out+r.Err != "" {
		return bad("generate fails or prints something%s", show())
	}
	if len(snapshot(x.Tmp)) > 1 {
		return bad("generate leaves temporary files: %v%s", sortedKeys(snapshot(x.Tmp)), show())
	}
	// the calls
	var wantCalls, gotCalls []string
	params := map[string]string{}
	for _, call := range calls {
		if call.plugin.Name != "descriptor_set" {
			wantCalls = append(wantCalls, call.plugin.as()+" "+strings.Join(call.files, " ")+" ["+call.flags+"] "+strings.Join(call.mods, " "))
		}
	}
	for _, rec := range got {
		as, raw := rec[:strings.Index(rec, "@")], rec[strings.Index(rec, "@")+1:]
		req := &plugin.CodeGeneratorRequest{}
		must(proto.Unmarshal([]byte(raw), req))
		var fl, mods []string
		for _, s := range strings.Split(req.GetParameter(), ",") {
			if strings.HasPrefix(s, "M") {
				mods = append(mods, s)
			} else if s != "" {
				fl = append(fl, s)
			}
		}
		sort.Strings(mods)
		key := as + " " + strings.Join(req.GetFileToGenerate(), " ") + " [" + strings.Join(fl, ",") + "] " + strings.Join(mods, " ")
		gotCalls = append(gotCalls, key)
		params[key] = req.GetParameter()
		if err := c.checkRequest(x, cfgDir, third, req); err != nil {
			return bad("%s%s", err, show())
		}
	}
	sort.Strings(wantCalls)
	sort.Strings(gotCalls)
	if strings.Join(wantCalls, "\n") != strings.Join(gotCalls, "\n") {
		return bad("the plugins are called as\n%s\nwant\n%s%s", strings.Join(gotCalls, "\n"), strings.Join(wantCalls, "\n"), show())
	}
	// the files
	jars := map[string]map[string]string{}
	for _, call := range calls {
		out := outOf(call.plugin)
		if call.plugin.Suffix != "" {
			base := filepath.Base(call.dir)
			if call.dir == "" {
				base = filepath.Base(cfgDir)
			}
			out = filepath.Join(out, call.dir, base+"."+call.plugin.Suffix)
		}
		if call.plugin.Name == "descriptor_set" {
			a := []string{"-o", filepath.Join(x.Root, "protoc.bin")}
			if call.plugin.Imports {
				a = append(a, "--include_imports")
			}
			if call.plugin.Info {
				a = append(a, "--include_source_info")
			}
			if third != "" {
				a = append(a, "-I", third)
			}
			a = append(a, "-I", "/usr/include", "-I", cfgDir)
			pr := x.Protoc(cfgDir, append(a, call.files...)...)
			if pr.Code != 0 {
				infra("protoc: %s", pr)
			}
			want[out] = readFile(filepath.Join(x.Root, "protoc.bin"))
			continue
		}
		param := params[call.plugin.as()+" "+strings.Join(call.files, " ")+" ["+call.flags+"] "+strings.Join(call.mods, " ")]
		for _, f := range call.files {
			for _, n := range []string{f, filepath.Join(filepath.Dir(f), "deeper", filepath.Base(f))} {
				n2 := n + "." + call.plugin.as()
				if call.plugin.Suffix != "" {
					if jars[out] == nil {
						jars[out] = map[string]string{}
					}
					jars[out][n2] = pluginContent(n, param)
				} else {
					want[filepath.Join(out, n2)] = pluginContent(n, param)
				}
			}
		}
	}
	after := snapshot(root)
	for _, k := range sortedKeys(after) {
		abs := filepath.Join(root, k)
		_, old := before[k]
		if strings.HasSuffix(k, "/") {
			ok := old
			for o := range want {
				ok = ok || within(o, abs)
			}
			for o := range jars {
				ok = ok || within(o, abs)
			}
			for _, p := range c.Plugins {
				ok = ok || within(outOf(p), abs)
			}
			if !ok {
				return bad("generate creates the directory %s%s", k, show())
			}
			continue
		}
		if w, ok := want[abs]; ok {
			if g := readFile(abs); g != w {
				if !strings.HasSuffix(abs, ".proto") && strings.Contains(w, " by ") || true {
					return bad("generate writes to %s\n%q\nwant\n%q%s", k, clip(g), clip(w), show())
				}
			}
			delete(want, abs)
		} else if entries, ok := jars[abs]; ok {
			if err := checkJar(abs, entries); err != nil {
				return bad("%s: %s%s", k, err, show())
			}
			delete(jars, abs)
		} else if !old || before[k] != after[k] {
			return bad("generate writes %s%s", k, show())
		}
	}
	for k := range before {
		if _, ok := after[k]; !ok {
			return bad("generate removes %s%s", k, show())
		}
	}
	if len(want)+len(jars) > 0 {
		return bad("generate does not write %v %v%s", sortedKeys(want), sortedKeys(jars), show())
	}
	// run by hand: all outputs away, the directories stay
	if c.Dry {
		for k := range after {
			if _, old := before[k]; !old && !strings.HasSuffix(k, "/") {
				must(os.Remove(filepath.Join(root, k)))
			}
		}
		for _, l := range dryCmds {
			sh := x.Exec(w, append(x.baseEnv(), x.Extra...), nil, "/bin/sh", "-c", l)
			if sh.Code != 0 || sh.Err != "" {
				return bad("a command of the dry run fails: %s%s", sh, show())
			}
		}
		if byHand := takeRecords(); strings.Join(byHand, "\x00") != strings.Join(got, "\x00") {
			return bad("the commands of the dry run call the plugins in other ways\n%s%s", strings.Join(dryCmds, "\n"), show())
		}
		if d := diffSnap(after, snapshot(root)); d != "" && len(c.jarPlugins()) == 0 {
			return bad("the commands of the dry run write something else: %s\n%s%s", d, strings.Join(dryCmds, "\n"), show())
		}
		x.Label("dry run by hand")
	} else {
		// again: the same calls, byte for byte, over the existing outputs
		r2 := run("generate")
		if again := takeRecords(); r2.Code != 0 || strings.Join(again, "\x00") != strings.Join(got, "\x00") {
			return bad("the second run calls the plugins in other ways: %s%s", r2, show())
		}
		if d := diffSnap(after, snapshot(root)); d != "" && len(c.jarPlugins()) == 0 {
			return bad("the second run writes something else: %s%s", d, show())
		}
	}
	for _, call := range calls {
		x.Label("plugin type %q suffix %v", strings.ToLower(call.plugin.Type), call.plugin.Suffix != "")
	}
	x.Label("directories %d", len(byDir))
	if len(calls) > 1 {
		x.NonTrivial()
	}
	return nil
}

func (c *generateCase) jarPlugins() (out []string) {
	for _, p := range c.Plugins {
		if p.Suffix != "" && p.Name != "descriptor_set" {
			out = append(out, p.Name)
		}
	}
	return out
}

// as is the name of the program that is called.
func (p genPlugin) as() string {
	if p.Path != 0 {
		return p.As
	}
	return p.Name
}

// reaches says whether a imports b, by any number of steps.
func (c *generateCase) reaches(a, b string) bool {
	if a == b {
		return true
	}
	for i, f := range c.Files {
		if f == a {
			for _, j := range c.Imports[i] {
				if c.reaches(c.Files[j], b) {
					return true
				}
			}
		}
	}
	return false
}

// checkRequest compares the descriptors in the request with those of protoc.
func (c *generateCase) checkRequest(x *Ctx, cfgDir, third string, req *plugin.CodeGeneratorRequest) error {
	out := filepath.Join(x.Root, "protoc.bin")
	a := []string{"-o", out, "--include_imports", "--include_source_info"}
	if third != "" {
		a = append(a, "-I", third)
	}
	pr := x.Protoc(cfgDir, append(append(a, "-I", "/usr/include", "-I", cfgDir), req.GetFileToGenerate()...)...)
	if pr.Code != 0 {
		return fmt.Errorf("the files of a call do not compile: %s", pr)
	}
	fds := &descpb.FileDescriptorSet{}
	must(proto.Unmarshal([]byte(readFile(out)), fds))
	byName := map[string]*descpb.FileDescriptorProto{}
	for _, f := range req.GetProtoFile() {
		byName[f.GetName()] = f
	}
	if len(byName) != len(fds.File) {
		return fmt.Errorf("a call has %d descriptors, protoc %d", len(byName), len(fds.File))
	}
	for _, f := range fds.File {
		if o := byName[f.GetName()]; o == nil || !proto.Equal(o, f) {
			return fmt.Errorf("a call has another descriptor of %s", f.GetName())
		}
	}
	return nil
}

func checkJar(file string, want map[string]string) error {
	z, err := zip.OpenReader(file)
	if err != nil {
		return err
	}
	defer z.Close()
	n := 0
	for _, f := range z.File {
		if strings.HasPrefix(f.Name, "META-INF/") {
			continue
		}
		n++
		rc, err := f.Open()
		if err != nil {
			return err
		}
		b, err := ioutil.ReadAll(rc)
		rc.Close()
		if err != nil {
			return err
		}
		if w, ok := want[f.Name]; !ok || w != string(b) {
			return fmt.Errorf("the entry %s of the archive is %q, want %q", f.Name, b, w)
		}
	}
	if n != len(want) {
		return fmt.Errorf("%d entries in the archive, want %d", n, len(want))
	}
	return nil
}

func init() {
	prop("C20", "exploration", "trees of up to 9 files with up to 3 plugins of all types, outputs, flags and paths; a plugin that records its calls; dry runs executed by a shell; non-trivial: at least two calls, or a failing plugin",
		newPart("calls", 700, 8000, genGenerate(false), runGenerate),
		newPart("failures", 300, 3000, genGenerate(true), runGenerate))
}
