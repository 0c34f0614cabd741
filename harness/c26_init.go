package main

// C26: config init over states of the directory, spellings of the argument,
// flags, and repeated calls.

import (
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"gopkg.in/yaml.v2"
	"pgregory.net/rapid"
)

type initStep struct {
	Document, Uncomment bool
	NoArg               bool
	How                 int
}

type initCase struct {
	Work   string
	Target string
	State  string
	Parent string // configuration of the directory above
	Text   string
	Others bool
	Steps  []initStep
	Drop   int // which half of the example header stays
}

var initStates = []string{"absent", "empty", "empty", "empty", "absent", "yaml", "json", "both", "empty yaml", "empty json", "yaml is a directory", "json is a directory", "link to a configuration", "other names", "is a file", "below a file", "broken yaml"}

func genInit(t *rapid.T) *initCase {
	c := &initCase{
		Work:   sample(t, []string{"", "", "w", "w/x", "a b"}, "working directory"),
		Target: sample(t, []string{"", "a", "a/b", "w", "w/x", "w/x/y", "a b", "..x", "é", "a.proto", "-a", "n/e/w"}, "target"),
		State:  sample(t, initStates, "state"),
		Parent: sample(t, []string{"", "", "yaml", "json", "broken"}, "above"),
		Text:   sample(t, []string{"lint:\n  group: google\n", "# nothing\n", "protoc:\n  version: 3.8.0", "{}\n"}, "text"),
		Others: bits(t, 1, "other files") == 1,
		Drop:   bits(t, 1, "example header"),
	}
	for i := 1 + bits(t, 1, "steps"); i > 0; i-- {
		c.Steps = append(c.Steps, initStep{bits(t, 1, "document") == 1, bits(t, 1, "uncomment") == 1, bits(t, 2, "no argument") == 3, uniform(t, 7, "spelling")})
	}
	return c
}

func runInit(x *Ctx, c *initCase) error {
	root := filepath.Join(x.Dir, "top", "root")
	must(os.MkdirAll(filepath.Join(root, c.Work), 0755))
	target := c.Target
	if c.Steps[0].NoArg {
		target = c.Work
	}
	abs := filepath.Join(root, target)
	state := c.State
	exists := target == "" || within(c.Work, target)
	if exists && (state == "absent" || state == "is a file" || state == "below a file") {
		state = "empty"
	}
	conf := false
	switch state {
	case "absent":
	case "is a file":
		must(os.MkdirAll(filepath.Dir(abs), 0755))
		must(os.WriteFile(abs, []byte("x"), 0644))
	case "below a file":
		must(os.MkdirAll(filepath.Dir(abs), 0755))
		must(os.WriteFile(abs, []byte("x"), 0644))
		target += "/z"
		abs += "/z"
	default:
		must(os.MkdirAll(abs, 0755))
	}
	put := func(name, s string) { must(os.WriteFile(filepath.Join(abs, name), []byte(s), 0644)) }
	json := `{"lint":{"group":"google"}}`
	conf = true
	switch state {
	case "yaml":
		put("prototool.yaml", c.Text)
	case "broken yaml":
		put("prototool.yaml", ": [")
	case "json":
		put("prototool.json", json)
	case "both":
		put("prototool.yaml", c.Text)
		put("prototool.json", json)
	case "empty yaml":
		put("prototool.yaml", "")
	case "empty json":
		put("prototool.json", "")
	case "yaml is a directory":
		must(os.Mkdir(filepath.Join(abs, "prototool.yaml"), 0755))
	case "json is a directory":
		must(os.Mkdir(filepath.Join(abs, "prototool.json"), 0755))
	case "link to a configuration":
		must(os.WriteFile(filepath.Join(x.Dir, "elsewhere.yaml"), []byte(c.Text), 0644))
		must(os.Symlink(filepath.Join(x.Dir, "elsewhere.yaml"), filepath.Join(abs, "prototool.yaml")))
	case "other names":
		conf = false
		put("prototool.yml", c.Text)
		put("prototool.yaml.bak", c.Text)
		put("Prototool.yaml", c.Text)
	default:
		conf = false
	}
	if target != "" {
		switch c.Parent {
		case "yaml":
			writeFiles(x.Dir, map[string]string{"top/prototool.yaml": "lint:\n  group: google\n"})
		case "json":
			writeFiles(x.Dir, map[string]string{"top/prototool.json": json})
		case "broken":
			writeFiles(x.Dir, map[string]string{"top/prototool.yaml": "no: such\n"})
		}
	}
	if c.Others && state != "absent" && !strings.HasSuffix(state, "file") {
		put("o.proto", "syntax = \"proto3\";")
		put("LICENSE", "x")
	}
	show := func() string { return "state " + state + ", target " + target + ", above " + c.Parent }
	call := func(s initStep) (*Result, []string) {
		var args []string
		if s.Document {
			args = append(args, "--document")
		}
		if s.Uncomment {
			args = append(args, "--uncomment")
		}
		if !s.NoArg || target != c.Work {
			arg := spell(root, c.Work, target, s.How)
			if strings.HasPrefix(arg, "-") {
				arg = "./" + arg
			}
			args = append(args, arg)
		}
		return x.PT(filepath.Join(root, c.Work), append([]string{"config", "init"}, args...)...), args
	}
	before := snapshotAny(x.Dir)
	r, _ := call(c.Steps[0])
	after := snapshotAny(x.Dir)
	if conf || state == "is a file" || state == "below a file" {
		if r.Code == 0 || strings.TrimSpace(r.Out+r.Err) == "" {
			return bad("does not fail with an error although there is a configuration, or no directory (%s): %s", show(), r)
		}
		if d := diffSnap(before, after); d != "" {
			return bad("refuses and changes files (%s): %s\n%s", show(), r, d)
		}
		x.Label("refused: %s", state)
		x.NonTrivial()
		return nil
	}
	if r.Code != 0 || r.Out+r.Err != "" {
		return bad("config init fails or prints something (%s): %s", show(), r)
	}
	rel, _ := filepath.Rel(x.Dir, abs)
	for p := range after {
		if _, ok := before[p]; ok {
			continue
		}
		if p == filepath.Join(rel, "prototool.yaml") {
			delete(after, p)
		} else if strings.HasSuffix(p, "/") && within(rel, strings.TrimSuffix(p, "/")) {
			delete(after, p)
		}
	}
	if d := diffSnap(before, after); d != "" {
		return bad("changes something else than the configuration (%s): %s\n%s", show(), r, d)
	}
	made := filepath.Join(abs, "prototool.yaml")
	text := readFile(made)
	show = func() string { return "state " + state + ", target " + target + ", above " + c.Parent + "\n" + text }

	// the forms agree with each other
	forms := map[initStep]string{}
	for _, s := range []initStep{{}, {Document: true}, {Uncomment: true}, {Document: true, Uncomment: true}} {
		d := filepath.Join(x.Dir, "forms", jsonOf(s))
		args := []string{"config", "init", d}
		if s.Document {
			args = append(args, "--document")
		}
		if s.Uncomment {
			args = append(args, "--uncomment")
		}
		if r := x.PT(x.Dir, args...); r.Code != 0 {
			return bad("%s", r)
		}
		forms[s] = readFile(filepath.Join(d, "prototool.yaml"))
	}
	s0 := c.Steps[0]
	if want := forms[initStep{Document: s0.Document, Uncomment: s0.Uncomment}]; text != want {
		return bad("the configuration depends on the directory: %q and %q", text, want)
	}
	tree := func(s string) (m map[string]interface{}, err error) {
		err = yaml.UnmarshalStrict([]byte(s), &m)
		return
	}
	short, err := tree(forms[initStep{}])
	if err != nil {
		return bad("not YAML: %v\n%s", err, forms[initStep{}])
	}
	doc, err := tree(forms[initStep{Document: true}])
	if err != nil || !reflect.DeepEqual(short, doc) {
		return bad("the documented form means something else than the short form (%v):\n%s\nand\n%s", err, forms[initStep{}], forms[initStep{Document: true}])
	}
	if forms[initStep{Uncomment: true}] != forms[initStep{Document: true, Uncomment: true}] {
		return bad("--document makes a difference with --uncomment")
	}
	strip := func(s string) (out []string) {
		for _, l := range lines(s) {
			out = append(out, strings.Join(strings.Fields(strings.ReplaceAll(l, "#", "")), " "))
		}
		return
	}
	if a, b := strip(forms[initStep{Document: true}]), strip(forms[initStep{Uncomment: true}]); !reflect.DeepEqual(a, b) {
		return bad("the documented and the uncommented form have different lines")
	}
	// the file that the documentation shows
	version := ""
	for _, l := range lines(x.PT(x.Dir, "version").Out) {
		if s := strings.TrimPrefix(l, "Default protoc version:"); s != l {
			version = strings.TrimSpace(s)
		}
	}
	var want map[string]interface{}
	must(yaml.Unmarshal([]byte("protoc:\n  version: "+version+"\nlint:\n  group: uber2\n"), &want))
	if version == "" || !reflect.DeepEqual(want, short) {
		return bad("the settings are not the recommended ones:\n%s", forms[initStep{}])
	}

	rules := groupRules("uber2")
	if s0.Uncomment {
		// the example sets both halves of file_header, which it says is not possible
		var keep []string
		in := false
		for _, l := range lines(text) {
			switch s := strings.TrimSpace(l); {
			case s == "content: |":
				in = true
			case s == "is_commented: true":
				in = false
			}
			if c.Drop == 0 && strings.HasPrefix(strings.TrimSpace(l), "path: path/to/protobuf_file_header") || c.Drop == 1 && in {
				continue
			}
			keep = append(keep, l)
		}
		must(os.WriteFile(made, []byte(strings.Join(keep, "\n")+"\n"), 0644))
		must(os.MkdirAll(filepath.Join(abs, "path/to"), 0755))
		must(os.WriteFile(filepath.Join(abs, "path/to/protobuf_file_header.txt"), []byte("// x\n"), 0644))
		m, err := tree(readFile(made))
		if err != nil {
			return bad("not YAML: %v\n%s", err, readFile(made))
		}
		if l, ok := m["lint"].(map[interface{}]interface{}); ok {
			if rs, ok := l["rules"].(map[interface{}]interface{}); ok {
				for k, on := range map[string]bool{"add": true, "remove": false} {
					xs, _ := rs[k].([]interface{})
					for _, id := range xs {
						if on {
							rules[id.(string)] = true
						} else {
							delete(rules, id.(string))
						}
					}
				}
			}
		}
	}
	// the tool accepts it, and it governs
	for _, from := range []string{abs, filepath.Join(root, c.Work)} {
		arg := abs
		if from == abs {
			arg = "."
		}
		r = x.PT(from, "lint", "--list-linters", arg)
		got := map[string]bool{}
		for _, l := range lines(r.Out) {
			if f := strings.Fields(l); len(f) > 0 {
				got[f[0]] = true
			}
		}
		if r.Code != 0 || !reflect.DeepEqual(got, rules) {
			return bad("the active rules are not those of the configuration (%s): %s\nwant %v", show(), r, sortedKeys(rules))
		}
	}
	if r = x.PT(abs, "create", "x/v1/n.proto"); r.Code == 0 {
		return bad("create does not need a directory: %s", r)
	}
	must(os.MkdirAll(filepath.Join(abs, "x/v1"), 0755))
	r = x.PT(abs, "create", "x/v1/n.proto")
	if r.Code != 0 {
		return bad("create fails with the new configuration (%s): %s", show(), r)
	}
	n := readFile(filepath.Join(abs, "x/v1/n.proto"))
	pkg, prefix := "x.v1", "com"
	if s0.Uncomment {
		pkg, prefix = "bar.x.v1", "au.com"
	}
	for _, l := range []string{"package " + pkg + ";", "option csharp_namespace = \"" + wantCSharp(pkg) + "\";", "option java_package = \"" + prefix + "." + pkg + "\";", "option go_package = \"xv1\";"} {
		if !strings.Contains(n, l) {
			return bad("the settings have no effect on create, %q is missing (%s):\n%s", l, show(), n)
		}
	}
	if !s0.Uncomment {
		put("x/v1/n.proto", n+"\n")
		for _, cmd := range [][]string{{"compile"}, {"lint"}, {"files"}, {"format", "-l"}, {"format", "--fix", "-l"}} {
			r = x.PT(abs, append(cmd, "x")...)
			if r.Code != 0 || cmd[0] != "files" && r.Out != "" {
				return bad("%v fails with the new configuration (%s): %s", cmd, show(), r)
			}
		}
	}
	// again, in any form
	text = readFile(made)
	for _, s := range c.Steps {
		before = snapshotAny(x.Dir)
		if r, _ := call(s); r.Code == 0 {
			return bad("config init overwrites its configuration: %s", r)
		}
		if d := diffSnap(before, snapshotAny(x.Dir)); d != "" {
			return bad("config init refuses and changes files: %s", d)
		}
	}
	x.Label("written: %s, document %v, uncomment %v", state, s0.Document, s0.Uncomment)
	x.Label("above %q", c.Parent)
	x.NonTrivial()
	return nil
}

func init() {
	prop("C26", "model", "config init with every combination of flags in directories in 17 states below directories with and without configurations, repeated; non-trivial: a configuration is written, or refused",
		newPart("init", 2200, 6000, genInit, runInit))
}
