package main

// The three carriers of a configuration, and its strictness.

import (
	"encoding/json"
	"path/filepath"
	"regexp"
	"strings"

	"pgregory.net/rapid"
)

var cfgFiles = map[string]string{
	"a/one.proto":       "syntax=\"proto3\";\npackage foo.v1;\nmessage One { string id=1; }\n",
	"a/two.proto":       "syntax = \"proto3\";\n\npackage foo.v1;\n\nimport \"a/one.proto\";\n\nmessage two {\n  One one = 1;\n}\n",
	"b/one.proto":       "syntax = \"proto3\";\n\npackage bar.v1;\n\nimport \"lib/lib.proto\";\nimport \"c/beta.proto\";\n\nmessage One {\n  lib.Lib lib = 1;\n  foo.v1beta1.Beta beta = 2;\n}\n",
	"b/c/x.proto":       "syntax = \"proto3\";\n\npackage bar.c.v1;\n\n/* C */\nenum State {\n  A = 0;\n  b = 1;\n}\n\nservice X {\n  rpc do(In) returns (In);\n}\n\nmessage In {}\n",
	"b/unused.proto":    "syntax = \"proto3\";\n\npackage bar.v1;\n\nimport \"a/one.proto\";\n",
	"c/beta.proto":      "syntax = \"proto3\";\n\npackage foo.v1beta1;\n\nmessage Beta {}\n",
	"inc/lib/lib.proto": "syntax = \"proto3\";\n\npackage lib;\n\nmessage Lib {}\n",
	"etc/header.txt":    "Copyright\n\nSomeone\n",
	"etc/plugin":        "#!/bin/sh\nexit 1\n",
}

type cfgCase struct {
	Cfg   map[string]interface{}
	Cmds  []int
	Perm  uint64 // shuffles and repeats list entries
	Break string // strict part: what is wrong
	At    int
}

func genCfgTree(t *rapid.T) M {
	yes := func(l string) bool { return rapid.Bool().Draw(t, l) }
	some := func(l string, xs ...string) []interface{} {
		var out []interface{}
		for _, s := range xs {
			if bits(t, 2, l) == 0 {
				out = append(out, s)
			}
		}
		return out
	}
	m := M{}
	if yes("excludes") {
		if l := some("exclude", "a", "b/unused.proto", "b/c", "b/c/x.proto", "c", "inc", "nowhere", "./b/unused.proto", "a/two.proto"); l != nil {
			m["excludes"] = l
		}
	}
	protoc := M{}
	if bits(t, 3, "unused") > 0 {
		protoc["allow_unused_imports"] = bits(t, 3, "unused value") > 0
	}
	if yes("version") {
		protoc["version"] = sample(t, []string{"3.11.0", "3.9.1", "3"}, "version value")
	}
	if bits(t, 3, "includes") > 0 {
		protoc["includes"] = append(some("include", "b", "etc", "nowhere"), "inc")
	}
	if len(protoc) > 0 || yes("empty protoc") {
		m["protoc"] = protoc
	}
	if yes("create") {
		var ps []interface{}
		for _, d := range []string{".", "a", "b/c", "new", "new/x"} {
			if yes("mapping") {
				ps = append(ps, M{"directory": d, "name": sample(t, []string{"foo", "foo.bar", "x.v1"}, "base package")})
			}
		}
		if ps != nil {
			m["create"] = M{"packages": ps}
		}
	}
	if bits(t, 2, "lint") > 0 {
		l := M{}
		if yes("group") {
			l["group"] = sample(t, []string{"uber1", "uber2", "google", "empty", "UBER2"}, "group value")
		}
		rules := M{}
		if yes("rules") {
			add, rem := genRuleSet(t, nil, 6, "add"), genRuleSet(t, nil, 6, "remove")
			var a, r []interface{}
			for _, s := range add {
				a = append(a, s)
			}
			for _, s := range rem {
				if !contains(add, s) {
					r = append(r, s)
				}
			}
			if a != nil {
				rules["add"] = a
			}
			if r != nil {
				rules["remove"] = r
			}
		}
		if bits(t, 2, "no default") == 0 {
			rules["no_default"] = true
		}
		if len(rules) > 0 {
			l["rules"] = rules
		}
		if yes("ignores") {
			var is []interface{}
			for i := 1 + bits(t, 2, "n ignores"); i > 0; i-- {
				is = append(is, M{"id": sample(t, []string{"PACKAGE_LOWER_SNAKE_CASE", "MESSAGE_NAMES_CAPITALIZED", "COMMENTS_NO_C_STYLE", "FILE_OPTIONS_REQUIRE_GO_PACKAGE", "rpc_names_capitalized", "SERVICE_NAMES_API_SUFFIX"}, "ignored"),
					"files": append(some("ignored file", "a", "b/c", "c/beta.proto", "a/one.proto"), "b/c/x.proto")})
			}
			l["ignores"] = is
		}
		switch bits(t, 2, "header") {
		case 0:
			l["file_header"] = M{"path": "etc/header.txt"}
		case 1:
			l["file_header"] = M{"content": "// A\n//\n// B: \"c\" \\ #d\n", "is_commented": true}
		case 2:
			l["file_header"] = M{"content": "A", "is_commented": false}
		}
		if yes("prefix") {
			l["java_package_prefix"] = sample(t, []string{"au.com", "org"}, "prefix value")
		}
		if yes("suppression off") {
			l["allow_suppression"] = false
		}
		if len(l) > 0 {
			m["lint"] = l
		}
	}
	if yes("break") {
		b := M{}
		if yes("beta") {
			b["include_beta"] = yes("beta value")
		}
		if bits(t, 2, "deps") > 0 {
			b["allow_beta_deps"] = bits(t, 2, "deps value") > 0
		}
		if len(b) > 0 {
			m["break"] = b
		}
	}
	if yes("generate") {
		g := M{"go_options": M{"import_path": "example.com/x"}}
		if yes("modifiers") {
			g["go_options"] = M{"import_path": "example.com/x", "extra_modifiers": M{"lib/lib.proto": "example.com/lib", "a b.proto": "q"}}
		}
		var ps []interface{}
		for _, n := range []string{"java", "python", "descriptor_set", "go", "gogoslick", "other"} {
			if !yes("plugin") {
				continue
			}
			p := M{"name": n, "output": sample(t, []string{"gen", "gen/x", "../gen", "a/gen"}, "output")}
			switch n {
			case "java":
				if yes("jar") {
					p["file_suffix"] = "jar"
				}
			case "descriptor_set":
				p["file_suffix"] = "bin"
				p["include_imports"] = yes("imports")
				p["include_source_info"] = yes("source info")
			case "go":
				p["type"] = "go"
				p["flags"] = "plugins=grpc"
			case "gogoslick":
				p["type"] = "gogo"
			case "other":
				p["path"] = "/bin/true"
				p["flags"] = "a=b,c"
			}
			ps = append(ps, p)
		}
		if ps != nil {
			g["plugins"] = ps
		}
		m["generate"] = g
	}
	return m
}

// order shuffles the lists whose order means nothing, and repeats entries.
func permuted(v interface{}, key string, seed *uint64) interface{} {
	next := func(n int) int {
		*seed = *seed*6364136223846793005 + 1442695040888963407
		return int((*seed >> 33) % uint64(n))
	}
	switch y := v.(type) {
	case map[string]interface{}:
		out := M{}
		for _, k := range sortedKeys(y) {
			out[k] = permuted(y[k], k, seed)
		}
		return out
	case []interface{}:
		var out []interface{}
		for _, e := range y {
			out = append(out, permuted(e, key+"[]", seed))
		}
		for i := len(out) - 1; i > 0 && key != "includes"; i-- {
			// the order of the include paths matters
			j := next(i + 1)
			out[i], out[j] = out[j], out[i]
		}
		if key != "plugins" && len(out) > 0 && next(2) == 0 {
			out = append(out, out[next(len(out))])
		}
		return out
	}
	return v
}

var cfgCmds = [][]string{
	{"files"}, {"lint"}, {"lint", "--list-linters"}, {"compile"}, {"compile", "--dry-run"}, {"generate", "--dry-run"},
	{"format", "-d", "--fix"}, {"lint", "b"}, {"descriptor-set", "--include-imports"}, {"x", "inspect", "packages"},
	{"break", "check", "--descriptor-set-path", "old.bin"}, {"create", "new/x/y.proto", "b/c/new.proto"}, {"lint", "--generate-ignores"},
	{"files", "b/c"}, {"format", "-l", "a"},
}

// reStamp matches the time stamps of a diff.
var reStamp = regexp.MustCompile(`(?m)^((?:---|\+\+\+) [^\t\n]*)\t.*$`)

func genCarriers(t *rapid.T) *cfgCase {
	c := &cfgCase{Cfg: genCfgTree(t), Perm: rapid.Uint64().Draw(t, "perm")}
	for i := 0; i < 5; i++ {
		c.Cmds = append(c.Cmds, uniform(t, len(cfgCmds), "command"))
	}
	return c
}

func (x *Ctx) cfgWorkspace(root string) {
	writeFiles(root, cfgFiles)
	writeFiles(root, map[string]string{"new/x/keep": ""})
}

func runCarriers(x *Ctx, c *cfgCase) error {
	root := filepath.Join(x.Dir, "w")
	// the old state for break check
	old := filepath.Join(x.Dir, "old")
	writeFiles(old, cfgFiles)
	writeFiles(old, map[string]string{"c/beta.proto": "syntax=\"proto3\"; package foo.v1beta1; message Beta {} message Gone {}"})
	if r := x.Protoc(old, "-I", ".", "-I", "inc", "--include_imports", "-o", filepath.Join(x.Dir, "old.bin"), "a/one.proto", "a/two.proto", "b/one.proto", "b/c/x.proto", "c/beta.proto"); r.Code != 0 {
		infra("%s", r)
	}
	bin := readFile(filepath.Join(x.Dir, "old.bin"))
	seed := c.Perm
	type carrier struct {
		name  string
		files map[string]string
		args  []string
	}
	carriers := []carrier{
		{"prototool.yaml", map[string]string{"prototool.yaml": yamlOf(c.Cfg)}, nil},
		{"prototool.json", map[string]string{"prototool.json": jsonOf(c.Cfg)}, nil},
		{"--config-data", nil, []string{"--config-data", jsonOf(c.Cfg)}},
		{"--config-data over files", map[string]string{"prototool.yaml": "excludes:\n  - c\n", "b/prototool.json": `{"lint":{"group":"empty"}}`}, []string{"--config-data", jsonOf(c.Cfg)}},
		{"other order and repetitions", map[string]string{"prototool.yaml": yamlOf(permuted(interface{}(c.Cfg), "", &seed))}, nil},
		{"indented JSON as YAML", map[string]string{"prototool.yaml": indented(c.Cfg)}, nil},
	}
	var first []string
	for i, k := range carriers {
		forceRemove(root)
		x.cfgWorkspace(root)
		writeFiles(root, map[string]string{"old.bin": bin})
		writeFiles(root, k.files)
		for j, n := range c.Cmds {
			args := append(append([]string{}, cfgCmds[n]...), k.args...)
			before := snapshot(root)
			r := x.PT(root, args...)
			after := snapshot(root)
			for p := range k.files { // a configuration file looks different, of course
				delete(before, p)
				delete(after, p)
			}
			got := strings.Join(cfgCmds[n], " ") + "\nexit " + string(rune('0'+r.Code%10)) + "\n" + reStamp.ReplaceAllString(r.Out, "$1") + r.Err + "\n" + diffSnap(before, after)
			if cfgCmds[n][0] == "create" {
				for _, p := range []string{"new/x/y.proto", "b/c/new.proto"} {
					forceRemove(filepath.Join(root, p))
				}
			}
			if i == 0 {
				x.Label("%s: success %v", strings.Join(cfgCmds[n], " "), r.Code == 0)
				first = append(first, got)
			} else if got != first[j] {
				return bad("the configuration as %s means something else than as %s\n--- %s\n%s\n--- %s\n%s\nconfiguration:\n%s\n%s", k.name, carriers[0].name, carriers[0].name, clip(first[j]), k.name, clip(got), yamlOf(c.Cfg), yamlOf(k.files))
			}
		}
	}
	if len(c.Cfg) > 0 {
		x.NonTrivial()
	}
	return nil
}

func indented(v interface{}) string {
	b, err := json.MarshalIndent(v, "", "  ")
	must(err)
	return "# JSON is YAML\n" + string(b) + "\n"
}

// ---- strictness

var cfgFaults = []string{"unknown key", "misspelled key", "key of another section", "list for a scalar", "mapping for a list", "text for a boolean", "scalar for a mapping", "added and removed",
	"exclude above", "exclude absolute outside", "exclude sibling with the same prefix", "exclude the directory itself", "header path and content", "header absolute", "header missing", "header empty", "mapping without directory", "mapping without name", "mapping absolute",
	"plugin type", "plugin without output", "suffix with a dot", "imports for another plugin", "source info for another plugin", "plugin prefix", "go plugin without import path", "gogo plugin without import path", "suppression", "trailing data", "cut off", "duplicate key", "not a mapping"}

func genStrict(t *rapid.T) *cfgCase {
	c := &cfgCase{Cfg: genCfgTree(t), Break: sample(t, cfgFaults, "fault"), At: bits(t, 8, "at")}
	for i := 0; i < 3; i++ {
		c.Cmds = append(c.Cmds, uniform(t, len(strictCmds), "command"))
	}
	return c
}

var strictCmds = [][]string{{"files"}, {"lint"}, {"lint", "--list-linters"}, {"compile"}, {"generate"}, {"generate", "--dry-run"}, {"format", "-w"}, {"format", "-w", "--fix", "a/one.proto"}, {"all"},
	{"descriptor-set", "-o", "out.bin"}, {"create", "new/x/y.proto"}, {"x", "inspect", "packages"}, {"lint", "--generate-ignores", "b"}, {"break", "descriptor-set", "-o", "out.bin"}}

// mappings lists all mappings of a configuration, in a fixed order.
func mappings(v interface{}, at string, f func(m map[string]interface{}, at string)) {
	switch y := v.(type) {
	case map[string]interface{}:
		f(y, at)
		for _, k := range sortedKeys(y) {
			if k != "extra_modifiers" {
				mappings(y[k], k, f)
			}
		}
	case []interface{}:
		for _, e := range y {
			mappings(e, at+"[]", f)
		}
	}
}

func sub(m map[string]interface{}, key string) map[string]interface{} {
	s, ok := m[key].(map[string]interface{})
	if !ok {
		s = map[string]interface{}{}
		m[key] = s
	}
	return s
}

func put(m map[string]interface{}, key string, front bool, v interface{}) {
	l, _ := m[key].([]interface{})
	if front {
		m[key] = append([]interface{}{v}, l...)
	} else {
		m[key] = append(append([]interface{}{}, l...), v)
	}
}

// fault damages the configuration; the texts replace the serialised forms.
func (c *cfgCase) fault(root string) (yamlText, jsonText string) {
	m := c.Cfg
	var maps []map[string]interface{}
	mappings(m, "", func(x map[string]interface{}, at string) { maps = append(maps, x) })
	pick := maps[c.At%len(maps)]
	front := c.At%2 == 0
	gen := func() map[string]interface{} {
		g := sub(m, "generate")
		if _, ok := g["go_options"]; !ok {
			g["go_options"] = map[string]interface{}{"import_path": "x"}
		}
		return g
	}
	plugin := func(p M) {
		put(gen(), "plugins", front, map[string]interface{}(p))
	}
	scalars := []string{"group", "java_package_prefix"}
	switch c.Break {
	case "unknown key":
		pick["zzz"] = []interface{}{"x", true, 1.5, map[string]interface{}{}}[c.At/7%4]
	case "misspelled key":
		for _, k := range sortedKeys(pick) {
			v := pick[k]
			delete(pick, k)
			pick[k+"s"] = v
			break
		}
		if len(pick) == 0 {
			pick["exclude"] = []interface{}{"a"}
		}
	case "key of another section":
		k := []string{"excludes", "group", "plugins", "includes", "no_default", "packages"}[c.At/5%6]
		home := map[string]string{"excludes": "", "group": "lint", "plugins": "generate", "includes": "protoc", "no_default": "rules", "packages": "create"}[k]
		done := false
		mappings(m, "", func(x map[string]interface{}, at string) {
			if !done && at != home {
				x[k] = []interface{}{"a"}
				done = true
			}
		})
		if !done {
			sub(m, "break")[k] = []interface{}{"a"}
		}
	case "list for a scalar":
		sub(m, "lint")[scalars[c.At%2]] = []interface{}{"uber1", "uber2"}
	case "mapping for a list":
		switch c.At % 3 {
		case 0:
			m["excludes"] = M{"a": "b"}
		case 1:
			sub(m, "protoc")["includes"] = M{"a": "b"}
		case 2:
			gen()["plugins"] = M{"name": "java", "output": "x"}
		}
	case "text for a boolean":
		switch c.At % 3 {
		case 0:
			sub(m, "protoc")["allow_unused_imports"] = "maybe"
		case 1:
			sub(sub(m, "lint"), "rules")["no_default"] = "maybe"
		case 2:
			sub(m, "break")["include_beta"] = "maybe"
		}
	case "scalar for a mapping":
		m[[]string{"lint", "protoc", "generate", "break", "create"}[c.At%5]] = "x"
	case "added and removed":
		r := sub(sub(m, "lint"), "rules")
		put(r, "add", front, "RPCS_NO_STREAMING")
		put(r, "remove", !front, []string{"RPCS_NO_STREAMING", "rpcs_no_streaming"}[c.At/2%2])
	case "exclude above":
		put(m, "excludes", front, []string{"..", "../x", "a/../../x", "../.."}[c.At/2%4])
	case "exclude absolute outside":
		put(m, "excludes", front, []string{"/", "/etc", filepath.Dir(root), root + "x", root + "/../y"}[c.At/2%5])
	case "exclude sibling with the same prefix":
		put(m, "excludes", front, "../"+filepath.Base(root)+"x/a")
	case "exclude the directory itself":
		put(m, "excludes", front, []string{".", "./", "a/..", root, root + "/", "../" + filepath.Base(root)}[c.At/2%6])
	case "header path and content":
		sub(m, "lint")["file_header"] = M{"path": "etc/header.txt", "content": "x"}
	case "header absolute":
		sub(m, "lint")["file_header"] = M{"path": filepath.Join(root, "etc/header.txt")}
	case "header missing":
		sub(m, "lint")["file_header"] = M{"path": []string{"etc/none.txt", "etc", "none/header.txt"}[c.At%3]}
	case "header empty":
		sub(m, "lint")["file_header"] = M{"content": []string{" ", "\n\n", "\t"}[c.At%3], "is_commented": true}
	case "mapping without directory":
		put(sub(m, "create"), "packages", front, M{"name": "x"})
	case "mapping without name":
		put(sub(m, "create"), "packages", front, M{"directory": "a"})
	case "mapping absolute":
		put(sub(m, "create"), "packages", front, M{"directory": filepath.Join(root, "a"), "name": "x"})
	case "plugin type":
		plugin(M{"name": "p", "output": "gen", "type": []string{"golang", "java", "gogogo", " go", "none"}[c.At/2%5]})
	case "plugin without output":
		plugin(M{"name": "p"})
	case "suffix with a dot":
		plugin(M{"name": []string{"java", "descriptor_set"}[c.At/2%2], "output": "gen", "file_suffix": ".jar"})
	case "imports for another plugin":
		plugin(M{"name": "java", "output": "gen", "include_imports": true})
	case "source info for another plugin":
		plugin(M{"name": "java", "output": "gen", "include_source_info": true})
	case "plugin prefix":
		plugin(M{"name": "protoc-gen-java", "output": "gen"})
	case "go plugin without import path", "gogo plugin without import path":
		g := gen()
		delete(sub(g, "go_options"), "import_path")
		var keep []interface{}
		put(g, "plugins", front, M{"name": "p", "output": "gen", "type": strings.Fields(c.Break)[0]})
		_ = keep
	case "suppression":
		sub(m, "lint")["allow_suppression"] = true
	}
	yamlText, jsonText = yamlOf(m), jsonOf(m)
	switch c.Break {
	case "trailing data":
		jsonText += []string{" x", "{}", ` {"zzz": 1}`, "]", "}", " null"}[c.At%6]
		yamlText += []string{"zzz\n", "x: [\n", "]\n", "{}\n", "- a\n", "\t: x\n"}[c.At%6]
		if len(m) == 0 {
			yamlText = "x: [\n"
		}
	case "cut off":
		jsonText = jsonText[:len(jsonText)-1]
		yamlText = "lint: {group: uber1\n"
	case "duplicate key":
		yamlText = "lint:\n  group: uber1\nlint:\n  group: uber2\n"
		jsonText = ""
	case "not a mapping":
		yamlText = []string{"- a\n", "text\n", "[]\n"}[c.At%3]
		jsonText = []string{`["a"]`, `"text"`, "1"}[c.At%3]
	}
	return yamlText, jsonText
}

func runStrict(x *Ctx, c *cfgCase) error {
	root := filepath.Join(x.Dir, "w")
	if c.Cfg == nil {
		c.Cfg = map[string]interface{}{}
	}
	yamlText, jsonText := c.fault(root)
	for carrier := 0; carrier < 3; carrier++ {
		if carrier > 0 && jsonText == "" {
			continue
		}
		x.cfgWorkspace(root)
		var more []string
		var text string
		forceRemove(filepath.Join(root, "prototool.yaml"))
		forceRemove(filepath.Join(root, "prototool.json"))
		switch carrier {
		case 0:
			text = yamlText
			writeFiles(root, map[string]string{"prototool.yaml": text})
		case 1:
			text = jsonText
			writeFiles(root, map[string]string{"prototool.json": text})
		case 2:
			text = jsonText
			more = []string{"--config-data", text}
		}
		for _, n := range c.Cmds {
			before := snapshot(x.Dir)
			r := x.PT(root, append(append([]string{}, strictCmds[n]...), more...)...)
			if r.Code == 0 || strings.TrimSpace(r.Out+r.Err) == "" {
				return bad("a configuration with %s is not refused with an error (carrier %d): %s\n%s", c.Break, carrier, r, text)
			}
			if strings.Contains(r.Out, ".proto:") || strings.Contains(r.Out, "message ") {
				return bad("a configuration with %s is used (carrier %d): %s\n%s", c.Break, carrier, r, text)
			}
			if d := diffSnap(before, snapshot(x.Dir)); d != "" {
				return bad("a configuration with %s is refused too late (carrier %d): %s\n%s\n%s", c.Break, carrier, r, d, text)
			}
		}
	}
	x.Label("%s", c.Break)
	x.NonTrivial()
	return nil
}

func init() {
	prop("C14", "differential", "configurations over all documented keys given as YAML, JSON, --config-data and reordered, compared on five commands each; and configurations with one fault; non-trivial: the configuration is not empty, or has a fault",
		newPart("carriers", 320, 6000, genCarriers, runCarriers),
		newPart("strict", 700, 12000, genStrict, runStrict))
}
