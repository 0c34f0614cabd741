package main

// C31: no input crashes a command, makes it hang or end without a word.
// Inputs are valid ones damaged a little: files, configurations, saved states,
// arguments. The files are also read behind a protoc that accepts anything, as
// a newer one may accept what this version does not know.

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// damage is one change of a text: tokens At.. are replaced.
type damage struct {
	Kind string
	File int
	At   int
	N    int
	Text string
}

var damageKinds = []string{"delete", "insert", "insert", "insert", "replace", "replace", "duplicate", "swap", "copy", "cut", "byte", "repeat"}

var protoTokens = []string{";", ";", "{", "}", "[", "]", "(", ")", "<", ">", "=", ",", ".", ":", "-", "+", "/", "\n", " ", "\t", "\r\n", "\r", "\f", "\v", "\x00", "\ufeff", "\u00a0", "é", "\xff",
	"0", "1", "-1", "00", "08", "017", "0x", "0x1F", "0XaB", "1e400", "1.", ".5", "1.e-3", "5f", "536870911", "536870912", "99999999999999999999", "inf", "nan", "-inf", "to", "max",
	`""`, `''`, `"`, `'`, `"a" "b"`, `'a' "b"`, `"\x"`, `"\777"`, `"\u00e9"`, `"\\"`, `"\""`, `"'"`, `'"'`, `'\''`, `"a//b"`, `"/*"`,
	"/*", "*/", "//", "/**/", "/* */", "/* a */", "// a\n", "//\n", "/*\n * a\n */", "/***/", "// @suppresswarnings all\n", "#",
	"message M9 {}", "enum E9 { E9_Z = 0; }", "reserved 1;", "reserved 5 to max;", `reserved "a", "b";`, "extensions 5;", "extensions 1000 to max;", "option deprecated = true;", "option (a.b).c = { d: 1 };",
	"[deprecated = true]", "[json_name = \"x\"]", "[]", "[(a) = { b < c: 1 > }]", "oneof o9 { int32 o9a = 900; }", "oneof o9 {}", "map<string, string> m9 = 901;", "map<string,", "group G9 = 902 {}", "repeated", "optional", "required",
	"extend M9 {}", "extend google.protobuf.FieldOptions { optional int32 x9 = 50099; }", "rpc R9(M9) returns (M9);", "rpc R9(stream .a.B) returns (stream C) {}", "service S9 {}", "stream", "returns", "import \"a.proto\";", "import public", "import weak", "syntax = \"proto3\";", "syntax = 'proto2';", "edition = \"2023\";", "package a.b;", "package",
	"message", "enum", "service", "rpc", "option", "reserved", "extend", "extensions", "oneof", "map", "group", "int32", "string", "true", "identity", "inline", "export", "local", "default", "google.protobuf.Any", ".", ".."}

var configTokens = []string{":", ": ", "- ", "\n", "\n  ", "\n\n", "  ", " ", "\t", "&a ", "*a", "*b", "<<: *a", "!!binary ", "!!int ", "!!str ", "!x ", "|", ">", "|-\n", "? ", "---\n", "...\n", "%YAML 1.1\n", "{", "}", "[", "]", ",", `"`, "'", "#", "@", "`", "%",
	"null", "~", "yes", "n", "on", "1e999", "0o7", "0x", ".inf", ".nan", "-", "2020-01-01", "12:30:45", "-9223372036854775809", "\\", "\\u0000", "\\ud800", "\x00", "\xff", "\ufeff", "\r\n", "\r", "\u0085", "é",
	"lint:", "group:", "rules:", "add:", "remove:", "ignores:", "id:", "files:", "protoc:", "version:", "includes:", "generate:", "plugins:", "name:", "output:", "type:", "flags:", "path:", "go_options:", "extra_modifiers:", "create:", "packages:", "directory:", "break:", "include_beta:", "excludes:", "file_header:", "content:",
	"- a", "a: b", `""`, "''", "[]", "{}", "[[", `{"a":`, "true", "false", "uber2", "ENUM_NAMES_CAMEL_CASE"}

// tokens splits a text into words, runs of space and other characters.
func tokens(s string) []string {
	var out []string
	kind := func(c byte) int {
		switch {
		case isWord(c) || c >= 0x80:
			return 1
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			return 2
		}
		return 0
	}
	for i := 0; i < len(s); {
		j := i + 1
		for k := kind(s[i]); k != 0 && j < len(s) && kind(s[j]) == k; j++ {
		}
		out = append(out, s[i:j])
		i = j
	}
	return out
}

func (d damage) apply(s string) string {
	ts := tokens(s)
	if len(ts) == 0 {
		return s + d.Text
	}
	at := d.At % len(ts)
	end := at + 1 + d.N%4
	if end > len(ts) {
		end = len(ts)
	}
	pre, mid, post := strings.Join(ts[:at], ""), strings.Join(ts[at:end], ""), strings.Join(ts[end:], "")
	switch d.Kind {
	case "delete":
		return pre + post
	case "insert":
		return pre + d.Text + mid + post
	case "replace":
		return pre + d.Text + post
	case "duplicate":
		return pre + mid + mid + post
	case "swap":
		if end < len(ts) {
			return pre + ts[end] + mid + strings.Join(ts[end+1:], "")
		}
		return post + mid + pre
	case "copy": // to somewhere else
		to := d.N % len(ts)
		return strings.Join(ts[:to], "") + mid + strings.Join(ts[to:], "")
	case "cut":
		return pre
	case "byte":
		k := d.N % len(s)
		return s[:k] + string([]byte{byte(d.At)}) + s[k+1:]
	case "repeat":
		return pre + strings.Repeat(mid, 1<<uint(d.N%8)) + post
	}
	panic("unknown damage")
}

func genDamage(t *rapid.T, pool []string, files, most int) []damage {
	var out []damage
	for n := 1 + uniform(t, most, "damages"); n > 0; n-- {
		out = append(out, damage{Kind: sample(t, damageKinds, "damage"), File: uniform(t, files, "file"), At: bits(t, 11, "at"), N: bits(t, 10, "n"), Text: sample(t, pool, "text")})
	}
	return out
}

// ending judges how a command ended. A command for one file (any regular one) may end without a
// word, as it fails for the failures of the whole directory but prints those of
// the file (docs/README.md).
func ending(r *Result, what string, args ...string) error {
	file := false
	for _, a := range args {
		switch filepath.Base(a) {
		case "garbage", "saved.bin", "prototool.yaml":
			file = true
		}
		file = file || strings.HasSuffix(a, ".proto")
	}
	switch {
	case r.Code != 0 && r.Code != 1 && r.Code != 255:
		return bad("exit code %d\n%s\n%s", r.Code, r, what)
	case r.Code != 0 && !file && strings.TrimSpace(r.Out) == "" && strings.TrimSpace(r.Err) == "":
		return bad("exit code %d without a word\n%s\n%s", r.Code, r, what)
	case strings.Contains(r.Out+r.Err, "internal prototool error") || strings.Contains(r.Out+r.Err, "runtime error:"):
		return bad("an internal error\n%s\n%s", r, what)
	}
	return nil
}

// ---- files

type roughCase struct {
	Files   map[string]string
	Damages []damage
	Valid   bool // keep what protoc accepts
	Any     bool // protoc accepts all
	Header  string
	Cmds    []int
}

var roughCmds = []string{"format", "format -d", "format -l", "format --fix -d", "lint", "lint", "lint", "lint --json", "lint --generate-ignores", "compile", "files", "descriptor-set --include-imports --include-source-info",
	"x inspect packages", "x inspect package-deps --name NAME", "x inspect package-importers --name NAME", "break check --descriptor-set-path saved.bin", "break check --json --descriptor-set-path saved.bin", "break descriptor-set -o out.d/x.bin",
	"format -w", "format -w --fix", "all", "all --fix", "generate", "generate --dry-run", "compile --dry-run", "grpc --address 127.0.0.1:1 --connect-timeout 100ms --method NAME.S/R --data {}"}

var anyCmds = map[string]bool{"format": true, "format -d": true, "format -l": true, "format --fix -d": true, "lint": true, "lint --json": true, "lint --generate-ignores": true, "compile": true, "files": true, "format -w": true, "format -w --fix": true}

func genRough(t *rapid.T) *roughCase {
	cfg := wildFormat
	cfg.Comments = 15
	cfg.MaxElems, cfg.MaxBody = 3, 4
	f := genFormatCase(cfg, true)(t)
	c := &roughCase{Files: f.Files}
	c.Valid = bits(t, 2, "valid") > 0
	most := 3
	if c.Valid {
		most = 8
	}
	c.Damages = genDamage(t, protoTokens, len(c.Files), most)
	c.Any = bits(t, 2, "protoc accepts all") == 0
	c.Header = sample(t, []string{"", "// Header.", "//\n// Two é lines.\n//", strings.Repeat("// A licence.\n", 15)}, "header")
	for i := 0; i < 4; i++ {
		c.Cmds = append(c.Cmds, uniform(t, len(roughCmds), "command"))
	}
	return c
}

func (c *roughCase) config() string {
	add := []string{}
	for _, r := range sortedKeys(lintRules) {
		add = append(add, r)
	}
	lint := M{"group": "empty", "rules": M{"add": add}, "java_package_prefix": "org.x"}
	if c.Header != "" {
		lint["file_header"] = M{"content": c.Header, "is_commented": true}
	}
	return yamlOf(M{"lint": lint, "protoc": M{"allow_unused_imports": true}, "generate": M{"go_options": M{"import_path": "example.com/x"}, "plugins": []M{{"name": "vrec", "output": "gen"}, {"name": "vgo", "output": "gen", "type": "go"}}}})
}

func runRough(x *Ctx, c *roughCase) error {
	names := x.setup(c.Files, c.config())
	accepted := func() bool {
		return x.Protoc(x.Dir, append([]string{"-I.", "-o", "/dev/null"}, names...)...).OK()
	}
	env := append(x.baseEnv(), protocEnv...)
	env[0] = "PATH=" + x.Aux + ":/usr/local/bin:/usr/bin:/bin"
	pkg := "none"
	for _, l := range lines(c.Files[names[0]]) {
		if strings.HasPrefix(l, "package ") && strings.HasSuffix(l, ";") {
			pkg = strings.TrimSpace(strings.TrimSuffix(strings.TrimPrefix(l, "package "), ";"))
		}
	}
	if r := x.PT(x.Dir, "break", "descriptor-set", "-o", "saved.bin"); r.Code != 0 {
		must(ioutil.WriteFile(filepath.Join(x.Dir, "saved.bin"), nil, 0644))
	}
	texts := map[string]string{}
	for k, v := range c.Files {
		texts[k] = v
	}
	kept := 0
	for _, d := range c.Damages {
		n := names[d.File%len(names)]
		old := texts[n]
		texts[n] = d.apply(old)
		if len(texts[n]) > 1<<16 {
			texts[n] = old
			continue
		}
		writeFiles(x.Dir, map[string]string{n: texts[n]})
		if c.Valid && texts[n] != old {
			if accepted() {
				kept++
				x.Label("kept: %s", d.Kind)
			} else {
				texts[n] = old
				writeFiles(x.Dir, map[string]string{n: old})
			}
		}
	}
	x.Label("protoc accepts the files: %v", c.Valid || accepted())
	if c.Valid && kept > 0 {
		x.NonTrivial()
	}
	if c.Any {
		bin := filepath.Join(x.Dir, ".bin", "protoc")
		must(os.MkdirAll(filepath.Dir(bin), 0755))
		must(ioutil.WriteFile(bin, []byte("#!/bin/sh\nexit 0\n"), 0755))
		env = append(env, "PROTOTOOL_PROTOC_BIN_PATH="+bin)
		x.NonTrivial()
	}
	writeFiles(x.Dir, map[string]string{"out.d/x.bin": ""})
	pristine := snapshot(x.Dir)
	for _, k := range c.Cmds {
		cmd := roughCmds[k%len(roughCmds)]
		if c.Any && !anyCmds[cmd] {
			cmd = "lint"
		}
		cmd = strings.Replace(cmd, "NAME", pkg, -1)
		r := x.PTEnv(x.Dir, env, nil, strings.Fields(cmd)...)
		what := ""
		for _, n := range names {
			what += fmt.Sprintf("%s:\n%s\n", n, texts[n])
		}
		if cmd == "format" && r.Code == 255 && c.Any {
			r.Out += "(the formatted text)" // may be empty
		}
		if err := ending(r, what, strings.Fields(cmd)...); err != nil {
			return err
		}
		x.Label("%s: exit %d", strings.Join(strings.Fields(cmd)[:1], " "), r.Code)
		writeFiles(x.Dir, map[string]string{"out.d/x.bin": ""})
		writes := strings.Contains(cmd, "-w") || strings.HasPrefix(cmd, "all") || strings.HasPrefix(cmd, "generate")
		now := snapshot(x.Dir)
		if d := diffSnap(pristine, now); d != "" {
			if !writes || strings.HasPrefix(cmd, "format") && strings.Contains(d, ".bin") {
				return bad("%s changed files\n%s\n%s", cmd, d, what)
			}
			for _, n := range names {
				texts[n] = readFile(filepath.Join(x.Dir, n))
			}
			pristine = now
		}
	}
	return nil
}

// ---- configuration

type roughCfgCase struct {
	Cfg     M
	Odd     []oddValue // put into the configuration
	JSON    bool
	How     string
	Damages []damage
	Cmds    []int
}

var roughCfgCmds = []string{"files", "lint", "lint --list-linters", "compile", "compile --dry-run", "generate --dry-run", "format -d", "format --fix -d a/one.proto", "descriptor-set -o out/x.bin", "create new/x/y.proto",
	"x inspect packages", "lint --generate-ignores b", "break descriptor-set -o out/x.bin", "files a", "config init new", "config init --uncomment new", "break check"}

// oddValue is a value, in JSON, for one of the places of a configuration.
type oddValue struct {
	At    int
	Value string
}

var oddValues = []string{`""`, `" "`, `" "`, `"\t"`, `"\n"`, `" a "`, `"."`, `".."`, `"./"`, `"/"`, `"a/.."`, `"../x"`, `"é"`, `"\u0000"`, `null`, `[]`, `{}`, `[null]`, `[""]`, `[" "]`, `{"":""}`, `[{}]`, `[[]]`, `0`, `-1`, `1.5`, `true`, `"true"`, `"~"`, `"a\nb"`, `"%s"`, `"uber2"`, `"nope"`, `"a,b"`, `"=,:"`, `"//"`, `"/*"`, `"*/"`}

const fullConfig = `{"excludes":["b/c"],"protoc":{"version":"3.11.0","allow_unused_imports":true,"includes":["inc"]},"create":{"packages":[{"directory":"new","name":"foo.bar"}]},
"lint":{"group":"uber2","rules":{"no_default":false,"add":["FILE_HEADER","PACKAGE_LOWER_CASE"],"remove":["ENUM_NAMES_CAMEL_CASE"]},"ignores":[{"id":"PACKAGE_LOWER_CASE","files":["a/one.proto","b"]}],"file_header":{"content":"x","is_commented":false},"java_package_prefix":"org"},
"break":{"include_beta":true,"allow_beta_deps":true},
"generate":{"go_options":{"import_path":"example.com/x","extra_modifiers":{"a.proto":"example.com/y"}},"plugins":[{"name":"go","type":"go","flags":"plugins=grpc","output":"gen/go"},{"name":"descriptor_set","output":"gen/set","file_suffix":"bin","include_imports":true,"include_source_info":true},{"name":"java","output":"gen/java","file_suffix":"jar"}]}}`

// put puts an odd value at one of the places of the tree.
func (o oddValue) put(tree M) {
	var places []func(interface{})
	var walk func(v interface{})
	walk = func(v interface{}) {
		switch v := v.(type) {
		case M:
			for _, k := range sortedTree(v) {
				v, k := v, k
				places = append(places, func(x interface{}) { v[k] = x })
				walk(v[k])
			}
		case []interface{}:
			for k := range v {
				v, k := v, k
				places = append(places, func(x interface{}) { v[k] = x })
				walk(v[k])
			}
		}
	}
	walk(tree)
	if len(places) == 0 {
		return
	}
	var x interface{}
	if err := json.Unmarshal([]byte(o.Value), &x); err != nil {
		infra("%s: %v", o.Value, err)
	}
	places[o.At%len(places)](x)
}

func sortedTree(m M) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func genRoughCfg(t *rapid.T) *roughCfgCase {
	if bits(t, 1, "odd values") == 1 {
		c := &roughCfgCase{JSON: bits(t, 1, "json") == 1, How: sample(t, []string{"file", "file", "data", "nested"}, "how")}
		if bits(t, 1, "full") == 1 {
			c.Cfg = genCfgTree(t)
		}
		for i := 1 + uniform(t, 2, "places"); i > 0; i-- {
			c.Odd = append(c.Odd, oddValue{bits(t, 8, "place"), sample(t, oddValues, "value")})
		}
		for i := 0; i < 3; i++ {
			c.Cmds = append(c.Cmds, uniform(t, len(roughCfgCmds), "command"))
		}
		return c
	}
	c := &roughCfgCase{Cfg: genCfgTree(t), JSON: bits(t, 1, "json") == 1, How: sample(t, []string{"file", "file", "data", "nested"}, "how"), Damages: genDamage(t, configTokens, 1, 2)}
	for i := 0; i < 3; i++ {
		c.Cmds = append(c.Cmds, uniform(t, len(roughCfgCmds), "command"))
	}
	return c
}

func runRoughCfg(x *Ctx, c *roughCfgCase) error {
	root := filepath.Join(x.Dir, "w")
	must(os.MkdirAll(root, 0755))
	x.cfgWorkspace(root)
	writeFiles(root, map[string]string{"out/x.bin": ""})
	name := "prototool.yaml"
	if c.Odd != nil { // in a tree of its own
		tree := M{}
		src := fullConfig
		if c.Cfg != nil {
			src = jsonOf(c.Cfg)
		}
		must(json.Unmarshal([]byte(src), &tree))
		for _, o := range c.Odd {
			o.put(tree)
		}
		c = &roughCfgCase{Cfg: tree, JSON: c.JSON, How: c.How, Cmds: c.Cmds}
		x.NonTrivial()
	}
	text := yamlOf(c.Cfg)
	if c.JSON {
		name, text = "prototool.json", jsonOf(c.Cfg)
	}
	orig := text
	for _, d := range c.Damages {
		if s := d.apply(text); len(s) < 1<<14 {
			text = s
		}
	}
	var data []string
	switch c.How {
	case "file":
		writeFiles(root, map[string]string{name: text})
	case "nested":
		writeFiles(root, map[string]string{"a/" + name: text})
	default:
		if strings.Contains(text, "\x00") {
			text = strings.Replace(text, "\x00", "", -1)
		}
		data = []string{"--config-data", text}
	}
	if text != orig {
		x.NonTrivial()
	}
	pristine := snapshot(x.Dir)
	for _, k := range c.Cmds {
		cmd := roughCfgCmds[k%len(roughCfgCmds)]
		args := strings.Fields(cmd)
		if args[0] != "config" && cmd != "break check" {
			args = append(args, data...)
		}
		r := x.PT(root, args...)
		what := "configuration:\n" + text
		if err := ending(r, what, args...); err != nil {
			return err
		}
		x.Label("%s: exit %d", args[0], r.Code)
		must(ioutil.WriteFile(filepath.Join(root, "out/x.bin"), nil, 0644))
		now := snapshot(x.Dir)
		if d := diffSnap(pristine, now); d != "" && (args[0] != "create" && args[0] != "config" || r.Code != 0) {
			return bad("%s changed files\n%s\n%s", cmd, d, what)
		}
		pristine = now
	}
	return nil
}

// ---- arguments

type roughArgsCase struct {
	Cmd  int
	Args []string
	Repo bool
}

var roughArgCmds = []string{"all", "break check", "break descriptor-set", "cache update", "cache delete", "compile", "config init", "create", "descriptor-set", "files", "format", "generate", "grpc", "lint", "version", "x inspect packages", "x inspect package-deps", "x inspect package-importers",
	"", "help", "help lint", "x", "x inspect", "break", "cache", "config", "lnit"}

var roughFlags = []string{"--address", "--cache-path", "--call-timeout", "--config-data", "--connect-timeout", "--data", "--debug", "--descriptor-set-path", "--details", "--diff-lint-groups", "--diff", "-d", "--disable-format", "--disable-lint", "--dry-run", "--document", "--error-format", "--fix", "-f", "--generate-ignores", "--git-branch", "-H", "--header",
	"--include-imports", "--include-source-info", "--insecure", "--json", "--keepalive-time", "--lint", "-l", "--list-all-linters", "--list-linters", "--list-all-lint-groups", "--list-lint-group", "--method", "--name", "--output-path", "-o", "--overwrite", "-w", "--package", "--protoc-url", "--protoc-bin-path", "--protoc-wkt-path", "--stdin", "--tls", "--cacert", "--cert", "--key", "--server-name", "--tmp", "--uncomment", "--walk-timeout", "--help", "-h", "--version", "--nope", "-z", "-", "--"}

// The values name nothing outside of the scratch directory, as a command may
// write to any of them.
var roughWhole = []string{"--protoc-bin-path=/usr/bin/protoc", "--protoc-wkt-path=/usr/include", "--protoc-bin-path=/usr/bin/false", "--protoc-bin-path=/nope", "--protoc-wkt-path=/usr/bin"}

var roughValues = []string{"", " ", "a", "b", "a/one.proto", "b/two.proto", ".", "..", "a/", "./a//one.proto", "nope", "nope.proto", "out", "x.bin", "out/x.bin", "garbage", "saved.bin", "0", "-1", "1", "1s", "-1s", "1ms", "99999999999h", "1.5.5", "true", "false", "maybe", "uber1", "uber2,google", "uber2,nope", "uber2,,google", ",", "filename:line", "id", "nope:line", ":", "::",
	"{}", "[]", "{", "null", `{"a":1}`, "lint: {group: uber2}", "lint: [", "a.v1", "a.b.c", "A/B", "A.B/C", "/", "a:b", ":", "a", "a: b", "127.0.0.1:1", "tcp://127.0.0.1:1", "unix:///nope", "unix://", "http://x", "file:///nope.zip", "file://garbage", "master", "main", "v1", "HEAD", "-x", "é", "\xff", "%s%n", "$HOME", "*", "~"}

func genRoughArgs(t *rapid.T) *roughArgsCase {
	c := &roughArgsCase{Cmd: uniform(t, len(roughArgCmds), "command"), Repo: bits(t, 1, "repository") == 1}
	n := bits(t, 3, "arguments")
	for i := 0; i < n; i++ {
		switch bits(t, 2, "kind") {
		case 0:
			c.Args = append(c.Args, sample(t, roughValues, "value"))
		case 1:
			c.Args = append(c.Args, sample(t, roughFlags, "flag")+"="+sample(t, roughValues, "value"))
		case 2:
			c.Args = append(c.Args, sample(t, roughFlags, "flag"), sample(t, roughValues, "value"))
		default:
			c.Args = append(c.Args, sample(t, append(append([]string{}, roughFlags...), roughWhole...), "flag"))
		}
	}
	return c
}

func runRoughArgs(x *Ctx, c *roughArgsCase) error {
	root := filepath.Join(x.Dir, "up/w")
	must(os.MkdirAll(root, 0755))
	x.cfgWorkspace(root)
	writeFiles(root, map[string]string{"prototool.yaml": "lint:\n  group: google\nprotoc:\n  includes: [inc]\n  allow_unused_imports: true\nexcludes: [inc]\n", "garbage": "no zip\x00\x01", "out/keep": ""})
	if r := x.PT(root, "break", "descriptor-set", "-o", "saved.bin"); r.Code != 0 {
		infra("%s", r)
	}
	if c.Repo {
		for _, a := range [][]string{{"init", "-q"}, {"add", "."}, {"commit", "-q", "-m", "x"}, {"tag", "v1"}} {
			if r := x.Exec(root, x.baseEnv(), nil, "git", a...); r.Code != 0 {
				infra("%s", r)
			}
		}
	}
	env := append(x.baseEnv(), protocEnv...)
	for _, a := range c.Args {
		for _, f := range []string{"--protoc-url", "--cache-path"} {
			if strings.HasPrefix(a, f) {
				env = x.baseEnv()
			}
		}
	}
	outside := func() string { // all but what the command may write to
		m := snapshot(x.Dir)
		for k := range m {
			if strings.HasPrefix(k, "up") {
				delete(m, k)
			}
		}
		return fmt.Sprint(m)
	}
	before := outside()
	args := append(strings.Fields(roughArgCmds[c.Cmd%len(roughArgCmds)]), c.Args...)
	r := x.PTEnv(root, env, []byte(`{"a":1}{`), args...)
	if err := ending(r, fmt.Sprintf("arguments: %q", args), args...); err != nil {
		return err
	}
	if outside() != before {
		return bad("files elsewhere changed\n%s", r)
	}
	x.Label("%s: exit %d", roughArgCmds[c.Cmd%len(roughArgCmds)], r.Code)
	if !strings.Contains(r.Out, "unknown flag") && !strings.Contains(r.Out, "unknown shorthand") && !strings.Contains(r.Out, "unknown command") && !strings.Contains(r.Out, "invalid argument") {
		x.NonTrivial()
	}
	return nil
}

// ---- saved states

type roughStateCase struct {
	Files   map[string]string
	Damages []damage
	Wires   []wireDamage // instead of the damages
	JSON    bool
	Beta    bool
}

// wireDamage changes one field of a descriptor set, which stays well-formed.
type wireDamage struct {
	At   int // which one
	Kind int // delete, duplicate, another value
	Text string
	Num  int
}

// wireSub says which fields of a descriptor are messages that may be descended
// into.
var wireSub = map[string]map[int]string{
	"set":     {1: "file"},
	"file":    {4: "message", 5: "enum", 6: "service", 7: "field"},
	"message": {2: "field", 3: "message", 4: "enum", 5: "range", 6: "field", 8: "oneof", 9: "range"},
	"enum":    {2: "value", 4: "range"},
	"service": {2: "method"},
	"field":   {}, "range": {}, "oneof": {}, "value": {}, "method": {},
}

type wireField struct {
	num, typ int
	n        uint64
	data     string
	kind     string // of the message, if it is one
	sub      []*wireField
}

func wireParse(s, kind string) []*wireField {
	var out []*wireField
	b := []byte(s)
	varint := func() uint64 {
		n, k := binary.Uvarint(b)
		if k <= 0 {
			infra("descriptor set: %q", s)
		}
		b = b[k:]
		return n
	}
	for len(b) > 0 {
		tag := varint()
		f := &wireField{num: int(tag >> 3), typ: int(tag & 7)}
		switch f.typ {
		case 0:
			f.n = varint()
		case 2:
			n := int(varint())
			f.data, b = string(b[:n]), b[n:]
			if k, ok := wireSub[kind][f.num]; ok {
				f.kind, f.sub = k, wireParse(f.data, k)
			}
		case 1:
			f.data, b = string(b[:8]), b[8:]
		case 5:
			f.data, b = string(b[:4]), b[4:]
		default:
			infra("descriptor set: wire type %d", f.typ)
		}
		out = append(out, f)
	}
	return out
}

func wirePrint(fs []*wireField) string {
	var b strings.Builder
	varint := func(n uint64) {
		var buf [10]byte
		b.Write(buf[:binary.PutUvarint(buf[:], n)])
	}
	for _, f := range fs {
		varint(uint64(f.num)<<3 | uint64(f.typ))
		switch f.typ {
		case 0:
			varint(f.n)
		case 2:
			if f.kind != "" {
				f.data = wirePrint(f.sub)
			}
			varint(uint64(len(f.data)))
			b.WriteString(f.data)
		default:
			b.WriteString(f.data)
		}
	}
	return b.String()
}

var wireNums = []uint64{0, 1, 2, 3, 11, 14, 1<<31 - 1, 1 << 31, 1<<64 - 1, 1 << 62}

func (d wireDamage) apply(s string) string {
	root := &wireField{kind: "set", sub: wireParse(s, "set")}
	type place struct {
		in *wireField
		k  int
	}
	var places []place
	var walk func(f *wireField)
	walk = func(f *wireField) {
		for k, g := range f.sub {
			places = append(places, place{f, k})
			walk(g)
		}
	}
	walk(root)
	if len(places) == 0 {
		return s
	}
	p := places[d.At%len(places)]
	f := p.in.sub[p.k]
	switch {
	case d.Kind == 0:
		p.in.sub = append(append([]*wireField{}, p.in.sub[:p.k]...), p.in.sub[p.k+1:]...)
	case d.Kind == 1:
		p.in.sub = append(append(append([]*wireField{}, p.in.sub[:p.k+1]...), f), p.in.sub[p.k+1:]...)
	case f.typ == 0:
		f.n = wireNums[d.Num%len(wireNums)]
	case f.kind != "":
		f.sub = nil
	case f.typ == 2:
		f.data = d.Text
	}
	return wirePrint(root.sub)
}

func genRoughState(t *rapid.T) *roughStateCase {
	cfg := wildFormat
	cfg.NoPackage, cfg.CustomOpts, cfg.MaxElems = false, false, 3
	if bits(t, 2, "wire") > 0 {
		c := &roughStateCase{Files: genFormatCase(cfg, false)(t).Files, JSON: bits(t, 2, "json") == 3, Beta: bits(t, 2, "beta") == 3}
		for i := 1 + bits(t, 2, "damages"); i > 0; i-- {
			c.Wires = append(c.Wires, wireDamage{At: bits(t, 10, "at"), Kind: uniform(t, 4, "kind"), Text: sample(t, []string{"", ".", "a", ".a", ".a.b", "a.b", "..", ".a.", "\xff", "é", "foo.v1", ".nope.Nope", "a/b.proto"}, "text"), Num: uniform(t, len(wireNums), "number")})
		}
		return c
	}
	return &roughStateCase{Files: genFormatCase(cfg, false)(t).Files, Damages: genDamage(t, []string{"\x00", "\xff\xff\xff\xff\x0f", "\x0a", "\x0a\x00", "a", ".", "\x12\x01.", "\x80", "\x0a\x05\x0a\x03a.b"}, 1, 4), JSON: bits(t, 2, "json") == 3, Beta: bits(t, 2, "beta") == 3}
}

func runRoughState(x *Ctx, c *roughStateCase) error {
	cfg := M{"protoc": M{"allow_unused_imports": true}}
	if c.Beta {
		cfg["break"] = M{"include_beta": true}
	}
	x.setup(c.Files, yamlOf(cfg))
	saved := filepath.Join(x.Dir, "saved.bin")
	r := x.PT(x.Dir, "break", "descriptor-set", "-o", saved)
	if r.Code != 0 {
		x.Label("not saved")
		return nil
	}
	s := readFile(saved)
	orig := s
	for _, d := range c.Wires {
		s = d.apply(s)
	}
	for _, d := range c.Damages {
		if d.Kind != "byte" && len(s) > 0 { // bytes instead of tokens
			k, n := d.At%len(s), 1+d.N%4
			if k+n > len(s) {
				n = len(s) - k
			}
			switch d.Kind {
			case "delete", "swap":
				s = s[:k] + s[k+n:]
			case "cut":
				s = s[:k]
			case "duplicate", "repeat", "copy":
				s = s[:k+n] + s[k:]
			default:
				s = s[:k] + d.Text + s[k:]
			}
		} else if len(s) > 0 {
			s = d.apply(s)
		}
	}
	if s != orig {
		x.NonTrivial()
	}
	must(ioutil.WriteFile(saved, []byte(s), 0644))
	args := []string{"break", "check", "--descriptor-set-path", "saved.bin"}
	if c.JSON {
		args = append(args, "--json")
	}
	before := snapshot(x.Dir)
	r = x.PT(x.Dir, args...)
	if err := ending(r, fmt.Sprintf("saved state: %q", s)); err != nil {
		return err
	}
	if d := diffSnap(before, snapshot(x.Dir)); d != "" {
		return bad("break check changed files\n%s", d)
	}
	x.Label("exit %d", r.Code)
	return nil
}

func init() {
	prop("C31", "fuzz", "files: a change of the files that protoc accepts, or a protoc that accepts all; configuration, saved state: a damage that shows; arguments: known flags with well-formed values",
		newPart("files", 500, 12000, genRough, runRough),
		newPart("configuration", 1200, 30000, genRoughCfg, runRoughCfg),
		newPart("arguments", 500, 12000, genRoughArgs, runRoughArgs),
		newPart("states", 400, 10000, genRoughState, runRoughState),
		newPart("calls", 600, 15000, genRoughCall, runRoughCall))
}
