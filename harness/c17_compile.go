package main

// C17: compile against protoc itself, run by the harness on each directory,
// against a scripted stand-in for protoc, and with signals.

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

type compFile struct {
	Path    string // relative to the scratch root: top/... or ext/...
	Imports []string
	Parts   []string // faulty or faultless declarations
	Syntax  int
	Pkg     string
	Uses    []int // files whose mark is referred to
}

type compCase struct {
	Config   int // 0 none, 1 at the top, 2 in top/a
	Includes []string
	IncHow   int
	Unused   bool // allow_unused_imports
	Files    []compFile
	Target   string
	How      int
	Work     string
	Cmds     []string
	Plugin   bool
}

var compDirs = []string{"top", "top", "top/a", "top/a", "top/a/b", "top/b", "top/a/inc", "top/inc", "top/incx", "ext", "ext/sub"}

// compParts are declarations; N becomes a unique suffix. The first ones are
// valid in proto3.
var compParts = []string{
	"message M§ { int64 id = 1; }",
	"enum E§ { E§_INVALID = 0; E§_A = 1; }",
	"service S§ { rpc Get(RequestN§) returns (ResponseN§); }\nmessage RequestN§ {}\nmessage ResponseN§ {}",
	"message U§ { google.protobuf.Timestamp t = 1; }",
	"message W§ { google.protobuf.Duration t = 1; }",
	// faults
	"message",
	"message M§ { Unknown u = 1; }",
	"message M§ { .no.such.Type u = 1; other.v1.X x = 2; }",
	"message D {}\nmessage D {}",
	"message M§ { int32 a = 1; int32 b = 1; }",
	"message M§ { int32 a = 1; int32 a = 2; }",
	"enum E§ { E§_A = 1; }",
	"enum E§ { E§_A = 0; E§_B = 0; }",
	"message M§ { int32 a = 1 [default = 3]; }",
	"option java_packag = \"x\";",
	"option java_multiple_files = 3;",
	"message M§ { int32 a = 1 [(foo.bar) = 1]; }",
	"message M§ { int32 foo_bar = 1; int32 fooBar = 2; }",
	"message M§ { required int32 a = 1; }",
	"message M§ { optional group G = 1 { } }",
	"message M§ { extensions 100 to 200; }",
	"message M§ { reserved 1, 3 to 5; int32 a = 4; }",
	"message M§ { reserved 1 to 3, 2; reserved \"a\"; int32 a = 9; }",
	"message M§ { int32 a = 0; }",
	"message M§ { int32 a = 19000; }",
	"message M§ { int32 a = 536870912; }",
	"message M§ { oneof o { } }",
	"message M§ { map<float, int32> m = 1; }",
	"message M§ { map<string, int32> m = 1; message MEntry {} }",
	"service S§ { rpc A(EN§) returns (EN§); }\nenum EN§ { EN§_A = 0; }",
	"service S§ { rpc A(R§) returns (R§); rpc A(R§) returns (R§); }\nmessage R§ {}",
	"message M§ { string a = 1 [deprecated = \"abc ] ",
	"option java_package = \"a\\qb\";",
	"message M§ { int32 § = 1; }",
	"message M§ { string s = 1 [packed = true]; }",
	"message M§ { string s = 1 [json_name = \"a\", json_name = \"b\"]; }",
	"message M§ { int32 a = 1",
	"message M§ { int32 a = 1 }",
	"message M§ { option (nothing: here) = 1; }",
	"extend google.protobuf.FieldOptions { string x§ = 50001; }\nmessage M§ { string s = 1 [(x§) = 3]; }",
	"extend google.protobuf.FieldOptions { R§ y§ = 50002; }\nmessage R§ { int32 a = 1; }\nmessage M§ { string s = 1 [(y§) = { a: \"x\" nope: 3 }]; }",
	"extend google.protobuf.MessageOptions { R§ z§ = 50003; }\nmessage R§ { int32 a = 1; }\nmessage M§ { option (z§).b = 1; option (z§).a = 1; option (z§).a = 2; }",
	"enum E§ { E§_INVALID = 0; E§_aB = 1; E§_AB = 2; }",
	"enum E§ { E§_FOO_BAR = 0; E§_FOOBAR = 1; }",
	"package other;",
	"}",
	"/* unterminated",
	"message M§ { string s = 1; } ;;; $",
	"message M§ { Seen s = 1; }",
	"message Seen { }",
}

func genCompile(t *rapid.T) *compCase {
	return genCompileWith(t, []int{0, 0, 0, 0, 1, 1, 2, 4})
}

func genCompileWith(t *rapid.T, shares []int) *compCase {
	c := &compCase{Config: sample(t, []int{0, 1, 1, 1, 2}, "config")}
	for i := bits(t, 2, "includes"); i > 0; i-- {
		inc := sample(t, []string{"top/inc", "top/a/inc", "ext", "top/a", "top", "ext/sub", "top/incx", "top/none", "top/b"}, "include")
		if !contains(c.Includes, inc) {
			c.Includes = append(c.Includes, inc)
		}
	}
	c.IncHow = bits(t, 2, "include spelling")
	c.Unused = bits(t, 1, "allow unused") == 0
	faulty := sample(t, shares, "faulty share")
	n := 1 + bits(t, 3, "files")
	same := bits(t, 1, "same names") == 0
	taken := map[string]bool{}
	for i := 0; i < n; i++ {
		f := compFile{Path: filepath.Join(sample(t, compDirs, "dir"), fmt.Sprintf("%s%d.proto", sample(t, []string{"f", "g", "a_"}, "name"), i)), Syntax: 3, Pkg: "p"}
		if faulty > 0 && bits(t, 3, "other syntax") == 0 {
			f.Syntax = sample(t, []int{0, 2, 2, 4}, "syntax")
		}
		if bits(t, 3, "other package") == 0 {
			f.Pkg = sample(t, []string{"", "q.v1", "M0", "p.Seen"}, "package")
		}
		if p := filepath.Join(filepath.Dir(f.Path), sample(t, []string{"x", "y"}, "same name")+".proto"); same && !taken[p] {
			f.Path = p // so that the order of the include paths matters
		}
		taken[f.Path] = true
		c.Files = append(c.Files, f)
	}
	for i := range c.Files {
		f := &c.Files[i]
		for j := bits(t, 2, "imports"); j > 0; j-- {
			imp := ""
			switch bits(t, 3, "import kind") {
			case 7:
				if faulty == 0 {
					continue
				}
				imp = sample(t, []string{"missing.proto", "a/missing.proto", "google/protobuf/none.proto"}, "missing")
			case 1:
				imp = sample(t, []string{"google/protobuf/timestamp.proto", "google/protobuf/duration.proto", "google/protobuf/descriptor.proto"}, "well known")
			default:
				k := uniform(t, n, "imported")
				if faulty == 0 || bits(t, 2, "cycle") > 0 {
					k = i // only backwards
					if i > 0 {
						k = uniform(t, i, "imported before")
					}
				}
				if k == i && (faulty == 0 || bits(t, 3, "self") > 0) {
					continue
				}
				var roots []string
				for _, r := range append([]string{"top", c.cfgDir()}, c.Includes...) {
					if within(c.Files[k].Path, r) {
						roots = append(roots, r)
					}
				}
				if len(roots) == 0 {
					continue
				}
				imp = strings.TrimPrefix(c.Files[k].Path, sample(t, roots, "root")+"/")
				if bits(t, 3, "used") > 0 {
					f.Uses = append(f.Uses, k)
				}
			}
			imp = sample(t, []string{"", "", "", "", "", "public ", "weak "}, "import modifier") + "\"" + imp + "\""
			again := false
			for _, o := range f.Imports {
				again = again || o[strings.Index(o, "\""):] == imp[strings.Index(imp, "\""):]
			}
			if !again || faulty > 0 && bits(t, 3, "twice") == 0 {
				f.Imports = append(f.Imports, imp)
			}
		}
		for j := 1 + bits(t, 1, "parts"); j > 0; j-- {
			if bits(t, 3, "faulty") < faulty {
				f.Parts = append(f.Parts, sample(t, compParts, "part"))
			} else {
				f.Parts = append(f.Parts, compParts[uniform(t, 5, "good part")])
			}
		}
		// the types of the well known imports are used more often than not
		for _, p := range f.Parts {
			for name, wkt := range map[string]string{"Timestamp": "timestamp", "Duration": "duration", "FieldOptions": "descriptor", "MessageOptions": "descriptor"} {
				imp := "\"google/protobuf/" + wkt + ".proto\""
				if strings.Contains(p, "google.protobuf."+name) && !contains(f.Imports, imp) && (len(p)+i)%9 > 0 {
					f.Imports = append(f.Imports, imp)
				}
			}
		}
	}
	var tops []string
	for _, f := range c.Files {
		if within(f.Path, "top") {
			tops = append(tops, f.Path)
		}
	}
	c.Target = "top"
	if c.Config == 2 {
		c.Target = "top/a"
	}
	if bits(t, 2, "deeper") == 0 {
		if c.Target = "top"; len(tops) > 0 {
			c.Target = dirOf(sample(t, tops, "target of"))
		}
	} else if len(tops) > 0 && bits(t, 2, "file") == 0 {
		c.Target = sample(t, tops, "target file")
	}
	c.How = bits(t, 3, "how")
	c.Work = "top"
	if c.Config != 0 {
		c.Work = sample(t, []string{"top", "top", "top/a", "top/b", "ext", ""}, "work")
	}
	c.Plugin = bits(t, 2, "plugin") == 0
	for i := 1 + bits(t, 1, "commands"); i > 0; i-- {
		c.Cmds = append(c.Cmds, sample(t, []string{"lint", "format -w", "format -l", "format -d", "format", "format --fix -w", "all", "all --fix", "generate", "descriptor-set", "break descriptor-set", "x inspect packages", "lint --generate-ignores"}, "command"))
	}
	return c
}

func (c *compCase) cfgDir() string {
	if c.Config == 2 {
		return "top/a"
	}
	return "top"
}

func (f *compFile) text(i int, all []compFile) string {
	var b strings.Builder
	if f.Syntax > 0 {
		fmt.Fprintf(&b, "syntax = \"proto%d\";\n", f.Syntax)
	}
	if f.Pkg != "" {
		fmt.Fprintf(&b, "package %s;\n", f.Pkg)
	}
	for _, s := range f.Imports {
		fmt.Fprintf(&b, "import %s;\n", s)
	}
	for j, p := range f.Parts {
		fmt.Fprintf(&b, "%s\n", strings.ReplaceAll(p, "§", fmt.Sprintf("%dX%d", i, j)))
	}
	fmt.Fprintf(&b, "message Mark%d {", i)
	for j, k := range f.Uses {
		pkg := all[k].Pkg
		if pkg != "" {
			pkg += "."
		}
		fmt.Fprintf(&b, " .%sMark%d u%d = %d;", pkg, k, j, j+1)
		if f.Syntax != 3 {
			break
		}
	}
	b.WriteString(" }\n")
	return b.String()
}

// protocFail is a line of protoc, read by the harness' own rules.
type protocFail struct {
	File      string // as protoc prints it, "" for none
	Line, Col int
	Msg       string
}

var (
	reAt        = regexp.MustCompile(`^(.+?):([0-9]+):([0-9]+): (.*)$`)
	reFileOnly  = regexp.MustCompile(`^([^:]+\.proto): (.*)$`)
	reNoSyntax  = regexp.MustCompile(`No syntax specified for the proto file: (.*)\. Please use`)
	reUnused    = regexp.MustCompile(`^warning: Import (.*) is unused\.$`)
	reUnusedOld = regexp.MustCompile(`^warning: Import (.*) but not used\.$`)
	reRecursive = regexp.MustCompile(`^File recursively imports itself: (.*)$`)
)

func readProtoc(stderr string, allowUnused bool) (out []protocFail) {
	for _, l := range strings.Split(stderr, "\n") {
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		if m := reNoSyntax.FindStringSubmatch(l); m != nil {
			out = append(out, protocFail{File: m[1], Msg: `No syntax specified. Please use 'syntax = "proto2";' or 'syntax = "proto3";' to specify a syntax version.`})
			continue
		}
		if m := reAt.FindStringSubmatch(l); m != nil {
			line, _ := strconv.Atoi(m[2])
			col, _ := strconv.Atoi(m[3])
			f := protocFail{File: m[1], Line: line, Col: col, Msg: strings.TrimSpace(m[4])}
			if u := reUnused.FindStringSubmatch(f.Msg); u != nil {
				if allowUnused {
					continue
				}
				f.Msg = "Import \"" + u[1] + "\" was not used."
			}
			if u := reRecursive.FindStringSubmatch(f.Msg); u != nil {
				f.Msg = "File recursively imports itself " + u[1] + "."
			}
			out = append(out, f)
			continue
		}
		if d := strings.TrimSuffix(l, ": warning: directory does not exist."); d != l {
			out = append(out, protocFail{Msg: "Directory \"" + d + "\" does not exist."})
			continue
		}
		if d := strings.TrimSuffix(l, ": File not found."); d != l {
			out = append(out, protocFail{Msg: "Import \"" + d + "\" was not found."})
			continue
		}
		if m := reFileOnly.FindStringSubmatch(l); m != nil {
			out = append(out, protocFail{File: m[1], Msg: m[2]})
			continue
		}
		out = append(out, protocFail{Msg: l})
	}
	return
}

func (f *protocFail) shown(root, work string, includes []string) string {
	name := f.File
	if name == "" {
		name = "<input>"
	}
	for _, inc := range append([]string{""}, includes...) {
		p := filepath.Join(inc, f.File)
		if inc == "" && !filepath.IsAbs(f.File) {
			continue
		}
		if _, err := os.Stat(p); f.File != "" && err == nil {
			rel, err := filepath.Rel(filepath.Join(root, work), p)
			must(err)
			name = rel
			break
		}
	}
	one := func(n int) int {
		if n == 0 {
			return 1
		}
		return n
	}
	return fmt.Sprintf("%s:%d:%d:%s", name, one(f.Line), one(f.Col), f.Msg)
}

// lay writes the workspace of the case. byDir are the files to be compiled by
// directory, incsOf the include paths for a directory; byDir is nil where
// there is nothing to compile.
func (c *compCase) lay(x *Ctx) (root string, files map[string]string, byDir map[string][]string, incsOf func(string) []string) {
	root = filepath.Join(x.Dir, "r")
	files = map[string]string{}
	for i, f := range c.Files {
		files[f.Path] = f.text(i, c.Files)
	}
	writeFiles(root, files)
	for _, d := range compDirs {
		must(os.MkdirAll(filepath.Join(root, d), 0755))
	}
	var includes []string
	if c.Config != 0 {
		pc := M{"allow_unused_imports": c.Unused}
		var texts []string
		for i, inc := range c.Includes {
			includes = append(includes, filepath.Join(root, inc))
			rel, err := filepath.Rel(filepath.Join(root, c.cfgDir()), filepath.Join(root, inc))
			must(err)
			switch (c.IncHow + i) % 4 {
			case 1:
				rel = filepath.Join(root, inc)
			case 2:
				rel = "./" + rel + "/"
			}
			texts = append(texts, rel)
		}
		if texts != nil {
			pc["includes"] = texts
		}
		m := M{"protoc": pc, "lint": M{"group": "empty"}}
		if c.Plugin {
			m["generate"] = M{"plugins": []M{{"name": "vrec", "output": "gen"}}}
			x.Extra = []string{"PATH=" + x.Aux + ":/usr/local/bin:/usr/bin:/bin"}
		}
		writeFiles(filepath.Join(root, c.cfgDir()), map[string]string{"prototool.yaml": yamlOf(m)})
	}
	x.Label("include paths %d", len(includes))

	// which directories are compiled
	targetDir := c.targetDir()
	if c.Config == 2 && !within(targetDir, "top/a") {
		// nothing governs it
		return root, files, nil, nil
	}
	if _, err := os.Stat(filepath.Join(root, targetDir)); err != nil {
		return root, files, nil, nil
	}
	byDir = map[string][]string{}
	for p := range files {
		if within(p, targetDir) { // for a file argument as well
			byDir[dirOf(p)] = append(byDir[dirOf(p)], p)
		}
	}
	incsOf = func(dir string) []string {
		incs := append([]string{}, includes...)
		incs = append(incs, "/usr/include")
		inside := false
		for _, i := range incs {
			inside = inside || within(filepath.Join(root, dir), i)
		}
		if !inside {
			incs = append(incs, filepath.Join(root, c.cfgDir()))
		}
		return incs
	}
	return root, files, byDir, incsOf
}

// targetDir is the directory of the target.
func (c *compCase) targetDir() string {
	if strings.HasSuffix(c.Target, ".proto") {
		return dirOf(c.Target)
	}
	return c.Target
}

func runCompile(x *Ctx, c *compCase) error {
	root, files, byDir, incsOf := c.lay(x)
	if len(byDir) == 0 {
		return nil
	}
	targetDir := c.targetDir()
	allow := c.Config != 0 && c.Unused
	var want []string
	rejected := false
	var raw strings.Builder
	for _, dir := range sortedKeys(byDir) {
		ps := byDir[dir]
		sort.Strings(ps)
		incs := incsOf(dir)
		var args []string
		for _, i := range incs {
			args = append(args, "-I", i)
		}
		args = append(args, "-o", "/dev/null")
		for _, p := range ps {
			args = append(args, filepath.Join(root, p))
		}
		r := x.Protoc(filepath.Join(root, c.Work), args...)
		fmt.Fprintf(&raw, "%s\n", r)
		fails := readProtoc(r.Err, allow)
		if r.Code != 0 || len(fails) > 0 {
			rejected = true
		}
		for _, f := range fails {
			want = append(want, f.shown(root, c.Work, incs))
			x.Label("%s", failClass(f.Msg))
		}
	}
	sort.Strings(want)
	arg := spell(root, c.Work, c.Target, c.How)
	work := filepath.Join(root, c.Work)
	r := x.PT(work, "compile", arg)
	show := func() string {
		return "\n" + r.String() + "\nprotoc itself:\n" + raw.String() + dumpFiles(root, sortedKeys(files))
	}
	if rejected != (r.Code != 0) {
		return bad("protoc rejects: %v, compile exits %d%s", rejected, r.Code, show())
	}
	if r.Code != 0 && r.Code != 255 {
		if len(want) > 0 {
			return bad("exit code %d for failures%s", r.Code, show())
		}
	}
	got := append([]string{}, lines(r.Out)...)
	sort.Strings(got)
	if c.Target != targetDir {
		// a file argument: its own failures
		rel, err := filepath.Rel(work, filepath.Join(root, c.Target))
		must(err)
		var own []string
		for _, l := range want {
			if strings.HasPrefix(l, rel+":") || strings.HasPrefix(l, "<input>:") {
				own = append(own, l)
			}
		}
		want = own
		x.Label("file argument")
	}
	if len(want) > 0 || rejected && len(got) > 0 {
		if sorted(got) != sorted(want) {
			return bad("compile prints\n%s\nwant\n%s%s", strings.Join(got, "\n"), strings.Join(want, "\n"), show())
		}
	}
	if !rejected && r.Out+r.Err != "" {
		return bad("compile succeeds and prints something%s", show())
	}
	x.Label("rejected %v", rejected)
	if rejected {
		x.NonTrivial()
		before := snapshot(root)
		for _, cmd := range c.Cmds {
			args := append(strings.Fields(cmd), arg)
			if cmd == "break descriptor-set" {
				args = append(args, "-o", filepath.Join(x.Dir, "out"))
			}
			q := x.PT(work, args...)
			if q.Code == 0 {
				return bad("%s goes on although the files do not compile: %s%s", cmd, q, show())
			}
			x.Label("refused: %s", cmd)
			gen := cmd == "generate" || strings.HasPrefix(cmd, "all") && false
			if gen && c.Config != 0 && c.Plugin {
				forceRemove(filepath.Join(root, c.cfgDir(), "gen"))
			} else if q.Out != r.Out {
				return bad("%s does not print what compile prints: %s%s", cmd, q, show())
			}
			if d := diffSnap(before, snapshot(root)); d != "" {
				return bad("%s changes files although the files do not compile: %s%s%s", cmd, q, d, show())
			}
		}
	} else if len(byDir) > 1 {
		x.NonTrivial()
	}
	return nil
}

var reDigits = regexp.MustCompile(`"[^"]*"|[0-9]+`)

func failClass(msg string) string {
	if strings.HasPrefix(msg, "File recursively") {
		return "File recursively imports itself"
	}
	s := reDigits.ReplaceAllString(msg, "_")
	if len(s) > 50 {
		s = s[:50]
	}
	return s
}

// ---- a scripted protoc

type scriptLine struct {
	Kind int
	File int
	Line int
	Col  int
	Msg  string
}

type scriptDir struct {
	Dir   string
	Files []string
	Lines []scriptLine
	Code  int
	End   string // of the output
}

type scriptCase struct {
	Dirs   []scriptDir
	Unused bool
	Target string
	How    int
	Cmd    string
	Set    bool // allow_unused_imports is configured
}

var scriptMsgs = []string{`"x.y.Z" is not defined.`, `Expected ";".`, `a: b`, `Error while parsing option value for "x": Message type "y" has no field named "z".`,
	`note 10:20: something`, `The JSON camel-case name of field "foo_bar" conflicts with field "fooBar". This is not allowed in proto3.`, `Explicit default values are not allowed in proto3.`,
	`"p.A" seems to be defined in "a/b.proto", which is not imported by "c.proto".  To use it here, please add the necessary import.`, `The first enum value must be zero in proto3.`, `x`, `a:b:c`, `No such file.`, `é: ü`,
	`Import "a.proto" was listed twice.`, `"50%d" %s \n`, `warning: something else`, `Import "x.proto" was not found or had errors.`}

func genScript(t *rapid.T) *scriptCase {
	c := &scriptCase{Unused: bits(t, 1, "allow") == 0, How: bits(t, 3, "how"),
		Cmd: sample(t, []string{"compile", "compile", "lint", "format -l", "descriptor-set", "generate", "all", "x inspect packages"}, "command")}
	ds := []string{"", "a", "a/b", "c", "d e"}
	seen := map[string]bool{}
	for i := 1 + bits(t, 2, "dirs"); i > 0; i-- {
		d := scriptDir{Dir: sample(t, ds, "dir")}
		if seen[d.Dir] {
			continue
		}
		seen[d.Dir] = true
		for j := 0; j <= bits(t, 1, "files"); j++ {
			d.Files = append(d.Files, filepath.Join(d.Dir, fmt.Sprintf("f%d.proto", j)))
		}
		for j := sample(t, []int{0, 0, 0, 1, 1, 2, 3, 6}, "lines"); j > 0; j-- {
			d.Lines = append(d.Lines, scriptLine{Kind: bits(t, 4, "line kind"), File: bits(t, 3, "line file"),
				Line: sample(t, []int{1, 2, 10, 99, 100000}, "line"), Col: sample(t, []int{1, 3, 20}, "column"), Msg: sample(t, scriptMsgs, "message")})
		}
		if bits(t, 1, "fails") == 0 {
			d.Code = sample(t, []int{1, 1, 2, 127, 126, 255, 1000, 1001}, "exit code")
		}
		d.End = sample(t, []string{"\n", "", "\n\n", "\r\n", "  \n"}, "end")
		c.Dirs = append(c.Dirs, d)
	}
	sort.Slice(c.Dirs, func(i, j int) bool { return c.Dirs[i].Dir < c.Dirs[j].Dir })
	c.Target = sample(t, []string{"", "", "", "a", "c"}, "target")
	return c
}

const scriptProtoc = `#!/bin/sh
for a in "$@"; do case "$a" in *.proto) d=${a%/*};; esac; done
cat "$d/.stderr" >&2
read c <"$d/.code"
case "$c" in
1000) kill -SEGV $$;;
1001) kill -TERM $$;;
esac
exit "$c"
`

func runScript(x *Ctx, c *scriptCase) error {
	root := filepath.Join(x.Dir, "r")
	var all []string
	for _, d := range c.Dirs {
		all = append(all, d.Files...)
	}
	files := map[string]string{"prototool.yaml": yamlOf(M{"protoc": M{"allow_unused_imports": c.Unused}, "lint": M{"group": "empty"}})}
	var want []string
	fail, any := false, false
	for _, d := range c.Dirs {
		var out []string
		for _, l := range d.Lines {
			name := append(all, "nope/x.proto", "y.proto")[l.File%(len(all)+2)]
			text, f := "", protocFail{File: name, Line: l.Line, Col: l.Col, Msg: l.Msg}
			switch l.Kind {
			case 0:
				text = fmt.Sprintf("%s:%d:%d: warning: Import %s is unused.", name, l.Line, l.Col, "a/b.proto")
			case 1:
				text = fmt.Sprintf("%s:%d:%d: warning: Import %s is unused.", name, l.Line, l.Col, "google/protobuf/any.proto")
			case 2:
				text = ""
			case 3:
				text = "   "
			case 4:
				text = name + ": " + l.Msg
				if strings.HasPrefix(l.Msg, "warning") || strings.Contains(l.Msg, ":") || strings.HasPrefix(l.Msg, "Import") {
					text = name + ": plain."
				}
			case 5:
				text = name + ": File not found."
			case 6:
				text = fmt.Sprintf("%s:%d:%d: File recursively imports itself: %s -> b.proto -> %s", name, l.Line, l.Col, name, name)
			case 7:
				text = "[libprotobuf WARNING google/protobuf/compiler/parser.cc:646] No syntax specified for the proto file: " + name + ". Please use 'syntax = \"proto2\";' or 'syntax = \"proto3\";' to specify a syntax version. (Defaulted to proto2 syntax.)"
			case 8:
				text = "some words nobody expects"
			case 9:
				text = "/no/such/dir: warning: directory does not exist."
			default:
				text = fmt.Sprintf("%s:%d:%d: %s", name, f.Line, f.Col, f.Msg)
			}
			out = append(out, text)
		}
		files[filepath.Join(d.Dir, ".stderr")] = strings.Join(out, "\n") + d.End
		files[filepath.Join(d.Dir, ".code")] = strconv.Itoa(d.Code) + "\n"
		for i, p := range d.Files {
			files[p] = protoBody("p", fmt.Sprintf("M%d", i), 0)
		}
		if !within(d.Dir, c.Target) {
			continue
		}
		any = true
		fs := readProtoc(strings.Join(out, "\n"), c.Unused)
		for _, f := range fs {
			want = append(want, f.shown(root, "", []string{"/usr/include", root}))
		}
		fail = fail || d.Code != 0 || len(fs) > 0
	}
	if !any {
		return nil
	}
	writeFiles(root, files)
	script := filepath.Join(x.Dir, "protoc")
	writeFiles(x.Dir, map[string]string{"protoc": scriptProtoc})
	must(os.Chmod(script, 0755))
	env := append(x.baseEnv(), "PROTOTOOL_PROTOC_BIN_PATH="+script, "PROTOTOOL_PROTOC_WKT_PATH=/usr/include")
	before := snapshot(root)
	r := x.PTEnv(root, env, nil, append(strings.Fields(c.Cmd), spell(root, "", c.Target, c.How))...)
	show := func() string { return "\n" + r.String() + "\n" + yamlOf(c.Dirs) }
	if fail != (r.Code != 0) && c.Cmd == "compile" {
		return bad("protoc rejects: %v, compile exits %d%s", fail, r.Code, show())
	}
	if fail && r.Code == 0 {
		return bad("protoc fails and %s goes on%s", c.Cmd, show())
	}
	if len(want) > 0 && sorted(lines(r.Out)) != sorted(want) {
		// a protoc that fails without a word in another directory is an error
		silent := false
		for _, d := range c.Dirs {
			silent = silent || within(d.Dir, c.Target) && d.Code != 0
		}
		if !silent || strings.Contains(r.Out, ":1:1:") {
			return bad("%s prints\n%s\nwant\n%s%s", c.Cmd, r.Out, strings.Join(want, "\n"), show())
		}
		x.Label("silent failure")
	}
	if fail && diffSnap(before, snapshot(root)) != "" {
		return bad("%s changes files although protoc fails: %s%s", c.Cmd, diffSnap(before, snapshot(root)), show())
	}
	if !fail && c.Cmd == "compile" && r.Out+r.Err != "" {
		return bad("compile succeeds and prints something%s", show())
	}
	x.Label("%s fails %v", c.Cmd, fail)
	if fail {
		x.NonTrivial()
	}
	return nil
}

// ---- signals

type signalCase struct {
	Cmd   string
	Int   bool
	Dirs  int
	Delay int
	Slow  []bool
}

func genSignal(t *rapid.T) *signalCase {
	c := &signalCase{Cmd: sample(t, []string{"compile", "lint", "format -w", "format -l", "generate", "all", "descriptor-set", "x inspect packages", "break descriptor-set"}, "command"),
		Int: rapid.Bool().Draw(t, "int"), Dirs: 1 + bits(t, 2, "dirs"), Delay: bits(t, 3, "delay")}
	for i := 0; i < c.Dirs; i++ {
		c.Slow = append(c.Slow, i == 0 || bits(t, 1, "slow") == 0)
	}
	return c
}

const slowProtoc = `#!/bin/sh
for a in "$@"; do case "$a" in *.proto) d=${a%/*};; esac; done
if [ -e "$d/.slow" ]; then : >"$d/.started"; exec sleep 20; fi
exec /usr/bin/protoc "$@"
`

func runSignal(x *Ctx, c *signalCase) error {
	root := filepath.Join(x.Dir, "r")
	files := map[string]string{"prototool.yaml": "lint:\n  group: empty\n"}
	slow := 0
	for i := 0; i < c.Dirs; i++ {
		d := fmt.Sprintf("d%d", i)
		files[d+"/a.proto"] = protoBody("p", fmt.Sprintf("M%d", i), 1)
		if c.Slow[i] {
			files[d+"/.slow"] = ""
			slow++
		}
	}
	writeFiles(root, files)
	writeFiles(x.Dir, map[string]string{"protoc": slowProtoc})
	must(os.Chmod(filepath.Join(x.Dir, "protoc"), 0755))
	args := append(strings.Fields(c.Cmd), ".")
	if c.Cmd == "break descriptor-set" {
		args = append(args, "-o", filepath.Join(x.Dir, "out"))
	}
	cmd := exec.Command(x.Bin, args...)
	cmd.Dir = root
	cmd.Env = append(x.baseEnv(), "PROTOTOOL_PROTOC_BIN_PATH="+filepath.Join(x.Dir, "protoc"), "PROTOTOOL_PROTOC_WKT_PATH=/usr/include")
	var out strings.Builder
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	must(cmd.Start())
	defer syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	deadline := time.Now().Add(60 * time.Second)
	for {
		n := 0
		for i := range c.Slow {
			if _, err := os.Stat(filepath.Join(root, fmt.Sprintf("d%d/.started", i))); err == nil {
				n++
			}
		}
		// with few processors the directories are compiled one after another
		if n == slow || n > 0 && c.Delay > 4 {
			break
		}
		if time.Now().After(deadline) {
			if n > 0 {
				break
			}
			infra("the slow protoc was not started")
		}
		time.Sleep(2 * time.Millisecond)
	}
	time.Sleep(time.Duration(c.Delay) * time.Millisecond)
	before := snapshot(root)
	sig := syscall.SIGTERM
	if c.Int {
		sig = syscall.SIGINT
	}
	must(cmd.Process.Signal(sig))
	select {
	case err := <-done:
		if err == nil {
			return bad("%s exits 0 although %v ended protoc: %s", c.Cmd, sig, out.String())
		}
	case <-time.After(120 * time.Second):
		infra("%s did not end after %v", c.Cmd, sig)
	}
	after := snapshot(root)
	for i := range c.Slow {
		delete(after, fmt.Sprintf("d%d/.started", i))
		delete(before, fmt.Sprintf("d%d/.started", i))
	}
	if d := diffSnap(before, after); d != "" {
		return bad("%s changes files although %v ended protoc: %s", c.Cmd, sig, d)
	}
	x.Label("%s", c.Cmd)
	x.NonTrivial()
	return nil
}

func init() {
	prop("C17", "differential", "workspaces with faults and include paths compiled by protoc itself and by prototool, a scripted protoc, and signals; non-trivial: protoc rejects the files, or accepts several directories",
		newPart("protoc", 2400, 24000, genCompile, runCompile),
		newPart("scripted protoc", 1600, 20000, genScript, runScript),
		newPart("signals", 48, 600, genSignal, runSignal))
}
