package main

// C24: generated import graphs over packages split into files, against the
// graph between packages computed from the generator's own edges.

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

type insFile struct {
	Path    string // from the root of the workspace; "../lib/..." for the library
	Pkg     string
	Imports []int
	Kinds   []int // 0 plain, 1 public, 2 weak
	WKT     []int
	Used    bool
}

type insCase struct {
	Files    []insFile
	Lib      int // the first Lib files are in the library
	Excludes []string
	Unused   bool // allow_unused_imports
	JSON     bool
	Arg      string
	Work     string
	How      int
	NoArg    bool
	Ask      []string
	Fault    string
	FaultAt  int
}

var insPkgs = []string{"a", "b", "a.b", "a.b.v1", "a.v1", "ab", "c.v1beta1", "b.a", "a_b", "A", "google", "google.protobufs", "a.b.c", "z"}

func genInspect(t *rapid.T) *insCase {
	c := &insCase{}
	np := 1 + uniform(t, 6, "packages")
	var pkgs []string
	for i := 0; i < np; i++ {
		pkgs = append(pkgs, sample(t, insPkgs, "package"))
	}
	c.Lib = bits(t, 2, "library files")
	libPkg := pkgs
	if bits(t, 1, "own packages") == 1 {
		libPkg = []string{"lib", "lib.v1", "third.party"}
	}
	paths := genTreePaths(t, 1, 9)
	for i := 0; i < c.Lib; i++ {
		c.Files = append(c.Files, insFile{Path: fmt.Sprintf("../lib/%s/l%d.proto", sample(t, []string{"x", "y/z"}, "library directory"), i), Pkg: sample(t, libPkg, "package of file")})
	}
	// the order of the paths says nothing about the order of the imports
	rev := bits(t, 1, "reverse") == 1
	for i := range paths {
		p := paths[i]
		if rev {
			p = paths[len(paths)-1-i]
		}
		c.Files = append(c.Files, insFile{Path: p, Pkg: sample(t, pkgs, "package of file")})
	}
	for i := range c.Files {
		f := &c.Files[i]
		hi := i
		if i < c.Lib {
			hi = min(i, c.Lib)
		}
		seen := map[int]bool{}
		for k := bits(t, 2, "imports"); k > 0 && hi > 0; k-- {
			j := uniform(t, hi, "imported")
			if !seen[j] {
				seen[j] = true
				f.Imports = append(f.Imports, j)
				f.Kinds = append(f.Kinds, sample(t, []int{0, 0, 0, 1, 2}, "kind"))
			}
		}
		for k := bits(t, 2, "wkts") - 1; k > 0; k-- {
			w := uniform(t, len(wktNames), "wkt")
			if !seen[-1-w] {
				seen[-1-w] = true
				f.WKT = append(f.WKT, w)
			}
		}
		f.Used = bits(t, 2, "unused") < 3
	}
	c.Unused = true
	dirs := dirsOf(paths)
	if bits(t, 2, "exclude") == 3 {
		c.Excludes = append(c.Excludes, sample(t, append(append([]string{}, paths...), dirs[1:]...), "excluded"))
	}
	c.JSON = bits(t, 1, "json") == 1
	switch uniform(t, 4, "argument") {
	case 0:
		c.Arg = ""
	case 1, 2:
		c.Arg = sample(t, dirs, "argument directory")
	default:
		c.Arg = sample(t, paths, "argument file")
	}
	c.Work = sample(t, append([]string{"", ""}, dirs...), "working directory")
	c.How = uniform(t, 8, "spelling")
	c.NoArg = bits(t, 1, "no argument") == 1
	c.Ask = append(c.Ask, sample(t, append([]string{"nosuch", "a.", ".a", "google.protobuf", "b.a.c", "lib", "google.protobuf.compiler", "*", " "}, insPkgs...), "asked"))
	if bits(t, 3, "fault") == 7 {
		c.Fault = sample(t, []string{"syntax", "type", "unused", "no package", "missing import"}, "fault")
		c.FaultAt = uniform(t, 99, "where")
	}
	return c
}

func (c *insCase) importName(i int) string { return strings.TrimPrefix(c.Files[i].Path, "../lib/") }

// text is the source of file i; every file has one message named after it.
func (c *insCase) text(i int, fault string) string {
	f := c.Files[i]
	var b strings.Builder
	b.WriteString("syntax = \"proto3\";\n\n")
	if fault != "no package" {
		fmt.Fprintf(&b, "package %s;\n\n", f.Pkg)
	}
	use := []string{"int64"}
	var ext string
	for k, j := range f.Imports {
		fmt.Fprintf(&b, "import %s\"%s\";\n", []string{"", "public ", "weak "}[f.Kinds[k]], c.importName(j))
		use = append(use, "."+c.Files[j].Pkg+"."+msgNameFor(j))
	}
	for _, w := range f.WKT {
		fmt.Fprintf(&b, "import \"google/protobuf/%s.proto\";\n", wktNames[w])
		use = append(use, map[string]string{"any": ".google.protobuf.Any", "api": ".google.protobuf.Api", "compiler/plugin": ".google.protobuf.compiler.Version", "descriptor": ".google.protobuf.FileDescriptorSet", "duration": ".google.protobuf.Duration", "empty": ".google.protobuf.Empty", "field_mask": ".google.protobuf.FieldMask", "source_context": ".google.protobuf.SourceContext", "struct": ".google.protobuf.Value", "timestamp": ".google.protobuf.Timestamp", "type": ".google.protobuf.Type", "wrappers": ".google.protobuf.BoolValue"}[wktNames[w]])
	}
	switch fault {
	case "unused":
		// an import that nothing uses
		b.WriteString("import \"google/protobuf/field_mask.proto\";\n")
	case "missing import":
		b.WriteString("import \"no/such.proto\";\n")
	}
	if !f.Used && fault == "" {
		use = use[:1]
	}
	fmt.Fprintf(&b, "\nmessage %s {\n", msgNameFor(i))
	for k, u := range use {
		fmt.Fprintf(&b, "  %s f%d = %d;\n", u, k+1, k+1)
	}
	if fault == "type" {
		b.WriteString("  NoSuch no = 1000;\n")
	}
	b.WriteString("}\n" + ext)
	if fault == "syntax" {
		b.WriteString("message {\n")
	}
	return b.String()
}

func runInspect(x *Ctx, c *insCase) error {
	root := filepath.Join(x.Dir, "ws")
	files := map[string]string{}
	// which files are compiled
	dir := c.Arg
	if strings.HasSuffix(dir, ".proto") {
		dir = dirOf(dir)
	}
	if c.NoArg {
		dir = c.Work
	}
	var sel []int
	for i := c.Lib; i < len(c.Files); i++ {
		p := c.Files[i].Path
		ok := within(p, dir)
		for _, e := range c.Excludes {
			if within(p, e) {
				ok = false
			}
		}
		if ok {
			sel = append(sel, i)
		}
	}
	faulty := -1
	if c.Fault != "" && len(sel) > 0 {
		faulty = sel[c.FaultAt%len(sel)]
		if c.Fault == "unused" {
			c.Unused = false
			for i := range c.Files {
				c.Files[i].Used = true
				for _, w := range c.Files[i].WKT {
					if wktNames[w] == "field_mask" {
						faulty = -1
					}
				}
			}
			if faulty < 0 {
				return nil
			}
		}
	}
	for i, f := range c.Files {
		fault := ""
		if i == faulty {
			fault = c.Fault
		}
		files[f.Path] = c.text(i, fault)
	}
	protoc := M{"allow_unused_imports": c.Unused}
	if c.Lib > 0 {
		protoc["includes"] = []string{"../lib"}
	}
	cfg := M{"protoc": protoc}
	if len(c.Excludes) > 0 {
		cfg["excludes"] = c.Excludes
	}
	if c.JSON {
		files["prototool.json"] = jsonOf(cfg)
	} else {
		files["prototool.yaml"] = yamlOf(cfg)
	}
	writeFiles(root, files)
	work := filepath.Join(root, c.Work)
	var arg []string
	if !c.NoArg {
		arg = []string{spell(root, c.Work, c.Arg, c.How)}
	}
	before := snapshot(x.Dir)

	// the model
	in := map[int]bool{}
	wkt := map[string]bool{}
	var visit func(i int)
	visit = func(i int) {
		if in[i] {
			return
		}
		in[i] = true
		for _, j := range c.Files[i].Imports {
			visit(j)
		}
		for _, w := range c.Files[i].WKT {
			wkt[wktNames[w]] = true
		}
	}
	for _, i := range sel {
		visit(i)
	}
	deps := map[string]map[string]bool{}
	importers := map[string]map[string]bool{}
	pkg := func(p string) {
		if deps[p] == nil {
			deps[p], importers[p] = map[string]bool{}, map[string]bool{}
		}
	}
	edge := func(from, to string) {
		pkg(from)
		pkg(to)
		if from != to {
			deps[from][to] = true
			importers[to][from] = true
		}
	}
	wktPkg := func(w string) string {
		if w == "compiler/plugin" {
			return "google.protobuf.compiler"
		}
		return "google.protobuf"
	}
	for i := range in {
		f := c.Files[i]
		pkg(f.Pkg)
		for _, j := range f.Imports {
			edge(f.Pkg, c.Files[j].Pkg)
		}
		for _, w := range f.WKT {
			edge(f.Pkg, wktPkg(wktNames[w]))
		}
	}
	if wkt["compiler/plugin"] {
		edge("google.protobuf.compiler", "google.protobuf")
	}
	text := func(m map[string]bool) string {
		var b strings.Builder
		for _, k := range sortedKeys(m) {
			b.WriteString(k + "\n")
		}
		return b.String()
	}
	describe := func() string {
		return fmt.Sprintf("in %q, argument %q, compiled %v\n%s", c.Work, arg, sel, dumpFiles(root, sortedKeys(files)))
	}
	ask := func(cmd string, name string) *Result {
		a := append([]string{"x", "inspect", cmd}, arg...)
		if cmd != "packages" {
			a = append(a, "--name", name)
		}
		return x.PT(work, a...)
	}
	all := ask("packages", "")
	if faulty >= 0 {
		x.Label("refused %s", c.Fault)
		x.NonTrivial()
		name := c.Files[faulty].Pkg
		for _, r := range []*Result{all, ask("package-deps", name), ask("package-importers", name)} {
			if r.Code == 0 {
				return bad("%s on files that do not compile or have no package exits zero\n%s\n%s", strings.Join(r.Args, " "), r, describe())
			}
			for p := range deps {
				if contains(lines(r.Out), p) {
					return bad("prints packages although it fails\n%s\n%s", r, describe())
				}
			}
		}
		return nil
	}
	names := map[string]bool{}
	for p := range deps {
		names[p] = true
	}
	if all.Code != 0 && len(sel) > 0 || all.Out != text(names) {
		return bad("the packages are\n%swant\n%s%s\n%s", all.Out, text(names), all, describe())
	}
	order := sortedKeys(names)
	sort.SliceStable(order, func(i, j int) bool { return len(deps[order[i]]) > len(deps[order[j]]) })
	for k, p := range order {
		if k == 6 {
			break
		}
		if r := ask("package-deps", p); r.Code != 0 || r.Out != text(deps[p]) {
			return bad("the dependencies of %s are\n%swant\n%s%s\n%s", p, r.Out, text(deps[p]), r, describe())
		}
		if r := ask("package-importers", p); r.Code != 0 || r.Out != text(importers[p]) {
			return bad("the importers of %s are\n%swant\n%s%s\n%s", p, r.Out, text(importers[p]), r, describe())
		}
	}
	for _, p := range append(c.Ask, "") {
		if names[p] {
			continue
		}
		for _, cmd := range []string{"package-deps", "package-importers"} {
			r := ask(cmd, p)
			if r.Code == 0 {
				return bad("%s of the unknown package %q exits zero\n%s\n%s", cmd, p, r, describe())
			}
			if p != "" && !strings.Contains(r.Out+r.Err, p) {
				return bad("%s of the unknown package %q does not name it\n%s\n%s", cmd, p, r, describe())
			}
		}
	}
	if d := diffSnap(before, snapshot(x.Dir)); d != "" {
		return bad("inspect changes files: %s", d)
	}
	cyc := false
	for p := range deps {
		for q := range deps[p] {
			if deps[q][p] {
				cyc = true
			}
		}
	}
	x.Label("packages %d", len(names))
	x.Label("cycle %v", cyc)
	x.Label("imports from outside the compiled files %v", len(in) > len(sel))
	x.Label("argument %v", map[bool]string{true: "file", false: "directory"}[strings.HasSuffix(c.Arg, ".proto") && !c.NoArg])
	if len(names) > 1 {
		x.NonTrivial()
	}
	return nil
}

func init() {
	prop("C24", "model", "import graphs of 1-12 files in up to 6 packages with public and weak imports, cycles between packages, well-known types, a library outside, excludes, directory and file arguments, and files that do not compile; non-trivial: at least two packages, or a refusal",
		newPart("inspect", 900, 12000, genInspect, runInspect))
}
