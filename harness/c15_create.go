package main

import (
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"

	descpb "github.com/golang/protobuf/protoc-gen-go/descriptor"
)

type createConfig struct {
	Dir    string
	JSON   bool
	Group  string
	Header headerCfg
	Prefix string
	Rules  int // rules added or removed that do not matter here
	Maps   []createMap
}

type createMap struct {
	Dir string // relative to the tree
	How int
	Pkg string
}

type createFile struct {
	Path  string
	How   int
	Empty bool // exists already, without content
}

type createCase struct {
	Configs []createConfig
	Data    bool // the first configuration is given with --config-data
	Files   []createFile
	Pkg     string
	Work    string
}

var createDirs = []string{"", "a", "ab", "a/b", "a/bc", "a/b/v1", "foo", "foo/v1", "foo/v1beta1", "foo/v10", "foo_x", "foo_x/v2", "idl/uber", "idl/uber/trip/v3", "idl/uberx", "x1/y2", "gpb/v1", "v1", "foo/trip/v2beta12", "Foo/Bar"}

func genCreate(t *rapid.T) *createCase {
	c := &createCase{}
	dirs := []string{"", "a", "a/b", "foo", "idl", "idl/uber", "x1"}
	for i := sample(t, []int{0, 1, 1, 1, 1, 2}, "configs"); i > 0; i-- {
		k := createConfig{Dir: sample(t, dirs, "config dir"), JSON: rapid.Bool().Draw(t, "json"),
			Group:  sample(t, []string{"", "uber1", "uber2", "uber2", "uber2", "google", "empty", "UBER2"}, "group"),
			Header: genHeader(t), Prefix: sample(t, []string{"", "", "org", "com.acme.x"}, "prefix"), Rules: bits(t, 3, "rules")}
		if i == 1 && rapid.Bool().Draw(t, "at the top") {
			k.Dir = ""
		}
		if len(c.Configs) > 0 && c.Configs[0].Dir == k.Dir {
			continue
		}
		seen := map[string]bool{}
		for j := bits(t, 3, "mappings") % 5; j > 0; j-- {
			m := createMap{Dir: sample(t, createDirs, "mapped"), How: bits(t, 3, "mapping spelling"), Pkg: genPackage(t, "base")}
			if !seen[m.Dir] {
				seen[m.Dir] = true
				k.Maps = append(k.Maps, m)
			}
		}
		c.Configs = append(c.Configs, k)
	}
	seen := map[string]bool{}
	for i := 1 + bits(t, 2, "files"); i > 0; i-- {
		d := sample(t, createDirs, "dir")
		if bits(t, 2, "deeper") == 0 {
			for j := 1 + bits(t, 3, "levels"); j > 0; j-- {
				d = filepath.Join(d, sample(t, []string{"a", "b", "c1", "foo", "v1", "x_y", "foo"}, "level"))
			}
		}
		f := createFile{Path: filepath.Join(d, genBase(t, "base name")+".proto"), How: bits(t, 3, "how"), Empty: bits(t, 3, "empty") == 0}
		if !seen[strings.ToLower(f.Path)] {
			seen[strings.ToLower(f.Path)] = true
			c.Files = append(c.Files, f)
		}
	}
	if bits(t, 2, "package") == 0 {
		c.Pkg = genPackage(t, "package value")
	}
	c.Work = sample(t, []string{"", "", "a", "a/b", "foo", "idl/uber"}, "work")
	c.Data = bits(t, 2, "data") == 0 && len(c.Configs) > 0
	return c
}

func (c *createCase) governing(dir string) *createConfig {
	if c.Data {
		return &c.Configs[0]
	}
	for {
		for i := range c.Configs {
			if c.Configs[i].Dir == dir {
				return &c.Configs[i]
			}
		}
		if dir == "" {
			return nil
		}
		dir = dirOf(dir)
	}
}

func (c *createCase) pkgOf(p string) string {
	if c.Pkg != "" {
		return c.Pkg
	}
	dir := dirOf(p)
	k := c.governing(dir)
	def := "uber.prototool.generated"
	if k == nil {
		return def
	}
	if strings.EqualFold(k.Group, "uber2") {
		def += ".v1"
	}
	base, from, found := "", k.Dir, false
	for _, m := range k.Maps {
		if within(dir, m.Dir) && (!found || len(m.Dir) >= len(from)) {
			base, from, found = m.Pkg, m.Dir, true
		}
	}
	if !within(dir, from) {
		return def
	}
	rest := strings.Trim(strings.TrimPrefix(dir, from), "/")
	out := base
	for _, s := range strings.Split(rest, "/") {
		if s != "" {
			if out != "" {
				out += "."
			}
			out += s
		}
	}
	if out == "" {
		return def
	}
	return out
}

func (k *createConfig) text(root string, maps bool, files map[string]string) M {
	lint := M{}
	if k.Group != "" {
		lint["group"] = k.Group
	}
	if k.Prefix != "" {
		lint["java_package_prefix"] = k.Prefix
	}
	k.Header.apply(lint, files)
	m := M{"lint": lint}
	rules := M{}
	if k.Rules&3 == 3 {
		rules["add"] = []string{"IMPORTS_NOT_WEAK"}
	}
	if k.Rules > 3 {
		rules["remove"] = []string{"RPCS_HAVE_COMMENTS"}
	}
	if len(rules) > 0 {
		lint["rules"] = rules
	}
	if maps && len(k.Maps) > 0 {
		var ms []M
		for _, e := range k.Maps {
			rel, err := filepath.Rel(filepath.Join(root, k.Dir), filepath.Join(root, e.Dir))
			must(err)
			d := ignorePath{Path: rel, How: e.How}
			if d.How == 1 || d.How == 6 {
				d.How = 0 // must be relative
			}
			ms = append(ms, M{"directory": d.text(filepath.Join(root, k.Dir)), "name": e.Pkg})
		}
		m["create"] = M{"packages": ms}
	}
	return m
}

func runCreate(x *Ctx, c *createCase) error {
	root := filepath.Join(x.Dir, "top")
	if c.Data {
		c.Configs[0].Dir = c.Work
	}
	for _, d := range append([]string{c.Work}, createDirs...) {
		must(os.MkdirAll(filepath.Join(root, d), 0755))
	}
	var data string
	for i, k := range c.Configs {
		if i > 0 && k.Dir == c.Configs[0].Dir {
			continue
		}
		files := map[string]string{}
		text := k.text(root, true, files)
		for p, s := range files {
			writeFiles(filepath.Join(root, k.Dir), map[string]string{p: s})
		}
		switch {
		case i == 0 && c.Data:
			data = jsonOf(text)
		case k.JSON:
			writeFiles(filepath.Join(root, k.Dir), map[string]string{"prototool.json": jsonOf(text)})
		default:
			writeFiles(filepath.Join(root, k.Dir), map[string]string{"prototool.yaml": yamlOf(text)})
		}
	}
	args := []string{"create"}
	if c.Pkg != "" {
		args = append(args, "--package", c.Pkg)
	}
	if c.Data {
		args = append(args, "--config-data", data)
	}
	for _, f := range c.Files {
		must(os.MkdirAll(filepath.Join(root, dirOf(f.Path)), 0755))
		if f.Empty {
			writeFiles(root, map[string]string{f.Path: ""})
		}
		args = append(args, spell(root, c.Work, f.Path, f.How))
	}
	r := x.PT(filepath.Join(root, c.Work), args...)
	show := func() string { return "\nconfigurations:\n" + yamlOf(c.Configs) }
	if r.Code != 0 || r.Out+r.Err != "" {
		return bad("create fails or prints something: %s%s", r, show())
	}
	for _, f := range c.Files {
		b, err := os.ReadFile(filepath.Join(root, f.Path))
		if err != nil {
			return bad("%s was not created: %s%s", f.Path, r, show())
		}
		// The created file lacks its final line end, a known finding that the
		// part "known" shows.
		text := string(b) + "\n"
		if strings.HasSuffix(string(b), "\n") {
			text = string(b)
		}
		show := func() string { return "\nin " + f.Path + ":\n" + text + show() }
		k := c.governing(dirOf(f.Path))
		if k == nil {
			k = &createConfig{}
		}
		pkg := c.pkgOf(f.Path)
		v2 := strings.EqualFold(k.Group, "uber2")
		if h := k.Header.want(); h != "" && !strings.HasPrefix(text, h+"\n\n") {
			return bad("the created file does not begin with the header and an empty line%s", show())
		}
		if h := k.Header.want(); h == "" && !strings.HasPrefix(text, "syntax = \"proto3\";\n") {
			return bad("the created file does not begin with the syntax%s", show())
		}
		iso := filepath.Join(x.Dir, "iso")
		forceRemove(iso)
		files := map[string]string{}
		cfg := k.text(root, false, files)
		// Which package a location has is not up to create; java_package_prefix
		// contradicts the rule of uber1 on purpose.
		var drop []string
		for id := range groupRules("uber2") {
			if strings.HasPrefix(id, "PACKAGE_") {
				drop = append(drop, id)
			}
		}
		drop = append(drop, "PACKAGE_LOWER_SNAKE_CASE", "FILE_NAMES_LOWER_SNAKE_CASE")
		if k.Prefix != "" {
			drop = append(drop, "FILE_OPTIONS_EQUAL_JAVA_PACKAGE_COM_PREFIX")
		}
		if strings.HasPrefix(text, "/*") {
			drop = append(drop, "COMMENTS_NO_C_STYLE")
		}
		keepPkg := []string{"PACKAGE_IS_DECLARED"}
		if _, _, _, ok := version(pkg); ok && pkg == strings.ToLower(pkg) && !strings.Contains(pkg, "_") {
			keepPkg = append(keepPkg, "PACKAGE_LOWER_CASE", "PACKAGE_MAJOR_BETA_VERSIONED", "PACKAGE_LOWER_SNAKE_CASE")
			x.Label("versioned package %v", v2)
		}
		var rm []string
		for _, id := range drop {
			if !contains(keepPkg, id) {
				rm = append(rm, id)
			}
		}
		cfg["lint"].(M)["rules"] = M{"remove": rm}
		files["prototool.yaml"] = yamlOf(cfg)
		files[f.Path] = text
		writeFiles(iso, files)
		set, pr := x.protocPer(iso, []string{f.Path})
		if set == nil {
			return bad("the created file does not compile: %s%s", pr, show())
		}
		d := set[f.Path]
		if d.GetPackage() != pkg || d.GetSyntax() != "proto3" {
			return bad("the package is %q, want %q (syntax %s)%s", d.GetPackage(), pkg, d.GetSyntax(), show())
		}
		want := managed(v2, pkg, f.Path, k.Prefix)
		got := managedValues(d.Options)
		if jsonOf(want) != jsonOf(got) {
			return bad("file options are %s, want %s%s", jsonOf(got), jsonOf(want), show())
		}
		if o := d.Options; o != nil {
			clearManaged(o, true)
			d.Options = nil
			if o.String() != "" {
				return bad("more options than the managed ones: %s%s", o, show())
			}
		}
		d.Package, d.Syntax, d.Name = nil, nil, nil
		if s, ok := sameDesc(&descpb.FileDescriptorProto{}, d); !ok {
			return bad("the created file declares something: %s%s", s, show())
		}
		if r := x.PT(iso, "format", "--fix", "-d", f.Path); r.Code != 0 || r.Out != "" {
			return bad("format --fix would change the created file: %s%s", r, show())
		}
		if r := x.PT(iso, "lint", f.Path); r.Code != 0 || r.Out != "" {
			return bad("the created file does not pass lint: %s%s", r, show())
		}
		// plain format may lay out the comments of the header its own way
		rest := text[strings.Index(text, "syntax = \"proto3\""):]
		writeFiles(iso, map[string]string{f.Path: rest})
		if r := x.PT(iso, "format", "-d", f.Path); r.Code != 0 || r.Out != "" {
			return bad("the created file is not formatted: %s%s", r, show())
		}
		x.Label("group %q header %q", k.Group, k.Header.Kind)
		x.Label("default package %v", strings.HasPrefix(pkg, "uber.prototool"))
	}
	if len(c.Configs) > 0 {
		x.NonTrivial()
	}
	return nil
}

// ---- C16

type createArg struct {
	Kind string
	Path string
	How  int
}

type overwriteCase struct {
	Args   []createArg
	Config bool
}

var argKinds = []string{"new", "empty", "new", "new", "empty", "new", "content", "directory", "no parent", "parent is a file", "repeated", "repeated", "repeated, other spelling", "link to content", "broken configuration", "space only", "link to itself", "empty argument"}

func genOverwrite(t *rapid.T) *overwriteCase {
	c := &overwriteCase{Config: rapid.Bool().Draw(t, "config")}
	for i := 1 + bits(t, 3, "args")%6; i > 0; i-- {
		a := createArg{Kind: sample(t, argKinds, "kind"), How: bits(t, 3, "how")}
		if rapid.IntRange(0, 1).Draw(t, "good") == 0 {
			a.Kind = sample(t, []string{"new", "empty"}, "good kind")
		}
		a.Path = filepath.Join(sample(t, []string{"", "a", "a/b", "c"}, "dir"), msgNameFor(len(c.Args))+".proto")
		c.Args = append(c.Args, a)
	}
	if len(c.Args) > 1 {
		c.Args = rapid.Permutation(c.Args).Draw(t, "order")
	}
	return c
}

func runOverwrite(x *Ctx, c *overwriteCase) error {
	root := filepath.Join(x.Dir, "top")
	for _, d := range []string{"a/b", "c", "bad"} {
		must(os.MkdirAll(filepath.Join(root, d), 0755))
	}
	if c.Config {
		writeFiles(root, map[string]string{"prototool.yaml": "lint:\n  group: uber2\n"})
	}
	writeFiles(root, map[string]string{"bad/prototool.yaml": "nonsense: true\n", "outside.txt": "content"})
	usable, repeated := true, false
	var args, make []string
	for i, a := range c.Args {
		p := a.Path
		full := filepath.Join(root, p)
		text := ""
		switch a.Kind {
		case "new":
			make = append(make, p)
		case "empty":
			writeFiles(root, map[string]string{p: ""})
			make = append(make, p)
		case "content":
			usable = false
			writeFiles(root, map[string]string{p: "syntax = \"proto3\";\n"})
		case "space only":
			usable = false
			writeFiles(root, map[string]string{p: "\n"})
		case "directory":
			usable = false
			must(os.MkdirAll(full, 0755))
		case "no parent":
			usable = false
			p = "none/" + p
		case "parent is a file":
			usable = false
			p = "outside.txt/x.proto"
		case "repeated", "repeated, other spelling":
			// repeats another good argument
			other := ""
			for j, b := range c.Args {
				if j != i && (b.Kind == "new" || b.Kind == "empty") {
					other = b.Path
				}
			}
			if other == "" {
				make = append(make, p)
				break
			}
			// created once; refusing it is as good
			repeated = true
			p = other
			if a.Kind != "repeated" {
				text = filepath.Join(root, p)
				if a.How%2 == 0 {
					text = "./" + p
				}
			}
		case "link to content":
			usable = false
			must(os.Symlink(filepath.Join(root, "outside.txt"), full))
		case "link to itself":
			usable = false
			must(os.Symlink(full, full))
		case "broken configuration":
			usable = false
			p = "bad/" + filepath.Base(p)
		case "empty argument":
			usable = false
			args = append(args, "")
			continue
		}
		if text == "" {
			text = spell(root, "", p, a.How%7)
			if a.Kind == "repeated" {
				text = p
			}
		}
		args = append(args, text)
	}
	before := snapshot(root)
	r := x.PT(root, append([]string{"create"}, args...)...)
	after := snapshot(root)
	if !usable {
		if r.Code == 0 {
			return bad("an unusable argument is accepted: %s\n%s\n%s", r, yamlOf(c.Args), diffSnap(before, after))
		}
		if d := diffSnap(before, after); d != "" {
			return bad("create changes files although an argument is unusable: %s\n%s\n%s", r, d, yamlOf(c.Args))
		}
		x.Label("unusable")
		x.NonTrivial()
		return nil
	}
	if repeated && r.Code != 0 && diffSnap(before, after) == "" {
		return nil
	}
	if r.Code != 0 {
		return bad("create fails: %s\n%s", r, yamlOf(c.Args))
	}
	for _, p := range make {
		if s := after[p]; !strings.Contains(s, "syntax = \"proto3\";") {
			return bad("%s was not created: %s\n%s", p, r, yamlOf(c.Args))
		}
		delete(after, p)
		delete(before, p)
	}
	if d := diffSnap(before, after); d != "" {
		return bad("create changes other files: %s\n%s\n%s", r, d, yamlOf(c.Args))
	}
	// again: everything has content now
	before = snapshot(root)
	if r := x.PT(root, append([]string{"create"}, args...)...); r.Code == 0 || diffSnap(before, snapshot(root)) != "" {
		return bad("create overwrites the files it made: %s\n%s", r, diffSnap(before, snapshot(root)))
	}
	x.Label("created %d", len(make))
	if len(make) > 1 {
		x.NonTrivial()
	}
	return nil
}

func init() {
	prop("C15", "model", "1-4 files created under generated configurations, mappings, headers, prefixes and packages; non-trivial: there is a configuration",
		newPart("known", 0, 0, genCreate, func(x *Ctx, c *createCase) error {
			r := x.PT(x.Dir, "create", "a.proto")
			if s := readFile(filepath.Join(x.Dir, "a.proto")); r.Code == 0 && !strings.HasSuffix(s, ";\n") {
				return badKey("no-final-newline", "create leaves out the final line end, so that format changes the file it made: %q", s)
			}
			return nil
		}),
		newPart("create", 1200, 12000, genCreate, runCreate))
	prop("C16", "model", "argument lists of create mixing usable and unusable paths in any order; non-trivial: an argument is unusable, or two files are created",
		newPart("arguments", 7000, 30000, genOverwrite, runOverwrite))
}
