package main

import (
	"path/filepath"
	"sort"
	"strings"

	"github.com/golang/protobuf/proto"
	descpb "github.com/golang/protobuf/protoc-gen-go/descriptor"
	"pgregory.net/rapid"
)

type headerCfg struct {
	Kind      string // "", content, path
	Text      string
	Commented bool
}

// want is the header text files must begin with.
func (h *headerCfg) want() string {
	if h.Kind == "" {
		return ""
	}
	var out []string
	for _, l := range strings.Split(strings.TrimSpace(h.Text), "\n") {
		l = strings.TrimSpace(l)
		if !h.Commented {
			l = strings.TrimSpace("// " + l)
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n")
}

func (h *headerCfg) apply(lint M, files map[string]string) {
	switch h.Kind {
	case "content":
		lint["file_header"] = M{"content": h.Text, "is_commented": h.Commented}
	case "path":
		lint["file_header"] = M{"path": "etc/header.txt", "is_commented": h.Commented}
		files["etc/header.txt"] = h.Text
	}
}

func genHeader(t *rapid.T) headerCfg {
	h := headerCfg{Kind: sample(t, []string{"", "content", "path"}, "header kind")}
	if h.Kind == "" {
		return h
	}
	h.Commented = rapid.Bool().Draw(t, "commented")
	line := rapid.SampledFrom([]string{"Copyright 2020", "  indented", "line with %d and \\", "x", "trailing  ", "é", "# tag", "a \"quoted\" line"})
	n := rapid.IntRange(1, 4).Draw(t, "header lines")
	var ls []string
	for i := 0; i < n; i++ {
		l := line.Draw(t, "line")
		if i > 0 && rapid.IntRange(0, 4).Draw(t, "blank") == 0 {
			l = ""
		}
		if h.Commented && l != "" {
			l = "//" + l
		}
		ls = append(ls, l)
	}
	h.Text = strings.Join(ls, "\n")
	if h.Commented && rapid.IntRange(0, 3).Draw(t, "block header") == 0 {
		h.Text = "/*\n * Copyright\n *\n * x\n */"
	}
	switch rapid.IntRange(0, 3).Draw(t, "header end") {
	case 0:
		h.Text += "\n"
	case 1:
		h.Text = "\n" + h.Text + "\n\n"
	}
	if h.Kind == "path" && rapid.IntRange(0, 5).Draw(t, "crlf") == 0 {
		h.Text = strings.ReplaceAll(h.Text, "\n", "\r\n")
	}
	return h
}

type fixCase struct {
	W      *Workspace
	Group  string // lint group as written, "" for none
	Header headerCfg
	Prefix string
	Layout uint64
	Prior  bool // a file carries the header already
	Args   []string
}

func genFix(t *rapid.T) *fixCase {
	c := &fixCase{}
	cfg := genCfg{MinFiles: 1, MaxFiles: 3, MaxElems: 3, MaxBody: 3, MaxDepth: 1, Options: true, CustomOpts: true, Services: true,
		Extends: true, FileOpts: true, WKT: true, Merge: true, NoPackage: true, WildNames: true}
	if rapid.IntRange(0, 2).Draw(t, "comments?") > 0 {
		cfg.Comments = 20
	}
	for i := rapid.IntRange(1, 3).Draw(t, "npkgs"); i > 0; i-- {
		cfg.Pkgs = append(cfg.Pkgs, genPackage(t, "pkg"))
	}
	if rapid.IntRange(0, 4).Draw(t, "no package") == 0 {
		cfg.Pkgs = append(cfg.Pkgs, "")
	}
	for i := 0; i < 3; i++ {
		cfg.Names = append(cfg.Names, genBase(t, "base"))
	}
	cfg.PkgDirs = rapid.Bool().Draw(t, "pkgdirs")
	c.Group = sample(t, []string{"uber2", "uber1", "", "google", "empty", "UBER2", "Uber1"}, "group")
	c.Header = genHeader(t)
	c.Prefix = sample(t, []string{"", "", "org", "com.acme.x", "Com.Acme"}, "prefix")
	c.W = genWorkspace(t, cfg)
	v2 := strings.EqualFold(c.Group, "uber2")
	for _, f := range c.W.Files {
		// prior state of the managed options
		var opts []Opt
		for _, o := range f.Opts {
			keep := true
			for _, n := range managedNames {
				keep = keep && n != o.Name
			}
			if keep {
				opts = append(opts, o)
			}
		}
		for _, n := range managedNames {
			val := ""
			switch rapid.IntRange(0, 3).Draw(t, "prior "+n) {
			case 0:
				if f.Pkg != "" {
					val = managed(v2, f.Pkg, f.Path, c.Prefix)[n]
				}
			case 1:
				val = sample(t, []string{"old", "x.y", "a/b;c", "Foo", ""}, "old value")
				if n == "java_multiple_files" {
					val = sample(t, []string{"true", "false"}, "old bool")
				}
				if val == "" {
					opts = append(opts, Opt{Name: n, Val: []string{`""`}})
				}
			}
			if val != "" {
				if n != "java_multiple_files" {
					val = `"` + strings.ReplaceAll(val, `\`, `\\`) + `"`
				}
				opts = append(opts, Opt{Name: n, Val: []string{val}})
			}
		}
		f.Opts = opts
		if h := c.Header.want(); h != "" && rapid.IntRange(0, 3).Draw(t, "prior header") == 0 && !strings.HasPrefix(h, "/*") {
			f.Head = nil
			f.SynCom = Com{}
			for _, l := range strings.Split(h, "\n") {
				f.Head = append(f.Head, strings.TrimPrefix(l, "//"))
			}
			if rapid.Bool().Draw(t, "attached header") {
				f.SynCom.Lead, f.Head = f.Head, nil
			}
		}
	}
	if rapid.Bool().Draw(t, "wild layout") {
		c.Layout = rapid.Uint64Range(1, 1<<20).Draw(t, "layout")
	}
	return c
}

func clearManaged(o *descpb.FileOptions, v2 bool) {
	if o == nil {
		return
	}
	o.GoPackage, o.JavaMultipleFiles, o.JavaOuterClassname, o.JavaPackage = nil, nil, nil, nil
	if v2 {
		o.CsharpNamespace, o.ObjcClassPrefix, o.PhpNamespace = nil, nil, nil
	}
}

func managedValues(o *descpb.FileOptions) map[string]string {
	out := map[string]string{}
	if o == nil {
		return out
	}
	add := func(n string, p *string) {
		if p != nil {
			out[n] = *p
		}
	}
	add("go_package", o.GoPackage)
	add("java_outer_classname", o.JavaOuterClassname)
	add("java_package", o.JavaPackage)
	add("csharp_namespace", o.CsharpNamespace)
	add("objc_class_prefix", o.ObjcClassPrefix)
	add("php_namespace", o.PhpNamespace)
	if o.JavaMultipleFiles != nil {
		out["java_multiple_files"] = map[bool]string{true: "true", false: "false"}[*o.JavaMultipleFiles]
	}
	return out
}

// sortedCommentLines of model comments.
func missing(want, got []string) string {
	n := map[string]int{}
	for _, g := range got {
		n[g]++
	}
	for _, w := range want {
		if n[w] == 0 {
			return w
		}
		n[w]--
	}
	return ""
}

func runC04(x *Ctx, c *fixCase) error {
	v2 := strings.EqualFold(c.Group, "uber2")
	src := map[string]string{}
	for _, f := range c.W.Files {
		src[f.Path] = layout(f.items(), c.Layout)
	}
	names := x.setup(src, "")
	rules := M{}
	if c.Group == "" || strings.EqualFold(c.Group, "google") || c.Group == "empty" {
		rules["add"] = []string{"FILE_HEADER", "FILE_OPTIONS_EQUAL_GO_PACKAGE_PB_SUFFIX", "FILE_OPTIONS_EQUAL_JAVA_MULTIPLE_FILES_TRUE",
			"FILE_OPTIONS_EQUAL_JAVA_OUTER_CLASSNAME_PROTO_SUFFIX", "FILE_OPTIONS_EQUAL_JAVA_PACKAGE_PREFIX", "FILE_OPTIONS_REQUIRE_GO_PACKAGE",
			"FILE_OPTIONS_REQUIRE_JAVA_MULTIPLE_FILES", "FILE_OPTIONS_REQUIRE_JAVA_OUTER_CLASSNAME", "FILE_OPTIONS_REQUIRE_JAVA_PACKAGE"}
	}
	lint := M{"rules": rules}
	if c.Group != "" {
		lint["group"] = c.Group
	}
	if c.Prefix != "" {
		lint["java_package_prefix"] = c.Prefix
	}
	extra := map[string]string{}
	c.Header.apply(lint, extra)
	extra["prototool.yaml"] = yamlOf(M{"protoc": M{"allow_unused_imports": true}, "lint": lint, "excludes": []string{"vopt"}})
	writeFiles(x.Dir, extra)
	header := c.Header.want()

	before, r := x.protocPer(x.Dir, names)
	if before == nil {
		x.Label("protoc rejects the generated source")
		return nil
	}
	fr := x.PT(x.Dir, "format", "--fix", "-w", ".")
	if fr.Code != 0 {
		return bad("format --fix -w fails: %s\n%s", fr, dumpFiles(x.Dir, names))
	}
	after, r := x.protocPer(x.Dir, names)
	if after == nil {
		return bad("fixed files do not compile: %s\n%s", r, dumpFiles(x.Dir, names))
	}
	fixed := map[string]string{}
	pkgsOfDir := map[string]map[string]bool{}
	for _, f := range c.W.Files {
		text := readFile(filepath.Join(x.Dir, f.Path))
		fixed[f.Path] = text
		d := filepath.Dir(f.Path)
		if pkgsOfDir[d] == nil {
			pkgsOfDir[d] = map[string]bool{}
		}
		pkgsOfDir[d][f.Pkg] = true
		show := func() string { return "\n--- before\n" + src[f.Path] + "\n--- fixed\n" + text }
		a := proto.Clone(after[f.Path]).(*descpb.FileDescriptorProto)
		b := proto.Clone(before[f.Path]).(*descpb.FileDescriptorProto)
		if f.Pkg != "" {
			got := managedValues(a.Options)
			for n, w := range managed(v2, f.Pkg, f.Path, c.Prefix) {
				if g, ok := got[n]; !ok || g != w {
					return bad("%s (package %s): option %s is %q after --fix, want %q%s", f.Path, f.Pkg, n, g, w, show())
				}
				if k := strings.Count(text, "option "+n+" ="); k != 1 {
					return bad("%s: %d declarations of %s%s", f.Path, k, n, show())
				}
			}
			if a.Options != nil {
				clearManaged(a.Options, v2)
			}
			if b.Options == nil {
				b.Options = &descpb.FileOptions{}
			}
			clearManaged(b.Options, v2)
			x.Label("package versioned=%v beta=%v", func() bool { _, _, _, ok := version(f.Pkg); return ok }(), isBeta(f.Pkg))
		} else {
			x.Label("no package")
		}
		if d, ok := sameDesc(b, a); !ok {
			return bad("%s: --fix changed more than the managed options: %s%s", f.Path, d, show())
		}
		if header != "" && !(text == header+"\n" || strings.HasPrefix(text, header+"\n\n")) {
			return bad("%s does not begin with the header %q and an empty line%s", f.Path, header, show())
		}
		// comments
		all := commentLines(src[f.Path])
		var want []string
		if header == "" {
			want = all
		} else {
			g := *f
			g.Head = nil
			g.SynCom.Det, g.SynCom.Lead = nil, nil
			want = commentLines(g.Print())
		}
		if m := missing(want, commentLines(text)); m != "" {
			return bad("%s: --fix lost the comment %q%s", f.Path, m, show())
		}
		if header != "" {
			body := strings.TrimPrefix(text, header)
			if m := missing(commentLines(body), want); m != "" {
				return bad("%s: --fix kept or invented the comment %q%s", f.Path, m, show())
			}
		}
		if text != src[f.Path] {
			x.NonTrivial()
		}
	}
	// again
	if l := x.PT(x.Dir, "format", "--fix", "-l", "."); l.Code != 0 || l.Out != "" {
		return bad("format --fix -l is not silent after format --fix -w: %s\n%s", l, dumpFiles(x.Dir, names))
	}
	if w := x.PT(x.Dir, "format", "--fix", "-w", "."); w.Code != 0 {
		return bad("second format --fix -w fails: %s", w)
	}
	for _, n := range names {
		if got := readFile(filepath.Join(x.Dir, n)); got != fixed[n] {
			return bad("%s: --fix is not idempotent\n--- once\n%s\n--- twice\n%s", n, fixed[n], got)
		}
	}
	// lint agrees
	lr := x.PT(x.Dir, "lint", "--error-format", "id:filename:message", ".")
	if lr.Code != 0 && lr.Out == "" {
		return bad("lint fails without output: %s", lr)
	}
	ls := lines(lr.Out)
	sort.Strings(ls)
	for _, l := range ls {
		p := strings.SplitN(l, ":", 3)
		if len(p) < 3 {
			return bad("unexpected lint line %q", l)
		}
		id, file := p[0], p[1]
		if id != "FILE_HEADER" && !strings.HasPrefix(id, "FILE_OPTIONS_") {
			continue
		}
		f := c.W.file(file)
		if f == nil {
			return bad("lint line for an unknown file: %q", l)
		}
		if strings.HasSuffix(id, "_SAME_IN_DIR") && len(pkgsOfDir[filepath.Dir(f.Path)]) > 1 {
			continue
		}
		if id != "FILE_HEADER" && f.Pkg == "" {
			continue
		}
		if id == "FILE_OPTIONS_EQUAL_JAVA_PACKAGE_COM_PREFIX" && c.Prefix != "" {
			continue
		}
		if strings.EqualFold(c.Group, "google") || c.Group == "empty" || c.Group == "" {
			if id == "FILE_OPTIONS_EQUAL_JAVA_PACKAGE_COM_PREFIX" && c.Prefix != "" {
				continue
			}
		}
		return bad("lint fails on a fixed file: %s\n%s", l, fixed[file])
	}
	x.Label("group %s", strings.ToLower(c.Group))
	if header != "" {
		x.Label("header %s", c.Header.Kind)
	}
	return nil
}

func init() {
	prop("C04", "exploration", "workspaces of 1-3 files over generated package names (versioned, near-versioned, mixed case, underscores), file names, prior option values, headers, java prefixes and lint groups; non-trivial: --fix changed at least one file",
		newPart("fix", 1600, 30000, genFix, runC04))
}
