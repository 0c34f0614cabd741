package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

type treeConfig struct {
	Dir      string
	JSON     bool
	Both     bool
	Empty    bool // zero bytes
	Tag      int
	Excludes []ignorePath
}

type filesCase struct {
	Files   []string
	Broken  []string // garbage, written only where it is not selected
	Noise   []string
	Linked  []string          // files that are symbolic links to one elsewhere
	Links   map[string]string // symbolic link -> target, relative to the root
	Configs []treeConfig
	Data    bool // the first configuration is given with --config-data for the working directory
	Work    string
	Target  string
	How     int
}

var fileDirs = append([]string{"d.proto", "a/b.proto", "foo.proto/x", "..", "a/...", ".hidden", "vendor", "vendor2", "a/vendor"}, treeDirs...)

func genFiles(t *rapid.T) *filesCase {
	c := &filesCase{}
	var dirs []string
	for i := 1 + bits(t, 3, "ndirs")%6; i > 0; i-- {
		d := sample(t, fileDirs, "dir")
		if d == ".." {
			d = ""
		}
		dirs = append(dirs, d)
	}
	seen := map[string]bool{}
	for i := bits(t, 4, "nfiles") % 10; i > 0; i-- {
		p := filepath.Join(sample(t, dirs, "in dir"), sample(t, treeNames, "name")+".proto")
		if !seen[p] && !contains(fileDirs, p) && p != "foo.proto" {
			seen[p] = true
			c.Files = append(c.Files, p)
			if rapid.IntRange(0, 3).Draw(t, "broken") == 0 {
				c.Broken = append(c.Broken, p)
			} else if bits(t, 3, "linked") == 1 {
				c.Linked = append(c.Linked, p)
			}
		}
	}
	sort.Strings(c.Files)
	for i := bits(t, 2, "noise"); i > 0; i-- {
		c.Noise = append(c.Noise, filepath.Join(sample(t, dirs, "noise dir"), sample(t, []string{"n.PROTO", "n.proto.orig", "n.proto~", "proto", "nproto", "n.protox", "n.prot", "prototool.yml", "prototool.yaml.bak"}, "noise name")))
	}
	all := dirsOf(append(append([]string{}, c.Files...), c.Noise...))
	spots := append([]string{"", ""}, all...)
	for i := sample(t, []int{0, 1, 1, 1, 1, 2, 2, 3}, "configs"); i > 0; i-- {
		tc := treeConfig{Dir: sample(t, spots, "config dir"), JSON: rapid.Bool().Draw(t, "json"), Both: rapid.IntRange(0, 9).Draw(t, "both") == 9}
		dup := false
		for _, o := range c.Configs {
			dup = dup || o.Dir == tc.Dir
		}
		if dup {
			continue
		}
		tc.Tag = len(c.Configs)
		tc.Empty = rapid.IntRange(0, 9).Draw(t, "empty") == 9
		var below []string
		for _, p := range append(append([]string{}, c.Files...), all...) {
			if within(p, tc.Dir) && p != tc.Dir {
				below = append(below, p)
			}
		}
		for j := bits(t, 3, "excludes") % 5; j > 0 && !tc.Empty; j-- {
			e := ignorePath{How: bits(t, 3, "exclude spelling")}
			switch k := bits(t, 3, "exclude kind"); {
			case k < 5 && len(below) > 0:
				e.Path = sample(t, below, "excluded")
			case k < 7:
				e.Path = filepath.Join(tc.Dir, sample(t, append([]string{"a", "a/b", "foo", "vendor", "b.proto"}, treeDirs[1:13]...), "excluded by name"))
			default: // not allowed: the directory of the configuration or outside of it
				if rapid.IntRange(0, 3).Draw(t, "bad exclude") == 0 {
					e.Path = sample(t, []string{tc.Dir, "zz"}, "outside")
				} else {
					e.Path = filepath.Join(tc.Dir, "q")
				}
			}
			tc.Excludes = append(tc.Excludes, e)
		}
		c.Configs = append(c.Configs, tc)
	}
	c.Work = sample(t, spots, "work")
	c.Target = sample(t, spots, "target")
	if rapid.IntRange(0, 2).Draw(t, "file argument") == 0 && len(c.Files) > 0 {
		c.Target = sample(t, c.Files, "target file")
	}
	if len(c.Configs) > 0 {
		c.Data = rapid.IntRange(0, 4).Draw(t, "config data") == 4
	}
	if rapid.IntRange(0, 4).Draw(t, "links") == 4 && len(c.Files) > 0 {
		c.Links = map[string]string{filepath.Join(sample(t, all, "link dir"), "zdirlink"): sample(t, all, "link to dir")}
	}
	c.How = bits(t, 3, "how")
	return c
}

// governing is the configuration in the nearest enclosing directory.
func (c *filesCase) governing(dir string) *treeConfig {
	for {
		for i := range c.Configs {
			if c.Configs[i].Dir == dir {
				return &c.Configs[i]
			}
		}
		if dir == "" {
			return nil
		}
		dir = dirOf(dir)
	}
}

func (tc *treeConfig) badExclude() bool {
	for _, e := range tc.Excludes {
		if !within(e.Path, tc.Dir) || e.Path == tc.Dir {
			return true
		}
	}
	return false
}

func (tc *treeConfig) excludes(p string) bool {
	for _, e := range tc.Excludes {
		if within(p, e.Path) {
			return true
		}
	}
	return false
}

const (
	selOK = iota
	selError
	selOpen // not decided by the documentation
)

// selectFiles is the reference model.
func (c *filesCase) selectFiles() (files []string, state int, cfg *treeConfig) {
	dir := c.Target
	if contains(c.Files, dir) {
		dir = dirOf(dir)
	}
	if c.Data {
		tc := c.Configs[0]
		if tc.Dir != c.Work {
			infra("config data")
		}
		if tc.badExclude() {
			return nil, selError, &tc
		}
		if !within(dir, c.Work) {
			return nil, selOpen, nil
		}
		for _, p := range c.Files {
			if within(p, dir) && !tc.excludes(p) {
				files = append(files, p)
			}
		}
		return files, selOK, &tc
	}
	top := c.governing(dir)
	if top != nil && (top.Both || top.badExclude()) {
		return nil, selError, top
	}
	root := dir
	if top != nil {
		root = top.Dir
	} else if !within(dir, c.Work) {
		return nil, selOpen, nil
	}
	groups := map[string]*treeConfig{}
	for _, tc := range c.Configs {
		if tc.Dir == root || !within(tc.Dir, root) {
			continue
		}
		if tc.Both || tc.badExclude() {
			// an unusable configuration further down: an error when it governs a file
			return nil, selOpen, nil
		}
	}
	for _, p := range c.Files {
		if !within(p, root) || top != nil && top.excludes(p) {
			continue
		}
		g := c.governing(dirOf(p))
		for i := range c.Configs {
			if o := &c.Configs[i]; o != top && o != g && within(o.Dir, root) && within(p, o.Dir) && o.excludes(p) {
				return nil, selOpen, nil // excluded by a configuration that does not govern it
			}
		}
		key := "none"
		if g != nil {
			key = "in " + g.Dir
			if g != top && g.excludes(p) {
				if top == nil {
					continue
				}
				return nil, selOpen, nil
			}
		}
		groups[key] = g
		if within(p, dir) {
			files = append(files, p)
		}
	}
	if len(groups) > 1 {
		return nil, selError, nil
	}
	cfg = top
	for _, g := range groups {
		cfg = g
	}
	return files, selOK, cfg
}

// rules identify the configuration in force; only the first one objects.
func (tc *treeConfig) rules() []string {
	if tc == nil || tc.Empty {
		return sortedKeys(groupRules("uber1"))
	}
	return []string{"MESSAGE_NAMES_CAPITALIZED", []string{"RPC_NAMES_CAPITALIZED", "SERVICE_NAMES_CAPITALIZED", "ENUM_NAMES_CAPITALIZED", "RPCS_NO_STREAMING"}[tc.Tag%4]}
}

func (tc *treeConfig) text(root string) M {
	m := M{"lint": M{"group": "empty", "rules": M{"add": tc.rules()}}}
	if len(tc.Excludes) > 0 {
		var out []string
		for _, e := range tc.Excludes {
			rel, err := filepath.Rel(filepath.Join(root, tc.Dir), filepath.Join(root, e.Path))
			must(err)
			p := ignorePath{Path: rel, How: e.How}
			out = append(out, p.text(filepath.Join(root, tc.Dir)))
		}
		m["excludes"] = out
	}
	return m
}

func runFiles(x *Ctx, c *filesCase) error {
	root := filepath.Join(x.Dir, "top")
	if c.Data {
		c.Configs[0].Dir = c.Work
		var es []ignorePath
		for _, e := range c.Configs[0].Excludes {
			if within(e.Path, c.Work) {
				es = append(es, e)
			}
		}
		c.Configs[0].Excludes = es
		c.Configs[0].Empty = false
	}
	sel, state, cfg := c.selectFiles()
	must(os.MkdirAll(filepath.Join(root, c.Work), 0755))
	must(os.MkdirAll(filepath.Join(root, dirOf(c.Target+"/x")), 0755))
	files := map[string]string{}
	isFile := contains(c.Files, c.Target)
	dir := c.Target
	if isFile {
		dir = dirOf(dir)
	}
	if isFile {
		must(os.Remove(filepath.Join(root, c.Target)))
	}
	for i, p := range c.Files {
		files[p] = "syntax=\"proto3\"; package p" + msgNameFor(i) + "; message m" + msgNameFor(i) + " {}\n"
		if contains(c.Broken, p) && !contains(sel, p) {
			files[p] = "this is not { Protobuf"
		}
	}
	for _, p := range c.Noise {
		files[p] = "message Noise {"
	}
	var data string
	for i, tc := range c.Configs {
		if i == 0 && c.Data {
			data = jsonOf(tc.text(root))
			continue
		}
		name, text := "prototool.yaml", yamlOf(tc.text(root))
		if tc.JSON {
			name, text = "prototool.json", jsonOf(tc.text(root))
		}
		if tc.Empty {
			text = ""
		}
		files[filepath.Join(tc.Dir, name)] = text
		if tc.Both {
			files[filepath.Join(tc.Dir, "prototool.yaml")] = yamlOf(tc.text(root))
			files[filepath.Join(tc.Dir, "prototool.json")] = jsonOf(tc.text(root))
		}
	}
	writeFiles(root, files)
	for i, p := range c.Linked {
		to := filepath.Join(x.Dir, "elsewhere", fmt.Sprintf("f%d.proto", i))
		writeFiles("/", map[string]string{to[1:]: files[p]})
		must(os.Remove(filepath.Join(root, p)))
		must(os.Symlink(to, filepath.Join(root, p)))
		x.Label("a file that is a link")
	}
	for l, to := range c.Links {
		must(os.MkdirAll(filepath.Join(root, filepath.Dir(l)), 0755))
		must(os.Symlink(filepath.Join(root, to), filepath.Join(root, l)))
	}
	work := filepath.Join(root, c.Work)
	arg := spell(root, c.Work, c.Target, c.How)
	args := func(a ...string) []string {
		if c.Data {
			a = append(a, "--config-data", data)
		}
		return append(a, arg)
	}
	describe := func() string {
		return "\nin " + c.Work + " on " + arg + "\nexpected files:\n" + strings.Join(sel, "\n") + "\ntree:\n" + strings.Join(sortedKeys(files), "\n") + "\nconfigurations:\n" + yamlOf(c.Configs) + data
	}
	rel := func(p string) string {
		out, err := filepath.Rel(work, filepath.Join(root, p))
		must(err)
		return out
	}
	r := x.PT(work, args("files")...)
	switch state {
	case selOpen:
		x.Label("undecided")
		return nil
	case selError:
		for _, cmd := range [][]string{{"compile"}, {"lint"}, {"format", "-w"}, {"descriptor-set"}} {
			before := snapshot(root)
			if r2 := x.PT(work, args(cmd...)...); r2.Code == 0 || diffSnap(before, snapshot(root)) != "" {
				return bad("an error in the configuration is not refused: %s%s", r2, describe())
			}
		}
		if r.Code == 0 {
			return bad("an error in the configuration is not refused: %s%s", r, describe())
		}
		x.Label("refused")
		x.NonTrivial()
		return nil
	}
	var want []string
	for _, p := range sel {
		want = append(want, rel(p))
	}
	sort.Strings(want)
	if r.Code != 0 || strings.Join(lines(r.Out), "\n") != strings.Join(want, "\n") || r.Out != "" && !strings.HasSuffix(r.Out, "\n") {
		return bad("wrong list of files: %s%s", r, describe())
	}
	if r := x.PT(work, args("lint", "--list-linters")...); r.Code != 0 || sorted(firstColumn(r.Out)) != sorted(cfg.rules()) {
		return bad("another configuration is used: %s\nwant %s%s", r, sorted(cfg.rules()), describe())
	}
	// the other commands work on the same files
	named := sel
	if isFile {
		named = nil
		if contains(sel, c.Target) {
			named = []string{c.Target}
		}
	}
	if r := x.PT(work, args("compile")...); r.Code != 0 || r.Out != "" {
		return bad("compile looks at other files: %s%s", r, describe())
	}
	for _, cmd := range [][]string{{"format", "-l"}, {"lint"}} {
		r := x.PT(work, args(cmd...)...)
		got := map[string]bool{}
		for _, l := range lines(r.Out) {
			p := l
			if i := strings.IndexByte(l, ':'); i >= 0 {
				p = l[:i]
			}
			if !filepath.IsAbs(p) {
				p = filepath.Join(work, p)
			}
			q, err := filepath.Rel(root, p)
			must(err)
			got[q] = true
		}
		w := map[string]bool{}
		for _, p := range named {
			w[p] = true
		}
		if cmd[0] == "lint" && cfg != nil && cfg.Empty {
			continue
		}
		if strings.Join(sortedKeys(got), "\n") != strings.Join(sortedKeys(w), "\n") {
			return bad("%s works on the wrong files: %s%s\nand names %s", cmd[0], r, describe(), strings.Join(named, " "))
		}
		if (r.Code != 0) != (len(w) > 0) && !isFile {
			return bad("wrong exit code: %s%s", r, describe())
		}
	}
	x.Label("configurations %d, data %v", len(c.Configs), c.Data)
	x.Label("file argument %v", isFile)
	if len(sel) > 0 && len(sel) < len(c.Files) {
		x.Label("a part of the files")
		x.NonTrivial()
	}
	return nil
}

func init() {
	prop("C13", "model", "directory trees with 0-3 configurations (YAML or JSON, with excludes in several spellings), a working directory and a file or directory argument; files that must not be selected may hold garbage; non-trivial: some but not all files are selected, or the configuration must be refused",
		newPart("files", 2400, 30000, genFiles, runFiles))
}
