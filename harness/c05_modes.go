package main

import (
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"pgregory.net/rapid"
)

type modesCase struct {
	Files    map[string]string // .proto files
	Others   map[string]string // anything else
	Modes    map[string]uint32
	Broken   string // path of a file that does not compile
	Config   bool
	Excludes []string
	Header   bool
	Work     string
	Target   string
	How      int
	Fix      bool
}

func genModes(t *rapid.T) *modesCase {
	c := &modesCase{Files: map[string]string{}, Others: map[string]string{}, Modes: map[string]uint32{}}
	paths := genTreePaths(t, 1, 7)
	gcfg := genCfg{MinFiles: 1, MaxFiles: 1, MaxElems: 3, MaxBody: 4, MaxDepth: 2, Options: true, Services: true, Comments: 15, Merge: true}
	used := map[string]bool{}
	for i, p := range paths {
		if rapid.IntRange(0, 4).Draw(t, "rich") == 0 {
			w := genWorkspace(t, gcfg)
			if used[w.Files[0].Pkg] { // their names could clash
				c.Files[p] = protoBody("p"+msgNameFor(i), msgNameFor(i), 0)
				continue
			}
			used[w.Files[0].Pkg] = true
			c.Files[p] = layout(w.Files[0].items(), rapid.Uint64Range(0, 1<<20).Draw(t, "layout"))
		} else {
			kind := rapid.IntRange(0, protoBodies).Draw(t, "kind")
			c.Files[p] = protoBody("p"+msgNameFor(i), msgNameFor(i), kind)
		}
		if rapid.IntRange(0, 3).Draw(t, "mode?") == 0 {
			c.Modes[p] = sample(t, []uint32{0600, 0640, 0755, 0664, 0700}, "mode")
		}
	}
	dirs := dirsOf(paths)
	c.Config = rapid.IntRange(0, 3).Draw(t, "config") > 0
	if c.Config {
		for i := rapid.IntRange(-1, 2).Draw(t, "nexcl"); i > 0; i-- {
			var e string
			if rapid.Bool().Draw(t, "excl file") {
				e = sample(t, paths, "excl")
			} else {
				e = sample(t, append(append([]string{}, dirs...), "a/b", "foo", "x.y"), "excl dir")
			}
			if e != "" {
				c.Excludes = append(c.Excludes, e)
			}
		}
		c.Header = rapid.IntRange(0, 2).Draw(t, "header") == 0
		c.Work = sample(t, dirs, "work")
	}
	c.Fix = rapid.IntRange(0, 2).Draw(t, "fix") == 0
	if rapid.IntRange(0, 2).Draw(t, "file arg") == 0 {
		c.Target = sample(t, paths, "target")
	} else {
		c.Target = sample(t, dirs, "target dir")
	}
	c.How = rapid.IntRange(0, 7).Draw(t, "how")
	if rapid.IntRange(0, 5).Draw(t, "broken") == 0 {
		c.Broken = sample(t, paths, "broken file")
		c.Files[c.Broken] = sample(t, []string{
			"syntax = \"proto3\";\npackage q;\nmessage M { Unknown u = 1; }\n",
			"syntax = \"proto3\";\npackage q;\nmessage M { int32 u = 1 }\n",
			"syntax = \"proto3\";\npackage q;\nimport \"nope.proto\";\n",
			"syntax = \"proto3\";\npackage q;\nimport \"google/protobuf/any.proto\";\n",
			"package q;\nmessage M { optional int32 u = 1; }\n",
		}, "broken text")
	}
	c.Others["README.md"] = "message   M{}\n"
	if rapid.Bool().Draw(t, "noise") {
		d := sample(t, dirs, "noise dir")
		c.Others[filepath.Join(d, sample(t, []string{"a.proto.orig", "proto", "b.prot", "c.PROTO", "d.protobuf"}, "noise name"))] = "syntax=\"proto3\"; message Noise{}"
	}
	return c
}

func (c *modesCase) config(excludes bool) string {
	m := M{}
	if excludes && len(c.Excludes) > 0 {
		m["excludes"] = c.Excludes
	}
	lint := M{"group": "uber2"}
	if c.Header {
		lint["file_header"] = M{"content": "// Copyright", "is_commented": true}
	}
	m["lint"] = lint
	return yamlOf(m)
}

func runModes(x *Ctx, c *modesCase) error {
	root := filepath.Join(x.Dir, "w")
	iso := filepath.Join(x.Dir, "iso")
	writeFiles(root, c.Files)
	writeFiles(root, c.Others)
	if c.Config {
		writeFiles(root, map[string]string{"prototool.yaml": c.config(true)})
	}
	for p, m := range c.Modes {
		must(os.Chmod(filepath.Join(root, p), os.FileMode(m)))
	}
	work := filepath.Join(root, c.Work)
	excluded := func(p string) bool {
		for _, e := range c.Excludes {
			if within(p, e) {
				return true
			}
		}
		return false
	}
	isFile := c.Files[c.Target] != ""
	scope := c.Target
	if isFile {
		scope = dirOf(c.Target)
	}
	var compiled, selected []string
	for _, p := range sortedKeys(c.Files) {
		if excluded(p) || !within(p, scope) {
			continue
		}
		compiled = append(compiled, p)
		if !isFile || p == c.Target {
			selected = append(selected, p)
		}
	}
	broken := c.Broken != "" && contains(compiled, c.Broken)
	fixArgs := func(a ...string) []string {
		out := append([]string{"format"}, a...)
		if c.Fix {
			out = append(out, "--fix")
		}
		return out
	}
	// what every selected file formats to, one at a time and on its own
	want := map[string]string{}
	var changed []string
	if !broken {
		for _, p := range selected {
			forceRemove(iso)
			one := map[string]string{p: c.Files[p]}
			if c.Config {
				one["prototool.yaml"] = c.config(false)
			}
			writeFiles(iso, one)
			r := x.PT(iso, fixArgs(p)...)
			if r.Code != 0 && r.Out == "" || r.Err != "" {
				return bad("format of %s alone fails: %s\n%s", p, r, c.Files[p])
			}
			want[p] = r.Out
			ch := r.Out != c.Files[p]
			if ch != (r.Code != 0) {
				return bad("format of %s alone: changed=%v but exit %d\n%s\n---\n%s", p, ch, r.Code, c.Files[p], r.Out)
			}
			if ch {
				changed = append(changed, p)
			}
		}
	}
	arg := spell(root, c.Work, c.Target, c.How)
	run := func(a ...string) *Result { return x.PT(work, fixArgs(append(a, arg)...)...) }
	old := time.Unix(1500000000, 0)
	for _, p := range sortedKeys(c.Files) {
		must(os.Chtimes(filepath.Join(root, p), old, old))
	}
	before := snapshot(root)
	state := func() string {
		return "\nselected: " + strings.Join(selected, " ") + "\nchanged: " + strings.Join(changed, " ") + "\nwork: " + c.Work + " arg: " + arg + "\nexcludes: " + strings.Join(c.Excludes, " ")
	}
	same := func(r *Result) error {
		if d := diffSnap(before, snapshot(root)); d != "" {
			return bad("%s changed files: %s%s", r, d, state())
		}
		return nil
	}
	rel := func(p string) string {
		out, err := filepath.Rel(work, filepath.Join(root, p))
		must(err)
		return out
	}
	unrel := func(s string) string {
		out, err := filepath.Rel(root, filepath.Join(work, s))
		must(err)
		return out
	}
	// conflicting modes are refused
	for _, two := range [][]string{{"-l", "-d"}, {"-w", "-d"}, {"-l", "-w"}} {
		r := run(two...)
		if r.Code == 0 {
			return bad("conflicting modes accepted: %s", r)
		}
		if err := same(r); err != nil {
			return err
		}
	}
	plain, l, d := run(), run("-l"), run("-d")
	for _, r := range []*Result{plain, l, d} {
		if err := same(r); err != nil {
			return err
		}
		if (r.Code != 0) != (broken || len(changed) > 0) {
			return bad("wrong exit code: %s%s", r, state())
		}
	}
	if broken {
		for _, r := range []*Result{plain, l, d} {
			if strings.Contains(r.Out, "message Msg") || strings.Contains(r.Out, "+++") || strings.Contains(r.Out, "returned a diff") {
				return bad("formatting went on after a compile failure: %s%s", r, state())
			}
		}
		w := run("-w")
		if w.Code == 0 {
			return bad("-w exits 0 although a file does not compile: %s%s", w, state())
		}
		x.Label("compile failure")
		if len(selected) > 0 {
			x.NonTrivial()
		}
		return same(w)
	}
	// plain output is the concatenation of the formatted files, in some order
	var texts []string
	for _, p := range selected {
		texts = append(texts, want[p])
	}
	if !isConcat(plain.Out, texts) {
		return bad("plain output is not the formatted text of the selected files: %s%s\nwant\n%s", plain, state(), strings.Join(texts, "~~~~\n"))
	}
	var wantL []string
	for _, p := range changed {
		wantL = append(wantL, rel(p)+":1:1:Format returned a diff.")
	}
	gotL := lines(l.Out)
	sort.Strings(gotL)
	sort.Strings(wantL)
	if strings.Join(gotL, "\n") != strings.Join(wantL, "\n") {
		return bad("-l lists the wrong files: %s\nwant\n%s%s", l, strings.Join(wantL, "\n"), state())
	}
	patched, err := applyUnified(c.Files, d.Out, unrel)
	if err != nil {
		return bad("-d output does not apply: %v\n%s%s", err, d, state())
	}
	if len(patched) != len(changed) {
		return bad("-d covers %d files, want %d: %s%s", len(patched), len(changed), d, state())
	}
	for _, p := range changed {
		if patched[p] != want[p] {
			return bad("-d applied to %s gives\n%q\nwant\n%q%s", p, patched[p], want[p], state())
		}
	}
	w := run("-w")
	if w.Code != 0 || w.Out != "" {
		return bad("-w fails or prints something: %s%s", w, state())
	}
	after := map[string]string{}
	for k, v := range before {
		after[k] = v
	}
	for _, p := range changed {
		after[p] = strings.TrimSuffix(before[p], c.Files[p]) + want[p]
	}
	if dd := diffSnap(after, snapshot(root)); dd != "" {
		return bad("-w left the wrong state (expected -> got): %s%s", dd, state())
	}
	for p := range c.Files {
		fi, err := os.Stat(filepath.Join(root, p))
		must(err)
		if contains(changed, p) == fi.ModTime().Equal(old) {
			return bad("-w: %s needs a change: %v, but modification time is %v%s", p, contains(changed, p), fi.ModTime(), state())
		}
	}
	x.Label("file argument %v", isFile)
	x.Label("fix %v", c.Fix)
	x.Label("excludes %v", len(c.Excludes) > 0)
	x.Label("%d dirs selected", len(dirsOf(selected)))
	if len(changed) > 0 && len(changed) < len(c.Files) {
		x.NonTrivial()
	}
	return nil
}

func contains(xs []string, s string) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}

// isConcat says whether s is the texts joined in some order.
func isConcat(s string, texts []string) bool {
	if len(texts) == 0 {
		return s == ""
	}
	for i, t := range texts {
		if strings.HasPrefix(s, t) {
			rest := append(append([]string{}, texts[:i]...), texts[i+1:]...)
			if isConcat(s[len(t):], rest) {
				return true
			}
		}
	}
	return false
}

func init() {
	prop("C05", "exploration", "directory trees of 1-7 files (formatted and not, in directories that share name prefixes) with permissions, excludes, a working directory, a file or directory argument in several spellings, optionally a file that does not compile; non-trivial: some but not all files would change, or a compile failure with files selected",
		newPart("modes", 1400, 20000, genModes, runModes))
}
