package main

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// gitCase is a history of commits, each a version of the workspace, and one
// break check of the working tree against one of them.
type gitCase struct {
	Old     *Workspace
	Steps   [][]Edit // edits between the commits; the last ones are not committed
	Ref     string   // "", branch, tag, annotated, slash, missing
	At      int      // the commit the ref points to
	Prefix  string   // where the workspace lives in the repository
	CfgTop  bool     // configuration at the top of the repository, not in the prefix
	Arg     string   // below the prefix
	NoArg   bool
	How     int
	Beta    []bool // include_beta per commit and for the working tree
	Layout  uint64
	Break   string // "", old, new: a file of that version does not compile
	Detach  bool
	Misuse  string // "", abs, outside, both, nogit
	Ignored bool
	Include bool   // saved with descriptor-set --include-imports
	Name    string // of the directory of the repository
	Hook    int    // which variables git sets, as in a hook
}

var gitPkgs = []string{"foo.v1", "foo.v1", "bar.v1beta1", "foo"}

func genGit(t *rapid.T) *gitCase {
	cfg := breakCfg
	cfg.MaxFiles, cfg.MaxBody, cfg.MaxElems = 4, 4, 3
	cfg.Pkgs = gitPkgs
	cfg.Groups, cfg.OneofGroups, cfg.Extends = false, false, false
	c := &gitCase{Old: genWorkspace(t, cfg)}
	n := rapid.IntRange(1, 3).Draw(t, "steps")
	kinds := append(append([]string{"delete", "add file", "rename file"}, breakingEdits...), compatibleEdits...)
	for i := 0; i < n; i++ {
		c.Steps = append(c.Steps, drawEdits(t, kinds, 0, 3))
	}
	c.Ref = sample(t, []string{"", "branch", "tag", "annotated", "slash", "same", "missing"}, "ref")
	c.At = rapid.IntRange(0, n-1).Draw(t, "at")
	c.Prefix = sample(t, []string{"", "proto", "a/proto", "a b"}, "prefix")
	c.CfgTop = rapid.Bool().Draw(t, "config at the top")
	var paths []string
	for _, f := range c.Old.Files {
		paths = append(paths, f.Path)
	}
	c.Arg = sample(t, append([]string{"", "", "a"}, dirsOf(paths)...), "arg")
	c.NoArg = c.Prefix == "" && c.Arg == "" && rapid.Bool().Draw(t, "no arg")
	c.How = sample(t, []int{0, 2, 4, 5, 6}, "how")
	for i := 0; i <= n; i++ {
		c.Beta = append(c.Beta, rapid.IntRange(0, 2).Draw(t, "include beta") == 0)
	}
	c.Layout = rapid.Uint64Range(0, 1<<16).Draw(t, "layout")
	if rapid.IntRange(0, 7).Draw(t, "breaks") == 0 {
		c.Break = sample(t, []string{"old", "new"}, "broken")
	}
	c.Detach = rapid.IntRange(0, 4).Draw(t, "detached") == 0
	if rapid.IntRange(0, 11).Draw(t, "misuse") == 0 {
		c.Misuse = sample(t, []string{"abs", "outside", "both", "nogit"}, "misuse kind")
	}
	c.Ignored = rapid.IntRange(0, 3).Draw(t, "ignored") == 0
	c.Include = rapid.Bool().Draw(t, "saved how")
	c.Name = sample(t, []string{"repo", "repo", "repo", "r%41", "a%2Fb", "r#1?x", "r e", "rép.git", "-r%zz"}, "name")
	if bits(t, 2, "in a hook") == 3 {
		c.Hook = 1 + uniform(t, 4, "hook")
	}
	return c
}

func runGit(x *Ctx, c *gitCase) error {
	if c.Name == "" {
		c.Name = "repo"
	}
	repo := filepath.Join(x.Dir, c.Name)
	must(os.MkdirAll(repo, 0755))
	git := func(args ...string) {
		r := x.Exec(repo, x.baseEnv(), nil, "/usr/bin/git", args...)
		if r.Code != 0 {
			infra("%s", r)
		}
	}
	// versions[i] is commit i; the last one is the working tree
	versions := []map[string]string{}
	w := c.Old
	scratch := filepath.Join(x.Dir, "scratch")
	first := w.laidOut(c.Layout)
	writeFiles(scratch, first)
	if set, _ := x.protocSet(scratch, sortedKeys(first)); set == nil {
		x.Label("protoc rejects the generated source")
		return nil
	}
	versions = append(versions, first)
	changed := 0
	for _, edits := range c.Steps {
		var applied []string
		w, applied, _, _ = x.history(scratch, w, edits, c.Layout)
		changed += len(applied)
		versions = append(versions, w.laidOut(c.Layout))
	}
	last := len(versions) - 1
	at := c.At
	switch c.Ref {
	case "":
		at = last - 1
	}
	const broken = "syntax = \"proto3\";\n\npackage foo;\n\nmessage Broken {\n  Missing missing = 1;\n}\n"
	bad1 := "zz.proto"
	if c.Arg != "" {
		bad1 = c.Arg + "/zz.proto"
	}
	switch c.Break {
	case "old":
		versions[at][bad1] = broken
	case "new":
		versions[last][bad1] = broken
	}
	cfgPath := filepath.Join(c.Prefix, "prototool.yaml")
	atTop := c.CfgTop
	if atTop {
		cfgPath = "prototool.yaml"
	}
	put := func(dir string, i int) {
		files := map[string]string{}
		for p, s := range versions[i] {
			files[filepath.Join(c.Prefix, p)] = s
		}
		m := M{"protoc": M{"allow_unused_imports": true}, "break": M{"include_beta": c.Beta[i]}}
		if atTop && c.Prefix != "" {
			m["protoc"] = M{"allow_unused_imports": true, "includes": []string{c.Prefix}}
		}
		files[cfgPath] = yamlOf(m)
		files["README"] = "x\n"
		files[".gitignore"] = "ignored/\n*.tmp\n"
		writeFiles(dir, files)
	}
	clean := func() {
		es, err := ioutil.ReadDir(repo)
		must(err)
		for _, e := range es {
			if e.Name() != ".git" {
				forceRemove(filepath.Join(repo, e.Name()))
			}
		}
	}
	git("init", "-q", "-b", "main", ".")
	git("config", "gc.auto", "0")
	for i := 0; i < last; i++ {
		clean()
		put(repo, i)
		git("add", "-A")
		git("commit", "-q", "--allow-empty", "-m", "version")
		if i == c.At {
			git("branch", "older")
			git("branch", "team/older")
			git("tag", "t1")
			git("tag", "-a", "t2", "-m", "annotated")
		}
	}
	ref := map[string]string{"": "", "branch": "older", "slash": "team/older", "tag": "t1", "annotated": "t2", "same": "main", "missing": "nowhere"}[c.Ref]
	if c.Ref == "same" {
		at = last - 1
	}
	if c.Detach {
		git("checkout", "-q", "--detach")
	}
	clean()
	put(repo, last)
	if c.Ignored {
		// not under version control but part of the working tree
		pkg := "foo.v1"
		writeFiles(repo, map[string]string{filepath.Join(c.Prefix, "ignored/extra.proto"): "syntax = \"proto3\";\n\npackage " + pkg + ";\n\nmessage Ignored {\n  int64 id = 1;\n}\n"})
	}
	// the state saved at that commit, in a directory of its own
	stateDir := filepath.Join(x.Dir, "state")
	saved := filepath.Join(x.Dir, "saved.bin")
	put(stateDir, at)
	target := filepath.Join(c.Prefix, c.Arg)
	arg := func(root string) []string {
		if c.NoArg {
			return nil
		}
		return []string{spell(root, "", target, c.How)}
	}
	rel := arg(repo)
	save := append([]string{"break", "descriptor-set", "-o", saved}, rel...)
	if c.Include {
		save = append([]string{"descriptor-set", "--include-imports", "-o", saved}, rel...)
	}
	if !c.NoArg {
		if _, err := os.Stat(filepath.Join(repo, target)); err != nil {
			x.Label("argument does not exist in the working tree")
		}
	}
	sr := x.PT(stateDir, save...)
	before := snapshot(repo)
	tmpBefore := snapshot(x.Tmp)
	args := []string{"break", "check"}
	if ref != "" {
		args = append(args, "--git-branch", ref)
	}
	expectFail := ""
	switch c.Misuse {
	case "abs":
		rel = []string{filepath.Join(repo, target)}
		expectFail = "an absolute argument"
	case "outside":
		rel = []string{"../state"}
		expectFail = "an argument outside the repository"
	case "both":
		if ref == "" || sr.Code != 0 {
			args = append(args, "--git-branch", "main")
		}
		args = append(args, "--descriptor-set-path", saved)
		if ref != "" || len(args) > 4 {
			expectFail = "both sources"
		}
	case "nogit":
		must(os.Rename(filepath.Join(repo, ".git"), filepath.Join(x.Dir, "moved.git")))
		before = snapshot(repo)
		expectFail = "no repository"
	}
	if c.Ref == "missing" && expectFail == "" {
		expectFail = "an unknown branch"
	}
	args = append(args, rel...)
	if c.Hook > 0 && c.Misuse != "nogit" {
		// relative to the top, where git runs hooks, or absolute
		dir := []string{repo, "."}[c.Hook%2]
		x.Extra = append(x.Extra, "GIT_INDEX_FILE="+filepath.Join(dir, ".git/index"), "GIT_PREFIX=")
		if c.Hook > 2 {
			x.Extra = append(x.Extra, "GIT_DIR="+filepath.Join(dir, ".git"), "GIT_WORK_TREE="+dir)
		}
		x.Label("in a hook")
	}
	r := x.PT(repo, args...)
	again := x.PT(repo, args...)
	after := snapshot(repo)
	if c.Misuse == "nogit" {
		must(os.Rename(filepath.Join(x.Dir, "moved.git"), filepath.Join(repo, ".git")))
	}
	if d := diffSnap(before, after); d != "" {
		return bad("break check changed the repository or working tree: %s\n%s", r, d)
	}
	if d := diffSnap(tmpBefore, snapshot(x.Tmp)); d != "" {
		return bad("break check left something in the temporary directory: %s\n%s", r, clip(d))
	}
	sorted := func(r *Result) string {
		l := lines(r.Out)
		sort.Strings(l)
		return strings.Join(l, "\n")
	}
	if again.Code != r.Code || again.Out != r.Out && expectFail == "" && sr.Code == 0 {
		return bad("two runs of the same check differ: %s\n%s", r, again)
	}
	if expectFail != "" {
		x.Label("misuse: %s", expectFail)
		if r.Code == 0 {
			return bad("break check accepts %s: %s", expectFail, r)
		}
		return nil
	}
	x.Label("ref: %s", c.Ref)
	if sr.Code != 0 {
		// the old state cannot be computed either way
		x.Label("old state fails")
		if r.Code == 0 {
			return bad("break check succeeds against a state that does not compile: %s\n%s", r, sr)
		}
		return nil
	}
	s := x.PT(repo, append([]string{"break", "check", "--descriptor-set-path", saved}, rel...)...)
	if s.Code != r.Code || sorted(s) != sorted(r) {
		return bad("break check against git (%q, commit %d) and against the saved state differ\n%s\n%s\n=== old\n%s\n=== new\n%s", ref, at, r, s, allText(versions[at]), allText(versions[last]))
	}
	if changed > 0 {
		x.NonTrivial()
	}
	if c.Break == "new" && r.Code == 0 {
		return bad("break check accepts a working tree that does not compile: %s", r)
	}
	x.Label("%s", map[bool]string{true: "no message", false: "messages"}[r.Out == ""])
	return nil
}

func init() {
	prop("C09", "model", "some edit separates the versions and both sources of the old state were compared",
		newPart("git", 700, 8000, genGit, runGit))
}
