package main

// Which rules run where: groups, added and removed rules, ignores, and the
// round trip through --generate-ignores. Rules are observed one by one in a
// base run with every rule on and nothing ignored.

import (
	"path/filepath"
	"sort"
	"strings"

	"gopkg.in/yaml.v2"
	"pgregory.net/rapid"
)

type ignorePath struct {
	Path string // relative to the configuration
	How  int
}

type ignoreEntry struct {
	ID    string
	Files []ignorePath
}

type lintCfgCase struct {
	R         rulesCase
	Group     string // "" is unset
	Upper     bool   // the group is spelled in upper case
	NoDefault bool
	Add       []string
	Remove    []string
	Ignores   []ignoreEntry
	Lower     bool
	Work      string
	Target    string
	How       int
}

// ignoreText writes the path of an ignores entry.
func (p ignorePath) text(root string) string {
	s := p.Path
	if s == "" {
		s = "."
	}
	abs := filepath.Join(root, s)
	switch p.How % 8 {
	case 1:
		return abs
	case 2:
		return "./" + s
	case 3:
		return "nowhere/../" + s
	case 4:
		return "../" + filepath.Base(root) + "/" + s
	case 5:
		if !strings.HasSuffix(s, ".proto") {
			return s + "/"
		}
	case 6:
		return strings.Replace(abs, "/", "//", -1)
	}
	return s
}

func genRuleSet(t *rapid.T, prefer []string, hi int, label string) []string {
	var out []string
	all := sortedKeys(lintRules)
	for i := bits(t, 5, label+" n") % (hi + 1); i > 0; i-- {
		if len(prefer) > 0 && rapid.Bool().Draw(t, label+" relevant") {
			out = append(out, sample(t, prefer, label))
		} else {
			out = append(out, sample(t, all, label+" any"))
		}
	}
	return out
}

// offended are the rules the model sees offences of.
func (c *rulesCase) offended() []string {
	m := lintWorkspace(c.W, c.Header.want(), c.Prefix)
	set := map[string]bool{}
	for o := range m.out {
		set[o.Rule] = true
	}
	return sortedKeys(set)
}

func (c *rulesCase) paths() []string {
	var out []string
	for _, f := range c.W.Files {
		out = append(out, f.Path)
	}
	sort.Strings(out)
	return out
}

func genLintCfg(t *rapid.T) *lintCfgCase {
	c := &lintCfgCase{R: *genRules(t)}
	rel := c.R.offended()
	c.Group = sample(t, []string{"", "", "empty", "google", "uber1", "uber2", "uber2"}, "group")
	c.Upper = bits(t, 3, "upper") == 1
	c.NoDefault = rapid.IntRange(0, 3).Draw(t, "no default") == 0
	hi := sample(t, []int{0, 2, 6, 20}, "how many")
	c.Add = genRuleSet(t, rel, hi, "add")
	for _, id := range genRuleSet(t, rel, hi, "remove") {
		if !contains(c.Add, id) {
			c.Remove = append(c.Remove, id)
		}
	}
	c.Lower = rapid.IntRange(0, 5).Draw(t, "lower case") == 0
	paths := c.R.paths()
	dirs := dirsOf(paths)
	for i := bits(t, 3, "ignores"); i > 0; i-- {
		e := ignoreEntry{ID: sample(t, sortedKeys(lintRules), "ignored rule")}
		if len(rel) > 0 && rapid.IntRange(0, 4).Draw(t, "relevant ignore") > 0 {
			e.ID = sample(t, rel, "relevant rule")
		}
		for j := 1 + bits(t, 2, "paths")%3; j > 0; j-- {
			p := ignorePath{How: bits(t, 3, "ignore spelling")}
			switch bits(t, 3, "ignore kind") {
			case 0, 1, 2:
				p.Path = sample(t, paths, "ignored file")
			case 3, 4:
				p.Path = sample(t, dirs, "ignored dir")
			case 5: // shares a prefix with a file or a directory
				p.Path = sample(t, paths, "near file")
				p.Path = sample(t, []string{strings.TrimSuffix(p.Path, ".proto"), strings.TrimSuffix(p.Path, "o"), p.Path + "x", p.Path + "/x.proto"}, "near")
			case 6:
				p.Path = sample(t, append([]string{"bb", "b", "a/c", "a/cc", "aa"}, dirs...), "near dir")
			case 7:
				p.Path = filepath.Base(sample(t, paths, "base name only"))
			}
			e.Files = append(e.Files, p)
		}
		c.Ignores = append(c.Ignores, e)
	}
	c.Work = sample(t, dirs, "work")
	if rapid.IntRange(0, 3).Draw(t, "file argument") == 0 {
		c.Target = sample(t, paths, "target")
	} else {
		c.Target = sample(t, append([]string{"", "", ""}, dirs...), "target dir")
	}
	c.How = bits(t, 3, "how")
	return c
}

// base writes the workspace and returns the failures of every rule by rule and
// file; ok is false when protoc refuses the sources.
func (c *rulesCase) base(x *Ctx) (byRule map[string]map[string][]string, ok bool, err error) {
	m := lintWorkspace(c.W, c.Header.want(), c.Prefix)
	lint := M{"group": "empty", "rules": M{"add": sortedKeys(lintRules)}}
	c.settings(lint)
	files := map[string]string{}
	for p, s := range m.texts {
		files[p] = s
	}
	c.Header.apply(lint, files)
	files["prototool.yaml"] = yamlOf(M{"protoc": M{"allow_unused_imports": true}, "lint": lint})
	writeFiles(x.Dir, files)
	r := x.PT(x.Dir, "lint", "--error-format", "filename:line:column:id:message")
	if set, _ := x.protocSet(x.Dir, sortedKeys(m.texts)); set == nil {
		x.Label("protoc rejects the generated source")
		return nil, false, nil
	}
	byRule = map[string]map[string][]string{}
	for _, l := range lines(r.Out) {
		p := strings.SplitN(l, ":", 5)
		if len(p) != 5 || lintRules[p[3]] == "" && !isRule(p[3]) || m.texts[p[0]] == "" {
			return nil, false, bad("unexpected output of lint with every rule on: %q in %s", l, r)
		}
		if byRule[p[3]] == nil {
			byRule[p[3]] = map[string][]string{}
		}
		byRule[p[3]][p[0]] = append(byRule[p[3]][p[0]], l)
	}
	return byRule, true, nil
}

func isRule(id string) bool { _, ok := lintRules[id]; return ok }

func (c *rulesCase) settings(lint M) {
	if c.Prefix != "" {
		lint["java_package_prefix"] = c.Prefix
	}
	h := c.Header
	h.apply(lint, map[string]string{})
}

// crossFile rules compare the files of a directory, so that ignoring one file
// can change what is found in another one.
func crossFile(id string) bool {
	return strings.Contains(id, "SAME_IN_DIR") || strings.Contains(id, "REQUEST_RESPONSE_TYPES") || strings.HasPrefix(id, "MESSAGES_")
}

func (c *lintCfgCase) active() map[string]bool {
	on := map[string]bool{}
	switch {
	case c.Group != "":
		on = groupRules(c.Group)
	case !c.NoDefault:
		on = groupRules("uber1")
	}
	for _, id := range c.Add {
		on[id] = true
	}
	for _, id := range c.Remove {
		delete(on, id)
	}
	return on
}

func (c *lintCfgCase) ignored(id, file string) bool {
	for _, e := range c.Ignores {
		if e.ID != id {
			continue
		}
		for _, p := range e.Files {
			if within(file, p.Path) {
				return true
			}
		}
	}
	return false
}

func (c *lintCfgCase) config(root string, withIgnores bool) M {
	cs := func(s string) string {
		if c.Lower {
			return strings.ToLower(s)
		}
		return s
	}
	css := func(xs []string) []string {
		var out []string
		for _, s := range xs {
			out = append(out, cs(s))
		}
		return out
	}
	rules := M{}
	if len(c.Add) > 0 {
		rules["add"] = css(c.Add)
	}
	if len(c.Remove) > 0 {
		rules["remove"] = css(c.Remove)
	}
	if c.NoDefault {
		rules["no_default"] = true
	}
	lint := M{}
	if len(rules) > 0 {
		lint["rules"] = rules
	}
	if c.Group != "" {
		lint["group"] = c.Group
		if c.Upper {
			lint["group"] = strings.ToUpper(c.Group)
		}
	}
	if withIgnores && len(c.Ignores) > 0 {
		var is []M
		for _, e := range c.Ignores {
			var fs []string
			for _, p := range e.Files {
				fs = append(fs, p.text(root))
			}
			is = append(is, M{"id": cs(e.ID), "files": fs})
		}
		lint["ignores"] = is
	}
	c.R.settings(lint)
	return lint
}

func (c *lintCfgCase) write(x *Ctx, lint M) string {
	text := yamlOf(M{"protoc": M{"allow_unused_imports": true}, "lint": lint})
	writeFiles(x.Dir, map[string]string{"prototool.yaml": text})
	return text
}

// shown are the base failures of the active rules for the target, ignores
// applied or not; undecided are the lines the documentation leaves open.
func (c *lintCfgCase) shown(byRule map[string]map[string][]string, ignores bool) (want []string, undecided map[string]bool) {
	undecided = map[string]bool{}
	on := c.active()
	isFile := strings.HasSuffix(c.Target, ".proto")
	for _, id := range sortedKeys(byRule) {
		if !on[id] {
			continue
		}
		for _, f := range sortedKeys(byRule[id]) {
			if isFile && f != c.Target || !isFile && !within(f, c.Target) {
				continue
			}
			if ignores && c.ignored(id, f) {
				continue
			}
			want = append(want, byRule[id][f]...)
		}
	}
	if ignores {
		for _, f := range c.R.paths() {
			for id := range on {
				if crossFile(id) && c.ignored(id, f) {
					undecided[id+" "+dirOf(f)] = true
				}
			}
		}
	}
	return want, undecided
}

// relines turns the printed file names into paths relative to the root.
func relines(root, work, out string) []string {
	var res []string
	for _, l := range lines(out) {
		if i := strings.IndexByte(l, ':'); i > 0 {
			p := l[:i]
			if !filepath.IsAbs(p) {
				p = filepath.Join(root, work, p)
			}
			if rel, err := filepath.Rel(root, p); err == nil {
				l = rel + l[i:]
			}
		}
		res = append(res, l)
	}
	return res
}

// diffLines compares multisets.
func diffLines(want, got []string) (missing, extra []string) {
	n := map[string]int{}
	for _, l := range got {
		n[l]++
	}
	for _, l := range want {
		if n[l] > 0 {
			n[l]--
		} else {
			missing = append(missing, l)
		}
	}
	for _, l := range got {
		if n[l] > 0 {
			n[l]--
			extra = append(extra, l)
		}
	}
	return missing, extra
}

func decided(ls []string, undecided map[string]bool) []string {
	var out []string
	for _, l := range ls {
		p := strings.SplitN(l, ":", 5)
		if len(p) == 5 && undecided[p[3]+" "+dirOf(p[0])] {
			continue
		}
		out = append(out, l)
	}
	return out
}

func firstColumn(out string) []string {
	var ids []string
	for _, l := range lines(out) {
		ids = append(ids, strings.Fields(l + " ?")[0])
	}
	return ids
}

func runLintCfg(x *Ctx, c *lintCfgCase) error {
	byRule, ok, err := c.R.base(x)
	if err != nil || !ok {
		return err
	}
	text := c.write(x, c.config(x.Dir, true))
	work := filepath.Join(x.Dir, c.Work)
	arg := spell(x.Dir, c.Work, c.Target, c.How)
	state := func() string {
		return "\nrun in " + c.Work + "\nconfiguration:\n" + text + "\nsources:\n" + dumpFiles(x.Dir, c.R.paths())
	}
	if r := x.PT(work, "lint", "--list-linters", arg); r.Code != 0 || strings.Join(firstColumn(r.Out), " ") != strings.Join(sortedKeys(c.active()), " ") {
		return bad("wrong list of active rules: %s\nwant %s%s", r, strings.Join(sortedKeys(c.active()), " "), state())
	}
	want, undecided := c.shown(byRule, true)
	r := x.PT(work, "lint", "--error-format", "filename:line:column:id:message", arg)
	got := relines(x.Dir, c.Work, r.Out)
	missing, extra := diffLines(decided(want, undecided), decided(got, undecided))
	if len(missing)+len(extra) > 0 {
		return bad("lint does not report the union of its active rules minus the ignores\nmissing:\n%s\nunexpected:\n%s\n%s%s", strings.Join(missing, "\n"), strings.Join(extra, "\n"), r, state())
	}
	if isFile := strings.HasSuffix(c.Target, ".proto"); (r.Code != 0) != (len(got) > 0) && !(isFile && len(got) == 0) {
		return bad("wrong exit code: %s%s", r, state())
	}
	x.Label("group %q", c.Group)
	all, _ := c.shown(byRule, false)
	if len(want) > 0 && len(want) < len(all) {
		x.Label("ignores drop some failures")
	}
	n := 0
	for _, fs := range byRule {
		n += len(fs)
	}
	if len(want) > 0 && n > len(want) {
		x.NonTrivial()
	}
	return nil
}

// ---- unknown names and listings

type lintNamesCase struct {
	Where string // add, remove, ignores, group
	Name  string
	More  []string // valid rules beside it
	A, B  string   // groups to compare
}

func genLintNames(t *rapid.T) *lintNamesCase {
	c := &lintNamesCase{Where: sample(t, []string{"add", "remove", "ignores", "group", "list-lint-group", "diff-lint-groups"}, "where")}
	groups := []string{"empty", "google", "uber1", "uber2"}
	c.A, c.B = sample(t, groups, "a"), sample(t, groups, "b")
	c.More = genRuleSet(t, nil, 3, "more")
	if c.Where == "add" || c.Where == "remove" || c.Where == "ignores" {
		id := sample(t, sortedKeys(lintRules), "rule")
		c.Name = sample(t, []string{id + "S", id[1:], id[:len(id)-1], "X" + id, strings.Replace(id, "_", "-", 1), strings.Replace(id, "_", " ", 1), id + " ", "uber2", "ALL", "*", "x"}, "bad id")
		if isRule(c.Name) {
			c.Name += "X"
		}
	} else {
		g := sample(t, groups, "group")
		c.Name = sample(t, []string{g + "x", g[1:], g[:len(g)-1], "default", "all", "none", "uber", "uber3", " " + g, g + " "}, "bad group")
		if contains(groups, c.Name) {
			c.Name += "x"
		}
	}
	return c
}

func runLintNames(x *Ctx, c *lintNamesCase) error {
	writeFiles(x.Dir, map[string]string{"a.proto": "syntax = \"proto3\";\n\npackage foo;\n\nmessage foo {}\n"})
	put := func(lint M) string {
		text := yamlOf(M{"lint": lint})
		writeFiles(x.Dir, map[string]string{"prototool.yaml": text})
		return text
	}
	put(M{"group": c.A})
	list := func(g string) (map[string]bool, error) {
		r := x.PT(x.Dir, "lint", "--list-lint-group", g)
		if got := firstColumn(r.Out); r.Code != 0 || strings.Join(got, " ") != strings.Join(sortedKeys(groupRules(g)), " ") {
			return nil, bad("wrong rules of group %s: %s\nwant %s", g, r, strings.Join(sortedKeys(groupRules(g)), " "))
		}
		return groupRules(g), nil
	}
	a, err := list(c.A)
	if err != nil {
		return err
	}
	b, err := list(c.B)
	if err != nil {
		return err
	}
	var want []string
	for id := range a {
		if !b[id] {
			want = append(want, "< "+id)
		}
	}
	for id := range b {
		if !a[id] {
			want = append(want, "> "+id)
		}
	}
	r := x.PT(x.Dir, "lint", "--diff-lint-groups", c.A+","+c.B)
	if missing, extra := diffLines(want, lines(r.Out)); r.Code != 0 || len(missing)+len(extra) > 0 {
		return bad("wrong difference of lint groups: %s\nmissing %q\nunexpected %q", r, missing, extra)
	}
	if r := x.PT(x.Dir, "lint", "--list-all-lint-groups"); r.Code != 0 || r.Out != "empty\ngoogle\nuber1\nuber2\n" {
		return bad("wrong lint groups: %s", r)
	}
	if r := x.PT(x.Dir, "lint", "--list-all-linters"); r.Code != 0 || strings.Join(firstColumn(r.Out), " ") != strings.Join(sortedKeys(lintRules), " ") {
		return bad("wrong list of all rules: %s", r)
	}
	if r := x.PT(x.Dir, "lint", "--list-all-linters", "--list-linters"); r.Code == 0 {
		return bad("two listings at once accepted: %s", r)
	}
	// the unknown name
	var text string
	args := []string{"lint"}
	rules := M{}
	switch c.Where {
	case "add", "remove":
		rules[c.Where] = append(append([]string{}, c.More...), c.Name)
		text = put(M{"group": c.A, "rules": rules})
	case "ignores":
		is := []M{{"id": c.Name, "files": []string{"x.proto"}}}
		for _, id := range c.More {
			is = append(is, M{"id": id, "files": []string{"x.proto"}})
		}
		text = put(M{"group": c.A, "ignores": is})
	case "group":
		text = put(M{"group": c.Name})
	case "list-lint-group":
		args = append(args, "--list-lint-group", c.Name)
	case "diff-lint-groups":
		v := []string{c.A, c.Name}
		if len(c.More)%2 == 1 {
			v = []string{c.Name, c.A}
		}
		args = append(args, "--diff-lint-groups", strings.Join(v, ","))
	}
	more := [][]string{{}}
	if len(args) == 1 {
		more = [][]string{{}, {"--list-linters"}}
	}
	for _, m := range more {
		r := x.PT(x.Dir, append(append([]string{}, args...), m...)...)
		if r.Code == 0 || !strings.Contains(strings.ToLower(r.Out+r.Err), strings.ToLower(strings.TrimSpace(c.Name))) {
			return bad("the unknown name %q in %s is not refused by name: %s\n%s", c.Name, c.Where, r, text)
		}
		if strings.Contains(r.Out, "a.proto:") {
			return bad("lint went on: %s\n%s", r, text)
		}
	}
	x.Label("unknown name in %s", c.Where)
	x.NonTrivial()
	return nil
}

// ---- C12

type genIgnoresCase struct {
	C    lintCfgCase
	Edit string // file that gets a new failure
}

func genGenIgnores(t *rapid.T) *genIgnoresCase {
	c := &genIgnoresCase{C: *genLintCfg(t)}
	c.C.Target, c.C.How = "", bits(t, 1, "how again")
	if c.C.Work != "" {
		c.C.Target = sample(t, []string{"", c.C.Work}, "target again")
	}
	c.Edit = sample(t, c.C.R.paths(), "edit")
	return c
}

func runGenIgnores(x *Ctx, c *genIgnoresCase) error {
	byRule, ok, err := c.C.R.base(x)
	if err != nil || !ok {
		return err
	}
	cfg := c.C.config(x.Dir, true)
	text := c.C.write(x, cfg)
	work := filepath.Join(x.Dir, c.C.Work)
	arg := spell(x.Dir, c.C.Work, c.C.Target, c.C.How)
	before := snapshot(x.Dir)
	r := x.PT(work, "lint", "--generate-ignores", arg)
	state := func() string {
		return "\nrun in " + c.C.Work + " on " + arg + "\nconfiguration:\n" + text + "\nsources:\n" + dumpFiles(x.Dir, c.C.R.paths())
	}
	if d := diffSnap(before, snapshot(x.Dir)); d != "" {
		return bad("--generate-ignores changed files: %s", d)
	}
	want := map[string]map[string]bool{}
	all, _ := c.C.shown(byRule, false)
	for _, l := range all {
		p := strings.SplitN(l, ":", 5)
		if want[p[3]] == nil {
			want[p[3]] = map[string]bool{}
		}
		want[p[3]][p[0]] = true
	}
	var out struct {
		Lint struct {
			Ignores []struct {
				ID    string
				Files []string
			}
		}
	}
	if err := yaml.UnmarshalStrict([]byte(r.Out), &out); err != nil || r.Code != 0 {
		return bad("--generate-ignores: %v: %s%s", err, r, state())
	}
	if len(all) == 0 && r.Out != "" {
		return bad("--generate-ignores prints something although nothing fails: %s%s", r, state())
	}
	var got, exp []string
	for _, e := range out.Lint.Ignores {
		got = append(got, e.ID+": "+strings.Join(e.Files, " "))
	}
	for _, id := range sortedKeys(want) {
		exp = append(exp, id+": "+strings.Join(sortedKeys(want[id]), " "))
	}
	if strings.Join(got, "\n") != strings.Join(exp, "\n") {
		return bad("--generate-ignores lists the wrong failures: %s\nwant\n%s%s", r, strings.Join(exp, "\n"), state())
	}
	// round trip
	var is []M
	for _, e := range out.Lint.Ignores {
		is = append(is, M{"id": e.ID, "files": e.Files})
	}
	delete(cfg, "ignores")
	if len(is) > 0 {
		cfg["ignores"] = is
	}
	text = c.C.write(x, cfg)
	if r := x.PT(work, "lint", arg); r.Code != 0 || r.Out != "" {
		return bad("lint fails although the generated ignores are in place: %s%s", r, state())
	}
	// Later: one rule that reads single files is no longer ignored, or a copy of
	// an offending file appears elsewhere.
	var cand []int
	for i, e := range out.Lint.Ignores {
		if !crossFile(e.ID) {
			cand = append(cand, i)
		}
	}
	if len(cand) > 0 {
		k := cand[len(c.Edit)%len(cand)]
		e := out.Lint.Ignores[k]
		is[k] = M{"id": e.ID, "files": e.Files[1:]}
		if len(e.Files) == 1 {
			is[k] = M{"id": e.ID, "files": []string{"other/x.proto"}}
		}
		text = c.C.write(x, cfg)
		r := x.PT(work, "lint", "--error-format", "filename:line:column:id:message", arg)
		got := relines(x.Dir, c.C.Work, r.Out)
		if missing, extra := diffLines(byRule[e.ID][e.Files[0]], got); r.Code == 0 || len(missing)+len(extra) > 0 {
			return bad("failures of %s in %s are not ignored, but lint does not report exactly them: %s\nwant %s%s", e.ID, e.Files[0], r, strings.Join(byRule[e.ID][e.Files[0]], "\n"), state())
		}
		x.Label("one pair taken out")
	}
	x.Label("%d rules ignored", (len(is)+4)/5*5)
	if len(is) > 0 {
		x.NonTrivial()
	}
	return nil
}

func init() {
	prop("C11", "model", "a lint configuration (group, no_default, added and removed rules, ignores) over a workspace with offences; non-trivial: the configuration shows some of the failures of the full rule set and hides others, or an unknown name",
		newPart("config", 2200, 30000, genLintCfg, runLintCfg),
		newPart("names", 160, 2000, genLintNames, runLintNames))
	prop("C12", "round-trip", "--generate-ignores over workspaces with offences under generated lint configurations, fed back; non-trivial: something was ignored",
		newPart("round trip", 2000, 28000, genGenIgnores, runGenIgnores))
}
