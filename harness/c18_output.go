package main

// C18: what failures look like. The JSON output of a run on a directory is the
// reference; every other format, file argument and repetition is derived from
// it and compared byte for byte.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

type outputCase struct {
	Kind    string // compile, lint or format
	Comp    *compCase
	Lint    *rulesCase
	Bodies  map[string]int // format: kind of body per path
	All     bool           // through all instead of lint or compile
	Formats []string
	Work    int
	Target  int
	How     int
	Fix     bool
}

var errorFields = []string{"filename", "line", "column", "id", "message"}

func genOutput(kind string) func(t *rapid.T) *outputCase {
	return func(t *rapid.T) *outputCase {
		c := &outputCase{Kind: kind, Work: bits(t, 4, "work"), Target: bits(t, 4, "target"), How: bits(t, 3, "how"), Fix: rapid.Bool().Draw(t, "fix")}
		switch kind {
		case "compile":
			c.Comp = genCompile(t)
			c.Comp.Config = 1
			c.Comp.Plugin = false
		case "lint":
			c.Lint = genRules(t)
		case "format":
			c.Bodies = map[string]int{}
			for _, p := range genTreePaths(t, 1, 10) {
				c.Bodies[p] = bits(t, 4, "body") % protoBodies
			}
		}
		c.All = rapid.IntRange(0, 3).Draw(t, "all") == 0
		for i := 1 + bits(t, 1, "formats"); i > 0; i-- {
			var fs []string
			for j := 1 + bits(t, 3, "fields")%6; j > 0; j-- {
				f := sample(t, errorFields, "field")
				if bits(t, 3, "case") == 0 {
					f = strings.ToUpper(f)
				}
				fs = append(fs, f)
			}
			if bits(t, 4, "bad field") == 0 {
				fs[uniform(t, len(fs), "bad at")] = sample(t, []string{"file", "", "lint_id", "Line ", "message,"}, "unknown field")
			}
			f := strings.Join(fs, ":")
			if f == "" {
				f = "filename:line:column:message" // an empty format is the default
			}
			c.Formats = append(c.Formats, f)
		}
		return c
	}
}

type failure struct {
	Filename *string `json:"filename"`
	Line     *int    `json:"line"`
	Column   *int    `json:"column"`
	LintID   *string `json:"lint_id"`
	Message  *string `json:"message"`
}

func (f *failure) name() string {
	if f.Filename == nil {
		return ""
	}
	return *f.Filename
}

func num(n *int) int {
	if n == nil || *n == 0 {
		return 1
	}
	return *n
}

func readFailures(out string) (fs []*failure, raw []string, err error) {
	if out != "" && !strings.HasSuffix(out, "\n") {
		return nil, nil, bad("the last line has no end")
	}
	for _, l := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
		if out == "" {
			break
		}
		f := &failure{}
		d := json.NewDecoder(bytes.NewReader([]byte(l)))
		d.DisallowUnknownFields()
		if err := d.Decode(f); err != nil || d.More() {
			return nil, nil, bad("not one JSON object on the line %q: %v", l, err)
		}
		if f.Filename != nil && *f.Filename == "" || f.Message == nil || *f.Message == "" {
			return nil, nil, bad("a failure without a message or with an empty name: %q", l)
		}
		fs, raw = append(fs, f), append(raw, l)
	}
	return fs, raw, nil
}

// render prints the failure by the documented format; ok is false where it is
// left open (a field at the end that the failure does not have).
func (f *failure) render(format string) (s string, ok bool) {
	fields := strings.Split(strings.ToLower(format), ":")
	var out []string
	for i, x := range fields {
		switch x {
		case "filename":
			if f.name() == "" {
				out = append(out, "<input>")
			} else {
				out = append(out, f.name())
			}
		case "line":
			out = append(out, strconv.Itoa(num(f.Line)))
		case "column":
			out = append(out, strconv.Itoa(num(f.Column)))
		case "id":
			if f.LintID != nil {
				out = append(out, *f.LintID)
			} else if i == len(fields)-1 {
				return "", false
			}
		case "message":
			out = append(out, *f.Message)
		}
	}
	if len(fields) > 0 && fields[len(fields)-1] == "id" && f.LintID == nil || len(out) == 0 {
		return "", false
	}
	return strings.Join(out, ":"), true
}

func validFormat(s string) bool {
	for _, x := range strings.Split(s, ":") {
		if !contains(errorFields, strings.ToLower(x)) {
			return false
		}
	}
	return true
}

func less(a, b *failure) bool {
	if a.name() != b.name() {
		return a.name() < b.name()
	}
	n := func(p *int) int {
		if p == nil {
			return 0
		}
		return *p
	}
	if n(a.Line) != n(b.Line) {
		return n(a.Line) < n(b.Line)
	}
	return n(a.Column) < n(b.Column)
}

func runOutput(x *Ctx, c *outputCase) error {
	root := filepath.Join(x.Dir, "r")
	files := map[string]string{}
	cfg := M{"lint": M{"group": "empty"}}
	args := []string{c.Kind}
	switch c.Kind {
	case "compile":
		pc := M{"allow_unused_imports": c.Comp.Unused}
		var incs []string
		for _, inc := range c.Comp.Includes {
			rel, err := filepath.Rel("top", inc)
			must(err)
			incs = append(incs, rel)
		}
		if incs != nil {
			pc["includes"] = incs
		}
		cfg["protoc"] = pc
		for i, f := range c.Comp.Files {
			rel, err := filepath.Rel("top", f.Path)
			must(err)
			files[rel] = f.text(i, c.Comp.Files)
		}
		if c.All {
			args = []string{"all"}
		}
	case "lint":
		m := lintWorkspace(c.Lint.W, c.Lint.Header.want(), c.Lint.Prefix)
		lint := M{"group": "empty", "rules": M{"add": sortedKeys(lintRules)}}
		c.Lint.settings(lint)
		for p, s := range m.texts {
			files[p] = s
		}
		c.Lint.Header.apply(lint, files)
		cfg = M{"protoc": M{"allow_unused_imports": true}, "lint": lint}
		if c.All {
			args = []string{"all", "--disable-format"}
		}
	case "format":
		for i, p := range sortedKeys(c.Bodies) {
			files[p] = protoBody("p"+msgNameFor(i), msgNameFor(i), c.Bodies[p])
		}
		args = []string{"format", "-l"}
		if c.Fix {
			args = append(args, "--fix")
		}
	}
	files["prototool.yaml"] = yamlOf(cfg)
	writeFiles(root, files)
	var protos []string
	for p := range files {
		if strings.HasSuffix(p, ".proto") && !strings.HasPrefix(p, "../") {
			protos = append(protos, p)
		}
	}
	sort.Strings(protos)
	if len(protos) == 0 {
		return nil
	}
	dirs := dirsOf(protos)
	work := dirs[c.Work%len(dirs)]
	if c.Work >= 8 {
		work = ""
	}
	run := func(target string, how int, more ...string) *Result {
		a := append(append(append([]string{}, args...), more...), spell(root, work, target, how))
		return x.PT(filepath.Join(root, work), a...)
	}
	target := protos[c.Target%len(protos)]
	dir := dirOf(target)
	if c.Target >= 10 {
		dir = ""
	}
	ref := run(dir, 0, "--json")
	again := run(dir, 0, "--json")
	show := func(r *Result) string { return fmt.Sprintf("\n%s\nreference: %s\n%s", r, ref, dumpFiles(root, protos)) }
	if ref.Out != again.Out || ref.Code != again.Code {
		return bad("two runs differ%s", show(again))
	}
	if ref.Code == 1 {
		x.Label("plain error")
		return nil
	}
	fs, raw, err := readFailures(ref.Out)
	if err != nil {
		return bad("%s%s", err, show(ref))
	}
	if (len(fs) > 0) != (ref.Code != 0) {
		return bad("%d failures and exit code %d%s", len(fs), ref.Code, show(ref))
	}
	for i := 1; i < len(fs); i++ {
		sortedBy := !less(fs[i], fs[i-1])
		if c.Kind == "format" {
			// the directories come in order, and the files of each
			a, b := fs[i-1].name(), fs[i].name()
			sortedBy = filepath.Dir(a) < filepath.Dir(b) || filepath.Dir(a) == filepath.Dir(b) && a < b
			absA, absB := filepath.Join(root, work, a), filepath.Join(root, work, b)
			sortedBy = sortedBy || filepath.Dir(absA) < filepath.Dir(absB)
		}
		if !sortedBy {
			return bad("the failures are not sorted: %q before %q%s", raw[i-1], raw[i], show(ref))
		}
	}
	if c.Kind == "lint" && len(fs) > 0 && fs[0].LintID != nil {
		// the failures themselves, against the model of the rules
		x.Label("with rule ids")
	}
	render := func(sel []*failure, format string) (string, bool) {
		var b strings.Builder
		for _, f := range sel {
			s, ok := f.render(format)
			if !ok {
				return "", false
			}
			b.WriteString(s + "\n")
		}
		return b.String(), true
	}
	// without flags
	plain := run(dir, c.How)
	if want, _ := render(fs, "filename:line:column:message"); plain.Out != want || plain.Code != ref.Code {
		return bad("the default output is not the JSON output in the default format%s", show(plain))
	}
	for _, f := range c.Formats {
		r := run(dir, c.How, "--error-format", f)
		if !validFormat(f) {
			if len(fs) > 0 && (r.Code == 0 || r.Out == plain.Out) {
				return bad("the format %q is not refused%s", f, show(r))
			}
			x.Label("unknown field")
			continue
		}
		want, ok := render(fs, f)
		if ok && (r.Out != want || r.Code != ref.Code) {
			return bad("the output in the format %q is not\n%s%s", f, want, show(r))
		}
		if !ok && r.Code != ref.Code {
			return bad("exit code with the format %q%s", f, show(r))
		}
		x.Label("format with %d fields decided %v", strings.Count(f, ":")+1, ok)
		j := run(dir, c.How, "--error-format", f, "--json")
		if j.Out != ref.Out || j.Code != ref.Code {
			return bad("the JSON output depends on the error format%s", show(j))
		}
	}
	// a file argument: the failures of its directory that are its own
	dirRun := ref
	if dir != dirOf(target) {
		dirRun = run(dirOf(target), 0, "--json")
	}
	dfs, draw, err := readFailures(dirRun.Out)
	if err != nil {
		return bad("%s%s", err, show(dirRun))
	}
	var own []*failure
	var ownRaw strings.Builder
	for i, f := range dfs {
		p := f.name()
		if p == "" {
			// not about a file: a missing import
			p = filepath.Join(root, target)
			x.Label("file argument, failure without a file")
		}
		if !filepath.IsAbs(p) {
			p = filepath.Join(root, work, p)
		}
		if p == filepath.Join(root, target) {
			own = append(own, f)
			ownRaw.WriteString(draw[i] + "\n")
		}
	}
	one := run(target, c.How, "--json")
	if one.Out != ownRaw.String() {
		return bad("a file argument prints\n%s\nand not the failures of that file\n%s%s", one.Out, ownRaw.String(), show(dirRun))
	}
	if len(own) > 0 && one.Code == 0 {
		return bad("failures and exit code 0%s", show(one))
	}
	if len(dfs) == 0 && one.Code != 0 {
		return bad("a file argument fails, its directory does not%s", show(one))
	}
	text := run(target, c.How+3)
	if want, _ := render(own, "filename:line:column:message"); text.Out != want || text.Code != one.Code {
		return bad("a file argument prints\n%s\nwant\n%s%s", text.Out, want, show(dirRun))
	}
	if len(own) > 0 {
		x.Label("file argument, failures of other files %v", len(dfs) > len(own))
	}
	x.Label("%s failures %v", strings.Join(args, " "), len(fs) > 0)
	if len(fs) > 1 {
		x.NonTrivial()
	}
	return nil
}

func init() {
	prop("C18", "metamorphic", "failing workspaces; every output format, file argument and repetition is derived from the JSON output of the directory; or several things are wrong at once and the command runs five times; non-trivial: at least two failures, or it fails with at least two things wrong",
		newPart("compile", 400, 5000, genOutput("compile"), runOutput),
		newPart("lint", 500, 6000, genOutput("lint"), runOutput),
		newPart("format", 300, 4000, genOutput("format"), runOutput),
		newPart("errors", 800, 8000, genSeveral, runSeveral))
}
