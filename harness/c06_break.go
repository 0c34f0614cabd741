package main

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	descpb "github.com/golang/protobuf/protoc-gen-go/descriptor"
	"pgregory.net/rapid"
)

// Reference model of break check over two descriptor sets.

type schema struct {
	pkgs map[string]bool
	deps map[string]map[string]bool // package -> packages its files import
	msgs map[string]map[string]*descpb.DescriptorProto
	enum map[string]map[string]*descpb.EnumDescriptorProto
	svcs map[string]map[string]*descpb.ServiceDescriptorProto
}

func schemaOf(files []*descpb.FileDescriptorProto, skip func(pkg string) bool) *schema {
	s := &schema{pkgs: map[string]bool{}, deps: map[string]map[string]bool{},
		msgs: map[string]map[string]*descpb.DescriptorProto{},
		enum: map[string]map[string]*descpb.EnumDescriptorProto{},
		svcs: map[string]map[string]*descpb.ServiceDescriptorProto{}}
	pkgOf := map[string]string{}
	for _, f := range files {
		pkgOf[f.GetName()] = f.GetPackage()
	}
	for _, f := range files {
		p := f.GetPackage()
		if skip(p) {
			continue
		}
		if !s.pkgs[p] {
			s.pkgs[p] = true
			s.deps[p] = map[string]bool{}
			s.msgs[p] = map[string]*descpb.DescriptorProto{}
			s.enum[p] = map[string]*descpb.EnumDescriptorProto{}
			s.svcs[p] = map[string]*descpb.ServiceDescriptorProto{}
		}
		for _, d := range f.Dependency {
			if q := pkgOf[d]; q != p {
				s.deps[p][q] = true
			}
		}
		for _, m := range f.MessageType {
			s.msgs[p][m.GetName()] = m
		}
		for _, e := range f.EnumType {
			s.enum[p][e.GetName()] = e
		}
		for _, v := range f.Service {
			s.svcs[p][v.GetName()] = v
		}
	}
	return s
}

type breakModel struct{ out []string }

func (b *breakModel) add(format string, args ...interface{}) {
	b.out = append(b.out, fmt.Sprintf(format, args...))
}

func isBetaPkg(p string) bool { return isBeta(p) }

// modelBreak returns the sorted messages for the pair; the new name of an
// alias that disappeared is left open (a "*" at the end).
func modelBreak(from, to []*descpb.FileDescriptorProto, includeBeta, allowBetaDeps bool) []string {
	skip := func(p string) bool { return !includeBeta && isBetaPkg(p) }
	a, b := schemaOf(from, skip), schemaOf(to, skip)
	m := &breakModel{}
	for p := range a.pkgs {
		if !b.pkgs[p] {
			m.add("Package %q was deleted.", p)
			continue
		}
		m.msgs(p, a.msgs[p], b.msgs[p])
		m.enums(p, a.enum[p], b.enum[p])
		for n, s := range a.svcs[p] {
			if t := b.svcs[p][n]; t == nil {
				m.add("Service %q was deleted.", p+"."+n)
			} else {
				m.service(p+"."+n, s, t)
			}
		}
	}
	if !includeBeta && !allowBetaDeps {
		for p := range b.pkgs {
			for q := range b.deps[p] {
				if isBetaPkg(q) {
					m.add("Package %q depends on beta package %q which is not allowed.", p, q)
				}
			}
		}
	}
	sort.Strings(m.out)
	return m.out
}

func nestedMsgs(m *descpb.DescriptorProto) map[string]*descpb.DescriptorProto {
	out := map[string]*descpb.DescriptorProto{}
	for _, n := range m.NestedType {
		out[n.GetName()] = n
	}
	return out
}

func nestedEnums(m *descpb.DescriptorProto) map[string]*descpb.EnumDescriptorProto {
	out := map[string]*descpb.EnumDescriptorProto{}
	for _, n := range m.EnumType {
		out[n.GetName()] = n
	}
	return out
}

func (m *breakModel) msgs(scope string, a, b map[string]*descpb.DescriptorProto) {
	for n, x := range a {
		full := scope + "." + n
		y := b[n]
		if y == nil {
			m.add("Message %q was deleted.", full)
			continue
		}
		m.message(full, x, y)
		m.msgs(full, nestedMsgs(x), nestedMsgs(y))
		m.enums(full, nestedEnums(x), nestedEnums(y))
	}
}

var labelName = map[int32]string{1: "optional", 2: "required", 3: "repeated"}

func typeName(f *descpb.FieldDescriptorProto) string {
	return strings.ToLower(strings.TrimPrefix(f.GetType().String(), "TYPE_"))
}

func oneofOf(m *descpb.DescriptorProto, f *descpb.FieldDescriptorProto) (string, bool) {
	if f.OneofIndex == nil {
		return "", false
	}
	return m.OneofDecl[f.GetOneofIndex()].GetName(), true
}

func (m *breakModel) message(full string, a, b *descpb.DescriptorProto) {
	to := map[int32]*descpb.FieldDescriptorProto{}
	oneofs := map[string]bool{}
	for _, o := range b.OneofDecl {
		oneofs[o.GetName()] = true
	}
	for _, f := range b.Field {
		to[f.GetNumber()] = f
	}
	for _, o := range a.OneofDecl {
		if !oneofs[o.GetName()] {
			m.add("Message oneof %q on message %q was deleted.", o.GetName(), full)
		}
	}
	for _, f := range a.Field {
		n := f.GetNumber()
		t := to[n]
		fo, inOneof := oneofOf(a, f)
		if inOneof && oneofs[fo] {
			still := false
			if t != nil {
				o, ok := oneofOf(b, t)
				still = ok && o == fo
			}
			if !still {
				m.add(`Message oneof %q on message %q had field "%d" removed.`, fo, full, n)
			}
		}
		if t == nil {
			m.add(`Message field "%d" on message %q was deleted.`, n, full)
			continue
		}
		if o, ok := oneofOf(b, t); ok && !inOneof {
			m.add(`Message field "%d" on message %q moved from outside any oneof to inside the oneof %q.`, n, full, o)
		}
		if x, y := labelName[int32(f.GetLabel())], labelName[int32(t.GetLabel())]; x != y {
			m.add(`Message field "%d" on message %q changed from %q to %q.`, n, full, x, y)
		}
		if f.GetName() != t.GetName() {
			m.add(`Message field "%d" on message %q changed from %q to %q.`, n, full, f.GetName(), t.GetName())
		}
		if x, y := typeName(f), typeName(t); x != y {
			m.add(`Message field "%d" on message %q changed type from %q to %q.`, n, full, x, y)
		} else if x, y := strings.TrimPrefix(f.GetTypeName(), "."), strings.TrimPrefix(t.GetTypeName(), "."); x != y {
			m.add(`Message field "%d" on message %q changed type from %q to %q.`, n, full, x, y)
		}
	}
}

func (m *breakModel) enums(scope string, a, b map[string]*descpb.EnumDescriptorProto) {
	for n, x := range a {
		full := scope + "." + n
		y := b[n]
		if y == nil {
			m.add("Enum %q was deleted.", full)
			continue
		}
		to := map[int32][]string{}
		for _, v := range y.Value {
			to[v.GetNumber()] = append(to[v.GetNumber()], v.GetName())
		}
		gone := map[int32]bool{}
		for _, v := range x.Value {
			k := v.GetNumber()
			names := to[k]
			if len(names) == 0 {
				if !gone[k] {
					m.add(`Enum value "%d" on enum %q was deleted.`, k, full)
				}
				gone[k] = true
				continue
			}
			if !contains(names, v.GetName()) {
				if len(names) == 1 {
					m.add(`Enum value "%d" on enum %q changed from %q to %q.`, k, full, v.GetName(), names[0])
				} else {
					m.add(`Enum value "%d" on enum %q changed from %q to *`, k, full, v.GetName())
				}
			}
		}
	}
}

func (m *breakModel) service(full string, a, b *descpb.ServiceDescriptorProto) {
	to := map[string]*descpb.MethodDescriptorProto{}
	for _, x := range b.Method {
		to[x.GetName()] = x
	}
	stream := func(kind string, a, b bool, name string) {
		x, y := "not "+kind, kind
		if a {
			x, y = y, x
		}
		if a != b {
			m.add("Service method %q on service %q changed from %s to %s.", name, full, x, y)
		}
	}
	for _, x := range a.Method {
		n := x.GetName()
		y := to[n]
		if y == nil {
			m.add("Service method %q on service %q was deleted.", n, full)
			continue
		}
		if p, q := x.GetInputType()[1:], y.GetInputType()[1:]; p != q {
			m.add("Service method %q on service %q changed request type from %q to %q.", n, full, p, q)
		}
		if p, q := x.GetOutputType()[1:], y.GetOutputType()[1:]; p != q {
			m.add("Service method %q on service %q changed response type from %q to %q.", n, full, p, q)
		}
		stream("client streaming", x.GetClientStreaming(), y.GetClientStreaming(), n)
		stream("server streaming", x.GetServerStreaming(), y.GetServerStreaming(), n)
	}
}

// sameMessages compares printed with expected messages.
func sameMessages(got, want []string) bool {
	if len(got) != len(want) {
		return false
	}
	got = append([]string{}, got...)
	sort.Strings(got)
	used := make([]bool, len(got))
	for pass := 0; pass < 2; pass++ {
	next:
		for _, w := range want {
			star := strings.HasSuffix(w, "*")
			if star != (pass == 1) {
				continue
			}
			for i, g := range got {
				if !used[i] && (g == w || star && strings.HasPrefix(g, strings.TrimSuffix(w, "*"))) {
					used[i] = true
					continue next
				}
			}
			return false
		}
	}
	return true
}

type breakCase struct {
	Old           *Workspace
	Edits         []Edit
	IncludeBeta   bool
	AllowBetaDeps bool
	LayoutA       uint64
	LayoutB       uint64
	Saved         int // who saved the old state: 0 protoc, 1 break descriptor-set, 2 descriptor-set --include-imports
}

func (w *Workspace) laidOut(seed uint64) map[string]string {
	out := map[string]string{}
	for i, f := range w.Files {
		s := seed
		if s != 0 {
			s += uint64(i)
		}
		out[f.Path] = layout(f.items(), s)
	}
	return out
}

func breakConfig(includeBeta, allowBetaDeps bool) string {
	m := M{"protoc": M{"allow_unused_imports": true}}
	b := M{}
	if includeBeta {
		b["include_beta"] = true
	}
	if allowBetaDeps {
		b["allow_beta_deps"] = true
	}
	if len(b) > 0 {
		m["break"] = b
	}
	return yamlOf(m)
}

var isBreaking = func() map[string]bool {
	m := map[string]bool{}
	for _, e := range breakingEdits {
		m[e] = true
	}
	return m
}()

// history applies the edits that leave a compiling workspace, one at a time;
// wants are the expectations of the breaking ones.
func (x *Ctx) history(dir string, old *Workspace, edits []Edit, seed uint64) (w *Workspace, applied []string, wants [][]string, fds *descpb.FileDescriptorSet) {
	w = old
	for _, ed := range edits {
		nw := w.clone()
		want, done := nw.apply(ed)
		if !done || len(nw.Files) == 0 {
			continue
		}
		forceRemove(dir)
		texts := nw.laidOut(seed)
		writeFiles(dir, texts)
		set, _ := x.protocSet(dir, sortedKeys(texts))
		if set == nil {
			continue
		}
		w, fds = nw, set
		applied = append(applied, ed.Kind)
		if isBreaking[ed.Kind] {
			wants = append(wants, want)
		}
	}
	forceRemove(dir)
	texts := w.laidOut(seed)
	writeFiles(dir, texts)
	if fds == nil {
		fds, _ = x.protocSet(dir, sortedKeys(texts))
	}
	return w, applied, wants, fds
}

func checkBreak(x *Ctx, c *breakCase) error {
	oldDir, newDir := filepath.Join(x.Dir, "old"), filepath.Join(x.Dir, "new")
	cfg := breakConfig(c.IncludeBeta, c.AllowBetaDeps)
	texts := c.Old.laidOut(c.LayoutA)
	writeFiles(oldDir, texts)
	from, r := x.protocSet(oldDir, sortedKeys(texts))
	if from == nil {
		x.Label("protoc rejects the generated source")
		_ = r
		return nil
	}
	// the state to compare with is saved before anything changes
	saved := filepath.Join(x.Dir, "saved.bin")
	switch c.Saved {
	case 0:
		args := []string{"-I", oldDir, "-I", "/usr/include", "--include_imports", "-o", saved}
		if r := x.Protoc(oldDir, append(args, sortedKeys(texts)...)...); r.Code != 0 {
			infra("%s", r)
		}
	default:
		writeFiles(oldDir, map[string]string{"prototool.yaml": cfg})
		args := []string{"break", "descriptor-set", "-o", saved}
		if c.Saved == 2 {
			args = []string{"descriptor-set", "--include-imports", "-o", saved}
		}
		if r := x.PT(oldDir, args...); r.Code != 0 {
			return bad("%s", r)
		}
	}
	w, applied, wants, to := x.history(newDir, c.Old, c.Edits, c.LayoutB)
	if to == nil {
		infra("the new version does not compile")
	}
	writeFiles(newDir, map[string]string{"prototool.yaml": cfg})
	describe := func() string {
		return fmt.Sprintf("edits %v\n=== old\n%s\n=== new\n%s", applied, allText(texts), allText(w.laidOut(c.LayoutB)))
	}
	want := modelBreak(from.File, to.File, c.IncludeBeta, c.AllowBetaDeps)
	// the elements of files that were only imported before and are not any more
	var kept []*descpb.FileDescriptorProto
	still := map[string]bool{}
	for _, f := range to.File {
		still[f.GetName()] = true
	}
	for _, f := range from.File {
		if texts[f.GetName()] != "" || still[f.GetName()] {
			kept = append(kept, f)
		}
	}
	strict := modelBreak(kept, to.File, c.IncludeBeta, c.AllowBetaDeps)
	r = x.PT(newDir, "break", "check", "--descriptor-set-path", saved)
	got := lines(r.Out)
	for _, k := range applied {
		x.Label("edit: %s", k)
	}
	x.Label("%s", map[bool]string{true: "no message", false: "messages"}[len(got) == 0])
	if len(applied) > 0 {
		x.NonTrivial()
	}
	switch {
	case sameMessages(got, strict):
	case sameMessages(got, want):
		return badKey("import-only-dropped", "definitions of a file that the old version only imported are reported as deleted: %s\n%s", r, describe())
	default:
		return bad("break check reports something else than the differences of the two versions\nexpected:\n%s\ngot: %s\n%s", strings.Join(strict, "\n"), r, describe())
	}
	if (r.Code != 0) != (len(got) > 0) || r.Code != 0 && r.Err != "" && strings.TrimSpace(r.Err) != "" {
		return bad("exit code or stderr does not fit the messages: %s\n%s", r, describe())
	}
	// independent of the model: a single breaking edit is named, none is silent
	beta := false
	for _, f := range c.Old.Files {
		beta = beta || isBetaPkg(f.Pkg)
	}
	if (!beta || c.IncludeBeta) && len(wants) <= 1 {
		if len(wants) == 0 && len(got) > 0 {
			return bad("compatible edits are reported: %s\n%s", r, describe())
		}
		if len(wants) == 1 && isBreaking[applied[0]] {
			x.Label("single breaking edit")
			ok := false
			for _, l := range got {
				all := true
				for _, s := range wants[0] {
					all = all && strings.Contains(l, s)
				}
				ok = ok || all
			}
			if !ok {
				return bad("the breaking edit %v is not reported, expected a message with %q: %s\n%s", applied, wants[0], r, describe())
			}
		}
	}
	return nil
}

var breakCfg = genCfg{MinFiles: 1, MaxFiles: 3, MinElems: 1, MaxElems: 4, MaxBody: 5, MaxDepth: 2, Services: true, MoreServices: 50, Groups: true, Options: true,
	Extends: true, Proto3Optional: true, Alias: true, OneofGroups: true, ImportPct: 60, Nest: 15,
	Pkgs: []string{"foo", "foo.bar", "foo.v1", "foo.bar.v1", "acme.v2"}}

func drawEdits(t *rapid.T, kinds []string, lo, hi int) []Edit {
	var out []Edit
	for i := rapid.IntRange(lo, hi).Draw(t, "nedits"); i > 0; i-- {
		out = append(out, Edit{
			Kind: kinds[uniform(t, len(kinds), "edit")],
			N:    bits(t, 6, "which"),
			M:    bits(t, 5, "variant"),
			Near: rapid.Bool().Draw(t, "near"),
		})
	}
	return out
}

func drawLayouts(t *rapid.T, c *breakCase) {
	c.LayoutA = rapid.Uint64Range(0, 1<<16).Draw(t, "layout a")
	c.LayoutB = rapid.Uint64Range(0, 1<<16).Draw(t, "layout b")
	c.Saved = rapid.IntRange(0, 2).Draw(t, "saved by")
}

func init() {
	// C06: one breaking edit among compatible ones, and arbitrary histories
	// few packages and one syntax make moves between files possible
	near := func(t *rapid.T, cfg genCfg) genCfg {
		if rapid.Bool().Draw(t, "near files") {
			cfg.Pkgs = []string{"foo.v1", "foo.v1", "foo"}
			cfg.OnlySyntax = sample(t, []string{"proto3", "proto2"}, "one syntax")
			cfg.MinFiles = 2
		}
		return cfg
	}
	single := func(t *rapid.T) *breakCase {
		c := &breakCase{Old: genWorkspace(t, near(t, breakCfg))}
		c.Edits = append(drawEdits(t, breakingEdits, 1, 1), drawEdits(t, compatibleEdits, 0, 2)...)
		drawLayouts(t, c)
		return c
	}
	mixed := func(t *rapid.T) *breakCase {
		c := &breakCase{Old: genWorkspace(t, near(t, breakCfg))}
		c.Edits = drawEdits(t, append(append([]string{}, breakingEdits...), compatibleEdits...), 1, 9)
		drawLayouts(t, c)
		return c
	}
	prop("C06", "model", "the new version differs from the old one by at least one edit",
		newPart("single", 1700, 30000, single, checkBreak),
		newPart("history", 1100, 20000, mixed, checkBreak),
		newPart("signatures", 700, 12000, genSig, runSig))

	// C07: compatible histories
	wkt := breakCfg
	wkt.WKT = true
	compat := func(t *rapid.T) *breakCase {
		c := &breakCase{Old: genWorkspace(t, near(t, breakCfg))}
		c.Edits = drawEdits(t, compatibleEdits, 0, 10)
		drawLayouts(t, c)
		return c
	}
	prop("C07", "model", "at least one edit was applied to the old version",
		newPart("compatible", 1400, 24000, compat, checkBreak),
		newPart("imports", 600, 10000, func(t *rapid.T) *breakCase {
			c := &breakCase{Old: genWorkspace(t, wkt)}
			c.Edits = drawEdits(t, append(append([]string{}, compatibleEdits...), "delete", "imports", "imports", "delete field", "delete package"), 0, 8)
			drawLayouts(t, c)
			return c
		}, checkBreak))

	// C08: beta packages
	beta := func(t *rapid.T) *breakCase {
		cfg := breakCfg
		cfg.MaxFiles = 5
		cfg.MaxElems = 2
		cfg.MaxBody = 3
		cfg.MaxDepth = 1
		cfg.ImportPct = 70
		n := rapid.IntRange(1, 4).Draw(t, "npkgs")
		cfg.Pkgs = nil
		for i := 0; i < n; i++ {
			switch rapid.IntRange(0, 3).Draw(t, "pkg kind") {
			case 0:
				cfg.Pkgs = append(cfg.Pkgs, sample(t, []string{"foo", "foo.bar", "a.b.c"}, "base")+"."+
					sample(t, []string{"v1beta1", "v2beta1", "v1beta2", "v10beta11", "v1beta10", "v99beta99"}, "beta"))
			case 1:
				cfg.Pkgs = append(cfg.Pkgs, sample(t, []string{"foo", "foo.bar"}, "base")+"."+
					sample(t, []string{"v1", "v2", "v0", "v1beta0", "v0beta1", "beta1", "v1beta", "vbeta1", "V1beta1", "v1Beta1", "v1alpha1", "v1beta1x", "xv1beta1", "v1beta1beta1", "v1_beta1", "v1beta1.foo", "v1beta1.v1", "v1.v1beta1", "betav1"}, "near"))
			default:
				cfg.Pkgs = append(cfg.Pkgs, genPackage(t, "pkg"))
			}
			if !strings.Contains(cfg.Pkgs[i], ".") {
				cfg.Pkgs[i] = "z" + cfg.Pkgs[i]
			}
		}
		c := &breakCase{Old: genWorkspace(t, cfg)}
		c.Edits = drawEdits(t, append(append([]string{"delete", "delete package", "rename package", "delete field", "imports", "imports"}, breakingEdits...), compatibleEdits...), 0, 6)
		drawLayouts(t, c)
		c.IncludeBeta = rapid.IntRange(0, 2).Draw(t, "include beta") == 0
		c.AllowBetaDeps = rapid.IntRange(0, 2).Draw(t, "allow beta deps") == 0
		return c
	}
	prop("C08", "model", "some package is beta",
		newPart("beta", 2200, 24000, beta, func(x *Ctx, c *breakCase) error {
			err := checkBreak(x, c)
			x.nontr = false
			for _, f := range c.Old.Files {
				if isBetaPkg(f.Pkg) {
					x.NonTrivial()
				}
			}
			return err
		}))
}
