package main

import (
	"fmt"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/golang/protobuf/proto"
	descpb "github.com/golang/protobuf/protoc-gen-go/descriptor"
	"pgregory.net/rapid"
)

const cfgUnused = "protoc:\n  allow_unused_imports: true\n"

// protocSet compiles files (relative to dir) and returns the descriptor set.
func (x *Ctx) protocSet(dir string, files []string, extra ...string) (*descpb.FileDescriptorSet, *Result) {
	out := filepath.Join(x.Root, "protoc.bin")
	args := append([]string{"-I", dir, "-I", "/usr/include", "--include_imports", "-o", out}, extra...)
	r := x.Protoc(dir, append(args, files...)...)
	if r.Code != 0 {
		return nil, r
	}
	fds := &descpb.FileDescriptorSet{}
	must(proto.Unmarshal([]byte(readFile(out)), fds))
	return fds, r
}

// protocPer compiles each file in its own protoc run.
func (x *Ctx) protocPer(dir string, files []string) (map[string]*descpb.FileDescriptorProto, *Result) {
	fds, r := x.protocSet(dir, files)
	if fds == nil {
		return nil, r
	}
	out := map[string]*descpb.FileDescriptorProto{}
	for _, f := range fds.File {
		out[f.GetName()] = f
	}
	return out, nil
}

// normDesc makes a descriptor comparable: the order of imports is layout.
func normDesc(f *descpb.FileDescriptorProto) *descpb.FileDescriptorProto {
	f = proto.Clone(f).(*descpb.FileDescriptorProto)
	f.SourceCodeInfo = nil
	// "rpc ... {}" and "rpc ...;" are the same method
	for _, svc := range f.Service {
		for _, m := range svc.Method {
			if m.Options != nil && proto.Size(m.Options) == 0 {
				m.Options = nil
			}
		}
	}
	mods := map[string]string{}
	for _, i := range f.PublicDependency {
		mods[f.Dependency[i]] += " public"
	}
	for _, i := range f.WeakDependency {
		mods[f.Dependency[i]] += " weak"
	}
	for i, d := range f.Dependency {
		f.Dependency[i] = d + mods[d]
	}
	sort.Strings(f.Dependency)
	f.PublicDependency, f.WeakDependency = nil, nil
	return f
}

// canonical text of a descriptor in which the order of options does not matter:
// unknown fields (custom options) are sorted by number, occurrences in order.
func descText(f *descpb.FileDescriptorProto) string {
	return proto.MarshalTextString(f)
}

func sameDesc(a, b *descpb.FileDescriptorProto) (string, bool) {
	na, nb := normDesc(a), normDesc(b)
	sortUnknown(na)
	sortUnknown(nb)
	if proto.Equal(na, nb) {
		return "", true
	}
	ta, tb := descText(na), descText(nb)
	la, lb := strings.Split(ta, "\n"), strings.Split(tb, "\n")
	for i := range la {
		if i >= len(lb) || la[i] != lb[i] {
			got := "(end)"
			if i < len(lb) {
				got = lb[i]
			}
			return fmt.Sprintf("line %d of the descriptor text: %q became %q\n--- before\n%s\n--- after\n%s", i, la[i], got, clip(ta), clip(tb)), false
		}
	}
	return "descriptors differ\n--- before\n" + clip(ta) + "\n--- after\n" + clip(tb), false
}

var wildFormat = genCfg{MinFiles: 1, MaxFiles: 3, MaxElems: 4, MaxBody: 6, MaxDepth: 2, Options: true, CustomOpts: true,
	EmptyBodies: true, WildNames: true, Services: true, Groups: true, Extends: true, Proto3Optional: true, Keywords: true,
	NoPackage: true, HexNums: true, FileOpts: true, WKT: true, WeakImports: true, Alias: true, RichLits: true, OneofGroups: true, NestedExtend: true, EmptyStmts: true, Merge: true}

type formatCase struct {
	Files map[string]string
	Seed  uint64 // layout
}

func genFormatCase(cfg genCfg, layouts bool) func(t *rapid.T) *formatCase {
	return func(t *rapid.T) *formatCase {
		w := genWorkspace(t, cfg)
		c := &formatCase{Files: map[string]string{}}
		if layouts && rapid.Bool().Draw(t, "wild layout") {
			c.Seed = rapid.Uint64Range(0, 1<<20).Draw(t, "layout")
		}
		for _, f := range w.Files {
			c.Files[f.Path] = layout(f.items(), c.Seed)
		}
		return c
	}
}

func usesVopt(files map[string]string) bool {
	for _, s := range files {
		if strings.Contains(s, "vopt/vopt.proto") {
			return true
		}
	}
	return false
}

// setup writes the case into x.Dir with a configuration.
func (x *Ctx) setup(files map[string]string, cfg string) []string {
	writeFiles(x.Dir, files)
	names := sortedKeys(files)
	if usesVopt(files) {
		writeFiles(x.Dir, map[string]string{"vopt/vopt.proto": voptFile()})
	}
	writeFiles(x.Dir, map[string]string{"prototool.yaml": cfg})
	return names
}

func runC01(x *Ctx, c *formatCase) error {
	names := x.setup(c.Files, cfgUnused)
	before, r := x.protocPer(x.Dir, names)
	if before == nil {
		x.Label("protoc rejects the generated source")
		if x.Tier == "debug" {
			fmt.Println(r, c.Files)
		}
		return nil
	}
	fr := x.PT(x.Dir, "format", "-w", ".")
	if fr.Code != 0 {
		x.Label("format rejects: %s", rejectKind(fr.Out+fr.Err))
		if strings.TrimSpace(fr.Out+fr.Err) == "" {
			return bad("format rejected without a message: %s", fr)
		}
		return bad("format rejected files that protoc accepts: %s\n%s", fr, dumpFiles(x.Dir, names))
	} else {
		x.Label("formatted")
	}
	after, r2 := x.protocPer(x.Dir, names)
	changed := 0
	for _, n := range names {
		if readFile(filepath.Join(x.Dir, n)) != c.Files[n] {
			changed++
		}
	}
	if changed > 0 {
		x.NonTrivial()
	}
	if after == nil {
		return bad("formatted files no longer compile: %s\n--- formatted\n%s", r2, dumpFiles(x.Dir, names))
	}
	for _, n := range names {
		if d, ok := sameDesc(before[n], after[n]); !ok {
			return bad("formatting changed the meaning of %s: %s\n--- formatted\n%s", n, d, readFile(filepath.Join(x.Dir, n)))
		}
	}
	return nil
}

// damagedCase is a workspace with changes as someone might type them; those
// that protoc rejects are undone.
type damagedCase struct {
	Files   map[string]string
	Damages []damage
}

func genDamaged(t *rapid.T) *damagedCase {
	cfg := wildFormat
	cfg.MaxElems, cfg.MaxBody = 3, 4
	f := genFormatCase(cfg, true)(t)
	return &damagedCase{Files: f.Files, Damages: genDamage(t, plainTokens, len(f.Files), 8)}
}

// plainTokens are the tokens that are no comment.
var plainTokens = func() []string {
	var out []string
	for _, s := range protoTokens {
		if !strings.Contains(s, "/*") && !strings.Contains(s, "//") && !strings.Contains(s, "*/") {
			out = append(out, s)
		}
	}
	return out
}()

func runDamaged(x *Ctx, c *damagedCase) error {
	names := x.setup(c.Files, cfgUnused)
	texts := map[string]string{}
	for k, v := range c.Files {
		texts[k] = v
	}
	kept := 0
	before, _ := x.protocPer(x.Dir, names)
	for _, d := range c.Damages {
		n := names[d.File%len(names)]
		s := d.apply(texts[n])
		if s == texts[n] || len(s) > 1<<14 || knownForms.MatchString(s) {
			continue
		}
		writeFiles(x.Dir, map[string]string{n: s})
		if b, _ := x.protocPer(x.Dir, names); b != nil {
			texts[n], before = s, b
			kept++
			x.Label("kept: %s", d.Kind)
		} else {
			writeFiles(x.Dir, map[string]string{n: texts[n]})
		}
	}
	if before == nil {
		x.Label("protoc rejects the source")
		return nil
	}
	fr := x.PT(x.Dir, "format", "-w", ".")
	if fr.Code != 0 {
		x.Label("format rejects: %s", rejectKind(fr.Out+fr.Err))
		if strings.TrimSpace(fr.Out+fr.Err) == "" {
			return bad("format rejected without a message: %s", fr)
		}
		for _, n := range names {
			if fr.Code != 255 && len(names) == 1 && readFile(filepath.Join(x.Dir, n)) != texts[n] {
				return bad("format rejected %s but changed it: %s", n, fr)
			}
		}
	} else if kept > 0 {
		x.NonTrivial()
	}
	after, r := x.protocPer(x.Dir, names)
	if after == nil {
		return bad("formatted files no longer compile: %s\n--- from\n%s\n--- formatted\n%s", r, allText(texts), dumpFiles(x.Dir, names))
	}
	for _, n := range names {
		if d, ok := sameDesc(before[n], after[n]); !ok {
			return bad("formatting changed the meaning of %s: %s\n--- from\n%s\n--- formatted\n%s", n, d, texts[n], readFile(filepath.Join(x.Dir, n)))
		}
	}
	return nil
}

func allText(files map[string]string) string {
	var b strings.Builder
	for _, n := range sortedKeys(files) {
		b.WriteString(files[n])
	}
	return b.String()
}

func rejectKind(s string) string {
	s = strings.TrimSpace(s)
	if i := strings.Index(s, "\n"); i >= 0 {
		s = s[:i]
	}
	// drop positions and names
	if i := strings.Index(s, ".proto:"); i >= 0 {
		s = s[i+7:]
	}
	s = strings.NewReplacer("0", "", "1", "", "2", "", "3", "", "4", "", "5", "", "6", "", "7", "", "8", "", "9", "").Replace(s)
	if len(s) > 90 {
		s = s[:90]
	}
	return s
}

func dumpFiles(dir string, names []string) string {
	var b strings.Builder
	for _, n := range names {
		fmt.Fprintf(&b, "## %s\n%s", n, readFile(filepath.Join(dir, n)))
	}
	return b.String()
}

// knownFormat are the inputs of the recorded findings; the generators do not
// produce them elsewhere.
var knownFormat = []struct{ key, text string }{
	{"single-quoted-string", "syntax = \"proto2\";\n\nmessage A {\n  optional string s = 1 [default = 'a b'];\n}\n"},
	{"octal-number", "syntax = \"proto2\";\n\nmessage A {\n  optional string s = 010;\n}\n"},
	{"empty-message-entry", knownHead + "option (o) = {\n  a: 1\n  o: {}\n};\n"},
	{"hash-in-option", "syntax = \"proto2\";\n\nimport \"google/protobuf/descriptor.proto\";\n\nmessage O {}\n\nextend google.protobuf.FieldOptions {\n  optional O o = 50000;\n}\n\nmessage M {\n  optional int32 x = 1 [(o) = {#}];\n}\n"},
	{"comment-in-value", "syntax = \"proto3\";\n\noption java_package = /* c */ \"com.a\";\n"},
	{"form-feed", "syntax = \"proto3\";\n\noption java_package =\f\"com.a\";\n"},
	{"reserved-parts", "syntax = \"proto3\";\n\nmessage A {\n  reserved \"a\" \"b\";\n}\n"},
	{"minus-message", knownHead + "option (o) = -{};\n"},
}

const knownHead = "syntax = \"proto2\";\n\nimport \"google/protobuf/descriptor.proto\";\n\nmessage O {\n  optional int32 a = 1;\n  optional O o = 2;\n}\n\nextend google.protobuf.FileOptions {\n  optional O o = 50000;\n}\n\n"

// knownForms matches the forms above in a text, as well as may be.
var knownForms = regexp.MustCompile(`'|\b0[0-9]+\b|\f|\v|#|reserved[^;]*"\s*"|-\s*\{|[a-z]\s*:?\s*\{[\s;]*\}`)

func init() {
	prop("C01", "exploration", "workspaces of 1-3 files drawn from a Protobuf grammar (proto2/proto3, all element kinds, options, literals) in canonical or random layout; non-trivial: protoc and format accept it and formatting changed at least one file; damaged: the same with up to 8 changes of tokens that protoc accepts",
		newPart("known", 0, 0, func(t *rapid.T) *formatCase {
			return &formatCase{Seed: uint64(uniform(t, len(knownFormat), "known"))}
		}, func(x *Ctx, c *formatCase) error {
			k := knownFormat[int(c.Seed)%len(knownFormat)]
			if err := runC01(x, &formatCase{Files: map[string]string{"a.proto": k.text}}); err != nil {
				return badKey(k.key, "%s", err.Error())
			}
			return nil
		}),
		newPart("wild", 4000, 60000, genFormatCase(wildFormat, true), runC01),
		newPart("damaged", 1000, 20000, genDamaged, runDamaged),
	)
}
