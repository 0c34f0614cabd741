package main

// C19: descriptor-set against the descriptors protoc writes for each directory.

import (
	"bytes"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/golang/protobuf/jsonpb"
	"github.com/golang/protobuf/proto"
	descpb "github.com/golang/protobuf/protoc-gen-go/descriptor"
	"pgregory.net/rapid"
)

type descSetCase struct {
	Comp     *compCase // several include paths
	Files    map[string]string
	Excludes []string
	Target   string
	Work     string
	How      int
	Imports  bool
	Info     bool
	Out      int // 0 stdout, 1 new file, 2 existing file, 3 tmp, 4 missing directory, 5 file and tmp
	JSON     bool
	Break    bool
	Plugin   bool
}

func genDescSet(comp bool) func(t *rapid.T) *descSetCase {
	return func(t *rapid.T) *descSetCase {
		c := &descSetCase{
			How: bits(t, 3, "how"), Imports: rapid.Bool().Draw(t, "imports"), Info: bits(t, 2, "info") == 0,
			Out: sample(t, []int{0, 0, 0, 1, 2, 3, 3, 4, 5}, "out"), JSON: bits(t, 2, "json") == 0,
			Break: bits(t, 2, "break") == 1, Plugin: bits(t, 2, "plugin") == 0,
		}
		if comp {
			c.Comp = genCompileWith(t, []int{0, 0, 0, 0, 0, 0, 0, 1})
			c.Comp.Unused = true
			return c
		}
		cfg := wildFormat
		cfg.MinFiles, cfg.MaxFiles, cfg.MaxElems, cfg.MaxBody = 1, 6, 2, 3
		c.Files = map[string]string{}
		w := genWorkspace(t, cfg)
		for _, f := range w.Files {
			c.Files[f.Path] = layout(f.items(), rapid.Uint64Range(0, 1<<16).Draw(t, "layout"))
		}
		if usesVopt(c.Files) {
			c.Files["vopt/vopt.proto"] = voptFile()
		}
		dirs := append(dirsOf(sortedKeys(c.Files)), "")
		if bits(t, 2, "excluded") == 0 {
			c.Excludes = append(c.Excludes, sample(t, append(dirs[:len(dirs):len(dirs)], sortedKeys(c.Files)...), "exclude"))
			if c.Excludes[0] == "" {
				c.Excludes = nil
			}
		}
		c.Work = sample(t, dirs, "work")
		switch bits(t, 2, "target") {
		case 0:
			c.Target = sample(t, sortedKeys(c.Files), "target file")
		case 1:
			c.Target = sample(t, dirs, "target dir")
		}
		return c
	}
}

// jsonView is what the JSON form of a message has a name for: no custom
// options and no fields newer than the descriptor.proto prototool is built with.
func jsonView(m proto.Message) { dropUnknown(reflect.ValueOf(m)) }

func dropUnknown(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			if m, ok := v.Interface().(proto.Message); ok && v.Kind() == reflect.Ptr {
				proto.ClearAllExtensions(extendable(m))
			}
			dropUnknown(v.Elem())
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		for i := 0; i < v.Len(); i++ {
			dropUnknown(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.Name == "XXX_unrecognized" {
				v.Field(i).SetBytes(nil)
			} else if v.Field(i).CanSet() && !strings.HasPrefix(f.Name, "XXX_") {
				dropUnknown(v.Field(i))
			}
		}
	}
}

// extendable is m, or a message to clear in its place.
func extendable(m proto.Message) proto.Message {
	if _, ok := reflect.TypeOf(m).Elem().FieldByName("XXX_InternalExtensions"); ok {
		return m
	}
	return &descpb.FileOptions{}
}

func runDescSet(x *Ctx, c *descSetCase) error {
	var root, work, target string
	var byDir map[string][]string
	var incsOf func(string) []string
	var files map[string]string
	if c.Comp != nil {
		root, files, byDir, incsOf = c.Comp.lay(x)
		work, target = c.Comp.Work, c.Comp.Target
	} else {
		root = filepath.Join(x.Dir, "r")
		files, work, target = c.Files, c.Work, c.Target
		m := M{"protoc": M{"allow_unused_imports": true}, "break": M{"allow_beta_deps": true}}
		if len(c.Excludes) > 0 {
			m["excludes"] = c.Excludes
		}
		if c.Plugin {
			m["generate"] = M{"plugins": []M{{"name": "vrec", "output": "gen"}}}
			x.Extra = []string{"PATH=" + x.Aux + ":/usr/local/bin:/usr/bin:/bin"}
		}
		writeFiles(root, files)
		writeFiles(root, map[string]string{"prototool.yaml": yamlOf(m)})
		byDir = map[string][]string{}
		d := target
		if strings.HasSuffix(d, ".proto") {
			d = dirOf(d)
		}
		for p := range files {
			out := false
			for _, e := range c.Excludes {
				out = out || within(p, e)
			}
			if within(p, d) && !out {
				byDir[dirOf(p)] = append(byDir[dirOf(p)], p)
			}
		}
		incsOf = func(string) []string { return []string{"/usr/include", root} }
	}
	if len(byDir) == 0 {
		x.Label("nothing selected")
		return nil
	}
	imports, info := c.Imports, c.Info
	out := filepath.Join(x.Dir, "out.bin")
	mode := c.Out
	args := []string{"descriptor-set"}
	if c.Break {
		imports, info = true, false
		args = []string{"break", "descriptor-set"}
		if mode != 2 && mode != 4 {
			mode = 1
		}
	} else {
		if imports {
			args = append(args, "--include-imports")
		}
		if info {
			args = append(args, "--include-source-info")
		}
	}
	if c.JSON {
		args = append(args, "--json")
	}
	switch mode {
	case 2:
		writeFiles(x.Dir, map[string]string{"out.bin": strings.Repeat("old content ", 20000)})
	case 4:
		out = filepath.Join(x.Dir, "missing", "out.bin")
	}
	if mode != 0 && mode != 3 {
		o := out
		if mode != 4 && c.How%2 == 0 {
			rel, err := filepath.Rel(filepath.Join(root, work), out)
			must(err)
			o = rel
		}
		args = append(args, "-o", o)
	}
	if mode == 3 || mode == 5 {
		args = append(args, "--tmp")
	}

	// what protoc says
	want := map[string]*descpb.FileDescriptorProto{}
	fails, clash := false, false
	var raw strings.Builder
	for _, dir := range sortedKeys(byDir) {
		ps := byDir[dir]
		sort.Strings(ps)
		a := []string{"-o", filepath.Join(x.Root, "protoc.bin")}
		if imports {
			a = append(a, "--include_imports")
		}
		if info {
			a = append(a, "--include_source_info")
		}
		incs := incsOf(dir)
		for _, i := range incs {
			a = append(a, "-I", i)
		}
		for _, p := range ps {
			a = append(a, filepath.Join(root, p))
		}
		r := x.Protoc(filepath.Join(root, work), a...)
		allow := c.Comp == nil || c.Comp.Config != 0 && c.Comp.Unused
		if r.Code != 0 || len(readProtoc(r.Err, allow)) > 0 {
			fails = true
			break
		}
		fds := &descpb.FileDescriptorSet{}
		must(proto.Unmarshal([]byte(readFile(filepath.Join(x.Root, "protoc.bin"))), fds))
		for _, f := range fds.File {
			if o := want[f.GetName()]; o != nil && !proto.Equal(o, f) {
				clash = true
			}
			want[f.GetName()] = f
		}
	}
	before := snapshot(root)
	var oldOut string
	if mode == 2 {
		oldOut = readFile(out)
	}
	tmps := func() map[string]string { return snapshot(x.Tmp) }
	full := append(args, spell(root, work, target, c.How))
	r := x.PT(filepath.Join(root, work), full...)
	show := func() string { return "\n" + r.String() + "\n" + raw.String() + dumpFiles(root, sortedKeys(files)) }
	if d := diffSnap(before, snapshot(root)); d != "" {
		return bad("the workspace changes: %s%s", d, show())
	}
	x.Label("output %d json %v", mode, c.JSON)
	x.Label("break descriptor-set %v", c.Break)
	if fails || clash || mode >= 4 {
		x.Label("refused: compile %v, different files of one name %v, output %v", fails, clash, mode >= 4)
		if r.Code == 0 {
			return bad("exit code 0%s", show())
		}
		if len(tmps()) > 1 {
			return bad("a temporary file is left: %v%s", sortedKeys(tmps()), show())
		}
		_, err := os.Stat(out)
		if mode == 2 && readFile(out) != oldOut || mode != 2 && err == nil {
			return bad("an output is written although the command fails%s", show())
		}
		return nil
	}
	if r.Code != 0 || r.Err != "" {
		return bad("descriptor-set fails%s", show())
	}
	data := r.Out
	switch mode {
	case 1, 2:
		if r.Out != "" {
			return bad("output on stdout with -o%s", show())
		}
		data = readFile(out)
	case 3:
		name := strings.TrimSuffix(r.Out, "\n")
		if filepath.Dir(name) != x.Tmp || len(tmps()) != 2 || r.Out != name+"\n" {
			return bad("--tmp does not print the name of one new temporary file, there are %v%s", sortedKeys(tmps()), show())
		}
		data = readFile(name)
	}
	if mode != 3 && len(tmps()) > 1 {
		return bad("a temporary file is left: %v%s", sortedKeys(tmps()), show())
	}
	got := &descpb.FileDescriptorSet{}
	if c.JSON {
		if err := jsonpb.Unmarshal(bytes.NewReader([]byte(data)), got); err != nil {
			return bad("the JSON output is not a FileDescriptorSet: %v%s", err, show())
		}
		for _, f := range want {
			jsonView(f)
		}
	} else if err := proto.Unmarshal([]byte(data), got); err != nil {
		return bad("the output is not a FileDescriptorSet: %v%s", err, show())
	}
	seen := map[string]bool{}
	for i, f := range got.File {
		n := f.GetName()
		if seen[n] {
			return bad("%s twice%s", n, show())
		}
		seen[n] = true
		w := want[n]
		if w == nil {
			return bad("%s is not among the files protoc writes: %v%s", n, sortedKeys(want), show())
		}
		if !proto.Equal(w, f) {
			return bad("%s differs from what protoc writes\n%s\nwant\n%s%s", n, clip(descText(f)), clip(descText(w)), show())
		}
		if i > 0 && got.File[i-1].GetName() > n {
			return bad("the files are not in the order of their names%s", show())
		}
	}
	if len(seen) != len(want) {
		return bad("the output has %v, protoc writes %v%s", sortedKeys(seen), sortedKeys(want), show())
	}
	// another run, another way to write
	args2 := append([]string{"descriptor-set"}, "--json=false")
	if c.JSON {
		args2[1] = "--json"
	}
	if imports {
		args2 = append(args2, "--include-imports")
	}
	if info {
		args2 = append(args2, "--include-source-info")
	}
	r2 := x.PT(filepath.Join(root, work), append(args2, spell(root, work, target, c.How+1))...)
	if r2.Code != 0 || r2.Out != data {
		return bad("the bytes differ from those of %s%s", r2, show())
	}
	packages := true
	for _, f := range want {
		packages = packages && f.GetPackage() != ""
	}
	if c.Break && packages && !c.JSON && !strings.HasSuffix(target, ".proto") && c.Excludes == nil && c.Comp == nil {
		r3 := x.PT(filepath.Join(root, work), "break", "check", "--descriptor-set-path", out, spell(root, work, target, 0))
		if r3.Code != 0 || r3.Out != "" {
			return bad("break check against the unchanged state: %s%s", r3, show())
		}
		x.Label("break check")
	}
	x.Label("imports %v info %v", imports, info)
	x.Label("directories %d", len(byDir))
	if len(want) > 1 {
		x.NonTrivial()
	}
	return nil
}

func init() {
	prop("C19", "exploration", "workspaces of up to 6 files with all kinds of declarations and custom options, and workspaces with several include paths; every way to write the set; non-trivial: a set of at least two files",
		newPart("sources", 1300, 8000, genDescSet(false), runDescSet),
		newPart("include paths", 1700, 10000, genDescSet(true), runDescSet))
}
