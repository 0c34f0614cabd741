package main

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	descpb "github.com/golang/protobuf/protoc-gen-go/descriptor"
	"pgregory.net/rapid"
)

// Two versions of one file in which every field, method and enum value is drawn
// twice: one case compares some forty pairs, so that every pair of types, labels
// and signatures is met.

type sigField struct {
	Num        int
	Type, Name string
	Label      string
	Key        string // a map when not empty
	Oneof      int    // 0 none
	Gone       bool
}

type sigMethod struct {
	Req, Res   string
	ReqS, ResS bool
	Gone       bool
}

type sigVersion struct {
	Fields  []sigField
	Methods []sigMethod
	Values  []string // of a number in the enum, "" is none
	Nums    []int
}

type sigCase struct {
	Proto2   bool
	Depth    int
	Old, New sigVersion
}

var sigTypes = []string{"double", "float", "int64", "uint64", "int32", "fixed64", "fixed32", "bool", "string", "bytes", "uint32", "sfixed32", "sfixed64", "sint32", "sint64",
	"E1", "E2", "M1", "M2", "M1.In", "M2.In", "M1.Kind", "M2.Kind", "deep.v1.M1", "deep.v1.E1"}

func (v *sigVersion) source(c *sigCase) string {
	var b strings.Builder
	pr := func(format string, args ...interface{}) { fmt.Fprintf(&b, format+"\n", args...) }
	syntax := "proto3"
	if c.Proto2 {
		syntax = "proto2"
	}
	pr("syntax = %q;\npackage sig.v1;\nimport \"deep.proto\";", syntax)
	pr("enum E1 { E1_A = 0; }\nenum E2 { E2_A = 0; }")
	for _, m := range []string{"M1", "M2"} {
		pr("message %s { message In {} enum Kind { %s_KIND_A = 0; } }", m, m)
	}
	pr("message Q1 {}\nmessage Q2 {}\nmessage Q3 { message Q1 {} }")
	for i := 0; i < c.Depth; i++ {
		pr("message D%d {", i)
	}
	pr("enum Odd {\n  option allow_alias = true;\n  ODD_ZERO = 0;\n  ODD_NONE = 0;")
	for i, n := range v.Values {
		if n != "" {
			pr("  %s = %d;", n, v.Nums[i])
		}
	}
	pr("}\nmessage T {")
	line := func(f *sigField) string {
		t := f.Type
		if f.Key != "" && f.Oneof == 0 {
			t = "map<" + f.Key + ", " + t + ">"
		}
		if f.Oneof == 0 && f.Key == "" && f.Label != "" {
			t = f.Label + " " + t
		}
		return fmt.Sprintf("  %s %s = %d;", t, f.Name, f.Num)
	}
	for o := 0; o < 4; o++ {
		n := 0
		for i := range v.Fields {
			f := &v.Fields[i]
			if f.Oneof != o || f.Gone {
				continue
			}
			if n++; n == 1 && o > 0 {
				pr("  oneof choice%d {", o)
			}
			pr("%s", line(f))
		}
		if n > 0 && o > 0 {
			pr("  }")
		}
	}
	pr("}")
	b.WriteString(strings.Repeat("}\n", c.Depth))
	pr("service S {")
	for i, m := range v.Methods {
		if m.Gone {
			continue
		}
		st := func(on bool) string {
			if on {
				return "stream "
			}
			return ""
		}
		pr("  rpc Call%d(%s%s) returns (%s%s);", i, st(m.ReqS), m.Req, st(m.ResS), m.Res)
	}
	pr("}")
	return b.String()
}

const sigDeep = "syntax = \"proto3\";\npackage sig.deep.v1;\nenum E1 { E1_A = 0; }\nmessage M1 {}\nmessage Q1 {}\n"

func genSig(t *rapid.T) *sigCase {
	c := &sigCase{Proto2: rapid.Bool().Draw(t, "proto2"), Depth: rapid.IntRange(0, 3).Draw(t, "depth")}
	n := rapid.IntRange(1, 26).Draw(t, "fields")
	field := func(i int) sigField {
		f := sigField{Num: i + 1, Name: fmt.Sprintf("f%d", i+1), Type: sigTypes[uniform(t, len(sigTypes), "type")]}
		labels := []string{"", "", "repeated", "optional"}
		if c.Proto2 {
			labels = []string{"optional", "optional", "repeated", "required"}
		}
		f.Label = labels[uniform(t, len(labels), "label")]
		switch k := uniform(t, 12, "kind"); {
		case k == 0:
			f.Key = []string{"string", "int32", "bool"}[uniform(t, 3, "key")]
		case k < 4:
			f.Oneof = k
		}
		return f
	}
	method := func() sigMethod {
		types := []string{"Q1", "Q2", "Q3", "Q3.Q1", "M1", "deep.v1.Q1", "deep.v1.M1"}
		return sigMethod{Req: types[uniform(t, len(types), "request")], Res: types[uniform(t, len(types), "response")], ReqS: uniform(t, 2, "client stream") == 1, ResS: uniform(t, 2, "server stream") == 1}
	}
	for i := 0; i < n; i++ {
		a, b := field(i), field(i)
		switch k := uniform(t, 8, "change"); {
		case k == 0: // the same
			b = a
		case k < 5: // one thing
			x := a
			switch k {
			case 1:
				x.Type = b.Type
			case 2:
				x.Label = b.Label
			case 3:
				x.Oneof = b.Oneof
			case 4:
				x.Key = b.Key
			}
			b = x
		}
		if uniform(t, 10, "renamed") == 0 {
			b.Name += "x"
		}
		if uniform(t, 10, "gone") == 0 {
			b.Gone = true
		}
		if uniform(t, 12, "added") == 0 {
			a.Gone = true
		}
		c.Old.Fields, c.New.Fields = append(c.Old.Fields, a), append(c.New.Fields, b)
	}
	for i := rapid.IntRange(0, 8).Draw(t, "methods"); i > 0; i-- {
		a, b := method(), method()
		x := a
		switch uniform(t, 6, "method change") {
		case 0:
			x.Req = b.Req
		case 1:
			x.Res = b.Res
		case 2:
			x.ReqS = b.ReqS
		case 3:
			x.ResS = b.ResS
		case 4:
			x = b
		}
		x.Gone = uniform(t, 12, "method gone") == 0
		a.Gone = uniform(t, 12, "method added") == 0
		c.Old.Methods, c.New.Methods = append(c.Old.Methods, a), append(c.New.Methods, x)
	}
	nums := []int{-2147483648, -7, -1, 0, 1, 2, 2, 3, 100, 100, 2147483647}
	for i, k := range nums {
		pick := func() string {
			return []string{"", fmt.Sprintf("ODD_%d", i), fmt.Sprintf("ODD_%d", i), fmt.Sprintf("ODD_%dX", i)}[uniform(t, 4, "value")]
		}
		c.Old.Values, c.New.Values = append(c.Old.Values, pick()), append(c.New.Values, pick())
		c.Old.Nums, c.New.Nums = append(c.Old.Nums, k), append(c.New.Nums, k)
	}
	return c
}

func runSig(x *Ctx, c *sigCase) error {
	var sets [2][]*descpb.FileDescriptorProto
	dirs := []string{filepath.Join(x.Dir, "old"), filepath.Join(x.Dir, "new")}
	var texts [2]string
	for i, v := range []*sigVersion{&c.Old, &c.New} {
		texts[i] = v.source(c)
		files := map[string]string{"sig.proto": texts[i], "deep.proto": sigDeep}
		writeFiles(dirs[i], files)
		set, r := x.protocSet(dirs[i], sortedKeys(files))
		if set == nil {
			if x.Tier == "debug" {
				infra("%s\n%s", r, texts[i])
			}
			x.Label("protoc rejects the generated source")
			return nil
		}
		sets[i] = set.File
		writeFiles(dirs[i], map[string]string{"prototool.yaml": breakConfig(false, false)})
	}
	saved := filepath.Join(x.Dir, "saved.bin")
	if r := x.PT(dirs[0], "break", "descriptor-set", "-o", saved); r.Code != 0 {
		return bad("%s", r)
	}
	want := modelBreak(sets[0], sets[1], false, false)
	r := x.PT(dirs[1], "break", "check", "--descriptor-set-path", saved)
	got := lines(r.Out)
	if !sameMessages(got, want) {
		sort.Strings(got)
		return bad("break check reports something else than the differences of the two versions\nexpected:\n%s\ngot: %s\n=== old\n%s=== new\n%s", strings.Join(want, "\n"), r, texts[0], texts[1])
	}
	if (r.Code != 0) != (len(got) > 0) || strings.TrimSpace(r.Err) != "" && r.Code != 0 {
		return bad("exit code or stderr does not fit the messages: %s", r)
	}
	if len(want) > 0 {
		x.NonTrivial()
	}
	x.Label("%d messages or more", len(want)/10*10)
	return nil
}
