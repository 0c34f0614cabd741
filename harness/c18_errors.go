package main

// C18, part errors: several things are wrong at once and the command stops at
// one of them. Which one must not change from run to run.

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"github.com/golang/protobuf/proto"
	descpb "github.com/golang/protobuf/protoc-gen-go/descriptor"
	"pgregory.net/rapid"
)

type severalCase struct {
	Paths  []string
	Wrong  []int // what is wrong about or next to a file
	Root   []int // what is wrong in the configuration of the root
	Set    []int // what is wrong about a file of the descriptor set
	Cmd    int
	Target int
	JSON   bool
}

var (
	severalFiles = []string{"", "parser", "parser message", "parser option", "protoc", "yaml", "yaml value", "both", "not utf-8", "parser end"}
	severalRoot  = []string{"ignores", "outputs", "suffixes", "packages", "unknown keys", "rules"}
	severalCmds  = []string{"lint", "compile", "all", "format -l", "format -w", "generate", "files", "break check --descriptor-set-path saved.bin", "descriptor-set", "all --disable-lint", "inspect packages", "lint --list-linters", "break check --descriptor-set-path saved.bin --include-beta", "generate --dry-run"}
	severalTexts = map[string]string{
		// protoc takes these, the parser of the formatter does not
		"parser":         "\nenum E%s {\n  reserved -5 to -1;\n  A%[1]s = 0;\n}\n",
		"parser message": "\nmessage X%s {\n  option (o%[1]s) = -{};\n}\n",
		"parser option":  "\noption java_package = \"a\" \f\"b%s\";\n",
		"parser end":     "\nmessage Y%s {\n  reserved \"a\" \"b\";\n}\n",
		"protoc":         "\nmessage Z%s {\n  Missing m = 1;\n}\n",
		"not utf-8":      "\n// \xff%s\nmessage \xfe {}\n",
	}
)

func genSeveral(t *rapid.T) *severalCase {
	c := &severalCase{Paths: genTreePaths(t, 2, 8), Cmd: uniform(t, len(severalCmds), "command"), Target: bits(t, 3, "target"), JSON: rapid.Bool().Draw(t, "json")}
	main := uniform(t, len(severalFiles), "mainly")
	for range c.Paths {
		k := main
		if bits(t, 2, "other") == 0 {
			k = uniform(t, len(severalFiles), "kind")
		}
		c.Wrong = append(c.Wrong, k)
	}
	if bits(t, 1, "root") == 0 {
		for i := 1 + bits(t, 1, "roots"); i > 0; i-- {
			c.Root = append(c.Root, uniform(t, len(severalRoot), "in the root"))
		}
	}
	if bits(t, 1, "only") == 0 { // one place, to reach it
		if c.Root != nil {
			for i := range c.Wrong {
				c.Wrong[i] = 0
			}
		}
	}
	for i := 2 + bits(t, 2, "set"); i > 0; i-- {
		c.Set = append(c.Set, bits(t, 3, "in the set"))
	}
	if severalCmds[c.Cmd][0] == 'b' && bits(t, 1, "set only") == 0 {
		for i := range c.Wrong {
			c.Wrong[i] = 0
		}
		c.Root = nil
	}
	return c
}

func runSeveral(x *Ctx, c *severalCase) error {
	root := filepath.Join(x.Dir, "r")
	files := map[string]string{}
	wrong := 0
	for i, p := range c.Paths {
		n := fmt.Sprint(i)
		k := severalFiles[c.Wrong[i]]
		files[p] = fmt.Sprintf("syntax = \"proto3\";\n\npackage p%s;\n\nmessage Msg%[1]s {\n  int64 id = 1;\n}\n", n)
		if k != "" {
			wrong++
		}
		d := dirOf(p)
		switch k {
		case "yaml":
			files[filepath.Join(d, "prototool.yaml")] = "unknown" + n + ": 1\n"
		case "yaml value":
			files[filepath.Join(d, "prototool.yaml")] = "lint:\n  rules:\n    add: bad" + n + "\n"
		case "both":
			files[filepath.Join(d, "prototool.yaml")] = "lint:\n  group: empty\n"
			files[filepath.Join(d, "prototool.json")] = "{}"
		case "parser message":
			files[p] = strings.Replace(files[p], "package", "import \"google/protobuf/descriptor.proto\";\n\npackage", 1) +
				fmt.Sprintf("\nextend google.protobuf.MessageOptions {\n  Msg%s o%[1]s = 5%[1]s001;\n}\n", n) + fmt.Sprintf(severalTexts[k], n)
		case "":
		default:
			files[p] += fmt.Sprintf(severalTexts[k], n)
		}
	}
	dirs := dirsOf(c.Paths)
	lint := M{"group": "empty"}
	cfg := M{"lint": lint}
	for _, k := range c.Root {
		switch severalRoot[k] {
		case "ignores":
			var ig []M
			for i := 0; i < 6; i++ {
				ig = append(ig, M{"id": fmt.Sprintf("UNKNOWN_%d", i*7%6), "files": []string{"a.proto"}})
			}
			lint["ignores"] = ig
		case "rules":
			lint["rules"] = M{"add": []string{"NO_RULE", "NOT_ONE", "NONE"}, "remove": []string{"AT_ALL", "NO_RULE"}}
		case "outputs", "suffixes":
			var ps []M
			for i := 0; i < 5; i++ {
				f := fmt.Sprintf("file%d", i)
				files[f] = "not a directory"
				p := M{"name": fmt.Sprintf("none%d", i), "output": f + "/x"}
				if severalRoot[k] == "suffixes" {
					p["file_suffix"] = "bin"
				}
				ps = append(ps, p)
			}
			cfg["generate"] = M{"plugins": ps}
		case "packages":
			var ps []M
			for i := 0; i < 4; i++ {
				ps = append(ps, M{"directory": fmt.Sprintf("/abs%d", i), "name": "x.y"})
			}
			cfg["create"] = M{"packages": ps}
		case "unknown keys":
			cfg["zz"], cfg["aa"], cfg["mm"] = 1, 2, 3
		}
		wrong += 2
	}
	if _, ok := files["prototool.yaml"]; !ok {
		files["prototool.yaml"] = yamlOf(cfg)
	}
	fds := &descpb.FileDescriptorSet{}
	set := 0
	for i, k := range c.Set {
		n := fmt.Sprint(i)
		f := &descpb.FileDescriptorProto{Name: proto.String("s" + n + ".proto"), Package: proto.String("q" + n), MessageType: []*descpb.DescriptorProto{{Name: proto.String("Old" + n)}}}
		switch k {
		case 1, 2, 3:
			f.Dependency = []string{"missing" + n + ".proto"}
		case 4:
			f.Dependency = []string{"missing.proto", "other" + n + ".proto"}
			f.Package = proto.String("q")
		case 5, 6: // of one name
			f.Name = proto.String("s.proto")
		case 7:
			f.MessageType[0].OneofDecl = nil
			f.MessageType[0].Field = []*descpb.FieldDescriptorProto{{Name: proto.String("f"), Number: proto.Int32(1), OneofIndex: proto.Int32(int32(3 + i))}}
		}
		if k > 0 {
			set++
		}
		fds.File = append(fds.File, f)
	}
	bin, err := proto.Marshal(fds)
	must(err)
	files["saved.bin"] = string(bin)
	target := ""
	if c.Target < 2 {
		target = dirs[c.Target%len(dirs)]
	}
	args := strings.Fields(severalCmds[c.Cmd])
	if args[0] == "break" {
		wrong += set
	}
	if c.JSON && args[0] != "files" && args[0] != "inspect" && args[0] != "descriptor-set" {
		args = append(args, "--json")
	}
	if args[0] != "lint" || len(args) < 2 || args[1] != "--list-linters" {
		args = append(args, spell(root, "", target, 0))
	}
	var ref *Result
	for i := 0; i < 5; i++ {
		forceRemove(root)
		writeFiles(root, files)
		r := x.PT(root, args...)
		if ref == nil {
			ref = r
		} else if r.Out != ref.Out || r.Code != ref.Code {
			names := sortedKeys(files)
			sort.Strings(names)
			return bad("two runs differ\n%s\nfirst: %s\n%s", r, ref, dumpFiles(root, names))
		}
	}
	x.Label("%s: exit code %d", severalCmds[c.Cmd], ref.Code)
	if wrong > 1 && ref.Code != 0 {
		x.NonTrivial()
	}
	return nil
}
