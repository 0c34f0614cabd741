package main

// C25: the derivations of file option values in create, format --fix and lint
// over many packages at once, and the case rules over many names at once.

import (
	"fmt"
	"path/filepath"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

type deriveItem struct {
	Pkg, Base string
	Wrong     int // the option that is set to something else, or -1
	How       int
}

type deriveCase struct {
	Group  string
	Prefix string
	Items  []deriveItem
}

func genDerive(t *rapid.T) *deriveCase {
	c := &deriveCase{Group: sample(t, []string{"uber2", "uber2", "uber1", "google", "empty", ""}, "group")}
	if c.Group == "uber2" {
		c.Prefix = sample(t, []string{"", "", "org", "com.acme.x", "com.com", "a_b.C"}, "prefix")
	}
	for i := 6 + bits(t, 3, "items"); i > 0; i-- {
		c.Items = append(c.Items, deriveItem{Pkg: genPackage(t, "package"), Base: genBase(t, "base"), Wrong: uniform(t, 14, "wrong") - 7, How: uniform(t, 12, "other value")})
	}
	return c
}

var equalRules = map[string][]string{
	"csharp_namespace":     {"CSHARP_NAMESPACE_CAPITALIZED"},
	"java_multiple_files":  {"JAVA_MULTIPLE_FILES_TRUE"},
	"java_outer_classname": {"JAVA_OUTER_CLASSNAME_PROTO_SUFFIX"},
	"java_package":         {"JAVA_PACKAGE_PREFIX"},
	"objc_class_prefix":    {"OBJC_CLASS_PREFIX_ABBR"},
	"php_namespace":        {"PHP_NAMESPACE_CAPITALIZED"},
}

// otherValue is a value that another derivation or a slip would give.
func otherValue(opt, want, pkg, base string, how int) string {
	last := pkg[strings.LastIndexByte(pkg, '.')+1:]
	xs := []string{want + "x", want[:len(want)-1], strings.ToLower(want), strings.ToUpper(want), pkg, base, last, "com." + pkg, wantGo1(pkg), wantGo2(pkg), strings.ReplaceAll(want, ".", ""), upFirst(base)}
	switch opt {
	case "java_multiple_files":
		return "false"
	case "csharp_namespace":
		xs = append(xs, strings.ReplaceAll(want, "Beta", "beta"), wantPHP(pkg), strings.ReplaceAll(want, "_", ""))
	case "objc_class_prefix":
		xs = append(xs, want+"X", want+"V", "GPB", want[:1])
	case "php_namespace":
		xs = append(xs, wantCSharp(pkg), strings.ReplaceAll(want, "Beta", "beta"))
	case "java_package":
		xs = append(xs, "com."+pkg+"."+base, "org."+pkg)
	case "java_outer_classname":
		xs = append(xs, strings.TrimSuffix(want, "Proto"), upFirst(base)+"Proto", base+"Proto")
	}
	return xs[how%len(xs)]
}

func runDerive(x *Ctx, c *deriveCase) error {
	v2 := c.Group == "uber2"
	dir := func(i int) string { return fmt.Sprintf("d%d", i) }
	var maps []M
	for i, it := range c.Items {
		maps = append(maps, M{"directory": dir(i), "name": it.Pkg})
	}
	lint := M{}
	if c.Group != "" {
		lint["group"] = c.Group
	}
	if c.Prefix != "" {
		lint["java_package_prefix"] = c.Prefix
	}
	files := map[string]string{}
	made := []string{}
	for i, it := range c.Items {
		fixed := fmt.Sprintf("%s/fix/%s.proto", dir(i), it.Base)
		wrong := fmt.Sprintf("%s/wrong/%s.proto", dir(i), it.Base)
		files[fixed] = fmt.Sprintf("syntax = \"proto3\";\npackage %s;\noption go_package = \"x\";\nmessage Zfix%d {}\n", it.Pkg, i)
		files[wrong] = ""
		made = append(made, fmt.Sprintf("%s/%s.proto", dir(i), it.Base))
	}
	files["prototool.yaml"] = yamlOf(M{"lint": lint, "create": M{"packages": maps}})
	writeFiles(x.Dir, files)
	if r := x.PT(x.Dir, append([]string{"create"}, made...)...); r.Code != 0 || r.Out != "" {
		return bad("create fails: %s\n%s", r, files["prototool.yaml"])
	}
	var fixed []string
	want := map[string]map[string]string{}
	offences, open := map[string]bool{}, map[string]bool{}
	for i, it := range c.Items {
		p := made[i]
		w := managed(v2, it.Pkg, p, c.Prefix)
		want[p] = w
		f := fmt.Sprintf("%s/fix/%s.proto", dir(i), it.Base)
		want[f] = w
		if r := x.PT(x.Dir, "format", "--fix", "-w", f); r.Code != 0 {
			return bad("format --fix fails: %s\n%s", r, readFile(filepath.Join(x.Dir, f)))
		}
		fixed = append(fixed, f)
		f = fmt.Sprintf("%s/wrong/%s.proto", dir(i), it.Base)
		var b strings.Builder
		fmt.Fprintf(&b, "syntax = \"proto3\";\n\npackage %s;\n\n", it.Pkg)
		all := managed(true, it.Pkg, p, c.Prefix)
		if !v2 {
			all["go_package"] = wantGo1(it.Pkg)
		}
		line := 5
		for k, opt := range managedNames {
			v := all[opt]
			if k == it.Wrong {
				v = otherValue(opt, v, it.Pkg, it.Base, it.How)
				if v != all[opt] {
					rule := ""
					if opt == "go_package" {
						rule = map[bool]string{true: "GO_PACKAGE_V2_SUFFIX", false: "GO_PACKAGE_PB_SUFFIX"}[v2]
					} else {
						rule = equalRules[opt][0]
					}
					offences[fmt.Sprintf("%s:%d:FILE_OPTIONS_EQUAL_%s", f, line, rule)] = true
					x.Label("wrong %s", opt)
				}
			}
			if opt == "java_multiple_files" {
				fmt.Fprintf(&b, "option %s = %s;\n", opt, v)
			} else {
				fmt.Fprintf(&b, "option %s = \"%s\";\n", opt, strings.ReplaceAll(v, `\`, `\\`))
			}
			line++
		}
		fmt.Fprintf(&b, "\nmessage Zwrong%d {}\n", i)
		writeFiles(x.Dir, map[string]string{f: b.String()})
		_, _, _, versioned := version(it.Pkg)
		at := func(p string, n int, rule string) { offences[fmt.Sprintf("%s:%d:%s", p, n, rule)] = true }
		snakeOK, undecided := true, false
		for _, comp := range strings.Split(it.Pkg, ".") {
			// whether every component must not begin or end with an underscore is
			// not said
			snakeOK = snakeOK && lowerSnake(strings.Trim(comp, "_"))
			undecided = undecided || !edgeless(comp)
		}
		for _, q := range []string{made[i], fmt.Sprintf("%s/fix/%s.proto", dir(i), it.Base), f} {
			if !versioned {
				at(q, 3, "PACKAGE_MAJOR_BETA_VERSIONED")
			}
			if !every(it.Pkg, func(c byte) bool { return isLowerC(c) || isDigitC(c) || c == '.' }) {
				at(q, 3, "PACKAGE_LOWER_CASE")
			}
			if undecided {
				open[q+":3:PACKAGE_LOWER_SNAKE_CASE"] = true
			} else if !snakeOK {
				at(q, 3, "PACKAGE_LOWER_SNAKE_CASE")
			}
			if !lowerSnake(it.Base) {
				at(q, 1, "FILE_NAMES_LOWER_SNAKE_CASE")
			}
		}
	}
	for _, p := range append(append([]string{}, made...), fixed...) {
		set, pr := x.protocPer(x.Dir, []string{p})
		if set == nil {
			return bad("%s does not compile: %s\n%s", p, pr, readFile(filepath.Join(x.Dir, p)))
		}
		if g, w := jsonOf(managedValues(set[p].Options)), jsonOf(want[p]); g != w {
			return bad("the options of %s are %s, want %s\n%s", p, g, w, readFile(filepath.Join(x.Dir, p)))
		}
	}
	rules := []string{"PACKAGE_MAJOR_BETA_VERSIONED", "PACKAGE_LOWER_CASE", "PACKAGE_LOWER_SNAKE_CASE", "FILE_NAMES_LOWER_SNAKE_CASE"}
	for _, r := range equalRules {
		rules = append(rules, "FILE_OPTIONS_EQUAL_"+r[0])
	}
	if v2 {
		rules = append(rules, "FILE_OPTIONS_EQUAL_GO_PACKAGE_V2_SUFFIX")
	} else {
		rules = append(rules, "FILE_OPTIONS_EQUAL_GO_PACKAGE_PB_SUFFIX")
	}
	lint["rules"] = M{"no_default": true, "add": rules}
	delete(lint, "group")
	writeFiles(x.Dir, map[string]string{"prototool.yaml": yamlOf(M{"lint": lint})})
	if err := x.lintExactly(offences, open); err != nil {
		return err
	}
	x.Label("group %q", c.Group)
	x.NonTrivial()
	return nil
}

// lintExactly compares the failures of lint with the expected ones.
func (x *Ctx) lintExactly(want, open map[string]bool) error {
	r := x.PT(x.Dir, "lint", "--error-format", "filename:line:id:column:message")
	got := map[string]bool{}
	var extra, missed []string
	for _, l := range lines(r.Out) {
		p := strings.SplitN(l, ":", 5)
		k := strings.Join(p[:min(3, len(p))], ":")
		got[k] = true
		if !want[k] && !open[k] {
			extra = append(extra, l)
		}
	}
	var in []string
	for _, k := range sortedKeys(want) {
		if !got[k] {
			missed = append(missed, k)
		}
	}
	for _, k := range append(append([]string{}, missed...), extra...) {
		p := strings.SplitN(k, ":", 3)
		line := "?"
		if s, err := x.line(p[0], p[1]); err == nil {
			line = s
		}
		in = append(in, k+" on: "+line)
	}
	if len(in) > 0 {
		return bad("lint reports %d offences that are none: %s\nand does not report %d: %s\n%s\n%s", len(extra), clip(sorted(extra)), len(missed), clip(sorted(missed)), strings.Join(in[:min(20, len(in))], "\n"), readFile(filepath.Join(x.Dir, "prototool.yaml")))
	}
	if (r.Code != 0) != (len(want) > 0) {
		return bad("exit status does not match the failures: %s", r)
	}
	return nil
}

func (x *Ctx) line(p, n string) (string, error) {
	k, err := strconv.Atoi(n)
	if err != nil {
		return "", err
	}
	ls := lines(readFile(filepath.Join(x.Dir, p)))
	if k < 1 || k > len(ls) {
		return "", fmt.Errorf("no line")
	}
	return ls[k-1], nil
}

// ---- names

type nameItem struct {
	Name string
	How  int // the enum value: 0 as demanded, otherwise a slip
}

type namesCase struct {
	Items []nameItem
	Stems []int
}

func genName(t *rapid.T) string {
	switch uniform(t, 6, "name kind") {
	case 0:
		return sample(t, []string{"HTTP2", "TRIP_TYPE", "Foo2Bar", "fooBAR", "FooABBRCamel", "A1", "Ab1C", "ABC", "UUIDs", "X509Cert", "aB", "AB", "A", "a", "I18n", "FOO_1", "Foo_Bar", "_a", "a_", "a__b", "x_1", "HTTP2_API", "OAuth2Token", "IPv4", "ABc", "aBC", "URLs", "_", "__", "_1"}, "name")
	case 1:
		return rapid.StringMatching(`[A-Z][a-z]{0,3}([A-Z]{1,3}[a-z0-9]{0,2}){0,3}`).Draw(t, "camel")
	case 2:
		return rapid.StringMatching(`[a-z]{1,4}(_[a-z0-9]{1,3}){0,3}`).Draw(t, "snake")
	case 3:
		return rapid.StringMatching(`[A-Z]{1,4}(_[A-Z0-9]{1,3}){0,3}`).Draw(t, "upper snake")
	}
	return rapid.StringMatching(`[a-zA-Z_][a-zA-Z0-9_]{0,7}`).Draw(t, "any")
}

var protoWords = map[string]bool{}

func init() {
	for _, w := range strings.Fields("syntax import weak public package option repeated optional required group oneof map extensions extend reserved to max enum message service rpc stream returns true false inf nan double float int32 int64 uint32 uint64 sint32 sint64 fixed32 fixed64 sfixed32 sfixed64 bool string bytes") {
		protoWords[w] = true
	}
}

func genNames(t *rapid.T) *namesCase {
	c := &namesCase{}
	for i := 8 + bits(t, 4, "names"); i > 0; i-- {
		n := genName(t)
		if protoWords[n] {
			n = "N" + n
		}
		c.Items = append(c.Items, nameItem{n, uniform(t, 16, "enum value")})
	}
	for i := 0; i < 4; i++ {
		c.Stems = append(c.Stems, uniform(t, 8, "file name"))
	}
	return c
}

// tame names have single underscores inside only: the conversion of others to
// snake case is nowhere said.
func tame(s string) bool {
	return edgeless(s) && !strings.Contains(s, "__") && !isDigitC(s[0])
}

func runNames(x *Ctx, c *namesCase) error {
	want := map[string]bool{}
	files := map[string]string{}
	var b strings.Builder
	line := 0
	put := func(format string, args ...interface{}) int {
		line++
		fmt.Fprintf(&b, format+"\n", args...)
		return line
	}
	file := "names.proto"
	off := func(at int, rule string, cond bool) {
		if cond {
			want[fmt.Sprintf("%s:%d:%s", file, at, rule)] = true
		}
	}
	up := func(s string) string { return strings.ToUpper(snake(s)) }
	put("syntax = \"proto3\";")
	put("package a.v1;")
	for i, it := range c.Items {
		n := it.Name
		put("message Aa%d {", i)
		at := put("  message %s {}", n)
		off(at, "MESSAGE_NAMES_CAMEL_CASE", !camelCase(n))
		off(at, "MESSAGE_NAMES_CAPITALIZED", !capitalized(n))
		put("}")
		put("message Bb%d {", i)
		at = put("  int64 %s = 1;", n)
		off(at, "MESSAGE_FIELD_NAMES_LOWER_SNAKE_CASE", !lowerSnake(n))
		off(at, "MESSAGE_FIELD_NAMES_LOWERCASE", strings.ToLower(n) != n)
		put("}")
		put("message Cc%d {", i)
		at = put("  oneof %s {", n)
		off(at, "ONEOF_NAMES_LOWER_SNAKE_CASE", !lowerSnake(n))
		put("    int64 zz = 1;")
		put("  }")
		put("}")
		put("message Dd%d {", i)
		put("  enum Ee {")
		at = put("    %s = 0;", n)
		prefixes := func(at int, value string, outer ...string) {
			own, deep := up(outer[len(outer)-1])+"_", ""
			for _, o := range outer {
				deep += up(o) + "_"
			}
			off(at, "ENUM_FIELD_PREFIXES", !strings.HasPrefix(value, deep))
			off(at, "ENUM_FIELD_PREFIXES_EXCEPT_MESSAGE", !strings.HasPrefix(value, own))
			off(at, "ENUM_ZERO_VALUES_INVALID", value != deep+"INVALID")
			off(at, "ENUM_ZERO_VALUES_INVALID_EXCEPT_MESSAGE", value != own+"INVALID")
			off(at, "ENUM_FIELD_NAMES_UPPER_SNAKE_CASE", !upperSnake(value))
			off(at, "ENUM_FIELD_NAMES_UPPERCASE", strings.ToUpper(value) != value)
		}
		prefixes(at, n, fmt.Sprintf("Dd%d", i), "Ee")
		put("  }")
		put("}")
		if !tame(n) {
			continue
		}
		for k, outer := range [][]string{{fmt.Sprintf("Ff%d", i), n}, {fmt.Sprintf("Gg%d", i), n, "Ee"}, {fmt.Sprintf("Hh%d", i), up(n)}, {fmt.Sprintf("Ii%d", i), snake(n)}} {
			if protoWords[outer[1]] {
				continue
			}
			for j, o := range outer {
				if j < len(outer)-1 {
					at = put("message %s {", o)
					off(at, "MESSAGE_NAMES_CAMEL_CASE", !camelCase(o))
					off(at, "MESSAGE_NAMES_CAPITALIZED", !capitalized(o))
				} else {
					at = put("enum %s {", o)
					off(at, "ENUM_NAMES_CAMEL_CASE", !camelCase(o))
					off(at, "ENUM_NAMES_CAPITALIZED", !capitalized(o))
				}
			}
			last := outer[len(outer)-1]
			own, deep := up(last), ""
			for _, o := range outer {
				deep += up(o) + "_"
			}
			v := deep + "INVALID"
			switch it.How - k {
			case 1:
				v = own + "_INVALID"
			case 2:
				v = deep + "X"
			case 3:
				v = strings.TrimSuffix(deep, "_")
			case 4:
				v = strings.ToUpper(n) + "_INVALID"
			case 5:
				v = strings.ReplaceAll(deep, "_", "") + "_INVALID"
			case 6:
				v = strings.ToLower(deep) + "INVALID"
			case 7:
				v = own + "_INVALID_"
			case 8:
				v = deep + "INVALID_X"
			case 9:
				v = own + "X_INVALID"
			case 10:
				v = own + "_" + own + "_INVALID"
			}
			at = put("  %s = 0;", v)
			prefixes(at, v, outer...)
			put(strings.Repeat("}", len(outer)))
		}
	}
	files[file] = b.String()
	for i, st := range c.Stems {
		n := c.Items[i].Name
		if !tame(n) {
			continue
		}
		stem := snake(n)
		switch st {
		case 1:
			stem = strings.ToLower(n)
		case 2:
			stem += "_x"
		case 3:
			stem = n
		case 4:
			stem = strings.ReplaceAll(stem, "_", "-")
		}
		b.Reset()
		line = 0
		file = fmt.Sprintf("s%d/%s.proto", i, stem)
		put("syntax = \"proto3\";")
		put("package s%d.v1;", i)
		at := put("service %s {", n)
		off(1, "FILE_NAMES_LOWER_SNAKE_CASE", !lowerSnake(stem))
		off(at, "SERVICE_NAMES_MATCH_FILE_NAME", stem != snake(n))
		off(at, "SERVICE_NAMES_CAMEL_CASE", !camelCase(n))
		off(at, "SERVICE_NAMES_CAPITALIZED", !capitalized(n))
		at = put("  rpc %s(M) returns (M);", n)
		off(at, "RPC_NAMES_CAMEL_CASE", !camelCase(n))
		off(at, "RPC_NAMES_CAPITALIZED", !capitalized(n))
		put("}")
		put("message M {}")
		if n == "M" {
			continue
		}
		files[file] = b.String()
	}
	for k := range want {
		if _, ok := files[strings.SplitN(k, ":", 2)[0]]; !ok {
			delete(want, k)
		}
	}
	rules := strings.Fields("MESSAGE_NAMES_CAMEL_CASE MESSAGE_NAMES_CAPITALIZED MESSAGE_FIELD_NAMES_LOWER_SNAKE_CASE MESSAGE_FIELD_NAMES_LOWERCASE ONEOF_NAMES_LOWER_SNAKE_CASE ENUM_FIELD_PREFIXES ENUM_FIELD_PREFIXES_EXCEPT_MESSAGE ENUM_ZERO_VALUES_INVALID ENUM_ZERO_VALUES_INVALID_EXCEPT_MESSAGE ENUM_FIELD_NAMES_UPPER_SNAKE_CASE ENUM_FIELD_NAMES_UPPERCASE ENUM_NAMES_CAMEL_CASE ENUM_NAMES_CAPITALIZED SERVICE_NAMES_MATCH_FILE_NAME SERVICE_NAMES_CAMEL_CASE SERVICE_NAMES_CAPITALIZED RPC_NAMES_CAMEL_CASE RPC_NAMES_CAPITALIZED FILE_NAMES_LOWER_SNAKE_CASE")
	writeFiles(x.Dir, map[string]string{"prototool.yaml": yamlOf(M{"lint": M{"rules": M{"no_default": true, "add": rules}}})})
	writeFiles(x.Dir, files)
	if set, r := x.protocSet(x.Dir, sortedKeys(files)); set == nil {
		x.Label("protoc rejects the names")
		if x.Tier == "debug" {
			infra("%s", r)
		}
		return nil
	}
	for _, k := range sortedKeys(want) {
		x.Label("offence %s", strings.SplitN(k, ":", 3)[2])
	}
	x.NonTrivial()
	return x.lintExactly(want, nil)
}

func init() {
	prop("C25", "model", "6-13 packages and file names at once through create, format --fix and lint with one option value replaced by a near miss, and 8-23 names at once in every place a case rule looks at; non-trivial: the files compile",
		newPart("options", 350, 3000, genDerive, runDerive),
		newPart("names", 800, 8000, genNames, runNames))
}
