package main

// Reference model of the lint rules: every documented rule as a predicate
// over the workspace model, evaluated to the set of offending lines.

import (
	"fmt"
	"path"
	"strings"
	"unicode"
	"unicode/utf8"
)

// lintRules are all rules with the groups that docs/lint.md lists for them.
var lintRules = map[string]string{
	"COMMENTS_NO_C_STYLE": "uber1 uber2", "COMMENTS_NO_INLINE": "uber2",
	"ENUM_FIELD_NAMES_UPPER_SNAKE_CASE": "google uber1 uber2", "ENUM_FIELD_NAMES_UPPERCASE": "",
	"ENUM_FIELD_PREFIXES_EXCEPT_MESSAGE": "uber2", "ENUM_FIELD_PREFIXES": "uber1",
	"ENUM_FIELDS_HAVE_COMMENTS": "", "ENUM_FIELDS_HAVE_SENTENCE_COMMENTS": "",
	"ENUM_NAMES_CAMEL_CASE": "google uber1 uber2", "ENUM_NAMES_CAPITALIZED": "google uber1 uber2",
	"ENUM_ZERO_VALUES_INVALID_EXCEPT_MESSAGE": "uber2", "ENUM_ZERO_VALUES_INVALID": "uber1",
	"ENUMS_HAVE_COMMENTS": "", "ENUMS_HAVE_SENTENCE_COMMENTS": "uber2", "ENUMS_NO_ALLOW_ALIAS": "uber1 uber2",
	"FIELDS_NOT_RESERVED": "uber2", "FILE_HEADER": "google uber1 uber2", "FILE_NAMES_LOWER_SNAKE_CASE": "uber2",
	"FILE_OPTIONS_EQUAL_CSHARP_NAMESPACE_CAPITALIZED": "uber2", "FILE_OPTIONS_EQUAL_GO_PACKAGE_PB_SUFFIX": "uber1",
	"FILE_OPTIONS_EQUAL_GO_PACKAGE_V2_SUFFIX": "uber2", "FILE_OPTIONS_EQUAL_JAVA_MULTIPLE_FILES_TRUE": "uber1 uber2",
	"FILE_OPTIONS_EQUAL_JAVA_OUTER_CLASSNAME_PROTO_SUFFIX": "uber1 uber2", "FILE_OPTIONS_EQUAL_JAVA_PACKAGE_COM_PREFIX": "uber1",
	"FILE_OPTIONS_EQUAL_JAVA_PACKAGE_PREFIX": "uber2", "FILE_OPTIONS_EQUAL_OBJC_CLASS_PREFIX_ABBR": "uber2",
	"FILE_OPTIONS_EQUAL_PHP_NAMESPACE_CAPITALIZED": "uber2", "FILE_OPTIONS_REQUIRE_CSHARP_NAMESPACE": "uber2",
	"FILE_OPTIONS_REQUIRE_GO_PACKAGE": "uber1 uber2", "FILE_OPTIONS_REQUIRE_JAVA_MULTIPLE_FILES": "uber1 uber2",
	"FILE_OPTIONS_REQUIRE_JAVA_OUTER_CLASSNAME": "uber1 uber2", "FILE_OPTIONS_REQUIRE_JAVA_PACKAGE": "uber1 uber2",
	"FILE_OPTIONS_REQUIRE_OBJC_CLASS_PREFIX": "uber2", "FILE_OPTIONS_REQUIRE_PHP_NAMESPACE": "uber2",
	"FILE_OPTIONS_REQUIRE_RUBY_PACKAGE": "", "FILE_OPTIONS_CSHARP_NAMESPACE_SAME_IN_DIR": "uber2",
	"FILE_OPTIONS_GO_PACKAGE_SAME_IN_DIR": "uber1 uber2", "FILE_OPTIONS_JAVA_MULTIPLE_FILES_SAME_IN_DIR": "uber1 uber2",
	"FILE_OPTIONS_JAVA_PACKAGE_SAME_IN_DIR": "uber1 uber2", "FILE_OPTIONS_OBJC_CLASS_PREFIX_SAME_IN_DIR": "uber2",
	"FILE_OPTIONS_PHP_NAMESPACE_SAME_IN_DIR": "uber2", "FILE_OPTIONS_UNSET_JAVA_MULTIPLE_FILES": "",
	"FILE_OPTIONS_UNSET_JAVA_OUTER_CLASSNAME": "", "FILE_OPTIONS_GO_PACKAGE_NOT_LONG_FORM": "uber1 uber2",
	"GOGO_NOT_IMPORTED": "", "IMPORTS_NOT_PUBLIC": "uber2", "IMPORTS_NOT_WEAK": "uber2",
	"MESSAGE_FIELD_NAMES_FILENAME": "uber2", "MESSAGE_FIELD_NAMES_FILEPATH": "uber2",
	"MESSAGE_FIELD_NAMES_LOWER_SNAKE_CASE": "google uber1 uber2", "MESSAGE_FIELD_NAMES_LOWERCASE": "",
	"MESSAGE_FIELD_NAMES_NO_DESCRIPTOR": "uber2", "MESSAGE_FIELDS_DURATION": "", "MESSAGE_FIELDS_HAVE_COMMENTS": "",
	"MESSAGE_FIELDS_HAVE_SENTENCE_COMMENTS": "", "MESSAGE_FIELDS_NO_JSON_NAME": "uber2", "MESSAGE_FIELDS_NOT_FLOATS": "",
	"MESSAGE_FIELDS_TIME": "", "MESSAGE_NAMES_CAMEL_CASE": "google uber1 uber2", "MESSAGE_NAMES_CAPITALIZED": "google uber1 uber2",
	"MESSAGES_HAVE_COMMENTS_EXCEPT_REQUEST_RESPONSE_TYPES": "", "MESSAGES_HAVE_COMMENTS": "",
	"MESSAGES_HAVE_SENTENCE_COMMENTS_EXCEPT_REQUEST_RESPONSE_TYPES": "uber2", "MESSAGES_NOT_EMPTY_EXCEPT_REQUEST_RESPONSE_TYPES": "",
	"NAMES_NO_COMMON": "uber2", "NAMES_NO_DATA": "uber2", "NAMES_NO_UUID": "uber2", "ONEOF_NAMES_LOWER_SNAKE_CASE": "uber1 uber2",
	"PACKAGE_IS_DECLARED": "uber1 uber2", "PACKAGE_LOWER_CASE": "uber2", "PACKAGE_LOWER_SNAKE_CASE": "uber1",
	"PACKAGE_MAJOR_BETA_VERSIONED": "uber2", "PACKAGE_NO_KEYWORDS": "uber2", "PACKAGES_SAME_IN_DIR": "uber1 uber2",
	"REQUEST_RESPONSE_NAMES_MATCH_RPC": "uber2", "REQUEST_RESPONSE_TYPES_AFTER_SERVICE": "uber2",
	"REQUEST_RESPONSE_TYPES_IN_SAME_FILE": "uber1 uber2", "REQUEST_RESPONSE_TYPES_ONLY_IN_FILE": "uber2",
	"REQUEST_RESPONSE_TYPES_UNIQUE": "uber1 uber2", "RPC_NAMES_CAMEL_CASE": "google uber1 uber2",
	"RPC_NAMES_CAPITALIZED": "google uber1 uber2", "RPC_OPTIONS_NO_GOOGLE_API_HTTP": "", "RPCS_HAVE_COMMENTS": "",
	"RPCS_HAVE_SENTENCE_COMMENTS": "uber2", "RPCS_NO_STREAMING": "", "SERVICE_NAMES_API_SUFFIX": "uber2",
	"SERVICE_NAMES_CAMEL_CASE": "google uber1 uber2", "SERVICE_NAMES_CAPITALIZED": "google uber1 uber2",
	"SERVICE_NAMES_MATCH_FILE_NAME": "uber2", "SERVICE_NAMES_NO_PLURALS": "", "SERVICES_HAVE_COMMENTS": "",
	"SERVICES_HAVE_SENTENCE_COMMENTS": "uber2", "SYNTAX_PROTO3": "uber1 uber2", "WKT_DIRECTLY_IMPORTED": "uber1 uber2",
	"WKT_DURATION_SUFFIX": "uber2", "WKT_TIMESTAMP_SUFFIX": "uber2",
}

// groupRules are the rules of a lint group.
func groupRules(group string) map[string]bool {
	out := map[string]bool{}
	for id, groups := range lintRules {
		for _, g := range strings.Fields(groups) {
			if g == group {
				out[id] = true
			}
		}
	}
	return out
}

// offence is one expected failure.
type offence struct {
	File string
	Line int
	Rule string
}

func (o offence) String() string { return fmt.Sprintf("%s:%d:%s", o.File, o.Line, o.Rule) }

func isLowerC(c byte) bool { return 'a' <= c && c <= 'z' }
func isUpperC(c byte) bool { return 'A' <= c && c <= 'Z' }
func isDigitC(c byte) bool { return '0' <= c && c <= '9' }

func every(s string, ok func(c byte) bool) bool {
	for i := 0; i < len(s); i++ {
		if !ok(s[i]) {
			return false
		}
	}
	return s != ""
}

func camelCase(s string) bool {
	return every(s, func(c byte) bool { return isLowerC(c) || isUpperC(c) || isDigitC(c) })
}
func capitalized(s string) bool { return s != "" && isUpperC(s[0]) }
func edgeless(s string) bool {
	return s != "" && s[0] != '_' && s[len(s)-1] != '_'
}
func lowerSnake(s string) bool {
	return edgeless(s) && every(s, func(c byte) bool { return isLowerC(c) || isDigitC(c) || c == '_' })
}
func upperSnake(s string) bool {
	return edgeless(s) && every(s, func(c byte) bool { return isUpperC(c) || isDigitC(c) || c == '_' })
}

// words splits a CamelCase or snake_case name into its words: a new word
// starts at an underscore, at an upper case letter after a lower case letter,
// and at the last upper case letter of a run followed by a lower case letter.
func words(s string) []string {
	var out []string
	cur := ""
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '_' {
			if cur != "" {
				out = append(out, cur)
			}
			cur = ""
			continue
		}
		if isUpperC(c) && cur != "" && (isLowerC(s[i-1]) || i+1 < len(s) && isLowerC(s[i+1])) {
			out = append(out, cur)
			cur = ""
		}
		cur += string(c)
	}
	if cur != "" {
		out = append(out, cur)
	}
	return out
}

func snake(s string) string { return strings.ToLower(strings.Join(words(s), "_")) }

// plurals are the plural words the generator uses in service names.
var plurals = map[string]bool{"users": true, "trips": true, "orders": true, "payments": true, "wallets": true}

func (c *Com) golang(name string) bool {
	return len(c.Lead) > 0 && strings.HasPrefix(c.Lead[0], " "+name+" ")
}

// sentence: starts with a capital on the first line and has a period.
func (c *Com) sentence() bool {
	if len(c.Lead) == 0 {
		return false
	}
	first := strings.TrimSpace(c.Lead[0])
	letter, _ := utf8.DecodeRuneInString(first)
	return unicode.IsUpper(letter) && strings.Contains(strings.Join(c.Lead, "\n"), ".")
}

// lintModel evaluates the rules on one directory tree.
type lintModel struct {
	w      *Workspace
	header string
	prefix string
	out    map[offence]bool
	skip   map[string]bool // "file rule" the documentation does not decide
	skipL  map[offence]bool
	pos    map[string]map[interface{}]*mark
	texts  map[string]string
	msgs   map[string]bool
	seen   map[string]bool // rules that looked at something without objecting
}

type fileLint struct {
	m    *lintModel
	f    *File
	svcs []*Service
	pos  map[interface{}]*mark
}

func (l *fileLint) at(c *Com) int {
	m := l.pos[c]
	if m == nil || m.line == 0 {
		infra("no position")
	}
	return m.line
}

func (l *fileLint) fail(rule string, line int, cond bool) {
	if _, ok := lintRules[rule]; !ok {
		infra("unknown rule %s", rule)
	}
	if cond {
		l.m.out[offence{l.f.Path, line, rule}] = true
	} else {
		l.m.seen[rule] = true
	}
}

func (l *fileLint) skip(rule string) { l.m.skip[l.f.Path+" "+rule] = true }
func (l *fileLint) skipAt(rule string, line int) {
	l.m.skipL[offence{l.f.Path, line, rule}] = true
}

func lintWorkspace(w *Workspace, header, prefix string) *lintModel {
	m := &lintModel{w: w, header: header, prefix: prefix, out: map[offence]bool{}, skip: map[string]bool{},
		skipL: map[offence]bool{}, pos: map[string]map[interface{}]*mark{}, texts: map[string]string{}, seen: map[string]bool{}}
	for _, f := range w.Files {
		m.texts[f.Path], m.pos[f.Path] = f.marked()
	}
	m.msgs = map[string]bool{}
	for _, f := range w.Files {
		messageNames(f.Elems, f.Pkg, m.msgs)
	}
	dirs := map[string][]*File{}
	usedBy := map[string]map[string]bool{} // type -> files whose RPCs use it
	for _, f := range w.Files {
		d := path.Dir(f.Path)
		dirs[d] = append(dirs[d], f)
		for _, e := range f.Elems {
			if e.Svc == nil {
				continue
			}
			for _, x := range e.Svc.Elems {
				if x.Method == nil {
					continue
				}
				for _, t := range []string{x.Method.Req, x.Method.Res} {
					t = t[strings.LastIndexByte(t, '.')+1:]
					if usedBy[t] == nil {
						usedBy[t] = map[string]bool{}
					}
					usedBy[t][f.Path] = true
				}
			}
		}
	}
	for _, f := range w.Files {
		l := &fileLint{m: m, f: f, pos: m.pos[f.Path]}
		l.file(usedBy)
	}
	for _, fs := range dirs {
		m.dir(fs)
	}
	return m
}

// inPackage is the name of a message within the package of the file that refers
// to it, the full name of a message of another package.
func (m *lintModel) inPackage(f *File, t string) string {
	if strings.HasPrefix(t, ".") {
		t = t[1:]
	} else {
		for scope := f.Pkg; scope != ""; scope = scope[:max(0, strings.LastIndexByte(scope, '.'))] {
			if m.msgs[scope+"."+t] {
				t = scope + "." + t
				break
			}
		}
	}
	if f.Pkg != "" && m.msgs[t] {
		return strings.TrimPrefix(t, f.Pkg+".")
	}
	return t
}

// messageNames are the full names of the messages of some elements.
func messageNames(es []Elem, scope string, out map[string]bool) {
	for i := range es {
		if x := es[i].Msg; x != nil {
			full := x.Name
			if scope != "" {
				full = scope + "." + full
			}
			out[full] = true
			messageNames(x.Elems, full, out)
		}
	}
}

func optValue(f *File, name string) (string, *Opt) {
	for i := range f.Opts {
		if f.Opts[i].Name == name {
			return strings.Trim(f.Opts[i].Val[0], `"`), &f.Opts[i]
		}
	}
	return "", nil
}

// unescape undoes the escapes of an option literal.
func unescape(s string) string { return strings.ReplaceAll(s, `\\`, `\`) }

var sameInDir = map[string]string{
	"csharp_namespace": "CSHARP_NAMESPACE", "go_package": "GO_PACKAGE", "java_multiple_files": "JAVA_MULTIPLE_FILES",
	"java_package": "JAVA_PACKAGE", "objc_class_prefix": "OBJC_CLASS_PREFIX", "php_namespace": "PHP_NAMESPACE",
}

func (m *lintModel) dir(fs []*File) {
	report := func(rule string, cond bool) {
		for _, f := range fs {
			(&fileLint{m: m, f: f}).fail(rule, 1, cond)
		}
	}
	for opt, name := range sameInDir {
		vals := map[string]bool{}
		for _, f := range fs {
			v, o := optValue(f, opt)
			if o == nil {
				v = "\x00unset"
			}
			vals[v] = true
		}
		report("FILE_OPTIONS_"+name+"_SAME_IN_DIR", len(vals) > 1)
	}
	pkgs, none := map[string]bool{}, false
	for _, f := range fs {
		if f.Pkg == "" {
			none = true
		} else {
			pkgs[f.Pkg] = true
		}
	}
	report("PACKAGES_SAME_IN_DIR", len(pkgs) > 1)
	if none && len(pkgs) == 1 {
		for _, f := range fs {
			(&fileLint{m: m, f: f}).skip("PACKAGES_SAME_IN_DIR")
		}
	}
}

// comments checks the comments of an element.
func (l *fileLint) comments(c *Com, stmt bool) {
	line := l.at(c)
	l.fail("COMMENTS_NO_C_STYLE", line, c.Block && len(c.Lead) > 0 || stmt && c.Inline != "" && c.InBlk)
	for i := range c.Det {
		l.fail("COMMENTS_NO_C_STYLE", l.pos[detached{c, i}].line, c.DetBlk)
	}
	if stmt {
		l.fail("COMMENTS_NO_INLINE", line, c.Inline != "")
	}
}

func (l *fileLint) name(c *Com, name string) {
	low := strings.ToLower(name)
	for _, w := range []string{"common", "data", "uuid"} {
		l.fail("NAMES_NO_"+strings.ToUpper(w), l.at(c), strings.Contains(low, w))
	}
}

func (l *fileLint) have(kind string, c *Com, name string) {
	if c.Block {
		// whether a C-style comment is "of the form // Name" is not documented
		l.skipAt(kind+"_HAVE_COMMENTS", l.at(c))
	}
	l.fail(kind+"_HAVE_COMMENTS", l.at(c), !c.golang(name))
	l.fail(kind+"_HAVE_SENTENCE_COMMENTS", l.at(c), !c.sentence())
}

func (l *fileLint) file(usedBy map[string]map[string]bool) {
	f := l.f
	base := strings.TrimSuffix(path.Base(f.Path), ".proto")
	l.fail("FILE_HEADER", 1, l.m.header != "" && !strings.HasPrefix(l.m.texts[f.Path], l.m.header))
	l.fail("FILE_NAMES_LOWER_SNAKE_CASE", 1, !lowerSnake(base))
	if f.Syntax != "" {
		l.comments(&f.SynCom, true)
		l.fail("SYNTAX_PROTO3", l.at(&f.SynCom), f.Syntax != "proto3")
	}
	l.fail("PACKAGE_IS_DECLARED", 1, f.Pkg == "")
	if f.Pkg != "" {
		l.comments(&f.PkgCom, true)
		l.name(&f.PkgCom, f.Pkg)
		line := l.at(&f.PkgCom)
		l.fail("PACKAGE_LOWER_CASE", line, !every(f.Pkg, func(c byte) bool { return isLowerC(c) || isDigitC(c) || c == '.' }))
		bad := false
		keyword := false
		for _, p := range strings.Split(f.Pkg, ".") {
			bad = bad || !lowerSnake(p)
			switch p {
			case "internal", "public", "private", "protected", "std":
				keyword = true
			}
		}
		l.fail("PACKAGE_LOWER_SNAKE_CASE", line, bad)
		l.fail("PACKAGE_NO_KEYWORDS", line, keyword)
		_, _, _, ok := version(f.Pkg)
		l.fail("PACKAGE_MAJOR_BETA_VERSIONED", line, !ok)
	} else {
		l.fail("PACKAGE_MAJOR_BETA_VERSIONED", 1, true)
		for _, r := range []string{"PACKAGE_LOWER_CASE", "PACKAGE_LOWER_SNAKE_CASE"} {
			l.skip(r)
		}
	}
	// file options
	for i := range f.Opts {
		o := &f.Opts[i]
		l.comments(&o.Com, true)
		l.name(&o.Com, o.Name)
	}
	for opt, name := range map[string]string{
		"csharp_namespace": "CSHARP_NAMESPACE", "go_package": "GO_PACKAGE", "java_multiple_files": "JAVA_MULTIPLE_FILES",
		"java_outer_classname": "JAVA_OUTER_CLASSNAME", "java_package": "JAVA_PACKAGE", "objc_class_prefix": "OBJC_CLASS_PREFIX",
		"php_namespace": "PHP_NAMESPACE", "ruby_package": "RUBY_PACKAGE",
	} {
		_, o := optValue(f, opt)
		l.fail("FILE_OPTIONS_REQUIRE_"+name, 1, o == nil)
		if o != nil && (opt == "java_multiple_files" || opt == "java_outer_classname") {
			l.fail("FILE_OPTIONS_UNSET_"+name, l.at(&o.Com), true)
		}
	}
	equal := func(opt, rule, want string) {
		v, o := optValue(f, opt)
		if o != nil && f.Pkg != "" {
			l.fail("FILE_OPTIONS_EQUAL_"+rule, l.at(&o.Com), unescape(v) != want)
		}
	}
	if f.Pkg != "" {
		prefix := l.m.prefix
		if prefix == "" {
			prefix = "com"
		}
		equal("csharp_namespace", "CSHARP_NAMESPACE_CAPITALIZED", wantCSharp(f.Pkg))
		equal("go_package", "GO_PACKAGE_PB_SUFFIX", wantGo1(f.Pkg))
		equal("go_package", "GO_PACKAGE_V2_SUFFIX", wantGo2(f.Pkg))
		equal("java_multiple_files", "JAVA_MULTIPLE_FILES_TRUE", "true")
		equal("java_outer_classname", "JAVA_OUTER_CLASSNAME_PROTO_SUFFIX", wantJavaClass(f.Path))
		equal("java_package", "JAVA_PACKAGE_COM_PREFIX", wantJavaPackage(f.Pkg, "com"))
		equal("java_package", "JAVA_PACKAGE_PREFIX", wantJavaPackage(f.Pkg, prefix))
		equal("objc_class_prefix", "OBJC_CLASS_PREFIX_ABBR", wantObjC(f.Pkg))
		equal("php_namespace", "PHP_NAMESPACE_CAPITALIZED", wantPHP(f.Pkg))
	}
	if v, o := optValue(f, "go_package"); o != nil {
		l.fail("FILE_OPTIONS_GO_PACKAGE_NOT_LONG_FORM", l.at(&o.Com), strings.Contains(v, ";"))
	}
	for i := range f.Imports {
		im := &f.Imports[i]
		l.comments(&im.Com, true)
		line := l.at(&im.Com)
		l.fail("IMPORTS_NOT_PUBLIC", line, im.Mod == "public")
		l.fail("IMPORTS_NOT_WEAK", line, im.Mod == "weak")
		l.fail("GOGO_NOT_IMPORTED", line, path.Base(im.Path) == "gogo.proto")
		at := strings.Index(im.Path, "google/protobuf/")
		l.fail("WKT_DIRECTLY_IMPORTED", line, at > 0)
	}
	var rpcs []*Method
	for i := range f.Elems {
		e := &f.Elems[i]
		if e.Svc != nil {
			l.svcs = append(l.svcs, e.Svc)
			for j := range e.Svc.Elems {
				if x := e.Svc.Elems[j].Method; x != nil {
					rpcs = append(rpcs, x)
				}
			}
		}
	}
	rr := map[string]bool{}
	types := map[*Method][2]string{}
	for _, r := range rpcs {
		types[r] = [2]string{l.m.inPackage(f, r.Req), l.m.inPackage(f, r.Res)}
		rr[types[r][0]], rr[types[r][1]] = true, true
	}
	for i := range f.Elems {
		l.elem(&f.Elems[i], nil, rr, usedBy)
	}
	// services
	for _, s := range l.svcs {
		if len(l.svcs) > 1 {
			l.fail("SERVICE_NAMES_MATCH_FILE_NAME", l.at(&s.Com), true)
		} else {
			l.fail("SERVICE_NAMES_MATCH_FILE_NAME", l.at(&s.Com), snake(s.Name)+".proto" != path.Base(f.Path))
		}
	}
	// request and response types
	top := map[string]*Message{}
	nested := map[string]bool{}
	var collect func(m *Message, prefix string)
	collect = func(m *Message, prefix string) {
		for _, e := range m.Elems {
			if e.Msg != nil {
				nested[prefix+"."+e.Msg.Name] = true
				collect(e.Msg, prefix+"."+e.Msg.Name)
			}
		}
	}
	for i := range f.Elems {
		if m := f.Elems[i].Msg; m != nil {
			top[m.Name] = m
			collect(m, m.Name)
		}
	}
	used := map[string]bool{}
	for _, r := range rpcs {
		line := l.at(&r.Com)
		reqName, resName := types[r][0], types[r][1]
		l.fail("REQUEST_RESPONSE_NAMES_MATCH_RPC", line, reqName != r.Name+"Request" || resName != r.Name+"Response")
		l.fail("REQUEST_RESPONSE_TYPES_IN_SAME_FILE", line, top[reqName] == nil || top[resName] == nil)
		for _, t := range []string{reqName, resName} {
			if len(usedBy[t[strings.LastIndexByte(t, '.')+1:]]) > 1 {
				l.skipAt("REQUEST_RESPONSE_TYPES_UNIQUE", line)
			}
			l.fail("REQUEST_RESPONSE_TYPES_UNIQUE", line, used[t])
			used[t] = true
		}
		req, res := top[reqName], top[resName]
		for _, m := range []*Message{req, res} {
			if m == nil {
				continue
			}
			at := l.at(&m.Com)
			l.fail("REQUEST_RESPONSE_TYPES_AFTER_SERVICE", at, at < line)
			for _, s := range l.svcs {
				if at > line && at < l.at(&s.Com) {
					l.skipAt("REQUEST_RESPONSE_TYPES_AFTER_SERVICE", at)
				}
			}
		}
		if req != nil && res != nil {
			l.fail("REQUEST_RESPONSE_TYPES_AFTER_SERVICE", l.at(&res.Com), l.at(&req.Com) > l.at(&res.Com))
		}
	}
	if len(l.svcs) > 0 {
		if len(rpcs) == 0 {
			l.skip("REQUEST_RESPONSE_TYPES_ONLY_IN_FILE")
		}
		for i := range f.Elems {
			e := &f.Elems[i]
			if e.Enum != nil {
				l.fail("REQUEST_RESPONSE_TYPES_ONLY_IN_FILE", l.at(&e.Enum.Com), true)
			}
			if e.Msg != nil {
				l.fail("REQUEST_RESPONSE_TYPES_ONLY_IN_FILE", l.at(&e.Msg.Com), !rr[e.Msg.Name])
			}
		}
	}
}

func (l *fileLint) field(x *Field, group bool) {
	l.comments(&x.Com, x.Body == nil)
	l.name(&x.Com, x.Name)
	if group || x.Body != nil {
		return // the documentation does not say whether a group's fields are message fields
	}
	line := l.at(&x.Com)
	typ := strings.TrimPrefix(x.Type, ".")
	l.have("MESSAGE_FIELDS", &x.Com, x.Name)
	l.fail("MESSAGE_FIELD_NAMES_FILENAME", line, strings.Contains(x.Name, "file_name"))
	l.fail("MESSAGE_FIELD_NAMES_FILEPATH", line, strings.Contains(x.Name, "file_path"))
	l.fail("MESSAGE_FIELD_NAMES_LOWER_SNAKE_CASE", line, !lowerSnake(x.Name))
	l.fail("MESSAGE_FIELD_NAMES_LOWERCASE", line, strings.ToLower(x.Name) != x.Name)
	l.fail("MESSAGE_FIELD_NAMES_NO_DESCRIPTOR", line, strings.ToLower(strings.Trim(x.Name, "_")) == "descriptor")
	if x.Key == "" {
		l.fail("MESSAGE_FIELDS_DURATION", line, strings.Contains(x.Name, "duration") && typ != "google.protobuf.Duration")
		l.fail("MESSAGE_FIELDS_TIME", line, strings.Contains(x.Name, "time") && typ != "google.protobuf.Timestamp")
		l.fail("WKT_DURATION_SUFFIX", line, typ == "google.protobuf.Duration" && x.Name != "duration" && !strings.HasSuffix(x.Name, "_duration"))
		l.fail("WKT_TIMESTAMP_SUFFIX", line, typ == "google.protobuf.Timestamp" && x.Name != "time" && !strings.HasSuffix(x.Name, "_time"))
	}
	l.fail("MESSAGE_FIELDS_NOT_FLOATS", line, typ == "float")
	for _, o := range x.Opts {
		l.fail("MESSAGE_FIELDS_NO_JSON_NAME", line, o.Name == "json_name")
	}
}

func (l *fileLint) elem(e *Elem, outer []string, rr map[string]bool, usedBy map[string]map[string]bool) {
	sub := func(es []Elem, outer []string) {
		for i := range es {
			l.elem(&es[i], outer, rr, usedBy)
		}
	}
	switch {
	case e.Msg != nil:
		m := e.Msg
		line := l.at(&m.Com)
		l.comments(&m.Com, false)
		l.name(&m.Com, m.Name)
		l.fail("MESSAGE_NAMES_CAMEL_CASE", line, !camelCase(m.Name))
		l.fail("MESSAGE_NAMES_CAPITALIZED", line, !capitalized(m.Name))
		if m.Com.Block {
			l.skipAt("MESSAGES_HAVE_COMMENTS", line)
			l.skipAt("MESSAGES_HAVE_COMMENTS_EXCEPT_REQUEST_RESPONSE_TYPES", line)
		}
		full := append(append([]string{}, outer...), m.Name)
		fields := 0
		for _, x := range m.Elems {
			if x.Field != nil || x.Oneof != nil {
				fields++
			}
		}
		used := rr[strings.Join(full, ".")]
		for f := range usedBy[m.Name] {
			if f != l.f.Path {
				for _, r := range []string{"HAVE_COMMENTS", "HAVE_SENTENCE_COMMENTS", "NOT_EMPTY"} {
					l.skipAt("MESSAGES_"+r+"_EXCEPT_REQUEST_RESPONSE_TYPES", line)
				}
			}
		}
		l.fail("MESSAGES_HAVE_COMMENTS", line, !m.Com.golang(m.Name))
		l.fail("MESSAGES_HAVE_COMMENTS_EXCEPT_REQUEST_RESPONSE_TYPES", line, !used && !m.Com.golang(m.Name))
		l.fail("MESSAGES_HAVE_SENTENCE_COMMENTS_EXCEPT_REQUEST_RESPONSE_TYPES", line, !used && !m.Com.sentence())
		l.fail("MESSAGES_NOT_EMPTY_EXCEPT_REQUEST_RESPONSE_TYPES", line, !used && fields == 0)
		sub(m.Elems, full)
	case e.Enum != nil:
		n := e.Enum
		line := l.at(&n.Com)
		l.comments(&n.Com, false)
		l.name(&n.Com, n.Name)
		l.have("ENUMS", &n.Com, n.Name)
		l.fail("ENUM_NAMES_CAMEL_CASE", line, !camelCase(n.Name))
		l.fail("ENUM_NAMES_CAPITALIZED", line, !capitalized(n.Name))
		own := strings.ToUpper(snake(n.Name))
		deep := ""
		for _, o := range outer {
			deep += strings.ToUpper(snake(o)) + "_"
		}
		deep += own
		for i := range n.Elems {
			x := &n.Elems[i]
			if v := x.Value; v != nil {
				at := l.at(&v.Com)
				l.comments(&v.Com, true)
				l.name(&v.Com, v.Name)
				l.have("ENUM_FIELDS", &v.Com, v.Name)
				l.fail("ENUM_FIELD_NAMES_UPPER_SNAKE_CASE", at, !upperSnake(v.Name))
				l.fail("ENUM_FIELD_NAMES_UPPERCASE", at, strings.ToUpper(v.Name) != v.Name)
				l.fail("ENUM_FIELD_PREFIXES", at, !strings.HasPrefix(v.Name, deep+"_"))
				l.fail("ENUM_FIELD_PREFIXES_EXCEPT_MESSAGE", at, !strings.HasPrefix(v.Name, own+"_"))
				l.fail("ENUM_ZERO_VALUES_INVALID", at, v.Num == 0 && v.Name != deep+"_INVALID")
				l.fail("ENUM_ZERO_VALUES_INVALID_EXCEPT_MESSAGE", at, v.Num == 0 && v.Name != own+"_INVALID")
			} else {
				if x.Opt != nil {
					l.fail("ENUMS_NO_ALLOW_ALIAS", l.at(&x.Opt.Com), x.Opt.Name == "allow_alias")
				}
				l.elem(x, outer, rr, usedBy)
			}
		}
	case e.Svc != nil:
		s := e.Svc
		line := l.at(&s.Com)
		l.comments(&s.Com, false)
		l.name(&s.Com, s.Name)
		l.have("SERVICES", &s.Com, s.Name)
		l.fail("SERVICE_NAMES_API_SUFFIX", line, !strings.HasSuffix(s.Name, "API"))
		l.fail("SERVICE_NAMES_CAMEL_CASE", line, !camelCase(s.Name))
		l.fail("SERVICE_NAMES_CAPITALIZED", line, !capitalized(s.Name))
		plural := false
		if camelCase(s.Name) {
			for _, w := range words(s.Name) {
				plural = plural || plurals[strings.ToLower(w)] && strings.ToUpper(w) != w
			}
		}
		l.fail("SERVICE_NAMES_NO_PLURALS", line, plural)
		sub(s.Elems, nil)
	case e.Method != nil:
		r := e.Method
		line := l.at(&r.Com)
		l.comments(&r.Com, r.Body == 0 && len(r.Elems) == 0)
		l.name(&r.Com, r.Name)
		l.have("RPCS", &r.Com, r.Name)
		l.fail("RPCS_NO_STREAMING", line, r.ReqS || r.ResS)
		l.fail("RPC_NAMES_CAMEL_CASE", line, !camelCase(r.Name))
		l.fail("RPC_NAMES_CAPITALIZED", line, !capitalized(r.Name))
		for i := range r.Elems {
			if o := r.Elems[i].Opt; o != nil {
				n := strings.TrimPrefix(strings.TrimPrefix(o.Name, "("), ".")
				l.fail("RPC_OPTIONS_NO_GOOGLE_API_HTTP", l.at(&o.Com), strings.HasPrefix(n, "google.api.http)"))
			}
		}
		sub(r.Elems, nil)
	case e.Field != nil:
		l.field(e.Field, false)
		if e.Field.Body != nil {
			for i := range e.Field.Body.Elems {
				if x := e.Field.Body.Elems[i].Field; x != nil {
					l.field(x, true)
				}
			}
		}
	case e.Oneof != nil:
		l.comments(&e.Oneof.Com, false)
		l.name(&e.Oneof.Com, e.Oneof.Name)
		l.fail("ONEOF_NAMES_LOWER_SNAKE_CASE", l.at(&e.Oneof.Com), !lowerSnake(e.Oneof.Name))
		sub(e.Oneof.Elems, outer)
	case e.Extend != nil:
		l.comments(&e.Extend.Com, false)
		sub(e.Extend.Elems, outer)
	case e.Res != nil:
		l.comments(&e.Res.Com, true)
		if !e.Res.Ext {
			l.fail("FIELDS_NOT_RESERVED", l.at(&e.Res.Com), true)
			for _, n := range e.Res.Names {
				l.name(&e.Res.Com, n)
			}
		}
	case e.Opt != nil:
		l.comments(&e.Opt.Com, true)
		l.name(&e.Opt.Com, e.Opt.Name)
	}
}
