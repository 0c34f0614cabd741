package main

// Independent statement of the documented derivations of file option values.

import (
	"encoding/json"
	"regexp"
	"strings"

	"gopkg.in/yaml.v2"
	"pgregory.net/rapid"
)

// M is a configuration tree.
type M = map[string]interface{}

func yamlOf(v interface{}) string {
	b, err := yaml.Marshal(v)
	must(err)
	return string(b)
}

var reVersion = regexp.MustCompile(`^v([1-9][0-9]*)(?:beta([1-9][0-9]*))?$`)

// version splits a package into its unversioned part and the version numbers
// as text; ok is false for an unversioned package.
func version(pkg string) (base []string, major, beta string, ok bool) {
	parts := strings.Split(pkg, ".")
	if len(parts) < 2 {
		return parts, "", "", false
	}
	m := reVersion.FindStringSubmatch(parts[len(parts)-1])
	if m == nil {
		return parts, "", "", false
	}
	return parts[:len(parts)-1], m[1], m[2], true
}

func isBeta(pkg string) bool {
	_, _, beta, ok := version(pkg)
	return ok && beta != ""
}

func upFirst(s string) string {
	if s == "" {
		return s
	}
	return strings.ToUpper(s[:1]) + s[1:]
}

func wantGo1(pkg string) string { return pkg[strings.LastIndexByte(pkg, '.')+1:] + "pb" }

func wantGo2(pkg string) string {
	base, major, beta, ok := version(pkg)
	if !ok {
		return wantGo1(pkg)
	}
	v := base[len(base)-1] + "v" + major
	if beta != "" {
		v += "beta" + beta
	}
	return v
}

func wantCSharp(pkg string) string {
	base, major, beta, ok := version(pkg)
	var out []string
	for _, c := range base {
		out = append(out, upFirst(c))
	}
	if ok {
		v := "V" + major
		if beta != "" {
			v += "Beta" + beta
		}
		out = append(out, v)
	}
	return strings.Join(out, ".")
}

func wantPHP(pkg string) string { return strings.ReplaceAll(wantCSharp(pkg), ".", `\`) }

func wantObjC(pkg string) string {
	base, _, _, _ := version(pkg)
	s := ""
	for _, c := range base {
		s += strings.ToUpper(c[:1])
	}
	for len(s) < 3 {
		s += "X"
	}
	if s == "GPB" {
		s = "GPX"
	}
	return s
}

func wantJavaPackage(pkg, prefix string) string {
	if prefix == "" {
		prefix = "com"
	}
	return prefix + "." + pkg
}

func wantJavaClass(path string) string {
	base := strings.TrimSuffix(path[strings.LastIndexByte(path, '/')+1:], ".proto")
	out := ""
	for _, w := range strings.FieldsFunc(base, func(r rune) bool { return r == '_' || r == '-' || r == ' ' }) {
		for i, c := range w {
			s := string(c)
			switch {
			case i == 0:
				s = strings.ToUpper(s)
			case c < 'A' || c > 'Z':
				s = strings.ToLower(s)
			}
			out += s
		}
	}
	return out + "Proto"
}

// managed maps the managed file options of a fix version to their values.
func managed(v2 bool, pkg, path, prefix string) map[string]string {
	out := map[string]string{
		"java_multiple_files":  "true",
		"java_outer_classname": wantJavaClass(path),
		"java_package":         wantJavaPackage(pkg, prefix),
		"go_package":           wantGo1(pkg),
	}
	if v2 {
		out["go_package"] = wantGo2(pkg)
		out["csharp_namespace"] = wantCSharp(pkg)
		out["objc_class_prefix"] = wantObjC(pkg)
		out["php_namespace"] = wantPHP(pkg)
	}
	return out
}

var managedNames = []string{"csharp_namespace", "go_package", "java_multiple_files", "java_outer_classname", "java_package", "objc_class_prefix", "php_namespace"}

// genPackage draws a legal package name.
func genPackage(t *rapid.T, label string) string {
	n := rapid.IntRange(1, 5).Draw(t, label+" len")
	var parts []string
	for i := 0; i < n; i++ {
		switch rapid.IntRange(0, 9).Draw(t, label+" kind") {
		case 0, 1, 2, 3:
			parts = append(parts, sample(t, []string{"foo", "uber", "trip", "geo", "g", "p", "b", "a1", "gpb"}, label+" word"))
		case 4:
			parts = append(parts, rapid.StringMatching(`[a-z]{1,3}(_[a-z0-9]{1,2}){0,2}`).Draw(t, label+" snake"))
		case 5:
			parts = append(parts, rapid.StringMatching(`[a-zA-Z][a-zA-Z0-9_]{0,4}`).Draw(t, label+" any"))
		case 6:
			parts = append(parts, sample(t, []string{"v1", "v2", "v12", "v1beta1", "v3beta10", "v100beta2"}, label+" version"))
		case 7:
			parts = append(parts, sample(t, []string{"v", "v0", "v1beta", "v0beta1", "v1beta0", "vbeta1", "v1beta1x", "v1alpha1", "V1", "v1beta1beta1", "beta1", "v1Beta1", "v1_beta1", "x1"}, label+" near version"))
		default:
			parts = append(parts, rapid.StringMatching(`[a-z]{1,6}`).Draw(t, label+" lower"))
		}
	}
	if rapid.IntRange(0, 2).Draw(t, label+" end") == 0 && n > 1 {
		parts[n-1] = sample(t, []string{"v1", "v2", "v10", "v1beta1", "v12beta34", "v255", "v256", "v2019beta300", "v65536", "v4294967296"}, label+" last")
	}
	p := strings.Join(parts, ".")
	if p == "google.protobuf" || p == "vopt" || strings.HasPrefix(p, "vopt.") {
		return "foo"
	}
	return p
}

func genBase(t *rapid.T, label string) string {
	switch rapid.IntRange(0, 3).Draw(t, label+" kind") {
	case 0:
		return sample(t, []string{"foo", "foo_bar", "FooBar", "foo-bar", "a__b", "HTTPApi", "x"}, label)
	case 1:
		return rapid.StringMatching(`[a-z]{1,5}(_[a-z0-9]{1,4}){0,3}`).Draw(t, label)
	}
	return rapid.StringMatching(`[a-zA-Z][a-zA-Z0-9_\-]{0,8}`).Draw(t, label)
}

func jsonOf(v interface{}) string {
	b, err := json.Marshal(v)
	must(err)
	return string(b)
}
