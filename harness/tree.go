package main

// Directory trees: where files live, what is excluded, from where a command
// runs and with which argument, plus the reference model of file selection.

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

var treeDirs = []string{"", "a", "ab", "a/b", "a/bc", "a/b/c", "a.b", "foo", "foobar", "foo-bar", "foo/v1", "foo/v10", "foo/v1/x", "..x", "a b", "a/..y", "a/b/c/d/e/f/g"}
var treeNames = []string{"a", "b", "ab", "aa", "a_b", "x.y", "B", "z"}

// genTreePaths draws n distinct .proto paths.
func genTreePaths(t *rapid.T, lo, hi int) []string {
	nd := rapid.IntRange(1, 5).Draw(t, "ndirs")
	var dirs []string
	for i := 0; i < nd; i++ {
		dirs = append(dirs, sample(t, treeDirs, "dir"))
	}
	seen := map[string]bool{}
	var out []string
	for i := rapid.IntRange(lo, hi).Draw(t, "nfiles"); i > 0; i-- {
		p := filepath.Join(sample(t, dirs, "in dir"), sample(t, treeNames, "name")+".proto")
		if !seen[p] {
			seen[p] = true
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return out
}

// dirsOf lists every directory of the paths, ancestors included ("" is the root).
func dirsOf(paths []string) []string {
	set := map[string]bool{"": true}
	for _, p := range paths {
		for d := filepath.Dir(p); d != "." && d != "/" && d != ""; d = filepath.Dir(d) {
			set[d] = true
		}
	}
	return sortedKeys(set)
}

// within says whether p is d or lies below it, by whole components.
func within(p, d string) bool {
	if p == d {
		return true
	}
	if d == "" || d == "." || d == "/" {
		return true
	}
	return strings.HasPrefix(p, d+"/")
}

func dirOf(p string) string {
	d := filepath.Dir(p)
	if d == "." {
		return ""
	}
	return d
}

// spell writes the path of target (relative to root) as an argument for a
// command that runs in work: relative or absolute, with redundant components.
func spell(root, work, target string, how int) string {
	abs := filepath.Join(root, target)
	rel, err := filepath.Rel(filepath.Join(root, work), abs)
	must(err)
	switch how % 8 {
	case 1:
		return abs
	case 2:
		return "./" + rel
	case 3:
		return strings.ReplaceAll(abs, "/", "//")
	case 4:
		// into a component and back; the component exists
		if i := strings.LastIndex(rel, "/"); i > 0 && !strings.HasSuffix(rel[:i], "..") {
			return rel[:i] + "/../" + filepath.Base(rel[:i]) + rel[i:]
		}
		return "././" + rel
	case 5:
		if fi, err := os.Stat(abs); err == nil && fi.IsDir() {
			return rel + "/"
		}
		return rel
	case 6:
		if fi, err := os.Stat(abs); err == nil && fi.IsDir() {
			return rel + "/."
		}
		return abs
	}
	return rel
}

// protoBody is the text of a small valid file; kind 0 is formatted.
func protoBody(pkg, msg string, kind int) string {
	var b strings.Builder
	switch kind {
	default:
		fmt.Fprintf(&b, "syntax = \"proto3\";\n\npackage %s;\n\nmessage %s {\n  int64 id = 1;\n}\n", pkg, msg)
	case 1:
		fmt.Fprintf(&b, "syntax = \"proto3\";\npackage %s;\nmessage %s {\nint64 id = 1;\n}\n", pkg, msg)
	case 2:
		fmt.Fprintf(&b, "syntax = \"proto3\";\n\npackage %s;\n\nmessage %s {\n  int64 id = 1;\n}", pkg, msg) // no final newline
	case 3:
		fmt.Fprintf(&b, "syntax=\"proto3\"; package %s; message %s { int64 id=1; string name=2; }", pkg, msg)
	case 4:
		fmt.Fprintf(&b, "syntax = \"proto3\";\r\n\r\npackage %s;\r\n\r\nmessage %s {\r\n  int64 id = 1;\r\n}\r\n", pkg, msg)
	case 5:
		fmt.Fprintf(&b, "\n\nsyntax = \"proto3\";\n\npackage %s;\n\n// %s is one.\nmessage %s {\n  int64 id = 1;\n\n\n  int64 other = 2;   \n}\n\n\n", pkg, msg, msg)
	case 6:
		fmt.Fprintf(&b, "syntax = \"proto3\";\n\npackage %s;\n\noption java_package = \"x.y\";\noption go_package = \"z\";\n\nmessage %s {\n  int64 id = 1;\n}\n\n// end\n", pkg, msg)
	case 7:
		fmt.Fprintf(&b, "syntax = \"proto3\";\n\npackage %s;\n\noption go_package = \"z\";\noption java_package = \"x.y\";\n\n// %s is one.\nmessage %s {\n  int64 id = 1;\n}\n", pkg, msg, msg)
	case 8: // many lines, differences at both ends
		fmt.Fprintf(&b, "syntax = \"proto3\";\npackage %s;\n\nmessage %s {\n", pkg, msg)
		for i := 1; i < 30; i++ {
			fmt.Fprintf(&b, "  int64 f%d = %d;\n", i, i)
		}
		b.WriteString("\n  int64 last = 30;\n\n}\n")
	}
	return b.String()
}

const protoBodies = 9

// msgNameFor is a message name that is unique per path.
func msgNameFor(i int) string { return fmt.Sprintf("Msg%d", i) }

func applyUnified(orig map[string]string, patch string, pathOf func(string) string) (map[string]string, error) {
	out := map[string]string{}
	ls := strings.SplitAfter(patch, "\n")
	if len(ls) > 0 && ls[len(ls)-1] == "" {
		ls = ls[:len(ls)-1]
	}
	i := 0
	for i < len(ls) {
		if !strings.HasPrefix(ls[i], "--- ") || i+1 >= len(ls) || !strings.HasPrefix(ls[i+1], "+++ ") {
			return nil, fmt.Errorf("line %d of the diff is not a file header: %q", i+1, ls[i])
		}
		from := strings.SplitN(strings.TrimSuffix(ls[i][4:], "\n"), "\t", 2)[0]
		to := strings.SplitN(strings.TrimSuffix(ls[i+1][4:], "\n"), "\t", 2)[0]
		if from != to+".orig" && from != to {
			return nil, fmt.Errorf("diff header names %q and %q", from, to)
		}
		key := pathOf(to)
		text, ok := orig[key]
		if !ok {
			return nil, fmt.Errorf("diff of an unknown file %q", to)
		}
		if _, dup := out[key]; dup {
			return nil, fmt.Errorf("two diffs for %q", to)
		}
		src := strings.SplitAfter(text, "\n")
		if src[len(src)-1] == "" {
			src = src[:len(src)-1]
		}
		var res []string
		pos := 0
		i += 2
		for i < len(ls) && strings.HasPrefix(ls[i], "@@ ") {
			var a, an, c, cn int
			h := strings.SplitN(ls[i][3:], " @@", 2)[0]
			f := strings.Fields(h)
			if len(f) != 2 {
				return nil, fmt.Errorf("bad hunk header %q", ls[i])
			}
			parse := func(s string) (int, int) {
				var x, n int
				n = 1
				if k := strings.IndexByte(s, ','); k >= 0 {
					fmt.Sscanf(s[k+1:], "%d", &n)
					s = s[:k]
				}
				fmt.Sscanf(s[1:], "%d", &x)
				return x, n
			}
			a, an = parse(f[0])
			c, cn = parse(f[1])
			_ = c
			start := a - 1
			if an == 0 {
				start = a
			}
			if start < pos || start > len(src) {
				return nil, fmt.Errorf("hunk %q out of order", ls[i])
			}
			res = append(res, src[pos:start]...)
			pos = start
			i++
			for an > 0 || cn > 0 {
				if i >= len(ls) {
					return nil, fmt.Errorf("truncated hunk")
				}
				l := ls[i]
				noNL := i+1 < len(ls) && strings.HasPrefix(ls[i+1], "\\")
				body := l[1:]
				if noNL {
					body = strings.TrimSuffix(body, "\n")
				}
				switch l[0] {
				case ' ', '-':
					if pos >= len(src) || src[pos] != body {
						return nil, fmt.Errorf("hunk does not match the original: %q", l)
					}
					pos++
					an--
					if l[0] == ' ' {
						res = append(res, body)
						cn--
					}
				case '+':
					res = append(res, body)
					cn--
				default:
					return nil, fmt.Errorf("unexpected line in hunk: %q", l)
				}
				i++
				if noNL {
					i++
				}
			}
		}
		res = append(res, src[pos:]...)
		out[key] = strings.Join(res, "")
	}
	return out, nil
}
