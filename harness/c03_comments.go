package main

import (
	"sort"
	"strings"
)

// commentLines extracts the comment lines of a source: delimiters, indentation
// and empty lines are not part of them.
func commentLines(src string) []string {
	var out []string
	add := func(s string) {
		for _, l := range strings.Split(s, "\n") {
			l = strings.TrimSpace(strings.TrimLeft(strings.TrimSpace(l), "/"))
			if l != "" {
				out = append(out, l)
			}
		}
	}
	for i := 0; i < len(src); {
		switch {
		case strings.HasPrefix(src[i:], "//"):
			j := strings.IndexByte(src[i:], '\n')
			if j < 0 {
				j = len(src) - i
			}
			add(src[i+2 : i+j])
			i += j
		case strings.HasPrefix(src[i:], "/*"):
			j := strings.Index(src[i+2:], "*/")
			if j < 0 {
				return out
			}
			// a run of slashes and stars at either end delimits (/** text **/)
			add(strings.TrimRight(strings.TrimLeft(src[i+2:i+2+j], "/*"), "/*"))
			i += j + 4
		case src[i] == '"' || src[i] == '\'':
			q := src[i]
			i++
			for i < len(src) && src[i] != q {
				if src[i] == '\\' {
					i++
				}
				i++
			}
			i++
		default:
			i++
		}
	}
	sort.Strings(out)
	return out
}

func runC03(x *Ctx, c *formatCase) error {
	out, r, err := formatAll(x, c.Files, "")
	if err != nil {
		return err
	}
	if out == nil {
		x.Label("rejected: %s", rejectKind(r.Out+r.Err))
		return nil
	}
	for _, n := range sortedKeys(out) {
		want, got := commentLines(c.Files[n]), commentLines(out[n])
		if len(want) > 0 {
			x.NonTrivial()
		}
		if len(want) > 10 {
			x.Label("more than ten comments")
		}
		i, j := 0, 0
		for i < len(want) || j < len(got) {
			switch {
			case j == len(got) || i < len(want) && want[i] < got[j]:
				return bad("%s: format loses the comment %q\n--- before\n%s\n--- after\n%s", n, want[i], c.Files[n], out[n])
			case i == len(want) || got[j] < want[i]:
				return bad("%s: format invents the comment %q\n--- before\n%s\n--- after\n%s", n, got[j], c.Files[n], out[n])
			}
			i++
			j++
		}
	}
	return nil
}

func init() {
	prop("C03", "exploration", "grammar-generated workspaces with detached, leading (line and block), inline, after-brace and before-brace comments on every statement kind, each with a unique text; non-trivial: the file holds a comment and format accepts it",
		newPart("known", 0, 0, genFormatCase(commentedFormat(), false), func(x *Ctx, c *formatCase) error {
			if err := runC03(x, c); err != nil {
				return badKey("rpc-body-comment", "%s", err)
			}
			return nil
		}),
		newPart("canonical", 2500, 40000, genFormatCase(commentedFormat(), false), runC03),
		newPart("layouts", 1000, 15000, genFormatCase(commentedFormat(), true), runC03),
	)
}
