package main

import (
	"path/filepath"
	"regexp"
	"strings"

	"pgregory.net/rapid"
)

// variantCase holds the same tokens in two layouts or orders.
type variantCase struct {
	A, B map[string]string
}

func formatAll(x *Ctx, files map[string]string, what string) (map[string]string, *Result, error) {
	x.reset2()
	names := x.setup(files, cfgUnused)
	if r := x.compiles(names); !r.OK() {
		return nil, r, nil
	}
	r := x.PT(x.Dir, "format", "-w", ".")
	if r.Code != 0 {
		return nil, r, nil
	}
	out := map[string]string{}
	for _, n := range names {
		out[n] = readFile(filepath.Join(x.Dir, n))
	}
	return out, nil, nil
}

// reset2 empties the case directory but keeps the labels.
func (x *Ctx) reset2() {
	l, n, c, e := x.labels, x.nontr, x.crash, x.Extra
	x.reset()
	x.labels, x.nontr, x.crash, x.Extra = l, n, c, e
}

// compiles asks protoc only.
func (x *Ctx) compiles(names []string) *Result {
	args := []string{"-I", x.Dir, "-I", "/usr/include", "-o", "/dev/null"}
	return x.Protoc(x.Dir, append(args, names...)...)
}

var reBadLine = regexp.MustCompile(`(?m)[ \t]+$|^ *\t`)

func runC02Idem(x *Ctx, c *formatCase) error {
	out, r, err := formatAll(x, c.Files, "first")
	if err != nil {
		return err
	}
	if out == nil {
		x.Label("rejected: %s", rejectKind(r.Out+r.Err))
		return nil
	}
	for _, n := range sortedKeys(out) {
		if out[n] != c.Files[n] {
			x.NonTrivial()
		}
		if m := reBadLine.FindStringIndex(out[n]); m != nil {
			return bad("formatted %s has trailing white space or a tab indent at byte %d:\n%s", n, m[0], out[n])
		}
		if out[n] != "" && (!strings.HasSuffix(out[n], "\n") || strings.HasSuffix(out[n], "\n\n")) {
			return bad("formatted %s does not end in exactly one newline:\n%q", n, out[n])
		}
	}
	for _, flag := range []string{"-l", "-d"} {
		r := x.PT(x.Dir, "format", flag, sortedKeys(out)[0])
		if len(out) > 1 {
			r = x.PT(x.Dir, "format", flag, ".")
		}
		if usesVopt(out) && len(out) == 1 {
			x.Label("single file")
		}
		if r.Code != 0 || r.Out != "" {
			return bad("format %s is not silent right after format -w: %s\n%s", flag, r, dumpFiles(x.Dir, sortedKeys(out)))
		}
	}
	r = x.PT(x.Dir, "format", "-w", ".")
	if r.Code != 0 {
		return bad("formatting the formatted files fails: %s\n%s", r, dumpFiles(x.Dir, sortedKeys(out)))
	}
	for _, n := range sortedKeys(out) {
		if got := readFile(filepath.Join(x.Dir, n)); got != out[n] {
			return bad("formatting is not idempotent on %s\n--- input\n%s\n--- once\n%s\n--- twice\n%s", n, c.Files[n], out[n], got)
		}
	}
	return nil
}

func runC02Variant(x *Ctx, c *variantCase) error {
	a, ra, err := formatAll(x, c.A, "a")
	if err != nil {
		return err
	}
	b, rb, err := formatAll(x, c.B, "b")
	if err != nil {
		return err
	}
	if (a == nil) != (b == nil) {
		return bad("only one of two equivalent sources is accepted:\n%v\n%v\n%s\n----\n%s", ra, rb, allText(c.A), allText(c.B))
	}
	if a == nil {
		x.Label("rejected: %s", rejectKind(ra.Out+ra.Err))
		return nil
	}
	for _, n := range sortedKeys(a) {
		if c.A[n] != c.B[n] {
			x.NonTrivial()
		}
		if a[n] != b[n] {
			return bad("%s formats differently depending on layout or order\n--- source a\n%s\n--- source b\n%s\n--- formatted a\n%s\n--- formatted b\n%s", n, c.A[n], c.B[n], a[n], b[n])
		}
	}
	return nil
}

func genLayouts(t *rapid.T) *variantCase {
	crlf, cfg := bits(t, 2, "crlf") == 3, wildFormat
	if crlf {
		cfg = commentedFormat()
	}
	w := genWorkspace(t, cfg)
	c := &variantCase{A: map[string]string{}, B: map[string]string{}}
	s1 := rapid.Uint64Range(0, 1<<20).Draw(t, "layout1")
	s2 := rapid.Uint64Range(0, 1<<20).Draw(t, "layout2")
	if crlf {
		s2 = s1 // where comments stand must be the same
	}
	for _, f := range w.Files {
		c.A[f.Path] = layout(f.items(), s1)
		c.B[f.Path] = layout(f.items(), s2)
		if crlf {
			c.B[f.Path] = strings.ReplaceAll(c.B[f.Path], "\n", "\r\n")
		}
	}
	return c
}

func genReorder(t *rapid.T) *variantCase {
	w := genWorkspace(t, wildFormat)
	c := &variantCase{A: map[string]string{}, B: map[string]string{}}
	seed := rapid.Uint64Range(1, 1<<20).Draw(t, "order")
	if bits(t, 1, "twins") == 1 { // imports whose names are close
		for _, n := range []string{"tw/a.proto", "tw/A.proto", "tw/a_.proto", "tw/a-.proto", "tw/a/b.proto", "tW/a.proto"} {
			if bits(t, 1, "twin") == 1 {
				continue
			}
			c.A[n], c.B[n] = "syntax = \"proto3\";\n", "syntax = \"proto3\";\n"
			for _, f := range w.Files {
				f.Imports = append(f.Imports, Import{Path: n})
			}
		}
	}
	for _, f := range w.Files {
		c.A[f.Path] = f.Print()
	}
	n := uint64(0)
	for _, f := range w.Files {
		f.Opts = shuffleOpts(f.Opts, seed, &n)
		if f.Merge != 0 {
			f.Merge += seed
		}
		for i := len(f.Imports) - 1; i > 0; i-- {
			n++
			j := int(mix(seed, n) % uint64(i+1))
			f.Imports[i], f.Imports[j] = f.Imports[j], f.Imports[i]
		}
		shuffleElems(f.Elems, seed, &n)
	}
	for _, f := range w.Files {
		c.B[f.Path] = f.Print()
	}
	return c
}

// shuffleOpts permutes options but keeps the order of equal names and of
// options under one custom option.
func shuffleOpts(os []Opt, seed uint64, n *uint64) []Opt {
	perm := append([]Opt{}, os...)
	for i := len(perm) - 1; i > 0; i-- {
		*n++
		j := int(mix(seed, *n) % uint64(i+1))
		perm[i], perm[j] = perm[j], perm[i]
	}
	// occurrences of one name are written back in their original order
	next := map[string][]Opt{}
	for _, o := range os {
		next[o.Name] = append(next[o.Name], o)
	}
	for i, o := range perm {
		perm[i] = next[o.Name][0]
		next[o.Name] = next[o.Name][1:]
	}
	return perm
}

func shuffleElems(es []Elem, seed uint64, n *uint64) {
	for i := range es {
		e := &es[i]
		switch {
		case e.Msg != nil:
			shuffleElems(e.Msg.Elems, seed, n)
		case e.Field != nil:
			e.Field.Opts = shuffleOpts(e.Field.Opts, seed, n)
			if e.Field.Body != nil {
				shuffleElems(e.Field.Body.Elems, seed, n)
			}
		case e.Oneof != nil:
			shuffleElems(e.Oneof.Elems, seed, n)
		case e.Extend != nil:
			shuffleElems(e.Extend.Elems, seed, n)
		case e.Enum != nil:
			shuffleElems(e.Enum.Elems, seed, n)
		case e.Value != nil:
			e.Value.Opts = shuffleOpts(e.Value.Opts, seed, n)
		case e.Svc != nil:
			shuffleElems(e.Svc.Elems, seed, n)
		}
		if e.Method != nil {
			var os []Opt
			for _, c := range e.Method.Elems {
				os = append(os, *c.Opt)
			}
			for k, o := range shuffleOpts(os, seed, n) {
				o := o
				e.Method.Elems[k] = Elem{Opt: &o}
			}
		}
	}
}

func commentedFormat() genCfg {
	c := wildFormat
	c.Comments = 25
	return c
}

func init() {
	prop("C02", "exploration", "idempotence on grammar-generated workspaces with comments and random layouts (non-trivial: the first formatting changed the file); equality of formatted bytes for two layouts of one token stream and for two orders of the same file options, imports and element options (non-trivial: the two sources differ)",
		newPart("idempotent", 1300, 40000, genFormatCase(commentedFormat(), true), runC02Idem),
		newPart("layout", 700, 25000, genLayouts, runC02Variant),
		newPart("order", 700, 25000, genReorder, runC02Variant),
	)
}
