package main

import (
	"fmt"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// genCfg steers the workspace generator.
type genCfg struct {
	MinFiles, MaxFiles int
	MinElems, MaxElems int // per file
	MaxBody            int // per message
	MaxDepth           int
	Options            bool // standard options on elements
	CustomOpts         bool // custom options (adds vopt/vopt.proto)
	Comments           int  // percentage of comment slots filled
	EmptyBodies        bool
	WildNames          bool
	Services           bool
	MoreServices       int // chance of a further service at the end of a file
	Groups             bool
	Extends            bool
	Proto3Optional     bool
	OnlySyntax         string
	Keywords           bool // keywords as names
	NoPackage          bool // allow files without package
	HexNums            bool // hex and octal spellings
	EmptyStmts         bool
	FileOpts           bool
	WKT                bool
	WeakImports        bool
	OneDir             bool     // all files in the root directory
	Pkgs               []string // packages to choose from
	PkgDirs            bool     // directory is always the package path
	ImportPct          int      // chance that a file imports each earlier one
	Alias              bool     // allow_alias enums
	RichLits           bool     // all kinds of literals
	OneofGroups        bool
	NestedExtend       bool
	Merge              bool     // interleave header statements with elements
	Names              []string // base names to choose from
	Nest               int      // chance that an element of a message is a message
	Homonyms           int      // chance that a name is taken from another scope; 0 is 12, -1 never
}

type typeInfo struct {
	full   string
	file   int
	enum   bool
	proto2 bool
	zero   bool     // enum whose first value is zero
	values []string // enum values
}

type extTarget struct {
	full     string
	file     int
	next, hi int
}

type gen struct {
	t     *rapid.T
	cfg   genCfg
	w     *Workspace
	n     int
	types []typeInfo
	exts  []*extTarget
	vis   [][]bool // vis[i][j]: file i sees file j
	cur   int      // index of the file being generated
	f     *File
	cmt   int
	wkts  map[string]bool
	vopt  bool // the current file imports vopt/vopt.proto

	pool   map[string][]string        // names given so far, by kind
	taken  map[string]map[string]bool // scope -> names it defines
	banned map[string]map[string]bool // scope -> names it must not define: a reference resolves past it
}

func (g *gen) int(lo, hi int, label string) int { return rapid.IntRange(lo, hi).Draw(g.t, label) }

// bits draws a number below 2^n, uniformly (rapid's integers favour small ones).
func bits(t *rapid.T, n int, label string) int {
	v := 0
	for i := 0; i < n; i++ {
		v <<= 1
		if rapid.Bool().Draw(t, label) {
			v |= 1
		}
	}
	return v
}

// uniform draws from [0,n), nearly uniformly.
func uniform(t *rapid.T, n int, label string) int {
	k := 2
	for 1<<k < 4*n {
		k++
	}
	return bits(t, k, label) % n
}

// sample draws one of xs, uniformly.
func sample[T any](t *rapid.T, xs []T, label string) T {
	if len(xs) == 1 {
		return xs[0]
	}
	return xs[uniform(t, len(xs), label)]
}

func (g *gen) chance(pct int, label string) bool {
	if pct <= 0 {
		return false
	}
	if pct >= 100 {
		return true
	}
	// shrinks towards false
	return bits(g.t, 7, label) >= 128-(pct*128+50)/100
}
func pick[T any](g *gen, xs []T, label string) T {
	return sample(g.t, xs, label)
}

func (g *gen) uniq() string { g.n++; return strconv.Itoa(g.n) }

// named gives a name to something in a scope: a new one, or one that something of
// the same kind has in another scope.
func (g *gen) named(kind, scope string, mk func() string) string {
	if g.pool == nil {
		g.pool, g.taken, g.banned = map[string][]string{}, map[string]map[string]bool{}, map[string]map[string]bool{}
	}
	p := g.cfg.Homonyms
	if p == 0 {
		p = 12
	}
	name := ""
	if len(g.pool[kind]) > 0 && g.chance(p, "homonym") {
		n := pick(g, g.pool[kind], "hname")
		if !g.taken[scope][n] && !g.banned[scope][n] {
			name = n
		}
	}
	if name == "" {
		name = mk()
		g.pool[kind] = append(g.pool[kind], name)
	}
	if g.taken[scope] == nil {
		g.taken[scope] = map[string]bool{}
	}
	g.taken[scope][name] = true
	return name
}

func (g *gen) msgName(scope string) string {
	return g.named("type", scope, func() string {
		if g.cfg.WildNames {
			return pick(g, []string{"Foo", "fooBar", "FOO", "foo_bar", "X", "Message", "_x"}, "mname") + g.uniq()
		}
		return pick(g, []string{"Foo", "Bar", "FooBar"}, "mname") + g.uniq()
	})
}

func (g *gen) fieldName(scope string) string {
	return g.named("field", scope, func() string {
		if g.cfg.WildNames {
			return pick(g, []string{"foo_", "fooBar", "Foo", "FOO_", "_f", "x"}, "fname") + g.uniq()
		}
		return pick(g, []string{"foo_", "bar_", "some_name_"}, "fname") + g.uniq()
	})
}

func (g *gen) valueName(scope string) string {
	return g.named("value", scope, func() string {
		if g.cfg.WildNames {
			return pick(g, []string{"V_", "vv", "Val", "val_"}, "vname") + g.uniq()
		}
		return "VALUE_" + g.uniq()
	})
}

// safeRef tells whether the relative name, used in the scope, means the type, and
// keeps it that way.
func (g *gen) safeRef(rel, full, scope string) bool {
	first, _, _ := strings.Cut(rel, ".")
	target := strings.TrimSuffix(full, strings.TrimPrefix(rel, first)) // what the first component has to be
	var passed []string
	for s := scope; ; {
		if join(s, first) == target {
			for _, p := range passed {
				if g.banned[p] == nil {
					g.banned[p] = map[string]bool{}
				}
				g.banned[p][first] = true
			}
			return true
		}
		if g.taken[s][first] || s == "" {
			return false
		}
		passed = append(passed, s)
		i := strings.LastIndex(s, ".")
		s = s[:max(i, 0)]
	}
}

// comment text; unique so that loss and duplication are visible.
func (g *gen) cmtText() string {
	g.cmt++
	body := pick(g, []string{" note %d", "note %d", " Note %d is here.", "  indented %d", " star * %d", " q \" %d", " é %d", "! %d", " @tag %d", "* %d", " ** star %d", " - %d -", "# %d", " tab\tand more %d\t ", " %d end \\", " %d path/", "/ doc %d", "// four %d", "/// - five %d //"}, "cmt")
	return fmt.Sprintf(body, g.cmt)
}

func (g *gen) com(c *Com, open bool) {
	p := g.cfg.Comments
	if p == 0 {
		return
	}
	if g.chance(p/2, "det") {
		c.Det = append(c.Det, g.cmtText())
		if g.chance(30, "detblk") {
			c.DetBlk = true
			c.Det[0] += "\n * " + g.cmtText() + "\n\n   " + g.cmtText() + "\n "
		}
	}
	if g.chance(p, "lead") {
		if g.chance(8, "blank lead") {
			c.Lead = []string{""}
		}
		for i := g.int(1, 3, "nlead"); i > 0; i-- {
			c.Lead = append(c.Lead, g.cmtText())
		}
		c.Block = g.chance(30, "block")
	}
	if g.chance(p, "inline") {
		c.Inline = g.cmtText()
		c.InBlk = g.chance(25, "inblk")
	}
	if open {
		if g.chance(p/2, "open") {
			c.Open = g.cmtText()
		}
		if g.chance(p/2, "endc") {
			if g.chance(15, "blank end") {
				c.End = []string{""}
			}
			for i := g.int(1, 2, "nend"); i > 0; i-- {
				c.End = append(c.End, g.cmtText())
			}
		}
	}
}

var scalars = []string{"string", "int32", "bool", "double", "float", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bytes"}
var mapKeys = []string{"string", "int32", "bool", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64"}

func isInt(t string) bool {
	switch t {
	case "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64":
		return true
	}
	return false
}

// literal of a scalar type as tokens.
func (g *gen) lit(typ string) []string {
	rich := g.cfg.RichLits
	switch typ {
	case "string":
		opts := []string{`"x"`, `""`, `"a b"`, `"a\nb"`, `"q\"q"`, `"it's"`, `"tab\t"`, `"// no"`}
		if rich {
			if g.chance(5, "adjacent strings") {
				return []string{`"con"`, pick(g, []string{`"cat"`, `""`, `"\n"`}, "second")}
			}
			opts = append(opts, `"\\"`, `"\x41\101"`, `"é"`, `'single'`, `''`, `"a;b{c}"`, `"/* no */"`, `"%s %d"`, `"\303\251"`, `"\?"`, `"\a\v"`)
		}
		return []string{pick(g, opts, "str")}
	case "bytes":
		opts := []string{`"x"`, `"\000\377"`}
		if rich {
			opts = append(opts, `"\x00\xff"`)
		}
		return []string{pick(g, opts, "bytes")}
	case "bool":
		return []string{pick(g, []string{"true", "false"}, "bool")}
	case "double", "float":
		opts := []string{"1.5", "0", "-2.25", "1e3", "3"}
		if rich {
			opts = append(opts, "inf", "-inf", "nan", "1.5e-3", "0.1", "1E+5", ".5", "-0.0", "123456789.125")
		}
		return []string{pick(g, opts, "flt")}
	case "int32", "sint32", "sfixed32", "int64", "sint64", "sfixed64":
		opts := []string{"1", "0", "-1", "42"}
		if rich {
			opts = append(opts, "0x1F", "017", "-0x10", "2147483647", "-2147483648")
		}
		return []string{pick(g, opts, "int")}
	}
	opts := []string{"1", "0", "42"}
	if rich {
		opts = append(opts, "0x1F", "017", "4294967295")
	}
	return []string{pick(g, opts, "uint")}
}

// visible types usable from the current file.
func (g *gen) usable(enum, msg bool, forMap bool) []typeInfo {
	var out []typeInfo
	for _, ti := range g.types {
		if !g.vis[g.cur][ti.file] {
			continue
		}
		if ti.enum && !enum || !ti.enum && !msg {
			continue
		}
		if ti.enum && ti.proto2 && g.f.Syntax == "proto3" {
			continue
		}
		if ti.enum && forMap && !ti.zero {
			continue
		}
		out = append(out, ti)
	}
	return out
}

// ref writes a reference to a type from the given scope.
func (g *gen) ref(full, scope string) string {
	if scope == "" {
		scope = g.f.Pkg
	}
	switch g.int(0, 2, "refstyle") {
	case 0:
		// shortest safe form: strip the package, or the enclosing scope when nested in it
		if scope != "" && strings.HasPrefix(full, scope+".") {
			if rel := full[len(scope)+1:]; g.safeRef(rel, full, scope) {
				return rel
			}
			return "." + full
		}
		if g.f.Pkg != "" && strings.HasPrefix(full, g.f.Pkg+".") {
			rest := full[len(g.f.Pkg)+1:]
			// only if rest names a type of this package, not of a sub-package
			for _, ti := range g.types {
				if ti.full == full && g.w.Files[ti.file].Pkg == g.f.Pkg && g.safeRef(rest, full, scope) {
					return rest
				}
			}
		}
		return "." + full
	case 1:
		if g.safeRef(full, full, scope) {
			return full
		}
	}
	return "." + full
}

func join(scope, name string) string {
	if scope == "" {
		return name
	}
	return scope + "." + name
}

type numAlloc struct {
	next int
}

func (g *gen) nextNum(a *numAlloc) int {
	if g.chance(5, "jump") {
		j := pick(g, []int{100, 2047, 18999, 20000, 1 << 20, 1<<28 + 1}, "jumpto")
		if j > a.next {
			a.next = j
		}
	}
	if a.next >= 19000 && a.next <= 19999 {
		a.next = 20000
	}
	n := a.next
	a.next += 1
	if g.chance(10, "gap") {
		a.next += g.int(1, 5, "gapn")
	}
	return n
}

func (g *gen) spell(n int) string {
	if !g.cfg.HexNums || n < 0 || !g.chance(8, "hex") {
		return ""
	}
	// octal spellings of numbers are a known finding of C01
	return fmt.Sprintf("0x%X", n)
}

var keywords = []string{"message", "enum", "option", "package", "service", "rpc", "returns", "stream", "import", "syntax", "extend", "extensions", "reserved", "to", "max", "oneof", "map", "group", "optional", "repeated", "required", "public", "weak", "string", "int32", "true", "false", "inf", "default"}

func (g *gen) fieldOpts(f *Field, kind string) {
	if !g.cfg.Options && !g.cfg.CustomOpts {
		return
	}
	if !g.chance(25, "fopts") {
		return
	}
	var cand []Opt
	if g.cfg.Options {
		cand = append(cand, Opt{Name: "deprecated", Val: g.lit("bool")})
		if f.Body == nil {
			cand = append(cand, Opt{Name: "json_name", Val: []string{strconv.Quote("j" + g.uniq())}})
		}
		if f.Label == "repeated" && kind == "scalar" && f.Type != "string" && f.Type != "bytes" || f.Label == "repeated" && kind == "enum" {
			cand = append(cand, Opt{Name: "packed", Val: g.lit("bool")})
		}
		if kind == "scalar" && (f.Type == "int64" || f.Type == "uint64" || f.Type == "fixed64" || f.Type == "sint64" || f.Type == "sfixed64") && f.Key == "" {
			cand = append(cand, Opt{Name: "jstype", Val: []string{pick(g, []string{"JS_NORMAL", "JS_STRING", "JS_NUMBER"}, "js")}})
		}
		if kind == "scalar" && f.Type == "string" && f.Key == "" {
			cand = append(cand, Opt{Name: "ctype", Val: []string{pick(g, []string{"STRING", "CORD", "STRING_PIECE"}, "ct")}})
		}
		if kind == "msg" && f.Body == nil && f.Key == "" {
			cand = append(cand, Opt{Name: "lazy", Val: g.lit("bool")})
		}
	}
	if g.f.Syntax != "proto3" && f.Key == "" && f.Label != "repeated" && f.Label != "required" {
		if kind == "scalar" {
			cand = append(cand, Opt{Name: "default", Val: g.lit(f.Type)})
		}
		if kind == "enum" {
			for _, ti := range g.types {
				if ti.full == f.Ref && len(ti.values) > 0 {
					cand = append(cand, Opt{Name: "default", Val: []string{pick(g, ti.values, "dv")}})
				}
			}
		}
	}
	cand = append(cand, g.customOpts("field")...)
	f.Opts = g.subset(cand)
}

func (g *gen) subset(cand []Opt) []Opt {
	if len(cand) == 0 {
		return nil
	}
	k := g.int(0, min(len(cand), 4), "nopts")
	var out []Opt
	for i := 0; i < k && len(cand) > 0; i++ {
		j := g.int(0, len(cand)-1, "opt")
		o := cand[j]
		out = append(out, o)
		cand = append(append([]Opt{}, cand[:j]...), cand[j+1:]...)
	}
	// repeated custom option: all occurrences stay in order
	for _, o := range out {
		if strings.HasSuffix(o.Name, "_rep)") && g.chance(50, "rep") {
			n := g.int(1, 3, "nrep")
			if g.chance(15, "many") {
				n = 14
			}
			for i := n; i > 0; i-- {
				out = append(out, Opt{Name: o.Name, Val: g.lit("string")})
			}
			break
		}
	}
	return out
}

var optShort = map[string]string{"file": "fi", "msg": "ms", "field": "fd", "oneof": "oo", "enum": "en", "value": "ev", "svc": "sv", "method": "me"}

// customOpts are candidate custom options for one kind of element.
func (g *gen) customOpts(kind string) []Opt {
	if !g.vopt {
		return nil
	}
	p := "(vopt." + optShort[kind]
	if g.chance(20, "dot") {
		p = "(.vopt." + optShort[kind]
	}
	out := []Opt{
		{Name: p + "_str)", Val: g.lit("string")},
		{Name: p + "_int)", Val: g.lit("int32")},
		{Name: p + "_bool)", Val: g.lit("bool")},
		{Name: p + "_dbl)", Val: []string{pick(g, []string{"1.5", "0", "-2.25", "1e3", "3", "1.5e-3", "1E+5", ".5"}, "dbl")}},
		{Name: p + "_enum)", Val: []string{pick(g, []string{"VE_ZERO", "VE_ONE"}, "ve")}},
		{Name: p + "_rep)", Val: g.lit("string")},
		{Name: p + "_bytes)", Val: g.lit("bytes")},
	}
	if g.chance(50, "aggform") {
		out = append(out, Opt{Name: p + "_agg)", Val: g.agg(2, 0)})
	} else {
		out = append(out, Opt{Name: p + "_agg).i", Val: g.lit("int32")}, Opt{Name: p + "_agg).sub.s", Val: g.lit("string")})
	}
	return out
}

// agg is an aggregate literal of message vopt.Agg.
// A nested empty message is never written: format drops it on purpose (golden test).
func (g *gen) agg(depth, lo int) []string {
	out := []string{"{"}
	sep := pick(g, []string{"", ",", ";"}, "sep")
	if !g.cfg.RichLits {
		sep = ""
	}
	n := g.int(lo, 3, "naggs")
	used := map[int]bool{}
	first := true
	for i := 0; i < n; i++ {
		k := g.int(0, 8, "aggk")
		if used[k] && k < 7 {
			continue
		}
		used[k] = true
		if !first && sep != "" {
			out = append(out, sep)
		}
		first = false
		switch k {
		case 0:
			out = append(append(out, "s", ":"), g.lit("string")...)
		case 1:
			out = append(append(out, "i", ":"), g.lit("int32")...)
		case 2:
			out = append(append(out, "b", ":"), g.lit("bool")...)
		case 3:
			out = append(out, "e", ":", "VE_ONE")
		case 4:
			if depth > 0 {
				out = append(out, "sub")
				if !g.cfg.RichLits || g.chance(50, "colon") {
					out = append(out, ":")
				}
				out = append(out, g.agg(depth-1, 1)...)
			} else {
				out = append(append(out, "d", ":"), g.lit("double")...)
			}
		case 5:
			out = append(out, "r", ":", "[", "1", ",", "2")
			if g.chance(30, "again") {
				out = append(out, ",", "2")
			}
			out = append(out, "]")
		case 7:
			// a repeated field may be set by naming it several times, also with equal values
			for j := g.int(1, 3, "nr"); j > 0; j-- {
				out = append(out, "r", ":", pick(g, []string{"7", "8"}, "rv"))
				if j > 1 && sep != "" {
					out = append(out, sep)
				}
			}
		case 8:
			for j := g.int(1, 2, "nrs2"); j > 0; j-- {
				out = append(out, "rs", ":", "{", "i", ":", pick(g, []string{"1", "2"}, "rsv"), "}")
				if j > 1 && sep != "" {
					out = append(out, sep)
				}
			}
		case 6:
			out = append(out, "rs", ":", "[")
			for j := g.int(1, 2, "nrs"); j > 0; j-- {
				if depth > 0 {
					out = append(out, g.agg(depth-1, 0)...)
				} else {
					out = append(out, "{", "i", ":", "1", "}")
				}
				if j > 1 {
					out = append(out, ",")
				}
			}
			out = append(out, "]")
		}
	}
	return append(out, "}")
}

const voptText = `syntax = "proto2";

package vopt;

import "google/protobuf/descriptor.proto";

enum VE {
  VE_ZERO = 0;
  VE_ONE = 1;
}

message Agg {
  optional string s = 1;
  optional int32 i = 2;
  optional bool b = 3;
  optional VE e = 4;
  optional Agg sub = 5;
  repeated int32 r = 6;
  optional double d = 7;
  repeated Agg rs = 8;
}
`

func voptFile() string {
	b := strings.Builder{}
	b.WriteString(voptText)
	for i, k := range []struct{ k, m string }{{"fi", "File"}, {"ms", "Message"}, {"fd", "Field"}, {"oo", "Oneof"}, {"en", "Enum"}, {"ev", "EnumValue"}, {"sv", "Service"}, {"me", "Method"}} {
		n := 50000 + 100*i
		fmt.Fprintf(&b, "\nextend google.protobuf.%sOptions {\n", k.m)
		for j, s := range []string{"optional string %s_str", "optional int32 %s_int", "optional bool %s_bool", "optional double %s_dbl", "optional VE %s_enum", "repeated string %s_rep", "optional bytes %s_bytes", "optional Agg %s_agg"} {
			fmt.Fprintf(&b, "  "+s+" = %d;\n", k.k, n+j)
		}
		b.WriteString("}\n")
	}
	return b.String()
}

// optElems makes option statements of a body.
func (g *gen) optElems(kind string, std []Opt) []Elem {
	if !g.cfg.Options && !g.cfg.CustomOpts || !g.chance(25, "bopts") {
		return nil
	}
	if !g.cfg.Options {
		std = nil
	}
	var out []Elem
	for _, o := range g.subset(append(std, g.customOpts(kind)...)) {
		o := o
		g.com(&o.Com, false)
		out = append(out, Elem{Opt: &o})
	}
	return out
}

func (g *gen) enum(scope string) *Enum {
	e := &Enum{Name: g.msgName(scope)}
	g.com(&e.Com, true)
	full := join(scope, e.Name)
	p2 := g.f.Syntax != "proto3"
	ti := typeInfo{full: full, file: g.cur, enum: true, proto2: p2}
	alias := g.cfg.Alias && g.chance(15, "alias")
	if alias {
		o := &Opt{Name: "allow_alias", Val: []string{"true"}}
		e.Elems = append(e.Elems, Elem{Opt: o})
	}
	e.Elems = append(e.Elems, g.optElems("enum", []Opt{{Name: "deprecated", Val: []string{"true"}}})...)
	n := g.int(1, 4, "nvals")
	num := 0
	if p2 && g.chance(20, "nonzero") {
		num = g.int(-3, 5, "firstval")
	}
	ti.zero = num == 0
	first := num
	used := map[int]bool{}
	for i := 0; i < n; i++ {
		v := &EnumValue{Name: g.valueName(scope), Num: num, NumS: g.spell(num)}
		used[num] = true
		g.com(&v.Com, false)
		if g.chance(20, "vopts") {
			var cand []Opt
			if g.cfg.Options {
				cand = append(cand, Opt{Name: "deprecated", Val: g.lit("bool")})
			}
			v.Opts = g.subset(append(cand, g.customOpts("value")...))
		}
		e.Elems = append(e.Elems, Elem{Value: v})
		ti.values = append(ti.values, v.Name)
		num++
		if g.chance(15, "vgap") {
			num += g.int(1, 10, "vgapn")
		}
		if num == first {
			num++
		}
		if g.cfg.HexNums && g.chance(5, "neg") && !used[-num-100] {
			v2 := &EnumValue{Name: g.valueName(scope), Num: -num - 100}
			used[-num-100] = true
			e.Elems = append(e.Elems, Elem{Value: v2})
			ti.values = append(ti.values, v2.Name)
		}
	}
	if alias {
		nums := []int{first}
		for i := g.int(0, 4, "aliases"); i > 0; i-- {
			nums = append(nums, first)
			if n := first + g.int(0, 2, "alias of"); used[n] {
				nums[len(nums)-1] = n
			}
		}
		for _, n := range nums {
			e.Elems = append(e.Elems, Elem{Value: &EnumValue{Name: g.valueName(scope), Num: n}})
		}
	}
	if g.chance(15, "eres") {
		r := &Reserved{Ranges: []Range{{num + 20, num + 20 + g.int(0, 5, "rhi")}}}
		if g.chance(30, "emax") {
			r.Ranges = append(r.Ranges, Range{num + 100, -1})
		}
		g.com(&r.Com, false)
		e.Elems = append(e.Elems, Elem{Res: r})
		if g.chance(50, "ern") {
			r := &Reserved{Names: []string{"RES_" + g.uniq(), "RES_" + g.uniq()}}
			e.Elems = append(e.Elems, Elem{Res: r})
		}
	}
	g.types = append(g.types, ti)
	return e
}

// fieldIn makes a field; where: "msg", "oneof", "extend".
func (g *gen) fieldIn(scope string, a *numAlloc, where string, depth int, kw map[string]bool) *Field {
	f := &Field{Num: g.nextNum(a)}
	f.NumS = g.spell(f.Num)
	f.Name = g.fieldName(scope)
	if g.cfg.Keywords && g.chance(4, "kw") {
		k := pick(g, keywords, "kwname")
		if !kw[k] {
			kw[k] = true
			f.Name = k
		}
	}
	g.com(&f.Com, false)
	p3 := g.f.Syntax == "proto3"
	kind := "scalar"
	if where == "msg" && g.chance(12, "map") {
		f.Key = pick(g, mapKeys, "key")
	}
	switch g.int(0, 3, "fkind") {
	case 2:
		if us := g.usable(true, false, f.Key != ""); len(us) > 0 {
			ti := pick(g, us, "etype")
			f.Ref, f.Type, kind = ti.full, g.ref(ti.full, scope), "enum"
		}
	case 3:
		if g.cfg.WKT && g.chance(15, "wkt") {
			w := pick(g, []string{"timestamp.proto:Timestamp", "duration.proto:Duration", "any.proto:Any", "wrappers.proto:StringValue", "struct.proto:Value"}, "wktn")
			i := strings.Index(w, ":")
			g.wkts[w[:i]] = true
			f.Ref = "google.protobuf." + w[i+1:]
			f.Type, kind = pick(g, []string{"", "."}, "wd")+f.Ref, "msg"
		} else if us := g.usable(false, true, false); len(us) > 0 {
			ti := pick(g, us, "mtype")
			f.Ref, f.Type, kind = ti.full, g.ref(ti.full, scope), "msg"
		}
	}
	if f.Type == "" {
		f.Type = pick(g, scalars, "scalar")
	}
	if f.Key == "" {
		switch where {
		case "msg":
			if p3 {
				if g.chance(25, "rep") {
					f.Label = "repeated"
				} else if g.cfg.Proto3Optional && g.chance(15, "p3opt") {
					f.Label = "optional"
				}
			} else {
				f.Label = pick(g, []string{"optional", "repeated", "required", "optional"}, "label")
			}
		case "extend":
			f.Label = pick(g, []string{"optional", "repeated"}, "label")
		}
	}
	g.fieldOpts(f, kind)
	return f
}

func (g *gen) message(scope string, depth int) *Message {
	m := &Message{Name: g.msgName(scope)}
	g.com(&m.Com, true)
	g.messageBody(m, join(scope, m.Name), depth)
	return m
}

func (g *gen) messageBody(m *Message, full string, depth int) {
	g.types = append(g.types, typeInfo{full: full, file: g.cur, proto2: g.f.Syntax != "proto3"})
	p3 := g.f.Syntax == "proto3"
	m.Elems = append(m.Elems, g.optElems("msg", []Opt{{Name: "deprecated", Val: g.lit("bool")}, {Name: "no_standard_descriptor_accessor", Val: g.lit("bool")}})...)
	a := &numAlloc{next: 1}
	kw := map[string]bool{}
	lo := 1
	if g.cfg.EmptyBodies {
		lo = 0
	}
	n := g.int(lo, g.cfg.MaxBody, "nbody")
	for i := 0; i < n; i++ {
		k := g.int(0, 99, "bkind")
		if depth > 0 && g.chance(g.cfg.Nest, "nest") {
			k = 77
		}
		switch {
		case k < 62 || k >= 98:
			f := g.fieldIn(full, a, "msg", depth, kw)
			m.Elems = append(m.Elems, Elem{Field: f})
		case k < 70:
			m.Elems = append(m.Elems, Elem{Oneof: g.oneof(full, a, depth, kw)})
		case k < 78 && depth > 0:
			m.Elems = append(m.Elems, Elem{Msg: g.message(full, depth-1)})
		case k < 84:
			m.Elems = append(m.Elems, Elem{Enum: g.enum(full)})
		case k < 90:
			m.Elems = append(m.Elems, Elem{Res: g.reserved(a)})
		case k < 93 && !p3 && g.cfg.Groups && depth > 0:
			m.Elems = append(m.Elems, Elem{Field: g.group(full, a, depth, pick(g, []string{"optional", "repeated", "required"}, "glabel"))})
		case k < 96 && !p3 && g.cfg.Extends:
			lo := a.next + g.int(0, 50, "extlo")
			if lo >= 18900 && lo < 20000 {
				lo = 20000
			}
			hi := lo + g.int(0, 60, "exthi")
			r := &Reserved{Ext: true, Ranges: []Range{{lo, hi}}}
			a.next = hi + 1
			g.com(&r.Com, false)
			m.Elems = append(m.Elems, Elem{Res: r})
			g.exts = append(g.exts, &extTarget{full: full, file: g.cur, next: lo, hi: hi})
		case k < 97 && g.cfg.NestedExtend && !p3:
			if e := g.extend(full); e != nil {
				m.Elems = append(m.Elems, Elem{Extend: e})
			}
		case k < 98 && g.cfg.EmptyStmts:
			m.Elems = append(m.Elems, Elem{Empty: true})
		}
	}
}

func (g *gen) reserved(a *numAlloc) *Reserved {
	r := &Reserved{}
	g.com(&r.Com, false)
	if g.chance(40, "resnames") {
		for i := g.int(1, 3, "nres"); i > 0; i-- {
			n := "res_" + g.uniq()
			if g.cfg.RichLits && g.chance(15, "odd reserved") { // protoc only warns
				n = pick(g, []string{" %s", "%s ", "%s  x", "é%s", "\"%s", "%s\\", "%s//", "%s;", "%s, x", "/*%s", "'%s'", "\t%s", "%s\n"}, "odd")
				n = strings.Replace(n, "%s", "r"+g.uniq(), 1)
			}
			r.Names = append(r.Names, n)
		}
		return r
	}
	for i := g.int(1, 3, "nrr"); i > 0; i-- {
		lo := a.next + g.int(0, 3, "rlo")
		hi := lo + g.int(0, 3, "rhi")
		a.next = hi + 1
		r.Ranges = append(r.Ranges, Range{lo, hi})
	}
	return r
}

func (g *gen) group(scope string, a *numAlloc, depth int, label string) *Field {
	f := &Field{Label: label, Num: g.nextNum(a), Name: "Grp" + g.uniq()}
	f.Type = "group"
	g.com(&f.Com, true)
	f.Body = &Message{Name: f.Name}
	full := join(scope, f.Name)
	f.Ref = full
	g.messageBody(f.Body, full, depth-1)
	// a group type is not usable as an ordinary message type in other files; keep it out
	g.dropType(full)
	return f
}

func (g *gen) dropType(full string) {
	var out []typeInfo
	for _, ti := range g.types {
		if ti.full != full {
			out = append(out, ti)
		}
	}
	g.types = out
}

func (g *gen) oneof(scope string, a *numAlloc, depth int, kw map[string]bool) *Oneof {
	o := &Oneof{Name: g.fieldName(scope)}
	g.com(&o.Com, true)
	if g.chance(15, "ooopt") {
		o.Elems = append(o.Elems, g.optElems("oneof", nil)...)
	}
	for i := g.int(1, 3, "noneof"); i > 0; i-- {
		if g.cfg.OneofGroups && g.f.Syntax != "proto3" && depth > 0 && g.chance(8, "oogroup") {
			o.Elems = append(o.Elems, Elem{Field: g.group(scope, a, depth, "")})
			continue
		}
		o.Elems = append(o.Elems, Elem{Field: g.fieldIn(scope, a, "oneof", depth, kw)})
	}
	return o
}

func (g *gen) extend(scope string) *Extend {
	var cand []*extTarget
	for _, e := range g.exts {
		if g.vis[g.cur][e.file] && e.next <= e.hi {
			cand = append(cand, e)
		}
	}
	if len(cand) == 0 {
		return nil
	}
	tgt := pick(g, cand, "exttgt")
	e := &Extend{Type: g.ref(tgt.full, scope)}
	g.com(&e.Com, true)
	kw := map[string]bool{}
	for _, k := range keywords {
		kw[k] = true
	}
	for i := g.int(1, 2, "nextf"); i > 0 && tgt.next <= tgt.hi; i-- {
		a := &numAlloc{next: tgt.next}
		save := g.cfg.HexNums
		f := g.fieldIn(scope, a, "extend", 0, kw)
		f.Num, f.NumS = tgt.next, ""
		// json_name is not allowed on extensions
		var keep []Opt
		for _, o := range f.Opts {
			if o.Name != "json_name" {
				keep = append(keep, o)
			}
		}
		f.Opts = keep
		g.cfg.HexNums = save
		tgt.next++
		e.Elems = append(e.Elems, Elem{Field: f})
	}
	return e
}

func (g *gen) service() *Service {
	s := &Service{Name: g.msgName(g.f.Pkg)}
	g.com(&s.Com, true)
	s.Elems = append(s.Elems, g.optElems("svc", []Opt{{Name: "deprecated", Val: g.lit("bool")}})...)
	us := g.usable(false, true, false)
	if len(us) == 0 {
		return s
	}
	for i := g.int(0, 3, "nmeth"); i > 0; i-- {
		m := &Method{Name: g.msgName(join(g.f.Pkg, s.Name))}
		m.Req = g.ref(pick(g, us, "req").full, join(g.f.Pkg, s.Name))
		m.Res = g.ref(pick(g, us, "res").full, join(g.f.Pkg, s.Name))
		m.ReqS = g.chance(20, "reqs")
		m.ResS = g.chance(20, "ress")
		m.Body = g.int(0, 1, "mbody")
		m.Elems = g.optElems("method", []Opt{{Name: "deprecated", Val: g.lit("bool")}, {Name: "idempotency_level", Val: []string{pick(g, []string{"NO_SIDE_EFFECTS", "IDEMPOTENT"}, "idem")}}})
		g.com(&m.Com, false)
		// comments inside method bodies are a known finding of C03, apart from
		// inline comments of options
		for i := range m.Elems {
			c := m.Elems[i].com()
			*c = Com{Inline: c.Inline, InBlk: c.InBlk}
		}
		s.Elems = append(s.Elems, Elem{Method: m})
	}
	return s
}

func (g *gen) pkg() string {
	if len(g.cfg.Pkgs) > 0 {
		return pick(g, g.cfg.Pkgs, "pkg")
	}
	if g.cfg.NoPackage && g.chance(10, "nopkg") {
		return ""
	}
	p := pick(g, []string{"foo", "acme", "uber"}, "p1")
	if g.chance(60, "p2?") {
		p += "." + pick(g, []string{"trip", "geo", "pay_x"}, "p2")
	}
	if g.chance(50, "p3?") {
		p += "." + pick(g, []string{"v1", "v2", "v1beta1", "v12"}, "p3")
	}
	return p
}

var stdFileOpts = []string{"java_package", "java_outer_classname", "java_multiple_files", "java_string_check_utf8", "optimize_for", "go_package", "cc_generic_services", "cc_enable_arenas", "deprecated", "objc_class_prefix", "csharp_namespace", "swift_prefix", "php_class_prefix", "php_namespace", "ruby_package", "py_generic_services"}

func (g *gen) fileOpt(name string) Opt {
	switch name {
	case "optimize_for":
		return Opt{Name: name, Val: []string{pick(g, []string{"SPEED", "CODE_SIZE"}, "of")}}
	case "java_multiple_files", "java_string_check_utf8", "cc_generic_services", "cc_enable_arenas", "deprecated", "py_generic_services":
		return Opt{Name: name, Val: g.lit("bool")}
	case "php_namespace":
		return Opt{Name: name, Val: []string{`"Foo\\Bar"`}}
	}
	return Opt{Name: name, Val: []string{strconv.Quote(pick(g, []string{"com.foo", "x", "FOO", "a/b;c"}, "fov"))}}
}

// workspace draws a whole workspace.
func genWorkspace(t *rapid.T, cfg genCfg) *Workspace {
	g := &gen{t: t, cfg: cfg, w: &Workspace{}}
	n := g.int(cfg.MinFiles, cfg.MaxFiles, "nfiles")
	total := n
	for i := 0; i < total; i++ {
		g.file(i)
	}
	return g.w
}

func (g *gen) file(i int) {
	cfg := g.cfg
	f := &File{}
	g.f, g.cur = f, i
	g.wkts = map[string]bool{}
	switch {
	case cfg.OnlySyntax != "":
		f.Syntax = cfg.OnlySyntax
	default:
		f.Syntax = pick(g, []string{"proto3", "proto2"}, "syntax")
	}
	f.Pkg = g.pkg()
	if cfg.Merge && g.chance(20, "merge") {
		f.Merge = uint64(g.int(1, 1<<16, "mergeseed"))
	}
	name := "f" + strconv.Itoa(i) + pick(g, []string{"", "_x", "aB"}, "fn") + ".proto"
	if len(cfg.Names) > 0 {
		name = pick(g, cfg.Names, "base") + strconv.Itoa(i) + ".proto"
	}
	switch {
	case cfg.OneDir:
		f.Path = name
	case cfg.PkgDirs:
		f.Path = strings.TrimPrefix(strings.ReplaceAll(f.Pkg, ".", "/")+"/"+name, "/")
	default:
		f.Path = pick(g, []string{"", "a/", "b/", "a/c/"}, "dir") + name
	}
	if cfg.Comments > 0 {
		if g.chance(cfg.Comments, "head") {
			f.Head = append(f.Head, g.cmtText())
		}
		g.com(&f.SynCom, false)
		if f.Pkg != "" {
			g.com(&f.PkgCom, false)
		}
		if g.chance(cfg.Comments, "tail") {
			if f.Tail == nil && g.chance(25, "blank tail") {
				f.Tail = []string{""}
			}
			f.Tail = append(f.Tail, g.cmtText())
		}
	}
	g.w.Files = append(g.w.Files, f)
	vis := make([]bool, i+1)
	vis[i] = true
	g.vis = append(g.vis, vis)
	ip := cfg.ImportPct
	if ip == 0 {
		ip = 40
	}
	for j := 0; j < i; j++ {
		if !g.chance(ip, "import") {
			continue
		}
		im := Import{Path: g.w.Files[j].Path}
		if g.chance(15, "public") {
			im.Mod = "public"
		} else if cfg.WeakImports && g.chance(5, "weak") {
			im.Mod = "weak"
		}
		g.com(&im.Com, false)
		f.Imports = append(f.Imports, im)
		vis[j] = true
		g.seePublic(i, j)
	}
	g.vopt = cfg.CustomOpts && g.chance(60, "vopt")
	if g.vopt {
		f.Imports = append(f.Imports, Import{Path: "vopt/vopt.proto"})
	}
	if cfg.FileOpts {
		names := rapid.SliceOfNDistinct(rapid.SampledFrom(stdFileOpts), 0, 5, func(s string) string { return s }).Draw(g.t, "fopts")
		for _, nme := range names {
			o := g.fileOpt(nme)
			g.com(&o.Com, false)
			f.Opts = append(f.Opts, o)
		}
		for _, o := range g.subset(g.customOpts("file")) {
			o := o
			g.com(&o.Com, false)
			f.Opts = append(f.Opts, o)
		}
	}
	ne := g.int(cfg.MinElems, cfg.MaxElems, "nelems")
	for k := 0; k < ne; k++ {
		switch x := g.int(0, 99, "ekind"); {
		case x < 55:
			f.Elems = append(f.Elems, Elem{Msg: g.message(f.Pkg, cfg.MaxDepth)})
		case x < 72:
			f.Elems = append(f.Elems, Elem{Enum: g.enum(f.Pkg)})
		case x < 90 && cfg.Services:
			f.Elems = append(f.Elems, Elem{Svc: g.service()})
		case x < 95 && cfg.Extends && f.Syntax != "proto3":
			if e := g.extend(f.Pkg); e != nil {
				f.Elems = append(f.Elems, Elem{Extend: e})
			}
		case x < 97 && cfg.EmptyStmts:
			f.Elems = append(f.Elems, Elem{Empty: true})
		}
	}
	if g.chance(cfg.MoreServices, "more services") {
		f.Elems = append(f.Elems, Elem{Svc: g.service()})
	}
	for _, w := range sortedKeys(g.wkts) {
		im := Import{Path: "google/protobuf/" + w}
		g.com(&im.Com, false)
		f.Imports = append(f.Imports, im)
	}
}

func (g *gen) seePublic(i, j int) {
	for _, im := range g.w.Files[j].Imports {
		if im.Mod != "public" {
			continue
		}
		for k, f := range g.w.Files {
			if f.Path == im.Path && !g.vis[i][k] {
				g.vis[i][k] = true
				g.seePublic(i, k)
			}
		}
	}
}
