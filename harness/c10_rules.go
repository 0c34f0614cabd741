package main

import (
	"path"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

type rulesCase struct {
	W        *Workspace
	Header   headerCfg
	Prefix   string
	Suppress bool // @suppresswarnings annotations are present
	Arg      string
}

var nato = strings.Fields("Alpha Bravo Charlie Dublin Echo Foxtrot Golf Hotel Idaho Juliet Kilo Lima Mike November Oscar Papa Quebec Romeo Sierra Tango Uniform Victor Whiskey Yankee Zulu")

// lintGen draws workspaces for the lint rules: near-clean files in which each
// element independently may commit an offence.
type lintGen struct {
	t        *rapid.T
	dirt     int // percent
	n        int
	pkgs     map[string]bool
	suppress bool
	proto2   bool
	f        *File
	free     []string // full names of messages of earlier files
	freePath map[string]string
	vend     string
	imports  map[string]bool
}

func (g *lintGen) dirty(label string) bool {
	return rapid.IntRange(0, 99).Draw(g.t, label) >= 100-g.dirt
}
func (g *lintGen) chance(pct int, label string) bool {
	return rapid.IntRange(0, 99).Draw(g.t, label) >= 100-pct
}
func (g *lintGen) of(label string, xs ...string) string {
	return sample(g.t, xs, label)
}

// uniq is a fresh CamelCase word.
func (g *lintGen) uniq() string {
	w := nato[g.n%len(nato)]
	if k := g.n / len(nato); k > 0 {
		w += nato[(k-1)%len(nato)]
	}
	g.n++
	return w
}

func (g *lintGen) com(c *Com, name string, stmt bool) {
	switch {
	case !g.dirty("comment"):
		c.Lead = []string{" " + name + " is a thing."}
	default:
		c.Lead = sample(g.t, [][]string{nil, {""}, {" "}, {" " + name}, {" " + name + " "}, {name + " does."}, {" " + name + "s are."}, {" " + name + " no period"},
			{" starts low."}, {" " + name + " goes", " over. lines"}, {"", " " + name + " late."}, {" X"}, {" The " + name + "."}, {"  " + name + " wide."}, {" lower", " Upper."}, {" Url http://x.y"},
			{" état de " + name + "."}, {" État de " + name + "."}, {" ñandú. Yes"}, {" Ünder."}, {" журнал."}, {" Журнал."}, {" \U0001d51e."}, {" 日本."}, {"\tTab " + name + ". "}}, "comment kind")
		if len(c.Lead) > 0 && g.chance(10, "block") {
			c.Block = true
		}
	}
	if g.suppress && len(c.Lead) > 0 && !c.Block && g.chance(20, "suppress") {
		c.Lead = append(append([]string{}, c.Lead...), " @suppresswarnings "+g.of("annotation", "naming", "keywords", "plurals", "floats", "google-api-http", "all"))
	}
	if g.dirty("detached") && g.chance(40, "detached too") {
		c.Det = []string{" detached"}
		c.DetBlk = g.chance(50, "detached block")
	}
	if stmt && g.dirty("inline") && g.chance(40, "inline too") {
		c.Inline = g.of("inline text", " inline", " inline", " ", "\x00", "!")
		c.InBlk = g.chance(40, "inline block")
	}
}

func (g *lintGen) word(clean string) string {
	if !g.dirty("word") {
		return clean
	}
	return g.of("word kind", clean+"Data", "Data"+clean, clean+"Common", "UUID"+clean, clean+"Uuid", "Common"+clean, clean+"Dat", clean+"Commo", "Uu"+clean+"Id")
}

// camel is a CamelCase name or an offending one.
func (g *lintGen) camel() string {
	w := g.word(g.uniq())
	if !g.dirty("camel") {
		return w
	}
	return g.of("camel kind", strings.ToLower(w[:1])+w[1:], w+"_X", w[:1]+"_"+w[1:], "X2"+w, "HTTP"+w, "HTTP2"+w, "A_B"+w, w+"B2c", w+"XYZ", strings.ToUpper(w), strings.ToLower(w))
}

func (g *lintGen) lower() string {
	w := strings.ToLower(g.uniq())
	if !g.dirty("lower") {
		return g.of("lower kind", w, w+"_id", "a_"+w+"_2", w+"1")
	}
	return g.of("lower offence", strings.ToUpper(w), w+"Id", w+"_", "_"+w, w+"_Id", "file_name_"+w, w+"_file_name", "filename_"+w, "file_path_"+w, w+"_filepath",
		w+"_data", "uuid_"+w, w+"_common", w+"_duration", "duration_"+w, w+"_time", "timed_"+w, "descriptor_"+w, w+"_dura", w+"_tim", "my_descriptor", "_descriptor", "descriptor__", "Descriptor", "descriptor", "duration", "time")
}

func (g *lintGen) imp(p string) {
	if p != g.f.Path && !g.imports[p] {
		g.imports[p] = true
		g.f.Imports = append(g.f.Imports, Import{Path: p})
	}
}

func (g *lintGen) typ() string {
	switch rapid.IntRange(0, 9).Draw(g.t, "type") {
	case 0:
		return "float"
	case 1:
		return "double"
	case 2, 3:
		g.imp("google/protobuf/duration.proto")
		return g.of("spelling", "google.protobuf.Duration", "google.protobuf.Duration", ".google.protobuf.Duration")
	case 4, 5:
		g.imp("google/protobuf/timestamp.proto")
		return g.of("spelling", "google.protobuf.Timestamp", "google.protobuf.Timestamp", ".google.protobuf.Timestamp")
	case 7:
		if g.dirty("lookalike") {
			g.imp(g.vend)
			return g.of("lookalike type", "vend.v1.Timestamp", ".vend.v1.Duration", "vend.v1.Duration", ".vend.v1.Timestamp")
		}
	case 6:
		if len(g.free) > 0 {
			full := sample(g.t, g.free, "foreign")
			g.imp(g.freePath[full])
			return "." + full
		}
	}
	return g.of("scalar", "string", "int64", "bytes", "bool", "uint32")
}

func (g *lintGen) field(num int, oneof bool) *Field {
	f := &Field{Name: g.lower(), Num: num, Type: g.typ()}
	switch strings.TrimPrefix(f.Type, ".") {
	case "google.protobuf.Duration":
		if !g.dirty("duration name") {
			f.Name = strings.ToLower(g.uniq()) + "_duration"
		}
	case "google.protobuf.Timestamp":
		if !g.dirty("time name") {
			f.Name = strings.ToLower(g.uniq()) + "_time"
		}
	}
	if !oneof {
		switch rapid.IntRange(0, 5).Draw(g.t, "label") {
		case 0:
			f.Label = "repeated"
		case 1:
			f.Key = g.of("key", "string", "int32", "bool")
		default:
			if g.proto2 {
				f.Label = g.of("label2", "optional", "required")
			}
		}
		if f.Key != "" {
			f.Label = ""
		}
	}
	if g.dirty("json") && g.chance(40, "json too") {
		f.Opts = append(f.Opts, Opt{Name: "json_name", Val: []string{`"j` + strconv.Itoa(num) + `"`}})
	}
	if g.chance(10, "deprecated") {
		f.Opts = append(f.Opts, Opt{Name: "deprecated", Val: []string{"true"}})
	}
	g.com(&f.Com, f.Name, true)
	return f
}

func (g *lintGen) fixFields(es []Elem, seen map[string]bool) {
	for i := range es {
		if o := es[i].Oneof; o != nil {
			g.fixFields(o.Elems, seen)
		}
		f := es[i].Field
		if f == nil {
			continue
		}
		k := strings.ToLower(strings.ReplaceAll(f.Name, "_", ""))
		if seen[k] {
			f.Name = strings.ToLower(g.uniq())
			k = f.Name
		}
		seen[k] = true
	}
}

func (g *lintGen) enum(outer []string) *Enum {
	e := &Enum{Name: g.camel()}
	g.com(&e.Com, e.Name, false)
	own := strings.ToUpper(snake(e.Name))
	deep := ""
	for _, o := range outer {
		deep += strings.ToUpper(snake(o)) + "_"
	}
	prefix := own
	if g.chance(40, "deep") {
		prefix = deep + own
	}
	n := rapid.IntRange(1, 4).Draw(g.t, "values")
	if g.dirty("alias") && n > 1 && g.chance(30, "alias too") {
		o := &Opt{Name: "allow_alias", Val: []string{"true"}}
		g.com(&o.Com, "option", true)
		o.Com.Block = false
		e.Elems = append(e.Elems, Elem{Opt: o})
	}
	alias := len(e.Elems) > 0
	for i := 0; i < n; i++ {
		v := &EnumValue{Num: i}
		v.Name = prefix + "_" + strings.ToUpper(g.uniq())
		if i == 0 {
			v.Name = prefix + "_INVALID"
			if g.proto2 && g.chance(50, "start") {
				v.Num = 7
			}
		}
		if i == n-1 && alias {
			v.Num = e.Elems[1].Value.Num
		}
		if g.dirty("value") {
			u := strings.ToUpper(g.uniq())
			v.Name = g.of("value kind", u, prefix+u, prefix+"_"+strings.ToLower(u), strings.ToLower(prefix)+"_"+u, prefix+"_"+u+"_", "_"+prefix+u, prefix+"_INVALID_"+u, own+"_"+u, deep+own+"_"+u,
				prefix+"_DATA_"+u, prefix+"_UUID"+u, prefix+"_UNKNOWN_"+u, "INVALID_"+u)
		}
		g.com(&v.Com, v.Name, true)
		e.Elems = append(e.Elems, Elem{Value: v})
	}
	if g.dirty("enum reserved") && g.chance(30, "enum reserved too") {
		r := &Reserved{}
		if g.chance(50, "by name") {
			for j := rapid.IntRange(1, 4).Draw(g.t, "reserved names"); j > 0; j-- {
				r.Names = append(r.Names, g.of("reserved", "OLD", "OLD_DATA", "x_uuid", "PAST", "GONE")+"_"+strings.ToUpper(g.uniq()))
			}
		} else {
			r.Ranges = []Range{{50, 50}, {60, 70}}
		}
		g.com(&r.Com, "reserved", true)
		e.Elems = append(e.Elems, Elem{Res: r})
	}
	return e
}

// fixValues keeps enum value names unique within a scope.
func (g *lintGen) fixValues(es []Elem) {
	seen := map[string]bool{}
	for i := range es {
		if e := es[i].Enum; e != nil {
			for j := range e.Elems {
				if v := e.Elems[j].Value; v != nil {
					if seen[v.Name] {
						v.Name += "_" + strings.ToUpper(g.uniq())
					}
					seen[v.Name] = true
				}
			}
		}
	}
}

func (g *lintGen) message(name string, outer []string, depth int) *Message {
	m := &Message{Name: name}
	g.com(&m.Com, m.Name, false)
	full := append(append([]string{}, outer...), name)
	n := rapid.IntRange(0, 4).Draw(g.t, "body")
	for i := 0; i < n; i++ {
		num := 10 * (i + 1)
		switch rapid.IntRange(0, 11).Draw(g.t, "element") {
		case 0:
			if depth < 2 {
				m.Elems = append(m.Elems, Elem{Msg: g.message(g.camel(), full, depth+1)})
			}
		case 1:
			m.Elems = append(m.Elems, Elem{Enum: g.enum(full)})
		case 2, 3:
			o := &Oneof{Name: g.lower()}
			g.com(&o.Com, o.Name, false)
			for j := rapid.IntRange(1, 3).Draw(g.t, "members"); j > 0; j-- {
				o.Elems = append(o.Elems, Elem{Field: g.field(num+j, true)})
			}
			m.Elems = append(m.Elems, Elem{Oneof: o})
		case 4:
			if g.dirty("reserved") {
				r := &Reserved{}
				if g.chance(50, "by name") {
					for j := rapid.IntRange(1, 4).Draw(g.t, "reserved names"); j > 0; j-- {
						r.Names = append(r.Names, g.of("reserved", "old", "old_data", "common", "uuids", "past", "gone")+"_"+strings.ToLower(g.uniq()))
					}
				} else {
					r.Ranges = []Range{{1000 + num, 1000 + num + 3}}
				}
				g.com(&r.Com, "reserved", true)
				m.Elems = append(m.Elems, Elem{Res: r})
			}
		case 5:
			if g.proto2 {
				x := &Field{Label: "optional", Type: "group", Name: g.word(g.uniq()), Num: num, Body: &Message{}}
				x.Body.Name = x.Name
				g.com(&x.Com, x.Name, false)
				y := &Field{Label: "optional", Type: "string", Name: strings.ToLower(g.uniq()), Num: 1}
				if g.dirty("group field") {
					y.Name += g.of("group field kind", "_data", "_uuid", "_common", "_dat")
				}
				g.com(&y.Com, y.Name, true)
				x.Body.Elems = []Elem{{Field: y}}
				m.Elems = append(m.Elems, Elem{Field: x})
			}
		case 6:
			o := &Opt{Name: "deprecated", Val: []string{"true"}}
			g.com(&o.Com, "deprecated", true)
			o.Com.Block = false
			if n == 1 || i == 0 {
				m.Elems = append(m.Elems, Elem{Opt: o})
			}
		default:
			m.Elems = append(m.Elems, Elem{Field: g.field(num, false)})
		}
	}
	g.fixFields(m.Elems, map[string]bool{})
	g.fixValues(m.Elems)
	if g.proto2 && g.chance(35, "extensions") && !strings.Contains(strings.ToLower(name), "data") && !strings.Contains(strings.ToLower(name), "uuid") && !strings.Contains(strings.ToLower(name), "common") {
		r := &Reserved{Ext: true, Ranges: []Range{{2000, 2010}}}
		g.com(&r.Com, "extensions", true)
		m.Elems = append(m.Elems, Elem{Res: r})
		if len(outer) == 0 && g.chance(80, "extend it") {
			x := &Extend{Type: name}
			g.com(&x.Com, name, false)
			f := &Field{Label: "optional", Type: "string", Name: strings.ToLower(g.uniq()), Num: 2000 + rapid.IntRange(0, 9).Draw(g.t, "extension number")}
			f.Com.Lead = []string{" " + f.Name + " extends. Yes."}
			if g.dirt > 0 && g.chance(80, "odd extension") {
				f.Name += g.of("extension kind", "", "Id", "_file_name", "_data", "_timed", "_uuid")
				f.Type = g.of("extension type", "string", "float", "double")
				f.Label = g.of("extension label", "optional", "repeated")
				g.com(&f.Com, f.Name, true)
				if g.chance(60, "extension inline") {
					f.Com.Inline = " inline"
				}
			}
			x.Elems = []Elem{{Field: f}}
			g.f.Elems = append(g.f.Elems, Elem{Extend: x})
		}
	}
	return m
}

// inner is the names of the messages nested in a message, at every depth.
func inner(m *Message, prefix string) []string {
	var out []string
	for i := range m.Elems {
		if x := m.Elems[i].Msg; x != nil {
			out = append(out, prefix+"."+x.Name)
			out = append(out, inner(x, prefix+"."+x.Name)...)
		}
	}
	return out
}

// spell is another name of a message that is in the file's package or known by
// its full name.
func (g *lintGen) spell(t string) string {
	if strings.HasPrefix(t, "google.") || g.freePath[t] != "" {
		return "." + t
	}
	if g.f.Pkg == "" {
		return g.of("spelled", "", ".") + t
	}
	parts := strings.Split(g.f.Pkg, ".")
	i := rapid.IntRange(-1, len(parts)-1).Draw(g.t, "qualified")
	if i < 0 || parts[i] == "public" { // the parser takes it for a keyword
		return "." + g.f.Pkg + "." + t
	}
	return strings.Join(parts[i:], ".") + "." + t
}

func (g *lintGen) service(nested []string) (*Service, []*Message) {
	s := &Service{Name: g.of("service word", "Trip", "User", "Order", "Wallet") + g.uniq() + "API"}
	if g.dirty("service name") {
		u := g.uniq()
		s.Name = g.of("service kind", u+"Service", "Users"+u+"API", u+"TripsAPI", u+"Data", u+"_API", "x"+u+"API", u+"Api", u+"APIS", "HTTP"+u+"API", u+"OrdersService", "USERS"+u+"API", u, u+"DataAPI", "Wallets"+u)
	}
	g.com(&s.Com, s.Name, false)
	var msgs []*Message
	n := rapid.IntRange(0, 3).Draw(g.t, "rpcs")
	var types []string
	for i := 0; i < n; i++ {
		r := &Method{Name: g.camel()}
		g.com(&r.Com, r.Name, false)
		r.Req, r.Res = r.Name+"Request", r.Name+"Response"
		for _, p := range []*string{&r.Req, &r.Res} {
			if !g.dirty("rpc type") {
				msgs = append(msgs, g.message(*p, nil, 2))
				types = append(types, *p)
				continue
			}
			switch rapid.IntRange(0, 5).Draw(g.t, "rpc type kind") {
			case 0:
				*p = g.uniq() + g.of("suffix", "Request", "Response", "")
				msgs = append(msgs, g.message(*p, nil, 2))
				types = append(types, *p)
			case 1:
				if len(g.free) > 0 {
					*p = sample(g.t, g.free, "foreign")
					g.imp(g.freePath[*p])
					continue
				}
				fallthrough
			case 2:
				g.imp("google/protobuf/empty.proto")
				*p = "google.protobuf.Empty"
			case 3:
				if len(nested) > 0 {
					*p = sample(g.t, nested, "nested")
					continue
				}
				fallthrough
			default:
				if len(types) > 0 {
					*p = sample(g.t, types, "again")
				} else {
					msgs = append(msgs, g.message(*p, nil, 2))
					types = append(types, *p)
				}
			}
		}
		for _, p := range []*string{&r.Req, &r.Res} {
			if g.dirty("spelled type") && g.chance(40, "spelled too") {
				*p = g.spell(*p)
			}
		}
		r.ReqS = g.dirty("stream request") && g.chance(40, "stream too")
		r.ResS = g.dirty("stream response") && g.chance(40, "stream too")
		if g.chance(40, "rpc options") {
			o := &Opt{Name: "deprecated", Val: []string{"true"}}
			if g.dirty("http") {
				g.imp("google/api/annotations.proto")
				o = &Opt{Name: g.of("http kind", "(google.api.http).get", "(.google.api.http).get", "(google.api.httpx)", "(google.api.other).get", "(.google.api.httpx)"), Val: []string{`"/x"`}}
			}
			g.com(&o.Com, "option", true)
			o.Com.Block = false // the parser gives options of an rpc no leading comment
			r.Elems = append(r.Elems, Elem{Opt: o})
			r.Body = 1
		} else if g.chance(20, "inline rpc") && g.dirty("rpc inline") {
			r.Com.Inline = " inline"
		}
		s.Elems = append(s.Elems, Elem{Method: r})
	}
	return s, msgs
}

var lintPkgs = []string{"foo.v1", "foo.v1", "foo.bar.v1", "uber.trip.v2beta3", "foo", "foo.bar", "foo_bar.v1", "Foo.v1", "foo.Bar", "foo.internal.v1", "std", "foo.public", "private.x.v1", "foo.protected.v3", "foo.stdx.v1",
	"foo.data.v1", "foo.common.v1", "uuidx.v1", "foo.v0", "foo.v1beta0", "foo.v1beta", "v1", "foo.v1.bar", "a.b.c.d.v10", "foo.v1beta1", "internals.v1", "foo.v1alpha1"}

func (g *lintGen) file(p, pkg string, svc *Service, msgs []*Message) {
	f := g.f
	f.Path = p
	f.Pkg = pkg
	if g.dirty("no package") && g.chance(15, "no package too") {
		f.Pkg = ""
	}
	g.com(&f.PkgCom, "package", true)
	g.com(&f.SynCom, "syntax", true)
}

func genRules(t *rapid.T) *rulesCase {
	c := &rulesCase{Header: genHeader(t), W: &Workspace{}}
	if rapid.IntRange(0, 2).Draw(t, "prefix") == 0 {
		c.Prefix = sample(t, []string{"au.com", "org", "com"}, "prefix value")
	}
	g := &lintGen{t: t, freePath: map[string]string{}, pkgs: map[string]bool{}}
	g.dirt = sample(t, []int{0, 5, 15, 15, 30, 60}, "dirt")
	c.Suppress = rapid.IntRange(0, 3).Draw(t, "suppress") == 0
	g.suppress = c.Suppress
	api := &File{Path: "google/api/annotations.proto", Syntax: "proto3", Pkg: "google.api", Imports: []Import{{Path: "google/protobuf/descriptor.proto"}}, Elems: []Elem{
		{Msg: &Message{Name: "HttpRule", Elems: []Elem{{Field: &Field{Type: "string", Name: "get", Num: 2}}}}},
		{Extend: &Extend{Type: "google.protobuf.MethodOptions", Elems: []Elem{
			{Field: &Field{Type: "HttpRule", Name: "http", Num: 72295728}}, {Field: &Field{Type: "HttpRule", Name: "other", Num: 72295729}}, {Field: &Field{Type: "string", Name: "httpx", Num: 72295730}}}}}}}
	vend := &File{Path: sample(t, []string{"vend/google/protobuf/timestamp.proto", "x/google/protobuf/any.proto", "vend/google/protobuf/field_mask.proto"}, "vendored"), Syntax: "proto3", Pkg: "vend.v1"}
	gogo := &File{Path: sample(t, []string{"gogoproto/gogo.proto", "github.com/gogo/protobuf/gogoproto/gogo.proto", "gogo/xgogo_x.proto"}, "gogo"), Syntax: "proto3", Pkg: "gogo.v1"}
	for _, n := range []string{"Timestamp", "Duration"} {
		vend.Elems = append(vend.Elems, Elem{Msg: &Message{Name: n, Com: Com{Lead: []string{" " + n + " is a lookalike."}}, Elems: []Elem{{Field: &Field{Type: "string", Name: "value", Num: 1, Com: Com{Lead: []string{" value is it. Yes."}}}}}}})
	}
	g.vend = vend.Path
	extra := map[string]*File{api.Path: api, vend.Path: vend, gogo.Path: gogo}
	needed := map[string]bool{}
	dirs := sample(t, [][]string{{"a"}, {"a", "a", "b"}, {"a", "a/c"}, {".", "a", "a"}, {"a", "a", "a"}, {"b", "bb"}}, "dirs")
	dirPkg := map[string]string{}
	taken := map[string]bool{}
	for _, d := range dirs {
		if dirPkg[d] == "" {
			dirPkg[d] = sample(t, lintPkgs, "package")
			if g.dirt == 0 {
				dirPkg[d] = "foo.v1"
			}
		}
		pkg := dirPkg[d]
		if g.dirty("own package") {
			pkg = sample(t, lintPkgs, "other package")
		}
		if g.dirty("no package") && g.chance(20, "no package too") {
			pkg = ""
		}
		f := &File{Pkg: pkg, Syntax: "proto3", Merge: 0}
		g.f = f
		g.imports = map[string]bool{}
		g.proto2 = false
		if g.dirt > 0 && g.chance(40, "proto2") {
			g.proto2 = true
			f.Syntax = "proto2"
		}
		// elements
		var nested []string
		var before []Elem
		withSvc := g.chance(50, "service")
		if !withSvc || g.dirty("other messages") {
			for i := rapid.IntRange(1, 3).Draw(t, "messages"); i > 0; i-- {
				m := g.message(g.camel(), nil, 0)
				before = append(before, Elem{Msg: m})
				nested = append(nested, inner(m, m.Name)...)
			}
		}
		if !withSvc || g.dirty("other enums") {
			if g.chance(40, "enum") {
				before = append(before, Elem{Enum: g.enum(nil)})
			}
		}
		var svcs, after []Elem
		if withSvc {
			n := 1
			if g.dirty("two services") {
				n = 2
			}
			for i := 0; i < n; i++ {
				s, msgs := g.service(nested)
				svcs = append(svcs, Elem{Svc: s})
				for _, m := range msgs {
					after = append(after, Elem{Msg: m})
				}
			}
		}
		all := append(append(append([]Elem{}, before...), svcs...), after...)
		if g.dirty("order") {
			all = rapid.Permutation(all).Draw(t, "order of elements")
		}
		f.Elems = append(f.Elems, all...)
		g.fixValues(f.Elems)
		// path
		base := g.of("base", "trip", "foo_bar", "x1", "order_state", "a_b_c")
		if len(svcs) > 0 && !g.dirty("base of service") {
			base = snake(svcs[0].Svc.Name)
		} else if g.dirty("base") {
			base = g.of("base kind", "fooBar", "Foo", "foo-bar", "foo.bar", "_foo", "foo_", "HTTP", "a b")
		}
		for taken[strings.ToLower(path.Join(d, base))] {
			base += strings.ToLower(g.uniq())
		}
		taken[strings.ToLower(path.Join(d, base))] = true
		f.Path = path.Join(d, base+".proto")
		// header statements
		g.com(&f.SynCom, "syntax", true)
		g.com(&f.PkgCom, "package", true)
		opts := managed(true, "foo.v1", f.Path, "com")
		if pkg != "" {
			prefix := "com"
			if c.Prefix != "" && g.chance(80, "own prefix") {
				prefix = c.Prefix
			}
			opts = managed(!g.dirty("uber1"), pkg, f.Path, prefix)
		}
		if g.chance(30, "ruby") {
			opts["ruby_package"] = "Ruby"
		}
		for _, k := range sortedKeys(opts) {
			v := opts[k]
			if g.dirty("option missing") && g.chance(40, "option missing too") {
				continue
			}
			if g.dirty("option value") && g.chance(60, "option value too") {
				switch k {
				case "java_multiple_files":
					v = "false"
				case "go_package":
					v = g.of("go package", "x/y;"+v, v+"x", "a/b/c", "pb")
				case "ruby_package":
					v = "Other"
				default:
					v = g.of("value", v+"X", "x"+v, strings.ToLower(v), "other")
				}
			}
			o := Opt{Name: k, Val: []string{strconv.Quote(v)}}
			if k == "java_multiple_files" {
				o.Val = []string{v}
			}
			g.com(&o.Com, "option", true)
			f.Opts = append(f.Opts, o)
		}
		for _, p := range []string{vend.Path, gogo.Path} {
			if g.dirty("vendored import") {
				g.imp(p)
			}
		}
		for i := range f.Imports {
			im := &f.Imports[i]
			needed[im.Path] = true
			if g.dirty("import kind") && g.chance(50, "import kind too") {
				im.Mod = g.of("modifier", "public", "weak")
				if im.Mod == "weak" && strings.HasPrefix(im.Path, "google/protobuf/") {
					im.Mod = "public"
				}
			}
			g.com(&im.Com, "import", true)
		}
		if g.dirty("merge") {
			f.Merge = rapid.Uint64Range(1, 1<<20).Draw(t, "merge")
		}
		if w := c.Header.want(); w != "" && g.chance(85, "with header") {
			for _, l := range lines(w) {
				f.Head = append(f.Head, strings.TrimPrefix(l, "//"))
			}
		}
		c.W.Files = append(c.W.Files, f)
		for _, e := range f.Elems {
			if e.Msg != nil {
				full := e.Msg.Name
				if f.Pkg != "" {
					full = f.Pkg + "." + full
				}
				g.free = append(g.free, full)
				g.freePath[full] = f.Path
			}
		}
	}
	for _, p := range sortedKeys(extra) {
		if needed[p] {
			c.W.Files = append(c.W.Files, extra[p])
		}
	}
	return c
}

func runRules(x *Ctx, c *rulesCase) error {
	m := lintWorkspace(c.W, c.Header.want(), c.Prefix)
	lint := M{"group": "empty", "rules": M{"add": sortedKeys(lintRules)}}
	if c.Prefix != "" {
		lint["java_package_prefix"] = c.Prefix
	}
	files := map[string]string{}
	for p, s := range m.texts {
		files[p] = s
	}
	c.Header.apply(lint, files)
	files["prototool.yaml"] = yamlOf(M{"protoc": M{"allow_unused_imports": true}, "lint": lint})
	writeFiles(x.Dir, files)
	if set, r := x.protocSet(x.Dir, sortedKeys(m.texts)); set == nil {
		x.Label("protoc rejects the generated source")
		if x.Tier == "debug" {
			infra("%s", r)
		}
		return nil
	}
	r := x.PT(x.Dir, "lint", "--error-format", "filename:line:id:column:message")
	got, full := map[string]bool{}, map[string]int{}
	for _, l := range lines(r.Out) {
		p := strings.SplitN(l, ":", 5)
		if len(p) == 5 {
			// an rpc can offend with its request and its response type, an element with
			// its leading and its inline comment
			full[l]++
			if full[l] > 2 || full[l] == 2 && p[2] != "REQUEST_RESPONSE_TYPES_UNIQUE" && p[2] != "COMMENTS_NO_C_STYLE" {
				return bad("the failure %q is printed more than once\n%s\nsources:\n%s", l, r, dumpFiles(x.Dir, sortedKeys(files)))
			}
			l = strings.Join(p[:3], ":")
		}
		got[l] = true
	}
	skip := func(file string, line int, rule string) bool {
		return m.skip[file+" "+rule] || m.skipL[offence{file, line, rule}]
	}
	var missed, extra []string
	rules := map[string]bool{}
	n := 0
	for o := range m.out {
		if skip(o.File, o.Line, o.Rule) {
			delete(got, o.String())
			continue
		}
		n++
		rules[o.Rule] = true
		if !got[o.String()] {
			missed = append(missed, o.String())
		}
		delete(got, o.String())
	}
	for l := range got {
		p := strings.Split(l, ":")
		if len(p) == 3 {
			k, _ := strconv.Atoi(p[1])
			if skip(p[0], k, p[2]) {
				continue
			}
		}
		extra = append(extra, l)
	}
	if len(missed)+len(extra) > 0 {
		return bad("lint failures differ from the documented offences\nnot reported: %s\nreported without an offence: %s\n%s\nsources:\n%s", sorted(missed), sorted(extra), r, dumpFiles(x.Dir, sortedKeys(files)))
	}
	if (r.Code != 0) != (len(lines(r.Out)) > 0) {
		return bad("exit status does not match the failures: %s", r)
	}
	for _, f := range c.W.Files {
		for _, e := range f.Elems {
			if e.Extend != nil && f.Syntax == "proto2" {
				x.Label("an extend")
				if e.Extend.Elems[0].Field.Com.Inline != "" {
					x.Label("an extension with an inline comment")
				}
			}
		}
	}
	for k := range rules {
		x.Label("offence %s", k)
	}
	for k := range m.seen {
		x.Label("observed %s", k)
	}
	if n == 0 {
		x.Label("no offence")
	}
	if n > 0 && len(rules) < len(lintRules) {
		x.NonTrivial()
	}
	return nil
}

func init() {
	prop("C10", "model", "a workspace that commits offences against some rules and none against others",
		newPart("rules", 5200, 60000, genRules, runRules))
}

func sorted(xs []string) string {
	sort.Strings(xs)
	return strings.Join(xs, " ")
}
