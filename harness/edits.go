package main

// Edits of a workspace: the histories that break check, git and package
// inspection are driven with.

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"strings"
)

func (w *Workspace) clone() *Workspace {
	raw, err := json.Marshal(w)
	must(err)
	out := &Workspace{}
	must(json.Unmarshal(raw, out))
	return out
}

// spot is one element together with the body that holds it.
type spot struct {
	f     *File
	scope string // full name of the enclosing package or message
	body  *[]Elem
	i     int
	msg   *Message // enclosing message, nil at file level
	oneof *Oneof
	enum  *Enum
	svc   *Service
}

func (s *spot) e() *Elem { return &(*s.body)[s.i] }
func (s *spot) remove() {
	*s.body = append(append([]Elem{}, (*s.body)[:s.i]...), (*s.body)[s.i+1:]...)
}

// name is the full name of the element.
func (s *spot) name() string {
	e := s.e()
	switch {
	case e.Msg != nil:
		return join(s.scope, e.Msg.Name)
	case e.Enum != nil:
		return join(s.scope, e.Enum.Name)
	case e.Svc != nil:
		return join(s.scope, e.Svc.Name)
	}
	return s.scope
}

func (w *Workspace) spots() []*spot {
	var out []*spot
	var rec func(s spot)
	rec = func(s spot) {
		for i := range *s.body {
			t := s
			t.i = i
			out = append(out, &t)
			e := t.e()
			switch {
			case e.Msg != nil:
				rec(spot{f: s.f, scope: join(s.scope, e.Msg.Name), body: &e.Msg.Elems, msg: e.Msg})
			case e.Enum != nil:
				rec(spot{f: s.f, scope: join(s.scope, e.Enum.Name), body: &e.Enum.Elems, enum: e.Enum})
			case e.Svc != nil:
				rec(spot{f: s.f, scope: join(s.scope, e.Svc.Name), body: &e.Svc.Elems, svc: e.Svc})
			case e.Oneof != nil:
				rec(spot{f: s.f, scope: s.scope, body: &e.Oneof.Elems, msg: s.msg, oneof: e.Oneof})
			case e.Field != nil && e.Field.Body != nil:
				rec(spot{f: s.f, scope: join(s.scope, e.Field.Name), body: &e.Field.Body.Elems, msg: e.Field.Body})
			}
		}
	}
	for _, f := range w.Files {
		rec(spot{f: f, scope: f.Pkg, body: &f.Elems})
	}
	return out
}

func filterSpots(ss []*spot, ok func(*spot) bool) []*spot {
	var out []*spot
	for _, s := range ss {
		if ok(s) {
			out = append(out, s)
		}
	}
	return out
}

// Edit is one step of a history; N selects the element, M a variant.
type Edit struct {
	Kind string
	N, M int
	Near bool `json:",omitempty"` // prefer the scope of the previous edit
}

var breakingEdits = []string{"delete", "delete", "rename", "delete value", "rename value", "renumber value", "delete field", "delete field", "rename field",
	"renumber field", "retype field", "retype field", "relabel field", "oneof out", "oneof in", "delete method", "rename method", "request type", "response type",
	"client streaming", "server streaming", "delete package", "rename package", "delete oneof", "map value",
	"retype to type", "retype to type", "move to oneof", "swap numbers", "nest", "drop alias", "delete group", "rename group", "relabel group", "delete all"}

var compatibleEdits = []string{"add field", "add message", "add enum", "add value", "add alias", "add service", "add method", "add package", "add file", "move", "move", "reorder", "reorder",
	"rename file", "options", "reserved", "imports", "comments", "add oneof", "swap files", "add oneof field"}

func fieldNums(es []Elem, used map[int]bool) {
	for _, e := range es {
		switch {
		case e.Field != nil:
			used[e.Field.Num] = true
		case e.Oneof != nil:
			fieldNums(e.Oneof.Elems, used)
		case e.Res != nil:
			for _, r := range e.Res.Ranges {
				for i := r.Lo; i <= r.Hi && i < r.Lo+1000; i++ {
					used[i] = true
				}
			}
		}
	}
}

func freeNum(es []Elem, from int) int {
	used := map[int]bool{}
	fieldNums(es, used)
	for n := from; ; n++ {
		if !used[n] && (n < 19000 || n > 19999) {
			return n
		}
	}
}

// apply performs the edit; want are the strings that one message of break
// check must contain (nil when nothing was changed).
func (w *Workspace) apply(ed Edit) (want []string, done bool) {
	ss := w.spots()
	sel := func(ok func(*spot) bool) *spot {
		c := filterSpots(ss, ok)
		if len(c) == 0 {
			return nil
		}
		if near := filterSpots(c, func(s *spot) bool { return strings.HasPrefix(s.scope+".", w.Focus+".") }); ed.Near && len(near) > 0 {
			c = near
		}
		s := c[ed.N%len(c)]
		w.Focus = s.scope
		return s
	}
	q := func(s string) string { return fmt.Sprintf("%q", s) }
	num := func(n int) string { return fmt.Sprintf(`"%d"`, n) }
	isDef := func(s *spot) bool { e := s.e(); return e.Msg != nil || e.Enum != nil || e.Svc != nil }
	isField := func(s *spot) bool { e := s.e(); return e.Field != nil && s.msg != nil && e.Field.Body == nil }
	uniq := func(p string) string { return fmt.Sprintf("%sNew%d", p, ed.M) }
	switch ed.Kind {
	case "delete":
		s := sel(isDef)
		if s == nil {
			return nil, false
		}
		n := s.name()
		s.remove()
		return []string{q(n), "deleted"}, true
	case "rename":
		s := sel(isDef)
		if s == nil {
			return nil, false
		}
		n := s.name()
		e := s.e()
		switch {
		case e.Msg != nil:
			e.Msg.Name = uniq("Msg")
		case e.Enum != nil:
			e.Enum.Name = uniq("Enum")
		default:
			e.Svc.Name = uniq("Svc")
		}
		return []string{q(n), "deleted"}, true
	case "delete value", "rename value", "renumber value":
		s := sel(func(s *spot) bool { return s.e().Value != nil })
		if s == nil {
			return nil, false
		}
		v := s.e().Value
		old := v.Num
		switch ed.Kind {
		case "delete value":
			s.remove()
			return []string{q(s.scope), num(old)}, true
		case "rename value":
			o := v.Name
			v.Name = uniq("VALUE_")
			return []string{q(s.scope), num(old), q(o)}, true
		}
		v.Num += 1000 + ed.M
		v.NumS = ""
		return []string{q(s.scope), num(old)}, true
	case "delete field", "rename field", "renumber field", "retype field", "relabel field":
		s := sel(isField)
		if s == nil {
			return nil, false
		}
		f := s.e().Field
		want := []string{q(s.scope), num(f.Num)}
		switch ed.Kind {
		case "delete field":
			s.remove()
		case "rename field":
			want = append(want, q(f.Name))
			f.Name = uniq("field_")
		case "renumber field":
			f.Num = freeNum(s.msg.Elems, 20000+ed.M)
			f.NumS = ""
		case "retype field":
			if f.Type == "" || f.Key != "" && ed.M%2 == 0 && false {
				return nil, false
			}
			t := scalars[ed.M%len(scalars)]
			if f.Key != "" || t == f.Type {
				return nil, false
			}
			f.Type, f.Ref, f.Opts = t, "", nil
			want = append(want, "type")
		case "relabel field":
			if s.oneof != nil || f.Key != "" {
				return nil, false
			}
			if s.f.Syntax == "proto3" {
				if f.Label == "repeated" {
					f.Label = ""
				} else {
					f.Label = "repeated"
				}
			} else {
				ls := []string{"optional", "repeated", "required"}
				l := ls[ed.M%3]
				if l == f.Label {
					l = ls[(ed.M+1)%3]
				}
				f.Label = l
			}
			f.Opts = nil
		}
		return want, true
	case "drop alias":
		s := sel(func(s *spot) bool {
			return s.e().Value != nil && len(filterSpots(ss, func(t *spot) bool {
				return t.enum == s.enum && t.e().Value != nil && t.e().Value.Num == s.e().Value.Num
			})) > 1
		})
		if s == nil {
			return nil, false
		}
		v := s.e().Value
		want := []string{q(s.scope), num(v.Num), q(v.Name)}
		if ed.M%3 == 0 {
			v.Name = uniq("VALUE_")
		} else {
			s.remove()
		}
		return want, true
	case "delete group", "rename group", "relabel group":
		s := sel(func(s *spot) bool { return s.e().Field != nil && s.msg != nil && s.e().Field.Body != nil })
		if s == nil {
			return nil, false
		}
		f := s.e().Field
		switch ed.Kind {
		case "delete group":
			want := []string{q(join(s.scope, f.Name)), "deleted"}
			s.remove()
			return want, true
		case "rename group":
			f.Name = uniq("Group")
			return []string{q(s.scope), num(f.Num), "type"}, true
		}
		if s.oneof != nil {
			return nil, false
		}
		ls := []string{"optional", "repeated", "required"}
		l := ls[ed.M%3]
		if l == f.Label {
			l = ls[(ed.M+1)%3]
		}
		f.Label, f.Opts = l, nil
		return []string{q(s.scope), num(f.Num), "changed from"}, true
	case "delete all":
		// of a kind in one body
		s := sel(func(s *spot) bool {
			e := s.e()
			return e.Enum != nil || e.Msg != nil || e.Svc != nil || e.Method != nil || e.Oneof != nil || isField(s)
		})
		if s == nil {
			return nil, false
		}
		kind := func(e *Elem) int {
			for i, is := range []bool{e.Enum != nil, e.Msg != nil, e.Svc != nil, e.Method != nil, e.Oneof != nil, e.Field != nil && e.Field.Body == nil} {
				if is {
					return i
				}
			}
			return -1
		}
		k := kind(s.e())
		want := []string{q(s.name()), "deleted"}
		switch k {
		case 3:
			want = []string{q(s.scope), q(s.e().Method.Name)}
		case 4:
			want = []string{q(s.scope), q(s.e().Oneof.Name)}
		case 5:
			if s.oneof != nil {
				return nil, false
			}
			want = []string{q(s.scope), num(s.e().Field.Num)}
		}
		var left []Elem
		for i := range *s.body {
			if e := (*s.body)[i]; kind(&e) != k {
				left = append(left, e)
			}
		}
		*s.body = left
		return want, true
	case "retype to type":
		s := sel(func(s *spot) bool { return isField(s) && s.e().Field.Key == "" && s.e().Field.Ref != "" })
		if s == nil {
			return nil, false
		}
		f := s.e().Field
		c := filterSpots(ss, func(t *spot) bool {
			return (t.e().Msg != nil || t.e().Enum != nil) && t.name() != f.Ref && (t.f == s.f || s.f.imports(t.f.Path))
		})
		// types that share the short name first
		short := func(n string) string { return n[strings.LastIndex(n, ".")+1:] }
		if same := filterSpots(c, func(t *spot) bool { return short(t.name()) == short(f.Ref) }); len(same) > 0 && ed.M%4 != 0 {
			c = same
		}
		if len(c) == 0 {
			return nil, false
		}
		f.Ref = c[ed.M%len(c)].name()
		f.Type, f.Opts = "."+f.Ref, nil
		return []string{q(s.scope), num(f.Num), "type"}, true
	case "move to oneof":
		s := sel(func(s *spot) bool {
			return s.e().Field != nil && s.oneof != nil && len(filterSpots(ss, func(t *spot) bool { return t.e().Oneof != nil && t.msg == s.msg })) > 1
		})
		if s == nil {
			return nil, false
		}
		c := filterSpots(ss, func(t *spot) bool { return t.e().Oneof != nil && t.msg == s.msg && t.e().Oneof != s.oneof })
		o, e, from := c[ed.M%len(c)].e().Oneof, *s.e(), s.oneof
		s.remove()
		o.Elems = append(o.Elems, e)
		if !hasField(from.Elems) {
			return nil, false
		}
		return []string{q(s.scope), num(e.Field.Num), q(from.Name)}, true
	case "swap numbers":
		s := sel(func(s *spot) bool { return s.e().Value != nil || isField(s) })
		if s == nil {
			return nil, false
		}
		c := filterSpots(ss, func(t *spot) bool {
			if t.e() == s.e() || (t.e().Value != nil) != (s.e().Value != nil) {
				return false
			}
			return t.e().Value != nil && t.enum == s.enum || isField(t) && t.msg == s.msg
		})
		if len(c) == 0 {
			return nil, false
		}
		t := c[ed.M%len(c)]
		if v := s.e().Value; v != nil {
			v.Num, t.e().Value.Num = t.e().Value.Num, v.Num
			v.NumS, t.e().Value.NumS = "", ""
			if v.Num == t.e().Value.Num {
				return nil, false
			}
			return []string{q(s.scope), num(v.Num)}, true
		}
		f := s.e().Field
		f.Num, t.e().Field.Num = t.e().Field.Num, f.Num
		f.NumS, t.e().Field.NumS = "", ""
		return []string{q(s.scope), num(f.Num), q(f.Name)}, true
	case "nest":
		// a definition moves into a message, or out of one
		s := sel(func(s *spot) bool { return s.e().Msg != nil || s.e().Enum != nil })
		if s == nil {
			return nil, false
		}
		n, e := s.name(), *s.e()
		c := filterSpots(ss, func(t *spot) bool {
			return t.e().Msg != nil && t.f == s.f && t.e().Msg != s.msg && t.name() != n && !strings.HasPrefix(t.name(), n+".")
		})
		if s.msg != nil && ed.M%2 == 0 || len(c) == 0 {
			if s.msg == nil {
				return nil, false
			}
			s.remove()
			s.f.Elems = append(s.f.Elems, e)
			return []string{q(n), "deleted"}, true
		}
		m := c[ed.M%len(c)].e().Msg
		m.Elems = append(m.Elems, e)
		s.remove()
		if s.msg == m {
			return nil, false
		}
		return []string{q(n), "deleted"}, true
	case "map value":
		s := sel(func(s *spot) bool { return isField(s) && s.e().Field.Key != "" })
		if s == nil {
			return nil, false
		}
		f := s.e().Field
		t := scalars[ed.M%len(scalars)]
		if t == f.Type {
			return nil, false
		}
		f.Type, f.Ref, f.Opts = t, "", nil
		return []string{q(join(s.scope, entryName(f.Name))), `"2"`, "type"}, true
	case "oneof out":
		s := sel(func(s *spot) bool { return s.e().Field != nil && s.oneof != nil && s.e().Field.Body == nil })
		if s == nil {
			return nil, false
		}
		f := *s.e().Field
		if s.f.Syntax != "proto3" {
			f.Label = "optional"
		}
		o := s.oneof
		s.remove()
		left := 0
		for _, e := range o.Elems {
			if e.Field != nil {
				left++
			}
		}
		if left == 0 {
			// the oneof would be empty
			return nil, false
		}
		s.msg.Elems = append(s.msg.Elems, Elem{Field: &f})
		return []string{q(s.scope), num(f.Num), q(o.Name)}, true
	case "oneof in":
		s := sel(func(s *spot) bool {
			if !isField(s) || s.oneof != nil || s.e().Field.Key != "" || s.e().Field.Label == "repeated" || s.e().Field.Label == "required" {
				return false
			}
			for _, e := range s.msg.Elems {
				if e.Oneof != nil {
					return true
				}
			}
			return false
		})
		if s == nil {
			return nil, false
		}
		f := *s.e().Field
		if s.f.Syntax == "proto3" && f.Label == "optional" {
			return nil, false
		}
		f.Label = ""
		s.remove()
		for i := range s.msg.Elems {
			if o := s.msg.Elems[i].Oneof; o != nil {
				o.Elems = append(o.Elems, Elem{Field: &f})
				return []string{q(s.scope), num(f.Num), q(o.Name)}, true
			}
		}
		return nil, false
	case "delete oneof":
		s := sel(func(s *spot) bool { return s.e().Oneof != nil })
		if s == nil {
			return nil, false
		}
		n := s.e().Oneof.Name
		s.remove()
		return []string{q(s.scope), q(n)}, true
	case "delete method", "rename method", "request type", "response type", "client streaming", "server streaming":
		s := sel(func(s *spot) bool { return s.e().Method != nil })
		if s == nil {
			return nil, false
		}
		m := s.e().Method
		want := []string{q(s.scope), q(m.Name)}
		switch ed.Kind {
		case "delete method":
			s.remove()
		case "rename method":
			m.Name = uniq("Method")
		case "client streaming":
			m.ReqS = !m.ReqS
			want = append(want, "client streaming")
		case "server streaming":
			m.ResS = !m.ResS
			want = append(want, "server streaming")
		default:
			c := filterSpots(ss, func(t *spot) bool { return t.e().Msg != nil && t.f == s.f })
			if len(c) == 0 {
				return nil, false
			}
			if same := filterSpots(ss, func(t *spot) bool {
				n, old := t.name(), m.Req
				if ed.Kind != "request type" {
					old = m.Res
				}
				return t.e().Msg != nil && (t.f == s.f || s.f.imports(t.f.Path)) && n[strings.LastIndex(n, ".")+1:] == old[strings.LastIndex(old, ".")+1:] && !strings.HasSuffix("."+n, "."+strings.TrimPrefix(old, "."))
			}); len(same) > 0 && ed.M%4 != 0 {
				c = same
			}
			t := "." + c[ed.M%len(c)].name()
			if ed.Kind == "request type" {
				if strings.HasSuffix(t, "."+m.Req) || m.Req == t {
					return nil, false
				}
				m.Req = t
				want = append(want, "request type")
			} else {
				if strings.HasSuffix(t, "."+m.Res) || m.Res == t {
					return nil, false
				}
				m.Res = t
				want = append(want, "response type")
			}
		}
		return want, true
	case "delete package", "rename package":
		var pkgs []string
		for _, f := range w.Files {
			if !contains(pkgs, f.Pkg) {
				pkgs = append(pkgs, f.Pkg)
			}
		}
		p := pkgs[ed.N%len(pkgs)]
		var keep []*File
		for _, f := range w.Files {
			if f.Pkg != p {
				keep = append(keep, f)
				continue
			}
			if ed.Kind == "rename package" {
				f.Pkg = "renamed" + fmt.Sprint(ed.M) + ".v1"
				keep = append(keep, f)
			}
		}
		if len(keep) == 0 {
			return nil, false
		}
		w.Files = keep
		return []string{"Package " + q(p) + " was deleted"}, true

	// compatible edits
	case "add field":
		s := sel(func(s *spot) bool { return s.e().Msg != nil })
		if s == nil {
			return nil, false
		}
		m := s.e().Msg
		f := &Field{Name: uniq("added_"), Num: freeNum(m.Elems, 1+ed.M%30), Type: scalars[ed.M%len(scalars)]}
		if s.f.Syntax != "proto3" {
			f.Label = []string{"optional", "repeated", "required"}[ed.M%3]
		} else if ed.M%3 == 0 {
			f.Label = "repeated"
		}
		at := ed.M % (len(m.Elems) + 1)
		m.Elems = append(append(append([]Elem{}, m.Elems[:at]...), Elem{Field: f}), m.Elems[at:]...)
		return nil, true
	case "add oneof":
		s := sel(func(s *spot) bool { return s.e().Msg != nil })
		if s == nil {
			return nil, false
		}
		m := s.e().Msg
		f := &Field{Name: uniq("added_"), Num: freeNum(m.Elems, 1+ed.M%30), Type: scalars[ed.M%len(scalars)]}
		m.Elems = append(m.Elems, Elem{Oneof: &Oneof{Name: uniq("oneof_"), Elems: []Elem{{Field: f}}}})
		return nil, true
	case "add oneof field":
		s := sel(func(s *spot) bool { return s.e().Oneof != nil })
		if s == nil {
			return nil, false
		}
		o := s.e().Oneof
		f := &Field{Name: uniq("oadded_"), Num: freeNum(s.msg.Elems, 1+ed.M%30), Type: scalars[ed.M%len(scalars)]}
		o.Elems = append(o.Elems, Elem{Field: f})
		return nil, true
	case "add message", "add enum", "add service":
		f := w.Files[ed.N%len(w.Files)]
		body := &f.Elems
		if ms := filterSpots(ss, func(s *spot) bool { return s.e().Msg != nil }); ed.M%2 == 0 && len(ms) > 0 && ed.Kind != "add service" {
			s := ms[ed.N%len(ms)]
			body = &s.e().Msg.Elems
			f = s.f
		}
		var e Elem
		switch ed.Kind {
		case "add message":
			e.Msg = &Message{Name: uniq("Added")}
		case "add enum":
			e.Enum = &Enum{Name: uniq("AddedEnum"), Elems: []Elem{{Value: &EnumValue{Name: uniq("ADDED_ENUM_")}}}}
		default:
			e.Svc = &Service{Name: uniq("AddedService")}
		}
		at := ed.M % (len(*body) + 1)
		*body = append(append(append([]Elem{}, (*body)[:at]...), e), (*body)[at:]...)
		return nil, true
	case "add value", "add alias":
		s := sel(func(s *spot) bool { return s.e().Enum != nil })
		if s == nil {
			return nil, false
		}
		en := s.e().Enum
		v := &EnumValue{Name: uniq("ADDED_"), Num: 5000 + ed.M}
		if ed.Kind == "add alias" {
			alias := false
			for _, e := range en.Elems {
				if e.Opt != nil && e.Opt.Name == "allow_alias" {
					alias = true
				}
			}
			c := filterSpots(ss, func(t *spot) bool { return t.enum == en && t.e().Value != nil })
			if len(c) == 0 {
				return nil, false
			}
			v.Num = c[ed.M%len(c)].e().Value.Num
			if !alias {
				en.Elems = append([]Elem{{Opt: &Opt{Name: "allow_alias", Val: []string{"true"}}}}, en.Elems...)
			}
		}
		at := len(en.Elems)
		if ed.M%2 == 0 && ed.Kind == "add alias" && v.Num == 0 {
			at = ed.M / 2 % (len(en.Elems) + 1)
		}
		en.Elems = append(append(append([]Elem{}, en.Elems[:at]...), Elem{Value: v}), en.Elems[at:]...)
		return nil, true
	case "add method":
		s := sel(func(s *spot) bool { return s.e().Svc != nil })
		if s == nil {
			return nil, false
		}
		c := filterSpots(ss, func(t *spot) bool { return t.e().Msg != nil && t.f == s.f })
		if len(c) == 0 {
			return nil, false
		}
		t := "." + c[ed.M%len(c)].name()
		s.e().Svc.Elems = append([]Elem{{Method: &Method{Name: uniq("Added"), Req: t, Res: t}}}, s.e().Svc.Elems...)
		return nil, true
	case "add package", "add file":
		g := w.Files[ed.N%len(w.Files)]
		f := &File{Path: filepath.Join(filepath.Dir(g.Path), fmt.Sprintf("added%d.proto", ed.M)), Syntax: "proto3", Pkg: g.Pkg, Elems: []Elem{{Msg: &Message{Name: uniq("InFile")}}}}
		if w.file(f.Path) != nil {
			return nil, false
		}
		if ed.Kind == "add package" {
			f.Pkg = fmt.Sprintf("added%d.v1", ed.M)
		}
		w.Files = append([]*File{f}, w.Files...)
		return nil, true
	case "move":
		s := sel(func(s *spot) bool {
			return isDef(s) && s.body == &s.f.Elems && s.e().Svc == nil || isDef(s) && s.body == &s.f.Elems
		})
		if s == nil {
			return nil, false
		}
		var to []*File
		for _, f := range w.Files {
			if f != s.f && f.Pkg == s.f.Pkg && f.Syntax == s.f.Syntax {
				to = append(to, f)
			}
		}
		if len(to) == 0 {
			return nil, false
		}
		t := to[ed.M%len(to)]
		e := *s.e()
		s.remove()
		t.Elems = append(t.Elems, e)
		need := func(f *File, path string) {
			if f.Path == path {
				return
			}
			for _, i := range f.Imports {
				if i.Path == path {
					return
				}
			}
			f.Imports = append(f.Imports, Import{Path: path})
		}
		for _, i := range s.f.Imports {
			need(t, i.Path)
		}
		for _, f := range w.Files {
			if f == t {
				continue
			}
			for _, i := range f.Imports {
				if i.Path == s.f.Path {
					need(f, t.Path)
					break
				}
			}
		}
		switch ed.M % 3 {
		case 0:
			need(s.f, t.Path)
		case 1:
			need(t, s.f.Path)
		}
		return nil, true
	case "reorder":
		var bodies []*[]Elem
		for _, f := range w.Files {
			bodies = append(bodies, &f.Elems)
		}
		for _, s := range ss {
			switch e := s.e(); {
			case e.Msg != nil:
				bodies = append(bodies, &e.Msg.Elems)
			case e.Enum != nil:
				bodies = append(bodies, &e.Enum.Elems)
			case e.Svc != nil:
				bodies = append(bodies, &e.Svc.Elems)
			case e.Oneof != nil:
				bodies = append(bodies, &e.Oneof.Elems)
			}
		}
		var c []*[]Elem
		for _, b := range bodies {
			if len(*b) > 1 {
				c = append(c, b)
			}
		}
		if len(c) == 0 {
			return nil, false
		}
		b := c[ed.N%len(c)]
		k := 1 + ed.M%(len(*b)-1)
		if ed.M%3 == 0 {
			var r []Elem
			for i := len(*b) - 1; i >= 0; i-- {
				r = append(r, (*b)[i])
			}
			*b = r
		} else {
			*b = append(append([]Elem{}, (*b)[k:]...), (*b)[:k]...)
		}
		return nil, true
	case "rename file":
		f := w.Files[ed.N%len(w.Files)]
		old := f.Path
		f.Path = filepath.Join(filepath.Dir(old), fmt.Sprintf("renamed%d.proto", ed.M))
		if ed.M%3 == 0 {
			f.Path = filepath.Join("moved", f.Path)
		}
		for _, g := range w.Files {
			if g != f && g.Path == f.Path {
				return nil, false
			}
		}
		for _, g := range w.Files {
			for i := range g.Imports {
				if g.Imports[i].Path == old {
					g.Imports[i].Path = f.Path
				}
			}
		}
		return nil, true
	case "swap files":
		if len(w.Files) < 2 {
			return nil, false
		}
		f, g := w.Files[ed.N%len(w.Files)], w.Files[(ed.N+1)%len(w.Files)]
		a, b := f.Path, g.Path
		f.Path, g.Path = b, a
		for _, h := range w.Files {
			for i := range h.Imports {
				switch h.Imports[i].Path {
				case a:
					h.Imports[i].Path = b
				case b:
					h.Imports[i].Path = a
				}
			}
		}
		return nil, true
	case "options":
		s := sel(func(s *spot) bool {
			e := s.e()
			return e.Field != nil && len(e.Field.Opts) > 0 || e.Value != nil && len(e.Value.Opts) > 0 || e.Opt != nil && e.Opt.Name != "allow_alias"
		})
		if s == nil {
			return nil, false
		}
		switch e := s.e(); {
		case e.Field != nil:
			e.Field.Opts = nil
		case e.Value != nil:
			e.Value.Opts = nil
		default:
			s.remove()
		}
		return nil, true
	case "reserved":
		s := sel(func(s *spot) bool { return s.e().Res != nil && !s.e().Res.Ext })
		if s == nil {
			return nil, false
		}
		s.remove()
		return nil, true
	case "imports":
		f := w.Files[ed.N%len(w.Files)]
		if len(f.Imports) == 0 {
			return nil, false
		}
		k := ed.M % len(f.Imports)
		if ed.M%2 == 0 {
			f.Imports = append(append([]Import{}, f.Imports[k:]...), f.Imports[:k]...)
		} else {
			f.Imports = append(append([]Import{}, f.Imports[:k]...), f.Imports[k+1:]...)
		}
		return nil, true
	case "comments":
		for _, s := range ss {
			s.e().com().Lead = []string{"changed " + fmt.Sprint(ed.M)}
		}
		return nil, true
	}
	panic("unknown edit " + ed.Kind)
}

func hasField(es []Elem) bool {
	for _, e := range es {
		if e.Field != nil {
			return true
		}
	}
	return false
}

func (f *File) imports(path string) bool {
	for _, i := range f.Imports {
		if i.Path == path {
			return true
		}
	}
	return false
}

// entryName is the name of the message behind a map field.
func entryName(field string) string {
	var b strings.Builder
	up := true
	for _, c := range field {
		if c == '_' {
			up = true
			continue
		}
		if up && c >= 'a' && c <= 'z' {
			c -= 'a' - 'A'
		}
		up = false
		b.WriteRune(c)
	}
	return b.String() + "Entry"
}
