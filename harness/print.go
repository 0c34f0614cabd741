package main

import (
	"fmt"
	"strconv"
	"strings"
)

// item kinds of the printer: a token, a statement break, brace opening and
// closing, and comments.
type item struct {
	kind byte // 't' token, 'n' end of statement, '{' '}' , 'c' own-line comment, 'i' inline comment, 'b' blank line
	s    string
	blk  bool  // block comment
	mark *mark // set on the first token of an element
}

// mark receives the position at which an element's first token was printed.
type mark struct{ line int }

type printer struct {
	items []item
	next  *mark
	pos   map[interface{}]*mark // by *Com of an element, or detached of a comment
}

// detached identifies one detached comment of an element.
type detached struct {
	com *Com
	i   int
}

func (p *printer) mark(key interface{}) *mark {
	if p.pos == nil {
		p.pos = map[interface{}]*mark{}
	}
	m := &mark{}
	p.pos[key] = m
	return m
}

func (p *printer) t(ss ...string) {
	for _, s := range ss {
		p.items = append(p.items, item{kind: 't', s: s, mark: p.next})
		p.next = nil
	}
}
func (p *printer) end()  { p.items = append(p.items, item{kind: 'n', s: ";"}) }
func (p *printer) open() { p.items = append(p.items, item{kind: '{', s: "{"}) }
func (p *printer) clos() { p.items = append(p.items, item{kind: '}', s: "}"}) }

func (p *printer) lead(c *Com) {
	for i, d := range c.Det {
		p.items = append(p.items, item{kind: 'c', s: d, blk: c.DetBlk, mark: p.mark(detached{c, i})}, item{kind: 'b'})
	}
	if len(c.Lead) > 0 {
		if c.Block {
			p.items = append(p.items, item{kind: 'c', s: strings.Join(c.Lead, "\n"), blk: true})
		} else {
			for _, l := range c.Lead {
				p.items = append(p.items, item{kind: 'c', s: l})
			}
		}
	}
	p.next = p.mark(c)
}

func (p *printer) inline(s string, blk ...bool) {
	if s != "" {
		s = strings.TrimPrefix(s, "\x00") // an empty comment
		p.items = append(p.items, item{kind: 'i', s: s, blk: len(blk) > 0 && blk[0]})
	}
}

func (p *printer) endComments(c *Com) {
	for _, l := range c.End {
		p.items = append(p.items, item{kind: 'c', s: l})
	}
}

func (p *printer) opts(os []Opt) {
	if len(os) == 0 {
		return
	}
	p.t("[")
	for i, o := range os {
		if i > 0 {
			p.t(",")
		}
		p.t(o.Name, "=")
		p.t(o.Val...)
	}
	p.t("]")
}

func numS(n int, s string) string {
	if s != "" {
		return s
	}
	return strconv.Itoa(n)
}

func (p *printer) field(f *Field) {
	p.lead(&f.Com)
	if f.Body != nil { // group
		if f.Label != "" {
			p.t(f.Label)
		}
		p.t("group", f.Name, "=", numS(f.Num, f.NumS))
		p.opts(f.Opts)
		p.body(f.Body.Elems, &f.Com)
		return
	}
	if f.Key != "" {
		p.t("map", "<", f.Key, ",", f.Type, ">", f.Name, "=", numS(f.Num, f.NumS))
	} else {
		if f.Label != "" {
			p.t(f.Label)
		}
		p.t(f.Type, f.Name, "=", numS(f.Num, f.NumS))
	}
	p.opts(f.Opts)
	p.end()
	p.inline(f.Com.Inline, f.Com.InBlk)
}

func (p *printer) option(o *Opt) {
	p.lead(&o.Com)
	p.t("option", o.Name, "=")
	p.t(o.Val...)
	p.end()
	p.inline(o.Com.Inline, o.Com.InBlk)
}

func (p *printer) body(es []Elem, c *Com) {
	p.open()
	p.inline(c.Open)
	for i := range es {
		p.elem(&es[i])
	}
	p.endComments(c)
	p.clos()
	p.inline(c.Inline, c.InBlk)
}

func (p *printer) elem(e *Elem) {
	switch {
	case e.Msg != nil:
		p.lead(&e.Msg.Com)
		p.t("message", e.Msg.Name)
		p.body(e.Msg.Elems, &e.Msg.Com)
	case e.Enum != nil:
		p.lead(&e.Enum.Com)
		p.t("enum", e.Enum.Name)
		p.body(e.Enum.Elems, &e.Enum.Com)
	case e.Svc != nil:
		p.lead(&e.Svc.Com)
		p.t("service", e.Svc.Name)
		p.body(e.Svc.Elems, &e.Svc.Com)
	case e.Extend != nil:
		p.lead(&e.Extend.Com)
		p.t("extend", e.Extend.Type)
		p.body(e.Extend.Elems, &e.Extend.Com)
	case e.Oneof != nil:
		p.lead(&e.Oneof.Com)
		p.t("oneof", e.Oneof.Name)
		p.body(e.Oneof.Elems, &e.Oneof.Com)
	case e.Field != nil:
		p.field(e.Field)
	case e.Opt != nil:
		p.option(e.Opt)
	case e.Res != nil:
		p.lead(&e.Res.Com)
		if e.Res.Ext {
			p.t("extensions")
		} else {
			p.t("reserved")
		}
		for i, n := range e.Res.Names {
			if i > 0 {
				p.t(",")
			}
			p.t(strconv.Quote(n))
		}
		for i, r := range e.Res.Ranges {
			if i > 0 {
				p.t(",")
			}
			p.t(strconv.Itoa(r.Lo))
			if r.Hi == -1 {
				p.t("to", "max")
			} else if r.Hi != r.Lo {
				p.t("to", strconv.Itoa(r.Hi))
			}
		}
		p.end()
		p.inline(e.Res.Com.Inline, e.Res.Com.InBlk)
	case e.Value != nil:
		p.lead(&e.Value.Com)
		p.t(e.Value.Name, "=", numS(e.Value.Num, e.Value.NumS))
		p.opts(e.Value.Opts)
		p.end()
		p.inline(e.Value.Com.Inline, e.Value.Com.InBlk)
	case e.Method != nil:
		m := e.Method
		p.lead(&m.Com)
		p.t("rpc", m.Name, "(")
		if m.ReqS {
			p.t("stream")
		}
		p.t(m.Req, ")", "returns", "(")
		if m.ResS {
			p.t("stream")
		}
		p.t(m.Res, ")")
		if m.Body == 0 && len(m.Elems) == 0 && m.Com.Open == "" && len(m.Com.End) == 0 {
			p.end()
			p.inline(m.Com.Inline, m.Com.InBlk)
		} else {
			p.body(m.Elems, &m.Com)
		}
	case e.Empty:
		p.end()
	}
}

func (f *File) items() []item { return f.printer().items }

// marked prints in the canonical layout and tells the line of each element.
func (f *File) marked() (string, map[interface{}]*mark) {
	p := f.printer()
	return layout(p.items, 0), p.pos
}

func (f *File) printer() *printer {
	p := &printer{}
	for _, h := range f.Head {
		p.items = append(p.items, item{kind: 'c', s: h})
	}
	if len(f.Head) > 0 {
		p.items = append(p.items, item{kind: 'b'})
	}
	if f.Syntax != "" {
		p.lead(&f.SynCom)
		p.t("syntax", "=", strconv.Quote(f.Syntax))
		p.end()
		p.inline(f.SynCom.Inline, f.SynCom.InBlk)
	}
	var queues [4][]func()
	if f.Pkg != "" {
		queues[0] = append(queues[0], func() {
			p.lead(&f.PkgCom)
			p.t("package", f.Pkg)
			p.end()
			p.inline(f.PkgCom.Inline, f.PkgCom.InBlk)
		})
	}
	for i := range f.Opts {
		o := &f.Opts[i]
		queues[1] = append(queues[1], func() { p.option(o) })
	}
	for i := range f.Imports {
		im := &f.Imports[i]
		queues[2] = append(queues[2], func() {
			p.lead(&im.Com)
			p.t("import")
			if im.Mod != "" {
				p.t(im.Mod)
			}
			p.t(strconv.Quote(im.Path))
			p.end()
			p.inline(im.Com.Inline, im.Com.InBlk)
		})
	}
	for i := range f.Elems {
		e := &f.Elems[i]
		queues[3] = append(queues[3], func() { p.elem(e) })
	}
	for n := uint64(0); ; n++ {
		var ready []int
		for i := range queues {
			if len(queues[i]) > 0 {
				ready = append(ready, i)
			}
		}
		if len(ready) == 0 {
			break
		}
		i := ready[0]
		if f.Merge != 0 {
			i = ready[mix(f.Merge, n)%uint64(len(ready))]
		}
		queues[i][0]()
		queues[i] = queues[i][1:]
	}
	for _, c := range f.Tail {
		p.items = append(p.items, item{kind: 'c', s: c})
	}
	return p
}

// Print prints in the canonical layout.
func (f *File) Print() string { return layout(f.items(), 0) }

func mix(a, b uint64) uint64 {
	z := a + b*0x9e3779b97f4a7c15 + 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func isWord(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '.' || c == '-' || c == '+' || c == '"' || c == '\'' || c >= 0x80
}

// layout prints items. seed 0 is the canonical layout; any other seed is a
// random but reproducible placement of white space between the same tokens.
func layout(items []item, seed uint64) string {
	var b strings.Builder
	depth := 0
	bol := true // at beginning of line
	prev := ""
	n := uint64(0)
	r := func(k uint64) uint64 { n++; return mix(seed, n) % k }
	nl := func() {
		b.WriteByte('\n')
		bol = true
		prev = ""
	}
	indent := func() {
		if seed == 0 {
			b.WriteString(strings.Repeat("  ", depth))
			return
		}
		switch r(4) {
		case 0:
			b.WriteString(strings.Repeat("\t", int(r(3))))
		case 1:
			b.WriteString(strings.Repeat(" ", int(r(9))))
		default:
			b.WriteString(strings.Repeat("  ", depth))
		}
	}
	emit := func(s string, glue bool) {
		if bol {
			indent()
		} else if prev != "" {
			need := isWord(prev[len(prev)-1]) && isWord(s[0])
			if seed == 0 {
				if !glue && (need || !(s == ";" || s == "," || s == ")" || s == "]" || s == ">" || prev == "(" || prev == "[" || prev == "<")) {
					b.WriteByte(' ')
				}
			} else {
				switch r(12) {
				case 0:
					b.WriteString("  ")
				case 1:
					b.WriteByte('\t')
				case 2:
					b.WriteByte('\n')
				case 3:
					b.WriteString(" \n  ")
				case 4, 5, 6:
					if need {
						b.WriteByte(' ')
					}
				default:
					b.WriteByte(' ')
				}
			}
		}
		b.WriteString(s)
		prev = s
		bol = false
	}
	for i, it := range items {
		if it.mark != nil {
			m := it.mark
			defer func(at int) {
				text := b.String()
				for at < len(text) && strings.IndexByte(" \t\n", text[at]) >= 0 {
					at++
				}
				m.line = strings.Count(text[:at], "\n") + 1
			}(b.Len())
		}
		switch it.kind {
		case 't':
			emit(it.s, false)
		case 'n', '{', '}':
			if it.kind == '}' {
				depth--
			}
			emit(it.s, it.kind == 'n' && seed == 0)
			if it.kind == '{' {
				depth++
			}
			if i+1 < len(items) && items[i+1].kind == 'i' {
				continue
			}
			if seed == 0 {
				nl()
			} else {
				switch r(6) {
				case 0: // stay on the line, unless a comment follows
					if i+1 < len(items) && items[i+1].kind == 'c' {
						nl()
					}
				case 1:
					nl()
					nl()
				case 2:
					b.WriteString("  ")
					nl()
				default:
					nl()
				}
			}
		case 'i':
			text := "//" + it.s
			if it.blk {
				text = blockComment(it.s)
			}
			if seed == 0 {
				b.WriteString(" " + text)
			} else {
				b.WriteString(strings.Repeat(" ", int(r(3))) + text)
			}
			nl()
		case 'c':
			if !bol {
				nl()
			}
			indent()
			if it.blk {
				b.WriteString(blockComment(it.s))
			} else {
				b.WriteString("//" + it.s)
			}
			nl()
		case 'b':
			if !bol {
				nl()
			}
			nl()
		}
	}
	out := b.String()
	if !strings.HasSuffix(out, "\n") {
		out += "\n"
	}
	return out
}

func (w *Workspace) texts() map[string]string {
	out := map[string]string{}
	for _, f := range w.Files {
		out[f.Path] = f.Print()
	}
	return out
}

var _ = fmt.Sprint

// blockComment closes a block comment; a slash right before the end would open
// another one.
func blockComment(s string) string {
	if strings.HasSuffix(s, "/") {
		s += " "
	}
	return "/*" + s + "*/"
}
