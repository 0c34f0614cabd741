package main

// The model of a Protobuf workspace that generators build and printers print.

type Import struct {
	Path string
	Mod  string `json:",omitempty"` // "", public, weak
	Com  Com
}

// Opt is one option; Val is its value as tokens.
type Opt struct {
	Name string
	Val  []string
	Com  Com
}

// Com are the comments of one element.
type Com struct {
	Det    []string `json:",omitempty"` // detached comments before, one per block
	Lead   []string `json:",omitempty"` // leading comment lines
	Block  bool     `json:",omitempty"` // leading comment as a block comment
	Inline string   `json:",omitempty"` // after the element on the same line
	InBlk  bool     `json:",omitempty"` // inline comment as a block comment
	DetBlk bool     `json:",omitempty"` // detached comments as block comments
	Open   string   `json:",omitempty"` // after the opening brace on the same line
	End    []string `json:",omitempty"` // before the closing brace
}

type Field struct {
	Com   Com
	Label string `json:",omitempty"`
	Type  string // scalar or reference as written
	Ref   string `json:",omitempty"` // full name of the referenced type
	Name  string
	Num   int
	NumS  string   `json:",omitempty"` // spelling of the number
	Key   string   `json:",omitempty"` // key type of a map field
	Opts  []Opt    `json:",omitempty"`
	Body  *Message `json:",omitempty"` // of a group
}

type Range struct{ Lo, Hi int } // Hi == -1: max; inclusive

type Reserved struct {
	Com    Com
	Ranges []Range  `json:",omitempty"`
	Names  []string `json:",omitempty"`
	Ext    bool     `json:",omitempty"` // extensions, not reserved
}

type Oneof struct {
	Com   Com
	Name  string
	Elems []Elem
}

type EnumValue struct {
	Com  Com
	Name string
	Num  int
	NumS string `json:",omitempty"`
	Opts []Opt  `json:",omitempty"`
}

type Enum struct {
	Com   Com
	Name  string
	Elems []Elem
}

type Message struct {
	Com   Com
	Name  string
	Elems []Elem
}

type Extend struct {
	Com   Com
	Type  string
	Elems []Elem // fields
}

type Method struct {
	Com      Com
	Name     string
	Req, Res string
	ReqS     bool   `json:",omitempty"`
	ResS     bool   `json:",omitempty"`
	Body     int    `json:",omitempty"` // 0 ";" 1 "{}"
	Elems    []Elem `json:",omitempty"`
}

type Service struct {
	Com   Com
	Name  string
	Elems []Elem
}

// Elem is one element of a body; exactly one pointer is set.
type Elem struct {
	Msg    *Message   `json:",omitempty"`
	Enum   *Enum      `json:",omitempty"`
	Svc    *Service   `json:",omitempty"`
	Extend *Extend    `json:",omitempty"`
	Field  *Field     `json:",omitempty"`
	Oneof  *Oneof     `json:",omitempty"`
	Res    *Reserved  `json:",omitempty"`
	Value  *EnumValue `json:",omitempty"`
	Method *Method    `json:",omitempty"`
	Opt    *Opt       `json:",omitempty"`
	Empty  bool       `json:",omitempty"` // empty statement
}

func (e *Elem) com() *Com {
	switch {
	case e.Msg != nil:
		return &e.Msg.Com
	case e.Enum != nil:
		return &e.Enum.Com
	case e.Svc != nil:
		return &e.Svc.Com
	case e.Extend != nil:
		return &e.Extend.Com
	case e.Field != nil:
		return &e.Field.Com
	case e.Oneof != nil:
		return &e.Oneof.Com
	case e.Res != nil:
		return &e.Res.Com
	case e.Value != nil:
		return &e.Value.Com
	case e.Method != nil:
		return &e.Method.Com
	case e.Opt != nil:
		return &e.Opt.Com
	}
	return &Com{}
}

type File struct {
	Path    string
	Head    []string `json:",omitempty"` // comment before syntax
	Syntax  string   // proto2, proto3 or "" for none
	SynCom  Com
	Pkg     string `json:",omitempty"`
	PkgCom  Com
	Imports []Import `json:",omitempty"`
	Opts    []Opt    `json:",omitempty"`
	Elems   []Elem
	Tail    []string `json:",omitempty"` // comments at the end
	Merge   uint64   `json:",omitempty"` // non-zero: package, options, imports and elements are interleaved
}

type Workspace struct {
	Files []*File
	Focus string `json:",omitempty"` // scope of the latest edit
}

func (w *Workspace) file(path string) *File {
	for _, f := range w.Files {
		if f.Path == path {
			return f
		}
	}
	return nil
}
