package main

// Message values for C23: a schema, values of its types, and their JSON and
// wire forms, written here from the specifications so that they share nothing
// with the libraries prototool uses.

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"
)

type gField struct {
	Name    string
	JSON    string `json:",omitempty"` // explicit json_name
	Num     int
	Kind    string
	Type    string `json:",omitempty"`
	Label   string `json:",omitempty"` // repeated map optional required oneof
	Key     string `json:",omitempty"`
	Options string `json:",omitempty"`
}

type gMsg struct {
	Name   string // full name
	Short  string
	File   int
	Parent int // index of the enclosing message, or -1
	Proto2 bool
	Fields []gField
}

type gV struct {
	U uint64 `json:",omitempty"`
	Y []byte `json:",omitempty"`
	M *gM    `json:",omitempty"`
}

type gFV struct {
	I int
	V []gV
	K []gV `json:",omitempty"`
}

type gM struct {
	F   []gFV  `json:",omitempty"`
	Any string `json:",omitempty"` // the type in an Any
	In  *gM    `json:",omitempty"`
}

func (m *gM) field(i int) *gFV {
	for k := range m.F {
		if m.F[k].I == i {
			return &m.F[k]
		}
	}
	return nil
}

type gSchema map[string]*gMsg

const pb = "google.protobuf."

func wktMsg(name string, fields ...gField) *gMsg {
	return &gMsg{Name: pb + name, Short: name, File: -1, Parent: -1, Fields: fields}
}

func one(name string, num int, kind string) gField {
	return gField{Name: name, Num: num, Kind: kind}
}

func wktSchema() gSchema {
	s := gSchema{}
	add := func(m *gMsg) { s[m.Name] = m }
	add(wktMsg("Timestamp", one("seconds", 1, "int64"), one("nanos", 2, "int32")))
	add(wktMsg("Duration", one("seconds", 1, "int64"), one("nanos", 2, "int32")))
	add(wktMsg("Empty"))
	add(wktMsg("Any", one("type_url", 1, "string"), one("value", 2, "bytes")))
	add(wktMsg("Struct", gField{Name: "fields", Num: 1, Kind: "message", Type: pb + "Value", Label: "map", Key: "string"}))
	add(wktMsg("ListValue", gField{Name: "values", Num: 1, Kind: "message", Type: pb + "Value", Label: "repeated"}))
	v := wktMsg("Value", gField{Name: "null_value", Num: 1, Kind: "enum", Type: pb + "NullValue"}, one("number_value", 2, "double"), one("string_value", 3, "string"), one("bool_value", 4, "bool"),
		gField{Name: "struct_value", Num: 5, Kind: "message", Type: pb + "Struct"}, gField{Name: "list_value", Num: 6, Kind: "message", Type: pb + "ListValue"})
	for i := range v.Fields {
		v.Fields[i].Label = "oneof"
	}
	add(v)
	for n, k := range map[string]string{"DoubleValue": "double", "FloatValue": "float", "Int64Value": "int64", "UInt64Value": "uint64", "Int32Value": "int32", "UInt32Value": "uint32", "BoolValue": "bool", "StringValue": "string", "BytesValue": "bytes"} {
		add(wktMsg(n, one("value", 1, k)))
	}
	return s
}

var wktFile = map[string]string{"Timestamp": "timestamp", "Duration": "duration", "Empty": "empty", "Any": "any", "Struct": "struct", "ListValue": "struct", "Value": "struct",
	"DoubleValue": "wrappers", "FloatValue": "wrappers", "Int64Value": "wrappers", "UInt64Value": "wrappers", "Int32Value": "wrappers", "UInt32Value": "wrappers", "BoolValue": "wrappers", "StringValue": "wrappers", "BytesValue": "wrappers"}

var gKinds = []string{"double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string", "bytes", "enum"}

// the enum of every generated schema
var gEnum = map[string]int32{"E_ZERO": 0, "E_ONE": 1, "E_TWO": 2, "E_NEG": -3, "E_BIG": 2147483647}

const gEnumName = "x.v1.E"

func jsonNameOf(f *gField) string {
	if f.JSON != "" {
		return f.JSON
	}
	var b strings.Builder
	up := false
	for _, r := range f.Name {
		if r == '_' {
			up = true
			continue
		}
		if up && r >= 'a' && r <= 'z' {
			r -= 'a' - 'A'
		}
		up = false
		b.WriteRune(r)
	}
	return b.String()
}

// ---- generation

var gStrings = []string{"", "a", "hello world", "\"quoted\" \\ / \b\f\r", "line\nbreak\ttab", "äöü €", "日本語 🎉", "<a href='x'>&amp;</a>", "\u2028\u2029\u0000\u007f", "null", "{}", "0", "{\"a\":1}", "x:y,z", "%s%d%n", "${HOME}", "..."}

func genScalar(t *rapid.T, kind string) gV {
	switch kind {
	case "bool":
		return gV{U: uint64(bits(t, 1, "bool"))}
	case "string":
		s := sample(t, gStrings, "string")
		if bits(t, 2, "long") == 3 {
			s = strings.Repeat(s+"0", 1+bits(t, 4, "times"))
		}
		return gV{Y: []byte(s)}
	case "bytes":
		n := bits(t, 4, "length")
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(bits(t, 8, "byte"))
		}
		return gV{Y: b}
	case "enum":
		v := sample(t, []int32{0, 1, 2, -3, 2147483647}, "enum value")
		return gV{U: uint64(int64(v))}
	case "double":
		v := sample(t, []float64{0, 1, -1, 0.1, 1.5, 1e21, 1e-7, 123456789.123456789, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 9007199254740993, math.Copysign(0, -1), 100}, "double")
		return gV{U: math.Float64bits(v)}
	case "float":
		v := sample(t, []float32{0, 1, -1, 0.1, 1.5, 1e21, 1e-7, 16777216, math.MaxFloat32, math.SmallestNonzeroFloat32, float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN()), 3.1415927, 100}, "float")
		return gV{U: uint64(math.Float32bits(v))}
	case "int64", "sint64", "sfixed64":
		return gV{U: uint64(sample(t, []int64{0, 1, -1, 127, 128, -128, 1 << 31, -1 << 31, 1<<53 + 1, math.MaxInt64, math.MinInt64, 1000000}, "int"))}
	case "int32", "sint32", "sfixed32":
		return gV{U: uint64(sample(t, []int64{0, 1, -1, 127, 128, -128, math.MaxInt32, math.MinInt32, 1000000}, "int"))}
	case "uint64", "fixed64":
		return gV{U: sample(t, []uint64{0, 1, 127, 128, 1 << 31, 1 << 32, 1<<53 + 1, 1 << 63, math.MaxUint64, 1000000}, "uint")}
	case "uint32", "fixed32":
		return gV{U: sample(t, []uint64{0, 1, 127, 128, 1 << 31, math.MaxUint32, 1000000}, "uint")}
	}
	panic(kind)
}

func (s gSchema) genValue(t *rapid.T, f *gField, depth int, anys []string) gV {
	if f.Kind == "message" {
		return gV{M: s.gen(t, f.Type, depth-1, anys)}
	}
	return genScalar(t, f.Kind)
}

// gen draws a value of a type. anys are the types an Any may hold.
func (s gSchema) gen(t *rapid.T, typ string, depth int, anys []string) *gM {
	m := &gM{}
	set := func(i int, v gV) { m.F = append(m.F, gFV{I: i, V: []gV{v}}) }
	msg := s[typ]
	switch typ {
	case pb + "Timestamp":
		set(0, gV{U: uint64(sample(t, []int64{0, 1, -1, 1580000000, -62135596800, 253402300799}, "seconds"))})
		set(1, gV{U: uint64(sample(t, []int64{0, 1, 1000, 1000000, 999999999, 500000000}, "nanos"))})
		return m
	case pb + "Duration":
		sec := sample(t, []int64{0, 1, 3600, 315576000000, 59}, "seconds")
		nanos := sample(t, []int64{0, 1, 1000, 1000000, 999999999, 500000000}, "nanos")
		if sec == 315576000000 {
			sec, nanos = 100000000, 0
		}
		if bits(t, 1, "negative") == 1 {
			sec, nanos = -sec, -nanos
		}
		set(0, gV{U: uint64(sec)})
		set(1, gV{U: uint64(nanos)})
		return m
	case pb + "Any":
		m.Any = sample(t, anys, "type in any")
		m.In = s.gen(t, m.Any, depth-1, anys)
		return m
	case pb + "Value":
		i := uniform(t, 6, "kind of value")
		if depth <= 0 {
			i %= 4
		}
		v := gV{}
		switch i {
		case 1:
			v = gV{U: math.Float64bits(sample(t, []float64{0, 1, -2.5, 1e21, 1e-9, 1 << 40}, "number"))}
		case 0:
		default:
			v = s.genValue(t, &msg.Fields[i], depth, anys)
		}
		set(i, v)
		return m
	}
	oneof := false
	for i := range msg.Fields {
		f := &msg.Fields[i]
		if f.Kind == "message" && depth <= 0 && f.Label != "required" {
			continue
		}
		if f.Label != "required" && bits(t, 1, "set") == 0 {
			continue
		}
		n := 1
		switch f.Label {
		case "oneof":
			if oneof {
				continue
			}
			oneof = true
		case "repeated", "map":
			n = bits(t, 2, "elements")
		}
		fv := gFV{I: i}
		seen := map[string]bool{}
		for k := 0; k < n; k++ {
			if f.Label == "map" {
				key := genScalar(t, f.Key)
				if strings.ContainsFunc(string(key.Y), func(r rune) bool { return r >= 0x7f || r < ' ' && r != '\n' && r != '\r' && r != '\t' }) {
					key = gV{Y: []byte("key")} // a known finding
				}
				if seen[fmt.Sprint(key)] {
					continue
				}
				seen[fmt.Sprint(key)] = true
				fv.K = append(fv.K, key)
			}
			v := s.genValue(t, f, depth, anys)
			if k := 0; f.Type == pb+"Value" && msg.File >= 0 {
				// known findings: a list for a single field, null in a map
				k = v.M.F[0].I
				if k == 5 && f.Label != "repeated" && f.Label != "map" || k == 0 && f.Label == "map" {
					v = gV{M: &gM{F: []gFV{{I: 3, V: []gV{{U: 1}}}}}}
				}
			}
			fv.V = append(fv.V, v)
		}
		if len(fv.V) > 0 {
			m.F = append(m.F, fv)
		}
	}
	return m
}

// ---- the normal form

func (s gSchema) normValue(f *gField, v gV) string {
	switch f.Kind {
	case "message":
		return s.norm(f.Type, v.M)
	case "string", "bytes":
		return strconv.QuoteToASCII(string(v.Y))
	case "double":
		d := math.Float64frombits(v.U)
		if math.IsNaN(d) {
			return "NaN"
		}
		if d == 0 {
			return "0" // the sign of zero is not kept by JSON numbers
		}
		return strconv.FormatFloat(d, 'g', -1, 64)
	case "float":
		d := math.Float32frombits(uint32(v.U))
		if d != d {
			return "NaN"
		}
		return strconv.FormatFloat(float64(d), 'g', -1, 32)
	}
	return strconv.FormatUint(v.U, 10)
}

// norm is a text that is equal for equal messages only.
func (s gSchema) norm(typ string, m *gM) string {
	if m.In != nil {
		return "{any " + m.Any + " " + s.norm(m.Any, m.In) + "}"
	}
	msg := s[typ]
	var out []string
	for i := range msg.Fields {
		f := &msg.Fields[i]
		fv := m.field(i)
		if fv == nil || len(fv.V) == 0 {
			continue
		}
		switch f.Label {
		case "map":
			var es []string
			for k := range fv.V {
				es = append(es, s.normValue(&gField{Kind: f.Key}, fv.K[k])+":"+s.normValue(f, fv.V[k]))
			}
			sort.Strings(es)
			out = append(out, fmt.Sprintf("%d=map[%s]", f.Num, strings.Join(es, " ")))
		case "repeated":
			var es []string
			for k := range fv.V {
				es = append(es, s.normValue(f, fv.V[k]))
			}
			out = append(out, fmt.Sprintf("%d=[%s]", f.Num, strings.Join(es, " ")))
		default:
			n := s.normValue(f, fv.V[0])
			if f.Label == "" && !msg.Proto2 && f.Kind != "message" && (n == "0" || n == `""`) {
				continue
			}
			out = append(out, fmt.Sprintf("%d=%s", f.Num, n))
		}
	}
	return "{" + strings.Join(out, " ") + "}"
}

// ---- wire

func (s gSchema) wireScalar(b []byte, kind string, u uint64) []byte {
	switch kind {
	case "double", "fixed64", "sfixed64":
		return binary.LittleEndian.AppendUint64(b, u)
	case "float", "fixed32", "sfixed32":
		return binary.LittleEndian.AppendUint32(b, uint32(u))
	case "sint32", "sint64":
		return binary.AppendUvarint(b, uint64(int64(u)<<1)^uint64(int64(u)>>63))
	}
	return binary.AppendUvarint(b, u)
}

func wireType(kind string) uint64 {
	switch kind {
	case "double", "fixed64", "sfixed64":
		return 1
	case "float", "fixed32", "sfixed32":
		return 5
	case "string", "bytes", "message":
		return 2
	}
	return 0
}

func (s gSchema) wireField(b []byte, num int, f *gField, kind string, v gV, r *rand.Rand) []byte {
	b = binary.AppendUvarint(b, uint64(num)<<3|wireType(kind))
	switch kind {
	case "message":
		in := s.wire(f.Type, v.M, r)
		return append(binary.AppendUvarint(b, uint64(len(in))), in...)
	case "string", "bytes":
		return append(binary.AppendUvarint(b, uint64(len(v.Y))), v.Y...)
	}
	return s.wireScalar(b, kind, v.U)
}

// wire encodes a message in one of the ways the format allows.
func (s gSchema) wire(typ string, m *gM, r *rand.Rand) []byte {
	if m.In != nil {
		a := &gM{F: []gFV{{I: 0, V: []gV{{Y: []byte("type.googleapis.com/" + m.Any)}}}, {I: 1, V: []gV{{Y: s.wire(m.Any, m.In, r)}}}}}
		return s.wire(typ, a, r)
	}
	msg := s[typ]
	fields := append([]gFV{}, m.F...)
	if r.Intn(3) == 0 {
		r.Shuffle(len(fields), func(i, j int) { fields[i], fields[j] = fields[j], fields[i] })
	}
	var b []byte
	for _, fv := range fields {
		f := &msg.Fields[fv.I]
		if f.Label == "map" {
			for k := range fv.V {
				e := s.wireField(nil, 1, nil, f.Key, fv.K[k], r)
				e = s.wireField(e, 2, f, f.Kind, fv.V[k], r)
				b = binary.AppendUvarint(b, uint64(f.Num)<<3|2)
				b = append(binary.AppendUvarint(b, uint64(len(e))), e...)
			}
			continue
		}
		if f.Label == "repeated" && wireType(f.Kind) != 2 && r.Intn(2) == 0 {
			var p []byte
			for _, v := range fv.V {
				p = s.wireScalar(p, f.Kind, v.U)
			}
			b = binary.AppendUvarint(b, uint64(f.Num)<<3|2)
			b = append(binary.AppendUvarint(b, uint64(len(p))), p...)
			continue
		}
		for _, v := range fv.V {
			b = s.wireField(b, f.Num, f, f.Kind, v, r)
		}
	}
	if msg.File >= 0 && r.Intn(4) == 0 {
		b = append(binary.AppendUvarint(b, 18999<<3), 1) // a field the reader does not know
	}
	return b
}

func (s gSchema) unwireScalar(b []byte, kind string) (uint64, []byte, error) {
	switch wireType(kind) {
	case 1:
		if len(b) < 8 {
			return 0, nil, fmt.Errorf("short")
		}
		return binary.LittleEndian.Uint64(b), b[8:], nil
	case 5:
		if len(b) < 4 {
			return 0, nil, fmt.Errorf("short")
		}
		u := uint64(binary.LittleEndian.Uint32(b))
		if kind == "sfixed32" {
			u = uint64(int64(int32(u)))
		}
		return u, b[4:], nil
	}
	u, n := binary.Uvarint(b)
	if n <= 0 {
		return 0, nil, fmt.Errorf("bad varint")
	}
	switch kind {
	case "sint32", "sint64":
		u = u>>1 ^ -(u & 1)
	case "bool":
		if u > 1 {
			u = 1
		}
	case "uint32":
		u = uint64(uint32(u))
	case "int32", "enum":
		u = uint64(int64(int32(u)))
	}
	return u, b[n:], nil
}

func (s gSchema) unwireValue(f *gField, kind string, wt uint64, b []byte) (gV, []byte, error) {
	if wt != wireType(kind) {
		return gV{}, nil, fmt.Errorf("wire type %d for %s", wt, kind)
	}
	if wt != 2 {
		u, rest, err := s.unwireScalar(b, kind)
		return gV{U: u}, rest, err
	}
	n, k := binary.Uvarint(b)
	if k <= 0 || n > uint64(len(b)-k) {
		return gV{}, nil, fmt.Errorf("bad length")
	}
	data, rest := b[k:k+int(n)], b[k+int(n):]
	if kind == "message" {
		m, err := s.unwire(f.Type, data)
		return gV{M: m}, rest, err
	}
	return gV{Y: append([]byte{}, data...)}, rest, nil
}

// unwire decodes a message; it does not accept unknown fields.
func (s gSchema) unwire(typ string, b []byte) (*gM, error) {
	msg := s[typ]
	if msg == nil {
		return nil, fmt.Errorf("unknown type %q", typ)
	}
	m := &gM{}
	get := func(i int) *gFV {
		if fv := m.field(i); fv != nil {
			return fv
		}
		m.F = append(m.F, gFV{I: i})
		return &m.F[len(m.F)-1]
	}
	for len(b) > 0 {
		tag, n := binary.Uvarint(b)
		if n <= 0 {
			return nil, fmt.Errorf("bad tag")
		}
		b = b[n:]
		var f *gField
		idx := 0
		for i := range msg.Fields {
			if uint64(msg.Fields[i].Num) == tag>>3 {
				f, idx = &msg.Fields[i], i
			}
		}
		if f == nil {
			return nil, fmt.Errorf("unknown field %d of %s", tag>>3, typ)
		}
		fv := get(idx)
		wt := tag & 7
		var err error
		switch {
		case f.Label == "map":
			ln, k := binary.Uvarint(b)
			if wt != 2 || k <= 0 || ln > uint64(len(b)-k) {
				return nil, fmt.Errorf("bad map entry")
			}
			e := b[k : k+int(ln)]
			b = b[k+int(ln):]
			key, val := gV{}, gV{}
			if f.Kind == "message" {
				val.M = &gM{}
			}
			for len(e) > 0 {
				t, n := binary.Uvarint(e)
				if n <= 0 {
					return nil, fmt.Errorf("bad tag")
				}
				e = e[n:]
				switch t >> 3 {
				case 1:
					key, e, err = s.unwireValue(nil, f.Key, t&7, e)
				case 2:
					val, e, err = s.unwireValue(f, f.Kind, t&7, e)
				default:
					err = fmt.Errorf("unknown field of a map entry")
				}
				if err != nil {
					return nil, err
				}
			}
			fv.K, fv.V = append(fv.K, key), append(fv.V, val)
		case f.Label == "repeated" && wt == 2 && wireType(f.Kind) != 2:
			ln, k := binary.Uvarint(b)
			if k <= 0 || ln > uint64(len(b)-k) {
				return nil, fmt.Errorf("bad packed field")
			}
			p := b[k : k+int(ln)]
			b = b[k+int(ln):]
			for len(p) > 0 {
				var u uint64
				if u, p, err = s.unwireScalar(p, f.Kind); err != nil {
					return nil, err
				}
				fv.V = append(fv.V, gV{U: u})
			}
		default:
			var v gV
			if v, b, err = s.unwireValue(f, f.Kind, wt, b); err != nil {
				return nil, err
			}
			if f.Label != "repeated" {
				fv.V = nil
			}
			fv.V = append(fv.V, v)
		}
	}
	if typ == pb+"Any" {
		url, val := m.field(0), m.field(1)
		if url == nil {
			return nil, fmt.Errorf("Any without a type")
		}
		u := string(url.V[0].Y)
		m.Any = u[strings.LastIndex(u, "/")+1:]
		var data []byte
		if val != nil {
			data = val.V[0].Y
		}
		in, err := s.unwire(m.Any, data)
		if err != nil {
			return nil, err
		}
		m.In = in
	}
	return m, nil
}

// ---- JSON

func jsonString(x string, r *rand.Rand) string {
	if r.Intn(3) > 0 {
		var b bytes.Buffer
		e := json.NewEncoder(&b)
		e.SetEscapeHTML(r.Intn(2) == 0)
		must(e.Encode(x))
		return strings.TrimSuffix(b.String(), "\n")
	}
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range x {
		switch {
		case c == '"' || c == '\\':
			b.WriteString("\\" + string(c))
		case c >= 0x10000:
			c -= 0x10000
			fmt.Fprintf(&b, `\u%04x\u%04X`, 0xd800+c>>10, 0xdc00+c&0x3ff)
		case c < 0x20 || r.Intn(2) == 0:
			fmt.Fprintf(&b, `\u%04x`, c)
		default:
			b.WriteRune(c)
		}
	}
	return b.String() + `"`
}

func (s gSchema) jsonValue(f *gField, kind string, v gV, r *rand.Rand) string {
	quoted := func(x string, odds int) string {
		if r.Intn(odds) == 0 {
			return `"` + x + `"`
		}
		return x
	}
	switch kind {
	case "message":
		return s.json(f.Type, v.M, r)
	case "bool":
		return strconv.FormatBool(v.U != 0)
	case "string":
		return jsonString(string(v.Y), r)
	case "bytes":
		return jsonString(base64.StdEncoding.EncodeToString(v.Y), r)
	case "enum":
		for n, x := range gEnum {
			if x == int32(v.U) && r.Intn(3) > 0 {
				return `"` + n + `"`
			}
		}
		return strconv.Itoa(int(int32(v.U)))
	case "double", "float":
		d, size := math.Float64frombits(v.U), 64
		if kind == "float" {
			d, size = float64(math.Float32frombits(uint32(v.U))), 32
		}
		switch {
		case math.IsNaN(d):
			return `"NaN"`
		case math.IsInf(d, 1):
			return `"Infinity"`
		case math.IsInf(d, -1):
			return `"-Infinity"`
		}
		return quoted(strconv.FormatFloat(d, sample1(r, 'g', 'e', 'g'), -1, size), 8)
	case "int64", "sint64", "sfixed64":
		return quoted(strconv.FormatInt(int64(v.U), 10), 2)
	case "int32", "sint32", "sfixed32":
		return quoted(strconv.FormatInt(int64(v.U), 10), 6)
	case "uint64", "fixed64":
		return quoted(strconv.FormatUint(v.U, 10), 2)
	}
	return quoted(strconv.FormatUint(v.U, 10), 6)
}

func sample1(r *rand.Rand, xs ...byte) byte { return xs[r.Intn(len(xs))] }

func space(r *rand.Rand) string {
	if r.Intn(4) > 0 {
		return ""
	}
	return []string{" ", "\n", "\t", "\r\n", "  "}[r.Intn(5)]
}

func numIn(m *gM, i int) int64 {
	if fv := m.field(i); fv != nil {
		return int64(fv.V[0].U)
	}
	return 0
}

func fraction(n int64, r *rand.Rand) string {
	if n == 0 && r.Intn(2) == 0 {
		return ""
	}
	x := fmt.Sprintf("%09d", n)
	for _, d := range []int{3, 6} {
		if strings.Trim(x[d:], "0") == "" && r.Intn(2) == 0 {
			return "." + x[:d]
		}
	}
	return "." + x
}

// special says whether the JSON form of a type is not an object of its fields.
func special(typ string) bool {
	return strings.HasPrefix(typ, pb) && typ != pb+"Empty"
}

// json is one of the JSON forms of a message.
func (s gSchema) json(typ string, m *gM, r *rand.Rand) string {
	msg := s[typ]
	var members []string
	switch typ {
	case pb + "Timestamp":
		t := time.Unix(numIn(m, 0), 0).UTC()
		return `"` + t.Format("2006-01-02T15:04:05") + fraction(numIn(m, 1), r) + `Z"`
	case pb + "Duration":
		sec, nanos, sign := numIn(m, 0), numIn(m, 1), ""
		if sec < 0 || nanos < 0 {
			sec, nanos, sign = -sec, -nanos, "-"
		}
		return fmt.Sprintf(`"%s%d%ss"`, sign, sec, fraction(nanos, r))
	case pb + "Any":
		members = append(members, `"@type":`+space(r)+jsonString("type.googleapis.com/"+m.Any, r))
		in := s.json(m.Any, m.In, r)
		if special(m.Any) || m.Any == pb+"Empty" {
			members = append(members, `"value":`+in)
		} else {
			in = strings.TrimSpace(in)
			in = strings.TrimSpace(in[1 : len(in)-1])
			if in != "" {
				members = append(members, in)
			}
		}
		return "{" + strings.Join(members, ",") + "}"
	case pb + "Value":
		fv := m.F[0]
		if fv.I == 0 {
			return "null"
		}
		if fv.I == 1 {
			return strconv.FormatFloat(math.Float64frombits(fv.V[0].U), 'g', -1, 64)
		}
		return s.jsonValue(&msg.Fields[fv.I], msg.Fields[fv.I].Kind, fv.V[0], r)
	case pb + "Struct":
		if fv := m.field(0); fv != nil {
			return s.jsonMap(&msg.Fields[0], fv, r)
		}
		return "{}"
	case pb + "ListValue":
		if fv := m.field(0); fv != nil {
			return s.jsonList(&msg.Fields[0], fv, r)
		}
		return "[]"
	}
	if special(typ) { // a wrapper
		v := gV{}
		if fv := m.field(0); fv != nil {
			v = fv.V[0]
		}
		return s.jsonValue(&msg.Fields[0], msg.Fields[0].Kind, v, r)
	}
	for i := range msg.Fields {
		f := &msg.Fields[i]
		fv := m.field(i)
		name := jsonNameOf(f)
		if r.Intn(3) == 0 {
			name = f.Name
		}
		val := ""
		switch {
		case fv == nil:
			if r.Intn(6) > 0 || f.Label == "oneof" || f.Label == "required" || f.Label == "optional" || f.Type == pb+"Value" {
				continue
			}
			val = "null"
		case f.Label == "map":
			val = s.jsonMap(f, fv, r)
		case f.Label == "repeated":
			val = s.jsonList(f, fv, r)
		default:
			val = s.jsonValue(f, f.Kind, fv.V[0], r)
		}
		members = append(members, space(r)+`"`+name+`"`+space(r)+":"+space(r)+val+space(r))
	}
	r.Shuffle(len(members), func(i, j int) { members[i], members[j] = members[j], members[i] })
	return "{" + strings.Join(members, ",") + space(r) + "}"
}

func (s gSchema) jsonMap(f *gField, fv *gFV, r *rand.Rand) string {
	var out []string
	for i := range fv.V {
		key := s.jsonValue(nil, f.Key, fv.K[i], r)
		if key[0] != '"' {
			key = `"` + key + `"`
		}
		out = append(out, key+":"+space(r)+s.jsonValue(f, f.Kind, fv.V[i], r))
	}
	return "{" + strings.Join(out, ",") + "}"
}

func (s gSchema) jsonList(f *gField, fv *gFV, r *rand.Rand) string {
	var out []string
	for i := range fv.V {
		out = append(out, s.jsonValue(f, f.Kind, fv.V[i], r))
	}
	return "[" + strings.Join(out, ","+space(r)) + "]"
}

// unjson reads the JSON form of a message.
func (s gSchema) unjson(typ string, x interface{}) (*gM, error) {
	msg := s[typ]
	if msg == nil {
		return nil, fmt.Errorf("unknown type %q", typ)
	}
	m := &gM{}
	set := func(i int, v gV) { m.F = append(m.F, gFV{I: i, V: []gV{v}}) }
	str := func() (string, error) {
		v, ok := x.(string)
		if !ok {
			return "", fmt.Errorf("%v for %s", x, typ)
		}
		return v, nil
	}
	switch typ {
	case pb + "Timestamp":
		v, err := str()
		if err != nil {
			return nil, err
		}
		t, err := time.Parse(time.RFC3339Nano, v)
		if err != nil {
			return nil, err
		}
		set(0, gV{U: uint64(t.Unix())})
		set(1, gV{U: uint64(t.Nanosecond())})
		return m, nil
	case pb + "Duration":
		v, err := str()
		if err != nil {
			return nil, err
		}
		if !strings.HasSuffix(v, "s") {
			return nil, fmt.Errorf("%q is no duration", v)
		}
		v = strings.TrimSuffix(v, "s")
		neg := strings.HasPrefix(v, "-")
		p := strings.SplitN(strings.TrimPrefix(v, "-"), ".", 2)
		sec, err := strconv.ParseInt(p[0], 10, 64)
		if err != nil {
			return nil, err
		}
		nanos := int64(0)
		if len(p) == 2 {
			if nanos, err = strconv.ParseInt((p[1] + "000000000")[:9], 10, 64); err != nil {
				return nil, err
			}
		}
		if neg {
			sec, nanos = -sec, -nanos
		}
		set(0, gV{U: uint64(sec)})
		set(1, gV{U: uint64(nanos)})
		return m, nil
	case pb + "Any":
		o, ok := x.(map[string]interface{})
		if !ok {
			return nil, fmt.Errorf("%v for an Any", x)
		}
		u, _ := o["@type"].(string)
		m.Any = u[strings.LastIndex(u, "/")+1:]
		var in interface{}
		if special(m.Any) || m.Any == pb+"Empty" {
			in = o["value"]
			if in == nil && m.Any == pb+"Empty" {
				in = map[string]interface{}{}
			}
		} else {
			c := map[string]interface{}{}
			for k, v := range o {
				if k != "@type" {
					c[k] = v
				}
			}
			in = c
		}
		var err error
		m.In, err = s.unjson(m.Any, in)
		return m, err
	case pb + "Value":
		switch v := x.(type) {
		case nil:
			set(0, gV{})
		case bool:
			u := uint64(0)
			if v {
				u = 1
			}
			set(3, gV{U: u})
		case string:
			set(2, gV{Y: []byte(v)})
		case json.Number:
			d, err := v.Float64()
			if err != nil {
				return nil, err
			}
			set(1, gV{U: math.Float64bits(d)})
		case map[string]interface{}:
			c, err := s.unjson(pb+"Struct", v)
			if err != nil {
				return nil, err
			}
			set(4, gV{M: c})
		case []interface{}:
			c, err := s.unjson(pb+"ListValue", v)
			if err != nil {
				return nil, err
			}
			set(5, gV{M: c})
		}
		return m, nil
	case pb + "Struct", pb + "ListValue":
		fv, err := s.unjsonField(&msg.Fields[0], x)
		if err != nil {
			return nil, err
		}
		m.F = append(m.F, *fv)
		return m, nil
	}
	if special(typ) {
		if typ == pb+"BytesValue" && x == nil {
			return m, nil // jsonpb prints an empty BytesValue like this
		}
		v, err := s.unjsonValue(&msg.Fields[0], msg.Fields[0].Kind, x)
		if err != nil {
			return nil, err
		}
		set(0, v)
		return m, nil
	}
	o, ok := x.(map[string]interface{})
	if !ok {
		return nil, fmt.Errorf("%v for %s", x, typ)
	}
	for _, k := range sortedKeys(o) {
		found := false
		for i := range msg.Fields {
			if jsonNameOf(&msg.Fields[i]) != k {
				continue
			}
			found = true
			fv, err := s.unjsonField(&msg.Fields[i], o[k])
			if err != nil {
				return nil, fmt.Errorf("%s: %v", k, err)
			}
			fv.I = i
			m.F = append(m.F, *fv)
		}
		if !found {
			return nil, fmt.Errorf("%s has no field with the JSON name %s", typ, k)
		}
	}
	return m, nil
}

func (s gSchema) unjsonField(f *gField, x interface{}) (*gFV, error) {
	fv := &gFV{}
	switch f.Label {
	case "map":
		o, ok := x.(map[string]interface{})
		if !ok {
			return nil, fmt.Errorf("%v for a map", x)
		}
		for _, k := range sortedKeys(o) {
			var kx interface{} = k
			if f.Key == "bool" {
				kx = k == "true"
			}
			key, err := s.unjsonValue(nil, f.Key, kx)
			if err != nil {
				return nil, err
			}
			v, err := s.unjsonValue(f, f.Kind, o[k])
			if err != nil {
				return nil, err
			}
			fv.K, fv.V = append(fv.K, key), append(fv.V, v)
		}
	case "repeated":
		l, ok := x.([]interface{})
		if !ok {
			return nil, fmt.Errorf("%v for a list", x)
		}
		for _, e := range l {
			v, err := s.unjsonValue(f, f.Kind, e)
			if err != nil {
				return nil, err
			}
			fv.V = append(fv.V, v)
		}
	default:
		v, err := s.unjsonValue(f, f.Kind, x)
		if err != nil {
			return nil, err
		}
		fv.V = []gV{v}
	}
	return fv, nil
}

func (s gSchema) unjsonValue(f *gField, kind string, x interface{}) (gV, error) {
	if kind == "message" {
		m, err := s.unjson(f.Type, x)
		return gV{M: m}, err
	}
	text := ""
	switch v := x.(type) {
	case string:
		text = v
	case json.Number:
		text = v.String()
		if kind == "string" || kind == "bytes" {
			return gV{}, fmt.Errorf("number for %s", kind)
		}
	case bool:
		if kind != "bool" {
			return gV{}, fmt.Errorf("bool for %s", kind)
		}
		if v {
			return gV{U: 1}, nil
		}
		return gV{}, nil
	default:
		return gV{}, fmt.Errorf("%v for %s", x, kind)
	}
	switch kind {
	case "bool":
		return gV{}, fmt.Errorf("%q for a bool", text)
	case "string":
		if !utf8.ValidString(text) {
			return gV{}, fmt.Errorf("bad string")
		}
		return gV{Y: []byte(text)}, nil
	case "bytes":
		b, err := base64.StdEncoding.DecodeString(text)
		return gV{Y: b}, err
	case "enum":
		if v, ok := gEnum[text]; ok {
			return gV{U: uint64(int64(v))}, nil
		}
		n, err := strconv.ParseInt(text, 10, 32)
		return gV{U: uint64(n)}, err
	case "double", "float":
		switch text {
		case "NaN":
			text = "nan"
		case "Infinity", "-Infinity":
			text = strings.Replace(text, "Infinity", "inf", 1)
		}
		if kind == "float" {
			d, err := strconv.ParseFloat(text, 32)
			return gV{U: uint64(math.Float32bits(float32(d)))}, err
		}
		d, err := strconv.ParseFloat(text, 64)
		return gV{U: math.Float64bits(d)}, err
	case "int64", "sint64", "sfixed64":
		n, err := strconv.ParseInt(text, 10, 64)
		return gV{U: uint64(n)}, err
	case "int32", "sint32", "sfixed32":
		n, err := strconv.ParseInt(text, 10, 32)
		return gV{U: uint64(n)}, err
	case "uint64", "fixed64":
		n, err := strconv.ParseUint(text, 10, 64)
		return gV{U: n}, err
	}
	n, err := strconv.ParseUint(text, 10, 32)
	return gV{U: n}, err
}
