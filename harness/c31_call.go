package main

// C31, calls: requests and responses that are no valid messages.

import (
	"encoding/binary"
	"strings"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"pgregory.net/rapid"
)

const callProto = `syntax = "proto3";

package a.b;

import "google/protobuf/any.proto";
import "google/protobuf/duration.proto";
import "google/protobuf/empty.proto";
import "google/protobuf/field_mask.proto";
import "google/protobuf/struct.proto";
import "google/protobuf/timestamp.proto";
import "google/protobuf/wrappers.proto";

enum E {
  Z = 0;
  N = -1;
}

message A {
  double d = 1;
  float f = 2;
  int32 i = 3;
  uint64 u = 4;
  sint64 s = 5;
  fixed32 x = 6;
  bool b = 7;
  string t = 8;
  bytes y = 9;
  E e = 10;
  A a = 11;
  repeated int32 ri = 12;
  repeated string rt = 13;
  repeated A ra = 14;
  map<string, int64> ms = 15;
  map<bool, A> mb = 16;
  oneof o {
    int64 o1 = 17;
    A o2 = 18;
  }
  google.protobuf.Any any = 19;
  google.protobuf.Duration dur = 20;
  google.protobuf.Timestamp ts = 21;
  google.protobuf.Struct st = 22;
  google.protobuf.Value v = 23;
  google.protobuf.ListValue lv = 24;
  google.protobuf.FieldMask fm = 25;
  google.protobuf.Empty em = 26;
  google.protobuf.BytesValue wb = 27;
  google.protobuf.Int64Value wi = 28;
  google.protobuf.BoolValue wo = 29;
  google.protobuf.DoubleValue wd = 30;
  repeated google.protobuf.Value rv = 31;
  map<string, google.protobuf.Any> ma = 32;
}

service S {
  rpc One(A) returns (A);
  rpc Many(A) returns (stream A);
  rpc Up(stream A) returns (A);
  rpc Both(stream A) returns (stream A);
  rpc Any(google.protobuf.Any) returns (google.protobuf.Any);
  rpc Value(google.protobuf.Value) returns (google.protobuf.Value);
  rpc Empty(google.protobuf.Empty) returns (google.protobuf.Empty);
}
`

var callKeys = []string{"d", "f", "i", "u", "s", "x", "b", "t", "y", "e", "a", "ri", "rt", "ra", "ms", "mb", "o1", "o2", "any", "dur", "ts", "st", "v", "lv", "fm", "em", "wb", "wi", "wo", "wd", "rv", "ma", "@type", "value", "nope", ""}

var callScalars = []string{"0", "-1", "1.5", "1e400", "-0", "99999999999999999999", "1e3", "true", "null", `""`, `"a"`, `"1"`, `"-1"`, `"NaN"`, `"Infinity"`, `"-Infinity"`, `"Z"`, `"N"`, `"nope"`, `"AAEC"`, `"_-8="`, `"=="`, `"1s"`, `"-1.000000001s"`, `"315576000001s"`, `"s"`, `"2020-01-01T00:00:00Z"`, `"0000-01-01T00:00:00Z"`, `"2020-13-01T00:00:00Z"`, `"a,b.c"`, `",,"`, `"\ud800"`, `"é"`, `"\u0000"`, `{}`, `[]`, `[null]`, `[[]]`, `[{}]`, `{"a":null}`,
	`{"@type":"type.googleapis.com/a.b.A","i":1}`, `{"@type":"a.b.A"}`, `{"@type":"x/a.b.Nope"}`, `{"@type":""}`, `{"@type":5}`, `{"@type":"type.googleapis.com/google.protobuf.Duration","value":"1s"}`, `{"@type":"type.googleapis.com/google.protobuf.Duration"}`, `{"@type":"type.googleapis.com/google.protobuf.Any","value":{}}`, `{"@type":"/"}`, `{"value":1}`}

var callTokens = []string{"{", "}", "[", "]", ",", ":", `"`, "\\", "null", "0", "-", "1e", "\xff", "\x00", " ", "\n", `"a":`, `{"a":`, "[[[[", "/*", "//", "'", "é", "NaN", "True", "\ufeff"}

type callField struct {
	Num, Type int // the type 8 is for a length that is wrong
	N         uint64
	Text      string
	Sub       []callField
}

type roughCallCase struct {
	Method    int
	Request   []string
	Damages   []damage
	Responses [][]callField
	Raw       []string // to append to each
	Code      int
	Msg       string
	Header    string
	Details   bool
	Stdin     bool
}

var callMethods = []string{"One", "One", "Many", "Up", "Both", "Any", "Value", "Empty"}

func genRoughJSON(t *rapid.T, depth int) string {
	if depth > 0 && bits(t, 2, "nested") > 0 {
		var parts []string
		for n := uniform(t, 4, "entries"); n > 0; n-- {
			parts = append(parts, `"`+sample(t, callKeys, "key")+`":`+genRoughJSON(t, depth-1))
		}
		s := "{" + strings.Join(parts, ",") + "}"
		if bits(t, 2, "list") == 0 {
			s = "[" + s + "]"
		}
		return s
	}
	return sample(t, callScalars, "value")
}

func genRoughFields(t *rapid.T, depth int) []callField {
	var out []callField
	for n := uniform(t, 4, "fields"); n > 0; n-- {
		f := callField{Num: 1 + uniform(t, 34, "number"), Type: sample(t, []int{0, 0, 0, 0, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 3, 4, 5, 8}, "type"), N: sample(t, wireNums, "varint"), Text: sample(t, []string{"", "\x00", "\xff", "a", "\x08\x01", "type.googleapis.com/a.b.A", "a.b.A", "x/nope", "/", "\xed\xa0\x80", "\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x01"}, "bytes")}
		if f.Type == 2 && depth > 0 && bits(t, 1, "message") == 1 {
			f.Sub = genRoughFields(t, depth-1)
		}
		out = append(out, f)
	}
	return out
}

func callBytes(fs []callField) []byte {
	var b []byte
	varint := func(n uint64) {
		var buf [10]byte
		b = append(b, buf[:binary.PutUvarint(buf[:], n)]...)
	}
	for _, f := range fs {
		varint(uint64(f.Num)<<3 | uint64(f.Type&7))
		switch f.Type {
		case 0:
			varint(f.N)
		case 1:
			b = append(b, "\xff\xff\xff\xff\xff\xff\xf8\x7f"...)
		case 5:
			b = append(b, "\x00\x00\x80\x7f"...)
		case 2:
			s := f.Text
			if f.Sub != nil {
				s = string(callBytes(f.Sub))
			}
			varint(uint64(len(s)))
			b = append(b, s...)
		case 8:
			varint(f.N)
			b = append(b, f.Text...)
		}
	}
	return b
}

func genRoughCall(t *rapid.T) *roughCallCase {
	c := &roughCallCase{Method: uniform(t, len(callMethods), "method"), Stdin: bits(t, 1, "stdin") == 1, Details: bits(t, 2, "details") == 3}
	if bits(t, 1, "good request") == 1 {
		c.Request = []string{`{}`}
		if callMethods[c.Method] == "Any" {
			c.Request[0] = `{"@type":"type.googleapis.com/a.b.A"}`
		}
	} else {
		for n := 1 + uniform(t, 2, "requests"); n > 0; n-- {
			c.Request = append(c.Request, genRoughJSON(t, 3))
		}
		if bits(t, 1, "damaged") == 1 {
			c.Damages = genDamage(t, callTokens, 1, 2)
		}
	}
	for n := uniform(t, 3, "responses"); n > 0; n-- {
		c.Responses = append(c.Responses, genRoughFields(t, 3))
	}
	if bits(t, 2, "status") == 3 {
		c.Code = uniform(t, 18, "code")
		c.Msg = sample(t, []string{"", "a: b", "%s%n", "é\n\x00", "a\tb"}, "message")
	}
	c.Header = sample(t, []string{"", "", "", "", "", "", "", "", "", "a:b", ":", "a:", "A B:c", "é:é", "grpc-x:y", "content-type:z", "x-bin:!", "x-bin:AAEC", ":authority:x", "te:x", "a"}, "header")
	return c
}

func runRoughCall(x *Ctx, c *roughCallCase) error {
	srv := x.grpcServer()
	writeFiles(x.Dir, map[string]string{"prototool.yaml": "", "a/a.proto": callProto})
	m := callMethods[c.Method%len(callMethods)]
	text := strings.Join(c.Request, "\n")
	for _, d := range c.Damages {
		if s := d.apply(text); len(s) < 1<<16 {
			text = s
		}
	}
	plan := &grpcPlan{method: "/a.b.S/" + m, after: -1, code: codes.Code(c.Code), msg: c.Msg, release: make(chan struct{}), headers: metadata.Pairs("a", "b")}
	defer close(plan.release)
	for _, r := range c.Responses {
		plan.responses = append(plan.responses, callBytes(r))
	}
	if len(plan.responses) == 0 && c.Code == 0 && m != "Many" && m != "Both" {
		plan.responses = [][]byte{{}}
	}
	srv.mu.Lock()
	srv.plan = plan
	srv.mu.Unlock()
	args := []string{"grpc", "--address", srv.addr, "--method", "a.b.S/" + m, "--connect-timeout", "20s", "--call-timeout", "20s"}
	var stdin []byte
	if c.Stdin || strings.Contains(text, "\x00") || text == "" {
		args = append(args, "--stdin")
		stdin = []byte(text)
	} else {
		args = append(args, "--data", text)
	}
	if c.Details {
		args = append(args, "--details")
	}
	if c.Header != "" {
		args = append(args, "-H", c.Header)
	}
	before := snapshot(x.Dir)
	start := time.Now()
	r := x.PTEnv(x.Dir, append(x.baseEnv(), protocEnv...), stdin, append(args, "a")...)
	if err := ending(r, "request: "+text); err != nil {
		return err
	}
	if d := time.Since(start); d > 15*time.Second {
		return bad("a call that took %s\n%s\nrequest: %s", d, r, text)
	}
	if d := diffSnap(before, snapshot(x.Dir)); d != "" {
		return bad("grpc changed files\n%s", d)
	}
	plan.mu.Lock()
	calls := plan.calls
	plan.mu.Unlock()
	if calls > 0 {
		x.NonTrivial()
	}
	x.Label("%s: called %v, exit %d", m, calls > 0, r.Code)
	return nil
}
