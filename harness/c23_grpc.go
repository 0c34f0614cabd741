package main

// C23: calls of generated methods of generated services on a loopback server
// that records what it is sent and plays what it is told.

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"pgregory.net/rapid"
)

// ---- the server

type rawCodec struct{}

func (rawCodec) Marshal(v interface{}) ([]byte, error) { return *(v.(*[]byte)), nil }
func (rawCodec) Unmarshal(b []byte, v interface{}) error {
	*(v.(*[]byte)) = append([]byte{}, b...)
	return nil
}
func (rawCodec) String() string { return "raw" }

type grpcPlan struct {
	method     string
	clientStr  bool
	serverStr  bool
	responses  [][]byte
	headers    metadata.MD
	trailers   metadata.MD
	code       codes.Code
	msg        string
	after      int // requests to read before the status, -1 for all
	interleave bool
	hang       bool
	release    chan struct{}

	mu       sync.Mutex
	calls    int
	gotMD    metadata.MD
	gotName  string
	received [][]byte
	ended    bool // the client closed its side
}

type grpcServer struct {
	mu       sync.Mutex
	plan     *grpcPlan
	conns    int64
	addr     string // plain
	unix     string
	tlsAddr  string
	mtlsAddr string
	dir      string
}

var theGRPC *grpcServer

type countingListener struct {
	net.Listener
	n *int64
}

func (l countingListener) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err == nil {
		atomic.AddInt64(l.n, 1)
	}
	return c, err
}

func (x *Ctx) grpcServer() *grpcServer {
	if theGRPC != nil {
		return theGRPC
	}
	s := &grpcServer{dir: filepath.Join(x.Root, "grpc")}
	must(os.MkdirAll(s.dir, 0755))
	put := func(name, kind string, der []byte) {
		must(os.WriteFile(filepath.Join(s.dir, name), pem.EncodeToMemory(&pem.Block{Type: kind, Bytes: der}), 0644))
	}
	cert := func(name string, serial int64, tmpl *x509.Certificate, parent *x509.Certificate, parentKey *ecdsa.PrivateKey) (*x509.Certificate, *ecdsa.PrivateKey, tls.Certificate) {
		key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
		must(err)
		tmpl.SerialNumber, tmpl.Subject = big.NewInt(serial), pkix.Name{CommonName: name}
		tmpl.NotBefore, tmpl.NotAfter = time.Now().Add(-24*time.Hour), time.Now().Add(48*time.Hour)
		if parent == nil {
			parent, parentKey = tmpl, key
		}
		der, err := x509.CreateCertificate(crand.Reader, tmpl, parent, &key.PublicKey, parentKey)
		must(err)
		put(name+".crt", "CERTIFICATE", der)
		kb, err := x509.MarshalECPrivateKey(key)
		must(err)
		put(name+".key", "EC PRIVATE KEY", kb)
		c, err := x509.ParseCertificate(der)
		must(err)
		return c, key, tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
	}
	ca, caKey, _ := cert("ca", 1, &x509.Certificate{IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}, nil, nil)
	cert("otherca", 2, &x509.Certificate{IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}, nil, nil)
	_, _, srv := cert("server", 3, &x509.Certificate{DNSNames: []string{"grpc.example.com"}, IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)}, KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}, ca, caKey)
	_, _, named := cert("named", 4, &x509.Certificate{DNSNames: []string{"grpc.example.com"}, KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}, ca, caKey)
	cert("client", 5, &x509.Certificate{KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}}, ca, caKey)
	pool := x509.NewCertPool()
	pool.AddCert(ca)
	serve := func(network, at string, opts ...grpc.ServerOption) string {
		l, err := net.Listen(network, at)
		must(err)
		g := grpc.NewServer(append(opts, grpc.CustomCodec(rawCodec{}), grpc.UnknownServiceHandler(s.handle))...)
		go g.Serve(countingListener{l, &s.conns})
		return l.Addr().String()
	}
	s.addr = serve("tcp", "127.0.0.1:0")
	s.unix = filepath.Join(s.dir, "s")
	_ = os.Remove(s.unix)
	serve("unix", s.unix)
	s.tlsAddr = serve("tcp", "127.0.0.1:0", grpc.Creds(credentials.NewTLS(&tls.Config{Certificates: []tls.Certificate{srv}})))
	s.mtlsAddr = serve("tcp", "127.0.0.1:0", grpc.Creds(credentials.NewTLS(&tls.Config{Certificates: []tls.Certificate{named}, ClientAuth: tls.RequireAndVerifyClientCert, ClientCAs: pool})))
	theGRPC = s
	return s
}

func (s *grpcServer) handle(_ interface{}, stream grpc.ServerStream) error {
	s.mu.Lock()
	p := s.plan
	s.mu.Unlock()
	name, _ := grpc.MethodFromServerStream(stream)
	md, _ := metadata.FromIncomingContext(stream.Context())
	p.mu.Lock()
	p.calls++
	p.gotMD, p.gotName = md, name
	p.mu.Unlock()
	if len(p.headers) > 0 {
		if err := stream.SendHeader(p.headers); err != nil {
			return err
		}
	}
	stream.SetTrailer(p.trailers)
	sent := 0
	for n := 0; p.after < 0 || n < p.after; n++ {
		var b []byte
		err := stream.RecvMsg(&b)
		if err == io.EOF {
			p.mu.Lock()
			p.ended = true
			p.mu.Unlock()
			break
		}
		if err != nil {
			return err
		}
		p.mu.Lock()
		p.received = append(p.received, b)
		p.mu.Unlock()
		if p.interleave && sent < len(p.responses) {
			if err := stream.SendMsg(&p.responses[sent]); err != nil {
				return err
			}
			sent++
		}
	}
	if p.hang {
		<-p.release
	}
	for ; sent < len(p.responses); sent++ {
		if err := stream.SendMsg(&p.responses[sent]); err != nil {
			return err
		}
	}
	if p.code != codes.OK {
		return status.Error(p.code, p.msg)
	}
	return nil
}

// ---- cases

type grpcMethod struct {
	Service, Name        string
	File                 int // 3 or 4
	In, Out              string
	ClientStr, ServerStr bool
}

type grpcCase struct {
	Msgs      []gMsg
	Methods   []grpcMethod
	Which     int
	Requests  []*gM
	Responses []*gM
	Seed      int64
	Arg       int
	Stdin     bool
	Details   bool
	Transport int
	Headers   [][2]string
	ReplyMD   [][2]string
	Trailers  [][2]string
	Code      int
	Msg       string
	After     int
	Inter     bool
	Fault     string
	FaultAt   int
	Timeouts  bool
	Near      int
}

var grpcFiles = []string{"x/v1/a.proto", "x/v1/b.proto", "y/c.proto", "svc/s.proto", "svc/v1/t.proto", "z/z.proto"}
var grpcPkgs = []string{"x.v1", "x.v1", "y", "svc", "svc.v1", "z"}

var grpcWords = []string{"a", "foo", "bar_baz", "id", "x1", "url_2", "a_b_c", "value", "type", "message", "http_url", "field_", "v_1a", "name", "long_field_name_here", "fooBar", "Baz", "json", "key", "at_type"}

var grpcFaults = []string{"status", "status", "status", "syntax", "unknown field", "wrong type", "truncated", "unknown method", "unknown service", "method format", "unreachable", "too many", "timeout", "garbage", "does not compile", "tls", "no file", "overflow", "silent"}

func genGRPC(t *rapid.T) *grpcCase {
	c := &grpcCase{}
	n := 2 + bits(t, 2, "messages")
	for i := 0; i < n; i++ {
		c.Msgs = append(c.Msgs, gMsg{File: uniform(t, 3, "file"), Short: fmt.Sprintf("M%d", i), Parent: -1})
	}
	sort.SliceStable(c.Msgs, func(i, j int) bool { return c.Msgs[i].File < c.Msgs[j].File })
	s := wktSchema()
	wkts := sortedKeys(s)
	for i := range c.Msgs {
		m := &c.Msgs[i]
		m.Proto2 = m.File == 2
		m.Name = grpcPkgs[m.File] + "." + m.Short
		if i > 0 && c.Msgs[i-1].File == m.File && bits(t, 1, "nested") == 1 {
			m.Parent = i - 1
			m.Name = c.Msgs[i-1].Name + "." + m.Short
		}
	}
	typ := func(m *gMsg) string {
		if bits(t, 1, "wkt") == 1 {
			return sample(t, wkts, "well-known type")
		}
		var ok []string
		for i := range c.Msgs {
			if m == nil || c.Msgs[i].File <= m.File {
				ok = append(ok, c.Msgs[i].Name)
			}
		}
		return sample(t, ok, "type")
	}
	for i := range c.Msgs {
		m := &c.Msgs[i]
		names := map[string]bool{}
		num := 0
		oneofs := 0
		for k := 1 + bits(t, 3, "fields"); k > 0; k-- {
			f := gField{Name: sample(t, grpcWords, "name")}
			if bits(t, 3, "json") == 7 {
				f.JSON = sample(t, []string{"custom", "with-dash", "Ünï", "$x", "a.b", "0"}, "json name")
			}
			f.Label = sample(t, []string{"", "", "", "repeated", "map", "optional", "oneof"}, "label")
			fold := strings.ToLower(strings.ReplaceAll(f.Name, "_", ""))
			if names[fold] || names[f.Name] || names[jsonNameOf(&f)] {
				continue
			}
			names[fold], names[f.Name], names[jsonNameOf(&f)] = true, true, true
			num += 1 + bits(t, 2, "gap")*7
			f.Num = num
			f.Kind = sample(t, gKinds, "kind")
			if bits(t, 1, "message") == 1 {
				f.Kind = "message"
				f.Type = typ(m)
			}
			if f.Kind == "enum" {
				f.Type = gEnumName
			}
			switch {
			case f.Label == "map":
				f.Key = sample(t, []string{"string", "int32", "int64", "uint32", "uint64", "sint64", "fixed32", "sfixed64", "bool"}, "key")
			case f.Label == "oneof":
				oneofs++
			case f.Label == "repeated" && wireType(f.Kind) != 2:
				f.Options = sample(t, []string{"", "packed = true", "packed = false"}, "packed")
			case f.Label == "" && m.Proto2:
				f.Label = "optional"
				if f.Kind != "message" && bits(t, 2, "required") == 3 {
					f.Label = "required"
				}
			}
			m.Fields = append(m.Fields, f)
		}
	}
	for i, k := 0, 1+bits(t, 1, "methods"); i < k; i++ {
		m := grpcMethod{Service: sample(t, []string{"S", "SAPI"}, "service"), Name: fmt.Sprintf("Call%d", i), File: 3 + bits(t, 1, "service file"), In: typ(nil), Out: typ(nil)}
		m.ClientStr, m.ServerStr = bits(t, 1, "client streaming") == 1, bits(t, 1, "server streaming") == 1
		c.Methods = append(c.Methods, m)
	}
	c.Which = uniform(t, len(c.Methods), "method")
	c.Near = bits(t, 4, "neighbours")
	m := c.Methods[c.Which]
	s = c.schema()
	var anys []string
	for i := range c.Msgs {
		anys = append(anys, c.Msgs[i].Name)
	}
	anys = append(anys, pb+"Duration", pb+"StringValue", pb+"Struct", "z.Z")
	nreq, nres := 1, 1
	if m.ClientStr {
		nreq = bits(t, 2, "requests")
	}
	if m.ServerStr {
		nres = bits(t, 2, "responses")
	}
	for i := 0; i < nreq; i++ {
		c.Requests = append(c.Requests, s.gen(t, m.In, 3, anys))
	}
	for i := 0; i < nres; i++ {
		c.Responses = append(c.Responses, s.gen(t, m.Out, 3, anys))
	}
	c.Seed = int64(bits(t, 12, "form"))
	c.Arg = uniform(t, 5, "argument")
	c.Stdin = bits(t, 1, "stdin") == 1
	c.Details = bits(t, 1, "details") == 1
	if bits(t, 1, "transport") == 1 {
		c.Transport = uniform(t, 9, "which transport")
	}
	pairs := func(label string) (out [][2]string) {
		for k := bits(t, 2, label); k > 0; k-- {
			name := sample(t, []string{"x-one", "x-two", "authorization", "x_three", "a.b", "x-4"}, "metadata name")
			if label == "headers" && bits(t, 2, "upper") == 3 {
				name = strings.ToUpper(name)
			}
			out = append(out, [2]string{name, sample(t, []string{"v", "Bearer a:b=c", "w w", "a,b", "", `"q"`, "1,2:3"}, "metadata value")})
		}
		return
	}
	c.Headers, c.ReplyMD, c.Trailers = pairs("headers"), pairs("reply headers"), pairs("trailers")
	c.Inter = bits(t, 1, "interleave") == 1
	c.After = -1
	c.Timeouts = bits(t, 2, "timeouts") == 3
	if bits(t, 1, "fault") == 1 {
		c.Fault = sample(t, grpcFaults, "fault")
		c.FaultAt = bits(t, 3, "where")
		if c.Fault == "status" {
			c.Code = 1 + uniform(t, 16, "code")
			c.Msg = sample(t, []string{"", "no", "it is broken: a/b %d \"q\"", "ünï\ncode"}, "status message")
			if bits(t, 1, "early") == 1 {
				c.After = uniform(t, nreq+1, "after")
			}
			if !m.ServerStr {
				c.Responses = nil
			}
		}
	}
	return c
}

func (c *grpcCase) schema() gSchema {
	s := wktSchema()
	for i := range c.Msgs {
		s[c.Msgs[i].Name] = &c.Msgs[i]
	}
	s["z.Z"] = &gMsg{Name: "z.Z", Short: "Z", File: 5, Parent: -1, Fields: []gField{{Name: "a", Num: 1, Kind: "string"}, {Name: "b_c", Num: 2, Kind: "int64", Label: "repeated"}, {Name: "d", Num: 3, Kind: "message", Type: "z.Z"}}}
	return s
}

func (c *grpcCase) files() map[string]string {
	s := c.schema()
	body := make([]strings.Builder, len(grpcFiles))
	imports := make([]map[string]bool, len(grpcFiles))
	for i := range imports {
		imports[i] = map[string]bool{}
	}
	use := func(file int, typ string) string {
		if w := strings.TrimPrefix(typ, pb); w != typ {
			imports[file]["google/protobuf/"+wktFile[w]+".proto"] = true
		} else if typ == gEnumName {
			imports[file][grpcFiles[0]] = true
		} else {
			imports[file][grpcFiles[s[typ].File]] = true
		}
		return "." + typ
	}
	var message func(i int, indent string)
	all := c.Msgs
	message = func(i int, indent string) {
		m := &all[i]
		b := &body[m.File]
		fmt.Fprintf(b, "%smessage %s {\n", indent, m.Short)
		for k := range all {
			if all[k].Parent == i {
				message(k, indent+"  ")
			}
		}
		var oneof []string
		for _, f := range m.Fields {
			typ := f.Kind
			if f.Type != "" {
				typ = use(m.File, f.Type)
			}
			opts := f.Options
			if f.JSON != "" {
				opts = strings.TrimPrefix(opts+fmt.Sprintf(", json_name = %q", f.JSON), ", ")
			}
			if opts != "" {
				opts = " [" + opts + "]"
			}
			line := fmt.Sprintf("%s %s = %d%s;", typ, f.Name, f.Num, opts)
			switch f.Label {
			case "map":
				line = fmt.Sprintf("map<%s, %s> %s = %d%s;", f.Key, typ, f.Name, f.Num, opts)
			case "oneof":
				oneof = append(oneof, line)
				continue
			case "":
			default:
				line = f.Label + " " + line
			}
			fmt.Fprintf(b, "%s  %s\n", indent, line)
		}
		if len(oneof) > 0 {
			fmt.Fprintf(b, "%s  oneof the_oneof_of_it {\n%s    %s\n%s  }\n", indent, indent, strings.Join(oneof, "\n"+indent+"    "), indent)
		}
		fmt.Fprintf(b, "%s}\n", indent)
	}
	fmt.Fprintf(&body[0], "enum E {\n")
	names := sortedKeys(gEnum)
	sort.Slice(names, func(i, j int) bool { return names[i] == "E_ZERO" && names[j] != "E_ZERO" })
	for _, n := range names {
		fmt.Fprintf(&body[0], "  %s = %d;\n", n, gEnum[n])
	}
	fmt.Fprintf(&body[0], "}\n")
	for i := range all {
		if all[i].Parent < 0 {
			message(i, "")
		}
	}
	for file := 3; file <= 4; file++ {
		for _, svc := range []string{"S", "SAPI", "Other"} {
			fmt.Fprintf(&body[file], "service %s {\n", svc)
			for _, m := range c.Methods {
				if m.File != file || m.Service != svc {
					continue
				}
				in, out := use(file, m.In), use(file, m.Out)
				if m.ClientStr {
					in = "stream " + in
				}
				if m.ServerStr {
					out = "stream " + out
				}
				fmt.Fprintf(&body[file], "  rpc %s(%s) returns (%s);\n", m.Name, in, out)
			}
			body[file].WriteString("}\n")
		}
	}
	body[5].WriteString("message Z {\n  string a = 1;\n  repeated int64 b_c = 2;\n  Z d = 3;\n}\n")
	out := map[string]string{}
	for i, p := range grpcFiles {
		syntax := "proto3"
		if i == 2 {
			syntax = "proto2"
		}
		delete(imports[i], p)
		text := fmt.Sprintf("syntax = %q;\n\npackage %s;\n\n", syntax, grpcPkgs[i])
		for _, im := range sortedKeys(imports[i]) {
			text += fmt.Sprintf("import %q;\n", im)
		}
		out[p] = text + "\n" + body[i].String()
	}
	// neighbours of another package, before or after the services' files
	for i, p := range []string{"svc/a.proto", "svc/z.proto", "svc/v1/a.proto", "svc/v1/z.proto"} {
		if c.Near&(1<<i) != 0 {
			pkg := []string{"other", "sv", "svc.v", "svc.v1.sub"}[i]
			out[p] = fmt.Sprintf("syntax = \"proto3\";\n\npackage %s;\n\nmessage N {}\n\nservice S {\n  rpc Get(N) returns (N);\n}\n", pkg)
		}
	}
	return out
}

// known are the types of the files that are compiled for the argument.
func (c *grpcCase) known(files map[string]string) map[string]bool {
	var dir string
	if c.Arg == 1 || c.Arg == 2 {
		dir = filepath.Dir(grpcFiles[c.Methods[c.Which].File]) + "/"
	}
	in := map[string]bool{}
	var visit func(p string)
	visit = func(p string) {
		if in[p] {
			return
		}
		in[p] = true
		for _, l := range strings.Split(files[p], "\n") {
			if q := strings.TrimPrefix(l, "import \""); q != l {
				visit(strings.TrimSuffix(q, "\";"))
			}
		}
	}
	for p := range files {
		if strings.HasPrefix(p, dir) {
			visit(p)
		}
	}
	out := map[string]bool{}
	for n, m := range c.schema() {
		if m.File < 0 || in[grpcFiles[m.File]] {
			out[n] = true
		}
	}
	return out
}

// unresolved says whether a message holds an Any of an unknown type.
func (m *gM) unresolved(known map[string]bool) bool {
	if m == nil {
		return false
	}
	if m.In != nil && (!known[m.Any] || m.In.unresolved(known)) {
		return true
	}
	for _, f := range m.F {
		for _, v := range f.V {
			if v.M.unresolved(known) {
				return true
			}
		}
	}
	return false
}

// breakJSON damages one request.
func breakJSON(text, fault, typ string) string {
	if typ == pb+"Value" || typ == pb+"ListValue" || typ == pb+"Struct" {
		return "}"
	}
	switch fault {
	case "syntax":
		return text + " }"
	case "unknown field":
		if special(typ) || !strings.HasPrefix(strings.TrimSpace(text), "{") {
			return "[[[]]]"
		}
		t := strings.TrimSpace(text)
		if strings.TrimSpace(t[1:len(t)-1]) == "" {
			return `{"noSuchField": 1}`
		}
		return `{"noSuchField": 1,` + t[1:]
	case "truncated":
		return strings.TrimSpace(text) + "\n{\"a"
	}
	return "[true, [1]]"
}

func csvQuote(h string) string {
	if strings.ContainsAny(h, ",\"") {
		return `"` + strings.ReplaceAll(h, `"`, `""`) + `"`
	}
	return h
}

func runGRPC(x *Ctx, c *grpcCase) error {
	srv := x.grpcServer()
	s := c.schema()
	m := c.Methods[c.Which]
	r := rand.New(rand.NewSource(c.Seed))
	root := filepath.Join(x.Dir, "w")
	files := c.files()
	method := grpcPkgs[m.File] + "." + m.Service + "/" + m.Name
	plan := &grpcPlan{method: "/" + method, clientStr: m.ClientStr, serverStr: m.ServerStr, after: c.After, code: codes.Code(c.Code), msg: c.Msg, interleave: c.Inter && m.ServerStr && m.ClientStr, release: make(chan struct{})}
	defer close(plan.release)
	toMD := func(ps [][2]string) metadata.MD {
		md := metadata.MD{}
		for _, p := range ps {
			md.Append(p[0], p[1])
		}
		return md
	}
	plan.headers, plan.trailers = toMD(c.ReplyMD), toMD(c.Trailers)
	for _, res := range c.Responses {
		plan.responses = append(plan.responses, s.wire(m.Out, res, r))
	}
	var texts []string
	for _, req := range c.Requests {
		texts = append(texts, s.json(m.In, req, r))
	}
	fails := c.Code != 0
	maxReceived := len(c.Requests)
	called := true
	known := c.known(files)
	unprintable, unsendable := false, false
	for i, q := range c.Requests {
		if q.unresolved(known) {
			maxReceived, unsendable = i, true
			break
		}
	}
	for _, q := range c.Responses {
		if q.unresolved(known) {
			unprintable = true
		}
	}
	if unsendable && c.Fault != "overflow" || unprintable && c.Fault != "garbage" {
		fails = true
		x.Label("unknown types")
		if unsendable && !m.ClientStr {
			called = false
		}
	}
	args := []string{"grpc"}
	switch c.Arg {
	case 0:
		args = append(args, ".")
	case 1:
		args = append(args, filepath.Dir(grpcFiles[m.File]))
	case 2:
		args = append(args, grpcFiles[m.File])
	case 3:
		args = append(args, root+"/")
	}
	tls, connect := []string{}, ""
	address := srv.addr
	switch c.Transport {
	case 1:
		address = "tcp://" + srv.addr
	case 2:
		address = "unix://" + srv.unix
	case 3:
		address, tls = srv.tlsAddr, []string{"--tls", "--insecure"}
	case 4:
		address, tls = srv.tlsAddr, []string{"--tls", "--cacert", filepath.Join(srv.dir, "ca.crt")}
	case 5:
		address, tls = "tcp://"+srv.tlsAddr, []string{"--tls", "--cacert", filepath.Join(srv.dir, "ca.crt"), "--server-name", "grpc.example.com"}
	case 6:
		address, tls = srv.mtlsAddr, []string{"--tls", "--cacert", filepath.Join(srv.dir, "ca.crt"), "--server-name", "grpc.example.com", "--cert", filepath.Join(srv.dir, "client.crt"), "--key", filepath.Join(srv.dir, "client.key")}
	}
	callTimeout := ""
	faulty := c.Fault != "" && c.Fault != "status"
	switch c.Fault {
	case "syntax", "unknown field", "wrong type", "truncated":
		fails = true
		at := 0
		if len(texts) == 0 {
			texts = []string{breakJSON("{}", c.Fault, m.In)}
		} else {
			at = c.FaultAt % len(texts)
			texts[at] = breakJSON(texts[at], c.Fault, m.In)
		}
		if at > maxReceived {
			at = maxReceived
		}
		maxReceived = at
		if c.Fault == "syntax" || c.Fault == "truncated" {
			maxReceived++
		}
		if !m.ClientStr {
			called = false
		}
	case "unknown method":
		fails, called = true, false
		method += "X"
	case "unknown service":
		fails, called = true, false
		method = sample2(r, "svc.No/Call0", "svc.v2.S/Call0", "S/Call0", "svc.v1/Call0", "x.v1.M0/Call0", "svc.SAP/Call0", "v1.S/Call0")
	case "method format":
		fails, called = true, false
		method = sample2(r, "/", "Call0", "svc.S/Call0/", strings.Replace(method, "/", "//", 1), "/"+method, method+"/")
	case "unreachable":
		fails, called = true, false
		l, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		closed := l.Addr().String()
		must(l.Close())
		address = sample2(r, closed, "tcp://"+closed, "unix://"+srv.dir+"/none", "http://"+srv.addr, "udp://"+srv.addr)
		tls, connect = nil, "1s"
	case "silent":
		fails, called = true, false
		l, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		defer l.Close()
		address, tls = l.Addr().String(), []string{"--tls", "--insecure"}
		connect, callTimeout = "400ms", "70s"
	case "too many":
		if m.ClientStr {
			faulty = false
			break
		}
		fails, called = true, false
		texts = append(texts, texts[0])
	case "timeout":
		fails = true
		plan.hang = true
		callTimeout = "400ms"
	case "garbage":
		if len(plan.responses) == 0 || m.Out == pb+"Empty" {
			faulty = false
			break
		}
		fails = true
		plan.responses[len(plan.responses)-1] = []byte{0x0a, 0x7f, 0x01}
	case "does not compile":
		fails, called = true, false
		files[grpcFiles[m.File]] += "message Bad { NotThere x = 1; }\n"
	case "tls":
		fails, called, connect = true, false, "2s"
		ca := filepath.Join(srv.dir, "ca.crt")
		switch c.FaultAt {
		case 0:
			address, tls = srv.tlsAddr, nil
		case 1:
			address, tls = srv.addr, []string{"--tls", "--insecure"}
		case 2:
			address, tls = srv.tlsAddr, []string{"--tls"}
		case 3:
			address, tls = srv.tlsAddr, []string{"--tls", "--cacert", filepath.Join(srv.dir, "otherca.crt")}
		case 4:
			address, tls = srv.tlsAddr, []string{"--tls", "--cacert", ca, "--server-name", "wrong.example.com"}
		case 5:
			address, tls = srv.mtlsAddr, []string{"--tls", "--cacert", ca, "--server-name", "grpc.example.com"}
		case 6:
			address, tls = srv.mtlsAddr, []string{"--tls", "--cacert", ca, "--cert", filepath.Join(srv.dir, "client.crt"), "--key", filepath.Join(srv.dir, "client.key")}
		case 7:
			address, tls = srv.tlsAddr, []string{"--tls", "--cacert", filepath.Join(srv.dir, "none.crt")}
		}
	case "no file":
		fails, called = true, false
		args = []string{"grpc", "nothing/here"}
	case "overflow":
		// a number that does not fit
		fails, called = true, false
		found := false
		for i := range s[m.In].Fields {
			f := &s[m.In].Fields[i]
			if (f.Label == "" || f.Label == "optional") && !special(m.In) && (f.Kind == "int32" || f.Kind == "uint32" || f.Kind == "fixed32" || f.Kind == "sfixed32") {
				texts, found = []string{fmt.Sprintf("{%q: %s}", jsonNameOf(f), sample2(r, "4294967296", "-2147483649", "1.5", `"x"`, "true"))}, true
			}
		}
		if !found {
			faulty = false
			fails, called = unsendable || unprintable, !unsendable || m.ClientStr
			break
		}
		maxReceived = 0
		called = m.ClientStr
	}
	if c.Stdin && len(texts) > 0 || len(texts) == 0 {
		args = append(args, "--stdin")
	}
	sep := sample2(r, "\n", " ", "\n\n", "\t")
	if !special(m.In) && r.Intn(4) == 0 {
		sep = ""
	}
	input := strings.Join(texts, sep)
	var stdin []byte
	if contains(args, "--stdin") {
		stdin = []byte(input + sample2(r, "\n", ""))
	} else if r.Intn(2) == 0 {
		args = append(args, "--data="+input)
	} else {
		args = append(args, "--data", input)
	}
	args = append(args, "--address", address, "--method="+method)
	args = append(args, tls...)
	for _, h := range c.Headers {
		args = append(args, sample2(r, "-H", "--header"), csvQuote(h[0]+":"+h[1]))
	}
	if c.Details {
		args = append(args, "--details")
	}
	if connect != "" {
		args = append(args, "--connect-timeout", connect)
	} else if c.Timeouts {
		args = append(args, "--connect-timeout", "60s", "--keepalive-time", "100s")
	}
	if callTimeout != "" {
		args = append(args, "--call-timeout", callTimeout)
	} else if c.Timeouts {
		args = append(args, "--call-timeout=2m")
	}
	writeFiles(root, files)
	writeFiles(root, map[string]string{"prototool.yaml": "protoc:\n  includes: []\n"})
	srv.mu.Lock()
	srv.plan = plan
	srv.mu.Unlock()
	start := time.Now()
	res := x.PTEnv(root, append(x.baseEnv(), protocEnv...), stdin, args...)
	took := time.Since(start)
	plan.mu.Lock()
	defer plan.mu.Unlock()
	show := func() string {
		var b strings.Builder
		fmt.Fprintf(&b, "\nmethod %s (%s) returns (%s), client streaming %v, server streaming %v\ninput: %s\n%s", method, m.In, m.Out, m.ClientStr, m.ServerStr, input, res)
		for i, q := range plan.received {
			fmt.Fprintf(&b, "received %d: %x\n", i, q)
		}
		for i, q := range plan.responses {
			fmt.Fprintf(&b, "response %d: %x\n", i, q)
		}
		fmt.Fprintf(&b, "metadata %v\n", plan.gotMD)
		for _, f := range sortedKeys(files) {
			fmt.Fprintf(&b, "== %s\n%s", f, files[f])
		}
		return b.String()
	}
	x.Label("%v/%v streams", m.ClientStr, m.ServerStr)
	x.Label("fault %s", c.Fault)
	x.Label("transport %d", c.Transport)
	if fails != (res.Code != 0) {
		if fails {
			return bad("a failed call and exit code 0 (%s)%s", c.Fault, show())
		}
		return bad("the call fails%s", show())
	}
	if fails && strings.TrimSpace(res.Out) == "" && strings.TrimSpace(res.Err) == "" {
		return bad("fails without a word%s", show())
	}
	if plan.calls > 1 || plan.calls == 1 && !called || plan.calls == 0 && called && !fails {
		return bad("%d calls%s", plan.calls, show())
	}
	// grpc itself gives a handshake up after 20s
	if c.Fault == "timeout" && took > 30*time.Second || c.Fault == "silent" && took > 15*time.Second {
		return bad("a call or connection limited to 400ms takes %v%s", took, show())
	}
	if plan.calls == 0 {
		x.NonTrivial()
		return nil
	}
	if plan.gotName != plan.method {
		return bad("%s is called%s", plan.gotName, show())
	}
	// the metadata
	wantMD := toMD(c.Headers)
	for k, vs := range wantMD {
		if fmt.Sprintf("%q", plan.gotMD[k]) != fmt.Sprintf("%q", vs) {
			return bad("the header %s is %q, want %q%s", k, plan.gotMD[k], vs, show())
		}
	}
	for k := range plan.gotMD {
		if wantMD[k] == nil && k != "content-type" && k != ":authority" && k != "user-agent" {
			return bad("an additional header %s%s", k, show())
		}
	}
	// the requests
	want := len(c.Requests)
	if !m.ClientStr && want == 0 {
		want = 1
	}
	if c.After >= 0 && c.After < want {
		want = c.After
	}
	if !faulty && !unsendable {
		if len(plan.received) != want && !(fails && len(plan.received) < want) {
			return bad("%d requests are received, want %d%s", len(plan.received), want, show())
		}
		if c.After < 0 && !plan.ended {
			return bad("the client does not close its side%s", show())
		}
	}
	if len(plan.received) > maxReceived {
		return bad("%d requests are received, %d were good%s", len(plan.received), maxReceived, show())
	}
	for i, b := range plan.received {
		got, err := s.unwire(m.In, b)
		if err != nil {
			return bad("request %d: %v%s", i, err, show())
		}
		sent := &gM{}
		if i < len(c.Requests) {
			sent = c.Requests[i]
		}
		if g, w := s.norm(m.In, got), s.norm(m.In, sent); g != w {
			return bad("request %d is %s, want %s%s", i, g, w, show())
		}
	}
	if len(plan.received) > 0 || len(c.Responses) > 0 {
		x.NonTrivial()
	}
	if faulty || unsendable {
		return nil
	}
	// the output
	out := lines(res.Out)
	type event struct {
		kind string
		text string
	}
	var wantOut, gotOut []event
	add := func(kind, text string) { wantOut = append(wantOut, event{kind, text}) }
	if c.Details && len(c.ReplyMD) > 0 {
		add("headers", mdText(plan.headers, nil))
	}
	for _, resp := range c.Responses {
		if resp.unresolved(known) {
			continue
		}
		if n := s.norm(m.Out, resp); !printsNothing(m.Out, n) {
			add("response", n)
		}
	}
	if c.Code != 0 && c.Details {
		add("status", fmt.Sprintf("%d %q", c.Code, c.Msg))
	}
	if c.Details && len(c.Trailers) > 0 {
		add("trailers", mdText(plan.trailers, nil))
	}
	for len(out) > 0 {
		line := out[0]
		d := json.NewDecoder(strings.NewReader(line))
		d.UseNumber()
		var v interface{}
		if err := d.Decode(&v); err != nil {
			break
		}
		if _, err := d.Token(); err != io.EOF {
			break
		}
		out = out[1:]
		kind := "response"
		if c.Details {
			o, ok := v.(map[string]interface{})
			if !ok || len(o) != 1 {
				return bad("a line of the details is %q%s", line, show())
			}
			for k := range o {
				kind, v = k, o[k]
			}
		}
		switch kind {
		case "response":
			got, err := s.unjson(m.Out, v)
			if err != nil {
				return bad("the output %q: %v%s", line, err, show())
			}
			if n := s.norm(m.Out, got); !printsNothing(m.Out, n) {
				gotOut = append(gotOut, event{kind, n})
			}
		case "status":
			o, _ := v.(map[string]interface{})
			msg, _ := o["message"].(string)
			gotOut = append(gotOut, event{kind, fmt.Sprintf("%v %q", o["code"], msg)})
		case "headers", "trailers":
			o, _ := v.(map[string]interface{})
			md := metadata.MD{}
			for k, l := range o {
				vs, _ := l.([]interface{})
				for _, e := range vs {
					md.Append(k, fmt.Sprint(e))
				}
			}
			delete(md, "content-type")
			if len(md) > 0 {
				gotOut = append(gotOut, event{kind, mdText(md, nil)})
			}
		default:
			return bad("a line of the details is %q%s", line, show())
		}
	}
	if fmt.Sprintf("%q", gotOut) != fmt.Sprintf("%q", wantOut) {
		return bad("the output is\n%q, want\n%q%s", gotOut, wantOut, show())
	}
	rest := strings.Join(out, "\n")
	if c.Code == 0 && rest != "" && !unprintable {
		return bad("additional output%s", show())
	}
	if c.Code != 0 && !unprintable && (!strings.Contains(rest+res.Err, c.Msg) || !strings.Contains(rest+res.Err, codes.Code(c.Code).String())) {
		return bad("the error does not tell the status %v %q%s", codes.Code(c.Code), c.Msg, show())
	}
	return nil
}

// printsNothing says whether the JSON form is {}, which is not printed.
func printsNothing(typ, norm string) bool {
	return norm == "{}" && (!special(typ) || typ == pb+"Struct") || typ == pb+"Value" && norm == "{5={}}"
}

func sample2(r *rand.Rand, xs ...string) string { return xs[r.Intn(len(xs))] }

func mdText(md metadata.MD, _ []string) string {
	var out []string
	for _, k := range sortedKeys(md) {
		out = append(out, fmt.Sprintf("%s=%q", k, md[k]))
	}
	return strings.Join(out, " ")
}

// ---- flags that make no sense

type grpcFlagCase struct {
	Which  int
	Method int
	Extra  int
	Order  int
}

func genGRPCFlags(t *rapid.T) *grpcFlagCase {
	return &grpcFlagCase{Which: uniform(t, 20, "flags"), Method: uniform(t, 3, "method"), Extra: bits(t, 3, "extra"), Order: bits(t, 4, "order")}
}

func runGRPCFlags(x *Ctx, c *grpcFlagCase) error {
	srv := x.grpcServer()
	root := filepath.Join(x.Dir, "w")
	writeFiles(root, map[string]string{"prototool.yaml": "", "a.proto": "syntax = \"proto3\";\n\npackage a;\n\nmessage A {\n  int32 v = 1;\n}\n\nservice S {\n  rpc One(A) returns (A);\n  rpc Two(A) returns (stream A);\n  rpc Three(stream A) returns (stream A);\n}\n"})
	addr := []string{"--address", srv.addr}
	method := []string{"--method", "a.S/" + []string{"One", "Two", "Three"}[c.Method]}
	data := []string{"--data", `{"v": 1}`}
	extra := [][]string{}
	ca, cert, key := filepath.Join(srv.dir, "ca.crt"), filepath.Join(srv.dir, "client.crt"), filepath.Join(srv.dir, "client.key")
	good := false
	switch c.Which {
	case 0:
		addr = nil
	case 1:
		method = nil
	case 2:
		data = nil
	case 3:
		extra = append(extra, []string{"--stdin"})
	case 4:
		extra = append(extra, []string{"--insecure"})
	case 5:
		extra = append(extra, []string{"--cacert", ca})
	case 6:
		extra = append(extra, []string{"--cert", cert}, []string{"--key", key})
	case 7:
		extra = append(extra, []string{"--server-name", "grpc.example.com"})
	case 8:
		extra = append(extra, []string{"--tls"}, []string{"--insecure"}, [][]string{{"--cacert", ca}, {"--server-name", "x"}, {"--cert", cert}, {"--key", key}}[c.Extra%4])
	case 9:
		extra = append(extra, []string{"--tls"}, []string{"--cert", cert})
	case 10:
		extra = append(extra, []string{"--tls"}, []string{"--key", key}, []string{"--cacert", ca})
	case 11:
		extra = append(extra, []string{"-H", "nocolon"})
	case 12:
		extra = append(extra, []string{"-H", "a:b"}, []string{"-H", "x-y"})
	case 13:
		extra = append(extra, []string{"--call-timeout", []string{"5", "x", "1 s", "-"}[c.Extra%4]})
	case 14:
		extra = append(extra, []string{"--connect-timeout", []string{"5", "x", "1 s", "s"}[c.Extra%4]})
	case 15:
		extra = append(extra, []string{"--keepalive-time", []string{"5", "x", "1 s", "1y"}[c.Extra%4]})
	case 16:
		addr = []string{"--address", ""}
	case 17:
		method = []string{"--method="}
	case 18:
		data = []string{"--data="}
	default:
		good = true
	}
	if c.Extra&4 != 0 && c.Which != 11 && c.Which != 12 {
		extra = append(extra, []string{"-H", "a:b"})
	}
	groups := append([][]string{addr, method, data}, extra...)
	r := rand.New(rand.NewSource(int64(c.Order)))
	r.Shuffle(len(groups), func(i, j int) { groups[i], groups[j] = groups[j], groups[i] })
	args := []string{"grpc"}
	for _, g := range groups {
		args = append(args, g...)
	}
	plan := &grpcPlan{after: -1, responses: [][]byte{{8, 2}}, release: make(chan struct{})}
	srv.mu.Lock()
	srv.plan = plan
	srv.mu.Unlock()
	before := atomic.LoadInt64(&srv.conns)
	res := x.PTEnv(root, append(x.baseEnv(), protocEnv...), []byte(`{"v": 3}`), args...)
	plan.mu.Lock()
	defer plan.mu.Unlock()
	conns := atomic.LoadInt64(&srv.conns) - before
	x.Label("flags %d", c.Which)
	x.NonTrivial()
	if good {
		if res.Code != 0 || plan.calls != 1 || res.Out != "{\"v\":2}\n" {
			return bad("a good call fails: %d calls\n%s", plan.calls, res)
		}
		return nil
	}
	if res.Code == 0 {
		return bad("inconsistent flags are not refused\n%s", res)
	}
	if conns != 0 || plan.calls != 0 {
		return bad("inconsistent flags are refused after a connection\n%s", res)
	}
	if strings.TrimSpace(res.Out+res.Err) == "" {
		return bad("fails without a word\n%s", res)
	}
	return nil
}

// the known findings, which the generator leaves out

type grpcKnown struct{ Key string }

func runGRPCKnown(x *Ctx, k *grpcKnown) error {
	value := func(i int, v gV) gV { return gV{M: &gM{F: []gFV{{I: i, V: []gV{v}}}}} }
	f := gField{Name: "a", Num: 1, Kind: "message", Type: pb + "Value"}
	c := &grpcCase{After: -1, Responses: []*gM{{}}}
	var m *gM
	switch k.Key {
	case "map-key-escapes":
		f = gField{Name: "a", Num: 1, Kind: "string", Label: "map", Key: "string"}
		m = &gM{F: []gFV{{K: []gV{{Y: []byte("\u00fc")}}, V: []gV{{Y: []byte("x")}}}}}
	case "value-list":
		m = &gM{F: []gFV{{V: []gV{value(5, gV{M: &gM{F: []gFV{{V: []gV{value(3, gV{U: 1}), value(3, gV{})}}}}})}}}}
	case "value-null-in-map":
		f.Label, f.Key = "map", "string"
		m = &gM{F: []gFV{{K: []gV{{Y: []byte("k")}}, V: []gV{value(0, gV{})}}}}
	default:
		return nil
	}
	c.Msgs = []gMsg{{Name: "x.v1.M0", Short: "M0", Parent: -1, Fields: []gField{f}}}
	c.Methods = []grpcMethod{{Service: "S", Name: "Call0", File: 3, In: "x.v1.M0", Out: "x.v1.M0"}}
	if k.Key == "map-key-escapes" {
		c.Requests, c.Responses = []*gM{{}}, []*gM{m}
	} else {
		c.Requests = []*gM{m}
	}
	if err := runGRPC(x, c); err != nil {
		return badKey(k.Key, "%s", err)
	}
	return nil
}

func init() {
	prop("C23", "model", "calls of generated methods (all kinds, types of all fields and well-known types, values at their limits, several JSON forms) over plain, unix and TLS connections with statuses, faults in the input and unusable servers; non-trivial: a message is exchanged or a call is refused",
		newPart("known", 0, 0, func(t *rapid.T) *grpcKnown { return &grpcKnown{} }, runGRPCKnown),
		newPart("calls", 5000, 70000, genGRPC, runGRPC),
		newPart("flags", 300, 3000, genGRPCFlags, runGRPCFlags))
}
