package main

// C21 and C22: histories of runs, faults and damages of the protoc cache. A
// server on the loopback interface plays GitHub Releases: prototool reaches it
// through HTTPS_PROXY and trusts its certificate through SSL_CERT_FILE.

import (
	"archive/zip"
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha512"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/pem"
	"fmt"
	"io"
	stdlog "log"
	"math/big"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

// ---- the releases

const releaseScript = `#!/bin/sh
# release §
if [ "$1" = --version ]; then echo "libprotoc §"; exit 0; fi
if [ -n "$VLOG" ]; then echo "§" >> "$VLOG"; fi
exec /usr/bin/protoc "$@"
`

var releaseVersions = []string{"3.11.0", "3.8.0", "3.12.0-rc-12"}

var wktSources = map[string]string{}

// release is the content of an archive by path.
func release(version string) map[string]string {
	out := map[string]string{"bin/protoc": strings.ReplaceAll(releaseScript, "§", version), "readme.txt": "release " + version + "\n"}
	for _, n := range wktNames {
		p := "google/protobuf/" + n + ".proto"
		if wktSources[p] == "" {
			wktSources[p] = readFile("/usr/include/" + p)
		}
		out["include/"+p] = wktSources[p] + "// release " + version + "\n"
	}
	return out
}

func releaseZip(files map[string]string, order int, mode string, evil string) []byte {
	var buf bytes.Buffer
	z := zip.NewWriter(&buf)
	names := sortedKeys(files) // bin, include, readme
	if order%2 == 1 {
		names = append(names[1:], names[0])
	}
	if evil != "" {
		i := order % len(names)
		names = append(names[:i:i], append([]string{evil}, names[i:]...)...)
	}
	for _, n := range names {
		h := &zip.FileHeader{Name: n, Method: zip.Deflate}
		h.SetMode(0644)
		content := files[n]
		if n == evil && evil != "" {
			content = "escaped"
		}
		if n == "bin/protoc" {
			switch mode {
			case "without protoc":
				continue
			case "not executable":
			default:
				h.SetMode(0755)
			}
		}
		if order%3 == 0 {
			d := &zip.FileHeader{Name: filepath.Dir(n) + "/"}
			d.SetMode(os.ModeDir | 0755)
			_, err := z.CreateHeader(d)
			must(err)
		}
		w, err := z.CreateHeader(h)
		must(err)
		_, err = w.Write([]byte(content))
		must(err)
	}
	must(z.Close())
	b := buf.Bytes()
	switch mode {
	case "torn":
		b = b[:len(b)/2]
	case "corrupt":
		// the data of some file, so that its checksum is wrong
		i := bytes.Index(b, []byte("bin/protoc")) + len("bin/protoc") + 20
		if order%2 == 1 {
			i = len(b) / 2
		}
		for k := 0; k < 40; k++ {
			b[i+k] ^= 0x5a
		}
	case "garbage":
		b = []byte("<html>not a zip</html>")
	case "empty":
		b = nil
	}
	return b
}

// ---- the server

type releaseServer struct {
	mu       sync.Mutex
	mode     string
	order    int
	delay    time.Duration
	evil     func(url string) string
	requests []string
	addr     string
	ca       string
	tls      *tls.Config
}

var theServer *releaseServer

func (x *Ctx) server() *releaseServer {
	if theServer != nil {
		return theServer
	}
	s := &releaseServer{}
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	tmpl := &x509.Certificate{
		SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "github.com"}, DNSNames: []string{"github.com"},
		NotBefore: time.Now().Add(-24 * time.Hour), NotAfter: time.Now().Add(48 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
	}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
	must(err)
	s.ca = filepath.Join(x.Root, "ca.pem")
	must(os.WriteFile(s.ca, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0644))
	s.tls = &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	s.addr = l.Addr().String()
	go http.Serve(l, http.HandlerFunc(s.handle))
	theServer = s
	return s
}

// oneConn serves a single connection.
type oneConn struct {
	c    net.Conn
	done chan struct{}
	once bool
}

func (o *oneConn) Accept() (net.Conn, error) {
	if !o.once {
		o.once = true
		return o.c, nil
	}
	<-o.done
	return nil, io.EOF
}
func (o *oneConn) Close() error   { return nil }
func (o *oneConn) Addr() net.Addr { return o.c.LocalAddr() }

func (s *releaseServer) handle(w http.ResponseWriter, r *http.Request) {
	if r.Method == http.MethodConnect {
		c, _, err := w.(http.Hijacker).Hijack()
		if err != nil {
			return
		}
		s.mu.Lock()
		refuse := s.mode == "refuse"
		s.mu.Unlock()
		if refuse || r.Host != "github.com:443" {
			s.note("CONNECT " + r.Host)
			_ = c.Close()
			return
		}
		_, _ = io.WriteString(c, "HTTP/1.1 200 OK\r\n\r\n")
		done := make(chan struct{})
		srv := &http.Server{
			Handler:  http.HandlerFunc(s.handle),
			ErrorLog: stdlog.New(io.Discard, "", 0),
			ConnState: func(_ net.Conn, st http.ConnState) {
				if st == http.StateClosed || st == http.StateHijacked {
					close(done)
				}
			},
		}
		srv.SetKeepAlivesEnabled(false)
		_ = srv.Serve(&oneConn{c: tls.Server(c, s.tls), done: done})
		return
	}
	s.note(r.URL.Path)
	s.mu.Lock()
	mode, delay, order, evil := s.mode, s.delay, s.order, ""
	if s.evil != nil {
		evil = s.evil(r.URL.Path)
	}
	s.mu.Unlock()
	version := ""
	for _, v := range releaseVersions {
		if r.URL.Path == releasePath(v) || r.URL.Path == "/z/"+v+".zip" {
			version = v
		}
	}
	if version == "" || mode == "404" {
		http.Error(w, "Not Found", http.StatusNotFound)
		return
	}
	time.Sleep(delay / 2)
	switch mode {
	case "500":
		http.Error(w, "oops", http.StatusInternalServerError)
		return
	case "refuse":
		panic(http.ErrAbortHandler)
	}
	b := archive(version, order, mode, evil)
	w.Header().Set("Content-Length", fmt.Sprint(len(b)))
	n := len(b)
	if mode == "cut" {
		n /= 2
	}
	_, _ = w.Write(b[:n/2])
	if f, ok := w.(http.Flusher); ok {
		f.Flush()
	}
	time.Sleep(delay / 2)
	_, _ = w.Write(b[n/2 : n])
	if mode == "cut" {
		panic(http.ErrAbortHandler)
	}
}

func (s *releaseServer) note(p string) {
	s.mu.Lock()
	s.requests = append(s.requests, p)
	s.mu.Unlock()
}

func archive(version string, order int, mode, evil string) []byte {
	files := release(version)
	if mode == "other version" {
		files["bin/protoc"] = strings.ReplaceAll(releaseScript, "§", "3.99.0")
	}
	if mode != "escape" {
		evil = ""
	}
	return releaseZip(files, order, mode, evil)
}

// releasePath is the documented place of a release.
func releasePath(v string) string {
	dir := strings.Replace(v, "rc-", "rc", 1)
	return "/protocolbuffers/protobuf/releases/download/v" + dir + "/protoc-" + v + "-linux-x86_64.zip"
}

// ---- histories

type cacheStep struct {
	Damage  string // what happens to the cache first
	Version int
	Source  int // 0 default URL, 1 http, 2 file
	Cmd     int
	Mode    string
	Order   int
	Delay   int
	Procs   int
	Kill    string // system call at which the first process is killed
	KillAt  int
	Limit   int // file size limit in blocks
}

type cacheCase struct {
	Place int
	Steps []cacheStep
}

var cacheDamages = []string{"empty", "no protoc", "empty protoc", "torn protoc", "other protoc", "not executable", "directory", "failing protoc", "file", "lock", "junk", "nothing left"}

var cacheModes = []string{"404", "500", "cut", "refuse", "garbage", "empty", "torn", "corrupt", "without protoc", "not executable", "other version", "escape"}

var cacheCmds = []string{"cache update", "compile", "lint", "descriptor-set --include-imports", "x inspect packages", "files", "compile --dry-run", "format -l"}

func genCache(t *rapid.T) *cacheCase {
	c := &cacheCase{Place: uniform(t, 6, "place")}
	version, source := bits(t, 1, "version")*uniform(t, 3, "which"), uniform(t, 3, "source")
	for i := 2 + bits(t, 2, "steps"); i > 0; i-- {
		s := cacheStep{Version: version, Source: source, Order: bits(t, 3, "order"), Procs: 1}
		if bits(t, 2, "another") == 1 {
			s.Version, s.Source = uniform(t, 3, "other version"), uniform(t, 3, "other source")
		}
		if bits(t, 1, "damage") == 1 {
			s.Damage = sample(t, cacheDamages, "damage")
		}
		s.Cmd = uniform(t, len(cacheCmds), "command")
		if bits(t, 2, "mode") == 1 {
			s.Mode = sample(t, cacheModes, "server")
		}
		switch bits(t, 3, "fault") {
		case 1, 3:
			s.Kill = sample(t, []string{"openat", "openat", "write", "mkdirat", "renameat", "unlinkat", "fchmodat,fchmod", "close"}, "system call")
			s.KillAt = 1 + uniform(t, 40, "occurrence")
			if s.Kill == "openat" {
				s.KillAt += uniform(t, 40, "more")
			} else if s.Kill != "write" && s.Kill != "close" {
				s.KillAt = 1 + uniform(t, 6, "early occurrence")
			}
		case 5:
			s.Limit = 1 + uniform(t, 60, "limit")
		case 7:
			s.Delay = 50 + bits(t, 3, "delay")*40
		}
		if bits(t, 2, "concurrent") == 1 {
			s.Procs = 2 + bits(t, 2, "processes")
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

// validRelease says whether the directory holds the complete release.
func validRelease(base, version string) (string, bool) {
	for _, p := range sortedKeys(release(version)) {
		b, err := os.ReadFile(filepath.Join(base, p))
		if err != nil {
			return p + " is missing", false
		}
		if string(b) != release(version)[p] {
			return p + " has another content", false
		}
	}
	if fi, err := os.Stat(filepath.Join(base, "bin/protoc")); err != nil || fi.Mode()&0100 == 0 {
		return "bin/protoc is not executable", false
	}
	return "", true
}

// usable says whether the cache must be reused: a protoc that runs, of the
// version asked for if there is one, and the rest.
func usable(base, version string, byURL bool) bool {
	_, ok := validRelease(base, version)
	return ok
}

// outside is everything below the directories of the case that is not in the cache.
func (x *Ctx) outside(cache string) map[string]string {
	out := map[string]string{}
	for _, d := range []string{x.Dir, x.Home, x.Tmp} {
		for k, v := range snapshot(d) {
			p := filepath.Join(d, k)
			if within(p, cache) || strings.HasSuffix(k, "/") && within(cache, p) {
				continue
			}
			out[p] = v
		}
	}
	return out
}

func runCache(x *Ctx, c *cacheCase) error {
	s := x.server()
	work := filepath.Join(x.Dir, "w")
	var imports, uses strings.Builder
	for i, n := range []string{"any", "api", "compiler/plugin", "descriptor", "duration", "empty", "field_mask", "source_context", "struct", "timestamp", "type", "wrappers"} {
		fmt.Fprintf(&imports, "import \"google/protobuf/%s.proto\";\n", n)
		typ := []string{"Any", "Api", "compiler.Version", "FileDescriptorProto", "Duration", "Empty", "FieldMask", "SourceContext", "Struct", "Timestamp", "Type", "StringValue"}[i]
		fmt.Fprintf(&uses, "  optional google.protobuf.%s f%d = %d;\n", typ, i, i+1)
	}
	writeFiles(work, map[string]string{"a/a.proto": "syntax = \"proto2\";\n\npackage a;\n\n" + imports.String() + "\nmessage A {\n" + uses.String() + "}\n"})
	cache := filepath.Join(x.Home, ".cache/prototool")
	env := append(x.baseEnv(), "HTTPS_PROXY=http://"+s.addr, "SSL_CERT_FILE="+s.ca)
	var flags []string
	custom := true
	switch c.Place {
	case 0:
		custom = false
	case 1:
		custom = false
		cache = filepath.Join(x.Dir, "xdg/prototool")
		env = append(env, "XDG_CACHE_HOME="+filepath.Join(x.Dir, "xdg"))
	case 2:
		cache = filepath.Join(x.Dir, "managed")
		env = append(env, "PROTOTOOL_CACHE_PATH="+cache, "XDG_CACHE_HOME="+filepath.Join(x.Dir, "xdg"))
	case 3:
		cache = filepath.Join(x.Dir, "flag")
		flags = []string{"--cache-path", cache}
	case 4:
		cache = filepath.Join(x.Dir, "rel cache")
		flags = []string{"--cache-path", "../rel cache/"}
	case 5:
		cache = filepath.Join(x.Dir, "both")
		env = append(env, "PROTOTOOL_CACHE_PATH="+filepath.Join(x.Dir, "not this"))
		flags = []string{"--cache-path=" + cache}
	}
	place := filepath.Join(cache, "Linux/x86_64/protobuf")
	if custom {
		place = filepath.Join(cache, "protobuf")
	}
	log := filepath.Join(x.Dir, "log")
	var history strings.Builder
	for i := range c.Steps {
		st := c.Steps[i]
		version := releaseVersions[st.Version]
		cmd := cacheCmds[st.Cmd]
		if st.Source > 0 && cmd == "cache update" {
			cmd = "compile"
		}
		cfgVersion := version
		base := filepath.Join(place, version)
		args := strings.Fields(cmd)
		if cmd != "files" {
			args = append(args, flags...)
		}
		zipFile := filepath.Join(x.Dir, "release "+version+".zip")
		if cmd != "files" && st.Source > 0 {
			url := "http://" + s.addr + "/z/" + version + ".zip"
			if st.Source == 2 {
				url = "file://" + zipFile
			}
			args = append(args, "--protoc-url", url)
			sum := sha512.Sum512([]byte(url))
			base = filepath.Join(place, base64.URLEncoding.EncodeToString(sum[:]))
			cfgVersion = "3.5.0" // ignored
		}
		writeFiles(work, map[string]string{"prototool.yaml": "protoc:\n  version: " + cfgVersion + "\nlint:\n  rules:\n    no_default: true\n"})
		args = append(args, "a")
		st.damage(base)
		evil, err := filepath.Rel(base, filepath.Join(filepath.Dir(cache), "escaped"))
		must(err)
		switch st.Order % 4 { // beside the release rather than outside of the cache
		case 2:
			evil = "../" + filepath.Base(base) + "x/escaped"
		case 3:
			evil = "../" + filepath.Base(base) + ".tmpx/escaped"
		}
		s.mu.Lock()
		s.mode, s.order, s.delay, s.requests = st.Mode, st.Order, time.Duration(st.Delay)*time.Millisecond, nil
		s.evil = func(string) string { return evil }
		s.mu.Unlock()
		_ = os.Remove(zipFile)
		badMode := st.Mode != ""
		if st.Source == 2 {
			switch st.Mode {
			case "404", "500", "refuse":
			case "cut":
				must(os.WriteFile(zipFile, archive(version, st.Order, "torn", ""), 0644))
			default:
				must(os.WriteFile(zipFile, archive(version, st.Order, st.Mode, evil), 0644))
			}
		}
		if st.Source > 0 && st.Mode == "other version" {
			badMode = false
		}
		reuse := usable(base, version, st.Source > 0)
		if otherBase := "3.99.0"; st.Source > 0 && !reuse {
			// another archive was taken from this URL before
			_, reuse = validOther(base, version, otherBase)
		}
		before := x.outside(cache)
		cacheBefore := snapshotIf(cache)
		_ = os.Remove(log)
		results := x.runMany(work, append(env, "VLOG="+log), st, args)
		s.mu.Lock()
		requests := append([]string{}, s.requests...)
		s.mu.Unlock()
		fmt.Fprintf(&history, "--- step %d: damage %q, source %d, server %q, %d processes, killed at %q %d, limit %d; complete before: %v; requests %v\n", i, st.Damage, st.Source, st.Mode, st.Procs, st.Kill, st.KillAt, st.Limit, reuse, requests)
		for _, r := range results {
			fmt.Fprintf(&history, "%s\n", r)
		}
		show := func() string { return "\ncache " + cache + "\n" + history.String() }
		if st.Kill != "" {
			// what a killed process leaves in the temporary directory
			left, err := filepath.Glob(filepath.Join(x.Tmp, "*"))
			must(err)
			for _, p := range left {
				forceRemove(p)
			}
		}
		delete(before, log)
		after := x.outside(cache)
		delete(after, log)
		if d := diffSnap(before, after); d != "" {
			return bad("something outside of the cache changes: %s%s", d, show())
		}
		for p := range snapshotIf(cache) {
			if path.Base(p) == "escaped" {
				return bad("the archive writes %s outside of its release%s", p, show())
			}
		}
		if cmd == "files" {
			if d := diffSnap(cacheBefore, snapshotIf(cache)); d != "" || len(requests) > 0 {
				return bad("files touches the cache: %s%s", d, show())
			}
			continue
		}
		x.Label("damage %q", st.Damage)
		x.Label("server %q source %d", st.Mode, st.Source)
		if st.Limit > 0 {
			x.Label("file size limit")
		}
		why, ok := validRelease(base, version)
		if !ok && st.Source > 0 {
			if _, other := validOther(base, version, "3.99.0"); other {
				ok = true
			}
		}
		for k, r := range results {
			killed := k == 0 && st.Kill != "" && r.Code == 137
			if killed {
				x.Label("killed at %s", st.Kill)
				x.NonTrivial()
				continue
			}
			if k == 0 && (st.Limit > 0 || st.Kill != "") { // the fault may hit protoc
				if r.Code == 0 && !ok {
					return bad("exit code 0 without a complete release (%s)%s", why, show())
				}
				continue
			}
			switch {
			case reuse && st.Kill == "" && st.Limit == 0:
				if r.Code != 0 {
					return bad("the complete cache is not used%s", show())
				}
			case !badMode:
				if r.Code != 0 {
					return bad("a run that can download fails%s", show())
				}
				x.NonTrivial()
			case !reuse && st.Mode != "escape":
				if r.Code == 0 {
					return bad("a failed download and exit code 0%s", show())
				}
				x.NonTrivial()
			}
			if r.Code == 0 && !ok {
				return bad("exit code 0 without a complete release (%s)%s", why, show())
			}
		}
		if reuse {
			if len(requests) > 0 {
				return bad("a complete cache and %d requests%s", len(requests), show())
			}
			if d := diffSnap(cacheBefore, snapshotIf(cache)); d != "" && st.Damage != "lock" {
				return bad("a complete cache changes: %s%s", d, show())
			}
			x.Label("reused")
		} else if st.Source < 2 && !badMode && st.Kill == "" && st.Limit == 0 {
			if len(requests) != 1 {
				return bad("%d downloads%s", len(requests), show())
			}
			x.Label("downloaded by one of %d", st.Procs)
		}
		for _, q := range requests {
			if st.Source == 0 && st.Mode != "refuse" && q != releasePath(version) {
				return bad("the release is requested at %s, want %s%s", q, releasePath(version), show())
			}
		}
		if results[0].Code == 0 && (cmd == "compile" || cmd == "lint") {
			if b, err := os.ReadFile(log); err != nil || !strings.Contains("3.99.0\n"+version+"\n", strings.SplitAfter(string(b), "\n")[0]) {
				return bad("another protoc is run: %q%s", b, show())
			}
		}
	}
	x.Label("place %d", c.Place)
	return nil
}

// validOther is a complete release whose protoc is the one of another version.
func validOther(base, version, other string) (string, bool) {
	for _, p := range sortedKeys(release(version)) {
		b, err := os.ReadFile(filepath.Join(base, p))
		want := release(version)[p]
		if p == "bin/protoc" {
			want = strings.ReplaceAll(releaseScript, "§", other)
		}
		if err != nil || string(b) != want {
			return p, false
		}
	}
	fi, err := os.Stat(filepath.Join(base, "bin/protoc"))
	return "", err == nil && fi.Mode()&0100 != 0
}

// snapshotIf is the content of the cache without the lock files.
func snapshotIf(dir string) map[string]string {
	if _, err := os.Stat(dir); err != nil {
		return map[string]string{}
	}
	out := snapshot(dir)
	for k := range out {
		if strings.HasSuffix(k, ".lock") {
			delete(out, k)
		}
	}
	return out
}

// damage brings the cache of one release into some state.
func (st *cacheStep) damage(base string) {
	protoc := filepath.Join(base, "bin/protoc")
	if fi, err := os.Stat(base); err == nil && !fi.IsDir() && st.Damage != "" {
		must(os.Remove(base))
	}
	put := func(content string, mode os.FileMode) {
		forceRemove(protoc)
		must(os.MkdirAll(filepath.Dir(protoc), 0755))
		must(os.WriteFile(protoc, []byte(content), mode))
		must(os.Chmod(protoc, mode))
	}
	version := releaseVersions[st.Version]
	switch st.Damage {
	case "nothing left":
		forceRemove(base)
	case "empty":
		forceRemove(base)
		must(os.MkdirAll(filepath.Join(base, "bin"), 0755))
	case "no protoc":
		forceRemove(protoc)
	case "empty protoc":
		put("", 0755)
	case "torn protoc":
		put("\x7fELF\x02\x01\x01\x00\x00", 0755)
	case "other protoc":
		if st.Source == 0 {
			others := []string{"3.10.0", version + "1", version + "-rc-1", version[:len(version)-1], version + ".0", "1" + version}
			put(strings.ReplaceAll(releaseScript, "§", others[st.Order%len(others)]), 0755)
		}
	case "not executable":
		put(release(version)["bin/protoc"], 0644)
	case "directory":
		forceRemove(protoc)
		must(os.MkdirAll(filepath.Join(protoc, "x"), 0755))
	case "failing protoc":
		put("#!/bin/sh\nexit 1\n", 0755)
	case "file":
		forceRemove(base)
		must(os.MkdirAll(filepath.Dir(base), 0755))
		must(os.WriteFile(base, []byte("x"), 0644))
	case "lock":
		must(os.MkdirAll(filepath.Dir(base), 0755))
		must(os.WriteFile(base+".lock", nil, 0644))
	case "junk":
		must(os.MkdirAll(filepath.Dir(base), 0755))
		for _, n := range []string{base + ".tmp", base + ".tmp123", base + "-old"} {
			must(os.MkdirAll(n+"/bin", 0755))
			must(os.WriteFile(n+"/bin/protoc", nil, 0755))
		}
	}
}

// runMany runs the command in several processes at once, the first one with a fault.
func (x *Ctx) runMany(dir string, env []string, st cacheStep, args []string) []*Result {
	results := make([]*Result, st.Procs)
	errs := make([]error, st.Procs)
	var wg sync.WaitGroup
	for i := 0; i < st.Procs; i++ {
		i := i
		name, full := x.Bin, args
		if i == 0 && st.Kill != "" {
			name = "/usr/bin/strace"
			full = append([]string{"-f", "-o", "/dev/null", "-e", "trace=" + st.Kill, "-e", fmt.Sprintf("inject=%s:signal=KILL:when=%d", st.Kill, st.KillAt), x.Bin}, args...)
		} else if i == 0 && st.Limit > 0 {
			name = "/bin/sh"
			full = append([]string{"-c", fmt.Sprintf("trap '' XFSZ; ulimit -f %d; exec \"$0\" \"$@\"", st.Limit), x.Bin}, args...)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.Command(name, full...)
			cmd.Dir, cmd.Env = dir, env
			cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
			var out, errOut bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &errOut
			if errs[i] = cmd.Start(); errs[i] != nil {
				return
			}
			timer := time.AfterFunc(hangTimeout, func() { _ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
			err := cmd.Wait()
			if !timer.Stop() {
				errs[i] = bad("prototool hangs (more than %v): %v", hangTimeout, args)
			}
			// the children of a killed process
			_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			r := &Result{Args: append([]string{"prototool"}, args...), Out: out.String(), Err: errOut.String()}
			if ee, ok := err.(*exec.ExitError); ok {
				r.Code = ee.ExitCode()
				if ws := ee.Sys().(syscall.WaitStatus); ws.Signaled() {
					r.Code = 128 + int(ws.Signal())
				}
			} else if err != nil && errs[i] == nil {
				errs[i] = err
			}
			results[i] = r
		}()
	}
	wg.Wait()
	for _, err := range errs {
		if v, ok := err.(*violation); ok {
			hangTimeout = 40 * time.Second
			panic(v)
		}
		must(err)
	}
	for i, r := range results {
		if r.Code == 2 && strings.Contains(r.Err, "goroutine ") {
			x.crash = r
		}
		if i == 0 && st.Kill != "" && strings.Contains(r.Err, "strace:") {
			// tracing is not permitted here: only the outcome is known
			r.Code = 137
		}
	}
	return results
}

// ---- cache delete

type deleteCase struct {
	Xdg, Home int
	Env       int // PROTOTOOL_CACHE_PATH
	Protoc    int // PROTOTOOL_PROTOC_*
	Config    int
	Content   int
	Args      int
	Again     bool
	Version   int
}

var deleteConfigs = []map[string]string{
	nil,
	{"prototool.yaml": "protoc:\n  version: 3.8.0\n"},
	{"prototool.yaml": "nonsense: 1\n"},
	{"prototool.yaml": "{", "prototool.json": "{}"},
	{"../prototool.yaml": "protoc:\n  includes: 1\n"},
}

var deleteArgs = [][]string{{}, {"--debug"}, {"--cache-path", "§"}, {"w"}, {"--protoc-url", "http://127.0.0.1:1/x"}, {"--config-data", "{}"}}

func genDelete(t *rapid.T) *deleteCase {
	c := &deleteCase{
		Xdg: uniform(t, 7, "xdg"), Home: bits(t, 2, "home"), Env: bits(t, 1, "cache path") * uniform(t, 5, "custom"), Protoc: bits(t, 2, "protoc"),
		Config: bits(t, 1, "config") * uniform(t, len(deleteConfigs), "which"), Content: uniform(t, 5, "content"),
		Again: bits(t, 1, "again") == 1, Version: uniform(t, len(releaseVersions), "version"),
	}
	if bits(t, 2, "odd") == 3 {
		c.Args = uniform(t, len(deleteArgs), "arguments")
	}
	return c
}

func runDelete(x *Ctx, c *deleteCase) error {
	s := x.server()
	work := filepath.Join(x.Dir, "w/x")
	must(os.MkdirAll(work, 0755))
	env := append(x.baseEnv(), "HTTPS_PROXY=http://"+s.addr, "SSL_CERT_FILE="+s.ca)
	home := x.Home
	homeSet := true
	switch c.Home {
	case 1:
		home = filepath.Join(x.Dir, "another home")
		env = append(env, "HOME="+home+"/")
	case 3:
		home, homeSet = "", false
		env = append(env, "HOME=")
	}
	cache := filepath.Join(home, ".cache/prototool")
	if !homeSet {
		cache = filepath.Join(work, cache)
	}
	usable := homeSet
	xdg := filepath.Join(x.Dir, "xdg")
	switch c.Xdg {
	case 1:
		env = append(env, "XDG_CACHE_HOME="+xdg)
		cache, usable = filepath.Join(xdg, "prototool"), true
	case 2:
		env = append(env, "XDG_CACHE_HOME="+xdg+"/q/../")
		cache, usable = filepath.Join(xdg, "prototool"), true
	case 3:
		env = append(env, "XDG_CACHE_HOME="+xdg+"/prototool")
		cache, usable = filepath.Join(xdg, "prototool/prototool"), true
	case 4:
		env = append(env, "XDG_CACHE_HOME=")
	case 5:
		env = append(env, "XDG_CACHE_HOME=xdg")
		cache, usable = filepath.Join(work, "xdg/prototool"), false
	}
	custom := ""
	switch c.Env {
	case 1:
		custom = filepath.Join(x.Dir, "managed")
	case 2:
		custom = filepath.Join(work, "managed")
	case 3:
		custom = filepath.Dir(cache)
	case 4:
		custom = cache + "2"
	}
	if custom != "" {
		if c.Env == 2 {
			env = append(env, "PROTOTOOL_CACHE_PATH=managed")
		} else {
			env = append(env, "PROTOTOOL_CACHE_PATH="+custom)
		}
	}
	var deleteEnv []string
	switch c.Protoc {
	case 1:
		deleteEnv = []string{"PROTOTOOL_PROTOC_BIN_PATH=/usr/bin/protoc", "PROTOTOOL_PROTOC_WKT_PATH=/usr/include"}
	case 2:
		deleteEnv = []string{"PROTOTOOL_PROTOC_BIN_PATH=/usr/bin/protoc"}
	case 3:
		deleteEnv = []string{"PROTOTOOL_PROTOC_WKT_PATH=/not/there"}
	}
	// the directories around
	version := releaseVersions[c.Version]
	for _, d := range []string{filepath.Join(x.Home, ".cache"), filepath.Join(x.Dir, "another home/.cache"), xdg, xdg + "/prototool", filepath.Join(work, "xdg"), filepath.Join(work, ".cache")} {
		for _, n := range []string{"prototool", "prototool2", "prototool.lock", "other"} {
			switch c.Content {
			case 0:
			case 1:
				writeFiles(filepath.Join(d, n), map[string]string{"Linux/x86_64/protobuf/" + version + "/bin/protoc": "x", "protobuf/y": "y", "z": ""})
			case 2:
				for p, content := range release(version) {
					writeFiles(filepath.Join(d, n, "Linux/x86_64/protobuf", version), map[string]string{p: content})
				}
				writeFiles(filepath.Join(d, n), map[string]string{"Linux/x86_64/protobuf/" + version + ".lock": ""})
			case 3:
				must(os.MkdirAll(d, 0755))
				must(os.WriteFile(filepath.Join(d, n), []byte("x"), 0644))
				if n == "prototool" && d == xdg {
					must(os.Remove(filepath.Join(d, n)))
				}
			case 4:
				// links to things that are not to be touched
				writeFiles(filepath.Join(x.Dir, "linked"), map[string]string{"keep": "1", "d/keep": "2"})
				writeFiles(filepath.Join(d, n), map[string]string{"protobuf/y": "y"})
				_ = os.Symlink(filepath.Join(x.Dir, "linked"), filepath.Join(d, n, "link"))
				_ = os.Symlink("../../..", filepath.Join(d, n, "protobuf/up"))
				if n == "prototool" && c.Again {
					_ = os.Symlink("keep", filepath.Join(d, n, "Linux"))
				}
			}
		}
	}
	if custom != "" {
		if c.Content == 3 && c.Env == 4 {
			forceRemove(custom)
		}
		writeFiles(custom, map[string]string{"protobuf/" + version + "/bin/protoc": "mine", "mine": "1"})
	}
	if deleteConfigs[c.Config] != nil {
		writeFiles(work, deleteConfigs[c.Config])
	}
	args := append([]string{"cache", "delete"}, deleteArgs[c.Args]...)
	for i := range args {
		args[i] = strings.ReplaceAll(args[i], "§", cache)
	}
	refused := c.Args > 1
	before := x.outside(cache)
	cacheBefore := snapshotAny(cache)
	var history strings.Builder
	for round := 0; round < 2; round++ {
		r := x.Exec(work, append(append([]string{}, env...), deleteEnv...), nil, x.Bin, args...)
		fmt.Fprintf(&history, "in %s, default cache %s, custom %q, %v\n%s", work, cache, custom, env, r)
		if d := diffSnap(before, x.outside(cache)); d != "" {
			return bad("something that is not the default cache changes: %s\n%s", d, history.String())
		}
		if refused || !usable {
			if r.Code == 0 && (refused || round == 0) {
				return bad("not refused\n%s", history.String())
			}
			if d := diffSnap(cacheBefore, snapshotAny(cache)); d != "" {
				return bad("refused and %s\n%s", d, history.String())
			}
			x.Label("refused: %v", deleteArgs[c.Args])
		} else {
			if r.Code != 0 {
				return bad("fails\n%s", history.String())
			}
			if _, err := os.Lstat(cache); err == nil {
				return bad("the default cache is still there\n%s", history.String())
			}
			x.Label("deleted content %d", c.Content)
		}
		if !c.Again {
			break
		}
	}
	if custom != "" || c.Protoc > 0 || c.Config > 0 {
		x.NonTrivial()
	}
	if refused || !usable || c.Env > 0 || c.Content == 3 {
		return nil
	}
	// a later command works again
	later := filepath.Join(x.Dir, "later")
	writeFiles(later, map[string]string{"prototool.yaml": "protoc:\n  version: " + version + "\n", "a.proto": "syntax = \"proto3\";\n\npackage a;\n"})
	s.mu.Lock()
	s.mode, s.order, s.delay, s.requests, s.evil = "", 0, 0, nil, nil
	s.mu.Unlock()
	r := x.Exec(later, env, nil, x.Bin, "compile")
	fmt.Fprintf(&history, "%s", r)
	why, ok := validRelease(filepath.Join(cache, "Linux/x86_64/protobuf", version), version)
	s.mu.Lock()
	n := len(s.requests)
	s.mu.Unlock()
	if r.Code != 0 || !ok || n != 1 {
		return bad("a later command does not download again: %d requests, %s\n%s", n, why, history.String())
	}
	x.Label("used again")
	return nil
}

// snapshotAny is the snapshot of a file or directory, if there is one.
func snapshotAny(p string) map[string]string {
	fi, err := os.Lstat(p)
	if err != nil {
		return map[string]string{}
	}
	if !fi.IsDir() {
		return map[string]string{"": fi.Mode().String()}
	}
	return snapshot(p)
}

func init() {
	prop("C22", "model", "cache delete under all settings of HOME, XDG_CACHE_HOME, PROTOTOOL_CACHE_PATH and PROTOTOOL_PROTOC_*, with and without usable configurations and with different contents of the cache and its neighbours; non-trivial: a custom cache or protoc or a configuration is set",
		newPart("cache delete", 800, 20000, genDelete, runDelete))
	prop("C21", "model", "histories of 2-5 runs over damaged, absent and interrupted caches in six places, with three sources, failing servers, processes killed at a system call, full disks and concurrent processes; non-trivial: a download, a failed download or a killed process",
		newPart("histories", 320, 6000, genCache, runCache))
}
