package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Exit codes: 0 held, 1 violation, 3 error of the machinery.

const unprivileged = 65534

func main() {
	// This binary also serves as the recording protoc plugin and other stand-ins.
	if name := filepath.Base(os.Args[0]); strings.HasPrefix(name, "protoc-gen-") {
		pluginMain()
		return
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness check|worker|replay ...")
		os.Exit(3)
	}
	mode := os.Args[1]
	if f, ok := auxModes[mode]; ok {
		f(os.Args[2:])
		return
	}
	testing.Init()
	var (
		propID  = flag.String("prop", "", "")
		tier    = flag.String("tier", "quick", "")
		seed    = flag.Uint64("seed", 1, "")
		bin     = flag.String("bin", "", "prototool binary")
		scratch = flag.String("scratch", "", "")
		verif   = flag.String("verif", "/verif", "")
		worker  = flag.Int("worker", 0, "")
		workers = flag.Int("workers", 8, "")
		scale   = flag.Float64("scale", 1, "multiply the number of cases")
		only    = flag.String("part", "", "only this part")
		file    = flag.String("file", "", "replay file")
	)
	os.Args = append(os.Args[:1], os.Args[2:]...)
	flag.Parse()
	switch mode {
	case "check":
		os.Exit(checkMain(*propID, *tier, *seed, *bin, *scratch, *verif, *workers, *scale, *only))
	case "worker":
		os.Exit(workerMain(*propID, *tier, *seed, *bin, *scratch, *verif, *worker, *workers, *scale, *only))
	case "replay":
		os.Exit(replayMain(*propID, *bin, *scratch, *verif, *file))
	case "list":
		var ids []string
		for id := range properties {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			for _, p := range properties[id].parts {
				fmt.Println(id, p.name, p.quick, p.thorough)
			}
		}
	default:
		fmt.Fprintln(os.Stderr, "unknown mode", mode)
		os.Exit(3)
	}
}

var auxModes = map[string]func([]string){}

// workerReport is what a worker writes for the parent.
type workerReport struct {
	Evaluations int                        `json:"evaluations"`
	NonTrivial  []string                   `json:"nontrivial"` // hashes
	Labels      map[string]int             `json:"labels"`
	Samples     []json.RawMessage          `json:"samples"`
	PartEvals   map[string]int             `json:"part_evals"`
	Known       map[string]int             `json:"known"`
	Violation   *savedCase                 `json:"violation,omitempty"`
	Infra       string                     `json:"infra,omitempty"`
	SampleParts map[string]json.RawMessage `json:"-"`
}

type recordTB struct {
	failed bool
	log    []string
}

type tbFail struct{}

func (r *recordTB) Helper()      {}
func (r *recordTB) Name() string { return "prop" }
func (r *recordTB) Logf(format string, args ...interface{}) {
	r.log = append(r.log, fmt.Sprintf(format, args...))
}
func (r *recordTB) Log(args ...interface{})                  { r.log = append(r.log, fmt.Sprint(args...)) }
func (r *recordTB) Skipf(format string, args ...interface{}) { panic(tbFail{}) }
func (r *recordTB) Skip(args ...interface{})                 { panic(tbFail{}) }
func (r *recordTB) SkipNow()                                 { panic(tbFail{}) }
func (r *recordTB) Errorf(format string, args ...interface{}) {
	r.failed = true
	r.Logf(format, args...)
}
func (r *recordTB) Error(args ...interface{}) { r.failed = true; r.Log(args...) }
func (r *recordTB) Fatalf(format string, args ...interface{}) {
	r.failed = true
	r.Logf(format, args...)
	panic(tbFail{})
}
func (r *recordTB) Fatal(args ...interface{}) { r.failed = true; r.Log(args...); panic(tbFail{}) }
func (r *recordTB) FailNow()                  { r.failed = true; panic(tbFail{}) }
func (r *recordTB) Fail()                     { r.failed = true }
func (r *recordTB) Failed() bool              { return r.failed }

func knownKeys(verif, id string) map[string]string {
	out := map[string]string{}
	b, err := ioutil.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(l, " ", 4)
		if len(f) == 4 && f[0] == "known:" && f[1] == "property="+id && strings.HasPrefix(f[2], "key=") {
			out[strings.TrimPrefix(f[2], "key=")] = f[3]
		}
	}
	return out
}

func newCtx(bin, scratch, tier string) *Ctx {
	return &Ctx{Bin: bin, Root: scratch, Aux: filepath.Join(filepath.Dir(bin), "aux"),
		Dir: filepath.Join(scratch, "case"), Home: filepath.Join(scratch, "home"), Tmp: filepath.Join(scratch, "tmp"), Tier: tier}
}

func workerMain(id, tier string, seed uint64, bin, scratch, verif string, worker, workers int, scale float64, only string) int {
	debug.SetGCPercent(200)
	p := properties[id]
	rep := &workerReport{Labels: map[string]int{}, PartEvals: map[string]int{}, Known: map[string]int{}}
	known := knownKeys(verif, id)
	corpus := loadCorpus(verif, id, worker, workers)
	// From here on nothing real can be reached: unprivileged, scratch only.
	if os.Geteuid() == 0 {
		if err := dropPrivileges(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
	}
	syscall.Umask(022)
	x := newCtx(bin, scratch, tier)
	seen := map[string]bool{}
	code := func() (code int) {
		defer func() {
			if r := recover(); r != nil {
				if ie, ok := r.(infraError); ok {
					rep.Infra = ie.Error()
				} else {
					rep.Infra = fmt.Sprintf("%v\n%s", r, debug.Stack())
				}
				code = 3
			}
		}()
		eval := func(pt *part, c interface{}, raw []byte) error {
			err := runCase(x, pt, c)
			rep.Evaluations++
			rep.PartEvals[pt.name]++
			for l := range x.labels {
				rep.Labels[pt.name+": "+l]++
			}
			h := hashCase(pt.name, raw)
			if x.nontr && !seen[h] {
				seen[h] = true
				if len(rep.Samples) < 3 && len(raw) < 6000 && rep.PartEvals["sample:"+pt.name] == 0 {
					rep.PartEvals["sample:"+pt.name] = 1
					rep.Samples = append(rep.Samples, json.RawMessage(fmt.Sprintf(`{"part":%q,"case":%s}`, pt.name, raw)))
				}
			}
			if v, ok := err.(*violation); ok && v.key != "" {
				if _, isKnown := known[v.key]; isKnown {
					rep.Known[v.key]++
					return nil
				}
			}
			return err
		}
		save := func(pt *part, raw []byte, err error) {
			sc := &savedCase{Property: id, Part: pt.name, Message: err.Error(), Case: raw}
			if v, ok := err.(*violation); ok {
				sc.Key = v.key
			}
			rep.Violation = sc
		}
		// committed regression cases first
		for _, sc := range corpus {
			for _, pt := range p.parts {
				if pt.name != sc.Part || only != "" && only != pt.name {
					continue
				}
				c, err := pt.decode(sc.Case)
				must(err)
				if err := eval(pt, c, sc.Case); err != nil {
					save(pt, sc.Case, err)
					return 1
				}
				rep.Labels[pt.name+": regression corpus"]++
			}
		}
		for pi, pt := range p.parts {
			if only != "" && only != pt.name {
				continue
			}
			n := pt.quick
			if tier == "thorough" {
				n = pt.thorough
			}
			n = int(float64(n) * scale)
			// share of this worker
			mine := n / workers
			if worker < n%workers {
				mine++
			}
			if mine == 0 {
				continue
			}
			sub := seed*1000003 + uint64(pi)*10007 + uint64(worker)*101 + 7
			setFlag("rapid.checks", strconv.Itoa(mine))
			setFlag("rapid.seed", strconv.FormatUint(sub, 10))
			setFlag("rapid.nofailfile", "true")
			setFlag("rapid.shrinktime", shrinkTime(tier))
			tb := &recordTB{}
			failing := false
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(tbFail); !ok {
							panic(r)
						}
					}
				}()
				var pending interface{} // an infra error must stop rapid, not shrink
				rapid.Check(tb, func(t *rapid.T) {
					if pending != nil {
						return
					}
					var c interface{}
					c = pt.gen(t)
					raw, err := json.Marshal(c)
					if err != nil {
						pending = infraError{err}
						return
					}
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(infraError); ok {
								rep.Infra = fmt.Sprint(r)
								pending = r
								return
							}
							panic(r)
						}
					}()
					// round trip, so that the replay sees exactly this case
					c, err = pt.decode(raw)
					must(err)
					if verr := evalSafe(eval, pt, c, raw); verr != nil {
						failing = true
						save(pt, raw, verr)
						t.Fatalf("violation")
					}
				})
				if pending != nil {
					panic(pending)
				}
			}()
			if rep.Infra != "" {
				return 3
			}
			if failing {
				return 1
			}
			if tb.failed {
				rep.Infra = "rapid: " + strings.Join(tb.log, "\n")
				return 3
			}
		}
		return 0
	}()
	for h := range seen {
		rep.NonTrivial = append(rep.NonTrivial, h)
	}
	for k := range rep.PartEvals {
		if strings.HasPrefix(k, "sample:") {
			delete(rep.PartEvals, k)
		}
	}
	b, err := json.Marshal(rep)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	if err := ioutil.WriteFile(filepath.Join(scratch, "report.json"), b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	return code
}

// evalSafe turns a bug of the oracle (a panic) into an error of the machinery.
func evalSafe(eval func(*part, interface{}, []byte) error, pt *part, c interface{}, raw []byte) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if ie, ok := r.(infraError); ok {
				panic(ie)
			}
			panic(infraError{fmt.Errorf("oracle panicked: %v\n%s\ncase: %s", r, debug.Stack(), clip(string(raw)))})
		}
	}()
	return eval(pt, c, raw)
}

func shrinkTime(tier string) string {
	if s := os.Getenv("VERIF_SHRINK"); s != "" {
		return s
	}
	if tier == "thorough" {
		return "90s"
	}
	return "25s"
}

func setFlag(k, v string) {
	if err := flag.Set(k, v); err != nil {
		panic(infraError{err})
	}
}

func dropPrivileges() error {
	if err := syscall.Setgroups(nil); err != nil {
		_ = err // not permitted in some containers; harmless
	}
	if err := syscall.Setgid(unprivileged); err != nil {
		return fmt.Errorf("setgid: %v", err)
	}
	if err := syscall.Setuid(unprivileged); err != nil {
		return fmt.Errorf("setuid: %v", err)
	}
	return nil
}

func loadCorpus(verif, id string, worker, workers int) []*savedCase {
	files, _ := filepath.Glob(filepath.Join(verif, "corpus", id, "*.json"))
	sort.Strings(files)
	var out []*savedCase
	for i, f := range files {
		if i%workers != worker {
			continue
		}
		b, err := ioutil.ReadFile(f)
		must(err)
		sc := &savedCase{}
		if err := json.Unmarshal(b, sc); err != nil {
			infra("%s: %v", f, err)
		}
		out = append(out, sc)
	}
	return out
}

func checkMain(id, tier string, seed uint64, bin, scratch, verif string, workers int, scale float64, only string) int {
	start := time.Now()
	p := properties[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", id)
		return 3
	}
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	reports := make([]*workerReport, workers)
	codes := make([]int, workers)
	cmds := make([]*exec.Cmd, workers)
	var mu sync.Mutex
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		dir := filepath.Join(scratch, fmt.Sprintf("w%02d", w))
		if err := os.MkdirAll(dir, 0755); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		if os.Geteuid() == 0 {
			if err := os.Chown(dir, unprivileged, unprivileged); err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 3
			}
		}
		cmd := exec.Command(self, "worker", "-prop", id, "-tier", tier, "-seed", fmt.Sprint(seed), "-bin", bin,
			"-scratch", dir, "-verif", verif, "-worker", fmt.Sprint(w), "-workers", fmt.Sprint(workers),
			"-scale", fmt.Sprint(scale), "-part", only)
		cmd.Stdout = os.Stderr
		cmd.Stderr = os.Stderr
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		cmds[w] = cmd
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
	}
	for w := 0; w < workers; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			err := cmds[w].Wait()
			code := 0
			if err != nil {
				code = 3
				if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() > 0 {
					code = ee.ExitCode()
				}
			}
			rep := &workerReport{}
			b, rerr := ioutil.ReadFile(filepath.Join(scratch, fmt.Sprintf("w%02d", w), "report.json"))
			if rerr == nil {
				rerr = json.Unmarshal(b, rep)
			}
			if rerr != nil {
				rep.Infra = rerr.Error()
				code = 3
			}
			mu.Lock()
			defer mu.Unlock()
			if cmds[w].ProcessState != nil && cmds[w].ProcessState.Success() == false && code == 3 && rep.Infra == "" {
				rep.Infra = "worker died"
			}
			reports[w], codes[w] = rep, code
			if code == 1 {
				// one violation is enough: stop the others
				for o := range cmds {
					if o != w && cmds[o].Process != nil && codes[o] == 0 && reports[o] == nil {
						_ = syscall.Kill(-cmds[o].Process.Pid, syscall.SIGTERM)
						codes[o] = -1
					}
				}
			}
		}()
	}
	wg.Wait()

	evals, labels, parts, known := 0, map[string]int{}, map[string]int{}, map[string]int{}
	distinct := map[string]bool{}
	var samples []json.RawMessage
	var viol *savedCase
	infraMsg := ""
	for w, r := range reports {
		if r == nil {
			continue
		}
		evals += r.Evaluations
		for k, v := range r.Labels {
			labels[k] += v
		}
		for k, v := range r.PartEvals {
			parts[k] += v
		}
		for k, v := range r.Known {
			known[k] += v
		}
		for _, h := range r.NonTrivial {
			distinct[h] = true
		}
		for _, s := range r.Samples {
			if len(samples) < 4 {
				samples = append(samples, s)
			}
		}
		if r.Violation != nil && (viol == nil || len(r.Violation.Case) < len(viol.Case)) {
			viol = r.Violation
		}
		if codes[w] == 3 && r.Infra != "" {
			infraMsg = fmt.Sprintf("worker %d: %s", w, r.Infra)
		}
	}
	for _, k := range sortedKeys(knownKeys(verif, id)) {
		fmt.Printf("KNOWN-FINDING: property=%s %s (seen %d times in this run)\n", id, knownKeys(verif, id)[k], known[k])
	}
	nviol := 0
	if viol != nil {
		nviol = 1
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": p.level,
		"coverage": map[string]interface{}{
			"evaluations": evals, "distinct_nontrivial": len(distinct), "rule": p.rule,
			"samples": samples, "classes": labels, "evaluations_per_part": parts, "workers": workers,
		},
		"assumptions": []string{
			"/usr/bin/protoc is the reference compiler; prototool is driven as a black box through its command line",
			"generated inputs stay inside the bounds described in DESIGN.md",
		},
		"wall_s":     time.Since(start).Seconds(),
		"violations": nviol,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
		err = ioutil.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	fmt.Printf("property %s tier %s seed %d: %d evaluations, %d distinct non-trivial, %.1fs\n", id, tier, seed, evals, len(distinct), time.Since(start).Seconds())
	for _, k := range sortedKeys(labels) {
		fmt.Printf("  class %-60s %d\n", k, labels[k])
	}
	if viol != nil {
		dir := filepath.Join(verif, "replays", id)
		_ = os.MkdirAll(dir, 0755)
		path := filepath.Join(dir, hashCase(viol.Part, viol.Case)+".json")
		b, _ := json.MarshalIndent(viol, "", " ")
		if err := ioutil.WriteFile(path, append(b, '\n'), 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		fmt.Printf("part %s: %s\n", viol.Part, viol.Message)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return 1
	}
	if infraMsg != "" {
		fmt.Fprintln(os.Stderr, "error of the machinery:", infraMsg)
		return 3
	}
	if evals == 0 {
		fmt.Fprintln(os.Stderr, "nothing was evaluated")
		return 3
	}
	return 0
}

func replayMain(id, bin, scratch, verif, file string) (code int) {
	b, err := ioutil.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	sc := &savedCase{}
	if err := json.Unmarshal(b, sc); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer func() {
		if r := recover(); r != nil {
			fmt.Fprintln(os.Stderr, r)
			code = 3
		}
	}()
	p := properties[sc.Property]
	dir := filepath.Join(scratch, "w00")
	must(os.MkdirAll(dir, 0755))
	if os.Geteuid() == 0 {
		must(os.Chown(dir, unprivileged, unprivileged))
		must(dropPrivileges())
	}
	syscall.Umask(022)
	x := newCtx(bin, dir, "quick")
	for _, pt := range p.parts {
		if pt.name != sc.Part {
			continue
		}
		c, err := pt.decode(sc.Case)
		must(err)
		if err := runCase(x, pt, c); err != nil {
			fmt.Println(err)
			fmt.Printf("VIOLATION property=%s replay=%s\n", sc.Property, file)
			return 1
		}
		fmt.Println("held")
		return 0
	}
	fmt.Fprintln(os.Stderr, "no part", sc.Part)
	return 3
}
