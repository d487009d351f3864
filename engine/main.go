package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"golang.org/x/tools/go/ssa"
)

// harness is one symbolic test, declared by a //verif:harness comment.
type harness struct {
	fn    string
	pkg   string // import path
	dir   string
	file  string
	props []string
	opt   map[string]string
}

func (h *harness) id() string { return filepath.Base(h.dir) + "." + h.fn }

func (h *harness) has(p string) bool {
	for _, x := range h.props {
		if x == p {
			return true
		}
	}
	return false
}

type registry struct {
	hs      []*harness
	overlay map[string]string
}

func parseOpts(s string) map[string]string {
	m := map[string]string{}
	for {
		s = strings.TrimSpace(s)
		if s == "" {
			return m
		}
		i := strings.IndexAny(s, "= ")
		if i < 0 {
			m[s] = "1"
			return m
		}
		if s[i] == ' ' {
			m[s[:i]] = "1"
			s = s[i:]
			continue
		}
		k := s[:i]
		s = s[i+1:]
		if strings.HasPrefix(s, `"`) {
			j := strings.Index(s[1:], `"`)
			if j < 0 {
				j = len(s) - 1
			}
			m[k] = s[1 : 1+j]
			s = s[min(len(s), j+2):]
			continue
		}
		j := strings.Index(s, " ")
		if j < 0 {
			j = len(s)
		}
		m[k] = s[:j]
		s = s[j:]
	}
}

func scan(verif, repo string) (*registry, error) {
	reg := &registry{overlay: map[string]string{}}
	root := filepath.Join(verif, "harness")
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		parts := strings.Split(rel, string(filepath.Separator))
		var dst, pkg string
		switch {
		case parts[0] == "sym":
			dst = filepath.Join(repo, "zzverif", rel)
			pkg = repoModule + "/zzverif/sym"
		case parts[0] == "h" && len(parts) == 3:
			dst = filepath.Join(repo, "zzverif", parts[1], parts[2])
			pkg = repoModule + "/zzverif/" + parts[1]
		case parts[0] == "in" && len(parts) == 3:
			dst = filepath.Join(repo, parts[1], "zzverif_"+parts[2])
			pkg = repoModule + "/" + parts[1]
		default:
			return nil
		}
		reg.overlay[dst] = p
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		lines := strings.Split(string(b), "\n")
		for i, l := range lines {
			if !strings.HasPrefix(l, "//verif:harness ") {
				continue
			}
			h := &harness{pkg: pkg, dir: filepath.Dir(p), file: dst, opt: parseOpts(strings.TrimPrefix(l, "//verif:harness "))}
			h.props = strings.Split(h.opt["prop"], ",")
			for j := i + 1; j < len(lines); j++ {
				if strings.HasPrefix(lines[j], "func ") {
					n := strings.TrimPrefix(lines[j], "func ")
					h.fn = strings.TrimSpace(n[:strings.Index(n, "(")])
					break
				}
			}
			if h.fn == "" {
				return fmt.Errorf("%s: directive without function", p)
			}
			reg.hs = append(reg.hs, h)
		}
		return nil
	})
	sort.Slice(reg.hs, func(i, j int) bool { return reg.hs[i].id() < reg.hs[j].id() })
	return reg, err
}

// stdOverlay puts the tls model into crypto/tls (the methods of Conn that
// move bytes go to the model while it is switched on) and the harnesses'
// network into net.
func stdOverlay(verif, tmp string, overlay map[string]string) error {
	cmd := exec.Command("go", "env", "GOROOT")
	cmd.Env = goEnv()
	out, err := cmd.Output()
	if err != nil {
		return err
	}
	root := filepath.Join(strings.TrimSpace(string(out)), "src")
	patch := func(pkg, file string, subs [][2]string) error {
		stub := filepath.Join(verif, "harness", "std", pkg, "stub.go")
		dir := filepath.Join(root, pkg)
		b, err := os.ReadFile(filepath.Join(dir, file))
		if err != nil {
			return err
		}
		s := string(b)
		for _, m := range subs {
			if !strings.Contains(s, m[0]) {
				return fmt.Errorf("%s has no %s", pkg, m[0])
			}
			s = strings.Replace(s, m[0], m[0]+"\n\t"+m[1]+"\n", 1)
		}
		f := filepath.Join(tmp, strings.ReplaceAll(pkg, "/", "_")+"_"+file)
		if err := os.WriteFile(f, []byte(s), 0o644); err != nil {
			return err
		}
		overlay[filepath.Join(dir, file)] = f
		overlay[filepath.Join(dir, "zz_stub.go")] = stub
		return nil
	}
	if err := patch("crypto/tls", "conn.go", [][2]string{
		{"type Conn struct {", "zz zzState"},
		{"func (c *Conn) Read(b []byte) (int, error) {", "if ZZPlan != nil {\n\t\treturn c.zzRead(b)\n\t}"},
		{"func (c *Conn) Write(b []byte) (int, error) {", "if ZZPlan != nil {\n\t\treturn c.zzWrite(b)\n\t}"},
		{"func (c *Conn) Close() error {", "if ZZPlan != nil {\n\t\treturn c.zzClose()\n\t}"},
		{"func (c *Conn) Handshake() error {", "if ZZPlan != nil {\n\t\treturn c.zzHandshake()\n\t}"},
		{"func (c *Conn) HandshakeContext(ctx context.Context) error {", "if ZZPlan != nil {\n\t\treturn c.zzHandshake()\n\t}"},
	}); err != nil {
		return err
	}
	return patch("net", "dial.go", [][2]string{
		{"func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {", "if ZZDial != nil {\n\t\treturn ZZDial(network, address)\n\t}"},
		{"func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {", "if ZZListen != nil {\n\t\treturn ZZListen(network, address)\n\t}"},
	})
}

type knownFinding struct {
	prop, harness, msg, what string
}

func readKnown(path string) []knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		body := strings.TrimPrefix(l, "known:")
		what := ""
		if i := strings.Index(body, "::"); i >= 0 {
			what = strings.TrimSpace(body[i+2:])
			body = body[:i]
		}
		o := parseOpts(body)
		out = append(out, knownFinding{o["property"], o["harness"], o["msg"], what})
	}
	return out
}

type hres struct {
	h       *harness
	job     *Job
	wall    float64
	skipped string
	stats   map[string]any
	reports []string
}

type app struct {
	verif, repo, tmp string
	tier             string
	reg              *registry
	ovFile           string
	eng              *Engine
	natMu            sync.Mutex
	natBin           map[string]string // harness id -> binary
	natErr           map[string]string
}

func main() {
	var prop, tier, only, replay, verif, repo string
	var trace, list, verbose bool
	var budget, workers int
	flag.StringVar(&prop, "prop", "", "property id")
	flag.StringVar(&tier, "tier", "quick", "quick or thorough")
	flag.StringVar(&only, "h", "", "only harnesses whose id contains this")
	flag.StringVar(&replay, "replay", "", "replay a counterexample file natively")
	flag.StringVar(&verif, "verif", "/verif", "")
	flag.StringVar(&repo, "repo", "/repo", "")
	flag.BoolVar(&trace, "trace", false, "")
	flag.BoolVar(&list, "list", false, "list harnesses")
	flag.BoolVar(&verbose, "v", false, "")
	flag.IntVar(&budget, "budget", 0, "override seconds per harness")
	flag.IntVar(&workers, "workers", 0, "")
	order := flag.String("order", "", "run the harnesses this file lists, in that order, up to the first violation, and do not confirm it")
	selftest := flag.Bool("selftest", false, "check the term simplifier against its evaluator")
	flag.Parse()
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	if *selftest {
		os.Exit(runSelfTest())
	}
	start := time.Now()
	reg, err := scan(verif, repo)
	if err != nil {
		fatal("scan: %v", err)
	}
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fatal("%v", err)
	}
	code := 2
	defer func() { os.RemoveAll(tmp); os.Exit(code) }()
	a := &app{verif: verif, repo: repo, tmp: tmp, tier: tier, reg: reg, natBin: map[string]string{}, natErr: map[string]string{}}
	if err := stdOverlay(verif, tmp, reg.overlay); err != nil {
		fatal("std overlay: %v", err)
	}
	a.ovFile = filepath.Join(tmp, "overlay.json")
	if err := writeOverlay(a.ovFile, reg.overlay); err != nil {
		fatal("%v", err)
	}
	if replay != "" {
		code = a.replayFile(replay)
		return
	}
	var hs []*harness
	for _, h := range reg.hs {
		if prop != "" && !h.has(prop) {
			continue
		}
		if only != "" && !strings.Contains(h.id(), only) {
			continue
		}
		if t := h.opt["tier"]; t != "" && t != "both" && t != tier {
			continue
		}
		hs = append(hs, h)
		if list {
			fmt.Println(h.id(), h.opt)
		}
	}
	if list {
		code = 0
		return
	}
	if len(hs) == 0 {
		fmt.Println("no harness")
		return
	}
	if *order != "" {
		b, _ := os.ReadFile(*order)
		var o []*harness
		for _, id := range strings.Fields(string(b)) {
			for _, h := range hs {
				if h.id() == id {
					o = append(o, h)
				}
			}
		}
		hs = o
	}
	roots := map[string]bool{}
	for _, h := range hs {
		roots[h.pkg] = true
	}
	prog, err := Load(repo, a.ovFile, reg.overlay, sortedKeys(roots))
	if err != nil {
		fmt.Println("SKIPPED: cannot load the code:", err)
		return
	}
	loadS := time.Since(start).Seconds()
	a.eng = &Engine{prog: prog, trace: trace}
	a.eng.tier = tier
	a.eng.setup()
	known := readKnown(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	var results []*hres
	violations := 0
	knownHit := map[string]bool{}
	validated, mismatches := 0, 0
	var alerts []string
	nviol := 0
	for _, h := range hs {
		res := &hres{h: h}
		results = append(results, res)
		if e, bad := prog.errs[h.pkg]; bad {
			res.skipped = e
			fmt.Printf("SKIPPED %s: %s\n", h.id(), e)
			continue
		}
		fn := prog.pkgs[h.pkg].Func(h.fn)
		if fn == nil {
			res.skipped = "no function"
			fmt.Printf("SKIPPED %s: no function\n", h.id())
			continue
		}
		b := a.budgetOf(h)
		if budget > 0 {
			b = time.Duration(budget) * time.Second
		}
		if end := start.Add(a.limit()); time.Now().Add(b).After(end) {
			b = time.Until(end) // an answer in time
			if b < 10*time.Second {
				b = 10 * time.Second
			}
		}
		t0 := time.Now()
		s0 := a.eng.stats.snapshot()
		isKnown := func(v *Violation) *knownFinding {
			for i := range known {
				k := &known[i]
				if h.has(k.prop) && strings.Contains(h.id(), k.harness) && strings.Contains(v.Msg, k.msg) {
					return k
				}
			}
			return nil
		}
		job := &Job{eng: a.eng, fn: fn, name: h.id(), deadline: time.Now().Add(b), maxViol: 2, workers: workers}
		job.knownFn = func(v *Violation) bool { return isKnown(v) != nil }
		if s := h.opt["maxsteps"]; s != "" {
			job.maxSteps, _ = strconv.ParseInt(s, 10, 64)
		}
		res.job = job
		job.Explore()
		res.wall = time.Since(t0).Seconds()
		res.stats = a.eng.stats.diff(s0)
		fmt.Printf("%-40s paths=%d completed=%d infeasible=%d branches=%d asserts=%d queries=%v solver=%.1fs wall=%.1fs%s\n",
			h.id(), job.Paths, job.Completed, job.Infeasible, job.Branches, job.Asserts, res.stats["queries"], res.stats["solver_s"], res.wall, job.problems())
		if *order != "" {
			if len(job.Violations) > 0 && !isKnownAll(job, isKnown) {
				v := job.Violations[0]
				fmt.Printf("KILLED by %s %v: [%s] %s\n", h.id(), h.props, v.Kind, v.Msg)
				code = 1
				return
			}
			runtime.GC()
			continue
		}
		for _, e := range job.Errors {
			if i := strings.Index(e, "goroutine "); i > 0 && !verbose {
				k := strings.Index(e, "panic({")
				tail := ""
				if k > 0 {
					tail = e[k:]
				}
				e = e[:i] + tail[:min(len(tail), 900)]
			}
			fmt.Println("ENGINE-ERROR", h.id(), e)
		}
		for _, v := range job.Violations {
			if k := isKnown(v); k != nil {
				if !knownHit[k.what] {
					knownHit[k.what] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", k.prop, k.what)
				}
				continue
			}
			ok, how := a.confirm(h, fn, v, prop)
			path := a.writeReplay(h, v, prop, nviol)
			nviol++
			fmt.Printf("  counterexample %s: [%s] %s at %s\n    inputs %v\n    confirmation: %s\n", path, v.Kind, v.Msg, v.Where, short(v.Inputs), how)
			if verbose {
				fmt.Printf("    choices %v notes %v\n", v.Choices, v.Notes)
			}
			if ok {
				violations++
				p := prop
				if p == "" {
					p = h.props[0]
				}
				fmt.Printf("VIOLATION property=%s replay=%s\n", p, path)
			} else {
				mismatches++
				res.reports = append(res.reports, "counterexample not reproduced: "+v.Msg)
				fmt.Printf("INCONCLUSIVE property=%s the counterexample did not reproduce\n", prop)
			}
		}
		if len(job.Violations) == 0 && h.opt["native"] != "no" {
			for i, in := range job.Samples {
				if i >= 4 {
					break
				}
				c, out := a.native(h, &Violation{Inputs: in})
				if c == 0 {
					validated++
				} else if c == -1 {
					break
				} else {
					mismatches++
					alerts = append(alerts, fmt.Sprintf("sample of %s ended natively with %d: %s", h.id(), c, out))
					fmt.Printf("ENCODING-MISMATCH %s sample %v: native exit %d: %s\n", h.id(), short(in), c, out)
				}
			}
		}
		if job.Completed == 0 && len(job.Violations) == 0 {
			fmt.Printf("VACUOUS %s: no path completed\n", h.id())
		} else if job.Asserts == 0 && len(job.Violations) == 0 && h.opt["noassert"] == "" {
			fmt.Printf("VACUOUS %s: no assertion evaluated\n", h.id())
		}
		for _, tag := range strings.Split(h.opt["reach"], ",") {
			if tag != "" && job.Reached[tag] == 0 && len(job.Violations) == 0 {
				fmt.Printf("UNREACHED %s: %s\n", h.id(), tag)
			}
		}
		runtime.GC()
	}
	if prop != "" && only == "" {
		a.writeEvidence(prop, tier, results, validated, mismatches, violations, alerts, loadS, time.Since(start).Seconds())
	}
	for k, n := range forks {
		fmt.Printf("forks %7d %s\n", n, k)
	}
	fmt.Printf("done in %.1fs (load %.1fs)\n", time.Since(start).Seconds(), loadS)
	code = 0
	if violations > 0 {
		code = 1
	}
}

func isKnownAll(j *Job, known func(v *Violation) *knownFinding) bool {
	for _, v := range j.Violations {
		if known(v) == nil {
			return false
		}
	}
	return true
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

func short(v any) string {
	s := fmt.Sprint(v)
	if len(s) > 600 {
		s = s[:600] + "…"
	}
	return s
}

func (a *app) budgetOf(h *harness) time.Duration {
	k, d := "budget", 60
	if a.tier == "thorough" {
		k, d = "tbudget", 240
	}
	if s := h.opt[k]; s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			d = n
		}
	}
	if a.tier != "thorough" {
		d *= 4 // measured on an idle machine
	}
	return time.Duration(d) * time.Second
}

// limit is how long the harnesses of a property may take together.
func (a *app) limit() time.Duration {
	if a.tier == "thorough" {
		return 3 * time.Hour
	}
	return 700 * time.Second
}

func (j *Job) problems() string {
	s := ""
	if j.TimedOut {
		s += " TIMEOUT"
	}
	if j.Unknown > 0 {
		s += fmt.Sprintf(" unknown=%d", j.Unknown)
	}
	for _, k := range sortedKeys(j.Limits) {
		s += fmt.Sprintf(" limit[%s]=%d", k, j.Limits[k])
	}
	for _, k := range sortedKeys(j.Unsupported) {
		s += fmt.Sprintf(" unsupported[%s]=%d", k, j.Unsupported[k])
	}
	return s
}

func (j *Job) exhaustive() bool {
	return !j.TimedOut && j.Unknown == 0 && len(j.Limits) == 0 && len(j.Unsupported) == 0 && len(j.Errors) == 0 && len(j.Violations) == 0
}

func (s *Stats) snapshot() [6]int64 {
	return [6]int64{s.Queries.Load(), s.QSat.Load(), s.QUnsat.Load(), s.SolverNs.Load(), s.CacheHits.Load(), s.QUnknown.Load()}
}

func (s *Stats) diff(o [6]int64) map[string]any {
	n := s.snapshot()
	return map[string]any{"queries": n[0] - o[0], "sat": n[1] - o[1], "unsat": n[2] - o[2], "unknown": n[5] - o[5],
		"solver_s": float64(n[3]-o[3]) / 1e9, "cache_hits": n[4] - o[4]}
}

// ---- native replay ----

type replayFile struct {
	Property string         `json:"property"`
	Harness  string         `json:"harness"`
	Tier     string         `json:"tier"`
	Inputs   map[string]any `json:"inputs"`
	V        *Violation     `json:"violation,omitempty"`
	Decs     []uint64       `json:"decisions,omitempty"`
}

func (a *app) writeReplay(h *harness, v *Violation, prop string, n int) string {
	dir := filepath.Join(a.verif, "replays")
	os.MkdirAll(dir, 0o755)
	if prop == "" {
		prop = h.props[0]
	}
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", prop, h.fn, n))
	b, _ := json.MarshalIndent(replayFile{prop, h.id(), a.tier, v.Inputs, v, v.Decs}, "", " ")
	os.WriteFile(p, b, 0o644)
	return p
}

// buildNative compiles a driver for the harness's package.
func (a *app) buildNative(h *harness) (string, string) {
	a.natMu.Lock()
	defer a.natMu.Unlock()
	if e, ok := a.natErr[h.pkg]; ok {
		return a.natBin[h.pkg], e
	}
	var b strings.Builder
	b.WriteString("package main\n\nimport (\n\t\"os\"\n\t\"fmt\"\n\tsym \"" + symPath + "\"\n\tp \"" + h.pkg + "\"\n)\n\nfunc main() {\n\tsym.LoadFile(os.Args[2])\n\tswitch os.Args[1] {\n")
	for _, x := range a.reg.hs {
		if x.pkg == h.pkg {
			fmt.Fprintf(&b, "\tcase %q:\n\t\tp.%s()\n", x.fn, x.fn)
		}
	}
	b.WriteString("\tdefault:\n\t\tos.Exit(6)\n\t}\n\tsym.Done()\n\tfmt.Println(\"SYM: done\")\n}\n")
	src := filepath.Join(a.tmp, "replay_main.go")
	os.WriteFile(src, []byte(b.String()), 0o644)
	m := map[string]string{}
	for k, v := range a.reg.overlay {
		m[k] = v
	}
	m[filepath.Join(a.repo, "zzverif", "zzreplay", "main.go")] = src
	ov := filepath.Join(a.tmp, "replay_overlay.json")
	writeOverlay(ov, m)
	bin := filepath.Join(a.tmp, "replay_"+strings.ReplaceAll(filepath.Base(h.dir), "/", "_"))
	cmd := exec.Command("go", "build", "-overlay", ov, "-o", bin, "./zzverif/zzreplay")
	cmd.Dir = a.repo
	env := goEnv()
	cmd.Env = env
	out, err := cmd.CombinedOutput()
	e := ""
	if err != nil {
		e = "native build failed: " + string(out)
		bin = ""
	}
	a.natBin[h.pkg], a.natErr[h.pkg] = bin, e
	return bin, e
}

// native runs the harness on concrete inputs. It returns the exit code
// (-1: could not run, -2: timeout).
func (a *app) native(h *harness, v *Violation) (int, string) {
	bin, e := a.buildNative(h)
	if e != "" {
		return -1, e
	}
	f, err := os.CreateTemp(a.tmp, "in*.json")
	if err != nil {
		return -1, err.Error()
	}
	b, _ := json.Marshal(replayFile{Harness: h.id(), Tier: a.tier, Inputs: v.Inputs})
	f.Write(b)
	f.Close()
	defer os.Remove(f.Name())
	to := 20 * time.Second
	ctx, cancel := context.WithTimeout(context.Background(), to)
	defer cancel()
	cmd := exec.CommandContext(ctx, "/bin/sh", "-c", `ulimit -v 12000000; exec "$0" "$@"`, bin, h.fn, f.Name())
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.Dir = a.tmp
	var ob bytes.Buffer
	cmd.Stdout = &limitW{b: &ob, n: 1 << 16}
	cmd.Stderr = cmd.Stdout
	err = cmd.Run()
	out := strings.TrimSpace(ob.String())
	if ctx.Err() != nil {
		return -2, "no termination within " + to.String()
	}
	if err == nil {
		return 0, out
	}
	line := out
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "SYM:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
			line = l
			break
		}
	}
	if len(line) > 300 {
		line = line[:300]
	}
	if ee, ok := err.(*exec.ExitError); ok {
		return ee.ExitCode(), line
	}
	return -1, err.Error()
}

type limitW struct {
	b *bytes.Buffer
	n int
}

func (w *limitW) Write(p []byte) (int, error) {
	if r := w.n - w.b.Len(); r > 0 {
		w.b.Write(p[:min(r, len(p))])
	}
	return len(p), nil
}

// confirm decides whether a counterexample is real.
func (a *app) confirm(h *harness, fn *ssa.Function, v *Violation, prop string) (bool, string) {
	noNative := h.opt["native"] == "no"
	sched := v.Sched || h.opt["sched"] != ""
	if !noNative {
		tries := 1
		if sched {
			tries = 8
		}
		last := ""
		for i := 0; i < tries; i++ {
			c, out := a.native(h, v)
			switch {
			case c == -1:
				last = "native replay impossible: " + out
				i = tries
			case c == 0 || c == 4 || c == 6:
				last = fmt.Sprintf("native run ended with %d (%s)", c, out)
			case c == -2:
				return true, "native replay: " + out
			default:
				return true, fmt.Sprintf("native replay fails with exit %d: %s", c, out)
			}
		}
		if !sched && v.Kind != "race" {
			return false, last
		}
		ok, how := a.reexec(h, fn, v)
		return ok, last + "; " + how
	}
	return a.reexec(h, fn, v)
}

// reexec follows one recorded schedule and model concretely through the SSA
// of the real code.
func (a *app) reexec(h *harness, fn *ssa.Function, v *Violation) (bool, string) {
	it := &workItem{base: v.Model}
	for _, d := range v.Decs {
		it.prefix = append(it.prefix, dec{kind: uint8(d >> 1 & 3), taken: d&1 != 0, val: d >> 3})
	}
	j := &Job{eng: a.eng, fn: fn, name: h.id(), deadline: time.Now().Add(60 * time.Second), maxViol: 1, workers: 1, single: it, onlySingle: true}
	j.Explore()
	if len(j.Violations) == 1 && j.Violations[0].Kind == v.Kind {
		return true, "re-execution of the recorded schedule on the code's SSA fails the same way (schedule-dependent)"
	}
	return false, fmt.Sprintf("re-execution did not fail (errors %v)", j.Errors)
}

func (a *app) replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fatal("%v", err)
	}
	a.tier = rf.Tier
	for _, h := range a.reg.hs {
		if h.id() == rf.Harness {
			c, out := a.native(h, &Violation{Inputs: rf.Inputs})
			fmt.Printf("native replay of %s: exit %d: %s\n", h.id(), c, out)
			if c == 0 {
				return 0
			}
			return 1
		}
	}
	fmt.Println("no such harness", rf.Harness)
	return 2
}

// ---- evidence ----

func (a *app) writeEvidence(prop, tier string, rs []*hres, validated, mismatches, violations int, alerts []string, loadS, wall float64) {
	seed := 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			seed = n
		}
	}
	var states, trans, asserts, steps, q, qs, qu, qk, ch int64
	solver := 0.0
	var bounds, incomplete []string
	var hrep []map[string]any
	var samples []any
	for _, r := range rs {
		m := map[string]any{"harness": r.h.id(), "bound": r.h.opt["bound"]}
		bounds = append(bounds, r.h.fn+": "+r.h.opt["bound"])
		if r.skipped != "" {
			m["skipped"] = r.skipped
			incomplete = append(incomplete, r.h.fn+" skipped: "+r.skipped)
			hrep = append(hrep, m)
			continue
		}
		j := r.job
		states += j.Completed
		trans += j.Branches
		asserts += j.Asserts
		steps += j.Steps
		q += r.stats["queries"].(int64)
		qs += r.stats["sat"].(int64)
		qu += r.stats["unsat"].(int64)
		qk += r.stats["unknown"].(int64)
		ch += r.stats["cache_hits"].(int64)
		solver += r.stats["solver_s"].(float64)
		m["paths"] = j.Paths
		m["completed"] = j.Completed
		m["infeasible"] = j.Infeasible
		m["with_choices_or_schedules"] = j.SchedPaths
		m["assertions"] = j.Asserts
		m["max_decisions"] = j.MaxDepth
		m["exhaustive_within_bound"] = j.exhaustive()
		m["wall_s"] = r.wall
		if p := strings.TrimSpace(j.problems()); p != "" {
			m["not_decided"] = p
			incomplete = append(incomplete, r.h.fn+": "+p)
		}
		if len(r.reports) > 0 {
			m["unreproduced"] = r.reports
		}
		if len(j.Reached) > 0 {
			m["reached"] = j.Reached
		}
		hrep = append(hrep, m)
		for i, s := range j.Samples {
			if i < 2 {
				samples = append(samples, map[string]any{"harness": r.h.fn, "inputs": s})
			}
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "no path completed")
	}
	if len(samples) > 24 {
		samples = samples[:24]
	}
	var fns []string
	nonrepo := 0
	cfCache.Range(func(k, v any) bool {
		cf := v.(*cfunc)
		if cf.hits.Load() == 0 {
			return true
		}
		if cf.repo && !strings.Contains(cf.name, "/zzverif") && !strings.Contains(cf.name, "ZZVerif") {
			fns = append(fns, strings.ReplaceAll(cf.name, repoModule+"/", ""))
		} else {
			nonrepo++
		}
		return true
	})
	sort.Strings(fns)
	cov := map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
		"assertions_decided": asserts, "ssa_steps": steps,
		"functions_encoded": fns, "functions_encoded_count": len(fns), "library_functions_interpreted": nonrepo,
		"queries": q, "queries_sat": qs, "queries_unsat": qu, "queries_unknown": qk, "query_cache_hits": ch, "solver_s": solver,
		"bounds": bounds, "harnesses": hrep, "native_mismatches": mismatches, "load_s": loadS,
		"exhaustive": len(incomplete) == 0,
	}
	if len(incomplete) > 0 {
		cov["not_decided"] = incomplete
	}
	if len(alerts) > 0 {
		cov["alerts"] = alerts
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": wall, "violations": violations,
		"assumptions": []string{"states = symbolic paths completed (each covers every value satisfying its path condition); transitions = symbolic branch decisions",
			"bounds per harness are listed under coverage.bounds; nothing is claimed outside them",
			"the Go SSA interpreter, its models of runtime primitives (sync, time, map iteration, fmt) and z3 are trusted; sampled paths are replayed natively"}}
	dir := filepath.Join(a.verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, prop+".json"), b, 0o644)
}
