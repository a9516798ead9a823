package main

// Supervisor/worker core. The supervisor hands out case numbers to worker
// processes, watches them (crash, hang, memory) and turns what it sees into the
// verdict, the replay file and the evidence file. Workers run the real package.

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Config struct {
	Prop string
	Tier string
	Seed int64
	Hot  *Hot
}

func (c *Config) thorough() bool { return c.Tier == "thorough" }

// n picks a workload size by tier.
func (c *Config) n(quick, thorough int) int {
	if c.thorough() {
		return thorough
	}
	return quick
}

type Case struct {
	Name  string
	Fn    func(t *T)
	Fresh bool // in a process in which the package was not used before
}

type Property struct {
	Rule        string
	Assumptions []string
	Race        bool
	Cases       func(cfg *Config) []Case
}

var properties = map[string]*Property{}

// ---------------------------------------------------------------- case context

type violation struct {
	Sig    string `json:"sig"`
	Detail string `json:"detail"`
	Stack  string `json:"stack,omitempty"`
}

type T struct {
	cfg    *Config
	R      *rand.Rand
	name   string
	events map[string]int
	w      *workerState
}

type workerState struct {
	evals   int
	nontriv map[uint64]struct{}
	samples []string
	events  map[string]int
}

func hash64(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		io.WriteString(h, p)
		h.Write([]byte{0})
	}
	return h.Sum64()
}

// Input records one evaluated input or history; nontrivial ones are counted distinct.
func (t *T) Input(nontrivial bool, desc string) {
	t.w.evals++
	if nontrivial {
		h := hash64(desc)
		if _, dup := t.w.nontriv[h]; !dup {
			t.w.nontriv[h] = struct{}{}
			n := len(t.w.nontriv)
			if len(t.w.samples) < 4 && (n == 1 || n == 5 || n == 40 || n == 200) {
				t.w.samples = append(t.w.samples, t.name+": "+clip(desc, 300))
			}
		}
	}
}

// Event counts one thing the monitor observed.
func (t *T) Event(name string) { t.w.events[name]++ }

func (t *T) EventN(name string, n int) { t.w.events[name] += n }

// Fail reports a violation and ends the case.
func (t *T) Fail(sig string, format string, args ...interface{}) {
	panic(&violation{Sig: sig, Detail: fmt.Sprintf(format, args...)})
}

func clip(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
}

func runCase(cfg *Config, c Case, w *workerState) (v *violation) {
	t := &T{cfg: cfg, name: c.Name, w: w}
	t.R = rand.New(rand.NewSource(int64(hash64(strconv.FormatInt(cfg.Seed, 10), cfg.Prop, c.Name))))
	defer func() {
		if r := recover(); r != nil {
			if vv, ok := r.(*violation); ok {
				v = vv
				return
			}
			v = &violation{Sig: "panic", Detail: fmt.Sprintf("panic: %v", r), Stack: clip(string(debug.Stack()), 6000)}
		}
	}()
	c.Fn(t)
	return nil
}

// ---------------------------------------------------------------- worker

type workerStats struct {
	Evals   int            `json:"evals"`
	Hashes  string         `json:"hashes"`
	Samples []string       `json:"samples"`
	Events  map[string]int `json:"events"`
}

func workerMain(cfg *Config, dir string) {
	debug.SetMaxStack(512 << 20)
	debug.SetMemoryLimit(2 << 30)
	p := properties[cfg.Prop]
	cases := p.Cases(cfg)
	w := &workerState{nontriv: map[uint64]struct{}{}, events: map[string]int{}}
	in := bufio.NewReader(os.Stdin)
	out := bufio.NewWriter(os.Stdout)
	fmt.Fprintf(out, "READY %d\n", len(cases))
	out.Flush()
	for {
		line, err := in.ReadString('\n')
		if err != nil {
			break
		}
		line = strings.TrimSpace(line)
		if line == "END" {
			break
		}
		i, err := strconv.Atoi(line)
		if err != nil || i < 0 || i >= len(cases) {
			fmt.Fprintf(out, "OK %d 0\n", i)
			out.Flush()
			continue
		}
		start := time.Now()
		v := runCase(cfg, cases[i], w)
		if v != nil {
			b, _ := json.Marshal(v)
			fmt.Fprintf(out, "BAD %d %s\n", i, b)
		} else {
			fmt.Fprintf(out, "OK %d %d\n", i, time.Since(start).Microseconds())
		}
		out.Flush()
	}
	hf := filepath.Join(dir, fmt.Sprintf("hashes.%d", os.Getpid()))
	f, err := os.Create(hf)
	if err == nil {
		bw := bufio.NewWriter(f)
		for h := range w.nontriv {
			fmt.Fprintf(bw, "%x\n", h)
		}
		bw.Flush()
		f.Close()
	}
	b, _ := json.Marshal(workerStats{Evals: w.evals, Hashes: hf, Samples: w.samples, Events: w.events})
	fmt.Fprintf(out, "STATS %s\n", b)
	out.Flush()
}

// ---------------------------------------------------------------- supervisor

type proc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	lines  chan string
	stderr *tailBuf
	done   chan struct{}
	err    error
}

type tailBuf struct {
	mu  sync.Mutex
	buf []byte
}

func (b *tailBuf) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if len(b.buf) < 64<<10 { // keep the head: the first report is the interesting one
		b.buf = append(b.buf, p...)
	}
	return len(p), nil
}
func (b *tailBuf) String() string { b.mu.Lock(); defer b.mu.Unlock(); return string(b.buf) }

func startWorker(self string, cfg *Config, dir string) (*proc, error) {
	cmd := exec.Command(self, "worker", "-prop", cfg.Prop, "-tier", cfg.Tier, "-seed", strconv.FormatInt(cfg.Seed, 10), "-dir", dir)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66", "GOCOVERDIR="+filepath.Join(dir, "cov"))
	if os.Getenv("GOMAXPROCS") == "" && !properties[cfg.Prop].Race {
		cmd.Env = append(cmd.Env, "GOMAXPROCS=2")
	}
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	outp, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	p := &proc{cmd: cmd, in: in, lines: make(chan string, 4), stderr: &tailBuf{}, done: make(chan struct{})}
	cmd.Stderr = p.stderr
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	go func() {
		r := bufio.NewReaderSize(outp, 1<<20)
		for {
			line, err := r.ReadString('\n')
			if line != "" {
				p.lines <- strings.TrimRight(line, "\n")
			}
			if err != nil {
				break
			}
		}
		close(p.lines)
		p.err = cmd.Wait()
		close(p.done)
	}()
	return p, nil
}

func (p *proc) kill() {
	p.cmd.Process.Kill()
	go func() {
		for range p.lines {
		}
	}()
	<-p.done
}

func (p *proc) rssMB() int {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", p.cmd.Process.Pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.Atoi(f[1])
	return n * os.Getpagesize() / (1 << 20)
}

type outcome struct {
	kind   string // ok, bad, crash, hang, memory, lost
	v      *violation
	stderr string
}

const rssLimitMB = 3500

// ask runs case i on p and waits.
func (p *proc) ask(i int, limit time.Duration) outcome {
	fmt.Fprintf(p.in, "%d\n", i)
	deadline := time.After(limit)
	tick := time.NewTicker(300 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case line, ok := <-p.lines:
			if !ok {
				<-p.done
				return outcome{kind: "crash", stderr: p.stderr.String() + "\n" + fmt.Sprint(p.err)}
			}
			if strings.HasPrefix(line, "OK ") {
				return outcome{kind: "ok"}
			}
			if strings.HasPrefix(line, "BAD ") {
				rest := strings.SplitN(line, " ", 3)
				v := &violation{}
				json.Unmarshal([]byte(rest[2]), v)
				return outcome{kind: "bad", v: v}
			}
		case <-tick.C:
			if p.rssMB() > rssLimitMB {
				p.kill()
				return outcome{kind: "memory"}
			}
		case <-deadline:
			p.kill()
			return outcome{kind: "hang"}
		}
	}
}

func (p *proc) ready(limit time.Duration) (int, bool) {
	select {
	case line, ok := <-p.lines:
		if ok && strings.HasPrefix(line, "READY ") {
			n, _ := strconv.Atoi(strings.Fields(line)[1])
			return n, true
		}
	case <-time.After(limit):
	}
	return 0, false
}

func (p *proc) finish() *workerStats {
	fmt.Fprintf(p.in, "END\n")
	var st *workerStats
	timeout := time.After(60 * time.Second)
	for {
		select {
		case line, ok := <-p.lines:
			if !ok {
				<-p.done
				return st
			}
			if strings.HasPrefix(line, "STATS ") {
				st = &workerStats{}
				json.Unmarshal([]byte(line[6:]), st)
			}
		case <-timeout:
			p.kill()
			return st
		}
	}
}

type found struct {
	Property string     `json:"property"`
	Tier     string     `json:"tier"`
	Seed     int64      `json:"seed"`
	Case     string     `json:"case"`
	Index    int        `json:"index"`
	Kind     string     `json:"kind"`
	V        *violation `json:"violation"`
}

func isGoCrash(stderr string) bool {
	for _, s := range []string{"fatal error:", "panic:", "DATA RACE", "goroutine stack exceeds", "SIGSEGV", "unexpected fault address"} {
		if strings.Contains(stderr, s) {
			return true
		}
	}
	return false
}

func supervise(cfg *Config, verif string) int {
	start := time.Now()
	self, _ := os.Executable()
	dir, err := os.MkdirTemp("", "hjcheck-")
	if err != nil {
		fmt.Println("cannot create scratch directory:", err)
		return 2
	}
	defer os.RemoveAll(dir)
	os.MkdirAll(filepath.Join(dir, "cov"), 0o755)
	p := properties[cfg.Prop]
	cases := p.Cases(cfg)
	workers := 8
	if p.Race {
		workers = 3
	}
	caseLimit := 90 * time.Second
	total := 500 * time.Second
	if cfg.thorough() {
		total = 3 * time.Hour
		caseLimit = 300 * time.Second
	}
	if n, err := strconv.Atoi(os.Getenv("HJ_CAP")); err == nil { // seconds, for trying a check out
		total = time.Duration(n) * time.Second
	}

	known := loadKnown(verif, cfg.Prop)
	knownSeen := map[string]bool{}
	var mu sync.Mutex
	next := 0
	executed := 0
	var bad *found
	var inconclusive []string
	cutShort := false
	agg := workerStats{Events: map[string]int{}}
	hashes := map[string]struct{}{}
	stop := false

	take := func() int {
		mu.Lock()
		defer mu.Unlock()
		if stop || next >= len(cases) {
			return -1
		}
		if time.Since(start) > total {
			cutShort = true
			return -1
		}
		i := next
		next++
		return i
	}
	report := func(i int, kind string, v *violation) {
		mu.Lock()
		defer mu.Unlock()
		if what, ok := known[v.Sig]; ok {
			if !knownSeen[v.Sig] {
				knownSeen[v.Sig] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", cfg.Prop, what)
			}
			return
		}
		if bad == nil || i < bad.Index {
			bad = &found{Property: cfg.Prop, Tier: cfg.Tier, Seed: cfg.Seed, Case: cases[i].Name, Index: i, Kind: kind, V: v}
		}
		stop = true
	}
	collect := func(st *workerStats) {
		if st == nil {
			return
		}
		mu.Lock()
		defer mu.Unlock()
		agg.Evals += st.Evals
		for k, n := range st.Events {
			agg.Events[k] += n
		}
		if len(agg.Samples) < 6 {
			agg.Samples = append(agg.Samples, st.Samples...)
		}
		if b, err := os.ReadFile(st.Hashes); err == nil {
			for _, h := range strings.Fields(string(b)) {
				hashes[h] = struct{}{}
			}
		}
	}
	// rerun a case alone in a fresh worker
	alone := func(i int, limit time.Duration) outcome {
		q, err := startWorker(self, cfg, dir)
		if err != nil {
			return outcome{kind: "lost"}
		}
		if _, ok := q.ready(60 * time.Second); !ok {
			q.kill()
			return outcome{kind: "lost"}
		}
		o := q.ask(i, limit)
		if o.kind == "ok" || o.kind == "bad" {
			collect(q.finish())
		}
		return o
	}

	var wg sync.WaitGroup
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var q *proc
			starts, used := 0, false
			for {
				i := take()
				if i < 0 {
					break
				}
				if q != nil && cases[i].Fresh && used {
					collect(q.finish())
					q = nil
					starts--
				}
				if q == nil {
					starts++
					used = false
					if starts > 40 {
						mu.Lock()
						inconclusive = append(inconclusive, "too many worker restarts")
						mu.Unlock()
						return
					}
					var err error
					q, err = startWorker(self, cfg, dir)
					if err == nil {
						if _, ok := q.ready(120 * time.Second); !ok {
							q.kill()
							q = nil
						}
					} else {
						q = nil
					}
					if q == nil {
						mu.Lock()
						inconclusive = append(inconclusive, "worker did not start for case "+cases[i].Name)
						mu.Unlock()
						continue
					}
				}
				asked := time.Now()
				used = true
				o := q.ask(i, caseLimit)
				mu.Lock()
				executed++
				if os.Getenv("HJ_TIMES") != "" {
					fmt.Fprintf(os.Stderr, "%9.3f %s\n", time.Since(asked).Seconds(), cases[i].Name)
				}
				mu.Unlock()
				switch o.kind {
				case "ok":
				case "bad":
					report(i, "oracle", o.v)
				case "crash":
					q = nil
					if isGoCrash(o.stderr) {
						kind := "crash"
						if strings.Contains(o.stderr, "DATA RACE") {
							kind = "data-race"
						}
						report(i, kind, &violation{Sig: kind, Detail: clip(o.stderr, 8000)})
					} else if o2 := alone(i, 3*caseLimit); o2.kind == "crash" {
						report(i, "crash", &violation{Sig: "crash", Detail: clip(o2.stderr, 8000)})
					} else if o2.kind == "bad" {
						report(i, "oracle", o2.v)
					} else {
						mu.Lock()
						inconclusive = append(inconclusive, "worker lost in "+cases[i].Name+", not reproduced")
						mu.Unlock()
					}
				case "hang", "memory":
					q = nil
					o2 := alone(i, 3*caseLimit)
					switch o2.kind {
					case "bad":
						report(i, "oracle", o2.v)
					case "ok", "lost":
						mu.Lock()
						inconclusive = append(inconclusive, o.kind+" in "+cases[i].Name+", not reproduced")
						mu.Unlock()
					default:
						report(i, o2.kind, &violation{Sig: o2.kind, Detail: fmt.Sprintf("case did not finish (%s), reproduced alone with a limit of %s\n%s", o2.kind, 3*caseLimit, clip(o2.stderr, 6000))})
					}
				}
			}
			if q != nil {
				mu.Lock()
				quick := stop
				mu.Unlock()
				if quick {
					q.kill()
				} else {
					collect(q.finish())
				}
			}
		}()
	}
	wg.Wait()

	coverage := map[string]interface{}{
		"evaluations":          agg.Evals,
		"distinct_nontrivial":  len(hashes),
		"rule":                 p.Rule,
		"samples":              agg.Samples,
		"cases_planned":        len(cases),
		"cases_run":            executed,
		"observed_events":      agg.Events,
		"new_literals_steered": cfg.Hot.Describe(),
	}
	if pct := coveragePercent(filepath.Join(dir, "cov")); pct != "" {
		coverage["statements_of_package_executed"] = pct
	}
	if cutShort {
		coverage["cut_short"] = "time budget reached"
	}
	if len(inconclusive) > 0 {
		coverage["inconclusive"] = inconclusive
	}
	if agg.Samples == nil {
		coverage["samples"] = []string{}
	}
	nviol := 0
	if bad != nil {
		nviol = 1
	}
	ev := map[string]interface{}{
		"property": cfg.Prop, "tier": cfg.Tier, "seed": cfg.Seed, "level": "exploration",
		"coverage": coverage, "assumptions": append([]string{}, p.Assumptions...),
		"wall_s": float64(time.Since(start).Milliseconds()) / 1000, "violations": nviol,
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	writeJSON(filepath.Join(verif, "evidence", cfg.Prop+".json"), ev)

	if bad != nil {
		rp := filepath.Join(verif, "evidence", "replay", cfg.Prop+".json")
		os.MkdirAll(filepath.Dir(rp), 0o755)
		writeJSON(rp, bad)
		fmt.Printf("case %s (%s): %s\n%s\n", bad.Case, bad.Kind, bad.V.Sig, clip(bad.V.Detail, 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", cfg.Prop, rp)
		return 1
	}
	fmt.Printf("property %s held: %d cases, %d evaluations, %d distinct non-trivial, %.1fs\n", cfg.Prop, executed, agg.Evals, len(hashes), time.Since(start).Seconds())
	if executed == 0 || agg.Evals == 0 {
		fmt.Println("error: nothing was observed")
		return 2
	}
	return 0
}

func coveragePercent(dir string) string {
	out, err := exec.Command("go", "tool", "covdata", "percent", "-i="+dir).Output()
	if err != nil {
		return ""
	}
	for _, line := range strings.Split(string(out), "\n") {
		if strings.Contains(line, "holistic_json/json") {
			f := strings.Fields(line)
			for _, x := range f {
				if strings.HasSuffix(x, "%") {
					return x
				}
			}
		}
	}
	return ""
}

func writeJSON(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		os.WriteFile(path, append(b, '\n'), 0o644)
	}
}

// known findings: lines "known: property=<id> sig=<signature> <what fails>"
func loadKnown(verif, prop string) map[string]string {
	res := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return res
	}
	for _, line := range strings.Split(string(b), "\n") {
		f := strings.SplitN(strings.TrimSpace(line), " ", 4)
		if len(f) == 4 && f[0] == "known:" && f[1] == "property="+prop && strings.HasPrefix(f[2], "sig=") {
			res[strings.TrimPrefix(f[2], "sig=")] = f[3]
		}
	}
	return res
}

func replay(path, verif string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	f := &found{}
	if err := json.Unmarshal(b, f); err != nil {
		fmt.Println(err)
		return 2
	}
	cfg := &Config{Prop: f.Property, Tier: f.Tier, Seed: f.Seed, Hot: loadHot(verif)}
	for _, c := range properties[cfg.Prop].Cases(cfg) {
		if c.Name == f.Case {
			w := &workerState{nontriv: map[uint64]struct{}{}, events: map[string]int{}}
			if v := runCase(cfg, c, w); v != nil {
				fmt.Printf("reproduced: %s\n%s\n%s\n", v.Sig, v.Detail, v.Stack)
				return 1
			}
			fmt.Println("not reproduced by this case alone")
			return 0
		}
	}
	fmt.Println("case not found:", f.Case)
	return 2
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: hjcheck run|worker|replay|list|literals ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("hjcheck", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "quick", "quick or thorough")
	seed := fs.Int64("seed", 1, "seed")
	dir := fs.String("dir", "", "scratch directory of the worker")
	verif := fs.String("verif", os.Getenv("HJ_VERIF"), "verif directory")
	fs.Parse(os.Args[2:])
	if *verif == "" {
		*verif = "/verif"
	}
	os.Setenv("HJ_VERIF", *verif)
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range properties {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
	case "literals":
		writeJSON(filepath.Join(*verif, "harness", "baseline_literals.json"), scanLiterals(repoDir()))
	case "replay":
		os.Exit(replay(fs.Arg(0), *verif))
	case "cases":
		cfg := &Config{Prop: *prop, Tier: *tier, Seed: *seed, Hot: loadHot(*verif)}
		for i, c := range properties[*prop].Cases(cfg) {
			fmt.Println(i, c.Name)
		}
	case "run", "worker":
		if properties[*prop] == nil {
			fmt.Println("unknown property", *prop)
			os.Exit(2)
		}
		if f := os.Getenv("HJ_PROFILE"); f != "" {
			if out, err := os.Create(f + strconv.Itoa(os.Getpid())); err == nil {
				pprof.StartCPUProfile(out)
				defer pprof.StopCPUProfile()
			}
		}
		cfg := &Config{Prop: *prop, Tier: *tier, Seed: *seed, Hot: loadHot(*verif)}
		if os.Args[1] == "run" {
			os.Exit(supervise(cfg, *verif))
		}
		workerMain(cfg, *dir)
	}
}
