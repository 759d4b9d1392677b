package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// A Check decides one property: it runs the cases of its streams, each watched by
// an oracle.
type Check struct {
	ID          string
	Rule        string // how cases are made, and what makes one non-trivial
	Assumptions []string
	Workers     int // 0: one per core
	Procs       int // threads of a worker; 0: the default of a few
	Streams     func(t Tier) []Stream

	// MinEvals is the least number of oracle decisions of a run that counts as
	// having observed something; with fewer the run is inconclusive.
	MinEvals int
}

type Stream struct {
	Name string
	N    int
	Run  func(c *Case)
}

type Tier struct{ Thorough bool }

// n chooses a number of cases.
func (t Tier) n(quick, thorough int) int {
	if t.Thorough {
		return thorough
	}
	return quick
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Case is one case of a stream.
type Case struct {
	*RNG
	Idx    int
	Stream string
	tier   Tier
	w      *worker
	input  string
	scale  float64
	again  bool // within a case made from another
}

type violation struct {
	Property string `json:"property"`
	Seed     int64  `json:"seed"`
	Tier     string `json:"tier"`
	Stream   string `json:"stream"`
	Index    int    `json:"index"`
	Message  string `json:"message"`
	Input    string `json:"input,omitempty"`
}

type stats struct {
	Evaluations int               `json:"evaluations"`
	Cases       map[string]int    `json:"cases"`
	Hist        map[string]int    `json:"hist"`
	Samples     []json.RawMessage `json:"samples"`
	Violations  []violation       `json:"violations"`
	Known       map[string]string `json:"known"`
	Errors      []string          `json:"errors"`
	Done        bool              `json:"done"`
}

type worker struct {
	check    *Check
	seed     int64
	tier     Tier
	st       stats
	distinct map[uint64]struct{}
	journal  *os.File
	started  atomic.Int64 // CPU time at the start of the current case

	startWall atomic.Int64
	verbose   bool
	scratch   string
	traits    traitMeter
}

// Eval counts n decisions of an oracle.
func (c *Case) Eval(n int) { c.w.st.Evaluations += n }

// Hit counts an observed feature.
func (c *Case) Hit(name string) { c.w.st.Hist[name]++ }

func (c *Case) HitAll(m map[string]bool) {
	for k := range m {
		c.w.st.Hist[k]++
	}
}

// Distinct records a non-trivial case.
func (c *Case) Distinct(key string) {
	h := fnv.New64a()
	h.Write([]byte(key))
	c.w.distinct[h.Sum64()] = struct{}{}
}

// Input records what the case is about, for the replay file and the samples.
func (c *Case) Input(s string) { c.input = s }

// Sample offers the case as a sample for the evidence.
func (c *Case) Sample(v interface{}) {
	if len(c.w.st.Samples) >= 3 || c.Idx%7 != 3 {
		return
	}
	if s, ok := v.(string); ok && len(s) > 600 {
		return
	}
	b, err := json.Marshal(map[string]interface{}{"stream": c.Stream, "index": c.Idx, "case": v})
	if err == nil && len(b) < 4000 {
		c.w.st.Samples = append(c.w.st.Samples, b)
	}
}

func (c *Case) Known(id, line string) { c.w.st.Known[id] = line }

// Fail reports a violation.
func (c *Case) Fail(format string, args ...interface{}) {
	c.w.report(violation{Property: c.w.check.ID, Stream: c.Stream, Index: c.Idx, Message: fmt.Sprintf(format, args...), Input: c.input})
}

// Error reports trouble of the check itself: the run is inconclusive.
func (c *Case) Error(format string, args ...interface{}) {
	if len(c.w.st.Errors) < 5 {
		c.w.st.Errors = append(c.w.st.Errors, fmt.Sprintf("%s/%d: ", c.Stream, c.Idx)+fmt.Sprintf(format, args...))
	}
}

func (w *worker) report(v violation) {
	v.Seed = w.seed
	v.Tier = tierName(w.tier)
	if len(v.Message) > 6000 {
		v.Message = v.Message[:6000] + "..."
	}
	if len(v.Input) > 100000 {
		v.Input = v.Input[:100000] + "..."
	}
	if len(w.st.Violations) < 5 {
		w.st.Violations = append(w.st.Violations, v)
	}
	if w.verbose {
		fmt.Printf("%s/%d: %s\n%s\n", v.Stream, v.Index, v.Message, v.Input)
	}
}

func tierName(t Tier) string {
	if t.Thorough {
		return "thorough"
	}
	return "quick"
}

// Scratch returns a directory of this worker, removed after the run.
func (c *Case) Scratch() string { return c.w.scratch }

const repoPath = "github.com/mmcloughlin/ssarules/"

func (w *worker) runCase(s Stream, idx int) {
	c := &Case{RNG: newRNG(w.seed, w.check.ID, s.Name, fmt.Sprint(idx)), Idx: idx, Stream: s.Name, tier: w.tier, w: w}
	if w.journal != nil {
		var b [80]byte
		for i := range b {
			b[i] = ' '
		}
		copy(b[:], fmt.Sprintf("%s %d\n", s.Name, idx))
		w.journal.WriteAt(b[:], 0)
	}
	w.startWall.Store(time.Now().UnixNano())
	w.started.Store(int64(cpuTime()))
	defer func() {
		w.started.Store(-1)
		if e := recover(); e != nil {
			stack := string(debug.Stack())
			if blamesRepo(stack) {
				c.Fail("panic: %v\n%s", e, clipStack(stack))
			} else {
				c.Error("panic in the check: %v\n%s", e, stack)
			}
		}
	}()
	t0 := time.Now()
	s.Run(c)
	if slow := os.Getenv("VERIF_SLOW"); slow != "" && time.Since(t0) > time.Second { // for tuning by hand
		if f, err := os.OpenFile(slow, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); err == nil {
			fmt.Fprintf(f, "%s/%d %v\n", s.Name, idx, time.Since(t0))
			f.Close()
		}
	}
	w.st.Cases[s.Name]++
}

// blamesRepo reports whether a panic came out of the code under test: whether
// one of its frames is on the stack.
func blamesRepo(stack string) bool { return strings.Contains(stack, repoPath) }

func clipStack(s string) string {
	if len(s) > 4000 {
		return s[:4000] + "..."
	}
	return s
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// Limits per case. Cases take milliseconds of work; these tell an endless or
// exploding computation from any slow machine.
const (
	caseCPU  = 100 * time.Second
	caseHeap = 2600 << 20
	caseIdle = 300 // looks in a row, half a second apart, without any work done
)

func (w *worker) watch() {
	var ms runtime.MemStats
	var idle int
	var lastCPU time.Duration
	var lastCase int64
	for {
		time.Sleep(500 * time.Millisecond)
		t := w.started.Load()
		if t < 0 {
			idle = 0
			continue
		}
		// Looks are counted, so that a machine at rest is not taken for a case at rest.
		cpu, start := cpuTime(), w.startWall.Load()
		if idle++; start != lastCase || cpu-lastCPU > 50*time.Millisecond {
			idle = 0
		}
		lastCPU, lastCase = cpu, start
		d := cpu - time.Duration(t)
		if idle > caseIdle {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Fprintf(os.Stderr, "WATCHDOG: case waits without doing anything\n%s\n", buf)
			os.Exit(96)
		}
		if d > caseCPU {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Fprintf(os.Stderr, "WATCHDOG: case used %v of CPU time without an end\n%s\n", d, buf)
			os.Exit(97)
		}
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > caseHeap {
			fmt.Fprintf(os.Stderr, "WATCHDOG: case holds %d MB of memory\n", ms.HeapAlloc>>20)
			os.Exit(98)
		}
	}
}

func workerMain(c *Check, seed int64, tier Tier, k, n int, dir string) {
	debug.SetMaxStack(1 << 30)
	runtime.GOMAXPROCS(2)
	w := &worker{check: c, seed: seed, tier: tier, distinct: map[uint64]struct{}{}}
	w.st.Cases = map[string]int{}
	w.st.Hist = map[string]int{}
	w.st.Known = map[string]string{}
	w.scratch = filepath.Join(dir, fmt.Sprintf("scratch%d", k))
	if err := os.MkdirAll(w.scratch, 0755); err != nil {
		fatal(err)
	}
	var err error
	if w.journal, err = os.Create(filepath.Join(dir, fmt.Sprintf("journal%d", k))); err != nil {
		fatal(err)
	}
	w.started.Store(-1)
	go w.watch()
	if c.Procs > 0 {
		runtime.GOMAXPROCS(c.Procs)
	}
	// The quick tier runs all cases. The thorough one takes turns with the streams,
	// a part of each at a time, for as long as it may.
	streams := c.Streams(tier)
	next := make([]int, len(streams))
	deadline := time.Now().Add(thoroughTime())
	// A part of the cases only, for trying out changes; no registered command does.
	fraction, _ := strconv.Atoi(os.Getenv("VERIF_FRACTION"))
	for left := len(streams); left > 0; {
		left = 0
		for si, s := range streams {
			end := s.N
			if tier.Thorough {
				end = next[si] + s.N/100 + 1
				if s.N <= 20000 {
					end = next[si] + s.N/10 + 1
				}
				end = min(end, s.N)
			}
			for ; next[si] < end; next[si]++ {
				// Spread the cases evenly, whatever their periods.
				if int(uint64(next[si])*0x9e3779b97f4a7c15>>33)%n != k {
					continue
				}
				if fraction > 1 && s.N > 20 && int(uint64(next[si])*0x9e3779b97f4a7c15>>20&0xffff)%fraction != 0 {
					continue
				}
				if tier.Thorough && time.Now().After(deadline) {
					w.st.Hist["stopped by the clock: "+s.Name]++
					next[si] = s.N
					break
				}
				w.runCase(s, next[si])
				if len(w.st.Violations) >= 3 || len(w.st.Errors) >= 3 {
					next[si] = s.N
					break
				}
			}
			if next[si] < s.N {
				left++
			}
		}
	}
	w.st.Done = true
	b, err := json.Marshal(w.st)
	if err != nil {
		fatal(err)
	}
	if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("stats%d", k)), b, 0644); err != nil {
		fatal(err)
	}
	if err := w.traits.write(filepath.Join(dir, fmt.Sprintf("traits%d", k))); err != nil {
		fatal(err)
	}
	var buf bytes.Buffer
	for h := range w.distinct {
		var x [8]byte
		binary.LittleEndian.PutUint64(x[:], h)
		buf.Write(x[:])
	}
	if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("distinct%d", k)), buf.Bytes(), 0644); err != nil {
		fatal(err)
	}
}

// thoroughTime is how long the thorough tier explores.
func thoroughTime() time.Duration {
	if d, err := time.ParseDuration(os.Getenv("VERIF_TIME")); err == nil {
		return d
	}
	return 700 * time.Second
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "vrun:", err)
	os.Exit(2)
}

func main() {
	prop := flag.String("prop", "", "property")
	tierFlag := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	dir := flag.String("dir", "", "scratch directory")
	evidence := flag.String("evidence", "", "evidence directory")
	repo := flag.String("repo", "/repo", "sources under test, for the dictionary and the rule files")
	wk := flag.Int("worker", -1, "worker number (internal)")
	wn := flag.Int("workers", 0, "number of workers")
	findings := flag.Bool("findings", false, "print the known findings")
	replay := flag.String("replay", "", "replay file")
	once := flag.Bool("once", false, "replay on behalf of a check (internal)")
	list := flag.Bool("list", false, "list checks")
	flag.Parse()
	if *list {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return
	}
	repoRoot = *repo
	if b, err := os.ReadFile(os.Getenv("VERIF_DICT")); err != nil || json.Unmarshal(b, &dict) != nil {
		dict = mineDictionary(*repo)
	}
	if *findings {
		writeFindings()
		return
	}
	if *replay != "" {
		replayMain(*replay, *once)
		return
	}
	c := checks[*prop]
	if c == nil {
		fatal(fmt.Errorf("unknown property %q", *prop))
	}
	tier := Tier{Thorough: *tierFlag == "thorough"}
	if *wk >= 0 {
		workerMain(c, *seed, tier, *wk, *wn, *dir)
		return
	}
	os.Exit(parentMain(c, *seed, tier, *wn, *dir, *evidence, *repo))
}

var repoRoot string

// replayMain runs the case of a replay file. Once it is one on behalf of a check.
func replayMain(path string, once bool) {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal(err)
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		fatal(err)
	}
	c := checks[v.Property]
	if c == nil {
		fatal(fmt.Errorf("unknown property %q", v.Property))
	}
	dir, err := os.MkdirTemp("", "vreplay")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(dir)
	w := &worker{check: c, seed: v.Seed, tier: Tier{Thorough: v.Tier == "thorough"}, distinct: map[uint64]struct{}{}, verbose: !once, scratch: dir}
	w.st.Cases = map[string]int{}
	w.st.Hist = map[string]int{}
	w.st.Known = map[string]string{}
	w.started.Store(-1)
	for _, s := range c.Streams(w.tier) {
		if s.Name == v.Stream {
			w.runCase(s, v.Index)
		}
	}
	if once {
		for _, v := range w.st.Violations {
			fmt.Fprintln(os.Stderr, v.Message)
		}
		if len(w.st.Violations) > 0 {
			os.Exit(1)
		}
		return
	}
	fmt.Printf("replayed %s %s/%d: %d violations, %d errors %v\n", v.Property, v.Stream, v.Index, len(w.st.Violations), len(w.st.Errors), w.st.Errors)
}

func parentMain(c *Check, seed int64, tier Tier, n int, dir, evidence, repo string) int {
	start := time.Now()
	if n == 0 {
		n = c.Workers
	}
	if n == 0 {
		n = runtime.NumCPU()
	}
	covdir := filepath.Join(dir, "cov")
	os.MkdirAll(covdir, 0755)
	os.MkdirAll(filepath.Join(evidence, "replays"), 0755)

	limit := 780 * time.Second
	if tier.Thorough {
		limit = thoroughTime() + 120*time.Second
	}
	type outcome struct {
		k      int
		err    error
		stderr string
	}
	outs := make([]outcome, n)
	var wg sync.WaitGroup
	var timedOut atomic.Bool
	exe, err := os.Executable()
	if err != nil {
		fatal(err)
	}
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			cmd := exec.Command(exe, "-prop", c.ID, "-tier", tierName(tier), "-seed", fmt.Sprint(seed), "-dir", dir, "-repo", repo,
				"-worker", fmt.Sprint(k), "-workers", fmt.Sprint(n))
			cmd.Env = append(os.Environ(), "GOCOVERDIR="+covdir, "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66")
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			var stderr tail
			cmd.Stderr = &stderr
			cmd.Stdout = os.Stdout
			if err := cmd.Start(); err != nil {
				outs[k] = outcome{k, err, ""}
				return
			}
			timer := time.AfterFunc(limit, func() {
				timedOut.Store(true)
				cmd.Process.Kill()
			})
			err := cmd.Wait()
			timer.Stop()
			outs[k] = outcome{k, err, stderr.String()}
		}(k)
	}
	wg.Wait()

	total := stats{Cases: map[string]int{}, Hist: map[string]int{}, Known: map[string]string{}}
	distinct := map[uint64]struct{}{}
	for k, o := range outs {
		if b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("stats%d", k))); err == nil {
			var st stats
			if err := json.Unmarshal(b, &st); err != nil {
				total.Errors = append(total.Errors, fmt.Sprintf("worker %d: %v", k, err))
			}
			total.Evaluations += st.Evaluations
			for name, m := range st.Cases {
				total.Cases[name] += m
			}
			for name, m := range st.Hist {
				total.Hist[name] += m
			}
			for name, m := range st.Known {
				total.Known[name] = m
			}
			total.Samples = append(total.Samples, st.Samples...)
			total.Violations = append(total.Violations, st.Violations...)
			total.Errors = append(total.Errors, st.Errors...)
		}
		if b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("distinct%d", k))); err == nil {
			for i := 0; i+8 <= len(b); i += 8 {
				distinct[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
			}
		}
		if o.err != nil {
			stream, idx := "?", 0
			if b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("journal%d", k))); err == nil {
				line := strings.TrimSpace(string(b))
				if i := strings.LastIndexByte(line, ' '); i >= 0 {
					stream = line[:i]
					fmt.Sscanf(line[i+1:], "%d", &idx)
				}
			}
			blame := blamesRepo(o.stderr) || strings.Contains(o.stderr, "WATCHDOG")
			killed := false
			if ee, ok := o.err.(*exec.ExitError); ok {
				if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
					killed = true
				}
			}
			switch {
			case killed || !blame:
				total.Errors = append(total.Errors, fmt.Sprintf("worker %d ended at %s/%d: %v\n%s", k, stream, idx, o.err, clipStack(o.stderr)))
			default:
				total.Violations = append(total.Violations, violation{Property: c.ID, Seed: seed, Tier: tierName(tier), Stream: stream, Index: idx,
					Message: fmt.Sprintf("the process was ended by the case: %v\n%s", o.err, clipStack(o.stderr))})
			}
		}
	}
	if timedOut.Load() {
		total.Errors = append(total.Errors, "time limit")
	}
	sort.Slice(total.Violations, func(i, j int) bool {
		a, b := total.Violations[i], total.Violations[j]
		if a.Stream != b.Stream {
			return a.Stream < b.Stream
		}
		return a.Index < b.Index
	})
	if len(total.Errors) == 0 && len(total.Violations) == 0 && total.Evaluations < c.MinEvals && os.Getenv("VERIF_FRACTION") == "" {
		total.Errors = append(total.Errors, fmt.Sprintf("only %d decisions, expected %d at least", total.Evaluations, c.MinEvals))
	}

	samples := []interface{}{}
	for i := 0; i < len(total.Samples) && i < 8; i++ {
		samples = append(samples, total.Samples[i])
	}
	cov := map[string]interface{}{
		"evaluations":         total.Evaluations,
		"distinct_nontrivial": len(distinct),
		"rule":                c.Rule,
		"samples":             samples,
		"cases_per_stream":    total.Cases,
		"observed":            total.Hist,
		"workers":             n,
	}
	if s := traitSummary(dir, n); s != nil {
		cov["traits_of_rules"] = s
	}
	if s := statementCoverage(covdir, dir); s != nil {
		cov["statements_reached"] = s
	}
	ev := map[string]interface{}{
		"property":    c.ID,
		"tier":        tierName(tier),
		"seed":        seed,
		"level":       "exploration",
		"coverage":    cov,
		"assumptions": append([]string{}, c.Assumptions...),
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(total.Violations),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evidence, c.ID+".json"), append(b, '\n'), 0644); err != nil {
		fatal(err)
	}

	for _, id := range sortedStrings(total.Known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, total.Known[id])
	}
	fmt.Printf("%s %s: %d decisions, %d distinct non-trivial cases, %d violations, %.1f s\n", c.ID, tierName(tier), total.Evaluations, len(distinct), len(total.Violations), time.Since(start).Seconds())
	if len(total.Violations) > 0 {
		for i, v := range total.Violations {
			if i >= 5 {
				break
			}
			path := filepath.Join(evidence, "replays", fmt.Sprintf("%s-%d.json", c.ID, i))
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(path, append(b, '\n'), 0644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
			msg := v.Message
			if len(msg) > 1500 {
				msg = msg[:1500] + "..."
			}
			fmt.Printf("  %s/%d: %s\n", v.Stream, v.Index, strings.ReplaceAll(msg, "\n", "\n  "))
			if v.Input != "" {
				in := v.Input
				if len(in) > 600 {
					in = in[:600] + "..."
				}
				fmt.Printf("  input: %q\n", in)
			}
		}
		return 1
	}
	if len(total.Errors) > 0 {
		for i, e := range total.Errors {
			if i < 5 {
				fmt.Printf("INCONCLUSIVE: %s\n", e)
			}
		}
		return 2
	}
	return 0
}

func sortedStrings(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// tail keeps the first and the last of what is written.
type tail struct {
	mu   sync.Mutex
	head []byte
	last []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	n := len(p)
	if room := 1<<16 - len(t.head); room > 0 {
		k := min(room, len(p))
		t.head = append(t.head, p[:k]...)
		p = p[k:]
	}
	t.last = append(t.last, p...)
	if len(t.last) > 1<<16 {
		t.last = append([]byte(nil), t.last[len(t.last)-1<<15:]...)
	}
	return n, nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.head) + string(t.last)
}

// statementCoverage reports which share of the statements of each package under
// test the run executed. It informs only, and decides nothing.
func statementCoverage(covdir, dir string) map[string]string {
	ents, err := os.ReadDir(covdir)
	if err != nil || len(ents) == 0 {
		return nil
	}
	out, err := exec.Command("go", "tool", "covdata", "percent", "-i="+covdir).CombinedOutput()
	if err != nil {
		return nil
	}
	res := map[string]string{}
	for _, line := range strings.Split(string(out), "\n") {
		f := strings.Fields(line)
		if len(f) >= 3 && strings.HasPrefix(f[0], strings.TrimSuffix(repoPath, "/")) {
			res[strings.TrimPrefix(f[0], repoPath)] = f[2]
		}
	}
	return res
}
