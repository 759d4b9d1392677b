package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/bits"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/pass"
	"github.com/mmcloughlin/ssarules/printer"
	"github.com/mmcloughlin/ssarules/smt2"
)

// yieldReader and yieldWriter give way to other goroutines at random.
type yieldReader struct {
	r *RNG
	s string
}

func (y *yieldReader) Read(p []byte) (int, error) {
	if y.r.p(1, 2) {
		runtime.Gosched()
	}
	if len(y.s) == 0 {
		return 0, io.EOF
	}
	n := min(1+y.r.n(200), len(p), len(y.s))
	copy(p, y.s[:n])
	y.s = y.s[n:]
	return n, nil
}

type yieldWriter struct {
	r   *RNG
	buf bytes.Buffer
}

func (y *yieldWriter) Write(p []byte) (int, error) {
	if y.r.p(1, 8) {
		runtime.Gosched()
	}
	return y.buf.Write(p)
}

// A conOp is an operation of the library on a work item, with its result as text.
type conOp struct {
	name string
	run  func(w *conItem, r *RNG) string
}

// conItem is a text and the tree it stands for, shared by all goroutines.
type conItem struct {
	text string
	path string
	file *ast.File // shared, never modified
}

func errText(err error) string {
	if err == nil {
		return "ok"
	}
	return "error " + err.Error()
}

var conOps = []conOp{
	{"parse.String", func(w *conItem, r *RNG) string {
		f, err := parse.String(w.text)
		return canonFileR(f) + errText(err)
	}},
	{"parse.Reader", func(w *conItem, r *RNG) string {
		f, err := parse.Reader("in", &yieldReader{r, w.text})
		return canonFileR(f) + errText(err)
	}},
	{"parse.File", func(w *conItem, r *RNG) string {
		f, err := parse.File(w.path)
		return canonFileR(f) + errText(err)
	}},
	{"printer.Bytes", func(w *conItem, r *RNG) string {
		b, err := printer.Bytes(w.file)
		return string(b) + errText(err)
	}},
	{"printer.Fprint", func(w *conItem, r *RNG) string {
		y := &yieldWriter{r: r}
		err := printer.Fprint(y, w.file)
		return y.buf.String() + errText(err)
	}},
	{"ast.Dump", func(w *conItem, r *RNG) string {
		s, err := ast.Dump(w.file)
		return s + errText(err)
	}},
	{"ast.Inspect", func(w *conItem, r *RNG) string {
		var b strings.Builder
		ast.Inspect(w.file, func(n ast.Node) bool {
			b.WriteString(kindOf(n) + " ")
			if b.Len()%64 == 0 {
				runtime.Gosched()
			}
			return true
		})
		return b.String()
	}},
	{"rules.Has", func(w *conItem, r *RNG) string {
		var b strings.Builder
		for _, rule := range w.file.Rules {
			for _, p := range predicates {
				fmt.Fprint(&b, p.f(rule), " ")
			}
		}
		return b.String()
	}},
	{"smt2.Generate", func(w *conItem, r *RNG) string {
		var b strings.Builder
		for _, rule := range w.file.Rules {
			s, err := smt2.Generate(rule)
			b.Write(s)
			b.WriteString(errText(err))
		}
		return b.String()
	}},
	{"pass.ExpandAlternates", func(w *conItem, r *RNG) string {
		// A file of one's own, of shared rules.
		f := &ast.File{Rules: append([]*ast.Rule(nil), w.file.Rules...)}
		err := pass.ExpandAlternates(f)
		return canonFileR(f) + errText(err)
	}},
	{"parse and expand", func(w *conItem, r *RNG) string {
		f, err := parse.String(w.text)
		if err != nil {
			return errText(err)
		}
		err = pass.ExpandAlternates(f)
		b, perr := printer.Bytes(f)
		return string(b) + errText(err) + errText(perr)
	}},
	{"parse of a bad text", func(w *conItem, r *RNG) string {
		_, err := parse.String(w.text + "(A")
		return errText(err)
	}},
}

// monitor records which operations were seen running at the same time.
type monitor struct {
	active [16]atomic.Int32
	pairs  [16]atomic.Uint32
	most   atomic.Int32
	now    atomic.Int32
	starts atomic.Int64
}

func (m *monitor) begin(op int) {
	n := m.now.Add(1)
	for {
		old := m.most.Load()
		if n <= old || m.most.CompareAndSwap(old, n) {
			break
		}
	}
	m.starts.Add(1)
	m.active[op].Add(1)
	m.look(op)
}

func (m *monitor) look(op int) {
	var seen uint32
	for i := range conOps {
		k := m.active[i].Load()
		if i == op {
			k--
		}
		if k > 0 {
			seen |= 1 << i
		}
	}
	for {
		old := m.pairs[op].Load()
		if m.pairs[op].CompareAndSwap(old, old|seen) {
			return
		}
	}
}

func (m *monitor) end(op int) {
	m.look(op)
	m.active[op].Add(-1)
	m.now.Add(-1)
}

// conCase runs operations on shared items from many goroutines at once, and then
// each alone, and demands the same results.
func conCase(c *Case, items []*conItem, goroutines, each int, only int) {
	if only >= 0 {
		conCaseOps(c, items, goroutines, each, []int{only})
		return
	}
	conCaseOps(c, items, goroutines, each, nil)
}

// conCaseOps runs some of the operations, or any, in goroutines.
func conCaseOps(c *Case, items []*conItem, goroutines, each int, only []int) {
	type result struct {
		op, item int
		got      string
	}
	results := make([][]result, goroutines)
	var mon monitor
	start := make(chan struct{})
	var wg sync.WaitGroup
	var panics sync.Map
	for g := 0; g < goroutines; g++ {
		seed := c.next()
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					buf := make([]byte, 1<<14)
					panics.Store(g, fmt.Sprintf("%v\n%s", e, buf[:runtime.Stack(buf, false)]))
				}
			}()
			r := &RNG{seed}
			<-start
			for i := 0; i < each; i++ {
				op, item := r.n(len(conOps)), r.n(len(items))
				if len(only) > 0 {
					op = only[op%len(only)]
				}
				mon.begin(op)
				got := conOps[op].run(items[item], r)
				mon.end(op)
				results[g] = append(results[g], result{op, item, got})
			}
		}(g)
	}
	close(start)
	wg.Wait()
	panics.Range(func(_, v interface{}) bool {
		c.Fail("panic under concurrent use: %v", v)
		return false
	})
	// Alone.
	alone := map[[2]int]string{}
	for g, rs := range results {
		for _, r := range rs {
			key := [2]int{r.op, r.item}
			want, ok := alone[key]
			if !ok {
				want = conOps[r.op].run(items[r.item], &RNG{1})
				alone[key] = want
			}
			c.Eval(1)
			if r.got != want {
				c.Input(items[r.item].text)
				c.Fail("%s gives another result under concurrent use (goroutine %d): %s", conOps[r.op].name, g, diff(want, r.got))
				return
			}
		}
	}
	pairs := 0
	for i := range conOps {
		seen := mon.pairs[i].Load()
		pairs += bits.OnesCount32(seen)
		for k := range conOps {
			if seen>>k&1 == 1 && k >= i {
				c.w.st.Hist["seen together: "+conOps[i].name+" and "+conOps[k].name]++
			}
		}
	}
	c.Hit(fmt.Sprintf("most at once: %d", mon.most.Load()))
	c.w.st.Hist["operations run"] += int(mon.starts.Load())
	c.Distinct(fmt.Sprint(c.Stream, c.Idx, pairs))
}

// conItems makes work items. The trees are built by hand, so that nothing of the
// library has run before.
func conItems(c *Case, n int) []*conItem {
	var items []*conItem
	for i := 0; i < n; i++ {
		var m *MFile
		switch c.n(4) {
		case 0:
			m = randomModel(c.RNG)
		case 1:
			m = consistentModel(c.RNG, 1+c.n(4))
		default:
			m = cliFile(c, 1+c.n(4))
		}
		if len(m.Rules) > 12 {
			m.Rules = m.Rules[:12]
		}
		w := &conItem{text: newRend(c.RNG).file(m), file: builtFile(c, m), path: filepath.Join(c.Scratch(), fmt.Sprintf("con%d.rules", i))}
		if c.p(1, 4) {
			w.text = mutate(c.RNG, w.text)
		}
		if err := os.WriteFile(w.path, []byte(w.text), 0o644); err != nil {
			c.Error("%v", err)
		}
		items = append(items, w)
	}
	return items
}

// freshProcess runs a case in a process of its own, where all operations are the
// first of their kind.
func freshProcess(c *Case, stream string, idx int) {
	path := filepath.Join(c.Scratch(), "fresh.json")
	b, err := json.Marshal(violation{Property: "C14", Seed: c.w.seed, Tier: tierName(c.tier), Stream: stream, Index: idx})
	if err == nil {
		err = os.WriteFile(path, b, 0o644)
	}
	words := filepath.Join(c.Scratch(), "dict.json")
	if d, err := json.Marshal(dict); err == nil {
		os.WriteFile(words, d, 0o644)
	}
	exe, err2 := os.Executable()
	if err != nil || err2 != nil {
		c.Error("%v %v", err, err2)
		return
	}
	cmd := exec.Command(exe, "-replay", path, "-once", "-repo", repoRoot)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66", "VERIF_DICT="+words)
	var stderr tail
	cmd.Stderr = &stderr
	err = cmd.Run()
	c.Eval(1)
	c.Hit("fresh processes")
	if err == nil {
		return
	}
	var ee *exec.ExitError
	if out := stderr.String(); errors.As(err, &ee) && (ee.ExitCode() == 1 || blamesRepo(out)) {
		c.Fail("in a process of its own, %s/%d: %v\n%s", stream, idx, err, clipStack(out))
		return
	}
	c.Error("process: %v %s", err, clipStack(stderr.String()))
}

// raceCase is about one or two operations that are the first of a process, in many
// goroutines at once.
func raceCase(c *Case) {
	runtime.GOMAXPROCS(6)
	items := conItems(c, 2)
	n := len(conOps)
	conCaseOps(c, items, 12, 3, []int{c.Idx % n, (c.Idx%n + c.Idx/n) % n})
}

func init() {
	register(&Check{
		ID:       "C14",
		MinEvals: 5000,
		Workers:  4,
		Procs:    6,
		Rule: "A case runs the operations of the library from 2 to 32 goroutines on shared texts and trees, with readers and writers that give way, built with the race detector; every result is compared with that of the operation alone, later. The first case of every process is also the first use of the library. Callbacks (visitors, readers, writers) wait for operations in other goroutines, which must not deadlock; or for one another, hundreds at once; or end the operation by a panic, hundreds of times. " +
			"Which operations were seen running at the same time is recorded. Non-trivial: every case; distinct by case and number of pairs of operations seen together.",
		Assumptions: []string{"the race detector sees races of the interleavings that occur", "trees that are shared are not modified by their users; ExpandAlternates gets a file of its own, whose rules may be shared"},
		Streams: func(t Tier) []Stream {
			n := len(conOps)
			return []Stream{
				// First use comes first.
				{"first use", 4 * 4, func(c *Case) { conCase(c, conItems(c, 4), 16, 12, -1) }},
				// The same in processes that did nothing else: those of this stream run the next.
				{"processes", n * t.n(n, 4*n), func(c *Case) { freshProcess(c, "in a process", c.Idx) }},
				{"mixed", t.n(160, 6000), func(c *Case) {
					conCase(c, conItems(c, 1+c.n(6)), 2+c.n(31), 4+c.n(12), -1)
				}},
				{"one operation", len(conOps) * t.n(8, 200), func(c *Case) {
					conCase(c, conItems(c, 1+c.n(3)), 8+c.n(17), 6, c.Idx%len(conOps))
				}},
				{"in a process", 0, raceCase},
				{"waiting for one another", t.n(120, 4000), func(c *Case) { within(c, true) }},
				{"meetings", t.n(60, 2000), func(c *Case) {
					meeting(c, []int{2, 5, 10, 20, 40, 70, 140, 300}[c.n(8)])
				}},
				{"abandoned operations", t.n(16, 300), func(c *Case) { abandoned(c, 300) }},
				{"one item", t.n(60, 2000), func(c *Case) { conCase(c, conItems(c, 1), 16, 12, -1) }},
			}
		},
	})
}
