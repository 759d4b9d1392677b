package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"runtime"
	"runtime/coverage"
	"strings"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/pass"
	"github.com/mmcloughlin/ssarules/printer"
	"github.com/mmcloughlin/ssarules/rules"
	"github.com/mmcloughlin/ssarules/smt2"
)

// Work done by an operation, as deterministic counts: statements of the repository
// executed (the check is built with counters), allocations, and bytes allocated.
type work struct{ stmts, mallocs, bytes float64 }

var countersBroken error

// statements sums the counters of all packages that are instrumented.
func statements() float64 {
	var buf bytes.Buffer
	if err := coverage.WriteCounters(&buf); err != nil {
		countersBroken = err
		return 0
	}
	b := buf.Bytes()
	bad := func(why string) float64 {
		countersBroken = fmt.Errorf("counter data: %s", why)
		return 0
	}
	// The header: magic, version, hash, flavour of the counters.
	if len(b) < 32+16+16 || string(b[:4]) != "\x00\x63\x77\x6d" {
		return bad("no header")
	}
	flavor := b[24]
	b = b[32 : len(b)-16]
	fns := binary.LittleEndian.Uint64(b)
	skip := 16 + int(binary.LittleEndian.Uint32(b[8:])) + int(binary.LittleEndian.Uint32(b[12:]))
	skip = (skip + 3) / 4 * 4
	if skip > len(b) {
		return bad("no segment")
	}
	b = b[skip:]
	next := func() uint64 {
		if flavor == 1 {
			if len(b) < 4 {
				b = nil
				return 0
			}
			v := binary.LittleEndian.Uint32(b)
			b = b[4:]
			return uint64(v)
		}
		v, n := binary.Uvarint(b)
		if n <= 0 {
			b = nil
			return 0
		}
		b = b[n:]
		return v
	}
	sum := 0.0
	for i := uint64(0); i < fns; i++ {
		n := next()
		next()
		next()
		for k := uint64(0); k < n; k++ {
			if b == nil {
				return bad("cut off")
			}
			sum += float64(next())
		}
	}
	return sum
}

func measure(f func()) work {
	var a, b runtime.MemStats
	if err := coverage.ClearCounters(); err != nil {
		countersBroken = err
	}
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return work{statements(), float64(b.Mallocs - a.Mallocs), float64(b.TotalAlloc - a.TotalAlloc)}
}

// A growing family: the text of size n of it.
type growFamily struct {
	name string
	text func(n int) string
}

func rep(s string, n int) string { return strings.Repeat(s, n) }

func nested(open, core, close string) func(n int) string {
	return func(n int) string { return rep(open, n) + core + rep(close, n) }
}

// inRule puts a growing piece in place of the @@ in a text.
func inRule(text string, f func(n int) string) func(n int) string {
	return func(n int) string { return strings.Replace(text, "@@", f(n), 1) }
}

func repeated(pre, s, post string) func(n int) string {
	return func(n int) string { return pre + rep(s, n) + post }
}

// Repetitions and nests of every construct, complete or broken off.
func growFamilies() []growFamily {
	var out []growFamily
	add := func(name string, f func(n int) string) { out = append(out, growFamily{name, f}) }
	places := []string{"%s => x", "(A %s) => x", "(A x) => %s", "(A x) => (B y %s)", "(A x) && c => (B %s ___)", "((A|B) %s) => (C %s)"}
	values := [][3]string{
		{"(A ", "x", ")"}, {"(A ", "(B)", ")"}, {"(A x ", "(B)", " y)"}, {"v:(A ", "(B)", ")"}, {"(A <t> [1] {s} ", "x", ")"}, {"(A (B) ", "(C)", " (D))"},
		{"((A|B) ", "(C)", ")"}, {"((A|B)C(D|E) ", "(C)", ")"}, {"(A ", "(B)", " <t> [1] {s})"}, {"(A ", "(B)", " ...)"}, {"(A ", "(B)", " ___)"},
		{"(A // c\n", "x", "//\n)"}, {"(A\n\n", "x", "\n)"}, {"(Neg64 ", "x", ")"}, {"(Add8 x ", "y", ")"}, {"(Add8 ", "y", " x)"}, {"x:(A _ ", "y", " [1])"},
		{"v:((A|B)C ", "f(x)", " ___)"}, {"(A f(", "(B)", "))"}, {"f(", "x", ")"}, {"f(a, ", "x", ", b)"}, {"f(x, g(", "y", "))"}, {"(A [", "1", "])"}, {"(A {", "1", "})"},
		{"(A <", "t", ">)"}, {"((", "A|B", "))"},
	}
	for _, p := range places {
		for _, v := range values {
			full := nested(v[0], v[1], v[2])
			add("nest "+v[0]+v[1]+v[2]+" in "+p, func(n int) string { return strings.ReplaceAll(p, "%s", full(n)) })
			add("unclosed "+v[0]+v[1]+" in "+p, func(n int) string { return strings.ReplaceAll(p, "%s", rep(v[0], n)+v[1]) })
			add("stray in nest "+v[0]+v[1]+v[2]+" in "+p, func(n int) string { return strings.ReplaceAll(p, "%s", rep(v[0], n)+"$"+rep(v[2], n)) })
			add("one closed less, "+v[0]+v[1]+v[2]+" in "+p, func(n int) string { return strings.ReplaceAll(p, "%s", rep(v[0], n)+v[1]+rep(v[2], n-1)) })
			add("wrong Go within "+v[0]+v[2]+" in "+p, func(n int) string { return strings.ReplaceAll(p, "%s", rep(v[0], n)+"(B [1 2])"+rep(v[2], n)) })
		}
		for _, s := range []string{" x", " (A)", " v:(A)", " _", " f(x)", " [1]", " {a}", " <t>", " ...", " ___", "\n", " ", "// c\n", "//\n", "\t", "\r\n", " x:", " (", " )", " (A", "_", "a", "A", ":", " ((A|B) x)", " ((A|B)C(D|E))", " é", " $"} {
			add("repeated "+s+" in "+p, func(n int) string { return strings.ReplaceAll(p, "%s", "(A x"+rep(s, n)+")") })
			add("repeated "+s+" at the end of "+p, func(n int) string { return strings.ReplaceAll(p, "%s", "x") + rep(s, n) })
			add("repeated "+s+" before "+p, func(n int) string { return rep(s, n) + strings.ReplaceAll(p, "%s", "x") })
		}
	}
	// Go expressions.
	exprs := []func(n int) string{
		nested("(", "a", ")"), nested("-", "a", ""), nested("- ", "a", ""), nested("!", "a", ""), nested("*", "p", ""), nested("&", "p", ""), nested("^", "a", ""), nested("f(", "a", ")"), nested("f(a, ", "b", ")"),
		nested("(-(", "a", "))"), nested("(a + ", "b", ")"), nested("(", "b", " * a)"), nested("f(g(", "a", ").h)"), nested("f(", "a", ")(b)"), nested("a(", "", ")"), nested("a+(b-", "c", ")"), nested("<-", "c", ""), nested("a.b(", "c", ").d"),
		repeated("a", " + a", ""), repeated("a", " && a", ""), repeated("a", " || b && c", ""), repeated("a", " == b && c", ""), repeated("a", ".b", ""), repeated("a", "(b)", ""), repeated("a", ".b(c)", ""), repeated("f(a", ", b", ")"), repeated("f(a", ", b", "...)"),
		repeated("a", "b", ""), repeated("1", "0", ""), repeated("\"", "s", "\""), repeated("\"", "\\n", "\""), repeated("`", "r\n", "`"), repeated("a ", "\n", "+ b"), repeated("a ", " ", "+ b"), repeated("a +", "/* c */", " b"), repeated("a +", "// c\n", " b"), repeated("0x", "f_f", ""), repeated("a", " << 1", ""),
		repeated("a", " + -b*c", ""), repeated("a", " &^ b|c", ""),
		// Malformed, or not supported.
		nested("(", "a", ""), nested("", "a", ")"), nested("f(", "a", ""), repeated("a", " +", ""), repeated("a", " b", ""), nested("-", "", ""), repeated("", "!", ""), nested("a[", "0", "]"), nested("[]", "int", ""), nested("func() ", "int", ""), nested("T{", "a", "}"), nested("func(){", "", "}"), nested("a.(", "T", ")"), nested("map[", "a", "]b"), nested("*", "", ""), repeated("", "..", ""), repeated("a", "$", ""), repeated("a", "é", ""), nested("chan ", "T", ""), repeated("a", ";b", ""), repeated("1", " 2", ""),
	}
	shown := func(f func(n int) string) string { return f(2) }
	for _, e := range exprs {
		for _, p := range []string{"(A x) && @@ => y", "(A [@@]) => y", "(A {@@}) => (B {@@} x)", "(A x) && a && @@ && b => @blk (B)", "(A x) => (B f(@@))", "(A [@@] (B [@@])) => y", "(A x) && @@"} {
			add("expression "+shown(e)+" in "+p, func(n int) string { return strings.ReplaceAll(p, "@@", e(n)) })
		}
	}
	// Files, and pieces of opcodes.
	for _, s := range []string{"(A x) => x\n", "(A x) && c => (B)\n", "((A|B) x) => (C (D|E))\n", "(Add8 x y) => (Sub8 x y)\n", "// c\n", "\n", "(A) => (B) ", "(A)", "=>", "&&", "(A) => ", "(A x) && c ", "=> @b ", " => x (A x)", "(A x)\n=> (A x)\n&& c\n"} {
		add("file of "+s, repeated("", s, ""))
		add("file of "+s+" with an end", repeated("", s, "$"))
		add("file of "+s+" with a rule", repeated("", s, "(A) => (B)"))
	}
	for _, s := range []string{"A", "(A|B)", "(A|B)C", "|A", "(A|", "A)", "|", "(A|B|C)x"} {
		for _, p := range []string{"((Q@@ x) => x", "(Q(A@@) x) => x", "(Q(A|B@@) x) => (R(A|B@@) x)", "((A|B)@@ [1]) => x", "(@@ x) => (@@ x)", "(A (B(C|D@@) x)) => (E(C|D@@))", "(A|@@) => x"} {
			add("opcode "+s+" in "+p, func(n int) string { return strings.ReplaceAll(p, "@@", rep(s, n)) })
		}
	}
	add("alternates", func(n int) string {
		return "(A(B" + rep("|C", n) + ") (D(E" + rep("|F", n) + ")) x) => (G(H" + rep("|I", n) + "))"
	})
	add("alternates of n operations", func(n int) string { return "(A" + rep(" ((B|C) x)", n) + ") => (D" + rep(" ((E|F) x)", n) + ")" })
	add("alternates of nested operations", func(n int) string {
		return rep("((B|C) ", n) + "x" + rep(")", n) + " => " + rep("((E|F) ", n) + "x" + rep(")", n)
	})
	add("parts of one alternate", func(n int) string { return "(A" + rep("(B|C)", n) + " x) => " + rep("((E|F) ", n) + "x" + rep(")", n) })
	add("balanced", func(n int) string {
		var b func(n int) string
		b = func(n int) string {
			if n <= 1 {
				return "x"
			}
			return "(Add8 " + b(n/2) + " " + b(n-n/2) + ")"
		}
		return b(n) + " => " + b(n)
	})
	// Something at the bottom of a nest only.
	tops := [][2]string{{"(A ", ")"}, {"(A x ", " y)"}, {"v:(A <t> ", " [1] z)"}, {"(Neg64 ", ")"}, {"(Add8 x ", ")"}, {"(Sub8 ", " x)"}, {"(And16 (Com16 y) ", ")"}, {"(AndB ", " y)"}, {"(Not ", ")"}, {"(NeqB (Not z) ", ")"}, {"(A (B) ", " (C))"}, {"((A|B) ", ")"}}
	bottoms := []string{
		"v:(A x)", "(A <t> x)", "(A [1] x)", "(A {s} x)", "(A ...)", "(A ___)", "(A f(x))", "f(x)", "_", "(Mul8 x y)", "(Add16 x y)", "(Add64 x y)", "(Not x)", "(Neg64 x y)", "(Add8 x)", "(Neg64)",
		"((A|B|C) x)", "((A|B)C(D|E|F) x)", "((Add|Sub)8 x y)", "(A [1+] x)", "(A [a[0]] x)", "(A $)", "(A [1] [2])", "x:(B y", "(A))",
	}
	for _, t := range tops {
		for _, b := range bottoms {
			add("bottom "+b+" of "+t[0]+t[1], func(n int) string { return rep(t[0], n) + b + rep(t[1], n) + " => x" })
			add("bottom "+b+" of "+t[0]+t[1]+" in the result", func(n int) string {
				return "(Add8 x y) => " + rep(t[0], n) + b + rep(t[1], n)
			})
		}
	}
	// The same within expressions.
	exprTops := [][2]string{{"f(", ")"}, {"f(a, ", ", b)"}, {"(", ")"}, {"-", ""}, {"!(", ")"}, {"a+(", ")"}, {"(", "*a)"}, {"(a && ", ")"}, {"f(", ").g"}, {"*", ""}, {"f(a)(", ")"}, {"a.b(-", ", c...)"}, {"(f(", ")==g)"}}
	exprBottoms := []string{
		"func(){}", "func(a int) b { return c }", "a[0]", "a[1:2]", "a[T, U]", "T{}", "T{a: b}", "a.(T)", "[]int{}", "chan T", "map[a]b{}", "struct{}{}", "interface{}(a)", "1 2", "$", "", "a +", "\"s", "'cc'", "f()", "a.b", "1.5i", "0b2", "a...", "<-c", "a, b", "a = b", "(T)", "...",
	}
	for i, p := range []string{"(A [@@]) => y", "(A x) && @@ => y", "(A x) => (B f(@@) {@@})"} {
		for j, t := range exprTops {
			for k, b := range exprBottoms {
				if (i+j+k)%3 != 0 && j > 1 {
					continue
				}
				add("bottom "+b+" of "+t[0]+t[1]+" in "+p, func(n int) string { return strings.ReplaceAll(p, "@@", rep(t[0], n)+b+rep(t[1], n)) })
			}
		}
	}
	add("variables", func(n int) string {
		s := "x0"
		for i := 1; i < n; i++ {
			s = fmt.Sprintf("(Add8 x%d %s)", i, s)
		}
		return s + " => " + s
	})
	return out
}

// A random family: a text with a part repeated, or nested in itself.
func randomFamily(r *RNG) growFamily {
	g := newGen(r, 6)
	g.MaxGo = 2
	w := newRend(r)
	if r.p(1, 2) {
		w = plainRend(r)
	}
	text := w.file(g.file(1))
	if len(text) > 400 {
		text = text[:400]
	}
	cut := func() int { return r.n(len(text) + 1) }
	i, j := cut(), cut()
	if i > j {
		i, j = j, i
	}
	if j-i > 60 {
		j = i + r.n(60)
	}
	pre, piece, post := text[:i], text[i:j], text[j:]
	if r.p(1, 4) {
		piece = r.pick(mutTokens) + r.pick(holeTokens)
	}
	if r.p(1, 4) {
		post = mutate(r, post)
	}
	if r.p(1, 2) {
		k := r.n(len(piece) + 1)
		return growFamily{"random nest", func(n int) string { return pre + rep(piece[:k], n) + rep(piece[k:], n) + post }}
	}
	return growFamily{"random repetition", func(n int) string { return pre + rep(piece, n) + post }}
}

// A nest of contexts made of random operations.
func contextFamily(r *RNG) growFamily {
	g := newGen(r, 5)
	g.MaxGo = 1
	var pre, post []string
	for k := 1 + r.n(3); k > 0; k-- {
		s := g.sexpr(0)
		at := r.n(len(s.Args) + 1)
		s.Args = append(append(append([]MVal(nil), s.Args[:at]...), MVar("zzhole")), s.Args[at:]...)
		t := plainRend(r).file(one(&MRule{Match: s, Result: MVar("x")}))
		t = t[:strings.LastIndex(t, "=>")]
		i := strings.Index(t, "zzhole")
		if i < 0 {
			continue
		}
		pre, post = append(pre, t[:i]), append(post, strings.TrimSpace(t[i+len("zzhole"):]))
	}
	end := ""
	if r.p(1, 3) {
		end = r.pick(mutTokens)
	}
	return growFamily{"random contexts", func(n int) string {
		var b, e []byte
		for i := 0; i < n; i++ {
			b = append(b, pre[i%len(pre)]...)
		}
		b = append(b, "x"...)
		for i := n - 1; i >= 0; i-- {
			e = append(e, post[i%len(pre)]...)
		}
		return string(b) + string(e) + " => x" + end
	}}
}

// An operation whose work is measured: it returns the size of its result.
type growOp struct {
	name string
	run  func(text string, f *ast.File) (out int)
}

type discardCount struct{ n int }

func (d *discardCount) Write(p []byte) (int, error) { d.n += len(p); return len(p), nil }

// failingCount fails where its count is used up.
type failingCount struct{ n int }

func (d *failingCount) Write(p []byte) (int, error) {
	d.n -= len(p)
	if d.n < 0 {
		return 0, io.ErrShortWrite
	}
	return len(p), nil
}

var growOps = []growOp{
	{"parse", func(text string, f *ast.File) int { parse.String(text); return 0 }},
	{"read", func(text string, f *ast.File) int {
		parse.Reader("in", struct{ io.Reader }{strings.NewReader(text)})
		return 0
	}},
	{"print", func(text string, f *ast.File) int { b, _ := printer.Bytes(f); return len(b) }},
	{"print to a writer", func(text string, f *ast.File) int { d := &discardCount{}; printer.Fprint(d, f); return d.n }},
	{"walk", func(text string, f *ast.File) int {
		n := 0
		ast.Inspect(f, func(ast.Node) bool { n++; return true })
		return n
	}},
	{"contains", func(text string, f *ast.File) int {
		ast.Contains(f, func(ast.Node) bool { return false })
		return 0
	}},
	{"contains the last", func(text string, f *ast.File) int {
		n := 0
		ast.Inspect(f, func(ast.Node) bool { n++; return true })
		ast.Contains(f, func(ast.Node) bool { n--; return n <= 0 })
		return 0
	}},
	{"print what cannot be printed", func(text string, f *ast.File) int {
		var last *ast.SExpr
		ast.Inspect(f, func(n ast.Node) bool {
			if s, ok := n.(*ast.SExpr); ok {
				last = s
			}
			return true
		})
		if last == nil {
			return 0
		}
		op := last.Op
		last.Op = nil
		printer.Bytes(f)
		last.Op = op
		return 0
	}},
	{"print to a writer that fails", func(text string, f *ast.File) int {
		d := &discardCount{}
		printer.Fprint(d, f)
		printer.Fprint(&failingCount{d.n - 1}, f)
		return d.n
	}},
	{"predicates", func(text string, f *ast.File) int {
		for _, r := range f.Rules {
			rules.HasBinding(r)
			rules.HasType(r)
			rules.HasAux(r)
			rules.HasAuxInt(r)
			rules.HasEllipsis(r)
			rules.HasTrailing(r)
		}
		return 0
	}},
	{"expand", func(text string, f *ast.File) int {
		g := &ast.File{Rules: append([]*ast.Rule(nil), f.Rules...)}
		pass.ExpandAlternates(g)
		if len(g.Rules) == len(f.Rules) {
			return 0
		}
		d := &discardCount{}
		printer.Fprint(d, g)
		return d.n
	}},
	{"generate", func(text string, f *ast.File) int {
		n := 0
		for _, r := range f.Rules {
			b, _ := smt2.Generate(r)
			n += len(b)
		}
		return n
	}},
	{"dump", func(text string, f *ast.File) int { d := &discardCount{}; ast.Fprint(d, f); return d.n }},
}

// Growth beyond the square counts as such beyond some room for constants, and for
// what every byte of input and output may cost anyway.
const growSlack = 1.7

var growBase = work{stmts: 150, mallocs: 20, bytes: 1500}

// checkGrowth increases the size of a family for as long as the work stays small,
// and demands that no operation grows beyond the square of its input and output.
func checkGrowth(c *Case, fam growFamily, limit float64) {
	type at struct {
		w    work
		size float64
	}
	before := make([][]at, len(growOps))
	stopped := make([]bool, len(growOps))
	c.Input(fam.name)
	for k := 2; k <= 40; k++ {
		n := (2 + k%2) << (k/2 - 1) // 2, 3, 4, 6, 8, 12...
		text := fam.text(n)
		if len(text) > 1<<20 {
			break
		}
		f, err := parse.String(text)
		for i, op := range growOps {
			if stopped[i] || (err != nil && i > 1) {
				continue
			}
			if i <= 1 {
				f = nil
			} else if f == nil {
				f, _ = parse.String(text)
			}
			var out int
			w := measure(func() { out = op.run(text, f) })
			c.Eval(1)
			now := at{w, float64(len(text) + out)}
			for _, p := range before[i] {
				if now.size <= p.size {
					continue
				}
				q := now.size / p.size
				room := growSlack * q * q
				for _, m := range []struct {
					what          string
					was, is, base float64
				}{{"statements executed", p.w.stmts, w.stmts, growBase.stmts}, {"allocations", p.w.mallocs, w.mallocs, growBase.mallocs}, {"bytes allocated", p.w.bytes, w.bytes, growBase.bytes}} {
					if m.is > room*max(m.was, m.base*p.size) {
						c.Input(short(text))
						c.Fail("%s (%s, %d of it): %s grow from %.0f to %.0f as size grows from %.0f to %.0f", op.name, fam.name, n, m.what, m.was, m.is, p.size, now.size)
						return
					}
				}
			}
			before[i] = append(before[i], now)
			c.Hit(op.name)
			if w.stmts > 50000 {
				c.Hit(op.name + ": more than 50000 statements")
			}
			if w.stmts > limit || w.mallocs > limit/4 || w.bytes > limit*40 {
				stopped[i] = true
			}
		}
		if err == nil {
			c.Hit("accepted")
		} else {
			c.Hit("rejected")
		}
		c.Distinct(text)
		if stopped[0] {
			break
		}
	}
	if countersBroken != nil {
		c.Error("statements are not counted: %v", countersBroken)
	}
	c.Sample(fam.text(3))
}

func init() {
	fams := growFamilies()
	register(&Check{
		ID:       "C17",
		MinEvals: 20000,
		Rule: "A case is a family of texts that repeats or nests a construct, complete or broken off: all constructs at all places, with each kind of bottom, trees that cannot be printed, writers that fail, and random ones. Its size grows by steps of a third to a half until the work exceeds a limit, and all operations are measured: statements of the repository executed, allocations, and bytes allocated. " +
			"From any size to any larger one none may grow by more than the square of input and output. Non-trivial: every text; distinct by text.",
		Assumptions: []string{"work of the standard library shows in allocations", "growth shows before the limit on work, or 1 MB of text"},
		Procs:       1,
		Streams: func(t Tier) []Stream {
			limit := 5e5
			if t.Thorough {
				limit = 6e7
			}
			return []Stream{
				{"constructs", len(fams), func(c *Case) { checkGrowth(c, fams[c.Idx], limit) }},
				{"random", t.n(1500, 40000), func(c *Case) { checkGrowth(c, randomFamily(c.RNG), limit) }},
				{"contexts", t.n(400, 10000), func(c *Case) { checkGrowth(c, contextFamily(c.RNG), limit) }},
			}
		},
	})
}
