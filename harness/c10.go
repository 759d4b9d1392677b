package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/smt2"
)

// smtGen generates rules of the supported fragment.
type smtGen struct {
	*RNG
	names  []string       // names to choose from
	width  map[string]int // of names in use
	fresh  int            // new variables allowed
	widths []int
	hole   int            // placeholder one time in hole; 0 never
	terms  map[int][]MVal // operations so far, by width
}

var smtWidths = []int{0, 8, 16, 32, 64}

// smtNames are names that mean something to SMT-LIB or to solvers, next to plain ones.
var smtNames = strings.Fields("x y z w a b c d x1 x_1 y9 a_ e l o i t ff true false not and or xor ite distinct let par match as exists forall lambda assert echo exit pop push reset concat extract repeat " +
	"bvadd bvsub bvand bvor bvxor bvneg bvnot bvult bvslt bvcomp bv bv1 bv0 bv255 bvx bvsmod bv2nat bv2int int2bv nat2bv rotate_left rotate_right sign_extend zero_extend int_to_bv ubv_to_int sbv_to_int bvnego bvuaddo bvsaddo bvredor bvredand " +
	"if implies iff select store is div mod abs mem ptr val sym len string str re seq set bag tuple char int real bool array float fp rem roundingMode const define check get info option x_true true_ nottrue lets ext_rotate_left ext_rotate_right pi sin exp sqrt abs_ to_real to_int is_int " +
	"model simplify eval display help minimize maximize labels proof rule query unsat sat unknown root lex sort id map default_ union intersection member subset emptyset insert card complement choose join product transpose tclosure iden head tail nil sep emp pto wand synth_fun constraint block_model include _x")

func init() {
	var ok []string
	for _, n := range smtNames {
		if isVarName(n) {
			ok = append(ok, n)
		}
	}
	smtNames = ok
}

func newSMTGen(r *RNG, vars int) *smtGen {
	g := &smtGen{RNG: r, width: map[string]int{}, fresh: vars, widths: smtWidths}
	switch r.n(3) {
	case 0:
		g.names = []string{"x", "y", "z", "w"}
	case 1:
		g.names = smtNames
	default:
		for i := 0; i < 6; i++ {
			g.names = append(g.names, r.pick(smtNames), newGen(r, 1).varName())
		}
	}
	return g
}

// someName returns a name in use.
func (g *smtGen) someName() string {
	m := map[string]string{}
	for n := range g.width {
		m[n] = n
	}
	all := sortedStrings(m)
	return all[g.n(len(all))]
}

// variable returns a variable of a width.
func (g *smtGen) variable(w int) MVar {
	if g.hole > 0 && g.p(1, g.hole) {
		return "_"
	}
	var have []string
	for n, v := range g.width {
		if v == w {
			have = append(have, n)
		}
	}
	if len(have) > 0 && (g.fresh <= 0 || g.p(2, 3)) {
		// Map order must not matter.
		best := have[0]
		for _, n := range have {
			if n < best {
				best = n
			}
		}
		if g.p(1, 2) {
			k := g.n(len(have))
			m := map[string]string{}
			for _, n := range have {
				m[n] = n
			}
			best = sortedStrings(m)[k]
		}
		return MVar(best)
	}
	g.fresh--
	for i := 0; ; i++ {
		n := g.pick(g.names)
		if len(g.width) > 0 && g.p(1, 6) {
			n = variant(g.RNG, g.someName())
		}
		if i > 20 {
			n = fmt.Sprintf("%s%d", n, g.n(1000000))
		}
		if _, ok := g.width[n]; !ok && isVarName(n) {
			g.width[n] = w
			return MVar(n)
		}
	}
}

var opsOfWidth = func() map[int][]string {
	m := map[int][]string{}
	for _, n := range smtOpNames {
		m[smtOps[n].w] = append(m[smtOps[n].w], n)
	}
	return m
}()

// op returns an operation of a width.
func (g *smtGen) op(w, depth int) *MS {
	n := g.pick(opsOfWidth[w])
	s := &MS{Op: lit(n)}
	for i := 0; i < smtOps[n].arity; i++ {
		if i == 1 && g.p(1, 10) {
			s.Args = append(s.Args, cloneVal(s.Args[0])) // the same twice
			continue
		}
		s.Args = append(s.Args, g.term(w, depth-1))
	}
	if g.terms == nil {
		g.terms = map[int][]MVal{}
	}
	if len(g.terms[w]) < 20 {
		g.terms[w] = append(g.terms[w], s)
	}
	return s
}

func (g *smtGen) term(w, depth int) MVal {
	if depth <= 0 || g.p(1, 4) {
		return g.variable(w)
	}
	if ts := g.terms[w]; len(ts) > 0 && g.p(1, 10) {
		if t := ts[g.n(len(ts))]; g.hole > 0 || !hasPlaceholder(t) {
			return cloneVal(t) // the same again
		}
	}
	return g.op(w, depth)
}

func hasPlaceholder(v MVal) bool {
	switch v := v.(type) {
	case MVar:
		return v == "_"
	case *MS:
		for _, a := range v.Args {
			if hasPlaceholder(a) {
				return true
			}
		}
	}
	return false
}

// rule returns a supported rule of a width.
func (g *smtGen) rule(w, depth int) *MRule {
	r := &MRule{Match: g.op(w, depth)}
	g.hole = 0
	r.Result = g.term(w, depth)
	return r
}

// identity rewrites a term into one of the same meaning.
func (g *smtGen) identity(v MVal, w int) MVal {
	s, ok := v.(*MS)
	if !ok {
		if w > 0 && g.p(1, 6) {
			k := fmt.Sprint([]string{"Neg", "Com"}[g.n(2)], w)
			return &MS{Op: lit(k), Args: []MVal{&MS{Op: lit(k), Args: []MVal{v}}}}
		}
		return v
	}
	n := s.Op[0].Alts[0]
	t := &MS{Op: lit(n)}
	for _, a := range s.Args {
		t.Args = append(t.Args, g.identity(a, w))
	}
	if !g.p(2, 3) {
		return t
	}
	o := func(name string, a ...MVal) *MS {
		if w > 0 {
			name = fmt.Sprint(name, w)
		}
		return &MS{Op: lit(name), Args: a}
	}
	switch strings.TrimRight(n, "0123456789") {
	case "Sub":
		if g.p(1, 2) {
			return o("Add", t.Args[0], o("Neg", t.Args[1]))
		}
		return o("Neg", o("Sub", t.Args[1], t.Args[0]))
	case "Add":
		if g.p(1, 3) {
			return o("Sub", t.Args[0], o("Neg", t.Args[1]))
		}
		t.Args[0], t.Args[1] = t.Args[1], t.Args[0]
	case "And":
		if g.p(1, 2) {
			return o("Com", o("Or", o("Com", t.Args[0]), o("Com", t.Args[1])))
		}
		t.Args[0], t.Args[1] = t.Args[1], t.Args[0]
	case "Or":
		if g.p(1, 2) {
			return o("Add", o("Xor", t.Args[0], t.Args[1]), o("And", cloneVal(t.Args[0]), cloneVal(t.Args[1])))
		}
		t.Args[0], t.Args[1] = t.Args[1], t.Args[0]
	case "Xor":
		if g.p(1, 2) {
			return o("Sub", o("Or", t.Args[0], t.Args[1]), o("And", cloneVal(t.Args[0]), cloneVal(t.Args[1])))
		}
		t.Args[0], t.Args[1] = t.Args[1], t.Args[0]
	case "Neg":
		return o("Sub", o("Com", t.Args[0]), o("Com", o("Sub", cloneVal(t.Args[0]), cloneVal(t.Args[0]))))
	case "AndB":
		return o("Not", o("OrB", o("Not", t.Args[0]), o("Not", t.Args[1])))
	case "OrB":
		t.Args[0], t.Args[1] = t.Args[1], t.Args[0]
	case "EqB":
		return o("Not", o("NeqB", t.Args[1], t.Args[0]))
	case "NeqB":
		return o("EqB", o("Not", t.Args[0]), t.Args[1])
	case "Not":
		return o("EqB", t.Args[0], o("NeqB", cloneVal(t.Args[0]), cloneVal(t.Args[0])))
	}
	return t
}

// solvedRule has a result that a variable of its own can make equal to the match
// whatever the other values, so that both outcomes are seen at any width.
func (g *smtGen) solvedRule(w, depth int) (*MRule, func(m *refRule, r *RNG) [][]uint64) {
	r := &MRule{Match: g.op(w, depth)}
	g.hole = 0
	z := "zz"
	for g.width[z] != 0 || g.width["zz"] != 0 && z == "zz" {
		z += "z"
	}
	if _, ok := g.width[z]; ok {
		z = "solve_for"
	}
	g.width[z] = -1 // not to be used for another
	o := func(name string, a ...MVal) *MS {
		if w > 0 {
			name = fmt.Sprint(name, w)
		}
		return &MS{Op: lit(name), Args: a}
	}
	var res MVal = MVar(z)
	for i := g.n(4); i > 0; i-- {
		t := g.term(w, depth-1)
		if w == 0 {
			switch g.n(5) {
			case 0:
				res = o("EqB", res, t)
			case 1:
				res = o("EqB", t, res)
			case 2:
				res = o("NeqB", res, t)
			case 3:
				res = o("NeqB", t, res)
			default:
				res = o("Not", res)
			}
			continue
		}
		switch g.n(8) {
		case 0:
			res = o("Add", res, t)
		case 1:
			res = o("Add", t, res)
		case 2:
			res = o("Sub", res, t)
		case 3:
			res = o("Sub", t, res)
		case 4:
			res = o("Xor", res, t)
		case 5:
			res = o("Xor", t, res)
		case 6:
			res = o("Neg", res)
		default:
			res = o("Com", res)
		}
	}
	r.Result = res
	return r, func(m *refRule, rng *RNG) [][]uint64 {
		k := -1
		for i, v := range m.vars {
			if v.name == z {
				k = i
			}
		}
		var out [][]uint64
		for i := 0; i < 40; i++ {
			vals := make([]uint64, len(m.vars))
			for j, v := range m.vars {
				vals[j] = cornerValue(rng, v.w)
				if j > 0 && rng.p(1, 4) && m.vars[j-1].w == v.w {
					vals[j] = vals[j-1]
				}
			}
			vals[k] = solve(m.result, k, m.match.eval(vals), vals)
			out = append(out, vals)
			near := append([]uint64(nil), vals...)
			if m.w == 0 {
				near[k] ^= 1
			} else {
				near[k] ^= 1 << uint(rng.n(m.w))
			}
			out = append(out, near)
		}
		return out
	}
}

// solve returns the value of variable k that makes t equal to v.
func solve(t *refTerm, k int, v uint64, vals []uint64) uint64 {
	has := func(t *refTerm) bool {
		var f func(t *refTerm) bool
		f = func(t *refTerm) bool {
			if t.op == nil {
				return t.v == k
			}
			for _, a := range t.args {
				if f(a) {
					return true
				}
			}
			return false
		}
		return f(t)
	}
	for t.op != nil {
		side := 0
		if len(t.args) == 2 && has(t.args[1]) {
			side = 1
		}
		var other uint64
		if len(t.args) == 2 {
			other = t.args[1-side].eval(vals)
		}
		// Of the operations used, all are determined by op(0, other) and their own
		// structure; find the argument by trying the inverses.
		m := mask(t.op.w)
		a := []uint64{other, other}
		found := false
		for _, x := range []uint64{v - other, other - v, v + other, v ^ other, -v, ^v, 1 ^ v ^ other} {
			x &= m
			a[side] = x
			if t.op.f(a)&m == v {
				v, found = x, true
				break
			}
		}
		if !found {
			panic("solve")
		}
		t = t.args[side]
	}
	return v
}

// checkScript generates the script of a supported rule and compares.
func checkScript(c *Case, m *MRule, extra func(*refRule, *RNG) [][]uint64) []byte {
	text := ruleText(m)
	c.Input(text)
	ref, why := smtMeaning(m)
	if ref == nil {
		c.Error("rule of the generator is not supported: %s: %s", why, text)
		return nil
	}
	r := builtRule(c, m)
	if c.p(1, 3) {
		f, err := parse.String(text)
		if err == nil && len(f.Rules) == 1 && canonRuleR(f.Rules[0]) == canonRuleM(m) {
			r = f.Rules[0]
		}
	}
	b, err := smt2.Generate(r)
	if err != nil {
		c.Hit("skipped: not accepted (decided by C11)")
		return nil
	}
	compareOutput(c, b, ref, extra)
	if n := learned(b, ref); n != "" && !c.again {
		// The generator has names of its own: a variable may have the same.
		c.Hit("name of the generator: " + n)
		var vars []string
		for _, v := range ref.vars {
			if v.name != "" {
				vars = append(vars, v.name)
			}
		}
		if len(vars) > 0 {
			c.again = true
			checkScript(c, renamed(m, c.pick(vars), n), nil)
			c.again = false
			c.Input(text)
		}
	}
	if b, err := smt2.Generate(r); err == nil && len(c.w.st.Violations) == 0 && c.p(1, 10) {
		compareOutput(c, b, ref, nil)
	}
	for _, s := range sexprsOf(m) {
		c.Hit("operation: " + s.Op[0].Alts[0])
	}
	for _, v := range ref.vars {
		switch {
		case v.name == "":
			c.Hit("placeholder")
		case smtReserved[v.name] || smtTheory[v.name] || strings.HasPrefix(v.name, "bv"):
			c.Hit("variable with a meaning in SMT-LIB")
		}
	}
	c.Distinct(text)
	c.Sample(text)
	return b
}

var symbols = regexp.MustCompile(`(?m)^;.*$|[-+~!@$%^&*_=<>.?/a-zA-Z0-9]+`)

var ownNames = func() map[string]bool {
	m := map[string]bool{}
	for _, s := range strings.Fields("assert exit not and or distinct xor bvadd bvsub bvand bvor bvxor bvneg bvnot") {
		m[s] = true
	}
	return m
}()

// learned returns a name in a script that could be one of a variable, but is not.
func learned(b []byte, ref *refRule) string {
	vars := map[string]bool{}
	for _, v := range ref.vars {
		vars[v.name] = true
	}
	for _, s := range symbols.FindAllString(string(b), -1) {
		if s[0] != ';' && !vars[s] && !ownNames[s] && isVarName(s) {
			return s
		}
	}
	return ""
}

// renamed returns a rule with another name for a variable.
func renamed(r *MRule, from, to string) *MRule {
	r = r.clone()
	var val func(v MVal) MVal
	val = func(v MVal) MVal {
		switch v := v.(type) {
		case MVar:
			if string(v) == from {
				return MVar(to)
			}
		case *MS:
			for i := range v.Args {
				v.Args[i] = val(v.Args[i])
			}
		}
		return v
	}
	r.Match, r.Result = val(r.Match), val(r.Result)
	return r
}

func compareOutput(c *Case, b []byte, ref *refRule, extra func(*refRule, *RNG) [][]uint64) bool {
	p, err := readScript(string(b))
	c.Eval(1)
	if err != nil {
		c.Fail("malformed script: %v:\n%s", err, short(string(b)))
		return false
	}
	to, err := p.assign(ref)
	if err != nil {
		c.Fail("%v:\n%s", err, short(string(b)))
		return false
	}
	var points [][]uint64
	if extra != nil {
		points = extra(ref, c.RNG)
	}
	differ, same, err := compareScript(c, p, to, ref, points)
	c.Eval(differ + same)
	if err != nil {
		c.Fail("%v:\n%s", err, string(b))
		return false
	}
	c.Hit(fmt.Sprintf("seen equal: %v, seen different: %v", same > 0, differ > 0))
	return true
}

var solvers = func() (out [][]string) {
	if p, err := exec.LookPath("z3"); err == nil {
		out = append(out, []string{p, "-smt2", "-T:20"})
	}
	if p, err := exec.LookPath("cvc5"); err == nil {
		out = append(out, []string{p, "--lang=smt2.6", "--strict-parsing", "--tlimit=20000"})
	}
	return
}()

// solverSays runs a solver on a script.
func solverSays(c *Case, argv []string, script []byte) string {
	path := filepath.Join(c.Scratch(), "s.smt2")
	if err := os.WriteFile(path, script, 0o644); err != nil {
		return "error: " + err.Error()
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, argv[0], append(append([]string(nil), argv[1:]...), path)...)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	_ = cmd.Run()
	return strings.TrimSpace(out.String())
}

func askSolvers(c *Case, b []byte, verdict string) {
	for _, s := range solvers {
		got := solverSays(c, s, b)
		name := filepath.Base(s[0])
		switch {
		case got == "sat" || got == "unsat":
			c.Eval(1)
			c.Hit(name + ": " + got)
			if verdict != "" && got != verdict {
				c.Fail("%s says %s, but by all values it is %s:\n%s", name, got, verdict, b)
			}
		case strings.Contains(got, "rror"):
			c.Eval(1)
			c.Fail("%s: %s:\n%s", name, short(got), b)
		default:
			c.Hit(name + ": no verdict")
		}
	}
}

// verdictOf decides a rule by trying all values; "" if there are too many.
func verdictOf(m *refRule) string {
	if m.bits() > 16 {
		return ""
	}
	vals := make([]uint64, len(m.vars))
	for n := uint64(0); n < 1<<uint(m.bits()); n++ {
		x := n
		for i, v := range m.vars {
			w := v.w
			if w == 0 {
				w = 1
			}
			vals[i] = x & mask(v.w)
			x >>= uint(w)
		}
		if m.match.eval(vals) != m.result.eval(vals) {
			return "sat"
		}
	}
	return "unsat"
}

func init() {
	register(&Check{
		ID:       "C10",
		MinEvals: 100000,
		Rule: "A case is a rule of the supported fragment. Its script is read by a strict reader of SMT-LIB 2.6, and the assertions are evaluated next to the rule itself: on all values if they have no more than 16 bits, otherwise on corner values, values related to one another, and values solved so that both sides are equal, or nearly. A part also goes to z3 and cvc5. " +
			"Non-trivial: every rule; distinct by text.",
		Assumptions: []string{"beyond 16 bits of variables values are sampled", "constants may be renamed, with characters that no variable has"},
		Streams: func(t Tier) []Stream {
			sz := sizes(1100)
			return []Stream{
				{"all values", t.n(2500, 120000), func(c *Case) {
					w := []int{8, 8, 8, 0}[c.n(4)]
					g := newSMTGen(c.RNG, 2)
					if w == 0 {
						g.fresh = 1 + c.n(8)
					}
					g.hole = 6 * c.n(2)
					if g.hole > 0 && w == 8 {
						g.fresh = 1
					}
					checkScript(c, g.rule(w, 1+c.n(4)), nil)
				}},
				{"solved", t.n(12000, 500000), func(c *Case) {
					g := newSMTGen(c.RNG, 1+c.n(5))
					g.hole = 6 * c.n(3)
					m, extra := g.solvedRule(smtWidths[c.n(5)], 1+c.n(4))
					checkScript(c, m, extra)
				}},
				{"identities", t.n(6000, 300000), func(c *Case) {
					g := newSMTGen(c.RNG, 1+c.n(4))
					w := smtWidths[c.n(5)]
					m := &MRule{Match: g.op(w, 1+c.n(4))}
					m.Result = g.identity(m.Match, w)
					if c.p(1, 4) {
						m.Match = m.Result
						if m.Match = g.identity(m.Match, w); m.Match == nil {
							return
						}
					}
					if c.p(1, 3) {
						// Damage one operation.
						ss := sexprsOf(&MRule{Match: MVar("x"), Result: m.Result})
						if len(ss) > 0 {
							s := ss[c.n(len(ss))]
							op := smtOps[s.Op[0].Alts[0]]
							for {
								n := c.pick(opsOfWidth[op.w])
								if smtOps[n].arity == op.arity {
									s.Op = lit(n)
									break
								}
							}
						}
					}
					checkScript(c, m, nil)
				}},
				{"operations", len(smtOpNames) * t.n(40, 1000), func(c *Case) {
					n := smtOpNames[c.Idx%len(smtOpNames)]
					op := smtOps[n]
					s := &MS{Op: lit(n)}
					g := newSMTGen(c.RNG, 4)
					for i := 0; i < op.arity; i++ {
						s.Args = append(s.Args, g.term(op.w, c.n(2)))
					}
					m := &MRule{Match: s, Result: MVar("zz")}
					if c.p(1, 2) {
						// The operation in the result, and equal to a match that is another.
						id := &MS{Op: lit("Xor" + fmt.Sprint(op.w)), Args: []MVal{MVar("zz"), &MS{Op: lit("Xor" + fmt.Sprint(op.w)), Args: []MVal{MVar("zz"), MVar("zz")}}}}
						if op.w == 0 {
							id = &MS{Op: lit("OrB"), Args: []MVal{MVar("zz"), MVar("zz")}}
						}
						m = &MRule{Match: id, Result: s}
					}
					checkScript(c, m, func(ref *refRule, r *RNG) [][]uint64 {
						var out [][]uint64
						for i := 0; i < 60; i++ {
							vals := make([]uint64, len(ref.vars))
							k := 0
							for j, v := range ref.vars {
								vals[j] = cornerValue(r, v.w)
								if v.name == "zz" {
									k = j
								}
							}
							// The other side, whatever zz is.
							side := ref.match
							if len(sexprsOf(m)) > 0 && m.Result == MVal(s) {
								side = ref.result
							}
							vals[k] = side.eval(vals)
							out = append(out, vals)
							near := append([]uint64(nil), vals...)
							near[k] = (near[k] ^ uint64(1)<<uint(r.n(64))) & mask(ref.vars[k].w)
							out = append(out, near)
						}
						return out
					})
				}},
				{"placeholders", t.n(3000, 100000), func(c *Case) {
					g := newSMTGen(c.RNG, 2)
					g.hole = 1 + c.n(3)
					w := smtWidths[c.n(5)]
					m, extra := g.solvedRule(w, 1+c.n(3))
					checkScript(c, m, extra)
				}},
				{"names", len(smtNames) * t.n(8, 60), func(c *Case) {
					n := smtNames[c.Idx%len(smtNames)]
					w := smtWidths[c.n(5)]
					g := newSMTGen(c.RNG, 2)
					g.width[n] = w
					if c.p(1, 2) {
						g.hole = 4
					}
					m, extra := g.solvedRule(w, 2)
					// Have it occur, at least once.
					op := "And" + fmt.Sprint(w)
					if w == 0 {
						op = "AndB"
					}
					m.Match = &MS{Op: lit(op), Args: []MVal{MVar(n), m.Match}}
					b := checkScript(c, m, extra)
					if b != nil && c.Idx/len(smtNames) < 1 {
						askSolvers(c, b, "")
					}
				}},
				{"names together", t.n(1500, 50000), func(c *Case) {
					// Names that are alike, and placeholders next to them.
					base := c.pick(smtNames)
					g := newSMTGen(c.RNG, 8)
					g.names = []string{base, base + "_", base + "1", base + "_1", base + "_2", base + "x", "x_1", "x1", base + base, base[:1]}
					g.hole = 5 * c.n(2)
					m, extra := g.solvedRule(smtWidths[c.n(5)], 2+c.n(3))
					checkScript(c, m, extra)
				}},
				{"sizes", len(sz) * 4, func(c *Case) {
					n := sz[c.Idx/4]
					if n == 0 {
						return
					}
					w := smtWidths[c.n(5)]
					op := opsOfWidth[w][0]
					for smtOps[op].arity != 2 {
						op = c.pick(opsOfWidth[w])
					}
					many := c.Idx%2 == 0
					leaf := func(i int) MVal {
						if many && i < 400 {
							return MVar(fmt.Sprintf("v%d", i))
						}
						if i%7 == 3 {
							return MVar("_")
						}
						return MVar([]string{"x", "y", "z"}[i%3])
					}
					var s MVal = leaf(0)
					for i := 1; i <= n; i++ {
						if c.Idx/2%2 == 0 {
							s = &MS{Op: lit(op), Args: []MVal{s, leaf(i)}}
						} else {
							s = &MS{Op: lit(op), Args: []MVal{leaf(i), s}}
						}
					}
					m := &MRule{Match: s, Result: MVar("zz")}
					checkScript(c, m, func(ref *refRule, r *RNG) [][]uint64 {
						var out [][]uint64
						for i := 0; i < 6; i++ {
							vals := make([]uint64, len(ref.vars))
							for j, v := range ref.vars {
								vals[j] = r.next() & mask(v.w)
							}
							vals[len(vals)-1] = ref.match.eval(vals)
							out = append(out, vals)
						}
						return out
					})
					c.Input(fmt.Sprintf("%d operations %s", n, op))
				}},
				{"solvers", t.n(160, 4000), func(c *Case) {
					g := newSMTGen(c.RNG, 1+c.n(3))
					w := []int{0, 8, 8, 16, 32, 64}[c.n(6)]
					if w == 8 {
						g.fresh = 2
					}
					var m *MRule
					if c.p(1, 2) {
						m = &MRule{Match: g.op(w, 1+c.n(3))}
						m.Result = g.identity(m.Match, w)
					} else {
						m = g.rule(w, 1+c.n(3))
					}
					b := checkScript(c, m, nil)
					if b == nil {
						return
					}
					ref, _ := smtMeaning(m)
					askSolvers(c, b, verdictOf(ref))
				}},
				{"rule files", numRuleFiles(), func(c *Case) {
					_, texts := ruleFiles()
					res := refParse(texts[c.Idx])
					if res.File == nil {
						return
					}
					for _, r := range res.File.Rules {
						rs, err := expandM(r)
						if err != nil {
							continue
						}
						for _, m := range rs {
							if ref, _ := smtMeaning(m); ref != nil {
								c.Hit("real rule")
								checkScript(c, m, nil)
							}
						}
					}
				}},
			}
		},
	})
}
