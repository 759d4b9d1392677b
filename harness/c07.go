package main

import (
	"fmt"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/pass"
)

// checkAllOrNothing expands a file and checks what happened to it as a whole.
// fate: +1 the expansion must succeed, -1 it must fail, 0 either.
func checkAllOrNothing(c *Case, f *ast.File, fate int) {
	rules := append([]*ast.Rule(nil), f.Rules...)
	before := canonRulesR(rules)
	// The rules may be a part of a longer list, which is not the file's.
	var list []*ast.Rule
	var others int
	if c.p(1, 2) {
		others = 1 + c.heavy(3*len(rules)+40)
		lead := c.n(3)
		for i := 0; i < lead; i++ {
			list = append(list, &ast.Rule{Block: "before"})
		}
		list = append(list, rules...)
		for i := 0; i < others; i++ {
			list = append(list, &ast.Rule{Block: "after"})
		}
		f.Rules = list[lead : lead+len(rules)]
	}
	outer := append([]*ast.Rule(nil), list...)
	err := pass.ExpandAlternates(f)
	c.Eval(1)
	for i, r := range outer {
		if list[i] != r {
			c.Fail("the rules were %d of a longer list, whose element %d was overwritten (error %v)", len(rules), i, err)
			return
		}
	}
	if list != nil {
		c.Hit("part of a longer list of rules")
	}
	after := canonRulesR(rules)
	for i := range before {
		if before[i] != after[i] {
			c.Fail("rule %d of the original was modified (error %v): %s", i, err, diff(before[i], after[i]))
			return
		}
	}
	if err != nil {
		c.Hit("failed")
		if fate > 0 {
			c.Fail("compatible alternates not expanded: %v", err)
			return
		}
		if err.Error() == "" {
			c.Fail("empty error message")
		}
		same := len(f.Rules) == len(rules)
		for i := 0; same && i < len(rules); i++ {
			same = f.Rules[i] == rules[i]
		}
		if !same {
			c.Fail("the file was changed by an expansion that failed: %v", err)
		}
		return
	}
	c.Hit("expanded")
	if fate < 0 {
		c.Fail("incompatible alternates expanded to %d rules", len(f.Rules))
		return
	}
	// Nothing is left to expand, and expanding again changes nothing.
	once := canonFileR(f)
	for i, r := range f.Rules {
		if r == nil {
			c.Fail("rule %d of the expansion is nil", i)
			return
		}
		if repoHasAlts(r.Match) || repoHasAlts(r.Result) {
			c.Fail("rule %d of the expansion still has alternates: %s", i, short(canonRuleR(r)))
			return
		}
	}
	if err := pass.ExpandAlternates(f); err != nil {
		c.Fail("expanding again fails: %v", err)
		return
	}
	c.Eval(1)
	if twice := canonFileR(f); once != twice {
		c.Fail("expanding again changes the file: %s", diff(once, twice))
	}
}

func repoHasAlts(v ast.Value) bool {
	s, ok := v.(*ast.SExpr)
	if !ok || s == nil {
		return false
	}
	if _, ok := s.Op.(ast.OpcodeParts); ok {
		return true
	}
	for _, a := range s.Args {
		if repoHasAlts(a) {
			return true
		}
	}
	return false
}

func runAllOrNothing(c *Case, m *MFile) {
	text := plainRend(c.RNG).file(m)
	c.Input(text)
	f := treeOf(c, m, text)
	fate := 1
	alts := false
	for _, r := range m.Rules {
		if hasAlts(r.Match) || hasAlts(r.Result) {
			alts = true
		}
	}
	if _, err := expandFileM(m); err != nil {
		fate = -1
	}
	checkAllOrNothing(c, f, fate)
	c.Traits(m)
	if alts {
		c.Distinct(text)
		c.Sample(text)
	}
}

// mixedCounts puts lists of a and b alternatives at two places, and of one count at others.
func mixedCounts(g *Gen, p, q, a, b int) *MFile {
	op := func(k int) []MPart {
		n := 0
		switch k {
		case p:
			n = a
		case q:
			n = b
		}
		if n < 2 {
			return lit(g.opName())
		}
		return g.altOp(n)
	}
	side := func(b int) MVal {
		inner := &MS{Op: op(b), Args: []MVal{MVar("x")}}
		mid := &MS{Op: op(b + 1), Args: []MVal{MVar("y"), inner, MVar("z")}}
		other := &MS{Op: op(b + 2), Args: []MVal{&MS{Op: op(b + 4)}}}
		return &MS{Op: op(b + 3), Args: []MVal{other, MVar("_"), mid}}
	}
	return one(&MRule{Match: side(0), Result: side(5)})
}

func init() {
	register(&Check{
		ID:       "C07",
		MinEvals: 10000,
		Rule: "A case is a file with alternates, compatible or not, or a tree built by hand with odd contents; it is expanded while its old rules are watched. Pairs of places and counts are enumerated, the rest random, with rules repeated, parts shared and files of thousands of rules. " +
			"Non-trivial: the file has alternates; distinct by text.",
		Streams: func(t Tier) []Stream {
			return []Stream{
				{"random", t.n(8000, 400000), func(c *Case) {
					// Counts at random: mostly incompatible.
					g := newGen(c.RNG, 4+c.heavy(20))
					g.Alts = 2 + c.n(8)
					g.MaxAlts = 2 + c.n(3)
					runAllOrNothing(c, g.file(1+c.heavy(5)))
				}},
				{"consistent", t.n(5000, 200000), func(c *Case) { runAllOrNothing(c, consistentModel(c.RNG, 1+c.heavy(8))) }},
				{"repeated parts", t.n(2000, 60000), func(c *Case) {
					if c.p(1, 2) {
						runAllOrNothing(c, again(c.RNG, consistentModel(c.RNG, 1+c.heavy(6))))
						return
					}
					g := newGen(c.RNG, 4+c.heavy(20))
					g.Alts = 2 + c.n(8)
					g.MaxAlts = 2 + c.n(3)
					runAllOrNothing(c, again(c.RNG, g.file(1+c.heavy(5))))
				}},
				{"places and counts", 10 * 10 * 16 * t.n(2, 10), func(c *Case) {
					k := c.Idx
					p, q := k%10, k/10%10
					a, b := 2+k/100%4, 2+k/400%4
					runAllOrNothing(c, mixedCounts(newGen(c.RNG, 3), p, q, a, b))
				}},
				{"counts alike", 14 * 9 * t.n(4, 20), func(c *Case) {
					// Counts that have something in common, though they differ.
					g := newGen(c.RNG, 3)
					a := []int{2, 3, 4, 5, 7, 8, 16, 31, 100}[c.Idx/14%9]
					b := []int{a + 8, a + 16, a + 32, a + 64, a + 100, a + 128, a + 256, a + 512, a + 1024, a + 4096, a + 65536, 2 * a, 10 * a, a * a}[c.Idx%14]
					if c.p(1, 2) {
						a, b = b, a
					}
					if max(a, b) > 60000 && c.Idx >= 14*9 {
						return
					}
					if k := c.n(4); k > 0 {
						runAllOrNothing(c, mixedCounts(g, c.n(5), 5*c.n(2)+c.n(5), a, b))
					} else {
						s := &MS{Op: []MPart{{Alts: []string{"A"}}, g.alts(a), {Alts: []string{"B"}}, g.alts(b)}}
						runAllOrNothing(c, one(&MRule{Match: s, Result: MVar("x")}))
					}
					c.Input("")
				}},
				{"two lists of one opcode", 40 * 40, func(c *Case) {
					g := newGen(c.RNG, 3)
					a, b := 2+c.Idx%40, 2+c.Idx/40
					s := &MS{Op: []MPart{g.alts(a), g.alts(b)}}
					if c.p(1, 2) {
						s.Op = []MPart{{Alts: []string{"A"}}, g.alts(a), {Alts: []string{"B"}}, g.alts(b)}
					}
					m := one(&MRule{Match: s, Result: MVar("x")})
					if c.p(1, 2) {
						m.Rules[0].Match, m.Rules[0].Result = MVar("x"), s
					}
					runAllOrNothing(c, m)
				}},
				{"late failures", t.n(2000, 50000), func(c *Case) {
					// One bad rule among good ones.
					n := 1 + c.heavy(60)
					m := consistentModel(c.RNG, n)
					k := 2 + c.n(5)
					bad := mixedCounts(newGen(c.RNG, 3), c.n(5), 5+c.n(5), k, k+1+c.n(4)).Rules[0]
					m.Rules[c.n(n)] = bad
					runAllOrNothing(c, m)
				}},
				{"one bad rule", 5 * len(sizes(1100)) * t.n(1, 10), func(c *Case) {
					n := sizes(1100)[c.Idx%len(sizes(1100))]
					if n == 0 {
						return
					}
					m, at := badAt(c, n, c.p(1, 2))
					runAllOrNothing(c, m)
					c.Hit(fmt.Sprintf("bad rule beyond %d", at/256*256))
				}},
				{"one bad rule of many", 6 * t.n(1, 10), func(c *Case) {
					m, _ := badAt(c, []int{2049, 4097, 8193, 16385, 33000, 65537}[c.Idx%6], false)
					runAllOrNothing(c, m)
					c.Input("")
				}},
				{"odd trees", t.n(4000, 100000), func(c *Case) {
					f := oddFile(c)
					c.Input(fmt.Sprint(canonFileR(f)))
					checkAllOrNothing(c, f, 0)
					c.Distinct(canonFileR(f))
				}},
				{"rule files", numRuleFiles(), func(c *Case) {
					names, _ := ruleFiles()
					f, err := parse.File(names[c.Idx])
					if err != nil {
						c.Fail("%v", err)
						return
					}
					checkAllOrNothing(c, f, 1)
				}},
			}
		},
	})
}

// oddFile builds trees the parser does not, with opcodes without parts, with
// lists of no or one alternative, missing opcodes and missing values.
func oddFile(c *Case) *ast.File {
	var op func() ast.Op
	op = func() ast.Op {
		switch c.n(8) {
		case 0:
			return nil
		case 1:
			return ast.OpcodeParts{}
		case 2, 3, 4:
			var p ast.OpcodeParts
			for i := 0; i < 1+c.n(3); i++ {
				switch c.n(6) {
				case 0:
					p = append(p, ast.Opcode("A"))
				case 1:
					p = append(p, nil)
				default:
					var alt ast.OpcodeAlt
					for k := 0; k < c.n(4); k++ {
						alt = append(alt, ast.Opcode([]string{"A", "B", "C", ""}[c.n(4)]))
					}
					p = append(p, alt)
				}
			}
			return p
		case 5:
			return ast.Opcode("")
		default:
			return ast.Opcode("A")
		}
	}
	var val func(d int) ast.Value
	val = func(d int) ast.Value {
		switch k := c.n(10); {
		case k == 0:
			return nil
		case k == 1:
			return &ast.Expr{}
		case k <= 3:
			return ast.Variable("x")
		case d > 3:
			return ast.Variable("")
		default:
			s := &ast.SExpr{Op: op()}
			for i := 0; i < c.n(3); i++ {
				s.Args = append(s.Args, val(d+1))
			}
			return s
		}
	}
	f := &ast.File{}
	for i := 0; i < 1+c.n(3); i++ {
		if c.p(1, 3) {
			f.Rules = append(f.Rules, toRepoRule(consistentModel(c.RNG, 1).Rules[0]))
			continue
		}
		f.Rules = append(f.Rules, &ast.Rule{Match: val(0), Result: val(0)})
	}
	return f
}
