package main

import (
	"fmt"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/pass"
	"github.com/mmcloughlin/ssarules/rules"
)

var predicates = []struct {
	name string
	f    func(*ast.Rule) bool
	has  func(*MS) bool
	set  func(*Gen, *MS)
}{
	{"binding", rules.HasBinding, func(s *MS) bool { return s.Binding != "" }, func(g *Gen, s *MS) { s.Binding = g.varName() }},
	{"type", rules.HasType, func(s *MS) bool { return s.Type != "" }, func(g *Gen, s *MS) { s.Type = g.typ() }},
	{"aux", rules.HasAux, func(s *MS) bool { return s.Aux != nil }, func(g *Gen, s *MS) { s.Aux = g.goexpr('x', g.n(2)) }},
	{"auxint", rules.HasAuxInt, func(s *MS) bool { return s.AuxInt != nil }, func(g *Gen, s *MS) { s.AuxInt = g.goexpr('i', g.n(2)) }},
	{"ellipsis", rules.HasEllipsis, func(s *MS) bool { return s.Ellipsis }, func(g *Gen, s *MS) { s.Ellipsis = true }},
	{"trailing", rules.HasTrailing, func(s *MS) bool { return s.Trailing }, func(g *Gen, s *MS) { s.Trailing = true }},
}

// sexprsOf lists the s-expressions of a rule.
func sexprsOf(r *MRule) []*MS {
	var out []*MS
	var walk func(v MVal)
	walk = func(v MVal) {
		s, ok := v.(*MS)
		if !ok {
			return
		}
		out = append(out, s)
		for _, a := range s.Args {
			walk(a)
		}
	}
	walk(r.Match)
	walk(r.Result)
	return out
}

// checkPredicates compares all predicates on a rule with those on its model.
func checkPredicates(c *Case, m *MRule, r *ast.Rule) {
	before := canonRuleR(r)
	mask := 0
	for i, p := range predicates {
		want := false
		for _, s := range sexprsOf(m) {
			want = want || p.has(s)
		}
		got := p.f(r)
		c.Eval(1)
		if got != want {
			c.Fail("%s: %v, want %v, in rule %s", p.name, got, want, short(ruleText(m)))
			return
		}
		if p.f(r) != got {
			c.Fail("%s: another answer the second time", p.name)
		}
		if got {
			mask |= 1 << i
		}
	}
	c.Hit(fmt.Sprintf("features: %06b", mask))
	if after := canonRuleR(r); after != before {
		c.Fail("a predicate changed the rule: %s", diff(before, after))
	}
}

func predicatesOfModel(c *Case, m *MFile) {
	text := plainRend(c.RNG).file(m)
	c.Input(text)
	f := treeOf(c, m, text)
	for i, r := range f.Rules {
		checkPredicates(c, m.Rules[i], r)
	}
	c.Distinct(text)
	c.Sample(text)
}

// bare returns a rule without features: no attributes at all.
func bare(r *RNG, budget int) *MRule {
	g := newGen(r, budget)
	g.Attrs = -1
	m := g.rule()
	for _, s := range sexprsOf(m) {
		s.Binding, s.Type, s.AuxInt, s.Aux, s.Ellipsis, s.Trailing = "", "", nil, nil, false, false
	}
	return m
}

func init() {
	register(&Check{
		ID:       "C09",
		MinEvals: 100000,
		Rule: "A case is a rule: without features, with one feature planted at one operation, or a set of features over one or more operations, or random, swept, parsed, expanded or real; all six predicates are compared with the model. " +
			"Planting covers every feature at every operation of nested and wide rules on both sides. Non-trivial: every rule; distinct by text.",
		Streams: func(t Tier) []Stream {
			pts := dimPoints()
			return []Stream{
				{"random", t.n(8000, 400000), func(c *Case) { predicatesOfModel(c, randomModel(c.RNG)) }},
				{"none", t.n(2000, 50000), func(c *Case) { predicatesOfModel(c, one(bare(c.RNG, 3+c.heavy(100)))) }},
				{"one planted", t.n(12000, 400000), func(c *Case) {
					m := bare(c.RNG, 3+c.heavy(100))
					ss := sexprsOf(m)
					if len(ss) == 0 {
						m.Match = small(newGen(c.RNG, 3))
						ss = sexprsOf(m)
					}
					k := c.n(len(ss))
					if c.p(1, 4) {
						k = len(ss) - 1
					}
					p := predicates[c.Idx%len(predicates)]
					p.set(newGen(c.RNG, 3), ss[k])
					c.Hit(fmt.Sprintf("planted %s, of the match: %v", p.name, k < len(sexprsOf(&MRule{Match: m.Match}))))
					predicatesOfModel(c, one(m))
				}},
				{"some planted", 64 * t.n(60, 2000), func(c *Case) {
					m := bare(c.RNG, 3+c.heavy(60))
					if len(sexprsOf(m)) == 0 {
						m.Result = small(newGen(c.RNG, 3))
					}
					ss := sexprsOf(m)
					for i, p := range predicates {
						if c.Idx>>i&1 == 1 {
							p.set(newGen(c.RNG, 3), ss[c.n(len(ss))])
						}
					}
					predicatesOfModel(c, one(m))
				}},
				{"places", 6 * 400 * t.n(1, 10), func(c *Case) {
					// A rule of 20 nested or wide operations on each side.
					p := predicates[c.Idx%6]
					k := c.Idx / 6 % 40
					g := newGen(c.RNG, 30)
					g.Attrs = -1
					m := &MRule{Match: wide(g, 20, c.Idx/240%2 == 0), Result: wide(g, 20, c.Idx/480%2 == 0)}
					p.set(g, sexprsOf(m)[k])
					predicatesOfModel(c, one(m))
				}},
				{"repeated parts", t.n(2000, 60000), func(c *Case) { predicatesOfModel(c, again(c.RNG, randomModel(c.RNG))) }},
				{"attributes", nAttr * 24 * t.n(1, 8), func(c *Case) {
					predicatesOfModel(c, attrModel(newGen(c.RNG, 8), c.Idx%nAttr, c.Idx/nAttr))
				}},
				{"sweep", len(pts), func(c *Case) {
					p := pts[c.Idx]
					m := p.d.make(newGen(c.RNG, 10), p.n)
					if c.p(1, 2) && len(m.Rules) > 0 {
						if ss := sexprsOf(m.Rules[0]); len(ss) > 0 {
							predicates[c.n(6)].set(newGen(c.RNG, 3), ss[c.n(len(ss))])
						}
					}
					predicatesOfModel(c, m)
				}},
				{"huge sizes", len(hugePoints()), func(c *Case) {
					m := hugeModel(c)
					if c.p(3, 4) {
						r := m.Rules[c.n(len(m.Rules))]
						if ss := sexprsOf(r); len(ss) > 0 {
							predicates[c.n(6)].set(newGen(c.RNG, 3), ss[len(ss)-1-c.n(len(ss))*c.n(2)])
						}
					}
					predicatesOfModel(c, m)
					c.Input("")
				}},
				{"far", 6 * len(farCounts) * 3, func(c *Case) {
					// The only operation that has a feature, behind very many others.
					p, n := predicates[c.Idx%6], farCounts[c.Idx/6%len(farCounts)]
					g := newGen(c.RNG, 3)
					g.Attrs = -1
					with := &MS{Op: lit(g.opName())}
					p.set(g, with)
					m := &MRule{Match: wide(g, n, false), Result: wide(g, 2, true)}
					switch c.Idx / 6 / len(farCounts) {
					case 0: // the last argument of the match
						s := m.Match.(*MS)
						s.Args = append(s.Args, with)
					case 1: // in the result
						m.Result.(*MS).Args[1].(*MS).Args = []MVal{with}
					default: // within, at the end
						in := wide(g, 5, true)
						sexprsOf(&MRule{Match: in, Result: MVar("x")})[4].Args = []MVal{with}
						m.Match, m.Result = wide(g, 2, true), m.Match
						s := m.Result.(*MS)
						s.Args = append(s.Args, in, MVar("y"))
					}
					c.Hit(fmt.Sprintf("far: %s behind %d", p.name, n))
					checkPredicates(c, m, toRepoFile(one(m)).Rules[0])
				}},
				{"expanded", t.n(1500, 50000), func(c *Case) {
					m := consistentModel(c.RNG, 1+c.n(5))
					e, err := expandFileM(m)
					f := builtFile(c, m)
					if err != nil || pass.ExpandAlternates(f) != nil || len(f.Rules) != len(e.Rules) {
						return
					}
					for i, r := range f.Rules {
						c.Input(canonRuleR(r))
						checkPredicates(c, e.Rules[i], r)
					}
				}},
				{"rule files", numRuleFiles(), func(c *Case) {
					names, texts := ruleFiles()
					f, err := parse.File(names[c.Idx])
					res := refParse(texts[c.Idx])
					if err != nil || res.File == nil || len(res.File.Rules) != len(f.Rules) {
						c.Hit("skipped: not parsed as meant (decided by C01)")
						return
					}
					for i, r := range f.Rules {
						checkPredicates(c, res.File.Rules[i], r)
					}
				}},
			}
		},
	})
}

var farCounts = []int{1000, 1025, 2049, 4097, 8193, 16385, 32769, 65537, 131073}

// wide returns an s-expression of n operations in all, within or next to one another.
func wide(g *Gen, n int, deep bool) *MS {
	top := &MS{Op: lit(g.opName())}
	cur := top
	for i := 1; i < n; i++ {
		s := &MS{Op: lit(g.opName())}
		cur.Args = append(cur.Args, MVar(g.varName()), s)
		if deep {
			cur = s
		}
	}
	return top
}
