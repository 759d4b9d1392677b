package main

import (
	"fmt"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/pass"
)

func treeOf(c *Case, m *MFile, text string) *ast.File {
	if c.p(1, 2) {
		return builtFile(c, m)
	}
	f, err := parse.String(text)
	if err != nil || canonFileR(f) != canonFileM(m) {
		c.Hit("skipped: not parsed as meant (decided by C01)")
		return builtFile(c, m)
	}
	return f
}

func checkExpand(c *Case, m *MFile) {
	want, err := expandFileM(m)
	if err != nil {
		c.Hit("skipped: not compatible")
		return
	}
	text := plainRend(c.RNG).file(m)
	c.Input(text)
	f := treeOf(c, m, text)
	if err := pass.ExpandAlternates(f); err != nil {
		c.Fail("compatible alternates not expanded: %v", err)
		return
	}
	c.Eval(1)
	got := canonRulesR(f.Rules)
	if len(got) != len(want.Rules) {
		c.Fail("%d rules, want %d", len(got), len(want.Rules))
		return
	}
	for i, r := range want.Rules {
		if w := canonRuleM(r); w != got[i] {
			c.Fail("rule %d of %d: %s", i, len(got), diff(w, got[i]))
			return
		}
	}
	c.Traits(m)
	c.Hit(fmt.Sprintf("expansion: grew %v", len(want.Rules) > len(m.Rules)))
	if len(want.Rules) > len(m.Rules) {
		c.Distinct(text)
		c.Sample(text)
	}
}

// altPlaces enumerates the places of alternates in a rule with nested operations.
func altPlaces(g *Gen, mask, n int) *MFile {
	op := func(bit int) []MPart {
		if mask>>bit&1 == 0 {
			return lit(g.opName())
		}
		return g.altOp(n)
	}
	side := func(b int) MVal {
		inner := &MS{Op: op(b), Args: []MVal{MVar("x")}, AuxInt: gi("c")}
		mid := &MS{Op: op(b + 1), Args: []MVal{MVar("y"), inner, MVar("z")}, Binding: "v", Type: "t"}
		other := &MS{Op: op(b + 2), Aux: gi("s"), Trailing: true}
		return &MS{Op: op(b + 3), Args: []MVal{other, MVar("_"), mid, &MX{gc(gi("f"), gi("x"))}}, Ellipsis: true}
	}
	r := &MRule{Match: side(0), Result: side(4)}
	if g.p(1, 2) {
		r.Cond = g.goexpr('c', 2)
	}
	if g.p(1, 2) {
		r.Block = g.block()
	}
	return one(r)
}

func init() {
	register(&Check{
		ID:       "C06",
		MinEvals: 5000,
		Rule: "A case is a file whose alternates are compatible; its expansion is compared rule by rule, node by node, with that of a reference. Places of alternates are enumerated, their numbers swept, the rest random. " +
			"Non-trivial: the expansion has more rules than the file; distinct by text.",
		Streams: func(t Tier) []Stream {
			sz := sizes(1100)
			return []Stream{
				{"random", t.n(12000, 600000), func(c *Case) { checkExpand(c, consistentModel(c.RNG, 1+c.heavy(12))) }},
				{"repeated parts", t.n(3000, 100000), func(c *Case) { checkExpand(c, again(c.RNG, consistentModel(c.RNG, 1+c.heavy(6)))) }},
				{"places", 256 * t.n(6, 60), func(c *Case) {
					checkExpand(c, altPlaces(newGen(c.RNG, 5), c.Idx%256, 2+c.heavy(10)))
				}},
				{"counts", len(sz) * t.n(3, 12), func(c *Case) {
					n := sz[c.Idx%len(sz)]
					if n < 2 {
						return
					}
					m := altPlaces(newGen(c.RNG, 5), 1+c.n(255), n)
					g := newGen(c.RNG, 5)
					g.Alts = 0
					m.Rules = append(m.Rules, g.rule())
					checkExpand(c, m)
				}},
				{"huge sizes", len(hugePoints()), func(c *Case) {
					checkExpand(c, hugeModel(c))
					c.Input("")
				}},
				{"many lists", t.n(300, 10000), func(c *Case) {
					// Opcodes of many lists, and operations with many arguments that have them.
					g := newGen(c.RNG, 50)
					n := 2 + c.heavy(6)
					var op []MPart
					for i := 0; i < 1+c.heavy(60); i++ {
						op = append(op, g.alts(n))
						if c.p(1, 2) {
							op = append(op, MPart{Alts: []string{g.altPiece()}})
						}
					}
					s := &MS{Op: op}
					for i := 0; i < c.heavy(80); i++ {
						if c.p(1, 2) {
							s.Args = append(s.Args, &MS{Op: g.altOp(n), Args: []MVal{g.leaf()}})
						} else {
							s.Args = append(s.Args, g.leaf())
						}
					}
					checkExpand(c, one(&MRule{Match: s, Result: small(g)}))
					checkExpand(c, one(&MRule{Match: small(g), Result: s}))
				}},
				{"deep", t.n(200, 4000), func(c *Case) {
					g := newGen(c.RNG, 50)
					n := 2 + c.n(3)
					d := 1 + c.heavy(400)
					s := &MS{Op: g.altOp(n), Args: []MVal{MVar("x")}}
					for i := 0; i < d; i++ {
						o := lit(g.opName())
						if c.p(1, 10) {
							o = g.altOp(n)
						}
						s = &MS{Op: o, Args: []MVal{MVar("y"), s}}
					}
					checkExpand(c, one(&MRule{Match: s, Result: MVar("x")}))
				}},
				{"many rules", t.n(40, 400), func(c *Case) {
					m := &MFile{}
					for i := 0; i < 100+c.n(1500); i++ {
						g := newGen(c.RNG, 3)
						g.MaxArgs = 2
						g.Alts, g.AltCount = 2+c.n(4), 2+c.n(4)
						m.Rules = append(m.Rules, g.rule())
					}
					checkExpand(c, m)
				}},
				{"rule files", numRuleFiles(), func(c *Case) {
					names, texts := ruleFiles()
					f, err := parse.File(names[c.Idx])
					m := refParseMode(texts[c.Idx], true).File
					if err != nil || m == nil || canonFileM(m) != canonFileR(f) {
						c.Hit("skipped: not parsed as meant (decided by C01)")
						return
					}
					want, err := expandFileM(m)
					if err != nil {
						return
					}
					if err := pass.ExpandAlternates(f); err != nil {
						c.Fail("%s: %v", names[c.Idx], err)
						return
					}
					c.Eval(len(want.Rules))
					if w, g := canonFileM(want), canonFileR(f); w != g {
						c.Fail("%s: %s", names[c.Idx], diff(w, g))
					}
				}},
			}
		},
	})
}
