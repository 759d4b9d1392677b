package main

import (
	"bytes"
	"reflect"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/pass"
	"github.com/mmcloughlin/ssarules/printer"
)

// checkRoundTrip prints a tree and parses what was printed.
func checkRoundTrip(c *Case, f *ast.File, want string) {
	b, err := printer.Bytes(f)
	c.Eval(1)
	if err != nil {
		c.Fail("not printed: %v", err)
		return
	}
	c.Input(string(b))
	g, err := parse.String(string(b))
	if err != nil {
		c.Fail("the printed text is rejected: %v", err)
		return
	}
	if got := canonFileR(g); got != want {
		c.Fail("the printed text reads differently: %s", diff(want, got))
		return
	}
	if !reflect.DeepEqual(f.Rules, g.Rules) && canonFileR(f) == want && len(f.Rules)+len(g.Rules) > 0 {
		c.Fail("the printed text reads differently in details")
		return
	}
	var buf bytes.Buffer
	if err := printer.Fprint(&buf, f); err != nil || !bytes.Equal(buf.Bytes(), b) {
		c.Fail("Fprint and Bytes differ: %v: %s", err, diff(string(b), buf.String()))
	}
	c.Distinct(want)
}

func roundTripModel(c *Case, m *MFile) {
	want := canonFileM(m)
	text := newRend(c.RNG).file(m)
	c.Input(text)
	f, err := parse.String(text)
	if err != nil || canonFileR(f) != want {
		c.Hit("skipped: not parsed as meant (decided by C01)")
	} else {
		checkRoundTrip(c, f, want)
	}
	// A tree that was not made by the parser.
	checkRoundTrip(c, builtFile(c, m), want)
	c.Traits(m)
	c.Sample(text)
}

func init() {
	register(&Check{
		ID:       "C04",
		MinEvals: 10000,
		Rule: "A case is a tree: parsed from a rendered model, from a rule file or from a mutant within the language, built by hand from a model, or expanded. It is printed, the text parsed, and the tree compared with the first, node by node. " +
			"Non-trivial: every tree printed; distinct by tree.",
		Assumptions: []string{"trees have the shapes the parser produces (parentheses are explicit nodes)"},
		Streams: func(t Tier) []Stream {
			pts := dimPoints()
			return []Stream{
				{"random", t.n(8000, 500000), func(c *Case) { roundTripModel(c, repeatSome(c.RNG, randomModel(c.RNG))) }},
				{"attributes", nAttr * 24 * t.n(1, 8), func(c *Case) {
					roundTripModel(c, attrModel(newGen(c.RNG, 8), c.Idx%nAttr, c.Idx/nAttr))
				}},
				{"sweep", len(pts), func(c *Case) {
					p := pts[c.Idx]
					roundTripModel(c, p.d.make(newGen(c.RNG, 10), p.n))
				}},
				{"huge sizes", len(hugePoints()), func(c *Case) {
					roundTripModel(c, hugeModel(c))
					c.Input("")
				}},
				{"characters", len(charCases()), func(c *Case) { roundTripModel(c, charCases()[c.Idx](newGen(c.RNG, 5))) }},
				{"expressions", t.n(8000, 500000), func(c *Case) {
					g := newGen(c.RNG, 3)
					depth := c.n(8)
					s := &MS{Op: lit("A"), AuxInt: g.goexpr('i', depth), Aux: g.goexpr('x', depth)}
					roundTripModel(c, one(&MRule{Match: s, Cond: g.goexpr('c', depth), Result: MVar("x")}))
				}},
				{"operator pairs", len(binOps) * len(binOps) * 3, func(c *Case) {
					k := c.Idx
					roundTripModel(c, opPair(binOps[k%len(binOps)], binOps[k/len(binOps)%len(binOps)], k/len(binOps)/len(binOps)))
				}},
				{"operator operand pairs", nOpOperand(), func(c *Case) {
					roundTripModel(c, opOperand(c.Idx))
				}},
				{"operands alone", len(primaries()) * nPlaces, func(c *Case) {
					roundTripModel(c, systematic(c.RNG, c.Idx))
				}},
				{"expanded", t.n(2000, 100000), func(c *Case) {
					m := consistentModel(c.RNG, 1+c.n(5))
					e, err := expandFileM(m)
					if err != nil {
						c.Hit("skipped: not compatible")
						return
					}
					f := builtFile(c, m)
					if c.p(1, 2) {
						g, err := parse.String(plainRend(c.RNG).file(m))
						if err != nil {
							return
						}
						f = g
					}
					if err := pass.ExpandAlternates(f); err != nil || canonFileR(f) != canonFileM(e) {
						c.Hit("skipped: not expanded as meant (decided by C06)")
						return
					}
					checkRoundTrip(c, f, canonFileM(e))
				}},
				{"mutants", t.n(10000, 500000), func(c *Case) {
					text := mutant(c.RNG)
					res := refParse(text)
					if res.File == nil || res.Ambiguous {
						return
					}
					c.Input(text)
					f, err := parse.String(text)
					if err != nil || canonFileR(f) != canonFileM(res.File) {
						return
					}
					if literalLines(res.File) {
						return
					}
					checkRoundTrip(c, f, canonFileR(f))
				}},
				{"rule files", numRuleFiles(), func(c *Case) {
					names, _ := ruleFiles()
					f, err := parse.File(names[c.Idx])
					if err != nil {
						c.Fail("%v", err)
						return
					}
					checkRoundTrip(c, f, canonFileR(f))
					c.Input("")
				}},
			}
		},
	})
}

// literalLines reports whether a condition has a literal of several lines, which
// text cannot express.
func literalLines(f *MFile) bool {
	found := false
	var walk func(x *GX)
	walk = func(x *GX) {
		if x == nil {
			return
		}
		for _, ch := range x.S {
			if ch == '\n' || ch == '\r' {
				found = true
			}
		}
		for _, a := range x.A {
			walk(a)
		}
	}
	for _, r := range f.Rules {
		walk(r.Cond)
	}
	return found
}

// primaries are operands of all kinds, that start with all kinds of tokens.
func primaries() []*GX {
	x, y := gi("x"), gi("y")
	out := []*GX{x, gl("INT", "1"), gl("FLOAT", ".5"), gl("FLOAT", "1."), gl("STRING", `"s"`), gl("CHAR", "'c'"), gl("IMAG", "1i"),
		gp(x), gs(x), gc(x, y), gc(x), gd(x, "f"), gd(gl("INT", "1"), "f"), gd(gl("FLOAT", "1.5"), "e"), gd(gl("INT", "0x1"), "p"), gd(gl("STRING", `"s"`), "f"), gc(gl("INT", "1"), x),
		gd(gp(gb("+", x, y)), "f"), gc(gp(gs(x)), y), gs(gs(x)), gd(gc(x), "g"), gc(gd(gl("INT", "2"), "g"), y), gp(gp(gu("-", x))), gd(gd(gl("INT", "3"), "a"), "b")}
	for _, u := range unOps {
		out = append(out, gu(u, x), gs(gu(u, x)), gu(u, gs(x)), gu(u, gl("INT", "1")), gu(u, gp(x)), gu(u, gd(x, "f")), gu(u, gc(x, y)))
		for _, v := range unOps {
			out = append(out, gu(u, gu(v, x)))
		}
	}
	return out
}

func nOpOperand() int { return (len(binOps) + len(unOps) + 1) * len(primaries()) * 3 }

func opOperand(k int) *MFile {
	ps := primaries()
	p := ps[k%len(ps)]
	k /= len(ps)
	nops := len(binOps) + len(unOps) + 1
	o := k % nops
	k /= nops
	var e *GX
	switch {
	case o < len(binOps):
		e = gb(binOps[o], gi("a"), p)
		if binPrec[binOps[o]] < 5 {
			e = gb(binOps[o], gi("a"), gb("*", p, gi("b")))
		}
	case o < len(binOps)+len(unOps):
		e = gu(unOps[o-len(binOps)], p)
	default:
		e = gs(p)
	}
	switch k {
	case 0:
		return one(&MRule{Match: &MS{Op: lit("A"), Aux: e}, Result: MVar("x")})
	case 1:
		return one(&MRule{Match: &MS{Op: lit("A"), AuxInt: gc(gi("f"), gi("x"), e)}, Result: MVar("x")})
	default:
		if e.K == 'b' && binPrec[e.S] <= binPrec["&&"] {
			e = gp(e)
		}
		return one(&MRule{Match: &MS{Op: lit("A")}, Cond: gb("&&", e.clone(), e), Result: MVar("x")})
	}
}
