package main

import (
	"fmt"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/smt2"
)

// checkSupport demands a script for a supported rule, and an error and nothing
// else for any other.
func checkSupport(c *Case, m *MRule, r *ast.Rule) {
	text := ruleText(m)
	c.Input(text)
	ref, why := smtMeaning(m)
	if r == nil {
		r = builtRule(c, m)
		if c.p(1, 4) {
			f, err := parse.String(text)
			if err == nil && len(f.Rules) == 1 && canonRuleR(f.Rules[0]) == canonRuleM(m) {
				r = f.Rules[0]
			}
		}
	}
	before := canonRuleR(r)
	b, err := smt2.Generate(r)
	c.Eval(1)
	switch {
	case ref != nil && err != nil:
		c.Fail("supported rule rejected: %v: %s", err, short(text))
	case ref == nil && err == nil:
		c.Fail("rule accepted that is not supported (%s): %s\n%s", why, short(text), short(string(b)))
	case err != nil && len(b) != 0:
		c.Fail("both a script and an error (%v): %s", err, short(text))
	case err != nil && err.Error() == "":
		c.Fail("empty error message: %s", short(text))
	case err == nil && len(b) == 0:
		c.Fail("neither a script nor an error: %s", short(text))
	}
	if after := canonRuleR(r); after != before {
		c.Fail("the rule was changed: %s", diff(before, after))
	}
	if ref != nil {
		c.Hit("supported")
	} else {
		c.Hit("not supported: " + why)
	}
	c.Distinct(text)
	c.Sample(text)
}

var nearOps = []string{"Add", "Sub", "And", "Or", "Xor", "Neg", "Com", "Eq", "Neq", "NotB", "Not8", "Not64", "Add128", "Add1", "Add4", "Add80", "Add08", "Add 8", "add8", "ADD8", "AddB", "SubB", "XorB", "NegB", "ComB", "Eq8", "Eq64", "Neq8", "Neq32", "EqPtr", "AddPtr", "Add32F", "Add64F",
	"Sub32F", "Neg64F", "Mul8", "Mul64", "Div8", "Mod16u", "AndB8", "OrB1", "Andb", "Not_", "NOT", "not", "And8x64", "Or", "Lsh8x8", "Less8", "Leq64", "Const8", "ConstBool", "Copy", "_", "", "Add8Add8", "Com6", "Com46", "Neg6", "XorB64", "CondSelect", "ZeroExt8to16", "SignExt8to16", "Trunc16to8", "IsNonNil", "Ctz8", "Bswap32", "EqInter", "Hmul32", "Avg64u", "Add8carry", "Add64c"}

// damage makes a supported rule one that is not, in one place.
func damage(c *Case, g *Gen, m *MRule, kind int) string {
	ss := sexprsOf(m)
	s := ss[c.n(len(ss))]
	if c.p(1, 4) {
		s = ss[len(ss)-1]
	}
	name := ""
	switch kind % 17 {
	case 0:
		name, s.Binding = "binding", g.varName()
	case 1:
		name, s.Type = "type", g.typ()
	case 2:
		name, s.AuxInt = "auxint", g.goexpr('i', c.n(2))
	case 3:
		name, s.Aux = "aux", g.goexpr('x', c.n(2))
	case 4:
		name, s.Ellipsis = "ellipsis", true
	case 5:
		name, s.Trailing = "trailing", true
	case 6:
		name, m.Cond = "condition", g.goexpr('c', c.n(3))
	case 7:
		name, m.Block = "block", g.block()
	case 8:
		name = "opcode"
		s.Op = lit(c.pick(nearOps))
		if c.p(1, 3) {
			s.Op = lit(g.opName())
		}
	case 9:
		name = "one argument more"
		var a MVal = MVar("x")
		if len(s.Args) > 0 && c.p(1, 2) {
			a = cloneVal(s.Args[c.n(len(s.Args))])
		}
		s.Args = append(s.Args, a)
	case 10:
		name = "one argument less"
		k := c.n(len(s.Args))
		s.Args = append(append([]MVal(nil), s.Args[:k]...), s.Args[k+1:]...)
	case 11:
		name = "call"
		call := &MX{g.call(2)}
		if c.p(1, 8) {
			m.Result = call
		} else {
			s.Args[c.n(len(s.Args))] = call
		}
	case 12:
		name = "alternates"
		s.Op = g.altOp(2 + c.n(2))
		if c.p(1, 2) {
			s.Op = []MPart{{Alt: true, Alts: []string{s.Op[0].Alts[0]}}}
		}
		if c.p(1, 3) {
			s.Op = []MPart{{Alts: []string{"Add"}}, {Alt: true, Alts: []string{"8", "16"}}}
		}
	case 13:
		name = "placeholder in the result"
		if c.p(1, 3) {
			m.Result = MVar("_")
		} else if rs := sexprsOf(&MRule{Match: MVar("x"), Result: m.Result}); len(rs) > 0 {
			s = rs[c.n(len(rs))]
			s.Args[c.n(len(s.Args))] = MVar("_")
		}
	case 14:
		name = "operation of another width"
		w := smtOps[s.Op[0].Alts[0]].w
		for w == smtOps[s.Op[0].Alts[0]].w {
			w = smtWidths[c.n(5)]
		}
		s.Args[c.n(len(s.Args))] = newSMTGen(c.RNG, 2).op(w, 1)
	case 15:
		name = "match is a variable"
		m.Match = MVar([]string{"x", "_", "zz"}[c.n(3)])
	default:
		name = "variable of two widths"
		v := MVar("vv")
		s.Args[c.n(len(s.Args))] = v
		t := ss[c.n(len(ss))]
		t.Args[c.n(len(t.Args))] = v
	}
	return name
}

func init() {
	register(&Check{
		ID:       "C11",
		MinEvals: 50000,
		Rule: "A case is a rule: of the supported fragment, the same with one damage in one place, one of a family that is enumerated (operations by number of arguments, operations within one another, operations against one another, variables at two places), random, or real. What is supported is decided by a typed model of the fragment. " +
			"Non-trivial: every rule; distinct by text.",
		Streams: func(t Tier) []Stream {
			n := len(smtOpNames)
			pts := dimPoints()
			known := append(append([]string(nil), smtOpNames...), nearOps...)
			return []Stream{
				{"supported", t.n(8000, 400000), func(c *Case) {
					g := newSMTGen(c.RNG, 1+c.heavy(12))
					g.hole = 6 * c.n(2)
					w := smtWidths[c.n(5)]
					if c.p(1, 2) {
						m, _ := g.solvedRule(w, 1+c.n(6))
						checkSupport(c, m, nil)
						return
					}
					checkSupport(c, g.rule(w, 1+c.n(6)), nil)
				}},
				{"damaged", t.n(24000, 1000000), func(c *Case) {
					g := newSMTGen(c.RNG, 1+c.heavy(8))
					g.hole = 6 * c.n(2)
					m := g.rule(smtWidths[c.n(5)], 1+c.n(5))
					// The generator may use one tree twice.
					m = m.clone()
					c.Hit("damage: " + damage(c, newGen(c.RNG, 4), m, c.Idx))
					checkSupport(c, m, nil)
				}},
				{"operations by arguments", len(known) * 6 * 4, func(c *Case) {
					name := known[c.Idx%len(known)]
					k := c.Idx / len(known) % 6
					s := &MS{Op: lit(name)}
					for i := 0; i < k; i++ {
						s.Args = append(s.Args, MVar([]string{"x", "y", "_", "x"}[(i+c.Idx/len(known)/6)%4]))
					}
					switch c.Idx / len(known) / 6 {
					case 0:
						checkSupport(c, &MRule{Match: s, Result: MVar("z")}, nil)
					case 1:
						checkSupport(c, &MRule{Match: s, Result: cloneVal(s)}, nil)
					case 2:
						checkSupport(c, &MRule{Match: &MS{Op: lit("Not"), Args: []MVal{s}}, Result: MVar("z")}, nil)
					default:
						checkSupport(c, &MRule{Match: &MS{Op: lit("Neg64"), Args: []MVal{MVar("z")}}, Result: s}, nil)
					}
				}},
				{"operations within operations", n * n * 2 * 4, func(c *Case) {
					out, in := smtOpNames[c.Idx%n], smtOpNames[c.Idx/n%n]
					side := c.Idx / n / n % 2
					args := func(name string, p string) *MS {
						s := &MS{Op: lit(name)}
						for i := 0; i < smtOps[name].arity; i++ {
							s.Args = append(s.Args, MVar(fmt.Sprint(p, i)))
						}
						return s
					}
					o, i := args(out, "a"), args(in, "b")
					if side < len(o.Args) {
						o.Args[side] = i
					}
					m := &MRule{Match: o, Result: MVar("z")}
					switch c.Idx / n / n / 2 {
					case 1: // against one another
						m = &MRule{Match: args(out, "a"), Result: args(in, "b")}
					case 2: // the variables of one are those of the other
						m = &MRule{Match: args(out, "a"), Result: args(in, "a")}
					case 3:
						m = &MRule{Match: args(out, "b"), Result: o}
					}
					checkSupport(c, m, nil)
				}},
				{"variables at two places", n * 16 * 8, func(c *Case) {
					// One variable at two places of a rule of several widths.
					g := newSMTGen(c.RNG, 6)
					w := smtOps[smtOpNames[c.Idx%n]].w
					m := g.rule(w, 2+c.n(2)).clone()
					ss := sexprsOf(m)
					for k := 0; k < 2; k++ {
						s := ss[c.n(len(ss))]
						s.Args[c.n(len(s.Args))] = MVar("vv")
					}
					if c.p(1, 3) {
						m.Result = MVar("vv")
					}
					if c.p(1, 3) {
						// Another width within: a rule that cannot be.
						s := ss[c.n(len(ss))]
						s.Args[c.n(len(s.Args))] = &MS{Op: lit(c.pick(smtOpNames)), Args: []MVal{MVar("vv"), MVar("vv")}}
					}
					checkSupport(c, m, nil)
				}},
				{"random", t.n(6000, 300000), func(c *Case) {
					for _, r := range randomModel(c.RNG).Rules {
						checkSupport(c, r, nil)
					}
				}},
				{"attributes", nAttr * 24 * t.n(1, 6), func(c *Case) {
					for _, r := range attrModel(newGen(c.RNG, 8), c.Idx%nAttr, c.Idx/nAttr).Rules {
						checkSupport(c, r, nil)
					}
				}},
				{"sweep", len(pts), func(c *Case) {
					p := pts[c.Idx]
					for i, r := range p.d.make(newGen(c.RNG, 10), p.n).Rules {
						if i < 50 {
							checkSupport(c, r, nil)
						}
					}
				}},
				{"sizes", len(sizes(1100)) * 2, func(c *Case) {
					k := sizes(1100)[c.Idx/2]
					var s MVal = MVar("x0")
					for i := 0; i < k; i++ {
						s = &MS{Op: lit("Add64"), Args: []MVal{s, MVar(fmt.Sprint("x", i%300))}}
					}
					m := &MRule{Match: s, Result: MVar("x0")}
					if c.Idx%2 == 1 && k > 0 {
						g := newGen(c.RNG, 3)
						damage(c, g, m, c.n(17))
					}
					checkSupport(c, m, nil)
				}},
				{"rule files", numRuleFiles(), func(c *Case) {
					_, texts := ruleFiles()
					res := refParse(texts[c.Idx])
					if res.File == nil {
						return
					}
					for _, r := range res.File.Rules {
						checkSupport(c, r, nil)
						rs, err := expandM(r)
						if err != nil || len(rs) == 1 {
							continue
						}
						for _, m := range rs {
							checkSupport(c, m, nil)
						}
					}
				}},
			}
		},
	})
}
