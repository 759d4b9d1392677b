package main

import (
	"bytes"
	"fmt"
	"io"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/printer"
)

// printed prints a node, and demands a text.
func printed(c *Case, n ast.Node, want, what string) {
	b, err := printer.Bytes(n)
	c.Eval(1)
	if err != nil {
		c.Fail("%s not printed: %v (want %q)", what, err, short(want))
		return
	}
	if string(b) != want {
		c.Fail("%s printed differently: %s", what, diff(want, string(b)))
	}
	c.Hit("printed alone: " + what)
}

// printedParts prints every node of a rule on its own.
func printedParts(c *Case, m *MRule, r *ast.Rule) {
	var val func(m MVal, v ast.Value)
	val = func(m MVal, v ast.Value) {
		switch w := m.(type) {
		case MVar:
			printed(c, v, string(w), "variable")
		case *MX:
			printed(c, v, gxText(w.X), "call")
		case *MS:
			s, ok := v.(*ast.SExpr)
			if !ok || len(s.Args) != len(w.Args) {
				return
			}
			printed(c, s, valText(w), "s-expression")
			printed(c, s.Op, opText(w.Op), "opcode")
			if parts, ok := s.Op.(ast.OpcodeParts); ok && len(parts) == len(w.Op) {
				for i, p := range parts {
					printed(c, p, opText(w.Op[i:i+1]), "opcode part")
				}
			}
			if w.Binding != "" {
				printed(c, s.Binding, w.Binding, "binding")
			}
			if w.AuxInt != nil && s.AuxInt != nil {
				printed(c, s.AuxInt, gxText(w.AuxInt), "auxint")
			}
			if w.Aux != nil && s.Aux != nil {
				printed(c, s.Aux, gxText(w.Aux), "aux")
			}
			for i := range w.Args {
				val(w.Args[i], s.Args[i])
			}
		}
	}
	printed(c, r, ruleText(m), "rule")
	val(m.Match, r.Match)
	if m.Cond != nil && r.Condition != nil {
		printed(c, r.Condition, gxText(m.Cond), "condition")
	}
	val(m.Result, r.Result)
}

func canonical(c *Case, m *MFile, layouts int, parts bool) {
	want := printFileM(m)
	canonM := canonFileM(m)
	for i := 0; i < layouts; i++ {
		w := newRend(c.RNG)
		text := w.file(m)
		c.Input(text)
		f, err := parse.String(text)
		if err != nil || canonFileR(f) != canonM {
			c.Hit("skipped: not parsed as meant (decided by C01)")
			continue
		}
		b, err := printer.Bytes(f)
		c.Eval(1)
		if err != nil {
			c.Fail("not printed: %v", err)
			return
		}
		if string(b) != want {
			c.Fail("not the canonical text: %s", diff(want, string(b)))
			return
		}
		if s, err := writtenVia(c, len(want), func(w io.Writer) error { return printer.Fprint(w, f) }); err != nil || s != want {
			c.Fail("not the canonical text to a writer: %v %s", err, diff(want, s))
			return
		}
		if c.p(1, 6) {
			if s, err := onStdout(c, func() error { return printer.Print(f) }); err != nil || s != want {
				c.Fail("not the canonical text on standard output: %v %s", err, diff(want, s))
				return
			}
		}
		c.Distinct(want)
		c.Hit(fmt.Sprintf("layout %d", w.Mode))
		if i > 0 {
			continue
		}
		// Printing again changes nothing.
		g, err := parse.String(string(b))
		if err != nil {
			c.Hit("skipped: printed text rejected (decided by C04)")
			continue
		}
		b2, err := printer.Bytes(g)
		c.Eval(1)
		if err != nil || !bytes.Equal(b, b2) {
			c.Fail("printing is not idempotent: %v %s", err, diff(string(b), string(b2)))
			return
		}
		if parts {
			for i, r := range f.Rules {
				printedParts(c, m.Rules[i], r)
			}
		}
	}
	// A tree built by hand prints alike.
	b, err := printer.Bytes(builtFile(c, m))
	c.Eval(1)
	c.Input(want)
	if err != nil || string(b) != want {
		c.Fail("built by hand, not the canonical text: %v %s", err, diff(want, string(b)))
	}
	c.Traits(m)
	c.Sample(want)
}

func init() {
	register(&Check{
		ID:       "C05",
		MinEvals: 10000,
		Rule: "A case is a model rendered in several layouts; what the printer makes of each is compared with the canonical text of the model, written by an independent printer, as are the texts of all its nodes on their own. " +
			"Non-trivial: every text printed; distinct by canonical text.",
		Streams: func(t Tier) []Stream {
			pts := dimPoints()
			return []Stream{
				{"random", t.n(5000, 300000), func(c *Case) { canonical(c, repeatSome(c.RNG, randomModel(c.RNG)), 2, true) }},
				{"attributes", nAttr * 24 * t.n(1, 4), func(c *Case) {
					canonical(c, attrModel(newGen(c.RNG, 8), c.Idx%nAttr, c.Idx/nAttr), 2, true)
				}},
				{"sweep", len(pts), func(c *Case) {
					p := pts[c.Idx]
					canonical(c, p.d.make(newGen(c.RNG, 10), p.n), 1, p.n < 80)
				}},
				{"huge sizes", len(hugePoints()), func(c *Case) {
					canonical(c, hugeModel(c), 1, false)
					c.Input("")
				}},
				{"characters", len(charCases()), func(c *Case) { canonical(c, charCases()[c.Idx](newGen(c.RNG, 5)), 1, true) }},
				{"expressions", t.n(5000, 200000), func(c *Case) {
					g := newGen(c.RNG, 3)
					depth := c.n(7)
					s := &MS{Op: lit("A"), AuxInt: g.goexpr('i', depth), Aux: g.goexpr('x', depth)}
					canonical(c, one(&MRule{Match: s, Cond: g.goexpr('c', depth), Result: MVar("x")}), 2, true)
				}},
				{"operator pairs", len(binOps) * len(binOps) * 3, func(c *Case) {
					k := c.Idx
					canonical(c, opPair(binOps[k%len(binOps)], binOps[k/len(binOps)%len(binOps)], k/len(binOps)/len(binOps)), 1, true)
				}},
				{"operator operand pairs", nOpOperand(), func(c *Case) {
					canonical(c, opOperand(c.Idx), 1, false)
				}},
				{"operands alone", len(primaries()) * nPlaces, func(c *Case) {
					canonical(c, systematic(c.RNG, c.Idx), 2, true)
				}},
				{"rule files", numRuleFiles(), func(c *Case) {
					names, texts := ruleFiles()
					f, err := parse.File(names[c.Idx])
					m := refParseMode(texts[c.Idx], true).File
					if err != nil || m == nil || canonFileM(m) != canonFileR(f) {
						c.Hit("skipped: not parsed as meant (decided by C01)")
						return
					}
					b, err := printer.Bytes(f)
					c.Eval(1)
					if want := printFileM(m); err != nil || string(b) != want {
						c.Fail("%s: not the canonical text: %v %s", names[c.Idx], err, diff(want, string(b)))
					}
					for i, r := range f.Rules {
						printedParts(c, m.Rules[i], r)
					}
				}},
			}
		},
	})
}
