package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"strings"
	"sync"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
)

// chunked reads s in pieces of random sizes, in the ways readers may behave.
type chunked struct {
	r    *RNG
	s    string
	mode int // 0: EOF after the data; 1: EOF with the last data; 2: zero reads in between
	max  int
}

func (c *chunked) Read(p []byte) (int, error) {
	if len(c.s) == 0 {
		return 0, io.EOF
	}
	if c.mode == 2 && c.r.p(1, 4) {
		return 0, nil
	}
	n := 1 + c.r.n(c.max)
	n = min(n, len(p), len(c.s))
	copy(p, c.s[:n])
	c.s = c.s[n:]
	if c.mode == 1 && len(c.s) == 0 {
		return n, io.EOF
	}
	return n, nil
}

// parseVia parses text through one of the entry points.
func parseVia(c *Case, how int, text string) (*ast.File, error, string) {
	switch how {
	case 0:
		f, err := parse.String(text)
		return f, err, "string"
	case 1:
		f, err := parse.Reader("in.rules", strings.NewReader(text))
		return f, err, "in.rules"
	case 2:
		r, done := readerOf(c, text)
		defer done()
		f, err := parse.Reader("in.rules", r)
		return f, err, "in.rules"
	default:
		return parseFile(c, text)
	}
}

// checkParse compares the parse of a text with the model it was made from.
func checkParse(c *Case, how int, m *MFile, text string) (*ast.File, bool) {
	c.Input(text)
	f, err, _ := parseVia(c, how, text)
	c.Eval(1)
	if err != nil {
		c.Fail("text of the language rejected: %v", err)
		return nil, false
	}
	if f == nil {
		c.Fail("neither a result nor an error")
		return nil, false
	}
	want, got := canonFileM(m), canonFileR(f)
	if want != got {
		c.Fail("parsed differently: %s", diff(want, got))
		return f, false
	}
	return f, true
}

func runParse(c *Case, m *MFile, key string) {
	w := newRend(c.RNG)
	text := w.file(m)
	how := 0
	if c.p(1, 6) {
		how = 1 + c.n(3)
	}
	checkParse(c, how, m, text)
	c.Traits(m)
	c.Hit(fmt.Sprintf("layout %d", w.Mode))
	c.Hit(fmt.Sprintf("entry point %d", how))
	if len(m.Rules) > 0 {
		c.Distinct(text)
	}
	c.Sample(text)
}

type finding struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	Input    string `json:"input"`
	Wrong    string `json:"wrong"` // canonical form of the wrong outcome
	What     string `json:"what"`
}

var findingsOnce sync.Once
var findingsList []finding

// knownFindings are listed in a file of /verif, copied next to the sources when
// the check is built.
func knownFindings() []finding {
	findingsOnce.Do(func() {
		var doc struct {
			Findings []finding `json:"findings"`
		}
		b, err := os.ReadFile(os.Getenv("VERIF_FINDINGS"))
		if err != nil {
			return
		}
		if err := json.Unmarshal(b, &doc); err != nil {
			fatal(err)
		}
		findingsList = doc.Findings
	})
	return findingsList
}

// known reports whether a wrong outcome for the text of a rule is listed.
func known(c *Case, prop, text, got string) bool {
	for _, f := range knownFindings() {
		if f.Property == prop && f.Input == text && f.Wrong == got {
			c.Known(f.ID, f.ID+": "+f.What)
			return true
		}
	}
	return false
}

func init() {
	register(&Check{
		ID:       "C01",
		MinEvals: 10000,
		Rule: "A case is a text rendered from a generated model (or a rule file of the repository), parsed by the real parser and compared node by node " +
			"with the model (for rule files: with the outcome of an independent parser). Models sweep every count and length dimension, every subset of attributes at every place, every character of every token class, and random files; layouts vary. " +
			"Non-trivial: a text with at least one rule; distinct by text.",
		Assumptions: []string{"go/scanner and go/parser define what a Go expression is", "comments inside conditions are left out of generated texts (known finding)", "nesting up to 1,100 (calls: 200) within rules, and 10,000 in one stream"},
		Streams: func(t Tier) []Stream {
			pts := dimPoints()
			return []Stream{
				{"random", t.n(12000, 600000), func(c *Case) { runParse(c, randomModel(c.RNG), "") }},
				{"sweep", len(pts) * t.n(1, 8), func(c *Case) {
					p := pts[c.Idx%len(pts)]
					m := p.d.make(newGen(c.RNG, 20), p.n)
					if p.n > 80 || p.d.name == "rules" || c.p(1, 4) {
						runParse(c, m, "")
					} else {
						// With neighbours, so that what follows is seen too.
						g := newGen(c.RNG, 10)
						m.Rules = append(m.Rules, g.rule())
						m.Rules = append([]*MRule{g.rule()}, m.Rules...)
						runParse(c, m, "")
					}
					c.Hit("sweep " + p.d.name)
				}},
				{"notes", len(notes) * 9 * t.n(2, 20), func(c *Case) {
					m, text := noted(c, c.Idx)
					c.Input(text)
					checkParse(c, c.n(4), m, text)
				}},
				{"attributes", nAttr * 24 * t.n(1, 12), func(c *Case) {
					runParse(c, attrModel(newGen(c.RNG, 10), c.Idx%nAttr, c.Idx/nAttr), "")
				}},
				{"characters", len(charCases()) * t.n(1, 4), func(c *Case) { runParse(c, charCases()[c.Idx%len(charCases())](newGen(c.RNG, 5)), "") }},
				{"expressions", t.n(6000, 300000), func(c *Case) {
					g := newGen(c.RNG, 3)
					depth := c.n(7)
					s := &MS{Op: lit("A"), AuxInt: g.goexpr('i', depth), Aux: g.goexpr('x', depth)}
					runParse(c, one(&MRule{Match: s, Cond: g.goexpr('c', depth), Result: MVar("x")}), "")
				}},
				{"operator pairs", len(binOps) * len(binOps) * 3, func(c *Case) {
					k := c.Idx
					a, b := binOps[k%len(binOps)], binOps[k/len(binOps)%len(binOps)]
					runParse(c, opPair(a, b, k/len(binOps)/len(binOps)), "")
				}},
				{"huge sizes", len(hugePoints()) * t.n(1, 4), func(c *Case) {
					m := hugeModel(c)
					text := plainRend(c.RNG).file(m)
					checkParse(c, c.n(4), m, text)
					c.Input(short(text))
				}},
				{"deep", t.n(16, 64), func(c *Case) {
					g := newGen(c.RNG, 10)
					n := []int{2000, 5000, 10000, 3000}[c.Idx%4]
					m := one(&MRule{Match: nest(g, n, 0), Result: small(g)})
					if c.Idx%8 >= 4 {
						m.Rules[0].Match, m.Rules[0].Result = m.Rules[0].Result, m.Rules[0].Match
					}
					checkParse(c, c.n(4), m, plainRend(c.RNG).file(m))
					c.Hit("deep")
				}},
				{"large", t.n(16, 100), func(c *Case) {
					m := &MFile{}
					n := []int{300, 2000, 5000, 9000}[c.Idx%4]
					g := newGen(c.RNG, 12)
					for i := 0; i < n; i++ {
						m.Rules = append(m.Rules, g.rule())
					}
					w := newRend(c.RNG)
					if w.Mode == 3 {
						w.Mode = 2
					}
					text := w.file(m)
					checkParse(c, c.n(4), m, text)
					c.Input(short(text))
					c.Hit(fmt.Sprintf("text of %d KB", len(text)/256*256>>10))
				}},
				{"very large", t.n(2, 8), func(c *Case) {
					// Many short rules: the text as a whole is large.
					m := &MFile{}
					n := []int{131073, 66000}[c.Idx%2]
					for i := 0; i < n; i++ {
						r := &MRule{Match: &MS{Op: lit("A"), Args: []MVal{MVar("x")}}, Result: MVar("x")}
						if i%2 == c.Idx%2 {
							r.Result = &MS{Op: lit(fmt.Sprintf("B%d", i)), Args: []MVal{MVar("x"), MVar("y")}}
						}
						m.Rules = append(m.Rules, r)
					}
					checkParse(c, c.n(4), m, plainRend(c.RNG).file(m))
					c.Input("")
					c.Hit(fmt.Sprintf("%d rules", n))
				}},
				{"far", len(farPoints()) * t.n(1, 10), func(c *Case) {
					// The rule comes late.
					text := farPrefix(c)
					m := newGen(c.RNG, 10).file(1)
					text += newRend(c.RNG).file(m)
					res := refParse(text)
					if res.File == nil || res.Ambiguous {
						c.Error("not in the language: %v", res.Errs)
						return
					}
					checkParse(c, c.n(4), res.File, text)
					c.Input(short(text))
				}},
				{"one huge rule", t.n(8, 32), func(c *Case) {
					g := newGen(c.RNG, 10)
					s := &MS{Op: lit("A")}
					for i := 0; i < 3000+2000*(c.Idx%4); i++ {
						s.Args = append(s.Args, g.sexpr(7))
					}
					m := one(&MRule{Match: s, Cond: g.goexpr('c', 4), Result: small(g)})
					w := newRend(c.RNG)
					checkParse(c, c.n(4), m, w.file(m))
					c.Input("")
					c.Hit("huge rule")
				}},
				{"mutated", t.n(20000, 1000000), func(c *Case) {
					text := mutant(c.RNG)
					c.Input(text)
					res := refParse(text)
					if res.Ambiguous {
						c.Hit("mutants skipped: comment within a condition")
						return
					}
					if res.File == nil {
						c.Hit("mutants outside the language (decided by C02)")
						return
					}
					f, err := parse.String(text)
					c.Eval(1)
					c.Hit("mutants within the language")
					if err != nil || f == nil {
						c.Fail("text of the language rejected: %v", err)
						return
					}
					if want, got := canonFileM(res.File), canonFileR(f); want != got {
						c.Fail("parsed differently: %s", diff(want, got))
					}
					c.Distinct(text)
				}},
				{"rule files", numRuleFiles(), func(c *Case) {
					names, texts := ruleFiles()
					checkRuleFile(c, names[c.Idx], texts[c.Idx])
				}},
				{"known findings", 1, func(c *Case) {
					for _, f := range knownFindings() {
						if f.Property != "C01" {
							continue
						}
						checkRuleFile(c, "", f.Input)
					}
				}},
			}
		},
	})
}

func numRuleFiles() int {
	names, _ := ruleFiles()
	return len(names)
}

// checkRuleFile compares rule by rule with the reference parser.
func checkRuleFile(c *Case, name, text string) {
	res := refParse(text)
	if res.File == nil {
		c.Error("%s: not in the language: %v", name, res.Errs)
		return
	}
	var f *ast.File
	var err error
	if name != "" {
		f, err = parse.File(name)
	} else {
		f, err = parse.Reader("", bytes.NewReader([]byte(text)))
	}
	c.Eval(len(res.File.Rules))
	if err != nil || f == nil {
		c.Input(short(text))
		c.Fail("rule file %s rejected: %v", name, err)
		return
	}
	c.w.st.Hist["rules of rule files"] += len(res.File.Rules)
	if len(f.Rules) != len(res.File.Rules) {
		c.Fail("rule file %s: %d rules, want %d", name, len(f.Rules), len(res.File.Rules))
		return
	}
	for i, r := range res.File.Rules {
		want, got := canonRuleM(r), canonRuleR(f.Rules[i])
		c.Distinct(want)
		if want == got {
			continue
		}
		src := text[r.lo:r.hi]
		if known(c, "C01", src, got) {
			continue
		}
		c.Input(src)
		c.Fail("rule %d of %s parsed differently: %s", i, name, diff(want, got))
	}
}

func opPair(a, b string, form int) *MFile {
	x, y, z := gi("x"), gi("y"), gi("z")
	var e *GX
	if binPrec[b] > binPrec[a] {
		e = gb(a, x, gb(b, y, z))
	} else {
		e = gb(b, gb(a, x, y), z)
	}
	if form == 2 {
		e = gb(a, x, gp(gb(b, y, z)))
	}
	s := &MS{Op: lit("A")}
	r := &MRule{Match: s, Result: MVar("x")}
	switch form {
	case 0:
		s.Aux = e
		s.AuxInt = e.clone()
	default:
		r.Cond = e
	}
	return one(r)
}

var charOnce sync.Once
var charList []func(g *Gen) *MFile

// charCases place every character of every token class at the start, the middle
// and the end of a token.
func charCases() []func(g *Gen) *MFile {
	charOnce.Do(func() {
		add := func(f func(g *Gen) *MFile) { charList = append(charList, f) }
		three := func(ch string) []string { return []string{ch, ch + "a", "a" + ch, "a" + ch + "b", ch + ch} }
		for _, ch := range identChars {
			for _, w := range three(string(ch)) {
				w := w
				add(func(g *Gen) *MFile { return one(&MRule{Match: &MS{Op: lit(w)}, Result: small(g)}) })
				add(func(g *Gen) *MFile {
					return one(&MRule{Match: &MS{Op: []MPart{{Alts: []string{w}}, {Alt: true, Alts: []string{"A", w}}, {Alts: []string{w}}}}, Result: small(g)})
				})
				if isVarName(w) {
					add(func(g *Gen) *MFile {
						return one(&MRule{Match: &MS{Op: lit("A"), Binding: w, Args: []MVal{MVar(w)}}, Result: MVar(w)})
					})
					add(func(g *Gen) *MFile { return one(&MRule{Match: small(g), Result: &MX{gc(gi(w), gi(w))}}) })
				}
				if !('0' <= w[0] && w[0] <= '9') {
					add(func(g *Gen) *MFile {
						return one(&MRule{Match: &MS{Op: lit("A"), Aux: gd(gi(w), w), AuxInt: gi(w)}, Cond: gi(w), Result: small(g)})
					})
				}
			}
		}
		var chars []rune
		for r := rune(0); r < 256; r++ {
			chars = append(chars, r)
		}
		chars = append(chars, 0x2028, 0x301, 0xfeff, 0xfffd, 0x1f600, 0x10ffff, 0x85, 0xa0, 0x3000, 0x65e5)
		for _, r := range chars {
			for _, w := range three(string(r)) {
				w := w
				if r != '>' {
					add(func(g *Gen) *MFile {
						return one(&MRule{Match: &MS{Op: lit("A"), Type: w, Args: []MVal{MVar("x")}}, Result: small(g)})
					})
				}
				if !strings.ContainsRune(" \t\r\n", r) {
					add(func(g *Gen) *MFile { return one(&MRule{Match: small(g), Block: w, Result: small(g)}) })
				}
				if r != '\n' && r != '\r' && r != 0 && r != 0xfeff && r != '"' && r != '\\' {
					l := gl("STRING", `"`+w+`"`)
					add(func(g *Gen) *MFile {
						s := &MS{Op: lit("A")}
						if r != ']' {
							s.AuxInt = l
						}
						if r != '}' {
							s.Aux = l
						}
						return one(&MRule{Match: s, Cond: gb("==", l, gi("x")), Result: small(g)})
					})
				}
			}
		}
	})
	return charList
}
