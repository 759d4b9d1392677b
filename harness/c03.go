package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
)

// checkLayouts demands that renderings of one model, through any entry point, have
// equal trees.
func checkLayouts(c *Case, m *MFile, n int) {
	base := plainRend(c.RNG).file(m)
	first, err := parse.String(base)
	c.Input(base)
	if err != nil {
		c.Fail("text of the language rejected: %v", err)
		return
	}
	if len(first.Rules) != len(m.Rules) {
		c.Fail("%d rules, want %d", len(first.Rules), len(m.Rules))
		return
	}
	for i := 0; i < n; i++ {
		w := newRend(c.RNG)
		switch i {
		case 0:
			w.Mode = 0
			w.Comments = false
		case 1:
			w.Mode = 3
			w.Comments, w.GoNotes = true, true
		}
		text := w.file(m)
		how := (i + c.n(2)) % 4
		c.Input(text)
		f, err, _ := parseVia(c, how, text)
		c.Eval(1)
		if err != nil {
			c.Fail("rejected in this layout: %v\nbut not in the layout %q", err, short(base))
			return
		}
		if !reflect.DeepEqual(first, f) {
			want, got := canonFileR(first), canonFileR(f)
			d := diff(want, got)
			if want == got {
				d = "in details such as positions"
			}
			c.Fail("different tree in this layout: %s\nthan in the layout %q", d, short(base))
			return
		}
		c.Hit(fmt.Sprintf("layout %d", w.Mode))
		c.Hit(fmt.Sprintf("entry point %d", how))
		if w.CRLF {
			c.Hit("CRLF")
		}
		if w.Comments {
			c.Hit("comments")
		}
		if w.GoNotes {
			c.Hit("comments in bracketed expressions")
		}
		c.Distinct(text)
	}
	c.Sample(base)
}

// A gap is a place of a text where layout may be put.
var gapTexts = []string{"", " ", "\t", "\n", "\r", "\r\n", "  ", "\n\n", "\t\t", "\r\r", "//\n", "//c\n", " // c\n ", "// => \n", "//)\n", "// &&\n", "///\n", "//\r\n", " //\n//\n", "\n \n", " \t\r\n", "// \"\n", "// é\n", "//c\r\n\t", "// (A) => (B)\n", "//%d\n", "//\r \n", "//a\rb\n", "//\r(A) => (B)\n", "//\v\f\u0085\u2028\u2029\n", "// a, b; c: d | e\n", "//\\\n", " \n//x\n//y\n "}

// gapRules are texts with gaps: @0 optional, @1 at least one piece; in conditions
// and brackets (@c) white space only.
var gapRules = []string{
	"@0(@0A@0)@0=>@0(@0B@0)@0",
	"@0(@0A@1x@0)@0=>@0x@0",
	"(A x)@1&&@1a == b@c=>@0(B)@0",
	"(A x)@1&&@1a@c==@cb@c&&@cc@c=>@0@blk@1(B)@0",
	"(A x) => @blk@1(B)",
	"(A@1<t>@1[1]@1{s}@1x@1y@1...@1___@0) => x",
	"(A@1x@1<t>@1[1]@1{s}@1y@0) => x",
	"(A@1x@1(@0B@1y@0)@1z@0) => x",
	"v:(@0A@1w:(@0B@0)@0) => x",
	"(A [@c1@c+@cx@c] {@cf@c(@cx@c,@cy@c)@c}) => x",
	"(A f(@0x@0,@0g(@0y@0)@0,@0_@0)) => h(@0z@0)",
	"(A) => f(@0x@0)@1(B) => x",
	"(A) => (B)@0(C) => (D)@0x => y@1z => (E)@0",
	"((A|B)C@1(D(E|F)@0)@0) => (G(H|I)@0)",
	"@0_@0=>@0_@1_ =>x@0",
	"(A@1_@1___@0)@0=>@0(B@1...@0)@0",
}

func fillGaps(c *Case, tmpl string, fill func(kind byte, k int) string) string {
	out := ""
	k := 0
	for i := 0; i < len(tmpl); i++ {
		if tmpl[i] == '@' && i+1 < len(tmpl) {
			switch tmpl[i+1] {
			case '0', '1', 'c':
				out += fill(tmpl[i+1], k)
				k++
				i++
				continue
			}
			if i+3 < len(tmpl) && tmpl[i:i+4] == "@blk" {
				out += "@blk"
				i += 3
				continue
			}
		}
		out += string(tmpl[i])
	}
	return out
}

func gapCount(tmpl string) int {
	n := 0
	fillGaps(nil, tmpl, func(byte, int) string { n++; return "" })
	return n
}

func plainGap(kind byte) string {
	if kind == '1' {
		return " "
	}
	return ""
}

// gapOK tells whether a piece may stand in a kind of gap after the text so far.
func gapOK(kind byte, piece string, afterBlock bool) bool {
	comment := false
	for i := 0; i+1 < len(piece); i++ {
		if piece[i:i+2] == "//" {
			comment = true
		}
	}
	switch kind {
	case '1':
		if piece == "" || afterBlock && piece[0] == '/' {
			return false
		}
	case 'c':
		if comment {
			return false
		}
	}
	return true
}

type gapCase struct {
	tmpl int
	gap  int
	text int
}

var gapList []gapCase

func gapCases() []gapCase {
	if gapList == nil {
		for t, tmpl := range gapRules {
			for g := 0; g < gapCount(tmpl); g++ {
				for x := range gapTexts {
					gapList = append(gapList, gapCase{t, g, x})
				}
			}
		}
	}
	return gapList
}

// Long pieces of layout.
var longRuns = []int{255, 1000, 4096, 16384, 66000}
var runPieces = []string{" ", "\t", "\n", "\r", "\r\n", "//\n", "//"}

var runList []gapCase

func gapRuns() []gapCase {
	if runList == nil {
		for t, tmpl := range gapRules {
			for g := 0; g < gapCount(tmpl); g++ {
				for x := 0; x < len(longRuns)*len(runPieces); x++ {
					runList = append(runList, gapCase{t, g, x})
				}
			}
		}
	}
	return runList
}

func init() {
	register(&Check{
		ID:       "C03",
		MinEvals: 10000,
		Rule: "A case is a model with several renderings that differ in white space, line breaks, comments, order of attributes and entry point; all must parse to deeply equal trees. " +
			"Besides, every gap of a list of rule texts is filled with every piece of layout. Non-trivial: every rendering; distinct by text.",
		Assumptions: []string{"comments within conditions are left out (known finding of C01)", "types and blocks are free text, and rendered alike"},
		Streams: func(t Tier) []Stream {
			pts := dimPoints()
			return []Stream{
				{"random", t.n(3000, 200000), func(c *Case) { m := randomModel(c.RNG); checkLayouts(c, m, 4); c.Traits(m) }},
				{"attributes", nAttr * 6 * t.n(1, 8), func(c *Case) {
					m := attrModel(newGen(c.RNG, 6), c.Idx%nAttr, c.Idx/nAttr)
					if len(m.Rules[0].Match.(*MS).Args) < 3 && c.p(1, 2) {
						s := m.Rules[0].Match.(*MS)
						s.Args = append(s.Args, MVar("x"), MVar("y"))
					}
					checkLayouts(c, m, 6)
				}},
				{"sweep", len(pts), func(c *Case) {
					p := pts[c.Idx]
					checkLayouts(c, p.d.make(newGen(c.RNG, 10), p.n), 2)
				}},
				{"gaps", len(gapCases()), func(c *Case) {
					g := gapList[c.Idx]
					tmpl, piece := gapRules[g.tmpl], gapTexts[g.text]
					plain := fillGaps(c, tmpl, func(kind byte, k int) string { return plainGap(kind) })
					ok := true
					text := fillGaps(c, tmpl, func(kind byte, k int) string {
						if k != g.gap {
							return plainGap(kind)
						}
						ok = gapOK(kind, piece, kind == '1' && (g.tmpl == 3 || g.tmpl == 4))
						return piece
					})
					if !ok {
						return
					}
					checkSame(c, plain, text)
					// And with random pieces in all gaps.
					text = fillGaps(c, tmpl, func(kind byte, k int) string {
						for {
							p := gapTexts[c.n(len(gapTexts))]
							if gapOK(kind, p, kind == '1' && (g.tmpl == 3 || g.tmpl == 4)) {
								return p
							}
						}
					})
					checkSame(c, plain, text)
				}},
				{"long runs", len(gapRuns()) * t.n(1, 5), func(c *Case) {
					g := gapRuns()[c.Idx%len(gapRuns())]
					tmpl := gapRules[g.tmpl]
					plain := fillGaps(c, tmpl, func(kind byte, k int) string { return plainGap(kind) })
					// A run of one piece, or one piece that is long.
					n := longRuns[g.text/len(runPieces)] + c.n(40)
					piece := runPieces[g.text%len(runPieces)]
					run := strings.Repeat(piece, n/len(piece)+1)
					if piece == "//" {
						run = "//" + strings.Repeat("c d", n/3) + "\n"
					}
					ok := true
					text := fillGaps(c, tmpl, func(kind byte, k int) string {
						if k != g.gap {
							return plainGap(kind)
						}
						ok = gapOK(kind, run, kind == '1' && (g.tmpl == 3 || g.tmpl == 4))
						return run
					})
					if ok {
						checkSame(c, plain, text)
						c.Input(short(text))
						c.Hit(fmt.Sprintf("run of %d", longRuns[g.text/len(runPieces)]))
					}
				}},
				{"huge sizes", len(hugePoints()), func(c *Case) {
					m := hugeModel(c)
					w := newRend(c.RNG)
					checkSame(c, plainRend(c.RNG).file(m), w.file(m))
					c.Input("")
				}},
				{"files without rules", len(gapTexts) * len(gapTexts), func(c *Case) {
					checkSame(c, "", gapTexts[c.Idx%len(gapTexts)]+gapTexts[c.Idx/len(gapTexts)])
				}},
				{"last line", len(gapTexts), func(c *Case) {
					for _, r := range []string{"(A) => (B)", "(A x) => x", "(A) => f(x)", "(A) => _"} {
						checkSame(c, r, r+" "+gapTexts[c.Idx])
						checkSame(c, r, r+" "+gapTexts[c.Idx]+"// end")
						checkSame(c, r, r+" "+gapTexts[c.Idx]+"//")
					}
				}},
				{"line breaks", t.n(600, 20000), func(c *Case) {
					// The same text with line breaks of both kinds.
					m := randomModel(c.RNG)
					s := c.RNG.s
					w := &Rend{r: &RNG{s: s}, Mode: 2, Comments: true}
					v := &Rend{r: &RNG{s: s}, Mode: 2, Comments: true, CRLF: true}
					checkSame(c, w.file(m), v.file(m))
				}},
				{"rule files", numRuleFiles(), func(c *Case) {
					names, texts := ruleFiles()
					text := texts[c.Idx]
					a, err1 := parse.File(names[c.Idx])
					c.Eval(1)
					for how := 0; how < 4; how++ {
						b, err2, _ := parseVia(c, how, text)
						c.Eval(1)
						if err1 != nil || err2 != nil || !reflect.DeepEqual(a, b) {
							c.Input("")
							c.Fail("%s: entry points differ: %v, %v", names[c.Idx], err1, err2)
						}
					}
					// Rule by rule equals all at once.
					res := refParse(text)
					if res.File == nil || len(res.File.Rules) != len(a.Rules) {
						return
					}
					for i, r := range res.File.Rules {
						f, err := parse.String(text[r.lo:r.hi])
						c.Eval(1)
						if err != nil || len(f.Rules) != 1 || !reflect.DeepEqual(f.Rules[0], a.Rules[i]) {
							c.Input(text[r.lo:r.hi])
							c.Fail("rule %d of %s is different on its own: %v", i, names[c.Idx], err)
							return
						}
					}
				}},
			}
		},
	})
}

// checkSame demands equal trees of two texts.
func checkSame(c *Case, a, b string) {
	c.Input(b)
	f, err := parse.String(a)
	if err != nil {
		c.Fail("%q rejected: %v", short(a), err)
		return
	}
	var g *ast.File
	g, err, _ = parseVia(c, c.n(4), b)
	c.Eval(1)
	if err != nil {
		c.Fail("rejected: %v\nbut %q is not", err, short(a))
		return
	}
	if !reflect.DeepEqual(f, g) {
		c.Fail("different tree than of %q: %s", short(a), diff(canonFileR(f), canonFileR(g)))
	}
	c.Distinct(b)
	c.Hit("gaps")
}
