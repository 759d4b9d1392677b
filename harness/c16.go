package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"
)

// A position as reported: name:line:col (offset).
type repPos struct {
	name           string
	line, col, off int
}

var posRE = regexp.MustCompile(`^(.*?):(\d+):(\d+) \((\d+)\): .`)

func reported(err error) []repPos {
	var out []repPos
	for _, l := range strings.Split(err.Error(), "\n") {
		if m := posRE.FindStringSubmatch(l); m != nil {
			p := repPos{name: m[1]}
			p.line, _ = strconv.Atoi(m[2])
			p.col, _ = strconv.Atoi(m[3])
			p.off, _ = strconv.Atoi(m[4])
			out = append(out, p)
		}
	}
	return out
}

func wantPos(name, text string, off int) repPos {
	line, col := lineCol(text, off)
	return repPos{name, line, col, off}
}

// checkPos demands that the first error of a text is at this place.
func checkPos(c *Case, text string, off int, what string) {
	c.Input(text)
	how := 0
	if c.p(1, 4) {
		how = 1 + c.n(3)
	}
	f, err, name := parseVia(c, how, text)
	c.Eval(1)
	if err == nil {
		if f == nil {
			c.Fail("neither a file nor an error")
		}
		c.Hit("skipped: accepted (decided by C02)")
		return
	}
	got := reported(err)
	if len(got) == 0 {
		c.Fail("no position in the error %q", short(err.Error()))
		return
	}
	if want := wantPos(name, text, off); got[0] != want {
		c.Fail("%s: the error is at %v, want %v: %s", what, got[0], want, short(err.Error()))
		return
	}
	for _, p := range got {
		// Whatever else is reported is a place in the text.
		if p.off < 0 || p.off > len(text) || p != wantPos(name, text, p.off) {
			c.Fail("%s: %v is not a place in the text: %s", what, p, short(err.Error()))
			return
		}
	}
	line, col := lineCol(text, off)
	if line > 1 {
		c.Hit("beyond the first line")
	}
	if line > 100 {
		c.Hit("beyond line 100")
	}
	if col > 0 && col != off-strings.LastIndexByte(text[:off], '\n') {
		c.Hit("columns are not bytes")
	}
	if len(got) > 1 {
		c.Hit("several errors")
	}
	c.Hit(what)
	c.Hit(fmt.Sprintf("entry point %d", how))
	c.Distinct(text)
	c.Sample(text)
}

// stray puts a character that is no part of any token at a boundary of tokens.
func stray(c *Case, m *MFile) {
	w := newRend(c.RNG)
	w.marks = true
	text := w.file(m)
	if len(w.Bounds) == 0 {
		return
	}
	n := 3
	if len(text) > 5000 {
		n = 1
	}
	for i := 0; i < n; i++ {
		at := w.Bounds[c.n(len(w.Bounds))]
		x := c.pick([]string{"$", "%", "\\", "\"", "'", "`", "?", "~", "#", ";", "\x00", "\u00e9", "\u65e5\u672c", "\U0001f600", "\ufeff", "\u00a0", "\v", "\f", "!", "^", "*"})
		checkPos(c, text[:at]+x+text[at:], at, "stray character")
	}
}

func init() {
	register(&Check{
		ID:       "C16",
		MinEvals: 50000,
		Rule: "A case is a text outside the language whose trouble is at a known place: a rule file with a stray character at a boundary of tokens, with an invalid byte, or with Go expressions that are wrong at several places; or a mutant, whose errors an independent recogniser locates; beyond line and column 65,536 too. " +
			"The position of the first error is compared, with name, line, column and offset; those of others must be places in the text. Non-trivial: rejected; distinct by text.",
		Assumptions: []string{"a position at a line break is reported as column 0 of the next line", "what a message says besides its position is free"},
		Streams: func(t Tier) []Stream {
			return []Stream{
				{"stray", t.n(12000, 600000), func(c *Case) { stray(c, randomModel(c.RNG)) }},
				{"invalid byte", t.n(8000, 400000), func(c *Case) {
					text := newRend(c.RNG).file(randomModel(c.RNG))
					i := c.n(len(text) + 1)
					for i < len(text) && !utf8.RuneStart(text[i]) {
						i++
					}
					x := c.pick([]string{"\xff", "\x80", "\xc3", "\xe6\x97", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\xaf"})
					checkPos(c, text[:i]+x+text[i:], i, "invalid byte")
				}},
				{"several", t.n(8000, 400000), func(c *Case) {
					// Wrong Go expressions at several places.
					g := newGen(c.RNG, 6+c.heavy(10))
					g.MaxGo = 2
					m := g.file(1 + c.n(4))
					for _, r := range m.Rules {
						for _, s := range sexprsOf(r) {
							switch {
							case c.p(1, 4):
								s.AuxInt = gi("zzwrong")
							case c.p(1, 4):
								s.Aux = gi("zzwrong")
							case c.p(1, 8):
								s.Args = append(s.Args, &MX{gc(gi("f"), gi("zzwrong"))})
							}
						}
						if c.p(1, 4) {
							r.Cond = gi("zzwrong")
						}
					}
					text := newRend(c.RNG).file(m)
					for strings.Contains(text, "zzwrong") {
						text = strings.Replace(text, "zzwrong", c.pick([]string{"1 2", "func", "a +", "good", "a{", "x.(T", "*", "a b c", "0x", "!", "a[", "'ab'", "1 +"}), 1)
					}
					differential(c, text)
				}},
				{"differential", t.n(40000, 2000000), func(c *Case) {
					text := mutant(c.RNG)
					if c.p(1, 3) {
						text = strings.Repeat(c.pick([]string{"\n", "// é\n", "\r\n", "(A x) => x\n", "  \t"}), c.heavy(200)) + text
					}
					differential(c, text)
				}},
				{"far", len(farPoints()) * t.n(1, 10), func(c *Case) {
					text := farBad(c)
					differential(c, text)
					c.Input(short(text))
				}},
				{"holes", len(templates) * len(holeTokens), func(c *Case) {
					for _, b := range holeTokens {
						text := strings.Replace(templates[c.Idx%len(templates)], "%s", holeTokens[c.Idx/len(templates)]+b, 1)
						differential(c, text)
					}
				}},
			}
		},
	})
}

func differential(c *Case, text string) {
	res := refParse(text)
	if res.File != nil || res.Ambiguous {
		c.Hit("skipped: within the language, or a comment within a condition")
		return
	}
	if invalidUTF8(text) >= 0 {
		c.Hit("skipped: invalid UTF-8")
		return
	}
	checkPos(c, text, res.Errs[0].off, "as located: "+res.Errs[0].msg)
}
