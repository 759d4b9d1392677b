package main

import (
	"fmt"
	"strings"

	"github.com/mmcloughlin/ssarules/parse"
)

// checkReject demands that a text outside the language is rejected: with an error,
// and without a result. Texts of the language are left to C01.
func checkReject(c *Case, text string) {
	c.Input(text)
	res := refParse(text)
	if res.Ambiguous {
		c.Hit("skipped: comment within a condition")
		return
	}
	how := 0
	if c.p(1, 8) {
		how = 1 + c.n(3)
	}
	f, err, _ := parseVia(c, how, text)
	c.Eval(1)
	if (f == nil) == (err == nil) {
		c.Fail("result %v and error %v", f != nil, err)
		return
	}
	if res.File != nil {
		c.Hit("within the language")
		return
	}
	if f != nil {
		c.Fail("text outside the language accepted, as %s", short(canonFileR(f)))
		return
	}
	for _, e := range res.Errs {
		c.Hit("rejected: " + e.msg)
	}
	if err.Error() == "" {
		c.Fail("empty error message")
	}
	c.Distinct(text)
	c.Sample(text)
}

var exhTokens = []string{"(", ")", "A", "x", " ", "=>", "&&", "_", "...", "___", "x:", "(A|B)", "f(", ",", "[1]", "{s}", "<t>", "@b ", "//\n", "\n"}

// exhaustive returns the k-th sequence of tokens.
func exhaustive(k int) string {
	n := 1
	count := len(exhTokens)
	for k >= count {
		k -= count
		count *= len(exhTokens)
		n++
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(exhTokens[k%len(exhTokens)])
		k /= len(exhTokens)
	}
	return b.String()
}

func exhCount(n int) int {
	total, c := 0, 1
	for i := 0; i < n; i++ {
		c *= len(exhTokens)
		total += c
	}
	return total
}

// templates are rule texts with a hole, filled with short token sequences.
var templates = []string{
	"(A%s) => (B)", "(A) => (B%s)", "(A x)%s=> x", "(A x) %s => x", "(A x) => %s", "%s(A x) => y", "(A x) =>%s(B)", "(A x%s y) => y", "(A x) => (B)%s",
	"(A%sB) => x", "(%sA) => x", "v%s(A) => x", "(A x) && a%s => x", "(A [%s]) => x", "(A {%s}) => x", "(A <%s>) => x", "(A f(%s)) => x", "(A f%s) => x", "(A (C%s)) => x", "(A x) && %s => x", "(A (B|%s)) => x", "((A|B)%s) => x",
}

var holeTokens = []string{"", "(", ")", "A", "x", " ", "=>", "&&", "_", "...", "___", ":", "|", ",", "[", "]", "{", "}", "<", ">", "@", "//", "\n", "\r", "\t", "1", "a.b", "f(x)", "(A|B)", "<t>", "[1]", "{s}", "/", "-", "*", "!", "\"s\"", "'c'", "=", "&", ".", ";", "\\", "%", "$", "\x00", "\xff", "é", "\v", "func", "x:(A)", "/*", "*/", "__", "____", "..", "....", "+", "a[0]", "T{}", "a.(b)", "...x", "x..."}

func init() {
	register(&Check{
		ID:       "C02",
		MinEvals: 100000,
		Rule: "A case is a text: a mutant of a generated or real rule, a template with one or two tokens in its hole (exhaustive), a sequence of up to 4 tokens (exhaustive), every prefix and every one byte deletion of a rule, a Go expression outside the subset at every place, foreign bits (byte order marks, NUL, other encodings) at every boundary, pieces of the language as others write them (-> for =>), or random bytes. " +
			"Its membership in the language is decided by an independent recogniser of the grammar. Non-trivial: rejected by the recogniser; distinct by text.",
		Assumptions: []string{"go/scanner and go/parser define what a Go expression is", "texts with a comment within a condition are skipped (known finding of C01)"},
		Streams: func(t Tier) []Stream {
			nh := len(holeTokens)
			return []Stream{
				{"mutants", t.n(60000, 4000000), func(c *Case) { checkReject(c, mutant(c.RNG)) }},
				{"holes", len(templates) * nh * nh, func(c *Case) {
					k := c.Idx
					tm := templates[k%len(templates)]
					k /= len(templates)
					checkReject(c, strings.Replace(tm, "%s", holeTokens[k%nh]+holeTokens[k/nh], 1))
				}},
				{"near misses", nearMissCount() * t.n(24, 600), func(c *Case) { checkReject(c, nearMiss(c.RNG, c.Idx%nearMissCount())) }},
				{"foreign bits", len(foreignBits) * 6 * t.n(3, 60), checkForeign},
				{"forbidden expressions", forbidCount(), func(c *Case) { checkReject(c, forbidText(c.Idx)) }},
				{"token sequences", exhCount(t.n(4, 5)), func(c *Case) { checkReject(c, exhaustive(c.Idx)) }},
				{"prefixes and deletions", t.n(300, 10000), func(c *Case) {
					var text string
					if rules := corpusRules(); len(rules) > 0 && c.p(1, 2) {
						text = rules[c.n(len(rules))]
					} else {
						g := newGen(c.RNG, 6)
						g.MaxGo = 3
						text = newRend(c.RNG).file(g.file(1))
					}
					if len(text) > 600 {
						text = text[:600]
					}
					for i := range text {
						checkReject(c, text[:i])
						checkReject(c, text[:i]+text[i+1:])
						checkReject(c, text[:i]+"$"+text[i:])
						checkReject(c, text[i:])
						if len(c.w.st.Violations) > 0 {
							return
						}
					}
				}},
				{"bytes", t.n(20000, 500000), func(c *Case) {
					n := 1 + c.heavy(200)
					b := make([]byte, n)
					for i := range b {
						switch c.n(3) {
						case 0:
							b[i] = byte(c.n(256))
						case 1:
							b[i] = "()[]{}<>=&|,:@_./ xA\n"[c.n(21)]
						default:
							b[i] = byte(32 + c.n(95))
						}
					}
					checkReject(c, string(b))
				}},
				{"repeated operands", t.n(3000, 50000), func(c *Case) {
					// Two of the same attribute, among others, are not a rule.
					g := newGen(c.RNG, 5)
					m := attrModel(g, c.n(nAttr), c.n(24))
					text := newRend(c.RNG).file(m)
					ops := []string{"<t>", "[1]", "{s}"}
					o := ops[c.n(3)]
					k := strings.Replace(text, "(", "(Q "+o+" "+o+" ", 1)
					if c.p(1, 2) {
						k = fmt.Sprintf("(Q %s%s x %s) => %s", ops[c.n(3)], " y", o, "(A "+o+" "+o+")")
					}
					checkReject(c, k)
				}},
				{"unclosed", t.n(400, 4000), func(c *Case) {
					n := 1 + c.heavy(1500)
					var piece string
					switch c.n(5) {
					case 0:
						piece = "("
					case 1:
						piece = "(A "
					case 2:
						piece = "f("
						n = min(n, 400)
					case 3:
						piece = "x:(A "
					default:
						piece = "(A x) => (B "
					}
					text := strings.Repeat(piece, n)
					if c.p(1, 2) {
						text = "(A x) => (B y)\n" + text
					}
					checkReject(c, text)
				}},
				{"far", len(farPoints()) * t.n(1, 10), func(c *Case) {
					text := farBad(c)
					checkReject(c, text)
					c.Input(short(text))
				}},
				{"missing files", 8, func(c *Case) {
					path := c.Scratch() + []string{"/none.rules", "", "/none/none.rules", "/in.rules/x"}[c.Idx%4]
					f, err := parse.File(path)
					c.Eval(1)
					if f != nil || err == nil {
						c.Fail("parse of %s: result %v and error %v", path, f != nil, err)
					}
				}},
			}
		},
	})
}
