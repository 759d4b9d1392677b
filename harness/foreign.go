package main

import (
	"fmt"
	"strings"
)

// foreignBits are things that belong to other formats, editors and languages, and
// that a lenient reader may pass over.
var foreignBits = []string{
	"\ufeff", "\ufffe", "\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "\x00", "\x00\x00\x00", "\x04", "\x1a", "\x1b[0m", "\x7f", "\b", "\a", "\f", "\v", "\x1c", "\x1f", "\u0085", "\u00a0", "\u00ad", "\u1680", "\u180e", "\u2000", "\u200b", "\u200d", "\u200e", "\u2028", "\u2029", "\u202e", "\u2060", "\u3000", "\ufffd", "\U000e0001",
	"#!/usr/bin/ssarules\n", "# comment\n", "#\n", "#line 1\n", "#if 0\n#endif\n", "; comment\n", ";", ";;", "-- comment\n", "% comment\n", "/* comment */", "/**/", "/*\n*/", "<!-- -->", "(* *)", "{- -}", "\"\"\"\"\"\"", "/", "\\", "\\\n", "\\\r\n", "'", "\"\"", "``",
	"package rules\n", "import \"x\"\n", "---\n", "...\n", "<<EOF\nEOF\n", "EOF", "__END__\n", "\n__END__\n", "exit", "(exit)", "end", "=>", "=> ", "&&", "&& x", "||", "|", ",", ".", ":", "::", "=", ":=", "->", "==>", "@", "@b", "@b x", "$x", "${x}", "~", "^", "!", "?", "*", "+", "-", "1", "0", "'a'", "x", "_", "__", "___", "()", "(())", "[]", "{}", "<>", "[1]", "{s}", "<t>", "x:", "f()", "(A)", "(A x)", "(A x) =>", "(A x) => y =>", "A", "A x", "nil",
	"{", "}", "(", ")", "[", "]", "<", ">", "\x80", "\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xf8", "\xe4\xbd", "\xc3",
}

// foreignText puts the k-th of them into a text: at the start, the end, the start or
// the end of a line, or between two tokens.
func foreignText(c *Case, k int) string {
	bit := foreignBits[k%len(foreignBits)]
	g := newGen(c.RNG, 6)
	g.MaxGo = 3
	f := g.file(1 + c.n(3))
	w := newRend(c.RNG)
	if c.p(1, 2) {
		w = plainRend(c.RNG)
	}
	text := w.file(f)
	sep := func() string { return c.pick([]string{"", "", " ", "\n", "\t"}) }
	switch k / len(foreignBits) % 6 {
	case 0:
		return bit + text
	case 1:
		return text + bit
	case 2:
		return text + "\n" + bit + sep()
	case 3:
		return sep() + bit + sep() + text
	case 4:
		lines := strings.SplitAfter(text, "\n")
		i := c.n(len(lines))
		return strings.Join(lines[:i], "") + bit + sep() + strings.Join(lines[i:], "")
	default:
		var gaps []int
		for i := 1; i < len(text); i++ {
			if strings.ContainsRune(" \t\n()", rune(text[i])) {
				gaps = append(gaps, i)
			}
		}
		if len(gaps) == 0 {
			return bit + text
		}
		i := gaps[c.n(len(gaps))]
		return text[:i] + sep() + bit + sep() + text[i:]
	}
}

// checkForeign demands the verdict of the recogniser through all entry points.
func checkForeign(c *Case) {
	text := foreignText(c, c.Idx)
	res := refParse(text)
	c.Input(text)
	if res.Ambiguous {
		c.Hit("skipped: comment within a condition")
		return
	}
	for how := 0; how < 4; how++ {
		f, err, _ := parseVia(c, how, text)
		c.Eval(1)
		switch {
		case (f == nil) == (err == nil):
			c.Fail("entry point %d: result %v and error %v", how, f != nil, err)
			return
		case f != nil && res.File == nil:
			c.Fail("entry point %d: text outside the language accepted, as %s", how, short(canonFileR(f)))
			return
		}
	}
	c.Hit(fmt.Sprintf("foreign: within the language %v", res.File != nil))
	c.Distinct(text)
}
