package main

import (
	"fmt"
	"strings"
)

// Texts whose interesting part is far from the beginning: beyond 65,535 lines,
// columns or bytes, or beyond many rules.

type farKind struct {
	name  string
	piece string
	max   int
	tail  string // after the pieces
}

var farKinds = []farKind{
	{"line breaks", "\n", 1 << 20, ""},
	{"line breaks", "\r\n", 1 << 18, ""},
	{"comments", "// c\n", 1 << 18, ""},
	{"columns", " ", 1 << 20, ""},
	{"columns", "\t", 1 << 18, ""},
	{"long comment", "é", 1 << 18, "\n"},
	{"rules", "(A x) => x\n", 1 << 14, ""},
	{"rules in a line", "(A x)=>x ", 1 << 14, ""},
	{"rules", "(A [c] x:(B)) && c==1 => @b (C)\n", 1 << 13, ""},
	{"very long comments", "//" + strings.Repeat(" \u00e9c", 1500) + "\n", 2800, ""},
	{"one of each", "\n(A x) => x // \u00e9", 1 << 14, "\n"},
}

var farSizes = []int{255, 256, 257, 511, 513, 1023, 1025, 2047, 2049, 4095, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 100000, 131071, 131073, 262143, 262145, 524289, 1048577}

type farPoint struct {
	farKind
	n int
}

var farPts []farPoint

func farPoints() []farPoint {
	if farPts == nil {
		for _, k := range farKinds {
			for _, n := range farSizes {
				if n <= k.max+1 {
					farPts = append(farPts, farPoint{k, n})
				}
			}
			if k.max == 2800 {
				// Beyond 16 MiB.
				farPts = append(farPts, farPoint{k, 2800})
			}
		}
	}
	return farPts
}

// farPrefix returns a text of rules and layout, to be followed by anything.
func farPrefix(c *Case) string {
	p := farPoints()[c.Idx%len(farPoints())]
	c.Hit("far: " + p.name)
	first := "(A x) => x\n"
	if !strings.HasPrefix(p.piece, "(") {
		switch c.n(3) {
		case 0:
			first = ""
		case 1:
			first = strings.TrimSuffix(first, "\n") + " "
		}
	}
	if p.name == "long comment" {
		first += "//"
	}
	return first + strings.Repeat(p.piece, p.n) + p.tail
}

// badRule returns a short text outside the language.
func badRule(r *RNG) string {
	for {
		text := mutant(r)
		if len(text) > 3000 || invalidUTF8(text) >= 0 {
			continue
		}
		if res := refParse(text); res.File == nil && !res.Ambiguous {
			return text
		}
	}
}

// farBad returns a text outside the language, with the trouble far from its start.
func farBad(c *Case) string {
	text := farPrefix(c) + badRule(c.RNG)
	if c.p(1, 4) {
		text += "\n" + strings.Repeat("(A x) => x\n", 1+c.n(3000))
	}
	return text
}

// badAt returns a file of n rules that are fine but for one, whose alternates are
// incompatible. The bad one is at some interesting place.
func badAt(c *Case, n int, alts bool) (*MFile, int) {
	f := &MFile{}
	g := newGen(c.RNG, 3)
	for i := 0; i < n; i++ {
		r := &MRule{Match: &MS{Op: lit(fmt.Sprintf("A%d", i)), Args: []MVal{MVar(g.varName())}}, Result: MVar(g.varName())}
		if alts && c.p(1, 4) {
			r.Match.(*MS).Op = g.altOp(2)
		}
		f.Rules = append(f.Rules, r)
	}
	at := []int{n - 1, n - 1, 0, n / 2, c.n(n), max(0, n-2)}[c.n(6)]
	k := 2 + c.n(5)
	f.Rules[at] = mixedCounts(g, c.n(5), 5+c.n(5), k, k+1+c.n(4)).Rules[0]
	return f, at
}
