package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
)

// Systematic and random shapes of models, shared by the checks.

// sizes are the counts a dimension is swept over: all small ones, powers of two
// and their neighbours, and what the sources mention.
func sizes(max int) []int {
	set := map[int]bool{}
	add := func(n int) {
		if n >= 0 && n <= max {
			set[n] = true
		}
	}
	for n := 0; n <= 70; n++ {
		add(n)
	}
	for n := 64; n <= max; n *= 2 {
		for d := -1; d <= 2; d++ {
			add(n + d)
		}
	}
	for n := 100; n <= max; n *= 10 {
		for d := -1; d <= 1; d++ {
			add(n + d)
		}
	}
	for _, n := range dict.Sizes {
		add(n - 1)
		add(n)
		add(n + 1)
	}
	var out []int
	for n := range set {
		out = append(out, n)
	}
	sort.Ints(out)
	return out
}

// A dimension builds a rule whose size in one respect is n.
type dimension struct {
	name string
	max  int
	min  int
	huge int // largest size of the sweep over huge sizes
	make func(g *Gen, n int) *MFile
}

func one(r *MRule) *MFile { return &MFile{Rules: []*MRule{r}} }

func word(g *Gen, n int, first string) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i == 0 {
			b.WriteByte(first[g.n(len(first))])
		} else {
			b.WriteByte(identChars[g.n(len(identChars))])
		}
	}
	return b.String()
}

func small(g *Gen) *MS {
	s := &MS{Op: lit(g.opName())}
	if g.p(1, 2) {
		s.Args = append(s.Args, MVar(g.varName()))
	}
	return s
}

func leafExpr(g *Gen) *GX {
	if g.p(1, 3) {
		return g.goLit('x')
	}
	return gi(g.goIdent())
}

func safeLeaf(g *Gen, ctx byte) *GX {
	if g.p(1, 3) {
		return g.goLit(ctx)
	}
	return gi(g.goIdent())
}

var dimensions = []dimension{
	{"args", 1100, 0, 66000, func(g *Gen, n int) *MFile {
		s := &MS{Op: lit(g.opName())}
		for i := 0; i < n; i++ {
			if n < 80 && g.p(1, 6) {
				s.Args = append(s.Args, g.sexpr(7))
			} else {
				s.Args = append(s.Args, g.leaf())
			}
		}
		r := &MRule{Match: s, Result: small(g)}
		if g.p(1, 2) {
			r.Match, r.Result = r.Result, r.Match
		}
		return one(r)
	}},
	{"alternatives", 1100, 2, 66000, func(g *Gen, n int) *MFile {
		r := &MRule{Match: &MS{Op: g.altOp(n)}, Result: &MS{Op: g.altOp(n), Args: []MVal{MVar("x")}}}
		return one(r)
	}},
	{"opcode parts", 300, 1, 20000, func(g *Gen, n int) *MFile {
		var op []MPart
		for i := 0; i < n; i++ {
			if i > 0 && !op[i-1].Alt || g.p(1, 2) {
				op = append(op, g.alts(2))
			} else {
				op = append(op, MPart{Alts: []string{g.altPiece()}})
			}
		}
		if n == 1 {
			op = []MPart{g.alts(2)}
		}
		return one(&MRule{Match: &MS{Op: op}, Result: small(g)})
	}},
	{"depth left", 1100, 1, 8300, func(g *Gen, n int) *MFile { return one(&MRule{Match: nest(g, n, 0), Result: small(g)}) }},
	{"depth right", 1100, 1, 8300, func(g *Gen, n int) *MFile { return one(&MRule{Match: small(g), Result: nest(g, n, 1)}) }},
	{"depth calls", 200, 1, 900, func(g *Gen, n int) *MFile {
		x := gc(gi(g.callName()), gi(g.callName()))
		for i := 1; i < n; i++ {
			x = gc(gi(g.callName()), x)
			if g.p(1, 4) {
				x.A = append(x.A, gi(g.callName()))
			}
		}
		return one(&MRule{Match: small(g), Result: &MX{x}})
	}},
	{"call arguments", 1100, 1, 66000, func(g *Gen, n int) *MFile {
		x := gc(gi(g.callName()))
		for i := 0; i < n; i++ {
			if g.p(1, 10) {
				x.A = append(x.A, gi("_"))
			} else {
				x.A = append(x.A, gi(g.callName()))
			}
		}
		var v MVal = &MX{x}
		if g.p(1, 2) {
			v = &MS{Op: lit("A"), Args: []MVal{v, MVar("x")}}
		}
		return one(&MRule{Match: small(g), Result: v})
	}},
	{"opcode length", 1100, 1, 140000, func(g *Gen, n int) *MFile {
		return one(&MRule{Match: &MS{Op: lit(word(g, n, identChars))}, Result: small(g)})
	}},
	{"alternative length", 300, 1, 66000, func(g *Gen, n int) *MFile {
		return one(&MRule{Match: &MS{Op: []MPart{{Alt: true, Alts: []string{word(g, n, identChars), "B", word(g, n, identChars)}}}}, Result: small(g)})
	}},
	{"variable length", 1100, 1, 140000, func(g *Gen, n int) *MFile {
		return one(&MRule{Match: &MS{Op: lit("A"), Args: []MVal{MVar(word(g, n, identChars[1:27])), MVar("x")}}, Result: small(g)})
	}},
	{"binding length", 1100, 1, 140000, func(g *Gen, n int) *MFile {
		return one(&MRule{Match: &MS{Binding: word(g, n, identChars[1:27]), Op: lit("A")}, Result: small(g)})
	}},
	{"type length", 1100, 1, 140000, func(g *Gen, n int) *MFile {
		t := make([]byte, n)
		for i := range t {
			t[i] = byte(33 + g.n(29)) // none is ">"
		}
		return one(&MRule{Match: &MS{Op: lit("A"), Type: string(t)}, Result: small(g)})
	}},
	{"block length", 1100, 1, 140000, func(g *Gen, n int) *MFile {
		t := make([]byte, n)
		for i := range t {
			t[i] = byte(33 + g.n(94))
		}
		return one(&MRule{Match: small(g), Block: string(t), Result: small(g)})
	}},
	{"auxint terms", 600, 1, 8300, func(g *Gen, n int) *MFile {
		x := safeLeaf(g, 'i')
		for i := 1; i < n; i++ {
			op := g.pick([]string{"+", "-", "|", "^"})
			x = gb(op, x, safeLeaf(g, 'i'))
		}
		return one(&MRule{Match: &MS{Op: lit("A"), AuxInt: x}, Result: small(g)})
	}},
	{"aux call arguments", 600, 0, 66000, func(g *Gen, n int) *MFile {
		x := gc(gi(g.goIdent()))
		for i := 0; i < n; i++ {
			x.A = append(x.A, safeLeaf(g, 'x'))
		}
		return one(&MRule{Match: &MS{Op: lit("A"), Aux: x}, Result: small(g)})
	}},
	{"conjuncts", 600, 1, 4200, func(g *Gen, n int) *MFile {
		x := safeLeaf(g, 'c')
		for i := 1; i < n; i++ {
			x = gb("&&", x, g.goBin('c', 1, 3))
		}
		return one(&MRule{Match: small(g), Cond: x, Result: small(g)})
	}},
	{"expression depth", 300, 1, 2100, func(g *Gen, n int) *MFile {
		x := safeLeaf(g, 'c')
		for i := 0; i < n; i++ {
			switch g.n(5) {
			case 0:
				x = gp(x)
			case 1:
				x = gc(gi(g.goIdent()), x)
			case 2:
				if x.K == 'b' {
					x = gp(x)
				}
				x = gu(g.pick(unOps), x)
			case 3:
				if x.K == 'b' {
					x = gp(x)
				}
				x = gs(x)
			default:
				if x.K == 'b' || x.K == 'u' || x.K == 's' {
					x = gp(x)
				}
				x = gd(x, g.selName())
			}
		}
		return one(&MRule{Match: small(g), Cond: x, Result: small(g)})
	}},
	{"string literal length", 1100, 0, 140000, func(g *Gen, n int) *MFile {
		return one(&MRule{Match: &MS{Op: lit("A"), Aux: gl("STRING", `"`+strings.Repeat("a b", n/3+1)[:n]+`"`)}, Result: small(g)})
	}},
	{"rules", 1100, 0, 33000, func(g *Gen, n int) *MFile {
		f := &MFile{}
		for i := 0; i < n; i++ {
			if n < 80 {
				f.Rules = append(f.Rules, g.rule())
				continue
			}
			r := &MRule{Match: &MS{Op: lit(fmt.Sprintf("A%d", i)), Args: []MVal{MVar(g.varName())}}, Result: MVar(g.varName())}
			if g.p(1, 8) {
				r.Cond = g.goexpr('c', 1)
			}
			f.Rules = append(f.Rules, r)
		}
		return f
	}},
}

// placeExpr returns a rule with an expression in one of four places.
const nPlaces = 4

func placeExpr(x *GX, place int) *MFile {
	r := &MRule{Match: &MS{Op: lit("A"), Args: []MVal{MVar("x")}}, Result: MVar("x")}
	switch place {
	case 0:
		r.Cond = x
	case 1:
		r.Match.(*MS).AuxInt = x
	case 2:
		r.Match.(*MS).Aux = x
	default:
		r.Cond = gc(gi("f"), x, gi("y"))
	}
	return one(r)
}

// systematic is a list of models that has one of each kind: operands alone in all
// places, operands in operations, pairs of operators, and attributes together.
func systematicCount() int {
	return len(primaries())*nPlaces + len(binOps)*len(binOps)*3 + nOpOperand() + nAttr*6
}

func systematic(r *RNG, k int) *MFile {
	ps := primaries()
	if n := len(ps) * nPlaces; k < n {
		return placeExpr(ps[k%len(ps)], k/len(ps))
	} else {
		k -= n
	}
	n := len(binOps)
	if k < n*n*3 {
		return opPair(binOps[k%n], binOps[k/n%n], k/n/n)
	}
	k -= n * n * 3
	if k < nOpOperand() {
		return opOperand(k)
	}
	k -= nOpOperand()
	return attrModel(newGen(r, 8), k%nAttr, k/nAttr*4+r.n(4))
}

func nest(g *Gen, n int, side int) *MS {
	s := small(g)
	for i := 1; i < n; i++ {
		t := &MS{Op: lit(g.opName())}
		if g.p(1, 6) {
			t.Binding = g.varName()
		}
		switch g.n(3) {
		case 0:
			t.Args = []MVal{s}
		case 1:
			t.Args = []MVal{g.leaf(), s}
		default:
			t.Args = []MVal{s, g.leaf()}
		}
		s = t
	}
	return s
}

// dimCase returns a model of the systematic sweep, and how many there are.
type dimPoint struct {
	d dimension
	n int
}

var dimOnce sync.Once
var dimPts []dimPoint

func dimPoints() []dimPoint {
	dimOnce.Do(func() {
		for _, d := range dimensions {
			for _, n := range sizes(d.max) {
				if n >= d.min {
					dimPts = append(dimPts, dimPoint{d, n})
				}
			}
		}
	})
	return dimPts
}

// hugePoints are few, but larger sizes.
func hugePoints() []dimPoint {
	var pts []dimPoint
	for _, d := range dimensions {
		last := d.max
		for _, n := range []int{2049, 4097, 8193, 16385, 32769, 65537, 131073, d.huge} {
			if n > last && n <= d.huge {
				pts = append(pts, dimPoint{d, n})
				last = n
			}
		}
	}
	return pts
}

func hugeModel(c *Case) *MFile {
	pts := hugePoints()
	p := pts[c.Idx%len(pts)]
	c.Hit("huge " + p.d.name)
	return p.d.make(newGen(c.RNG, 20), p.n)
}

// relate returns the file with rules and operations added that are almost the same
// as others.
func relate(r *RNG, old *MFile) *MFile {
	m := old.clone()
	addTwins(r, m)
	// Tweaks do not mind which characters brackets allow.
	if res := refParse(plainRend(r).file(m)); res.File == nil || canonFileM(res.File) != canonFileM(m) {
		return old
	}
	return m
}

func addTwins(r *RNG, m *MFile) {
	for n := 1 + r.heavy(4); n > 0 && len(m.Rules) > 0; n-- {
		k := r.n(len(m.Rules))
		rule := m.Rules[k]
		if r.p(1, 3) {
			twin := one(rule.clone())
			if !r.p(1, 8) {
				tweak(r, twin)
			}
			j := k + 1
			if r.p(1, 3) {
				j = r.n(len(m.Rules) + 1)
			}
			m.Rules = append(m.Rules[:j:j], append(twin.Rules, m.Rules[j:]...)...)
			continue
		}
		ss := sexprsOf(rule)
		if len(ss) == 0 {
			continue
		}
		s := ss[r.n(len(ss))]
		tree := one(&MRule{Match: cloneVal(s), Result: MVar("x")})
		if !r.p(1, 8) {
			tweak(r, tree)
		}
		if len(tree.Rules) == 0 {
			continue
		}
		twin, ok := tree.Rules[0].Match.(*MS)
		if !ok {
			continue
		}
		switch r.n(4) {
		case 0: // within the operation itself
			s.Args = append(s.Args, twin)
		case 1: // on the other side
			if rule.Match == MVal(s) {
				rule.Result = twin
			} else {
				rule.Match = twin
			}
		default: // next to it
			for _, up := range ss {
				for i, a := range up.Args {
					if a == MVal(s) {
						up.Args = append(up.Args[:i:i], append([]MVal{s, twin}, up.Args[i+1:]...)...)
						break
					}
				}
			}
		}
	}
}

// attrModel enumerates which attributes an s-expression has, and where it stands.
const nAttr = 1 << 7

func attrModel(g *Gen, mask int, place int) *MFile {
	s := &MS{Op: lit(g.opName())}
	if mask&1 != 0 {
		s.Binding = g.varName()
	}
	if mask&2 != 0 {
		s.Type = g.typ()
	}
	if mask&4 != 0 {
		s.AuxInt = g.goexpr('i', g.n(3))
	}
	if mask&8 != 0 {
		s.Aux = g.goexpr('x', g.n(3))
	}
	if mask&16 != 0 {
		n := 1 + g.heavy(4)
		for i := 0; i < n; i++ {
			s.Args = append(s.Args, g.leaf())
		}
	}
	s.Ellipsis = mask&32 != 0
	s.Trailing = mask&64 != 0
	r := &MRule{Match: small(g), Result: small(g)}
	switch place % 6 {
	case 0:
		r.Match = s
	case 1:
		r.Result = s
	case 2:
		r.Match = &MS{Op: lit("A"), Args: []MVal{g.leaf(), s}}
	case 3:
		r.Result = &MS{Op: lit("A"), Args: []MVal{s, g.leaf()}}
	case 4:
		r.Match = &MS{Op: lit("A"), Args: []MVal{&MS{Op: lit("B"), Args: []MVal{g.leaf(), &MS{Op: lit("C"), Args: []MVal{s}}, g.leaf()}}}}
	case 5:
		r.Match, r.Result = s, cloneVal(s)
	}
	if place/6%2 == 1 {
		r.Cond = g.goexpr('c', g.n(3))
	}
	if place/12%2 == 1 {
		r.Block = g.block()
	}
	return one(r)
}

// mixed returns a rule that is large in two or three ways at once, at most one of them
// with alternates.
func mixed(r *RNG) *MRule {
	g := newGen(r, 8+r.n(20))
	g.Alts = 0
	out := &MRule{Match: small(g), Result: small(g)}
	lists := false
	for k := 2 + r.n(2); k > 0; k-- {
		d := dimensions[r.n(len(dimensions))]
		if d.name == "rules" {
			continue
		}
		if strings.Contains(d.name, "alternative") || d.name == "opcode parts" {
			if lists {
				continue
			}
			lists = true
		}
		top := 40
		if r.p(1, 6) {
			top = 140
		}
		q := d.make(g, d.min+r.heavy(min(d.max, top)-d.min+1)).Rules[0]
		if q.Cond != nil {
			out.Cond = q.Cond
		}
		if q.Block != "" {
			out.Block = q.Block
		}
		out.Match, out.Result = both(g, out.Match, q.Match, false), both(g, out.Result, q.Result, true)
	}
	if out.Cond == nil && r.p(1, 2) {
		out.Cond = g.goexpr('c', r.n(4))
	}
	if out.Block == "" && r.p(1, 4) {
		out.Block = g.block()
	}
	for _, s := range sexprsOf(out) {
		if r.p(1, 8) {
			s.Binding = g.varName()
		}
		if s.Type == "" && r.p(1, 10) {
			s.Type = g.typ()
		}
		if s.AuxInt == nil && r.p(1, 12) {
			s.AuxInt = g.goexpr('i', r.n(3))
		}
		if s.Aux == nil && r.p(1, 12) {
			s.Aux = g.goexpr('x', r.n(3))
		}
		if r.p(1, 16) {
			s.Ellipsis = true
		}
		if r.p(1, 16) {
			s.Trailing = true
		}
	}
	return out
}

// both puts two values into one.
func both(g *Gen, x, y MVal, result bool) MVal {
	a, aok := x.(*MS)
	b, bok := y.(*MS)
	switch {
	case !aok && !bok:
		return &MS{Op: lit(g.opName()), Args: []MVal{x, y}}
	case !aok:
		a, b, aok, bok = b, nil, true, false
		y = x
	}
	switch {
	case bok && g.p(1, 3) && a.AuxInt == nil && a.Aux == nil && len(a.Op) == 1 && !a.Op[0].Alt:
		// Of b everything but what only a has.
		c := *b
		if c.Binding == "" {
			c.Binding = a.Binding
		}
		if c.Type == "" {
			c.Type = a.Type
		}
		if c.AuxInt == nil {
			c.AuxInt = a.AuxInt
		}
		if c.Aux == nil {
			c.Aux = a.Aux
		}
		c.Args = append(append([]MVal(nil), c.Args...), a.Args...)
		return &c
	case g.p(1, 2):
		a.Args = append(a.Args, y)
	default:
		k := g.n(len(a.Args) + 1)
		a.Args = append(a.Args[:k:k], append([]MVal{y}, a.Args[k:]...)...)
	}
	return a
}

// randomModel returns a file of random rules.
func randomModel(r *RNG) *MFile {
	g := newGen(r, 10+r.heavy(80))
	if r.p(1, 10) {
		g.MaxArgs = 60
	}
	if r.p(1, 10) {
		g.MaxAlts = 70
	}
	if r.p(1, 10) {
		g.MaxDepth = 30
		g.Budget += 60
	}
	if r.p(1, 10) {
		g.MaxGo = 9
	}
	if r.p(1, 6) {
		g.Attrs = 2
	}
	if r.p(1, 10) {
		g.Alts = 1
	}
	m := g.file(r.heavy(20))
	if r.p(1, 8) {
		m.Rules = append(m.Rules, mixed(r))
	}
	if r.p(1, 5) {
		m = relate(r, m)
	}
	return m
}

// consistentModel returns a random file whose alternates are compatible in most rules.
func consistentModel(r *RNG, rules int) *MFile {
	f := &MFile{}
	for i := 0; i < rules; i++ {
		if r.p(1, 10) {
			f.Rules = append(f.Rules, mixed(r))
			continue
		}
		g := newGen(r, 6+r.heavy(40))
		g.Alts = 2 + r.n(3)
		g.AltCount = 2 + r.heavy(12)
		if r.p(1, 3) {
			g.Alts = 0
		}
		f.Rules = append(f.Rules, g.rule())
	}
	if r.p(1, 5) {
		f = relate(r, f)
	}
	return f
}

// ruleFiles returns the rule files of the repository.
var ruleFilesOnce sync.Once
var ruleFileNames []string
var ruleFileTexts []string

func ruleFiles() ([]string, []string) {
	ruleFilesOnce.Do(func() {
		names, _ := filepath.Glob(filepath.Join(repoRoot, "internal", "testdata", "*.rules"))
		sort.Strings(names)
		for _, n := range names {
			b, err := os.ReadFile(n)
			if err == nil {
				ruleFileNames = append(ruleFileNames, n)
				ruleFileTexts = append(ruleFileTexts, string(b))
			}
		}
	})
	return ruleFileNames, ruleFileTexts
}

// corpusRules returns the texts of the rules of all rule files, without those that
// have a comment within a condition.
var corpusOnce sync.Once
var corpusTexts []string

func corpusRules() []string {
	corpusOnce.Do(func() {
		_, texts := ruleFiles()
		for _, t := range texts {
			res := refParse(t)
			if res.File == nil {
				continue
			}
			for _, r := range res.File.Rules {
				s := t[r.lo:r.hi]
				if !refParse(s).Ambiguous {
					corpusTexts = append(corpusTexts, s)
				}
			}
		}
	})
	return corpusTexts
}

func short(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}
