package main

import (
	"fmt"
	"hash/fnv"
	"io"
	"reflect"
	"strings"

	gotoken "go/token"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
)

// tweakGo changes one place of an expression.
func tweakGo(c *RNG, x *GX) string {
	var all []*GX
	var walk func(x *GX)
	walk = func(x *GX) {
		all = append(all, x)
		for _, a := range x.A {
			walk(a)
		}
	}
	walk(x)
	y := all[c.n(len(all))]
	switch y.K {
	case 'i', 'd':
		if v := variant(c, y.S); c.p(1, 2) && isOpName(y.S) && v != y.S && !gotoken.IsKeyword(v) {
			y.S = v
		} else if c.p(1, 2) {
			y.S += "q"
		} else {
			y.S = "q" + y.S
		}
		return "name in an expression"
	case 'l':
		lits := []string{"7", "0x7", "07", "7.", "7i", "'7'", `"7"`, "`7`", `"\x37"`, `'\x37'`}
		kinds := []string{"INT", "INT", "INT", "FLOAT", "IMAG", "CHAR", "STRING", "STRING", "STRING", "CHAR"}
		k := c.n(len(lits))
		y.S, y.LK = lits[k], kinds[k]
		return "literal in an expression"
	case 'b':
		if c.p(1, 3) {
			y.A[0], y.A[1] = y.A[1], y.A[0]
			return "operands in an expression"
		}
		// Operators of the same precedence keep the structure as it is.
		for _, ops := range [][]string{{"+", "-", "|", "^"}, {"*", "/", "%", "<<", ">>", "&", "&^"}, {"==", "!=", "<", "<=", ">", ">="}, {"&&"}, {"||"}} {
			for _, op := range ops {
				if op == y.S {
					y.S = ops[c.n(len(ops))]
					return "operator in an expression"
				}
			}
		}
	case 'u':
		y.S = c.pick([]string{"-", "+", "!", "^", "&"})
		return "operator in an expression"
	case 'c':
		switch {
		case len(y.A) > 1 && c.p(1, 3):
			y.Ell = !y.Ell
			return "ellipsis of a call"
		case len(y.A) > 1 && c.p(1, 2):
			y.A = y.A[:len(y.A)-1]
			if len(y.A) == 1 {
				y.Ell = false
			}
			return "arguments of a call"
		default:
			y.A = append(y.A, gi("q"))
			return "arguments of a call"
		}
	case 'p':
		y.A[0] = gp(y.A[0])
		return "parentheses in an expression"
	case 's':
		y.A[0] = gp(y.A[0])
		return "parentheses in an expression"
	}
	return ""
}

// alter changes a text at its end, or in the case of a letter.
func alter(c *RNG, s string) string {
	i := c.n(len(s))
	if x := s[i]; c.p(1, 2) && (x >= 'a' && x <= 'z' || x >= 'A' && x <= 'Z') {
		return s[:i] + string(x^0x20) + s[i+1:]
	}
	return s + "q"
}

// tweak changes one place of a file.
func tweak(c *RNG, m *MFile) string {
	if len(m.Rules) == 0 {
		m.Rules = append(m.Rules, newGen(c, 4).rule())
		return "one rule more"
	}
	k := c.n(len(m.Rules))
	r := m.Rules[k]
	switch c.n(14) {
	case 0:
		if c.p(1, 2) {
			m.Rules = append(m.Rules[:k:k], m.Rules[k+1:]...)
			return "one rule less"
		}
		m.Rules = append(m.Rules[:k:k], append([]*MRule{r.clone()}, m.Rules[k:]...)...)
		return "a rule twice"
	case 1:
		j := c.n(len(m.Rules))
		m.Rules[k], m.Rules[j] = m.Rules[j], m.Rules[k]
		return "order of rules"
	case 2:
		switch {
		case r.Cond == nil:
			r.Cond = gi("q")
		case c.p(1, 3):
			r.Cond = nil
		default:
			tweakGo(c, r.Cond)
		}
		return "condition"
	case 3:
		switch {
		case r.Block == "":
			r.Block = "q"
		case c.p(1, 3):
			r.Block = ""
		default:
			r.Block = alter(c, r.Block)
		}
		return "block"
	}
	ss := sexprsOf(r)
	if len(ss) == 0 {
		return ""
	}
	s := ss[c.n(len(ss))]
	switch c.n(12) {
	case 0:
		if s.Binding == "" {
			s.Binding = "q"
		} else if s.Binding = variant(c, s.Binding); c.p(1, 3) {
			s.Binding = ""
		}
		return "binding"
	case 1:
		if s.Type == "" {
			s.Type = "q"
		} else if s.Type = alter(c, s.Type); c.p(1, 3) {
			s.Type = ""
		}
		return "type"
	case 2:
		if s.AuxInt == nil {
			s.AuxInt = gi("q")
			return "auxint"
		}
		return "auxint: " + tweakGo(c, s.AuxInt)
	case 3:
		if s.Aux == nil {
			s.Aux = gi("q")
			return "aux"
		}
		return "aux: " + tweakGo(c, s.Aux)
	case 4:
		s.AuxInt, s.Aux = s.Aux, s.AuxInt
		return "aux for auxint"
	case 5:
		s.Ellipsis = !s.Ellipsis
		return "ellipsis"
	case 6:
		s.Trailing = !s.Trailing
		return "trailing"
	case 7:
		if len(s.Args) > 1 {
			i, j := c.n(len(s.Args)), c.n(len(s.Args))
			s.Args[i], s.Args[j] = s.Args[j], s.Args[i]
			return "order of arguments"
		}
		s.Args = append(s.Args, MVar("q"))
		return "one argument more"
	case 8:
		if n := len(s.Args); n > 0 {
			i := c.n(n)
			s.Args = append(s.Args[:i:i], s.Args[i+1:]...)
			return "one argument less"
		}
	case 9:
		for i, a := range s.Args {
			if v, ok := a.(MVar); ok {
				if w := variant(c, string(v)); v != "_" && isVarName(w) && c.p(1, 2) {
					s.Args[i] = MVar(w)
					return "variable"
				}
				s.Args[i] = v + "q"
				if c.p(1, 3) {
					s.Args[i] = &MS{Op: lit(string(v) + "q")}
					return "operation for variable"
				}
				return "variable"
			}
			if v, ok := a.(*MX); ok {
				return "call: " + tweakGo(c, v.X)
			}
		}
	case 10:
		p := &s.Op[c.n(len(s.Op))]
		k := c.n(len(p.Alts))
		switch {
		case p.Alt && c.p(1, 3):
			p.Alts = append(p.Alts, "Q")
			return "one alternate more"
		case p.Alt && len(p.Alts) > 2 && c.p(1, 2):
			p.Alts = append(p.Alts[:k:k], p.Alts[k+1:]...)
			return "one alternate less"
		case p.Alt && c.p(1, 2):
			j := c.n(len(p.Alts))
			p.Alts[j], p.Alts[k] = p.Alts[k], p.Alts[j]
			return "order of alternates"
		default:
			p.Alts[k] = variant(c, p.Alts[k])
			return "opcode"
		}
	case 11:
		r.Match, r.Result = r.Result, r.Match
		return "result for match"
	}
	return ""
}

// What was dumped so far, by hash: every dump belongs to one tree, and the other
// way round.
var (
	treeOfDump = map[uint64]uint64{}
	dumpOfTree = map[uint64]uint64{}
)

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// dumped parses a model in some layout, and returns the dump and what the tree is.
func dumped(c *Case, m *MFile) (string, string, bool) {
	text := newRend(c.RNG).file(m)
	c.Input(text)
	f, err := parse.String(text)
	if err != nil {
		c.Hit("skipped: not parsed (decided by C01)")
		return "", "", false
	}
	canon := canonFileR(f)
	d, err := ast.Dump(f)
	c.Eval(1)
	if err != nil || d == "" {
		c.Fail("not dumped: %q, %v", short(d), err)
		return "", "", false
	}
	if s, err := writtenVia(c, len(d), func(w io.Writer) error { return ast.Fprint(w, f) }); err != nil || s != d {
		c.Fail("dumped differently to a writer: %v: %s", err, diff(d, s))
		return "", "", false
	}
	if c.p(1, 6) {
		if s, err := onStdout(c, func() error { return ast.Print(f) }); err != nil || s != d {
			c.Fail("dumped differently to standard output: %v: %s", err, diff(d, s))
			return "", "", false
		}
	}
	if k := c.n(len(d)); c.p(1, 4) {
		w := &faultyWriter{left: k, err: faultKinds[c.n(len(faultKinds))]}
		if err := ast.Fprint(w, f); err == nil {
			c.Fail("a writer that fails after %d bytes of %d gives no error", k, len(d))
		}
	}
	hd, hc := hash64(d), hash64(canon)
	if was, ok := treeOfDump[hd]; ok && was != hc {
		c.Fail("the same dump as that of a different tree seen before: %s", short(d))
	}
	if was, ok := dumpOfTree[hc]; ok && was != hd {
		c.Fail("a different dump from that of an equal tree seen before: %s", short(d))
	}
	treeOfDump[hd], dumpOfTree[hc] = hc, hd
	// Everything that is written in the text shows.
	shown := func(s string) {
		if !strings.Contains(d, s) && !strings.Contains(d, fmt.Sprintf("%q", s)) {
			c.Fail("%q does not show in the dump %s", s, short(d))
		}
	}
	for _, r := range m.Rules {
		if r.Block != "" {
			shown(r.Block)
		}
		for _, s := range sexprsOf(r) {
			if s.Binding != "" {
				shown(s.Binding)
			}
			if s.Type != "" && !strings.Contains(s.Type, "\n") {
				shown(s.Type)
			}
		}
	}
	c.Distinct(canon)
	return d, canon, true
}

func dumpPair(c *Case, m *MFile) {
	for _, r := range m.Rules {
		for _, s := range sexprsOf(r) {
			s.Type = strings.ReplaceAll(s.Type, "\n", " ")
		}
	}
	a, ca, ok := dumped(c, m)
	if !ok {
		return
	}
	first := c.input
	b, cb, ok := dumped(c, m)
	if !ok {
		return
	}
	if ca == cb && a != b {
		c.Fail("different dumps in different layouts: %s\nother layout: %q", diff(a, b), short(first))
		return
	}
	t := m.clone()
	what := tweak(c.RNG, t)
	if what == "" || canonFileM(t) == canonFileM(m) {
		c.Hit("no change")
		return
	}
	b, cb, ok = dumped(c, t)
	if !ok {
		return
	}
	if (ca == cb) != (a == b) {
		c.Fail("trees equal %v, dumps equal %v (%s): %s\nother text: %q", ca == cb, a == b, what, diff(ca, cb), short(first))
	}
	c.Hit("changed: " + what)
	c.Sample(c.input)
}

// nodeText tells nodes of a kind apart.
func nodeText(n ast.Node) string {
	c := &canon{}
	switch v := n.(type) {
	case *ast.File:
		return canonFileR(v)
	case *ast.Rule:
		c.ruleR(v)
	case *ast.Expr:
		c.goR(v.Expr)
	case ast.Value:
		c.valR(v)
	case ast.Op:
		c.opR(v)
	case ast.OpcodeAlt:
		return fmt.Sprintf("%q", v)
	default:
		return fmt.Sprintf("%T", n)
	}
	return c.b.String()
}

// dumpNodes dumps the nodes within a tree.
func dumpNodes(c *Case, m *MFile) {
	text := newRend(c.RNG).file(m)
	c.Input(text)
	f, err := parse.String(text)
	if err != nil {
		c.Hit("skipped: not parsed (decided by C01)")
		return
	}
	type seen struct{ dump, kind string }
	byText := map[string]string{}
	byDump := map[seen]string{}
	for _, v := range treeFrom(f).preorder(nil) {
		key := kindOf(v.node) + " " + nodeText(v.node)
		d, err := ast.Dump(v.node)
		c.Eval(1)
		if err != nil || d == "" {
			c.Fail("%s is not dumped: %q, %v", short(key), short(d), err)
			return
		}
		if was, ok := byText[key]; ok && was != d {
			c.Fail("equal nodes %s have different dumps: %s", short(key), diff(was, d))
			return
		}
		byText[key] = d
		s := seen{d, kindOf(v.node)}
		if was, ok := byDump[s]; ok && was != key {
			c.Fail("different nodes have the same dump %s: %s", short(d), diff(was, key))
			return
		}
		byDump[s] = key
		c.Hit("dumped alone: " + kindOf(v.node))
	}
	c.Distinct(text)
}

// leaves returns all fields of a tree that hold a name, a number, a flag, a pointer or
// a list, positions aside.
func leaves(v reflect.Value, path string, all *[]leaf) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() || v.Type().String() == "*ast.Object" {
			return
		}
		if v.CanSet() {
			*all = append(*all, leaf{v, path})
		}
		leaves(v.Elem(), path, all)
	case reflect.Slice:
		if v.CanSet() && v.Len() > 0 {
			*all = append(*all, leaf{v, path})
		}
		for i := 0; i < v.Len(); i++ {
			leaves(v.Index(i), path+"[]", all)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			leaves(v.Field(i), v.Type().String()+"."+v.Type().Field(i).Name, all)
		}
	case reflect.String, reflect.Bool, reflect.Int:
		if v.CanSet() && v.Type() != reflect.TypeOf(gotoken.Pos(0)) {
			*all = append(*all, leaf{v, path})
		}
	}
}

type leaf struct {
	v    reflect.Value
	path string
}

// oneField dumps a tree with one field changed, whatever it is: the dump must show it.
func oneField(c *Case, m *MFile) {
	for _, r := range m.Rules {
		for _, s := range sexprsOf(r) {
			s.Type = strings.ReplaceAll(s.Type, "\n", " ")
		}
	}
	text := printFileM(m)
	c.Input(text)
	f, err := parse.String(text)
	if err != nil {
		c.Hit("skipped: not parsed (decided by C01)")
		return
	}
	before, err := ast.Dump(f)
	if err != nil {
		c.Fail("not dumped: %v", err)
		return
	}
	var all []leaf
	leaves(reflect.ValueOf(f), "", &all)
	for i := 0; i < 12 && len(all) > 0; i++ {
		l := all[c.n(len(all))]
		old := reflect.New(l.v.Type()).Elem()
		old.Set(l.v)
		// What is set must differ from what was, and be a value of its own.
		switch l.v.Kind() {
		case reflect.String:
			l.v.SetString(alter(c.RNG, "a"+l.v.String()))
		case reflect.Bool:
			l.v.SetBool(!l.v.Bool())
		case reflect.Int:
			if l.v.Type() == reflect.TypeOf(gotoken.Token(0)) {
				n := l.v.Int()
				for l.v.Int() == n {
					l.v.SetInt(int64([]gotoken.Token{gotoken.INT, gotoken.FLOAT, gotoken.IMAG, gotoken.CHAR, gotoken.STRING, gotoken.ADD, gotoken.SUB, gotoken.XOR, gotoken.NOT, gotoken.AND, gotoken.EQL, gotoken.LAND, gotoken.LOR, gotoken.SHL}[c.n(14)]))
				}
			} else {
				l.v.SetInt(l.v.Int() + 1)
			}
		case reflect.Slice:
			if n := l.v.Len(); c.p(1, 2) {
				l.v.Set(l.v.Slice(0, n-1))
			} else {
				last := l.v.Index(n - 1)
				if k := last.Kind(); (k == reflect.Ptr || k == reflect.Interface) && last.IsNil() {
					continue
				}
				l.v.Set(reflect.Append(l.v.Slice3(0, n, n), last))
			}
		default:
			if l.path == "ast.Opcode" || strings.HasSuffix(l.path, "[]") {
				continue
			}
			l.v.Set(reflect.Zero(l.v.Type()))
		}
		after, err := ast.Dump(f)
		c.Eval(1)
		if err != nil {
			c.Fail("not dumped with another %s: %v", l.path, err)
			return
		}
		if after == before {
			c.Fail("the dump does not show %s (%v): %s", l.path, old, short(before))
			return
		}
		c.Hit("shown: " + l.path)
		l.v.Set(old)
	}
	if again, err := ast.Dump(f); err != nil || again != before {
		c.Fail("the tree as it was has another dump: %v: %s", err, diff(before, again))
	}
	c.Distinct(text)
}

func init() {
	register(&Check{
		ID:       "C18",
		MinEvals: 30000,
		Rule: "A case is a rule file, in two layouts, and the same with one change at one place: all are parsed and dumped, to a string and to writers. Dumps are compared with one another and with all others of the process; nodes within are dumped on their own. " +
			"Non-trivial: every tree; distinct by tree.",
		Assumptions: []string{"what a dump looks like is free", "types have no line breaks"},
		Streams: func(t Tier) []Stream {
			return []Stream{
				{"changes", t.n(14000, 800000), func(c *Case) {
					m := randomModel(c.RNG)
					if c.p(1, 2) {
						m = newGen(c.RNG, 6).file(1 + c.n(2))
					}
					dumpPair(c, m)
				}},
				{"attributes", nAttr * 24 / 4 * t.n(1, 8), func(c *Case) {
					dumpPair(c, attrModel(newGen(c.RNG, 6), c.Idx%nAttr, c.Idx/nAttr*4+c.n(4)))
				}},
				{"nodes", t.n(3000, 150000), func(c *Case) {
					m := randomModel(c.RNG)
					if len(m.Rules) > 4 {
						m.Rules = m.Rules[:4]
					}
					dumpNodes(c, m)
				}},
				{"one field", t.n(4000, 200000), func(c *Case) {
					switch c.n(3) {
					case 0:
						oneField(c, newGen(c.RNG, 8).file(1+c.n(2)))
					case 1:
						oneField(c, attrModel(newGen(c.RNG, 6), c.n(nAttr), c.n(24)))
					default:
						m := randomModel(c.RNG)
						if len(m.Rules) > 4 {
							m.Rules = m.Rules[:4]
						}
						oneField(c, m)
					}
				}},
				{"long texts", 7 * 16 * t.n(1, 8), func(c *Case) {
					// Two trees that differ at the very end, the middle or the start of something long.
					n := []int{60, 100, 127, 200, 255, 256, 500, 1000, 1024, 2000, 4096, 8192, 11000, 20000, 65536, 100000}[c.Idx/7%16] + c.n(3)
					long := func() string {
						b := []byte(strings.Repeat("a", n))
						for i := range b {
							b[i] = "abcdefghij"[c.n(10)]
						}
						return string(b)
					}()
					at := []int{n - 1, 0, n / 2, c.n(n)}[c.n(4)]
					other := long[:at] + "z" + long[at+1:]
					if c.p(1, 4) {
						other = long + "z"
					}
					make := func(s string) *MFile {
						switch c.Idx % 7 {
						case 0:
							return one(&MRule{Match: &MS{Op: lit("A"), Binding: s}, Result: MVar("x")})
						case 1:
							return one(&MRule{Match: &MS{Op: lit("A"), Type: s}, Result: MVar("x")})
						case 2:
							return one(&MRule{Match: &MS{Op: lit("A" + s)}, Result: MVar("x")})
						case 3:
							return one(&MRule{Match: &MS{Op: lit("A"), Args: []MVal{MVar(s)}}, Result: MVar(s)})
						case 4:
							return one(&MRule{Match: &MS{Op: lit("A"), Aux: gi(s)}, Result: MVar("x")})
						case 5:
							return one(&MRule{Match: &MS{Op: lit("A"), Aux: &GX{K: 'l', S: `"` + s + `"`, LK: "STRING"}}, Result: MVar("x")})
						default:
							return one(&MRule{Match: &MS{Op: lit("A")}, Result: MVar("x"), Block: s})
						}
					}
					a, ca, ok := dumped(c, make(long))
					if !ok {
						return
					}
					b, cb, ok := dumped(c, make(other))
					if ok && (ca == cb || a == b) {
						c.Fail("trees equal %v, dumps equal %v: names of %d bytes that differ at %d", ca == cb, a == b, n, at)
					}
					c.Hit(fmt.Sprintf("long text %d", c.Idx%7))
					c.Input("")
				}},
				{"huge sizes", len(hugePoints()), func(c *Case) {
					switch hugePoints()[c.Idx].d.name {
					case "depth left", "depth right", "auxint terms", "conjuncts", "expression depth":
						return // dumps are indented
					}
					if hugePoints()[c.Idx].n < 17000 {
						dumpPair(c, hugeModel(c))
					}
					c.Input("")
				}},
				{"deep", t.n(150, 2500), func(c *Case) {
					// As deep as the size of a dump, which grows with the square, allows.
					var deep []dimension
					for _, d := range dimensions {
						switch d.name {
						case "depth left", "depth right", "auxint terms", "conjuncts", "expression depth":
							deep = append(deep, d)
						}
					}
					n := []int{20, 40, 60, 90, 130, 180, 250, 350}[c.heavy(7)] + c.n(20)
					d := deep[c.n(len(deep))]
					dumpPair(c, d.make(newGen(c.RNG, 4), n))
					c.Hit("deep: " + d.name)
					c.Input("")
				}},
				{"corpus", t.n(8, 40), func(c *Case) {
					rules := corpusRules()
					if len(rules) == 0 {
						return
					}
					for i := 0; i < 200; i++ {
						if m := refParse(rules[c.n(len(rules))]); m.File != nil && !m.Ambiguous {
							dumpPair(c, m.File)
						}
					}
				}},
			}
		},
	})
}
