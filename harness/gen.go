package main

import (
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode"

	goscanner "go/scanner"
	gotoken "go/token"
)

// Dictionary holds the words and numbers of the sources under test, used (next
// to lists of our own) to choose names and sizes, as fuzzers do. It only steers
// what is generated, and never what is expected.
type Dictionary struct {
	Idents []string // usable as lower case identifiers
	Ops    []string // usable as opcodes
	Words  []string // any short printable literal
	Sizes  []int
}

var dict Dictionary

var positionRe = regexp.MustCompile(`position\{[^}]*\}`)

func mineDictionary(root string) Dictionary {
	var d Dictionary
	words := map[string]bool{}
	sizes := map[int]bool{}
	filepath.Walk(root, func(path string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return nil
		}
		src = positionRe.ReplaceAll(src, []byte("position{}"))
		fset := gotoken.NewFileSet()
		var s goscanner.Scanner
		s.Init(fset.AddFile("", fset.Base(), len(src)), src, nil, 0)
		for {
			_, tok, lit := s.Scan()
			if tok == gotoken.EOF {
				break
			}
			switch tok {
			case gotoken.STRING:
				if v, err := strconv.Unquote(lit); err == nil && len(v) > 0 && len(v) <= 24 {
					words[v] = true
				}
			case gotoken.CHAR:
				if v, err := strconv.Unquote(lit); err == nil {
					words[v] = true
				}
			case gotoken.INT:
				if v, err := strconv.ParseInt(lit, 0, 64); err == nil && v > 1 && v <= 2100 {
					sizes[int(v)] = true
				}
			}
		}
		return nil
	})
	for w := range words {
		d.Words = append(d.Words, w)
		if isVarName(w) {
			d.Idents = append(d.Idents, w)
		}
		if isOpName(w) {
			d.Ops = append(d.Ops, w)
		}
	}
	for n := range sizes {
		d.Sizes = append(d.Sizes, n)
	}
	sort.Strings(d.Words)
	sort.Strings(d.Idents)
	sort.Strings(d.Ops)
	sort.Ints(d.Sizes)
	return d
}

func isVarName(s string) bool {
	if s == "" || s[0] < 'a' || s[0] > 'z' {
		return false
	}
	return isOpName(s)
}

func isOpName(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		if !opChar(s[i]) {
			return false
		}
	}
	return true
}

func opChar(c byte) bool {
	return c == '_' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || '0' <= c && c <= '9'
}

const identChars = "_abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

var (
	someVars = []string{"x", "y", "z", "w", "a", "b", "c", "d", "p", "q", "t", "v", "i", "n", "mem", "ptr", "off", "off1", "off2", "sym", "val", "x0", "x1", "idx", "l", "cmp",
		"yes", "no", "base", "f", "g", "e", "typ", "nil", "true", "false", "x_", "x__y", "a9", "zZ_0", "lo", "hi", "len", "j", "s0", "s1", "config", "k",
		"type", "func", "if", "range", "go", "bv", "let", "and", "not", "int", "string", "uint8", "u", "iota", "e1", "r", "match", "block", "op", "x_y", "ab", "aa", "plumless", "buckeroo", "bdb", "cbc", "costarring", "liquid", "altarage", "zinke"}
	someOps = []string{"Add8", "Add16", "Add32", "Add64", "Sub8", "Sub16", "Sub32", "Sub64", "And8", "And16", "And32", "And64", "Or8", "Or16", "Or32", "Or64",
		"Xor8", "Xor16", "Xor32", "Xor64", "Neg8", "Neg16", "Neg32", "Neg64", "Com8", "Com16", "Com32", "Com64", "AndB", "OrB", "EqB", "NeqB", "Not",
		"Phi", "Load", "Store", "Const64", "Const8", "ConstBool", "MOVQload", "SHLQconst", "CALLstatic", "A", "B", "C", "x", "a1", "_", "__", "___", "_a", "0", "9a",
		"I64Const", "LoweredZero", "If", "SETEQ", "Add", "AddPtr", "Mul64", "Div8u", "ZeroExt8to16", "SignExt8to64", "Arg", "UGT", "First", "Not_", "Move", "Zero", "OffPtr", "EQ", "xx", "X86", "Select0", "plumless", "buckeroo", "xAa", "xBB"}
	someTypes = []string{"t", "typ.Int64", "types.TypeMem", "typ.UInt8", "x.Type", "fe.TypeUInt64()", "types.NewTuple(typ.UInt64, types.TypeFlags)", " t ", "*T", "[]int", "(a)", "t.Elem()",
		"%d", "%", "%s%!", "é", "a b", "<", "{", "]", "&&", "=", "//", "\"", "'", "a\tb", "a\nb", "日本", "_", "0", "v.Type", "a|b", "...", "___", "x:y", "@b", "\\", "\U0001F600", "\u00a0", "a // b", "\r", "a\r\nb", "'>"[:1], "typ.Int8", "[8]int", "map[a]b", "a.b.c", "`"}
	someBlocks = []string{"x.Block", "b", "v.Block", "y", "(A", "=", "%s", "b//c", "é", "日本", "@", "@@b", "x)", "=>", "&&", "a.b.c", "...", "_", "0", "\"", "{", "[", "<", "x.Block.Func", "a,b", "b;", "f(x)", "%", "%d%%", "\U0001F600", "b/*c*/", "'", "`", "\\n", "x:y", "-", "\u00a0", "\u2028", "\v"}
	goIdents   = []string{"x", "y", "z", "a", "b", "c", "f", "g", "off1", "off2", "sym", "v", "is32Bit", "int64", "int32", "uint8", "Block", "config", "Op386ADDL", "_", "__", "x_1", "é", "日本", "π", "nil", "true", "iota",
		"mergeSym", "X", "T", "bool", "log2", "isPowerOfTwo", "clobber", "arg0", "ReadInt16", "E", "e1", "x1e5", "a_b", "string", "canMergeSym", "oneBit", "Uses", "l1", "O0", "symIsRO", "append", "i", "_x", "xé", "any", "defer_", "chan_", "ifx", "plumless", "buckeroo"}
	goInts    = []string{"0", "1", "2", "7", "8", "9", "31", "32", "63", "64", "255", "256", "65535", "0x10", "0Xff", "0b101", "0o17", "017", "1_000", "0xFFFF_FFFF", "9223372036854775807", "18446744073709551615", "123456789012345678901234567890", "0xffffffffffffffff", "00"}
	goFloats  = []string{"1.0", "0.5", ".5", "1.", "1e3", "1E+3", "1e-3", "0x1p-2", "3.14159", "1_0.2_5", "0.", "0x1.8p3", "1e-9999", "1e9999", "1e-999999999", "1E+999999999", "0x1p-99999", "0x.8P+2", "0x8.p0", "1e00", "00.0", "09.5", "4.9e-324", "1.7976931348623157e309", "0x_1p1", "1_0e1_0"}
	goImags   = []string{"1i", "0i", "1.5i", "1e3i", "0x1i", "09i", "1e-9999i", "0b1i", "0x1p1i", ".5i", "1_0i"}
	goChars   = []string{"'a'", "'0'", "' '", "'\\n'", "'\\''", "'\\\\'", "'\\x41'", "'\\u1234'", "'é'", "'日'", "'\"'", "'}'", "']'", "'%'", "'\\000'", "'('", "'>'", "'='", "'\\t'", "'/'", "'\\U0001F600'"}
	goStrings = []string{`""`, `"a"`, `"a b"`, `"  "`, `"%d"`, `"%"`, `"%!s(MISSING)"`, `"\n"`, `"\""`, `"\\"`, `"//"`, `"/*"`, `"a // b"`, `"("`, `")"`, `"&&"`, `"||"`, `"=="`, `"="`, `">"`, `"é"`, `"日本"`, `"\x00"`, "`raw`", "`a\\b`", "`\"`", "``", `"]"`, `"}"`, `"["`, `"{"`, `"'"`, `"_"`, `"..."`, "\"a\tb\"", `"\u00e9"`, "`//`", `"a\tb"`, `"\U0001F600"`, "`a  b`", `"*/"`, `"@"`, `":"`, `"a,b"`, "`'`", `"x => y"`, `"=>"`}
	binOps    = []string{"||", "&&", "==", "!=", "<", "<=", ">", ">=", "+", "-", "|", "^", "*", "/", "%", "<<", ">>", "&", "&^"}
	unOps     = []string{"-", "!", "^", "+", "&", "<-", "~"}
)

var binPrec = map[string]int{"||": 1, "&&": 2, "==": 3, "!=": 3, "<": 3, "<=": 3, ">": 3, ">=": 3,
	"+": 4, "-": 4, "|": 4, "^": 4, "*": 5, "/": 5, "%": 5, "<<": 5, ">>": 5, "&": 5, "&^": 5}

// Gen generates models.
type Gen struct {
	*RNG
	Budget   int  // nodes left
	MaxArgs  int  // of an s-expression
	MaxAlts  int  // alternatives
	MaxDepth int  // of s-expressions
	MaxGo    int  // depth of Go expressions
	Alts     int  // alternates in 1/Alts of the opcodes; 0 none
	AltCount int  // > 0: all alternates have this count
	Attrs    int  // attribute frequency: 1/Attrs each; 0 none
	Calls    bool // call values
	Conds    bool
	Holes    bool // placeholders
	lastAlt  []MPart
	vars     []string // names used so far
	ops      []string
}

func newGen(r *RNG, budget int) *Gen {
	return &Gen{RNG: r, Budget: budget, MaxArgs: 12, MaxAlts: 12, MaxDepth: 8, MaxGo: 5, Alts: 6, Attrs: 4, Calls: true, Conds: true, Holes: true}
}

// variant returns a name that is almost the same: in another case, with a character
// more, less, doubled, exchanged, or with another number at its end. The first
// character of a variable's name stays lower case.
func variant(r *RNG, s string) string {
	b := []byte(s)
	if len(b) == 0 {
		return "q"
	}
	i := r.n(len(b))
	if r.p(1, 4) {
		i = len(b) - 1
	}
	put := func(i int, c byte) string { return string(b[:i]) + string(c) + string(b[i:]) }
	switch r.n(11) {
	case 10:
		return collision(r, s)
	case 0, 1:
		// The case of one letter, or of all.
		if r.p(1, 3) {
			return string(b[0]) + strings.ToUpper(s[1:])
		}
		for k := range b {
			j := (i + k) % len(b)
			if j > 0 && (b[j] >= 'a' && b[j] <= 'z' || b[j] >= 'A' && b[j] <= 'Z') {
				b[j] ^= 0x20
				return string(b)
			}
		}
		return s + "Q"
	case 2:
		return put(len(b), identChars[r.n(len(identChars))])
	case 3:
		return string(b[0]) + string(identChars[r.n(len(identChars))]) + s[1:]
	case 4:
		return put(i, b[i])
	case 5:
		if len(b) > 1 {
			return s[:len(s)-1]
		}
		return s + "_"
	case 6:
		if i > 0 {
			b[i] = identChars[r.n(len(identChars))]
		} else {
			return s + s
		}
	case 7:
		if len(b) > 2 {
			j := 1 + r.n(len(b)-2)
			b[j], b[j+1] = b[j+1], b[j]
		} else {
			return s + "0"
		}
	case 8:
		// A number at the end.
		k := len(b)
		for k > 1 && b[k-1] >= '0' && b[k-1] <= '9' {
			k--
		}
		switch {
		case k == len(b):
			return s + r.pick([]string{"0", "1", "2", "00", "01", "10"})
		case r.p(1, 2):
			return s[:k] + "0" + s[k:]
		default:
			return s[:k] + strconv.Itoa(r.n(100))
		}
	case 9:
		return s + r.pick([]string{"_", "__", "_1", "_x", "x_", s})
	}
	return string(b)
}

// Pairs of names with the same checksum or hash: CRC-32, Adler-32, the hash of Java
// strings, FNV-1 and FNV-1a. Those of the same length collide in any context.
var collisions = [][2]string{{"plumless", "buckeroo"}, {"bdb", "cbc"}, {"xAa", "xBB"}, {"costarring", "liquid"}, {"altarage", "zinke"}, {"declinate", "macallums"}}

// collision returns a name with the same checksum, for some kind of checksum.
func collision(r *RNG, s string) string {
	for _, p := range collisions {
		for k := range p {
			if i := strings.Index(s, p[k]); i >= 0 {
				return s[:i] + p[1-k] + s[i+len(p[k]):]
			}
		}
	}
	b := []byte(s)
	for k := 0; k < len(b); k++ {
		i := 1 + k
		if i+2 < len(b) {
			d := []byte{b[i] + 1, b[i+1] - 2, b[i+2] + 1}
			if opChar(d[0]) && opChar(d[1]) && opChar(d[2]) {
				copy(b[i:], d)
				return string(b)
			}
		}
		if i+1 < len(b) && opChar(b[i]+1) && opChar(b[i+1]-31) {
			b[i]++
			b[i+1] -= 31
			return string(b)
		}
	}
	return collisions[r.n(len(collisions))][r.n(2)] + s
}

func (g *Gen) varName() string {
	if len(g.vars) > 0 && g.p(1, 10) {
		if v := variant(g.RNG, g.vars[g.n(len(g.vars))]); isVarName(v) {
			return v
		}
	}
	v := g.varName1()
	if len(g.vars) < 50 {
		g.vars = append(g.vars, v)
	}
	return v
}

func (g *Gen) varName1() string {
	switch g.n(8) {
	case 0, 1, 2, 3:
		return g.pick(someVars)
	case 4:
		if len(dict.Idents) > 0 {
			return g.pick(dict.Idents)
		}
		return "x"
	default:
		n := g.heavy(40)
		b := []byte{byte('a' + g.n(26))}
		for i := 0; i < n; i++ {
			b = append(b, identChars[g.n(len(identChars))])
		}
		return string(b)
	}
}

func (g *Gen) callName() string {
	for {
		s := g.varName()
		if !gotoken.IsKeyword(s) {
			return s
		}
	}
}

func (g *Gen) opName() string {
	if len(g.ops) > 0 && g.p(1, 10) {
		return variant(g.RNG, g.ops[g.n(len(g.ops))])
	}
	v := g.opName1()
	if len(g.ops) < 50 {
		g.ops = append(g.ops, v)
	}
	return v
}

func (g *Gen) opName1() string {
	switch g.n(8) {
	case 0, 1, 2, 3:
		return g.pick(someOps)
	case 4:
		if len(dict.Ops) > 0 {
			return g.pick(dict.Ops)
		}
		return "A"
	default:
		n := g.heavy(60) + 1
		var b []byte
		for i := 0; i < n; i++ {
			b = append(b, identChars[g.n(len(identChars))])
		}
		return string(b)
	}
}

func (g *Gen) altPiece() string {
	if g.p(1, 2) {
		return g.pick([]string{"8", "16", "32", "64", "L", "Q", "A", "B", "_", "x", "", "U", "const", "load"}) + g.pick([]string{"", "u", "F", "1", "_", "Z"}) + string(identChars[g.n(len(identChars))])
	}
	return g.opName()
}

func (g *Gen) typ() string {
	switch g.n(4) {
	case 0, 1:
		return g.pick(someTypes)
	case 2:
		if len(dict.Words) > 0 {
			w := strings.ReplaceAll(g.pick(dict.Words), ">", "")
			if w != "" {
				return w
			}
		}
		return "t"
	default:
		return g.freeText(20, func(r rune) bool { return r != '>' })
	}
}

func (g *Gen) block() string {
	ok := func(r rune) bool { return r != ' ' && r != '\t' && r != '\r' && r != '\n' }
	switch g.n(4) {
	case 0, 1:
		return g.pick(someBlocks)
	case 2:
		if len(dict.Words) > 0 {
			w := strings.Map(func(r rune) rune {
				if !ok(r) {
					return '_'
				}
				return r
			}, g.pick(dict.Words))
			if w != "" {
				return w
			}
		}
		return "b"
	default:
		return g.freeText(20, ok)
	}
}

// freeText returns 1 or more characters accepted by ok.
func (g *Gen) freeText(max int, ok func(rune) bool) string {
	n := g.heavy(max) + 1
	var b strings.Builder
	for b.Len() < n {
		r := g.char()
		if ok(r) {
			b.WriteRune(r)
		}
	}
	return b.String()
}

func (g *Gen) char() rune {
	switch g.n(10) {
	case 0:
		return rune(g.n(128)) // including control characters
	case 1:
		return []rune("éπ日本ßΩ\u00a0\u2028\u0301\U0001F600\ufeff\ufffd\u0080\U0010FFFF")[g.n(14)]
	default:
		return rune(32 + g.n(95))
	}
}

func (g *Gen) alts(n int) MPart {
	p := MPart{Alt: true}
	for i := 0; i < n; i++ {
		p.Alts = append(p.Alts, g.altPiece())
	}
	return p
}

func (g *Gen) op() []MPart {
	if g.Alts == 0 || !g.p(1, g.Alts) {
		return lit(g.opName())
	}
	n := g.AltCount
	if n == 0 {
		n = 2 + g.heavy(g.MaxAlts-2)
	}
	return g.altOp(n)
}

// altOp returns an opcode with one or more lists of n alternatives.
func (g *Gen) altOp(n int) []MPart {
	if n > 1 && len(g.lastAlt) > 0 && g.p(1, 4) {
		if op := g.regroup(g.lastAlt, n); op != nil {
			return op
		}
	}
	op := g.newAltOp(n)
	g.lastAlt = op
	return op
}

// regroup returns an opcode with the same characters and numbers of parts and
// alternates as another, but other borders between alternates.
func (g *Gen) regroup(op []MPart, n int) []MPart {
	var out []MPart
	for _, p := range op {
		if !p.Alt {
			out = append(out, MPart{Alts: p.Alts})
			continue
		}
		text := strings.Join(p.Alts, "")
		if len(p.Alts) != n || len(text) > 10000 {
			return nil
		}
		if g.p(1, 4) || len(text) == n {
			alts := append([]string(nil), p.Alts...)
			i, j := g.n(n), g.n(n)
			alts[i], alts[j] = alts[j], alts[i]
			out = append(out, MPart{Alt: true, Alts: alts})
			continue
		}
		cut := map[int]bool{}
		for len(cut) < n-1 {
			cut[1+g.n(len(text)-1)] = true
		}
		q := MPart{Alt: true}
		lo := 0
		for i := 1; i <= len(text); i++ {
			if cut[i] || i == len(text) {
				q.Alts = append(q.Alts, text[lo:i])
				lo = i
			}
		}
		out = append(out, q)
	}
	return out
}

func (g *Gen) newAltOp(n int) []MPart {
	var op []MPart
	k := 1 + g.heavy(4)
	for i := 0; i < k; i++ {
		if g.p(2, 3) {
			op = append(op, MPart{Alts: []string{g.altPiece()}})
		}
		op = append(op, g.alts(n))
	}
	if g.p(1, 2) {
		op = append(op, MPart{Alts: []string{g.altPiece()}})
	}
	return op
}

func (g *Gen) file(rules int) *MFile {
	f := &MFile{}
	for i := 0; i < rules; i++ {
		f.Rules = append(f.Rules, g.rule())
	}
	return f
}

func (g *Gen) rule() *MRule {
	r := &MRule{}
	budget := g.Budget
	r.Match = g.top()
	if g.Conds && g.p(1, 3) {
		r.Cond = g.goexpr('c', g.MaxGo)
	}
	if g.p(1, 8) {
		r.Block = g.block()
	}
	r.Result = g.top()
	g.Budget = budget
	return r
}

func (g *Gen) top() MVal {
	if g.p(1, 10) {
		return g.leaf()
	}
	return g.sexpr(0)
}

func (g *Gen) leaf() MVal {
	k := g.n(10)
	switch {
	case k == 0 && g.Holes, k == 1 && g.Holes:
		return MVar("_")
	case k == 2 && g.Calls, k == 3 && g.Calls:
		return &MX{g.call(1 + g.heavy(5))}
	default:
		return MVar(g.varName())
	}
}

// call returns a call within the grammar of values.
func (g *Gen) call(depth int) *GX {
	c := gc(gi(g.callName()))
	n := 1 + g.heavy(g.MaxArgs)
	for i := 0; i < n; i++ {
		g.Budget--
		switch k := g.n(8); {
		case k == 0:
			c.A = append(c.A, gi("_"))
		case k <= 2 && depth > 0 && g.Budget > 0:
			c.A = append(c.A, g.call(depth-1))
		default:
			c.A = append(c.A, gi(g.callName()))
		}
	}
	return c
}

func (g *Gen) sexpr(depth int) *MS {
	g.Budget--
	s := &MS{Op: g.op()}
	attr := func() bool { return g.Attrs > 0 && g.p(1, g.Attrs) }
	if attr() {
		s.Binding = g.varName()
	}
	if attr() {
		s.Type = g.typ()
	}
	if attr() {
		s.AuxInt = g.goexpr('i', g.n(g.MaxGo+1))
	}
	if attr() {
		s.Aux = g.goexpr('x', g.n(g.MaxGo+1))
	}
	n := g.heavy(g.MaxArgs)
	for i := 0; i < n; i++ {
		s.Args = append(s.Args, g.value(depth+1))
	}
	if attr() && g.p(1, 2) {
		s.Ellipsis = true
	}
	if attr() && g.p(1, 2) {
		s.Trailing = true
	}
	return s
}

func (g *Gen) value(depth int) MVal {
	if depth < g.MaxDepth && g.Budget > 0 && g.p(2, 5) {
		return g.sexpr(depth)
	}
	g.Budget--
	return g.leaf()
}

// Go expressions. ctx is 'i' (auxint: no "]"), 'x' (aux: no "}") or 'c'
// (condition: no "=>").

func (g *Gen) goIdent() string {
	switch g.n(6) {
	case 0, 1, 2, 3:
		return g.pick(goIdents)
	case 4:
		if len(dict.Words) > 0 {
			w := g.pick(dict.Words)
			if gotoken.IsIdentifier(w) {
				return w
			}
		}
		return "x"
	default:
		n := g.heavy(30)
		var b strings.Builder
		b.WriteByte(identChars[g.n(53)])
		for i := 0; i < n; i++ {
			b.WriteByte(identChars[g.n(len(identChars))])
		}
		s := b.String()
		if gotoken.IsKeyword(s) {
			return "x"
		}
		return s
	}
}

func badIn(ctx byte, s string) bool {
	switch ctx {
	case 'i':
		return strings.Contains(s, "]")
	case 'x':
		return strings.Contains(s, "}")
	default:
		return strings.Contains(s, "=>") || strings.Contains(s, "\n")
	}
}

func (g *Gen) goLit(ctx byte) *GX {
	for {
		var x *GX
		switch g.n(12) {
		case 0, 1, 2, 3, 4:
			x = gl("INT", g.pick(goInts))
			if g.p(1, 3) {
				x.S = strconv.Itoa(g.n(100000))
			}
		case 5:
			x = gl("FLOAT", g.pick(goFloats))
		case 6:
			x = gl("IMAG", g.pick(goImags))
		case 7, 8:
			x = gl("CHAR", g.pick(goChars))
		case 9:
			w := g.freeText(12, func(r rune) bool { return r != '\n' && r != '\r' && r != '"' && r != '\\' && r != 0 && r != '\ufeff' })
			x = gl("STRING", `"`+w+`"`)
		case 10:
			w := g.freeText(12, func(r rune) bool {
				return r != '\n' && r != '\r' && r != '`' && r != 0 && r != '\ufeff' && unicode.IsPrint(r)
			})
			x = gl("STRING", "`"+w+"`")
		default:
			x = gl("STRING", g.pick(goStrings))
		}
		if !badIn(ctx, x.S) {
			return x
		}
	}
}

func (g *Gen) goPrimary(ctx byte, depth int) *GX {
	if depth <= 0 {
		if g.p(1, 3) {
			return g.goLit(ctx)
		}
		return gi(g.goIdent())
	}
	switch g.n(8) {
	case 0:
		return g.goLit(ctx)
	case 1, 2:
		return gi(g.goIdent())
	case 3:
		return gp(g.goexpr(ctx, depth-1))
	case 4, 5:
		return gd(g.goPrimary(ctx, depth-1), g.selName())
	default:
		c := gc(g.goPrimary(ctx, depth-2))
		n := g.heavy(6)
		for i := 0; i < n; i++ {
			c.A = append(c.A, g.goexpr(ctx, depth-1-g.n(2)))
		}
		if n > 0 && g.p(1, 8) {
			c.Ell = true
		}
		return c
	}
}

func (g *Gen) selName() string {
	for {
		s := g.goIdent()
		if s != "_" {
			return s
		}
	}
}

func (g *Gen) goUnary(ctx byte, depth int) *GX {
	if depth <= 0 || g.p(2, 3) {
		return g.goPrimary(ctx, depth)
	}
	if g.p(1, 4) {
		return gs(g.goUnary(ctx, depth-1))
	}
	return gu(g.pick(unOps), g.goUnary(ctx, depth-1))
}

func (g *Gen) goexpr(ctx byte, depth int) *GX {
	if ctx == 'c' && g.p(2, 3) {
		// The usual form: a conjunction.
		n := 1 + g.heavy(20)
		x := g.goBin(ctx, depth, 3)
		for i := 1; i < n; i++ {
			x = gb("&&", x, g.goBin(ctx, depth-1, 3))
		}
		return x
	}
	return g.goBin(ctx, depth, 1)
}

// goBin returns an expression whose operators bind at least as tight as prec.
func (g *Gen) goBin(ctx byte, depth int, prec int) *GX {
	if prec > 5 || depth <= 0 || g.p(1, 3) {
		return g.goUnary(ctx, depth)
	}
	op := g.pick(binOps)
	if binPrec[op] < prec {
		return g.goBin(ctx, depth, prec+1)
	}
	return gb(op, g.goBin(ctx, depth-1, binPrec[op]), g.goBin(ctx, depth-1, binPrec[op]+1))
}
