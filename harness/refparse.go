package main

import (
	goparser "go/parser"
	"strings"
	"unicode/utf8"
)

// The reference parser: a direct rendition of the documented grammar as a
// recursive descent recogniser with ordered choice. Go expressions are delegated
// to the standard library, over the token sequence with comments and line breaks
// taken out.

type rpErr struct {
	off int
	msg string
}

type rp struct {
	src     string
	pos     int
	maxFail int
	errs    []rpErr

	// ambiguous is set when a condition reads differently if its line breaks are
	// replaced by spaces before comments are recognised (a known finding), or has
	// exotic white space at its ends.
	ambiguous bool

	// oldCond parses conditions the way of the known finding.
	oldCond bool

	depth, maxDepth int
}

type refResult struct {
	File      *MFile // nil if rejected
	Errs      []rpErr
	Ambiguous bool
	MaxDepth  int
}

func refParse(src string) refResult { return refParseMode(src, false) }

func refParseMode(src string, oldCond bool) refResult {
	p := &rp{src: src, oldCond: oldCond}
	f, ok := p.file()
	if i := invalidUTF8(src); i >= 0 {
		p.errs = append(p.errs, rpErr{i, "invalid encoding"})
		ok = false
	}
	res := refResult{Ambiguous: p.ambiguous, MaxDepth: p.maxDepth}
	if !ok && len(p.errs) == 0 {
		p.errs = append(p.errs, rpErr{p.maxFail, "no match"})
	}
	res.Errs = p.errs
	if ok && len(p.errs) == 0 {
		res.File = f
	}
	return res
}

func invalidUTF8(s string) int {
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n <= 1 {
			return i
		}
		i += n
	}
	return -1
}

func (p *rp) fail(at int) bool {
	if at > p.maxFail {
		p.maxFail = at
	}
	return false
}

func (p *rp) lit(s string) bool {
	if strings.HasPrefix(p.src[p.pos:], s) {
		p.pos += len(s)
		return true
	}
	return p.fail(p.pos)
}

func (p *rp) peek() int {
	if p.pos < len(p.src) {
		return int(p.src[p.pos])
	}
	return -1
}

// run consumes one or more characters other than stop.
func (p *rp) until(stop byte) bool {
	start := p.pos
	for p.pos < len(p.src) && p.src[p.pos] != stop {
		p.pos++
	}
	p.fail(p.pos)
	return p.pos > start
}

func (p *rp) err(off int, msg string) { p.errs = append(p.errs, rpErr{off, msg}) }

func (p *rp) skip1() bool {
	switch c := p.peek(); {
	case c == ' ' || c == '\t' || c == '\r' || c == '\n':
		p.pos++
		return true
	case strings.HasPrefix(p.src[p.pos:], "//"):
		p.pos += 2
		for p.pos < len(p.src) && p.src[p.pos] != '\n' {
			p.pos++
		}
		p.fail(p.pos)
		return true
	}
	return p.fail(p.pos)
}

func (p *rp) opt() {
	for p.skip1() {
	}
}

func (p *rp) req() bool {
	if !p.skip1() {
		return false
	}
	p.opt()
	return true
}

func (p *rp) file() (*MFile, bool) {
	f := &MFile{}
	for {
		start := p.pos
		p.opt()
		lo := p.pos
		r, ok := p.rule()
		if !ok {
			p.pos = start
			break
		}
		r.lo, r.hi = lo, p.pos
		p.opt()
		f.Rules = append(f.Rules, r)
	}
	p.opt()
	if p.pos != len(p.src) {
		return nil, p.fail(p.pos)
	}
	return f, true
}

func (p *rp) rule() (*MRule, bool) {
	r := &MRule{}
	var ok bool
	if r.Match, ok = p.value(); !ok {
		return nil, false
	}
	start := p.pos
	if p.req() && p.lit("&&") && p.req() && p.condition(r) {
	} else {
		p.pos = start
		r.Cond = nil
	}
	p.opt()
	if !p.lit("=>") {
		return nil, false
	}
	p.opt()
	start = p.pos
	if p.lit("@") {
		n := p.pos
		for p.pos < len(p.src) && strings.IndexByte(" \t\r\n", p.src[p.pos]) < 0 {
			p.pos++
		}
		p.fail(p.pos)
		if p.pos > n {
			r.Block = p.src[n:p.pos]
		} else {
			p.pos = start
		}
	}
	p.opt()
	if r.Result, ok = p.value(); !ok {
		return nil, false
	}
	return r, true
}

func (p *rp) condition(r *MRule) bool {
	start := p.pos
	n := strings.Index(p.src[start:], "=>")
	if n < 0 {
		n = len(p.src) - start
	}
	p.pos += n
	p.fail(p.pos)
	if n == 0 {
		return false
	}
	text := p.src[start:p.pos]
	flat := strings.ReplaceAll(text, "\n", " ")
	xs := refGo(strings.TrimSpace(flat))
	ys := refGo(strings.Trim(text, " \t\r\n"))
	if canonGX(xs) != canonGX(ys) {
		p.ambiguous = true
	}
	x := ys
	if p.oldCond {
		x = xs
	}
	if x == nil {
		p.err(start, "condition")
		x = gi("bad")
	}
	r.Cond = x
	return true
}

func canonGX(x *GX) string {
	if x == nil {
		return ""
	}
	c := &canon{}
	c.gx(x)
	return c.b.String()
}

// refGo parses a Go expression within the supported subset; nil if it is not.
func refGo(text string) *GX {
	toks := scanGo(text)
	if toks == nil {
		return nil
	}
	e, err := goparser.ParseExpr(strings.Join(toks, " "))
	if err != nil {
		return nil
	}
	x, bad := fromGo(e)
	if bad != "" {
		return nil
	}
	return x
}

func (p *rp) value() (MVal, bool) {
	p.depth++
	if p.depth > p.maxDepth {
		p.maxDepth = p.depth
	}
	defer func() { p.depth-- }()
	start := p.pos
	if s, ok := p.sexpr(); ok {
		return s, true
	}
	p.pos = start
	return p.expr()
}

func (p *rp) ident() (string, bool) {
	c := p.peek()
	if c < 'a' || c > 'z' {
		return "", p.fail(p.pos)
	}
	start := p.pos
	p.pos++
	for p.pos < len(p.src) && opChar(p.src[p.pos]) {
		p.pos++
	}
	p.fail(p.pos)
	return p.src[start:p.pos], true
}

func (p *rp) oppart() (string, bool) {
	start := p.pos
	for p.pos < len(p.src) && opChar(p.src[p.pos]) {
		p.pos++
	}
	p.fail(p.pos)
	return p.src[start:p.pos], p.pos > start
}

func (p *rp) opalt() ([]string, bool) {
	start := p.pos
	if !p.lit("(") {
		return nil, false
	}
	a, ok := p.oppart()
	if !ok {
		p.pos = start
		return nil, false
	}
	alts := []string{a}
	for {
		at := p.pos
		if !p.lit("|") {
			break
		}
		a, ok := p.oppart()
		if !ok {
			p.pos = at
			break
		}
		alts = append(alts, a)
	}
	if len(alts) < 2 || !p.lit(")") {
		p.pos = start
		return nil, false
	}
	return alts, true
}

func (p *rp) sexpr() (*MS, bool) {
	s := &MS{}
	start := p.pos
	if b, ok := p.ident(); ok && p.lit(":") {
		s.Binding = b
	} else {
		p.pos = start
	}
	if !p.lit("(") {
		return nil, false
	}
	p.opt()
	for {
		if o, ok := p.oppart(); ok {
			s.Op = append(s.Op, MPart{Alts: []string{o}})
			continue
		}
		if a, ok := p.opalt(); ok {
			s.Op = append(s.Op, MPart{Alts: a, Alt: true})
			continue
		}
		break
	}
	if len(s.Op) == 0 {
		return nil, false
	}
	repeated := false
	for {
		at := p.pos
		if !p.req() || !p.operand(s, &repeated) {
			p.pos = at
			break
		}
	}
	at := p.pos
	if p.req() && p.lit("...") {
		s.Ellipsis = true
	} else {
		p.pos = at
	}
	at = p.pos
	if p.req() && p.lit("___") {
		s.Trailing = true
	} else {
		p.pos = at
	}
	p.opt()
	if !p.lit(")") {
		return nil, false
	}
	if repeated {
		p.err(start, "repeated operand")
	}
	return s, true
}

func (p *rp) operand(s *MS, repeated *bool) bool {
	start := p.pos
	switch p.peek() {
	case '<':
		p.pos++
		if p.until('>') && p.lit(">") {
			if s.Type != "" {
				*repeated = true
			}
			s.Type = p.src[start+1 : p.pos-1]
			return true
		}
		p.pos = start
		return false
	case '[', '{':
		open := p.src[start]
		close := byte(']')
		if open == '{' {
			close = '}'
		}
		p.pos++
		if !p.until(close) || !p.lit(string(close)) {
			p.pos = start
			return false
		}
		x := refGo(p.src[start+1 : p.pos-1])
		if x == nil {
			p.err(start, "bracketed expression")
			x = gi("bad")
		}
		if open == '[' {
			if s.AuxInt != nil {
				*repeated = true
			}
			s.AuxInt = x
		} else {
			if s.Aux != nil {
				*repeated = true
			}
			s.Aux = x
		}
		return true
	}
	v, ok := p.value()
	if !ok {
		return false
	}
	s.Args = append(s.Args, v)
	return true
}

// expr parses what is not an s-expression.
func (p *rp) expr() (MVal, bool) {
	start := p.pos
	if x, ok := p.callexpr(); ok {
		return &MX{x}, true
	}
	p.pos = start
	if v, ok := p.ident(); ok {
		return MVar(v), true
	}
	if p.lit("_") {
		if p.peek() != '_' {
			return MVar("_"), true
		}
		p.fail(p.pos)
		p.pos = start
	}
	return nil, false
}

func (p *rp) callexpr() (*GX, bool) {
	start := p.pos
	if _, ok := p.ident(); !ok {
		return nil, false
	}
	if !p.lit("(") {
		return nil, false
	}
	p.depth++
	if p.depth > p.maxDepth {
		p.maxDepth = p.depth
	}
	defer func() { p.depth-- }()
	p.opt()
	if _, ok := p.expr(); !ok {
		return nil, false
	}
	for {
		at := p.pos
		p.opt()
		if !p.lit(",") {
			p.pos = at
			break
		}
		p.opt()
		if _, ok := p.expr(); !ok {
			p.pos = at
			break
		}
		p.opt()
	}
	p.opt()
	if !p.lit(")") {
		return nil, false
	}
	x := refGo(p.src[start:p.pos])
	if x == nil {
		p.err(start, "call")
		x = gi("bad")
	}
	return x, true
}

// lineCol returns the position of an offset: columns count characters, and a line
// break belongs to the line it starts (column 0), as positions of the parser do.
func lineCol(src string, off int) (line, col int) {
	line = 1
	for i, r := range src {
		if i > off {
			break
		}
		if r == '\n' {
			line++
			col = 0
		} else {
			col++
		}
		if i == off {
			return line, col
		}
	}
	return line, col + 1
}
