package main

import (
	goscanner "go/scanner"
	gotoken "go/token"
	"strings"
	"sync"
)

// Rend renders models as text, with a random layout.
type Rend struct {
	r *RNG
	b []byte

	// Layout. Mode 0 is compact: the least that keeps the tokens apart.
	Mode     int  // 0 compact, 1 plain (single spaces), 2 loose, 3 wild
	CRLF     bool // line breaks are \r\n
	Comments bool
	Shuffle  bool // attributes in any order among the operands
	GoNotes  bool // comments within bracketed expressions too

	// Bounds are the offsets of token boundaries outside free text, at which an
	// extra character is out of place.
	Bounds []int
	marks  bool
}

func newRend(r *RNG) *Rend {
	x := &Rend{r: r, Shuffle: true}
	x.Mode = r.n(4)
	x.CRLF = r.p(1, 6)
	x.Comments = x.Mode >= 2 && r.p(2, 3)
	x.GoNotes = x.Comments && r.p(1, 2)
	return x
}

func plainRend(r *RNG) *Rend { return &Rend{r: r, Mode: 1} }

func (w *Rend) s(s string) { w.b = append(w.b, s...) }

func (w *Rend) mark() {
	if w.marks {
		w.Bounds = append(w.Bounds, len(w.b))
	}
}

// tok writes a token, with marks around it.
func (w *Rend) tok(s string) {
	w.mark()
	w.s(s)
	w.mark()
}

func (w *Rend) nl() {
	if w.CRLF {
		w.s("\r\n")
	} else {
		w.s("\n")
	}
}

func (w *Rend) comment() {
	w.s("//")
	t := w.commentText(func(r rune) bool { return r != '\n' })
	w.s(t)
	// (In Go, a malformed line directive is an error.)
	if w.r.p(1, 20) && !strings.HasPrefix(t, "line ") {
		w.s(w.r.pick([]string{"\r", "\rx", "\r(A) => (B)", "\r\r", "\v", "\f", "\u2028", "\u0085"}))
	}
	w.nl()
}

func (w *Rend) commentText(ok func(rune) bool) string {
	g := Gen{RNG: w.r}
	switch w.r.n(5) {
	case 0:
		return ""
	case 1:
		if t := w.r.pick(notes); w.r.p(1, 2) && strings.IndexFunc(t, func(r rune) bool { return !ok(r) }) < 0 {
			return t
		}
		return w.r.pick([]string{" comment", " (A x) => (B x)", "// =>", " => ", " && x", " \"quoted", " '", " `", " ) ] } >", " %d%s", " /* x", "\t", " é日本", " ___", "...", "/", " note: x"})
	default:
		// Within Go expressions, comments may not have NUL or byte order marks.
		return g.freeText(30, func(r rune) bool { return ok(r) && r != 0 && r != '\ufeff' })
	}
}

// ws writes one piece of white space.
func (w *Rend) ws() {
	switch w.r.n(8) {
	case 0:
		w.s("\t")
	case 1, 2:
		w.nl()
	case 3:
		if w.Mode == 3 {
			w.s("\r")
			break
		}
		w.s(" ")
	default:
		w.s(" ")
	}
}

// opt writes an optional skip.
func (w *Rend) opt() {
	w.mark()
	switch w.Mode {
	case 0, 1:
	case 2:
		if w.r.p(1, 4) {
			w.skip(1)
		}
	default:
		w.skip(w.r.heavy(6))
	}
	w.mark()
}

// req writes a skip that is not empty.
func (w *Rend) req() {
	w.mark()
	switch w.Mode {
	case 0, 1:
		w.s(" ")
	case 2:
		if w.r.p(1, 4) {
			w.skip(1 + w.r.n(3))
		} else {
			w.s(" ")
		}
	default:
		w.skip(1 + w.r.heavy(6))
	}
	w.mark()
}

func (w *Rend) skip(n int) {
	for i := 0; i < n; i++ {
		if w.Comments && w.r.p(1, 6) {
			// A comment may start anywhere, except behind a slash.
			w.comment()
		} else {
			w.ws()
		}
	}
}

// pretty writes the optional blank of usual style.
func (w *Rend) pretty() {
	if w.Mode == 1 {
		w.mark()
		w.s(" ")
		w.mark()
		return
	}
	w.opt()
}

func (w *Rend) file(f *MFile) string {
	w.opt()
	for i, r := range f.Rules {
		if i > 0 {
			if _, ok := f.Rules[i-1].Result.(*MS); ok && w.Mode != 1 {
				w.opt()
			} else if w.Mode == 1 || w.Mode == 2 {
				w.mark()
				w.nl()
				w.mark()
			} else {
				w.req()
			}
		}
		w.rule(r)
	}
	if len(f.Rules) > 0 && w.Mode == 1 {
		w.nl()
	}
	w.opt()
	if w.Comments && w.r.p(1, 4) {
		// A comment that ends with the file. A result block or name must not run into it.
		w.s(" //")
		w.s(w.commentText(func(r rune) bool { return r != '\n' }))
	} else {
		w.mark()
	}
	return string(w.b)
}

func (w *Rend) rule(r *MRule) {
	w.val(r.Match)
	if r.Cond != nil {
		if w.Mode == 1 {
			w.s(" ")
		} else {
			w.req()
		}
		w.tok("&&")
		marks := w.marks
		w.marks = false // what follows belongs to the text of the condition, or is next to it
		w.req()
		w.goText(r.Cond, 'c')
		w.marks = marks
	}
	if r.Cond != nil {
		w.condEnd()
	} else {
		w.pretty()
	}
	w.s("=>")
	w.mark()
	w.pretty()
	if r.Block != "" {
		w.s("@")
		w.s(r.Block)
		w.ws() // a block ends at white space only
		w.opt()
	}
	w.val(r.Result)
}

// condEnd writes what may follow a condition.
func (w *Rend) condEnd() {
	if w.Mode == 0 {
		return
	}
	if w.Mode == 1 {
		w.s(" ")
		return
	}
	n := w.r.n(3)
	for i := 0; i < n; i++ {
		w.ws()
	}
	if w.Comments && w.r.p(1, 4) {
		for {
			t := w.commentText(func(r rune) bool { return r != '\n' && r != '\r' && r != 0 && r != '\ufeff' })
			if strings.Contains(t, "=>") || strings.HasSuffix(t, "=") || strings.HasPrefix(t, "line ") {
				continue
			}
			w.s(" //" + t)
			break
		}
		w.nl()
	}
}

func (w *Rend) val(v MVal) {
	switch x := v.(type) {
	case MVar:
		w.tok(string(x))
	case *MX:
		w.call(x.X)
	case *MS:
		w.sexpr(x)
	}
}

func (w *Rend) call(x *GX) {
	if x.K == 'i' {
		w.tok(x.S)
		return
	}
	w.tok(x.A[0].S)
	w.tok("(")
	for i, a := range x.A[1:] {
		if i > 0 {
			w.opt()
			w.tok(",")
			w.pretty()
		} else {
			w.opt()
		}
		w.call(a)
	}
	w.opt()
	w.tok(")")
}

func (w *Rend) sexpr(s *MS) {
	if s.Binding != "" {
		w.tok(s.Binding)
		w.tok(":")
	}
	w.tok("(")
	w.opt()
	for _, p := range s.Op {
		if !p.Alt {
			w.tok(p.Alts[0])
			continue
		}
		for i, a := range p.Alts {
			if i == 0 {
				w.tok("(")
			} else {
				w.tok("|")
			}
			w.tok(a)
		}
		w.tok(")")
	}
	var attrs []func()
	if s.Type != "" {
		attrs = append(attrs, func() { w.mark(); w.s("<" + s.Type + ">"); w.mark() })
	}
	if s.AuxInt != nil {
		attrs = append(attrs, func() { w.bracket('[', s.AuxInt, ']') })
	}
	if s.Aux != nil {
		attrs = append(attrs, func() { w.bracket('{', s.Aux, '}') })
	}
	na := len(attrs)
	for i := range s.Args {
		a := s.Args[i]
		attrs = append(attrs, func() { w.val(a) })
	}
	order := make([]int, len(attrs))
	for i := range order {
		order[i] = i
	}
	if w.Shuffle && na > 0 && w.r.p(1, 2) {
		// Any place for the attributes, in any order; arguments keep theirs.
		slot := make([]int, 0, len(attrs))
		perm := w.r.perm(na)
		pos := make([]int, na)
		for i := range pos {
			pos[i] = w.r.n(len(s.Args) + 1)
		}
		for a := 0; a <= len(s.Args); a++ {
			for _, k := range perm {
				if pos[k] == a {
					slot = append(slot, k)
				}
			}
			if a < len(s.Args) {
				slot = append(slot, na+a)
			}
		}
		order = slot
	}
	for _, k := range order {
		w.req()
		attrs[k]()
	}
	if s.Ellipsis {
		w.req()
		w.tok("...")
	}
	if s.Trailing {
		w.req()
		w.tok("___")
	}
	w.opt()
	w.tok(")")
}

func (r *RNG) perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	r.shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}

func (w *Rend) bracket(open byte, x *GX, close byte) {
	w.mark()
	w.s(string(open))
	ctx := byte('i')
	if open == '{' {
		ctx = 'x'
	}
	w.goGap(ctx, true)
	w.goText(x, ctx)
	w.goGap(ctx, true)
	w.s(string(close))
	w.mark()
}

// goToks lists the tokens of x.
func goToks(x *GX, out []string) []string {
	switch x.K {
	case 'i', 'l':
		return append(out, x.S)
	case 'p':
		return append(goToks(x.A[0], append(out, "(")), ")")
	case 'u':
		return goToks(x.A[0], append(out, x.S))
	case 's':
		return goToks(x.A[0], append(out, "*"))
	case 'd':
		return append(goToks(x.A[0], out), ".", x.S)
	case 'b':
		return goToks(x.A[1], append(goToks(x.A[0], out), x.S))
	case 'c':
		out = append(goToks(x.A[0], out), "(")
		for i, a := range x.A[1:] {
			if i > 0 {
				out = append(out, ",")
			}
			out = goToks(a, out)
		}
		if x.Ell {
			out = append(out, "...")
		}
		return append(out, ")")
	}
	panic("goToks")
}

var (
	glueMu    sync.Mutex
	glueCache = map[string]bool{}
)

// glueOK reports whether two Go tokens may be written without a gap.
func glueOK(a, b string) bool {
	key := a + "\x00" + b
	glueMu.Lock()
	v, ok := glueCache[key]
	glueMu.Unlock()
	if ok {
		return v
	}
	toks := scanGo(a + b)
	v = len(toks) == 2 && toks[0] == a && toks[1] == b
	glueMu.Lock()
	if len(glueCache) > 20000 {
		glueCache = map[string]bool{}
	}
	glueCache[key] = v
	glueMu.Unlock()
	return v
}

// scanGo lists the tokens of x without comments and automatic semicolons; nil if
// there is an error.
func scanGo(x string) []string {
	src := []byte(x)
	fset := gotoken.NewFileSet()
	var s goscanner.Scanner
	s.Init(fset.AddFile("", fset.Base(), len(src)), src, func(gotoken.Position, string) {}, 0)
	toks := []string{}
	for {
		_, tok, lit := s.Scan()
		switch {
		case tok == gotoken.EOF:
			if s.ErrorCount > 0 {
				return nil
			}
			return toks
		case tok == gotoken.SEMICOLON && lit == "\n":
		case lit != "":
			toks = append(toks, lit)
		default:
			toks = append(toks, tok.String())
		}
	}
}

func (w *Rend) goText(x *GX, ctx byte) {
	toks := goToks(x, nil)
	for i, t := range toks {
		if i > 0 {
			glue := glueOK(toks[i-1], t)
			switch {
			case !glue:
				w.goGap(ctx, false)
			case w.Mode == 1:
				if toks[i-1] == "," || t == "&&" || toks[i-1] == "&&" || t == "||" || toks[i-1] == "||" {
					w.s(" ")
				}
			default:
				w.goGap(ctx, true)
			}
		}
		w.s(t)
	}
}

// goGap writes a gap between tokens of a Go expression.
func (w *Rend) goGap(ctx byte, optional bool) {
	n := 0
	switch w.Mode {
	case 0, 1:
	case 2:
		if w.r.p(1, 5) {
			n = 1
		}
	default:
		n = w.r.heavy(4)
	}
	if n == 0 && !optional {
		w.s(" ")
	}
	for i := 0; i < n; i++ {
		switch {
		case w.GoNotes && w.r.p(1, 8):
			w.goComment(ctx)
		default:
			w.ws()
		}
	}
}

func (w *Rend) goComment(ctx byte) {
	for {
		t := w.commentText(func(r rune) bool { return r != '\n' && r != '\r' && r != 0 && r != '\ufeff' })
		if badIn(ctx, t) || strings.Contains(t, "*/") || strings.HasSuffix(t, "*") || strings.HasSuffix(t, "=") || strings.HasPrefix(t, "line ") || strings.HasPrefix(t, "/") {
			continue
		}
		if ctx == 'c' || w.r.p(1, 2) {
			w.s(" /*" + t + "*/ ")
		} else {
			w.s(" //" + t)
			w.nl()
		}
		return
	}
}
