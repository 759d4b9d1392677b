package main

import (
	"fmt"
	goast "go/ast"
	gotoken "go/token"
	"sort"
	"strconv"
	"strings"

	"github.com/mmcloughlin/ssarules/ast"
)

// The reference model of rule files. Nothing here depends on the code under
// test, apart from the functions that read its trees.

type MFile struct{ Rules []*MRule }

type MRule struct {
	Match  MVal
	Cond   *GX
	Block  string
	Result MVal

	lo, hi int // span in the text, when parsed by the reference parser
}

// MVal is *MS, *MX or MVar.
type MVal interface{}

type MVar string

type MX struct{ X *GX }

type MS struct {
	Binding  string
	Op       []MPart
	Type     string
	AuxInt   *GX
	Aux      *GX
	Args     []MVal
	Ellipsis bool
	Trailing bool
}

// MPart is a literal piece of an opcode (one alternative) or a list of alternatives.
type MPart struct {
	Alts []string
	Alt  bool
}

func lit(s string) []MPart { return []MPart{{Alts: []string{s}}} }

// GX is an expression in Go syntax.
type GX struct {
	K   byte   // 'i' identifier, 'l' literal, 'p' parenthesis, 'u' unary, 'b' binary, 'c' call, 's' star, 'd' selector
	S   string // name, literal text, operator, selected name
	LK  string // kind of literal
	A   []*GX
	Ell bool
}

func gi(s string) *GX            { return &GX{K: 'i', S: s} }
func gl(kind, s string) *GX      { return &GX{K: 'l', S: s, LK: kind} }
func gp(x *GX) *GX               { return &GX{K: 'p', A: []*GX{x}} }
func gu(op string, x *GX) *GX    { return &GX{K: 'u', S: op, A: []*GX{x}} }
func gb(op string, x, y *GX) *GX { return &GX{K: 'b', S: op, A: []*GX{x, y}} }
func gc(f *GX, a ...*GX) *GX     { return &GX{K: 'c', A: append([]*GX{f}, a...)} }
func gs(x *GX) *GX               { return &GX{K: 's', A: []*GX{x}} }
func gd(x *GX, name string) *GX  { return &GX{K: 'd', S: name, A: []*GX{x}} }
func (x *GX) clone() *GX {
	if x == nil {
		return nil
	}
	y := *x
	y.A = nil
	for _, a := range x.A {
		y.A = append(y.A, a.clone())
	}
	return &y
}

func cloneVal(v MVal) MVal {
	switch w := v.(type) {
	case *MS:
		c := *w
		c.Op = nil
		for _, p := range w.Op {
			c.Op = append(c.Op, MPart{Alts: append([]string(nil), p.Alts...), Alt: p.Alt})
		}
		c.AuxInt = w.AuxInt.clone()
		c.Aux = w.Aux.clone()
		c.Args = nil
		for _, a := range w.Args {
			c.Args = append(c.Args, cloneVal(a))
		}
		return &c
	case *MX:
		return &MX{w.X.clone()}
	default:
		return v
	}
}

func (r *MRule) clone() *MRule {
	return &MRule{Match: cloneVal(r.Match), Cond: r.Cond.clone(), Block: r.Block, Result: cloneVal(r.Result)}
}

func (f *MFile) clone() *MFile {
	g := &MFile{}
	for _, r := range f.Rules {
		g.Rules = append(g.Rules, r.clone())
	}
	return g
}

// Canonical serialisation: injective on models, and defined alike on the trees of
// the code under test.

type canon struct {
	b   strings.Builder
	bad []string // anomalies of the tree itself
}

func (c *canon) str(s string) {
	c.b.WriteString(strconv.Itoa(len(s)))
	c.b.WriteByte(':')
	c.b.WriteString(s)
}

func (c *canon) oops(format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	c.bad = append(c.bad, s)
	c.b.WriteString("<!" + s + "!>")
}

func canonFileM(f *MFile) string {
	c := &canon{}
	for _, r := range f.Rules {
		c.ruleM(r)
		c.b.WriteByte('\n')
	}
	return c.b.String()
}

func canonRuleM(r *MRule) string {
	c := &canon{}
	c.ruleM(r)
	return c.b.String()
}

func (c *canon) ruleM(r *MRule) {
	c.b.WriteString("R{")
	c.valM(r.Match)
	if r.Cond != nil {
		c.b.WriteString(" cond=")
		c.gx(r.Cond)
	}
	c.b.WriteString(" block=")
	c.str(r.Block)
	c.b.WriteString(" result=")
	c.valM(r.Result)
	c.b.WriteByte('}')
}

func (c *canon) valM(v MVal) {
	switch w := v.(type) {
	case *MS:
		c.b.WriteString("S{b=")
		c.str(w.Binding)
		c.b.WriteString(" op=")
		c.opM(w.Op)
		c.b.WriteString(" t=")
		c.str(w.Type)
		if w.AuxInt != nil {
			c.b.WriteString(" ai=")
			c.gx(w.AuxInt)
		}
		if w.Aux != nil {
			c.b.WriteString(" ax=")
			c.gx(w.Aux)
		}
		fmt.Fprintf(&c.b, " n=%d", len(w.Args))
		for _, a := range w.Args {
			c.b.WriteByte(' ')
			c.valM(a)
		}
		if w.Ellipsis {
			c.b.WriteString(" E")
		}
		if w.Trailing {
			c.b.WriteString(" T")
		}
		c.b.WriteByte('}')
	case *MX:
		c.b.WriteString("X{")
		c.gx(w.X)
		c.b.WriteByte('}')
	case MVar:
		c.b.WriteString("V")
		c.str(string(w))
	case nil:
		c.oops("nil value")
	default:
		panic("valM")
	}
}

func (c *canon) opM(op []MPart) {
	if len(op) == 1 && !op[0].Alt {
		c.b.WriteByte('o')
		c.str(op[0].Alts[0])
		return
	}
	c.b.WriteByte('[')
	for _, p := range op {
		if p.Alt {
			c.b.WriteByte('(')
			for _, a := range p.Alts {
				c.str(a)
				c.b.WriteByte('|')
			}
			c.b.WriteByte(')')
		} else {
			c.b.WriteByte('o')
			c.str(p.Alts[0])
		}
	}
	c.b.WriteByte(']')
}

func (c *canon) gx(x *GX) {
	if x == nil {
		c.oops("nil expression")
		return
	}
	c.b.WriteByte(x.K)
	c.b.WriteString(x.LK)
	c.str(x.S)
	if len(x.A) > 0 {
		c.b.WriteByte('(')
		for i, a := range x.A {
			if i > 0 {
				c.b.WriteByte(',')
			}
			c.gx(a)
		}
		if x.Ell {
			c.b.WriteString("...")
		}
		c.b.WriteByte(')')
	}
}

// Trees of the code under test.

func canonFileR(f *ast.File) string {
	c := &canon{}
	if f == nil {
		return "<!nil file!>"
	}
	for _, r := range f.Rules {
		c.ruleR(r)
		c.b.WriteByte('\n')
	}
	return c.b.String()
}

func canonRuleR(r *ast.Rule) string {
	c := &canon{}
	c.ruleR(r)
	return c.b.String()
}

func canonRulesR(rs []*ast.Rule) []string {
	var out []string
	for _, r := range rs {
		out = append(out, canonRuleR(r))
	}
	return out
}

func (c *canon) ruleR(r *ast.Rule) {
	if r == nil {
		c.oops("nil rule")
		return
	}
	c.b.WriteString("R{")
	c.valR(r.Match)
	if r.Condition != nil {
		c.b.WriteString(" cond=")
		c.goR(r.Condition.Expr)
	}
	c.b.WriteString(" block=")
	c.str(r.Block)
	c.b.WriteString(" result=")
	c.valR(r.Result)
	c.b.WriteByte('}')
}

func (c *canon) valR(v ast.Value) {
	switch w := v.(type) {
	case nil:
		c.oops("nil value")
	case *ast.SExpr:
		if w == nil {
			c.oops("nil sexpr")
			return
		}
		c.b.WriteString("S{b=")
		c.str(string(w.Binding))
		c.b.WriteString(" op=")
		c.opR(w.Op)
		c.b.WriteString(" t=")
		c.str(string(w.Type))
		if w.AuxInt != nil {
			c.b.WriteString(" ai=")
			c.goR(w.AuxInt.Expr)
		}
		if w.Aux != nil {
			c.b.WriteString(" ax=")
			c.goR(w.Aux.Expr)
		}
		fmt.Fprintf(&c.b, " n=%d", len(w.Args))
		for _, a := range w.Args {
			c.b.WriteByte(' ')
			c.valR(a)
		}
		if w.Ellipsis {
			c.b.WriteString(" E")
		}
		if w.Trailing {
			c.b.WriteString(" T")
		}
		c.b.WriteByte('}')
	case *ast.Expr:
		if w == nil {
			c.oops("nil expr")
			return
		}
		c.b.WriteString("X{")
		c.goR(w.Expr)
		c.b.WriteByte('}')
	case ast.Variable:
		c.b.WriteString("V")
		c.str(string(w))
	default:
		c.oops("value of type %T", v)
	}
}

func (c *canon) opR(op ast.Op) {
	switch o := op.(type) {
	case ast.Opcode:
		c.b.WriteByte('o')
		c.str(string(o))
	case ast.OpcodeParts:
		c.b.WriteByte('[')
		for _, p := range o {
			switch q := p.(type) {
			case ast.Opcode:
				c.b.WriteByte('o')
				c.str(string(q))
			case ast.OpcodeAlt:
				c.b.WriteByte('(')
				for _, a := range q {
					c.str(string(a))
					c.b.WriteByte('|')
				}
				c.b.WriteByte(')')
			default:
				c.oops("opcode part of type %T", p)
			}
		}
		c.b.WriteByte(']')
	default:
		c.oops("opcode of type %T", op)
	}
}

func (c *canon) goR(e goast.Expr) {
	x, err := fromGo(e)
	if err != "" {
		c.oops("%s", err)
		return
	}
	c.gx(x)
}

// fromGo converts an expression tree, within the supported language.
func fromGo(e goast.Expr) (*GX, string) {
	var sub func(e goast.Expr) *GX
	bad := ""
	fail := func(format string, args ...interface{}) *GX {
		if bad == "" {
			bad = fmt.Sprintf(format, args...)
		}
		return gi("BAD")
	}
	sub = func(e goast.Expr) *GX {
		switch x := e.(type) {
		case *goast.Ident:
			if x == nil {
				return fail("nil ident")
			}
			return gi(x.Name)
		case *goast.BasicLit:
			return gl(x.Kind.String(), x.Value)
		case *goast.ParenExpr:
			return gp(sub(x.X))
		case *goast.UnaryExpr:
			return gu(x.Op.String(), sub(x.X))
		case *goast.BinaryExpr:
			return gb(x.Op.String(), sub(x.X), sub(x.Y))
		case *goast.StarExpr:
			return gs(sub(x.X))
		case *goast.SelectorExpr:
			if x.Sel == nil {
				return fail("selector without name")
			}
			return gd(sub(x.X), x.Sel.Name)
		case *goast.CallExpr:
			c := gc(sub(x.Fun))
			for _, a := range x.Args {
				c.A = append(c.A, sub(a))
			}
			c.Ell = x.Ellipsis != gotoken.NoPos
			return c
		default:
			return fail("expression of type %T", e)
		}
	}
	x := sub(e)
	return x, bad
}

// toRepo builds a tree of the code under test by hand (not through its parser).
func toRepoFile(f *MFile) *ast.File {
	g := &ast.File{}
	for _, r := range f.Rules {
		g.Rules = append(g.Rules, toRepoRule(r))
	}
	return g
}

func toRepoRule(r *MRule) *ast.Rule {
	q := &ast.Rule{Match: toRepoVal(r.Match), Block: r.Block, Result: toRepoVal(r.Result)}
	if r.Cond != nil {
		q.Condition = &ast.Expr{Expr: toGo(r.Cond)}
	}
	return q
}

func toRepoVal(v MVal) ast.Value {
	switch w := v.(type) {
	case *MS:
		s := &ast.SExpr{
			Binding:  ast.Variable(w.Binding),
			Op:       toRepoOp(w.Op),
			Type:     ast.Type(w.Type),
			Ellipsis: w.Ellipsis,
			Trailing: w.Trailing,
		}
		if w.AuxInt != nil {
			s.AuxInt = &ast.Expr{Expr: toGo(w.AuxInt)}
		}
		if w.Aux != nil {
			s.Aux = &ast.Expr{Expr: toGo(w.Aux)}
		}
		for _, a := range w.Args {
			s.Args = append(s.Args, toRepoVal(a))
		}
		return s
	case *MX:
		return &ast.Expr{Expr: toGo(w.X)}
	case MVar:
		return ast.Variable(w)
	}
	return nil
}

func toRepoOp(op []MPart) ast.Op {
	if len(op) == 1 && !op[0].Alt {
		return ast.Opcode(op[0].Alts[0])
	}
	var parts ast.OpcodeParts
	for _, p := range op {
		if !p.Alt {
			parts = append(parts, ast.Opcode(p.Alts[0]))
			continue
		}
		var alt ast.OpcodeAlt
		for _, a := range p.Alts {
			alt = append(alt, ast.Opcode(a))
		}
		parts = append(parts, alt)
	}
	return parts
}

var goTokens = func() map[string]gotoken.Token {
	m := map[string]gotoken.Token{}
	for t := gotoken.ADD; t <= gotoken.TILDE; t++ {
		m[t.String()] = t
	}
	for _, t := range []gotoken.Token{gotoken.INT, gotoken.FLOAT, gotoken.IMAG, gotoken.CHAR, gotoken.STRING} {
		m[t.String()] = t
	}
	return m
}()

func toGo(x *GX) goast.Expr {
	switch x.K {
	case 'i':
		return &goast.Ident{Name: x.S}
	case 'l':
		return &goast.BasicLit{Kind: goTokens[x.LK], Value: x.S}
	case 'p':
		return &goast.ParenExpr{X: toGo(x.A[0])}
	case 'u':
		return &goast.UnaryExpr{Op: goTokens[x.S], X: toGo(x.A[0])}
	case 'b':
		return &goast.BinaryExpr{Op: goTokens[x.S], X: toGo(x.A[0]), Y: toGo(x.A[1])}
	case 's':
		return &goast.StarExpr{X: toGo(x.A[0])}
	case 'd':
		return &goast.SelectorExpr{X: toGo(x.A[0]), Sel: &goast.Ident{Name: x.S}}
	case 'c':
		c := &goast.CallExpr{Fun: toGo(x.A[0])}
		for _, a := range x.A[1:] {
			c.Args = append(c.Args, toGo(a))
		}
		if x.Ell {
			c.Ellipsis = 1
		}
		return c
	}
	panic("toGo")
}

// diff describes the first difference of two canonical strings.
func diff(want, got string) string {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	clip := func(s string) string {
		lo, hi := max(0, i-60), min(len(s), i+120)
		if lo > hi {
			return ""
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("at %d (lengths %d, %d): want ...%q... got ...%q...", i, len(want), len(got), clip(want), clip(got))
}

// features lists what occurs in a file, for the histograms of the evidence.
func (f *MFile) features() map[string]bool {
	m := map[string]bool{}
	bucket := func(name string, n int) {
		b := 0
		for b < n {
			b = b*2 + 1
		}
		m[fmt.Sprintf("%s<=%d", name, b)] = true
	}
	bucket("rules", len(f.Rules))
	var gx func(x *GX, where string)
	gx = func(x *GX, where string) {
		if x == nil {
			return
		}
		switch x.K {
		case 'u', 'b':
			m["go:"+string(x.K)+x.S] = true
		case 'l':
			m["go:"+x.LK] = true
		default:
			m["go:"+string(x.K)] = true
		}
		if x.Ell {
			m["go:call..."] = true
		}
		m["expr in "+where] = true
		for _, a := range x.A {
			gx(a, where)
		}
	}
	var val func(v MVal, side string, depth int) int
	val = func(v MVal, side string, depth int) int {
		switch w := v.(type) {
		case MVar:
			if w == "_" {
				m[side+":placeholder"] = true
			} else {
				m[side+":variable"] = true
			}
			return 1
		case *MX:
			m[side+":call"] = true
			gx(w.X, "call")
			return 1
		case *MS:
			if w.Binding != "" {
				m[side+":binding"] = true
			}
			if w.Type != "" {
				m[side+":type"] = true
			}
			if w.AuxInt != nil {
				m[side+":auxint"] = true
				gx(w.AuxInt, "auxint")
			}
			if w.Aux != nil {
				m[side+":aux"] = true
				gx(w.Aux, "aux")
			}
			if w.Ellipsis {
				m[side+":ellipsis"] = true
			}
			if w.Trailing {
				m[side+":trailing"] = true
			}
			bucket("args", len(w.Args))
			if len(w.Op) > 1 {
				bucket("opparts", len(w.Op))
			}
			for _, p := range w.Op {
				if p.Alt {
					bucket("alternatives", len(p.Alts))
				}
			}
			d := 0
			for _, a := range w.Args {
				d = max(d, val(a, side, depth+1))
			}
			return d + 1
		}
		return 0
	}
	for _, r := range f.Rules {
		d := max(val(r.Match, "match", 0), val(r.Result, "result", 0))
		bucket("depth", d)
		if r.Cond != nil {
			m["condition"] = true
			gx(r.Cond, "condition")
		}
		if r.Block != "" {
			m["block"] = true
		}
	}
	return m
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
