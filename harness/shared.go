package main

import (
	"fmt"
	goast "go/ast"

	"github.com/mmcloughlin/ssarules/ast"
)

// Trees whose equal parts are one and the same, as programs may build them, and as
// expansion does.

// builtFile builds a tree by hand, some with shared parts.
func builtFile(c *Case, m *MFile) *ast.File {
	f := toRepoFile(m)
	if c.p(1, 3) {
		c.Hit("tree with shared parts")
		newSharer().file(f)
	}
	return f
}

func builtRule(c *Case, m *MRule) *ast.Rule {
	return builtFile(c, one(m)).Rules[0]
}

type sharer struct {
	seen map[string]interface{}
	ids  map[interface{}]int
}

func newSharer() *sharer {
	return &sharer{seen: map[string]interface{}{}, ids: map[interface{}]int{}}
}

// one returns the first node with a key.
func (s *sharer) one(key string, n interface{}) interface{} {
	if m, ok := s.seen[key]; ok {
		return m
	}
	s.seen[key] = n
	s.ids[n] = len(s.ids) + 1
	return n
}

func (s *sharer) file(f *ast.File) {
	for i, r := range f.Rules {
		r.Match, r.Result = s.value(r.Match), s.value(r.Result)
		r.Condition = s.expr(r.Condition)
		f.Rules[i] = s.one(fmt.Sprintf("rule %s %d %q %s", s.key(r.Match), s.ids[r.Condition], r.Block, s.key(r.Result)), r).(*ast.Rule)
	}
}

func (s *sharer) key(v ast.Value) string {
	if x, ok := v.(ast.Variable); ok {
		return fmt.Sprintf("%q", string(x))
	}
	return fmt.Sprint(s.ids[v])
}

func (s *sharer) expr(x *ast.Expr) *ast.Expr {
	if x == nil {
		return nil
	}
	x.Expr = s.goexpr(x.Expr)
	return s.one(fmt.Sprintf("expr %d", s.ids[x.Expr]), x).(*ast.Expr)
}

func (s *sharer) value(v ast.Value) ast.Value {
	switch x := v.(type) {
	case *ast.Expr:
		return s.expr(x)
	case *ast.SExpr:
		x.AuxInt, x.Aux = s.expr(x.AuxInt), s.expr(x.Aux)
		key := fmt.Sprintf("sexpr %q %q %q %d %d %v %v", x.Binding, fmt.Sprintf("%T%q", x.Op, x.Op), x.Type, s.ids[x.AuxInt], s.ids[x.Aux], x.Ellipsis, x.Trailing)
		for i, a := range x.Args {
			x.Args[i] = s.value(a)
			key += " " + s.key(x.Args[i])
		}
		return s.one(key, x).(*ast.SExpr)
	}
	return v
}

func (s *sharer) goexpr(e goast.Expr) goast.Expr {
	sub := func(p *goast.Expr) int {
		*p = s.goexpr(*p)
		return s.ids[*p]
	}
	key := fmt.Sprintf("%T", e)
	switch x := e.(type) {
	case *goast.Ident:
		key += " " + x.Name
	case *goast.BasicLit:
		key += fmt.Sprintln(x.Kind, x.Value)
	case *goast.ParenExpr:
		key += fmt.Sprintln("", sub(&x.X))
	case *goast.UnaryExpr:
		key += fmt.Sprintln("", x.Op, sub(&x.X))
	case *goast.StarExpr:
		key += fmt.Sprintln("", sub(&x.X))
	case *goast.SelectorExpr:
		key += fmt.Sprintln("", x.Sel.Name, sub(&x.X))
	case *goast.BinaryExpr:
		key += fmt.Sprintln("", x.Op, sub(&x.X), sub(&x.Y))
	case *goast.CallExpr:
		key += fmt.Sprintln("", x.Ellipsis.IsValid(), sub(&x.Fun))
		for i := range x.Args {
			key += fmt.Sprintln("", sub(&x.Args[i]))
		}
	default:
		return e
	}
	return s.one(key, e).(goast.Expr)
}

// again repeats some rules of a model, and some values of rules within them.
func again(c *RNG, m *MFile) *MFile {
	for k := 1 + c.n(3); k > 0 && len(m.Rules) > 0; k-- {
		r := m.Rules[c.n(len(m.Rules))]
		if c.p(1, 2) {
			i := c.n(len(m.Rules) + 1)
			m.Rules = append(m.Rules[:i:i], append([]*MRule{r.clone()}, m.Rules[i:]...)...)
			continue
		}
		var all []*MS
		for _, v := range []MVal{r.Match, r.Result} {
			all = append(all, sexprsIn(v)...)
		}
		if len(all) == 0 {
			continue
		}
		var from MVal = all[c.n(len(all))]
		if len(sexprsIn(from)) > 20 {
			continue
		}
		from = cloneVal(from)
		to := all[c.n(len(all))]
		if n := len(to.Args); n > 0 && c.p(1, 2) {
			to.Args[c.n(n)] = from
		} else {
			i := c.n(n + 1)
			to.Args = append(to.Args[:i:i], append([]MVal{from}, to.Args[i:]...)...)
		}
	}
	return m
}

// sexprsIn lists the operations of a value.
func sexprsIn(v MVal) []*MS {
	if v == nil {
		return nil
	}
	return sexprsOf(&MRule{Match: v})
}

func repeatSome(c *RNG, m *MFile) *MFile {
	if c.p(1, 4) {
		return again(c, m)
	}
	return m
}
