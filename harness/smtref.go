package main

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
)

// Part one: what a rule means, taken from its model.

type smtOp struct {
	arity int
	w     int // width; 0 is Bool
	f     func(a []uint64) uint64
}

func mask(w int) uint64 {
	switch w {
	case 0:
		return 1
	case 64:
		return ^uint64(0)
	}
	return 1<<uint(w) - 1
}

var smtOps = func() map[string]smtOp {
	ops := map[string]smtOp{}
	for _, w := range []int{8, 16, 32, 64} {
		bin := map[string]func(a []uint64) uint64{
			"Add": func(a []uint64) uint64 { return a[0] + a[1] },
			"Sub": func(a []uint64) uint64 { return a[0] - a[1] },
			"And": func(a []uint64) uint64 { return a[0] & a[1] },
			"Or":  func(a []uint64) uint64 { return a[0] | a[1] },
			"Xor": func(a []uint64) uint64 { return a[0] ^ a[1] },
		}
		for n, f := range bin {
			ops[fmt.Sprint(n, w)] = smtOp{2, w, f}
		}
		ops[fmt.Sprint("Neg", w)] = smtOp{1, w, func(a []uint64) uint64 { return -a[0] }}
		ops[fmt.Sprint("Com", w)] = smtOp{1, w, func(a []uint64) uint64 { return ^a[0] }}
	}
	ops["AndB"] = smtOp{2, 0, func(a []uint64) uint64 { return a[0] & a[1] }}
	ops["OrB"] = smtOp{2, 0, func(a []uint64) uint64 { return a[0] | a[1] }}
	ops["EqB"] = smtOp{2, 0, func(a []uint64) uint64 { return 1 ^ a[0] ^ a[1] }}
	ops["NeqB"] = smtOp{2, 0, func(a []uint64) uint64 { return a[0] ^ a[1] }}
	ops["Not"] = smtOp{1, 0, func(a []uint64) uint64 { return 1 ^ a[0] }}
	return ops
}()

var smtOpNames = func() []string {
	m := map[string]string{}
	for n := range smtOps {
		m[n] = ""
	}
	return sortedStrings(m)
}()

type refVar struct {
	name string // "" for a placeholder
	w    int
}

type refTerm struct {
	op   *smtOp
	v    int
	args []*refTerm
}

func (t *refTerm) eval(env []uint64) uint64 {
	if t.op == nil {
		return env[t.v]
	}
	var buf [2]uint64
	for i, a := range t.args {
		buf[i] = a.eval(env)
	}
	return t.op.f(buf[:t.op.arity]) & mask(t.op.w)
}

func (t *refTerm) size() int {
	n := 1
	for _, a := range t.args {
		n += a.size()
	}
	return n
}

type refRule struct {
	vars          []refVar
	w             int
	match, result *refTerm
}

// smtMeaning returns what a supported rule means, or why it is not supported.
func smtMeaning(r *MRule) (*refRule, string) {
	m := &refRule{}
	byName := map[string]int{}
	why := ""
	no := func(format string, args ...interface{}) *refTerm {
		if why == "" {
			why = fmt.Sprintf(format, args...)
		}
		return nil
	}
	const unknown = -1
	inResult := false
	var walk func(v MVal, w int) *refTerm
	walk = func(v MVal, w int) *refTerm {
		if why != "" {
			return nil
		}
		switch x := v.(type) {
		case MVar:
			if x == "_" {
				if inResult {
					return no("placeholder in result")
				}
				if w == unknown {
					return no("unknown type")
				}
				m.vars = append(m.vars, refVar{"", w})
				return &refTerm{v: len(m.vars) - 1}
			}
			k, ok := byName[string(x)]
			if !ok {
				if w == unknown {
					return no("unknown type")
				}
				k = len(m.vars)
				byName[string(x)] = k
				m.vars = append(m.vars, refVar{string(x), w})
			}
			if w != unknown && m.vars[k].w != w {
				return no("inconsistent types")
			}
			return &refTerm{v: k}
		case *MS:
			switch {
			case x.Binding != "":
				return no("binding")
			case x.Type != "":
				return no("type")
			case x.AuxInt != nil:
				return no("auxint")
			case x.Aux != nil:
				return no("aux")
			case x.Ellipsis:
				return no("ellipsis")
			case x.Trailing:
				return no("trailing")
			case len(x.Op) != 1 || x.Op[0].Alt:
				return no("alternates")
			}
			op, ok := smtOps[x.Op[0].Alts[0]]
			if !ok {
				return no("unknown opcode")
			}
			if len(x.Args) != op.arity {
				return no("arity")
			}
			if w != unknown && op.w != w {
				return no("operation of another type")
			}
			t := &refTerm{op: &op}
			for _, a := range x.Args {
				t.args = append(t.args, walk(a, op.w))
			}
			return t
		default:
			return no("call")
		}
	}
	m.match = walk(r.Match, unknown)
	if why == "" {
		if m.match.op == nil {
			no("unknown type")
		} else {
			m.w = m.match.op.w
		}
	}
	if why == "" && r.Cond != nil {
		no("condition")
	}
	if why == "" && r.Block != "" {
		no("block")
	}
	inResult = true
	if why == "" {
		m.result = walk(r.Result, m.w)
	}
	if why != "" {
		return nil, why
	}
	return m, ""
}

// Part two: what a script means. A strict reader of the part of SMT-LIB 2.6 for
// quantifier-free formulas over bit vectors.

type sx struct {
	atom string // a token, or
	list []sx
	isl  bool
}

func (s sx) String() string {
	if !s.isl {
		return s.atom
	}
	var out []string
	for _, k := range s.list {
		out = append(out, k.String())
	}
	return "(" + strings.Join(out, " ") + ")"
}

// readSX reads all s-expressions.
func readSX(src string) ([]sx, error) {
	var stack [][]sx
	cur := []sx{}
	for i := 0; i < len(src); {
		ch := src[i]
		switch {
		case ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r':
			i++
		case ch == ';':
			for i < len(src) && src[i] != '\n' && src[i] != '\r' {
				i++
			}
		case ch == '(':
			stack = append(stack, cur)
			cur = []sx{}
			i++
		case ch == ')':
			if len(stack) == 0 {
				return nil, fmt.Errorf("unbalanced )")
			}
			l := sx{list: cur, isl: true}
			cur = append(stack[len(stack)-1], l)
			stack = stack[:len(stack)-1]
			i++
		case ch == '"':
			j := i + 1
			for {
				if j >= len(src) {
					return nil, fmt.Errorf("unterminated string")
				}
				if src[j] == '"' {
					if j+1 < len(src) && src[j+1] == '"' {
						j += 2
						continue
					}
					break
				}
				j++
			}
			cur = append(cur, sx{atom: src[i : j+1]})
			i = j + 1
		case ch == '|':
			j := strings.IndexByte(src[i+1:], '|')
			if j < 0 || strings.Contains(src[i+1:i+1+j], "\\") {
				return nil, fmt.Errorf("bad quoted symbol")
			}
			cur = append(cur, sx{atom: src[i : i+j+2]})
			i += j + 2
		default:
			j := i
			for j < len(src) && !strings.ContainsRune(" \t\r\n;()\"|", rune(src[j])) {
				if src[j] < 33 || src[j] > 126 {
					return nil, fmt.Errorf("bad character %q", src[j])
				}
				j++
			}
			cur = append(cur, sx{atom: src[i:j]})
			i = j
		}
	}
	if len(stack) != 0 {
		return nil, fmt.Errorf("unbalanced (")
	}
	return cur, nil
}

var smtReserved = func() map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields("! _ as BINARY DECIMAL exists HEXADECIMAL forall lambda let match NUMERAL par STRING " +
		"assert check-sat check-sat-assuming declare-const declare-datatype declare-datatypes declare-fun declare-sort declare-sort-parameter define-const define-fun define-fun-rec define-funs-rec define-sort echo exit get-assertions get-assignment get-info get-model get-option get-proof get-unsat-assumptions get-unsat-core get-value pop push reset reset-assertions set-info set-logic set-option") {
		m[w] = true
	}
	return m
}()

// smtTheory are the function symbols of the core and bit vector theories, which
// cannot be declared again.
var smtTheory = func() map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields("true false not => and or xor = distinct ite " +
		"concat extract bvnot bvneg bvand bvor bvadd bvmul bvudiv bvurem bvshl bvlshr bvult bvnand bvnor bvxor bvxnor bvcomp bvsub bvsdiv bvsrem bvsmod bvashr repeat zero_extend sign_extend rotate_left rotate_right bvule bvugt bvuge bvslt bvsle bvsgt bvsge " +
		"bvnego bvuaddo bvsaddo bvumulo bvsmulo bvusubo bvssubo bvsdivo int_to_bv ubv_to_int sbv_to_int") {
		m[w] = true
	}
	return m
}()

// declarable returns the name a symbol stands for, if it can be declared.
func declarable(s string) (string, error) {
	if strings.HasPrefix(s, "|") && len(s) >= 2 {
		s = s[1 : len(s)-1]
	} else {
		if s == "" || s[0] >= '0' && s[0] <= '9' {
			return "", fmt.Errorf("not a symbol: %q", s)
		}
		for i := 0; i < len(s); i++ {
			c := s[i]
			if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("~!@$%^&*_-+=<>.?/", c) >= 0) {
				return "", fmt.Errorf("not a symbol: %q", s)
			}
		}
		if smtReserved[s] {
			return "", fmt.Errorf("reserved word declared: %s", s)
		}
	}
	if s == "" || s[0] == '@' || s[0] == '.' {
		return "", fmt.Errorf("symbol reserved for solvers: %q", s)
	}
	if smtTheory[s] {
		return "", fmt.Errorf("symbol of the theory declared: %s", s)
	}
	return s, nil
}

type smtTerm struct {
	w int
	f func(env []uint64) uint64
}

type smtScript struct {
	consts  []refVar
	index   map[string]int
	defs    map[string]smtTerm
	asserts []smtTerm
	uses    []int // constants in the order they occur in the assertions
}

func smtSort(s sx) (int, error) {
	switch t := s.String(); t {
	case "Bool":
		return 0, nil
	default:
		var w int
		if _, err := fmt.Sscanf(t, "(_ BitVec %d)", &w); err == nil && t == fmt.Sprintf("(_ BitVec %d)", w) && w > 0 && w <= 64 {
			return w, nil
		}
		return 0, fmt.Errorf("sort %s", t)
	}
}

// readScript reads a script, which must be well-formed and well-sorted.
func readScript(src string) (*smtScript, error) {
	cmds, err := readSX(src)
	if err != nil {
		return nil, err
	}
	p := &smtScript{index: map[string]int{}, defs: map[string]smtTerm{}}
	logic, checks, exited := "", 0, false
	for _, c := range cmds {
		if !c.isl || len(c.list) == 0 || c.list[0].isl {
			return nil, fmt.Errorf("not a command: %s", short(c.String()))
		}
		name, args := c.list[0].atom, c.list[1:]
		if exited {
			return nil, fmt.Errorf("%s after exit", name)
		}
		nargs := func(n int) error {
			if len(args) != n {
				return fmt.Errorf("%s with %d arguments", name, len(args))
			}
			if name != "set-info" && name != "set-option" && name != "set-logic" && logic == "" {
				return fmt.Errorf("%s before set-logic", name)
			}
			return nil
		}
		declare := func(n sx, w int) error {
			if n.isl {
				return fmt.Errorf("declaration of %s", n)
			}
			s, err := declarable(n.atom)
			if err != nil {
				return err
			}
			if _, ok := p.index[s]; ok || p.defs[s].f != nil {
				return fmt.Errorf("%s declared twice", s)
			}
			if len(p.asserts) > 0 && checks > 0 {
				return fmt.Errorf("%s declared after check-sat", s)
			}
			p.index[s] = len(p.consts)
			p.consts = append(p.consts, refVar{s, w})
			return nil
		}
		switch name {
		case "set-info", "set-option":
			if len(args) < 1 || args[0].isl || !strings.HasPrefix(args[0].atom, ":") || len(args) > 2 {
				return nil, fmt.Errorf("malformed %s", c)
			}
		case "set-logic":
			if err := nargs(1); err != nil {
				return nil, err
			}
			if logic != "" {
				return nil, fmt.Errorf("second set-logic")
			}
			logic = args[0].String()
			if !strings.Contains(logic, "BV") && logic != "ALL" {
				return nil, fmt.Errorf("logic %s is not one of bit vectors", logic)
			}
		case "declare-const":
			if err := nargs(2); err != nil {
				return nil, err
			}
			w, err := smtSort(args[1])
			if err != nil {
				return nil, err
			}
			if err := declare(args[0], w); err != nil {
				return nil, err
			}
		case "declare-fun":
			if err := nargs(3); err != nil {
				return nil, err
			}
			w, err := smtSort(args[2])
			if err != nil {
				return nil, err
			}
			if !args[1].isl || len(args[1].list) != 0 {
				return nil, fmt.Errorf("function declared: %s", c)
			}
			if err := declare(args[0], w); err != nil {
				return nil, err
			}
		case "define-fun", "define-const":
			if name == "define-fun" {
				if err := nargs(4); err != nil {
					return nil, err
				}
				if !args[1].isl || len(args[1].list) != 0 {
					return nil, fmt.Errorf("function defined: %s", c)
				}
				args = append([]sx{args[0]}, args[2:]...)
			} else if err := nargs(3); err != nil {
				return nil, err
			}
			w, err := smtSort(args[1])
			if err != nil {
				return nil, err
			}
			t, err := p.term(args[2], nil)
			if err != nil {
				return nil, err
			}
			s, err := declarable(args[0].String())
			if err != nil {
				return nil, err
			}
			if _, ok := p.index[s]; ok || p.defs[s].f != nil || t.w != w {
				return nil, fmt.Errorf("bad definition of %s", s)
			}
			p.defs[s] = t
		case "assert":
			if err := nargs(1); err != nil {
				return nil, err
			}
			if checks > 0 {
				return nil, fmt.Errorf("assert after check-sat")
			}
			t, err := p.term(args[0], nil)
			if err != nil {
				return nil, err
			}
			if t.w != 0 {
				return nil, fmt.Errorf("assertion of a bit vector")
			}
			p.asserts = append(p.asserts, t)
		case "check-sat":
			if err := nargs(0); err != nil {
				return nil, err
			}
			checks++
		case "get-model":
			if err := nargs(0); err != nil {
				return nil, err
			}
		case "exit":
			if err := nargs(0); err != nil {
				return nil, err
			}
			exited = true
		default:
			return nil, fmt.Errorf("command %s", name)
		}
	}
	if checks != 1 {
		return nil, fmt.Errorf("%d check-sat commands", checks)
	}
	if len(p.asserts) == 0 {
		return nil, fmt.Errorf("no assertion")
	}
	return p, nil
}

func (p *smtScript) term(s sx, scope map[string]smtTerm) (smtTerm, error) {
	bad := func(format string, args ...interface{}) (smtTerm, error) {
		return smtTerm{}, fmt.Errorf(format, args...)
	}
	if !s.isl {
		a := s.atom
		quoted := strings.HasPrefix(a, "|")
		if quoted {
			a = a[1 : len(a)-1]
		}
		if t, ok := scope[a]; ok {
			return t, nil
		}
		if t, ok := p.defs[a]; ok {
			return t, nil
		}
		if k, ok := p.index[a]; ok {
			p.uses = append(p.uses, k)
			return smtTerm{p.consts[k].w, func(env []uint64) uint64 { return env[k] }}, nil
		}
		if quoted {
			return bad("unknown symbol %s", s.atom)
		}
		lit := func(w int, v uint64) (smtTerm, error) {
			return smtTerm{w, func([]uint64) uint64 { return v }}, nil
		}
		switch {
		case a == "true":
			return lit(0, 1)
		case a == "false":
			return lit(0, 0)
		case strings.HasPrefix(a, "#x"):
			if v, err := strconv.ParseUint(a[2:], 16, 64); err == nil {
				return lit(4*len(a[2:]), v)
			}
		case strings.HasPrefix(a, "#b"):
			if v, err := strconv.ParseUint(a[2:], 2, 64); err == nil {
				return lit(len(a[2:]), v)
			}
		}
		return bad("unknown symbol %s", a)
	}
	l := s.list
	if len(l) == 0 {
		return bad("empty term")
	}
	if l[0].isl {
		return bad("term %s", short(s.String()))
	}
	switch l[0].atom {
	case "_":
		if len(l) == 3 && strings.HasPrefix(l[1].atom, "bv") {
			v, ok := new(big.Int).SetString(l[1].atom[2:], 10)
			w, err := strconv.Atoi(l[2].atom)
			if ok && err == nil && w > 0 && w <= 64 && v.BitLen() <= w && v.Sign() >= 0 {
				x := v.Uint64()
				return smtTerm{w, func([]uint64) uint64 { return x }}, nil
			}
		}
		return bad("term %s", s)
	case "let":
		if len(l) != 3 || !l[1].isl || len(l[1].list) == 0 {
			return bad("malformed let")
		}
		inner := map[string]smtTerm{}
		for k, v := range scope {
			inner[k] = v
		}
		for _, b := range l[1].list {
			if !b.isl || len(b.list) != 2 || b.list[0].isl {
				return bad("malformed let")
			}
			t, err := p.term(b.list[1], scope)
			if err != nil {
				return bad("%v", err)
			}
			n, err := declarable(b.list[0].atom)
			if err != nil {
				return bad("%v", err)
			}
			inner[n] = t
		}
		return p.term(l[2], inner)
	}
	var args []smtTerm
	for _, a := range l[1:] {
		t, err := p.term(a, scope)
		if err != nil {
			return bad("%v", err)
		}
		args = append(args, t)
	}
	op := l[0].atom
	// sorts demands n or more arguments of one sort.
	sorts := func(min, max int, w int) error {
		if len(args) < min || max > 0 && len(args) > max {
			return fmt.Errorf("%s with %d arguments", op, len(args))
		}
		for _, a := range args {
			if w == 0 && a.w != 0 || w > 0 && a.w == 0 {
				return fmt.Errorf("%s of an argument of another sort", op)
			}
			if a.w != args[0].w {
				return fmt.Errorf("%s of arguments of different sorts", op)
			}
		}
		return nil
	}
	fold := func(w int, f func(x, y uint64) uint64) (smtTerm, error) {
		a := args
		m := mask(w)
		return smtTerm{w, func(env []uint64) uint64 {
			v := a[0].f(env)
			for _, b := range a[1:] {
				v = f(v, b.f(env)) & m
			}
			return v
		}}, nil
	}
	const anySort = -1
	switch op {
	case "not":
		if err := sorts(1, 1, 0); err != nil {
			return bad("%v", err)
		}
		x := args[0]
		return smtTerm{0, func(env []uint64) uint64 { return 1 ^ x.f(env) }}, nil
	case "and", "or", "xor", "=>":
		if err := sorts(2, 0, 0); err != nil {
			return bad("%v", err)
		}
		switch op {
		case "and":
			return fold(0, func(x, y uint64) uint64 { return x & y })
		case "or":
			return fold(0, func(x, y uint64) uint64 { return x | y })
		case "xor":
			return fold(0, func(x, y uint64) uint64 { return x ^ y })
		}
		if len(args) != 2 {
			return bad("=> with %d arguments", len(args))
		}
		return fold(0, func(x, y uint64) uint64 { return 1 ^ x | y })
	case "=", "distinct":
		if err := sorts(2, 0, anySort); err != nil {
			return bad("%v", err)
		}
		a := args
		return smtTerm{0, func(env []uint64) uint64 {
			vals := make([]uint64, 0, 4)
			for _, t := range a {
				vals = append(vals, t.f(env))
			}
			for i := range vals {
				for j := 0; j < i; j++ {
					if (vals[i] == vals[j]) != (op == "=") {
						return 0
					}
				}
			}
			return 1
		}}, nil
	case "ite":
		if len(args) != 3 || args[0].w != 0 || args[1].w != args[2].w {
			return bad("malformed ite")
		}
		a := args
		return smtTerm{a[1].w, func(env []uint64) uint64 {
			if a[0].f(env) != 0 {
				return a[1].f(env)
			}
			return a[2].f(env)
		}}, nil
	case "bvneg", "bvnot":
		if err := sorts(1, 1, 1); err != nil {
			return bad("%v", err)
		}
		x, m := args[0], mask(args[0].w)
		if op == "bvneg" {
			return smtTerm{x.w, func(env []uint64) uint64 { return -x.f(env) & m }}, nil
		}
		return smtTerm{x.w, func(env []uint64) uint64 { return ^x.f(env) & m }}, nil
	case "bvadd", "bvmul", "bvand", "bvor", "bvxor":
		if err := sorts(2, 0, 1); err != nil {
			return bad("%v", err)
		}
		w := args[0].w
		switch op {
		case "bvadd":
			return fold(w, func(x, y uint64) uint64 { return x + y })
		case "bvmul":
			return fold(w, func(x, y uint64) uint64 { return x * y })
		case "bvand":
			return fold(w, func(x, y uint64) uint64 { return x & y })
		case "bvor":
			return fold(w, func(x, y uint64) uint64 { return x | y })
		}
		return fold(w, func(x, y uint64) uint64 { return x ^ y })
	case "bvsub", "bvnand", "bvnor", "bvxnor", "bvshl", "bvlshr", "bvashr", "bvult", "bvule", "bvugt", "bvuge":
		if err := sorts(2, 2, 1); err != nil {
			return bad("%v", err)
		}
		w := args[0].w
		cmp := func(f func(x, y uint64) bool) (smtTerm, error) {
			x, y := args[0], args[1]
			return smtTerm{0, func(env []uint64) uint64 {
				if f(x.f(env), y.f(env)) {
					return 1
				}
				return 0
			}}, nil
		}
		switch op {
		case "bvsub":
			return fold(w, func(x, y uint64) uint64 { return x - y })
		case "bvnand":
			return fold(w, func(x, y uint64) uint64 { return ^(x & y) })
		case "bvnor":
			return fold(w, func(x, y uint64) uint64 { return ^(x | y) })
		case "bvxnor":
			return fold(w, func(x, y uint64) uint64 { return ^(x ^ y) })
		case "bvshl":
			return fold(w, func(x, y uint64) uint64 {
				if y >= uint64(w) {
					return 0
				}
				return x << y
			})
		case "bvlshr":
			return fold(w, func(x, y uint64) uint64 {
				if y >= uint64(w) {
					return 0
				}
				return x >> y
			})
		case "bvashr":
			return fold(w, func(x, y uint64) uint64 {
				s := int64(x<<uint(64-w)) >> uint(64-w)
				if y >= uint64(w) {
					y = uint64(w) - 1
				}
				return uint64(s >> y)
			})
		case "bvult":
			return cmp(func(x, y uint64) bool { return x < y })
		case "bvule":
			return cmp(func(x, y uint64) bool { return x <= y })
		case "bvugt":
			return cmp(func(x, y uint64) bool { return x > y })
		}
		return cmp(func(x, y uint64) bool { return x >= y })
	}
	return bad("unknown function %s", op)
}

// sat evaluates the assertions.
func (p *smtScript) sat(env []uint64) bool {
	for _, a := range p.asserts {
		if a.f(env) == 0 {
			return false
		}
	}
	return true
}

// Part three: the two compared.

// assign maps the constants of the script to the variables of the rule: by name,
// which may be marked by characters no variable has, and placeholders by order.
func (p *smtScript) assign(m *refRule) ([]int, error) {
	if len(p.consts) != len(m.vars) {
		return nil, fmt.Errorf("%d constants for %d variables and placeholders", len(p.consts), len(m.vars))
	}
	byName := map[string]int{}
	var holes []int
	for i, v := range m.vars {
		if v.name == "" {
			holes = append(holes, i)
		} else {
			byName[v.name] = i
		}
	}
	to := make([]int, len(p.consts))
	for i, c := range p.consts {
		k, ok := byName[c.name]
		if !ok {
			plain := strings.Map(func(r rune) rune {
				if r == '_' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
					return r
				}
				return -1
			}, c.name)
			if plain != c.name {
				k, ok = byName[plain]
			}
		}
		if ok {
			delete(byName, m.vars[k].name)
		} else {
			if len(holes) == 0 {
				return nil, fmt.Errorf("constant %s stands for no variable", c.name)
			}
			k = holes[0]
			holes = holes[1:]
		}
		if m.vars[k].w != c.w {
			return nil, fmt.Errorf("constant %s has width %d, want %d", c.name, c.w, m.vars[k].w)
		}
		to[i] = k
	}
	if len(byName)+len(holes) > 0 {
		return nil, fmt.Errorf("variables without a constant: %v", byName)
	}
	return to, nil
}

// bits is the number of bits of all variables.
func (m *refRule) bits() int {
	n := 0
	for _, v := range m.vars {
		if v.w == 0 {
			n++
		}
		n += v.w
	}
	return n
}

// cornerValue is a value that matters, or any.
func cornerValue(r *RNG, w int) uint64 {
	m := mask(w)
	switch r.n(8) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return m
	case 3:
		return m >> 1
	case 4:
		return m ^ m>>1
	case 5:
		return uint64(1) << uint(r.n(64)) & m
	}
	return r.next() & m
}

// compareScript demands that the assertions hold exactly where match and result
// differ, on the values it tries: all of them if there are few.
func compareScript(c *Case, p *smtScript, to []int, m *refRule, extra [][]uint64) (differ, same int, err error) {
	env := make([]uint64, len(p.consts))
	try := func(vals []uint64) error {
		for i, k := range to {
			env[i] = vals[k]
		}
		want := m.match.eval(vals) != m.result.eval(vals)
		if got := p.sat(env); got != want {
			var s []string
			for i, v := range m.vars {
				s = append(s, fmt.Sprintf("%s=%#x", v.name, vals[i]))
			}
			return fmt.Errorf("at %s match is %#x and result %#x, and the assertions hold: %v", strings.Join(s, " "), m.match.eval(vals), m.result.eval(vals), got)
		}
		if want {
			differ++
		} else {
			same++
		}
		return nil
	}
	vals := make([]uint64, len(m.vars))
	bits := m.bits()
	if bits <= 16 && bits <= 8+20000/(1+m.match.size()+m.result.size()) && (bits <= 10 || c.Stream == "all values" || c.tier.Thorough || c.p(1, 4)) {
		for n := uint64(0); n < 1<<uint(bits); n++ {
			x := n
			for i, v := range m.vars {
				w := v.w
				if w == 0 {
					w = 1
				}
				vals[i] = x & mask(v.w)
				x >>= uint(w)
			}
			if err := try(vals); err != nil {
				return differ, same, err
			}
		}
		c.Hit("compared on all values")
		return
	}
	n := 60
	if size := m.match.size() + m.result.size(); size > 2000 {
		n = 12
	}
	for i := 0; i < n; i++ {
		for k, v := range m.vars {
			vals[k] = cornerValue(c.RNG, v.w)
			if k > 0 && c.p(1, 4) {
				o := c.n(k)
				if m.vars[o].w == v.w {
					vals[k] = vals[o]
					if c.p(1, 2) {
						vals[k] = ^vals[o] & mask(v.w)
					}
				}
			}
		}
		if err := try(vals); err != nil {
			return differ, same, err
		}
	}
	for _, vals := range extra {
		if err := try(vals); err != nil {
			return differ, same, err
		}
	}
	c.Hit("compared on some values")
	return
}
