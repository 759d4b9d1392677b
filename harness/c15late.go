package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/pass"
	"github.com/mmcloughlin/ssarules/printer"
	"github.com/mmcloughlin/ssarules/smt2"
)

// richFault is an error of a writer with all that errors may have.
type richFault struct{ text string }

func (e *richFault) Error() string   { return e.text }
func (e *richFault) Timeout() bool   { return true }
func (e *richFault) Temporary() bool { return true }
func (e *richFault) Unwrap() error   { return io.EOF }

// failing runs an operation that fails, in one of many ways. What is done next must
// not differ from what it is otherwise.
func failing(c *Case, f *ast.File, text string) string {
	fault := faultKinds[c.n(len(faultKinds))]
	if c.p(1, 6) {
		fault = &richFault{"all at once"}
	}
	var n ast.Node = f
	if len(f.Rules) > 0 && c.p(1, 2) {
		n = f.Rules[c.n(len(f.Rules))]
	}
	left := []int{0, 1, 2, c.n(20), c.n(len(text) + 1)}[c.n(5)]
	w := dressedWriters[c.n(len(dressedWriters))](&faultyWriter{left: left, once: c.p(1, 2), whole: c.p(1, 2), err: fault})
	switch k := c.n(9); k {
	case 0, 1, 2:
		printer.Fprint(w, n)
		return fmt.Sprintf("printing to a writer that fails with %T", fault)
	case 3:
		ast.Fprint(w, n)
		return fmt.Sprintf("dumping to a writer that fails with %T", fault)
	case 4:
		r := &faultyReader{s: text[:c.n(len(text)+1)], with: c.p(1, 2), max: 1 + c.heavy(4000), err: fault}
		if fault == io.EOF {
			r.err = errDisk
		}
		parse.Reader("in", dressedReaders[c.n(len(dressedReaders))](r))
		return "reading from a reader that fails"
	case 5:
		g, _ := badNode(c)
		printer.Bytes(g)
		for _, r := range g.Rules {
			printer.Fprint(io.Discard, r)
		}
		return "printing what cannot be printed"
	case 6:
		// Files that cannot be written to.
		p := filepath.Join(c.Scratch(), "readonly")
		os.WriteFile(p, nil, 0o644)
		o, err := os.Open(p)
		if err != nil {
			return ""
		}
		printer.Fprint(o, n)
		ast.Fprint(o, n)
		o.Close()
		printer.Fprint(o, n)
		ast.Fprint(o, n)
		return "printing to a file that cannot be written to"
	case 7:
		// A pipe: nobody at the other end, or a deadline passed.
		r, o, err := os.Pipe()
		if err != nil {
			return ""
		}
		defer o.Close()
		defer r.Close()
		if c.p(1, 2) {
			r.Close()
		} else {
			o.SetWriteDeadline(time.Now().Add(-time.Second))
		}
		printer.Fprint(o, n)
		ast.Fprint(o, n)
		parse.Reader("in", o)
		return "printing to a pipe that fails"
	default:
		parse.File(filepath.Join(c.Scratch(), "none"))
		parse.File(c.Scratch())
		parse.String(text[:c.n(len(text)+1)])
		return "reading what is no file"
	}
}

// sameResult compares results of one operation.
func sameResult(a, b interface{}) bool {
	switch x := a.(type) {
	case []byte:
		y, ok := b.([]byte)
		return ok && bytes.Equal(x, y)
	case *string:
		y, ok := b.(*string)
		return ok && *x == *y
	}
	return reflect.DeepEqual(a, b)
}

// keptLong keeps results while very many others are made.
func keptLong(c *Case) {
	g := newGen(c.RNG, 3)
	short := func() *MRule {
		for i := 0; ; i++ {
			r := g.rule()
			if len(printFileM(one(r))) < 60 || i > 50 {
				return r
			}
		}
	}
	const numRules = 64
	var rules []*ast.Rule
	var texts []string
	for i := 0; i < numRules; i++ {
		r := short()
		if i%2 == 0 {
			r = consistentModel(c.RNG, 1).Rules[0]
		}
		rules = append(rules, toRepoRule(r))
		texts = append(texts, printFileM(one(r)))
	}
	c.Input(strings.Join(texts, ""))
	// The k-th operation gives something to keep, or nothing.
	var do func(k int) interface{}
	many, what := 0, ""
	period := numRules // operations k and k+period are the same
	switch c.Idx % 7 {
	case 0:
		what, many = "printed rules", 300000
		do = func(k int) interface{} { b, _ := printer.Bytes(rules[k%numRules]); return b }
	case 1:
		what, many = "printed nodes", 600000
		var nodes []ast.Node
		for _, r := range rules {
			for _, v := range treeFrom(r).preorder(nil) {
				if v.node != nil {
					if _, err := printer.Bytes(v.node); err == nil {
						nodes = append(nodes, v.node)
					}
				}
			}
		}
		if len(nodes) == 0 {
			return
		}
		period = len(nodes)
		do = func(k int) interface{} { b, _ := printer.Bytes(nodes[k%len(nodes)]); return b }
	case 2:
		what, many = "scripts", 100000
		var able []*ast.Rule
		for _, r := range rules {
			if _, err := smt2.Generate(r); err == nil {
				able = append(able, r)
			}
		}
		if len(able) == 0 {
			return
		}
		period = len(able)
		do = func(k int) interface{} { b, _ := smt2.Generate(able[k%len(able)]); return b }
	case 3:
		what, many = "parsed trees", 70000
		do = func(k int) interface{} { f, _ := parse.String(texts[k%numRules]); return f }
	case 4:
		what, many = "parsed trees from readers", 40000
		do = func(k int) interface{} { f, _ := parse.Reader("in", strings.NewReader(texts[k%numRules])); return f }
	case 5:
		what, many = "expanded rules", 150000
		do = func(k int) interface{} {
			f := &ast.File{Rules: []*ast.Rule{rules[k%numRules]}}
			if pass.ExpandAlternates(f) != nil {
				return nil
			}
			return f
		}
	default:
		what, many = "dumps", 60000
		do = func(k int) interface{} {
			s, _ := ast.Dump(rules[k%numRules])
			// Strings do not change, unless they share memory with something.
			return &s
		}
	}
	type kept struct {
		k           int
		value, copy interface{}
	}
	var ks []kept
	begin := time.Now()
	k, next := 0, 16384
	look := func() bool {
		c.Eval(len(ks))
		for _, h := range ks {
			if !sameResult(h.value, h.copy) {
				c.Fail("%s: what operation %d returned has changed after %d operations", what, h.k, k)
				return false
			}
		}
		return true
	}
	first := map[int]interface{}{}
	for ; k < many; k++ {
		v := do(k)
		if k < period {
			switch v := v.(type) {
			case nil:
				first[k] = nil
			case *string:
				s := strings.Clone(*v)
				first[k] = &s
			default:
				first[k] = deepCopy(v)
			}
		} else if !sameResult(v, first[k%period]) {
			c.Fail("%s: operation %d does not return what the same operation returned at %d", what, k, k%period)
			return
		}
		if k < 3000 || k%97 == 0 && len(ks) < 6000 {
			switch v := v.(type) {
			case nil:
			case *string:
				s := strings.Clone(*v)
				ks = append(ks, kept{k, v, &s})
			default:
				ks = append(ks, kept{k, v, deepCopy(v)})
			}
		}
		if k == 40 || k == 300 || k == 3000 || k == next {
			if k == next {
				next *= 4
			}
			if !look() {
				return
			}
		}
		if k%1024 == 0 && time.Since(begin) > 12*time.Second {
			break
		}
	}
	if !look() {
		return
	}
	c.Hit("kept for long: " + what)
	c.w.st.Hist[fmt.Sprintf("%s kept over operations (thousands)", what)] += k / 1000
	c.Distinct(fmt.Sprint(what, k))
}

// grown appends to the lists of expanded rules: their room is their own.
func grown(c *Case) {
	m := consistentModel(c.RNG, 1+c.n(3))
	if c.p(1, 3) {
		m = cliFile(c, 1+c.n(3))
	}
	text := newRend(c.RNG).file(m)
	c.Input(text)
	f, err := parse.String(text)
	if err != nil {
		return
	}
	expanded := c.p(3, 4)
	if expanded && pass.ExpandAlternates(f) != nil {
		return
	}
	want := canonRulesR(f.Rules)
	var lists []reflect.Value
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		switch v.Kind() {
		case reflect.Ptr, reflect.Interface:
			if !v.IsNil() && v.Type().String() != "*ast.Object" && depth < 500 {
				walk(v.Elem(), depth+1)
			}
		case reflect.Slice:
			lists = append(lists, v)
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), depth+1)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), depth+1)
			}
		}
	}
	walk(reflect.ValueOf(f), 0)
	for i := 0; i < 12 && len(lists) > 0; i++ {
		l := lists[c.n(len(lists))]
		if i == 0 && c.p(1, 2) {
			l = lists[0]
		}
		var more reflect.Value
		if n := l.Len(); n > 0 && c.p(1, 2) {
			more = l.Index(c.n(n))
		} else {
			more = reflect.Zero(l.Type().Elem())
		}
		room := l.Cap() - l.Len()
		for j := 0; j <= room && j < 20; j++ {
			l = reflect.Append(l, more)
		}
		c.Eval(1)
		if got := canonRulesR(f.Rules); !reflect.DeepEqual(got, want) {
			c.Fail("appending to a list of a tree (expanded %v) changed what others hold: %s", expanded, diff(strings.Join(want, "\n"), strings.Join(got, "\n")))
			return
		}
		if room > 0 {
			c.Hit(fmt.Sprintf("appended where there was room, expanded %v: %v", expanded, l.Type()))
		}
	}
	c.Distinct(text)
}
