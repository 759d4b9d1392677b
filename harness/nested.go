package main

import (
	"bytes"
	"fmt"
	"io"
	"runtime"
	"strings"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/printer"
)

// Operations that call back: what the user does in his readers, writers, visitors
// and predicates is his business, other operations of the library included.

type hookReader struct {
	r    io.Reader
	hook func()
}

func (h hookReader) Read(b []byte) (int, error) {
	h.hook()
	n, err := h.r.Read(b)
	h.hook()
	return n, err
}

type hookWriter struct {
	w    io.Writer
	hook func()
}

func (h hookWriter) Write(b []byte) (int, error) {
	h.hook()
	n, err := h.w.Write(b)
	h.hook()
	return n, err
}

type hookVisitor struct {
	b     *strings.Builder
	depth int
	hook  func()
}

func (v hookVisitor) Visit(n ast.Node) ast.Visitor {
	v.hook()
	fmt.Fprint(v.b, v.depth, kindOf(n), " ")
	v.hook()
	return hookVisitor{v.b, v.depth + 1, v.hook}
}

var callingBack = []struct {
	name string
	run  func(w *conItem, r *RNG, hook func()) string
}{
	{"parse.Reader", func(w *conItem, r *RNG, hook func()) string {
		f, err := parse.Reader("in", hookReader{&yieldReader{r, w.text}, hook})
		return canonFileR(f) + errText(err)
	}},
	{"printer.Fprint", func(w *conItem, r *RNG, hook func()) string {
		var b bytes.Buffer
		err := printer.Fprint(hookWriter{&b, hook}, w.file)
		return b.String() + errText(err)
	}},
	{"printer.Fprint of rules", func(w *conItem, r *RNG, hook func()) string {
		var b bytes.Buffer
		for _, rule := range w.file.Rules {
			err := printer.Fprint(hookWriter{&b, hook}, rule)
			b.WriteString(errText(err))
		}
		return b.String()
	}},
	{"ast.Fprint", func(w *conItem, r *RNG, hook func()) string {
		var b bytes.Buffer
		err := ast.Fprint(hookWriter{&b, hook}, w.file)
		return b.String() + errText(err)
	}},
	{"ast.Walk", func(w *conItem, r *RNG, hook func()) string {
		var b strings.Builder
		ast.Walk(hookVisitor{&b, 0, hook}, w.file)
		return b.String()
	}},
	{"ast.Inspect", func(w *conItem, r *RNG, hook func()) string {
		var b strings.Builder
		ast.Inspect(w.file, func(n ast.Node) bool {
			hook()
			b.WriteString(kindOf(n) + " ")
			hook()
			_, ok := n.(ast.OpcodeParts)
			return !ok
		})
		return b.String()
	}},
	{"ast.Contains, nothing", func(w *conItem, r *RNG, hook func()) string {
		k := 0
		found := ast.Contains(w.file, func(n ast.Node) bool {
			k++
			hook()
			return false
		})
		return fmt.Sprint(found, k)
	}},
	{"ast.Contains, a variable", func(w *conItem, r *RNG, hook func()) string {
		found := ast.Contains(w.file, func(n ast.Node) bool {
			hook()
			v, ok := n.(ast.Variable)
			return ok && len(v) > 1
		})
		return fmt.Sprint(found)
	}},
	{"ast.Contains, an opcode", func(w *conItem, r *RNG, hook func()) string {
		found := ast.Contains(w.file, func(n ast.Node) bool {
			s, ok := n.(*ast.SExpr)
			hook()
			return ok && len(s.Args) == 2
		})
		return fmt.Sprint(found)
	}},
}

// within runs operations within the callbacks of others, in the same goroutine or
// in another one that is waited for, and demands the results that each has alone.
func within(c *Case, elsewhere bool) {
	items := conItems(c, 3)
	var trail strings.Builder
	alone := map[string]string{}
	fail := ""
	check := func(name string, item int, got, want, where string) {
		c.Eval(1)
		if got != want && fail == "" {
			fail = fmt.Sprintf("%s gives another result within %s: %s", name, where, diff(want, got))
			c.Input(items[item].text)
		}
	}
	known := func(name string, item int, run func() string) string {
		key := fmt.Sprint(name, " ", item)
		if _, ok := alone[key]; !ok {
			alone[key] = run()
		}
		return alone[key]
	}
	// What is expected is found out beforehand.
	for i, w := range items {
		for _, op := range conOps {
			known(op.name, i, func() string { return op.run(w, &RNG{1}) })
		}
		for _, op := range callingBack {
			known("calling back: "+op.name, i, func() string { return op.run(w, &RNG{1}, func() {}) })
		}
	}
	inner := func(k, item int, seed uint64, where string) {
		op := conOps[k]
		got := op.run(items[item], &RNG{seed})
		check(op.name, item, got, known(op.name, item, nil), where)
	}
	for k, op := range callingBack {
		item := c.n(len(items))
		left := 6
		var calls func(depth int, where string) func()
		calls = func(depth int, where string) func() {
			return func() {
				if left <= 0 || !c.p(1, 3) || fail != "" {
					return
				}
				left--
				k, item, seed := c.n(len(conOps)), c.n(len(items)), c.next()
				deeper := depth < 2 && c.p(1, 3)
				what := func() {
					if deeper {
						op := callingBack[k%len(callingBack)]
						got := op.run(items[item], &RNG{seed}, calls(depth+1, op.name+" within "+where))
						check(op.name, item, got, known("calling back: "+op.name, item, nil), where)
						return
					}
					inner(k, item, seed, where)
				}
				c.w.st.Hist["within "+strings.SplitN(where, " within", 2)[0]]++
				if !elsewhere {
					what()
					return
				}
				done := make(chan interface{})
				go func() {
					defer func() { done <- recover() }()
					what()
				}()
				if e := <-done; e != nil {
					panic(e)
				}
			}
		}
		got := op.run(items[item], c.RNG, calls(0, op.name))
		check(op.name, item, got, known("calling back: "+op.name, item, nil), "which others are called")
		fmt.Fprint(&trail, k, item, left, " ")
	}
	if fail != "" {
		c.Fail("%s", fail)
		return
	}
	c.Distinct(trail.String() + items[0].text)
	runtime.Gosched()
}
