package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/pass"
	"github.com/mmcloughlin/ssarules/printer"
	"github.com/mmcloughlin/ssarules/smt2"
)

// deepCopy copies a tree by hand, with its details.
func deepCopy(v interface{}) interface{} {
	return copyValue(reflect.ValueOf(v)).Interface()
}

func copyValue(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		if v.Type().String() == "*ast.Object" {
			return v
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(copyValue(v.Elem()))
		return n
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		n.Set(copyValue(v.Elem()))
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(copyValue(v.Index(i)))
		}
		return n
	case reflect.Struct:
		n := reflect.New(v.Type()).Elem()
		n.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if n.Field(i).CanSet() {
				n.Field(i).Set(copyValue(v.Field(i)))
			}
		}
		return n
	default:
		return v
	}
}

// scribble overwrites all of a tree that can be.
func scribble(v reflect.Value, depth int) {
	if depth > 3000 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() && v.Type().String() != "*ast.Object" {
			scribble(v.Elem(), depth+1)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i), depth+1)
		}
		// The room behind the end belongs to the slice, too.
		if v.Cap() > v.Len() {
			reflect.Append(v, reflect.Zero(v.Type().Elem()))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scribble(v.Field(i), depth+1)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scribbled")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Int:
		if v.CanSet() {
			v.SetInt(77)
		}
	}
}

// A history runs operations on items one after the other. The answer of an
// operation on an item must always be the same.
var (
	historyItems   []*conItem
	historyAnswers = map[[2]int]string{}
	historyCopies  []interface{}
	historyFirst   string
)

const numHistoryItems = 300

func historySetup(c *Case) {
	if historyItems != nil {
		return
	}
	for i := 0; i < numHistoryItems; i++ {
		// The same in all workers.
		r := *c
		r.RNG = newRNG(c.w.seed, "history", fmt.Sprint(i))
		w := conItems(&r, 1)[0]
		w.path = filepath.Join(c.Scratch(), fmt.Sprintf("item%d.rules", i))
		if err := os.WriteFile(w.path, []byte(w.text), 0o644); err != nil {
			c.Error("%v", err)
		}
		historyItems = append(historyItems, w)
		historyCopies = append(historyCopies, deepCopy(w.file))
	}
	historyFirst = conOps[3].run(historyItems[0], c.RNG)
}

func history(c *Case) {
	historySetup(c)
	var trail []string
	last := ""
	for i := 0; i < 60; i++ {
		op, item := c.n(len(conOps)), c.n(numHistoryItems)
		if c.p(1, 3) {
			item = c.n(20) // some come again soon
		}
		w := historyItems[item]
		got := conOps[op].run(w, c.RNG)
		key := [2]int{op, item}
		c.Eval(1)
		// Errors hold the name of the file, which differs between workers only.
		if want, ok := historyAnswers[key]; ok {
			if got != want {
				c.Input(w.text)
				c.Fail("%s of item %d after %s gives another result than before: %s", conOps[op].name, item, last, diff(want, got))
				return
			}
			c.Hit("repeated: " + conOps[op].name)
		} else {
			historyAnswers[key] = got
		}
		if !reflect.DeepEqual(w.file, historyCopies[item]) {
			c.Input(w.text)
			c.Fail("%s modified its tree", conOps[op].name)
			historyItems = nil
			historyAnswers = map[[2]int]string{}
			historyCopies = nil
			return
		}
		last = fmt.Sprintf("%s of item %d", conOps[op].name, item)
		if c.p(1, 5) {
			w := historyItems[c.n(numHistoryItems)]
			last = failing(c, w.file, w.text)
			c.Hit("in between: " + last)
			trail = append(trail, last)
			// A first answer after a failure is compared with later ones, and the other way round.
			if got, want := conOps[3].run(historyItems[0], c.RNG), historyFirst; got != want {
				c.Input(historyItems[0].text)
				c.Fail("%s of an item after %s gives another result than before: %s", conOps[3].name, last, diff(want, got))
				return
			}
			c.Eval(1)
		}
		trail = append(trail, fmt.Sprint(op, ":", item))
	}
	c.Distinct(strings.Join(trail, " "))
	c.Sample(strings.Join(trail[:8], " ") + " ...")
}

// A held result is one the user kept, with a copy to tell changes by.
type held struct {
	what  string
	value interface{} // []byte or *ast.File
	copy  interface{}
}

// holding keeps the results of many operations, and looks after each operation
// whether one of them changed, also when the user overwrote another.
func holding(c *Case) {
	var hs []*held
	hold := func(what string, v interface{}) {
		hs = append(hs, &held{what: what, value: v, copy: deepCopy(v)})
	}
	look := func(after string) bool {
		c.Eval(len(hs))
		for _, h := range hs {
			if err, ok := h.value.(error); ok {
				if err.Error() != h.copy.(string) {
					c.Fail("%s changed %s, which the user keeps: %s", after, h.what, diff(h.copy.(string), err.Error()))
					return false
				}
				continue
			}
			if !reflect.DeepEqual(h.value, h.copy) {
				d := ""
				switch v := h.value.(type) {
				case []byte:
					d = diff(string(h.copy.([]byte)), string(v))
				case *ast.File:
					d = diff(canonFileR(h.copy.(*ast.File)), canonFileR(v))
				}
				c.Fail("%s changed %s, which the user keeps: %s", after, h.what, d)
				return false
			}
		}
		return true
	}
	var trail strings.Builder
	for i := 0; i < 25; i++ {
		var m *MFile
		switch c.n(4) {
		case 0:
			m = systematic(c.RNG, c.n(systematicCount()))
		case 1:
			m = consistentModel(c.RNG, 1+c.n(3))
		default:
			m = cliFile(c, 1+c.n(3))
		}
		text := plainRend(c.RNG).file(m)
		after := ""
		var trees []*ast.File
		for _, h := range hs {
			if f, ok := h.value.(*ast.File); ok {
				trees = append(trees, f)
			}
		}
		f := toRepoFile(m)
		if len(trees) > 0 && c.p(1, 2) {
			f = trees[c.n(len(trees))]
		}
		switch c.n(9) {
		case 8:
			after = failing(c, f, text)
			printed, err := printer.Bytes(toRepoFile(m))
			if err != nil || string(printed) != printFileM(m) {
				c.Input(text)
				c.Fail("printed differently after %s: error %v, %s", after, err, diff(printFileM(m), string(printed)))
				return
			}
		case 0, 1:
			after = "parsing"
			g, err := parse.String(text)
			if err == nil {
				hold("a parsed tree", g)
			}
		case 2:
			after = "printing a file"
			if b, err := printer.Bytes(f); err == nil {
				hold("printed bytes", b)
			}
		case 3:
			if len(f.Rules) == 0 {
				continue
			}
			after = "printing a rule"
			if b, err := printer.Bytes(f.Rules[c.n(len(f.Rules))]); err == nil {
				hold("printed bytes of a rule", b)
			}
		case 4:
			if len(f.Rules) == 0 {
				continue
			}
			after = "generating a script"
			if b, err := smt2.Generate(f.Rules[c.n(len(f.Rules))]); err == nil {
				hold("a script", b)
			}
		case 5:
			// Expansion of a file of its own; the rules may be held.
			after = "expanding"
			g := &ast.File{Rules: append([]*ast.Rule(nil), f.Rules...)}
			pass.ExpandAlternates(g)
			c.Eval(1)
		case 6:
			after = "an error"
			hold := func(what string, err error) {
				if err != nil {
					hs = append(hs, &held{what: what, value: err, copy: err.Error()})
				}
			}
			bad := text + c.pick([]string{"(A", "(A [", "x", ")", "\n(A x) => (B {s[i]})", "$", "\xff", "(A <t> <t>) => x"})
			if c.p(1, 2) {
				bad = badRule(c.RNG)
			}
			_, err := parse.String(bad)
			hold("an error of a parse", err)
			_, err = printer.Bytes(&ast.File{Rules: []*ast.Rule{{Match: ast.Variable("x")}}})
			hold("an error of a print", err)
			_, err = parse.File(text)
			hold("an error of a parse of a file", err)
			if len(f.Rules) > 0 {
				_, err = smt2.Generate(f.Rules[c.n(len(f.Rules))])
				hold("an error of a generation", err)
			}
			g := &ast.File{Rules: append(toRepoFile(mixedCounts(newGen(c.RNG, 3), 0, 7, 2+c.n(3), 5)).Rules, f.Rules...)}
			hold("an error of an expansion", pass.ExpandAlternates(g))
		default:
			if len(hs) == 0 {
				continue
			}
			k := c.n(len(hs))
			h := hs[k]
			after = "overwriting " + h.what
			switch v := h.value.(type) {
			case []byte:
				for i := range v {
					v[i] = 'X'
				}
				_ = append(v, "XXXX"...)
			case *ast.File:
				scribble(reflect.ValueOf(v), 0)
			case error:
				_ = v.Error()
			}
			hs = append(hs[:k], hs[k+1:]...)
		}
		c.Hit("then: " + after)
		fmt.Fprint(&trail, after, len(text), " ")
		if !look(after) {
			c.Input(text)
			return
		}
	}
	c.Distinct(trail.String())
	c.Sample(trail.String())
}

// leftAlone runs everything on a tree, and looks whether the tree changed.
func leftAlone(c *Case, m *MFile) {
	text := printFileM(m)
	c.Input(text)
	f := toRepoFile(m)
	if c.p(1, 2) {
		if g, err := parse.String(text); err == nil {
			f = g
		}
	}
	keep := deepCopy(f)
	first := ""
	for i, op := range readOps {
		got := op.run(f)
		c.Eval(1)
		if !reflect.DeepEqual(f, keep) {
			c.Fail("%s modified its tree: %s", op.name, diff(canonFileR(keep.(*ast.File)), canonFileR(f)))
			return
		}
		if i == 0 {
			first = got
		}
	}
	if got := readOps[0].run(f); got != first {
		c.Fail("%s gives another result after the others: %s", readOps[0].name, diff(first, got))
	}
	c.Distinct(text)
}

// graft makes dst equal to src, changing some of its nodes in place and exchanging
// others.
func graft(c *Case, dst, src reflect.Value) {
	if !dst.CanSet() || c.p(1, 10) {
		if dst.CanSet() {
			dst.Set(src)
			return
		}
	}
	switch dst.Kind() {
	case reflect.Ptr:
		switch {
		case dst.IsNil() || src.IsNil() || dst.Type().String() == "*ast.Object":
			dst.Set(src)
		case c.p(1, 2):
			dst.Elem().Set(src.Elem())
		default:
			graft(c, dst.Elem(), src.Elem())
		}
	case reflect.Interface:
		if !dst.IsNil() && !src.IsNil() && dst.Elem().Type() == src.Elem().Type() && dst.Elem().Kind() == reflect.Ptr && !dst.Elem().IsNil() && !src.Elem().IsNil() {
			graft(c, dst.Elem().Elem(), src.Elem().Elem())
			return
		}
		if !dst.IsNil() && !src.IsNil() && dst.Elem().Type() == src.Elem().Type() && dst.Elem().Kind() == reflect.Slice && dst.Elem().Len() == src.Elem().Len() {
			for i := 0; i < src.Elem().Len(); i++ {
				graft(c, dst.Elem().Index(i), src.Elem().Index(i))
			}
			return
		}
		dst.Set(src)
	case reflect.Slice:
		switch n := src.Len(); {
		case dst.Len() == n && !dst.IsNil():
			for i := 0; i < n; i++ {
				graft(c, dst.Index(i), src.Index(i))
			}
		case dst.Cap() >= n && n > 0 && c.p(1, 2):
			dst.SetLen(n)
			for i := 0; i < n; i++ {
				dst.Index(i).Set(src.Index(i))
			}
		default:
			dst.Set(src)
		}
	case reflect.Struct:
		for i := 0; i < dst.NumField(); i++ {
			graft(c, dst.Field(i), src.Field(i))
		}
	default:
		dst.Set(src)
	}
}

// edited runs everything on a tree that its user changes in between. The answers
// must be those for a tree that never was another.
func edited(c *Case, m *MFile) {
	f := toRepoFile(m)
	if c.p(1, 2) {
		if g, err := parse.String(printFileM(m)); err == nil {
			f = g
		}
	}
	for round := 0; round < 3; round++ {
		c.Input(printFileM(m))
		fresh := deepCopy(f).(*ast.File)
		for k := len(readOps); k > 0; k-- {
			op := readOps[c.n(len(readOps))]
			got := op.run(f)
			if c.p(1, 3) {
				fresh = deepCopy(f).(*ast.File)
			}
			want := op.run(fresh)
			c.Eval(1)
			if got != want {
				c.Fail("%s of a tree that was changed differs from that of its copy (round %d): %s", op.name, round, diff(want, got))
				return
			}
		}
		n := m.clone()
		for i := 1 + c.n(3); i > 0; i-- {
			tweak(c.RNG, n)
		}
		if c.p(1, 4) {
			n = relate(c.RNG, n)
		}
		g := toRepoFile(n)
		graft(c, reflect.ValueOf(f), reflect.ValueOf(g))
		if c.p(1, 2) {
			graft(c, reflect.ValueOf(f).Elem(), reflect.ValueOf(deepCopy(g)).Elem())
		} else {
			*f = *g
		}
		if canonFileR(f) != canonFileM(n) {
			c.Error("the harness did not change the tree as meant")
			return
		}
		m = n
	}
	c.Distinct(c.input)
}

var readOps = []struct {
	name string
	run  func(f *ast.File) string
}{
	{"printer.Bytes", func(f *ast.File) string { b, err := printer.Bytes(f); return string(b) + errText(err) }},
	{"printer.Bytes of rules", func(f *ast.File) string {
		var all strings.Builder
		for _, r := range f.Rules {
			b, err := printer.Bytes(r)
			fmt.Fprintln(&all, string(b)+errText(err))
		}
		return all.String()
	}},
	{"ast.Dump", func(f *ast.File) string { s, err := ast.Dump(f); return s + errText(err) }},
	{"ast.Inspect", func(f *ast.File) string {
		var all strings.Builder
		ast.Inspect(f, func(n ast.Node) bool {
			if n != nil {
				fmt.Fprintln(&all, kindOf(n), nodeText(n))
			}
			return true
		})
		return all.String()
	}},
	{"predicates", func(f *ast.File) string {
		var all strings.Builder
		for _, r := range f.Rules {
			for _, p := range predicates {
				fmt.Fprint(&all, p.f(r), " ")
			}
		}
		return all.String()
	}},
	{"smt2.Generate", func(f *ast.File) string {
		var all strings.Builder
		for _, r := range f.Rules {
			b, err := smt2.Generate(r)
			fmt.Fprintln(&all, string(b)+errText(err))
		}
		return all.String()
	}},
	{"pass.ExpandAlternates of the rules", func(f *ast.File) string {
		g := &ast.File{Rules: append([]*ast.Rule(nil), f.Rules...)}
		err := pass.ExpandAlternates(g)
		return canonFileR(g) + errText(err)
	}},
}

func init() {
	register(&Check{
		ID:       "C15",
		MinEvals: 20000,
		Rule: "A case is a history: operations of the library on items of a pool in random order, failures among them, each answer compared with the first to the same question; or results kept while other operations run and other results are overwritten; or a tree given to all operations; or a text or rule handled alone and among others, before and after results were overwritten by their user; or questions asked again in other surroundings (environment variables, files lying about, directory, threads, collector, settings of the standard library, place of the call, also in new processes), or after operations that callbacks ended by a panic. " +
			"Trees given to operations are compared in all details with copies made before. Non-trivial: every history or text; distinct by them.",
		Assumptions: []string{"rules of one expansion may share parts with one another and with the rules they come from; only parsed trees, printed bytes and scripts are the user's to overwrite"},
		Streams: func(t Tier) []Stream {
			return []Stream{
				{"histories", t.n(1600, 60000), history},
				{"left alone", systematicCount() * t.n(1, 4), func(c *Case) {
					leftAlone(c, systematic(c.RNG, c.Idx%systematicCount()))
				}},
				{"left alone, random", t.n(3000, 150000), func(c *Case) {
					if c.p(1, 2) {
						leftAlone(c, consistentModel(c.RNG, 1+c.n(4)))
						return
					}
					leftAlone(c, randomModel(c.RNG))
				}},
				{"within one another", t.n(1500, 60000), func(c *Case) { within(c, false) }},
				{"changed trees", t.n(4000, 200000), func(c *Case) {
					switch c.n(4) {
					case 0:
						edited(c, systematic(c.RNG, c.n(systematicCount())))
					case 1:
						edited(c, consistentModel(c.RNG, 1+c.n(3)))
					case 2:
						edited(c, cliFile(c, 1+c.n(3)))
					default:
						edited(c, newGen(c.RNG, 15).file(1+c.n(2)))
					}
				}},
				{"surroundings", t.n(900, 40000), surrounded},
				{"processes in other surroundings", t.n(120, 2000), elsewhereProcess},
				{"answers of a process", 0, answersInProcess},
				{"abandoned operations", t.n(300, 10000), func(c *Case) { abandoned(c, 40) }},
				{"kept results", t.n(1500, 60000), holding},
				{"kept for long", 7 * t.n(2, 20), keptLong},
				{"appended to", t.n(3000, 150000), grown},
				{"alone and together", t.n(3000, 150000), func(c *Case) {
					// Rules are the same alone and among others, in any order.
					m := cliFile(c, 1+c.heavy(10))
					if c.p(1, 3) {
						m = consistentModel(c.RNG, 1+c.heavy(8))
					}
					var texts []string
					for _, r := range m.Rules {
						w := plainRend(c.RNG)
						if c.p(1, 2) {
							w = newRend(c.RNG)
						}
						texts = append(texts, w.file(one(r)))
					}
					all := strings.Join(texts, "\n")
					c.Input(all)
					f, err := parse.String(all)
					var alone []*ast.Rule
					for _, s := range texts {
						g, err := parse.String(s)
						if err != nil || len(g.Rules) != 1 {
							c.Hit("skipped: not parsed as meant (decided by C01)")
							return
						}
						alone = append(alone, g.Rules...)
					}
					c.Eval(1)
					if err != nil {
						c.Fail("rules that are accepted alone are rejected together: %v", err)
						return
					}
					a, b := canonRulesR(f.Rules), canonRulesR(alone)
					if !reflect.DeepEqual(a, b) {
						c.Fail("rules differ alone and together: %s", diff(strings.Join(b, "\n"), strings.Join(a, "\n")))
						return
					}
					if !reflect.DeepEqual(f.Rules, alone) {
						c.Fail("rules differ alone and together, in details of their trees")
						return
					}
					var wantText bytes.Buffer
					var wantRules []string
					expandable := true
					for _, r := range alone {
						p, err := printer.Bytes(r)
						if err != nil {
							c.Fail("not printed: %v", err)
							return
						}
						wantText.Write(p)
						wantText.WriteByte('\n')
						g := &ast.File{Rules: []*ast.Rule{r}}
						if pass.ExpandAlternates(g) != nil {
							expandable = false
							break
						}
						wantRules = append(wantRules, canonRulesR(g.Rules)...)
					}
					if !expandable {
						return
					}
					p, err := printer.Bytes(f)
					if err != nil || !bytes.Equal(p, wantText.Bytes()) {
						c.Fail("printed together: error %v, %s", err, diff(wantText.String(), string(p)))
						return
					}
					if err := pass.ExpandAlternates(f); err != nil {
						c.Fail("rules that can be expanded alone cannot together: %v", err)
						return
					}
					c.Eval(2)
					if got := canonRulesR(f.Rules); !reflect.DeepEqual(got, wantRules) {
						c.Fail("expansions differ alone and together: %s", diff(strings.Join(wantRules, "\n"), strings.Join(got, "\n")))
					}
					c.Distinct(all)
				}},
				{"overwritten results", t.n(3000, 150000), func(c *Case) {
					m := cliFile(c, 1+c.n(4))
					if c.p(1, 2) {
						m = randomModel(c.RNG)
					}
					text := newRend(c.RNG).file(m)
					c.Input(text)
					f, err := parse.String(text)
					if err != nil {
						return
					}
					g, err := parse.String(text)
					if err != nil {
						c.Fail("rejected the second time: %v", err)
						return
					}
					keep := deepCopy(g)
					if !reflect.DeepEqual(f, g) {
						c.Fail("parsed differently the second time: %s", diff(canonFileR(f), canonFileR(g)))
						return
					}
					// Two rules of a file share nothing, either.
					if len(f.Rules) > 1 {
						k := c.n(len(f.Rules))
						rest := canonRulesR(f.Rules)
						scribble(reflect.ValueOf(f.Rules[k]), 0)
						for i, s := range canonRulesR(f.Rules) {
							if i != k && s != rest[i] {
								c.Fail("overwriting rule %d changed rule %d: %s", k, i, diff(rest[i], s))
								return
							}
						}
					}
					scribble(reflect.ValueOf(f), 0)
					c.Eval(2)
					if !reflect.DeepEqual(g, keep) {
						c.Fail("overwriting one result changed another: %s", diff(canonFileR(keep.(*ast.File)), canonFileR(g)))
						return
					}
					h, err := parse.String(text)
					if err != nil || !reflect.DeepEqual(h, keep) {
						c.Fail("overwriting a result changed later ones: error %v", err)
						return
					}
					p1, err := printer.Bytes(g)
					if err != nil {
						c.Fail("not printed: %v", err)
						return
					}
					s1 := string(p1)
					p2, _ := printer.Bytes(g)
					for i := range p1 {
						p1[i] = 'X'
					}
					p1 = append(p1, "XXXX"...)
					p3, _ := printer.Bytes(g)
					c.Eval(2)
					if string(p2) != s1 || string(p3) != s1 {
						c.Fail("overwriting printed bytes changed others: %s %s", diff(s1, string(p2)), diff(s1, string(p3)))
						return
					}
					for _, r := range g.Rules {
						b1, err := smt2.Generate(r)
						if err != nil {
							continue
						}
						s := string(b1)
						b2, _ := smt2.Generate(r)
						for i := range b1 {
							b1[i] = 'X'
						}
						_ = append(b1, "XXXX"...)
						b3, _ := smt2.Generate(r)
						c.Eval(1)
						if string(b2) != s || string(b3) != s {
							c.Fail("overwriting a script changed others: %s", diff(s, string(b2)))
							return
						}
						c.Hit("script overwritten")
					}
					if !reflect.DeepEqual(g, keep) {
						c.Fail("printing or generating changed the tree")
					}
					c.Distinct(text)
				}},
				{"ways to give a text", t.n(1500, 60000), func(c *Case) {
					// The same tree whatever way a text comes in, and errors that differ in the name only.
					text := mutant(c.RNG)
					if c.p(1, 2) {
						text = newRend(c.RNG).file(randomModel(c.RNG))
					}
					c.Input(text)
					f, err := parse.String(text)
					for how := 1; how <= 3; how++ {
						g, gerr, name := parseVia(c, how, text)
						c.Eval(1)
						if (err == nil) != (gerr == nil) {
							c.Fail("parsed by %s: error %v, as a string: %v", name, gerr, err)
							return
						}
						if err == nil {
							if !reflect.DeepEqual(f, g) {
								c.Fail("parsed by %s differs: %s", name, diff(canonFileR(f), canonFileR(g)))
								return
							}
							continue
						}
						if g := strings.ReplaceAll(gerr.Error(), name+":", "string:"); g != err.Error() && !strings.Contains(text, "string:") {
							c.Fail("error by %s: %s", name, diff(err.Error(), g))
							return
						}
						c.Hit("errors compared")
					}
					c.Distinct(text)
				}},
			}
		},
	})
}
