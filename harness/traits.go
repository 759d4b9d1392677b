package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"unicode"
)

// Traits are small properties of rules. Which pairs of them came together in a rule
// tells how far the workload reaches: a fault that needs two of them to show is met
// only if they meet.

type traitMeter struct {
	ids   map[string]int
	names []string
	rows  [][]uint64
	buf   map[int]bool
}

func (t *traitMeter) id(name string) int {
	if t.ids == nil {
		t.ids = map[string]int{}
	}
	k, ok := t.ids[name]
	if !ok {
		k = len(t.names)
		t.ids[name] = k
		t.names = append(t.names, name)
		t.rows = append(t.rows, nil)
	}
	return k
}

// meet records the traits of a rule.
func (t *traitMeter) meet(r *MRule, of map[string]bool) {
	traitsOf(r, of)
	ids := make([]int, 0, len(of))
	for name := range of {
		ids = append(ids, t.id(name))
	}
	words := (len(t.names) + 63) / 64
	bits := make([]uint64, words)
	for _, k := range ids {
		bits[k/64] |= 1 << (k % 64)
	}
	for _, k := range ids {
		row := t.rows[k]
		for len(row) < words {
			row = append(row, 0)
		}
		for i, b := range bits {
			row[i] |= b
		}
		t.rows[k] = row
	}
}

// Traits records what is in a file that is put to the test.
func (c *Case) Traits(m *MFile) {
	c.HitAll(m.features())
	if len(m.Rules) > 100 {
		return
	}
	for i, r := range m.Rules {
		if len(sexprsOf(r)) > 300 {
			continue
		}
		of := map[string]bool{}
		switch {
		case len(m.Rules) == 1:
			of["the only rule"] = true
		case i == 0:
			of["the first rule"] = true
		case i == len(m.Rules)-1:
			of["the last rule"] = true
		default:
			of["a rule in the middle"] = true
		}
		c.w.traits.meet(r, of)
	}
}

func upTo(n int) string {
	switch {
	case n <= 6:
		return fmt.Sprint(n)
	case n <= 12:
		return "7-12"
	case n <= 40:
		return "13-40"
	}
	return ">40"
}

func nameTraits(of map[string]bool, what, s string) {
	switch n := len([]rune(s)); {
	case n == 1, n == 2:
		of[fmt.Sprintf("%s of %d characters", what, n)] = true
	case n > 16:
		of[what+" is long"] = true
	}
	for i, r := range s {
		switch {
		case r > unicode.MaxASCII:
			of[what+" with other characters"] = true
		case r == '_' && i == 0:
			of[what+" begins with _"] = true
		case r == '_' && i == len(s)-1:
			of[what+" ends with _"] = true
		case r == '_':
			of[what+" with _"] = true
		case r >= '0' && r <= '9' && i == 0:
			of[what+" begins with a digit"] = true
		case r >= '0' && r <= '9' && i == len(s)-1:
			of[what+" ends with a digit"] = true
		case r >= 'A' && r <= 'Z' && i == 0:
			of[what+" begins with a capital"] = true
		case r == ' ':
			of[what+" with a space"] = true
		case r == '\n':
			of[what+" with a line break"] = true
		case strings.ContainsRune("()[]{}<>", r):
			of[what+" with a bracket"] = true
		case strings.ContainsRune("\"'`", r):
			of[what+" with a quote"] = true
		case r == '/' || r == '\\' || r == '%' || r == '&' || r == '=' || r == '.' || r == '*':
			of[what+" with "+string(r)] = true
		}
	}
}

func goTraits(of map[string]bool, where string, x *GX, depth int) int {
	if x == nil {
		return 0
	}
	switch x.K {
	case 'u', 'b':
		of[where+" uses "+map[byte]string{'u': "unary ", 'b': ""}[x.K]+x.S] = true
		if depth == 0 {
			of[where+" is "+map[byte]string{'u': "a unary operation", 'b': "a binary operation"}[x.K]] = true
		}
	case 'l':
		of[where+" has "+x.LK] = true
		if x.LK == "STRING" || x.LK == "CHAR" {
			nameTraits(of, "literal", x.S)
		}
		if x.LK == "INT" && len(x.S) > 10 {
			of["a long number"] = true
		}
	case 'c':
		of[fmt.Sprintf("%s has a call of %s", where, upTo(len(x.A)-1))] = true
		if x.Ell {
			of[where+" has a call with ..."] = true
		}
	case 'p':
		of[where+" has parentheses"] = true
	case 's':
		of[where+" has *"] = true
	case 'd':
		of[where+" has a selector"] = true
	case 'i':
		if depth == 0 {
			of[where+" is a name"] = true
		}
		nameTraits(of, "go name", x.S)
	}
	d := 0
	for _, a := range x.A {
		d = max(d, goTraits(of, where, a, depth+1))
	}
	if depth == 0 {
		of[fmt.Sprintf("%s of depth %s", where, upTo(d+1))] = true
	}
	return d + 1
}

// traitsOf adds the traits of a rule.
func traitsOf(r *MRule, of map[string]bool) {
	vars := [2]map[string]int{{}, {}}
	texts := map[string]int{}
	count := [2]int{}
	var val func(v MVal, side int, depth, at, n int) int
	val = func(v MVal, side int, depth, at, n int) int {
		where := [2]string{"match", "result"}[side]
		if depth > 0 {
			where += [3]string{": first", ": last", ": inner"}[map[bool]int{true: 0, false: map[bool]int{true: 1, false: 2}[at == n-1]}[at == 0]]
			if at > 5 {
				of["something at argument "+upTo(at)] = true
			}
		}
		switch w := v.(type) {
		case MVar:
			of[where+" is a variable"] = true
			if w == "_" {
				of[where+" is a placeholder"] = true
			} else {
				vars[side][string(w)]++
				nameTraits(of, "variable", string(w))
			}
			return 1
		case *MX:
			of[where+" is a call"] = true
			goTraits(of, "call", w.X, 0)
			return 1
		case *MS:
			count[side]++
			if depth > 0 {
				of[where+" is an operation"] = true
			}
			root := [2]string{"match", "result"}[side]
			if depth > 0 {
				root = "inner " + root
			}
			if w.Binding != "" {
				of[root+" has a binding"] = true
				nameTraits(of, "binding", w.Binding)
				vars[side]["bound "+w.Binding]++
			}
			if w.Type != "" {
				of[root+" has a type"] = true
				nameTraits(of, "type", w.Type)
			}
			if w.AuxInt != nil {
				of[root+" has an auxint"] = true
				goTraits(of, "auxint", w.AuxInt, 0)
			}
			if w.Aux != nil {
				of[root+" has an aux"] = true
				goTraits(of, "aux", w.Aux, 0)
			}
			if w.Ellipsis {
				of[root+" has an ellipsis"] = true
			}
			if w.Trailing {
				of[root+" has a trailing mark"] = true
			}
			of[fmt.Sprintf("%s has %s arguments", root, upTo(len(w.Args)))] = true
			lists := 0
			for i, p := range w.Op {
				if p.Alt {
					lists++
					of[fmt.Sprintf("%s has %s alternates", root, upTo(len(p.Alts)))] = true
					if i == 0 {
						of["opcode begins with alternates"] = true
					}
					if i == len(w.Op)-1 {
						of["opcode ends with alternates"] = true
					}
				}
				for _, a := range p.Alts {
					if p.Alt {
						nameTraits(of, "alternate", a)
					} else {
						nameTraits(of, "opcode", a)
					}
				}
			}
			if lists > 1 {
				of["opcode with several lists"] = true
			}
			if len(w.Op) > 1 {
				of[fmt.Sprintf("opcode of %s parts", upTo(len(w.Op)))] = true
			}
			d := 0
			for i, a := range w.Args {
				d = max(d, val(a, side, depth+1, i, len(w.Args)))
			}
			texts[canonVal(w)]++
			return d + 1
		}
		return 0
	}
	dm, dr := val(r.Match, 0, 0, 0, 1), val(r.Result, 1, 0, 0, 1)
	of["match of depth "+upTo(dm)] = true
	of["result of depth "+upTo(dr)] = true
	for side, k := range count {
		of[fmt.Sprintf("%s of %s operations", [2]string{"match", "result"}[side], upTo(k))] = true
	}
	for v, k := range vars[0] {
		bound := strings.TrimPrefix(v, "bound ")
		if k > 1 && bound == v {
			of["variable repeated in match"] = true
		}
		if k > 1 && bound != v {
			of["binding repeated"] = true
		}
		if bound == v && vars[1][v] == 0 {
			of["variable in match only"] = true
		}
		if bound != v && vars[0][bound]+vars[1][bound] > 0 {
			of["binding used as a variable"] = true
		}
	}
	for v, k := range vars[1] {
		if k > 1 {
			of["variable repeated in result"] = true
		}
		if vars[0][v] == 0 && !strings.HasPrefix(v, "bound ") {
			of["variable in result only"] = true
		}
	}
	for _, k := range texts {
		if k > 1 {
			of["operation repeated"] = true
		}
	}
	if r.Cond != nil {
		of["has a condition"] = true
		goTraits(of, "condition", r.Cond, 0)
	}
	if r.Block != "" {
		of["has a block"] = true
		nameTraits(of, "block", r.Block)
	}
	if len(of) > 400 {
		of["many traits"] = true
	}
}

func canonVal(v MVal) string {
	c := &canon{}
	c.valM(v)
	return c.b.String()
}

// write stores what was seen by a worker.
func (t *traitMeter) write(path string) error {
	b, err := json.Marshal(map[string]interface{}{"names": t.names, "rows": t.rows})
	if err != nil {
		return err
	}
	return os.WriteFile(path, b, 0o644)
}

// traitSummary joins what all workers saw.
func traitSummary(dir string, workers int) map[string]interface{} {
	var all traitMeter
	seen := map[[2]int]bool{}
	for k := 0; k < workers; k++ {
		var one struct {
			Names []string   `json:"names"`
			Rows  [][]uint64 `json:"rows"`
		}
		b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("traits%d", k)))
		if err != nil || json.Unmarshal(b, &one) != nil {
			continue
		}
		for i, row := range one.Rows {
			a := all.id(one.Names[i])
			for j := 0; j < len(row)*64; j++ {
				if row[j/64]>>(j%64)&1 == 1 && j > i {
					b := all.id(one.Names[j])
					seen[[2]int{min(a, b), max(a, b)}] = true
				}
			}
		}
	}
	if len(all.names) == 0 {
		return nil
	}
	if p := os.Getenv("VERIF_PAIRS"); p != "" { // for tuning by hand
		var missing []string
		for i := range all.names {
			for j := i + 1; j < len(all.names); j++ {
				if !seen[[2]int{i, j}] {
					missing = append(missing, all.names[i]+" & "+all.names[j])
				}
			}
		}
		os.WriteFile(p, []byte(strings.Join(missing, "\n")+"\n"), 0o644)
	}
	n := len(all.names)
	return map[string]interface{}{"traits": n, "pairs_of_traits": n * (n - 1) / 2, "pairs_seen_in_one_rule": len(seen)}
}
