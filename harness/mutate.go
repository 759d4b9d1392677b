package main

import "strings"

var mutTokens = []string{"(", ")", "[", "]", "{", "}", "<", ">", "=>", "&&", "|", ",", ":", "@", "_", "___", "...", "__", "..", ".", "=", "&", "//", "\n", " ", "\t", "\r", "x", "A", "f(", "f(x)", "(A)", "x:", "x:(A)", "<t>", "[1]", "{s}", "@b ", "\"", "'", "`", "/", "/*", "*/", "$", "%", "\x00", "\xff", "\xc3", "é", "\ufeff", "\u00a0", "\v", "\f", "0", "9", "1a", "X", "Ab", "a.b", "!", "-", "*", ";", "#", "\\", "?", "~", "^", "=> x", "&& x", "(A|B)", "((A|B))", "(|", "|B", "()", "<>", "[]", "{}", "=>=>", "&&&&", "func", "if", "[x y]", "{f()}", "{f(}", "[a[0]]", "{a{}", "[func(){}]", "{T{1}}", "(A)=>(B)", "x=>y", "\\\n", "\r\n", "_x", "x_", "_(", "[a;b]", "[1 2]", "{x,}", "&& a b =>", "&& =>", "&& [", "{<-c}", "{a.(T)}", "{a[1:2]}", "{[]int}", "{map[a]b}", "{func()}", "{struct}", "{*p}", "{x.}", "{.x}", "{'ab'}", "{1x}", "{0x}", "{08}", "{\"a}", "[-]", "[+1+]", "{()}", "{f(a...,b)}", "{f(a,b...)}", "{a:b}", "{a=b}", "{x++}", "{a,b}", "{range x}", "{chan int}", "{&T}", "{!x}", "{...}", "{_}", "[_]", "{a.*}"}

// mutant returns a text some edits away from one of the language.
func mutant(r *RNG) string {
	var text string
	switch r.n(4) {
	case 0:
		if rules := corpusRules(); len(rules) > 0 {
			text = rules[r.n(len(rules))]
			if r.p(1, 4) {
				text += "\n" + rules[r.n(len(rules))]
			}
			break
		}
		fallthrough
	default:
		g := newGen(r, 2+r.heavy(20))
		g.MaxGo = 3
		m := g.file(1 + r.heavy(2))
		text = newRend(r).file(m)
		if len(text) > 4000 {
			text = text[:4000]
		}
	}
	n := 1 + r.heavy(4)
	for i := 0; i < n; i++ {
		text = mutate(r, text)
	}
	return text
}

func mutate(r *RNG, s string) string {
	b := []byte(s)
	at := func() int { return r.n(len(b) + 1) }
	switch r.n(12) {
	case 0, 1: // delete a byte
		if len(b) > 0 {
			i := r.n(len(b))
			return string(b[:i]) + string(b[i+1:])
		}
	case 2, 3, 4: // insert a token
		i := at()
		return string(b[:i]) + r.pick(mutTokens) + string(b[i:])
	case 5: // replace a byte
		if len(b) > 0 {
			b[r.n(len(b))] = mutTokens[r.n(len(mutTokens))][0]
		}
	case 6: // cut a piece
		if len(b) > 0 {
			i := r.n(len(b))
			j := min(len(b), i+1+r.heavy(20))
			return string(b[:i]) + string(b[j:])
		}
	case 7: // double a piece
		if len(b) > 0 {
			i := r.n(len(b))
			j := min(len(b), i+1+r.heavy(20))
			k := at()
			return string(b[:k]) + string(b[i:j]) + string(b[k:])
		}
	case 8: // truncate
		return string(b[:at()])
	case 9: // swap two bytes
		if len(b) > 1 {
			i := r.n(len(b) - 1)
			b[i], b[i+1] = b[i+1], b[i]
		}
	case 10: // exchange a structural character
		var idx []int
		for i, c := range b {
			if strings.IndexByte("()[]{}<>=&|,:@_./", c) >= 0 {
				idx = append(idx, i)
			}
		}
		if len(idx) > 0 {
			b[idx[r.n(len(idx))]] = "()[]{}<>=&|,:@_./ xA"[r.n(20)]
		}
	case 11: // delete white space
		var idx []int
		for i, c := range b {
			if c == ' ' || c == '\n' {
				idx = append(idx, i)
			}
		}
		if len(idx) > 0 {
			i := idx[r.n(len(idx))]
			return string(b[:i]) + string(b[i+1:])
		}
	}
	return string(b)
}
