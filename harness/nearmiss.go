package main

import "strings"

// nearMisses are pieces of the language and what is written for them in other
// languages, in older rules, or by mistake.
var nearMisses = map[string][]string{
	"=>":  {"->", "==>", "=>>", "= >", "=", "==", ">", "<=", "-->", "~>", ":-", ":=", "::=", ":", "\u2192", "\u21d2", "|->", "\u21a6", "if", "to", "/", "=\t>", "=\n>", "=//\n>", "=> =>", "=>=>", ">=", "≥", "&rArr;", "\uff1d\uff1e"},
	"&&":  {"&", "& &", "and", "AND", "&&&", "&& &&", "||", ",", "if", "when", "where", ";", "\u2227", "&amp;&amp;", "#", "|", "?", "/\\", "&\n&"},
	"(":   {"[", "{", "<", "((", "\uff08", "( (", "$(", "#(", "'(", "`(", "\\(", "@(", "!("},
	")":   {"]", "}", ">", "))", "\uff09", ") )", "\\)", ");", "),", ").", "):", ")!", ")'"},
	"|":   {"/", ",", "||", "| |", " | ", "| ", " |", ";", ":", "\u2502", "\\|", "|)", "(|", "||", "\n|", "-"},
	"...": {"..", "....", "\u2026", ". . .", "...,", "......", "... ...", "&rest", "*", "...x", "x...", ".. .", "[...]", "___ ..."},
	"___": {"__", "____", "_ _ _", "_", "______", "___ ___", "\u2014", "-", "___x", "x___", "___ ...", "___ x", "[___]"},
	":":   {"::", ":=", " :", ": ", "=", "@", ":\n", "\uff1a", " : ", " as ", "."},
	"@":   {"@@", "@ ", "@\n", "#", "$", "%", "\uff20", "at ", "@(", "*"},
	"<":   {"<<", "[", "(", "\u2039", "&lt;", "< <", ":", "::<"},
	">":   {">>", "]", ")", "\u203a", "&gt;", "->", "=>"},
	"[":   {"[[", "{", "(", "[ [", "\uff3b", "#[", "[]["},
	"]":   {"]]", "}", ")", "] ]", "\uff3d", "];", ",]"},
	"{":   {"{{", "[", "(", "{ {", "${", "{}{", "{%"},
	"}":   {"}}", "]", ")", "} }", "};", ",}", "%}"},
	"//":  {"#", ";", "--", "%", "/", "/*", "\\\\", "REM ", "'", "!", "\u2215\u2215", "/ /", "(*", "<!--", "dnl ", "\"", "*", "C "},
	"\n":  {";\n", ",\n", ".\n", "\\\n", "\\n", "&\n", "\n;\n", "\n.\n", "\n---\n", "\n%%\n", "\n\f\n", "\v", "\u0085", "\u2028", "\u2029", "|\n", "\n\\\n", "\n,\n", " #\n", "\n#\n", "<br>"},
	" ":   {"\u00a0", "\u3000", "\u2009", "\v", "\f", ",", ", ", ";", "\\ ", "&nbsp;", "\u200b", "\ufeff", "\u0085", "_ ", "\x00", "\x1f"},
	"_":   {"__", "-", "*", "?", "_1", "_x", "%_", "\u203f", "nil!", "$_"},
}

var nearKeys = []string{"=>", "&&", "(", ")", "|", "...", "___", ":", "@", "<", ">", "[", "]", "{", "}", "//", "\n", " ", "_"}

func nearMissCount() (n int) {
	for _, k := range nearKeys {
		n += len(nearMisses[k])
	}
	return
}

// nearMiss returns a text in which a piece of the language, at one place or
// everywhere, is another one.
func nearMiss(r *RNG, k int) string {
	var key, repl string
	for _, key = range nearKeys {
		if v := nearMisses[key]; k < len(v) {
			repl = v[k]
			break
		} else {
			k -= len(v)
		}
	}
	var text string
	for try := 0; try < 30; try++ {
		g := newGen(r, 4+r.n(8))
		g.MaxGo = 2
		w := newRend(r)
		if r.p(1, 2) {
			w = plainRend(r)
		}
		text = w.file(g.file(1 + r.n(3)))
		if key == "//" && !strings.Contains(text, key) {
			text += "// a comment\n"
		}
		if len(text) < 1500 && strings.Contains(text, key) {
			break
		}
	}
	if r.p(1, 4) {
		return strings.ReplaceAll(text, key, repl)
	}
	n := strings.Count(text, key)
	if n == 0 {
		return text + repl
	}
	i, at := 0, r.n(n)
	for ; at > 0; at-- {
		i += strings.Index(text[i:], key) + len(key)
	}
	i += strings.Index(text[i:], key)
	return text[:i] + repl + text[i+len(key):]
}

// notes are comments that mean something to others.
var notes = []string{
	" +build ignore", "go:build ignore", "go:generate x", "go:embed x", "go:noinline", "go:linkname x y", "nolint", "export x", "line x.go:1", "line :1", " #include \"x\"", " #cgo LDFLAGS: x", " Code generated by x. DO NOT EDIT.", " Copyright 2016 The Go Authors. All rights reserved.", " SPDX-License-Identifier: BSD", " -*- coding: utf-16 -*-", " vim: set ft=go :", " Deprecated: x", " TODO(x): y", " BUG(x): y", " Output:", " Unordered output:",
	" ignore", " disabled", " off", " on", " skip", " end", " EOF", " __END__", " begin", "{", "}", "[", "]", "(", ")", " region x", " endregion", "#region", "---", "===", "***", "+++", "...", "___", "!", "!x", "?", "@", "@x", "@ignore", "$x", "$", "%", "%%", "^", "~", "|", "\\", " C:\\dir\\", "/", "//", "/ ", "*", "*/", "/*", "**/", " */", " <<EOF", "<!-- -->", "-->", ";", ":", ",", "=", "=>", "=> x", "&&", "&& x =>", "'", "\"", "`", "'''", "\"\"\"", "```", "\\n", "\\\"", "&lt;", "%d", "%!", "${x}", "{{x}}", "<x>", "<<<<<<< HEAD", "=======", ">>>>>>> x", " noopt", " cond:x", " (A x) => x", "(A", " 0", "0", "1:", "x:", "x", " x", "X", "A x", "_", "\t", " ", "\r", "  ", "é", "\u00a0",
}

// noted writes the k-th of the notes into a text at one of several places.
func noted(c *Case, k int) (*MFile, string) {
	note := "//" + notes[k%len(notes)]
	g := newGen(c.RNG, 6)
	m := g.file(2 + c.n(2))
	w := plainRend(c.RNG)
	var rules []string
	for _, r := range m.Rules {
		rules = append(rules, strings.TrimRight(w.file(one(r)), "\n"))
		w = plainRend(c.RNG)
	}
	i := 1 + c.n(len(rules)-1)
	nl := c.pick([]string{"\n", "\n", "\r\n", "\n\n"})
	switch k / len(notes) % 9 {
	case 0:
		rules[0] = note + nl + rules[0]
	case 1:
		rules[0] = nl + note + nl + nl + rules[0]
	case 2:
		rules[i] = note + nl + rules[i]
	case 3:
		rules[i] = note + nl + note + nl + rules[i]
	case 4:
		rules[i-1] += " " + note
	case 5:
		rules[len(rules)-1] += nl + note
	case 6:
		rules[len(rules)-1] += " " + note + nl
	case 7: // behind a match
		r := m.Rules[i]
		r.Cond = nil
		s := &MS{Op: lit("A"), Args: []MVal{MVar("x")}}
		r.Match = s
		r.Block = ""
		r.Result = s
		rules[i] = "(A x) " + note + nl + "=> " + note + nl + "(A x)"
	default: // within an operation
		m.Rules[i] = &MRule{Match: &MS{Op: lit("A"), Args: []MVal{MVar("x"), MVar("y")}}, Result: MVar("x")}
		rules[i] = "(A " + note + nl + "x " + note + nl + "y" + note + nl + ") => x"
	}
	return m, strings.Join(rules, nl) + c.pick([]string{"", nl})
}
