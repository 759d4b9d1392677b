package main

import "strings"

// forbidden are Go expressions, by themselves well formed, that are no part of the
// language of rules.
var forbidden = []string{
	"s[i]", "s[0]", "s[i+1]", "s[x.y]", "s[f(x)]", "s[i][j]", "f(x)[0]", "x.y[0]", "(x)[0]", "s[(i)]", `"abc"[0]`, "s[-1]", "s[*p]",
	"s[1:]", "s[:1]", "s[:]", "s[1:2]", "s[1:2:3]", "s[:2:3]", "f(x)[1:]", "x.y[:i]", "s[i:j]", "s[a:b:c]",
	"x.(T)", "x.(*T)", "x.(p.T)", "f(x).(T)", "x.(interface{})", "x.y.(T)", "(x).(int)",
	"T{}", "T{1}", "T{1, 2}", "T{a: 1}", "T{a: 1, b: x}", "p.T{}", "[]int{}", "[]int{1, 2}", "[2]int{1, 2}", "[...]int{1}", "map[a]b{}", "map[a]b{x: y}", "struct{}{}", "&T{}", "[]T{{1}, {2}}", "T[int]{}", "[][]int{{1}}",
	"func() {}", "func(x int) int { return x }", "func() bool { return true }()", "func()", "func(a int)", "func(a, b int) (c int)", "func(...int)", "func() { x++ }",
	"[]int", "[]byte(x)", "[4]int", "[n]int", "[]*T", "[]p.T", "[][]int", "[...]int",
	"map[a]b", "map[string]int", "map[a][]b", "chan int", "<-chan int", "chan<- int", "chan (<-chan int)", "struct{}", "struct{ a int }", "struct{ a, b int; c T }", "interface{}", "interface{ M() }", "interface{ ~int | string }", "any(interface{})",
	"f[int](x)", "f[int, string](x)", "p.F[T](x)", "T[int]", "T[int, string]", "m[a, b]",
	"(chan int)(x)", "(func())(nil)", "(<-chan int)(x)", "[]int(nil)", "map[a]b(x)", "struct{}(x)", "interface{}(x)", "*[]int", "(*[4]int)(x)",
}

// contexts put an expression somewhere within another that is part of the language.
var forbidContexts = []string{
	"%s", "(%s)", "((%s))", "-%s", "!%s", "*%s", "&%s", "<-%s", "f(%s)", "f(x, %s)", "f(%s, y)", "f(x, %s, y)", "f(a...)(%s)", "f(x, %s...)", "a + %s", "%s + a", "a * b + %s", "%s == 1 && y", "x && y && %s", "%s && x && 1", "a || (b && %s)", "(%s).x", "(%s).x.y", "(%s)(x)", "f((%s))", "g(f(%s))", "p.f(%s)", "p.f(x)(%s).q", "-(%s)", "!f(%s)", "x << %s", "%s << 1", "(a + %s) * 2", "f(%s) == g(x)", "f(x) == g(%s)", "f(1, \"s\", 'c', %s, 1.5)", "x.y(%s, z.w)", "%s != nil && f(x)",
}

var forbidPlaces = []string{
	"(A x) && %s => x", "(A [%s] x) => x", "(A {%s} x) => x", "(A x) => (B [%s] x)", "(A x) => (B {%s})", "(A (B <t> [%s] {s} y)) => x", "(A x:(B [1] {%s})) && c => y",
	"(A x) && a\n&& %s\n=> (B x)", "(A x) && c && %s=> @b x", "(A x) => (B (C {%s} x))",
	"(A) => (B)\n(A x) && %s => x\n(C) => (D)", "(A [%s]) && %s => (B {%s})",
}

func forbidCount() int { return len(forbidden) * len(forbidContexts) * len(forbidPlaces) }

func forbidText(k int) string {
	x := forbidden[k%len(forbidden)]
	k /= len(forbidden)
	ctx := forbidContexts[k%len(forbidContexts)]
	k /= len(forbidContexts)
	return strings.ReplaceAll(forbidPlaces[k], "%s", strings.ReplaceAll(ctx, "%s", x))
}
