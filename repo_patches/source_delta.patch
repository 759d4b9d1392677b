From 4c78ef3fb8aecbf1d7481c07a41893223d998540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:22 +0000
Subject: [PATCH 01/17] fix: accept a comment on the last line without a line
 break

---
 parse/internal/parser/zparser.go | 102 -------------------------------
 parse/rules.peg                  |   2 +-
 2 files changed, 1 insertion(+), 103 deletions(-)

diff --git a/parse/internal/parser/zparser.go b/parse/internal/parser/zparser.go
index 3e662e2..5a4e159 100644
--- a/parse/internal/parser/zparser.go
+++ b/parse/internal/parser/zparser.go
@@ -68,12 +68,6 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
 														},
 													},
 													&charClassMatcher{
@@ -114,12 +108,6 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
 														},
 													},
 													&charClassMatcher{
@@ -195,12 +183,6 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
 														},
 													},
 													&charClassMatcher{
@@ -243,12 +225,6 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
 														},
 													},
 													&charClassMatcher{
@@ -313,12 +289,6 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
-											},
 										},
 									},
 									&charClassMatcher{
@@ -361,12 +331,6 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
-											},
 										},
 									},
 									&charClassMatcher{
@@ -446,12 +410,6 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
-											},
 										},
 									},
 									&charClassMatcher{
@@ -577,12 +535,6 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
-											},
 										},
 									},
 									&charClassMatcher{
@@ -735,12 +687,6 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
 														},
 													},
 													&charClassMatcher{
@@ -793,12 +739,6 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
 														},
 													},
 													&charClassMatcher{
@@ -853,12 +793,6 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
 														},
 													},
 													&charClassMatcher{
@@ -905,12 +839,6 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
-											},
 										},
 									},
 									&charClassMatcher{
@@ -1160,12 +1088,6 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
-											},
 										},
 									},
 									&charClassMatcher{
@@ -1211,12 +1133,6 @@ var g = &grammar{
 																inverted:   true,
 															},
 														},
-														&litMatcher{
-															pos:        position{line: 202, col: 8, offset: 3662},
-															val:        "\n",
-															ignoreCase: false,
-															want:       "\"\\n\"",
-														},
 													},
 												},
 												&charClassMatcher{
@@ -1259,12 +1175,6 @@ var g = &grammar{
 																inverted:   true,
 															},
 														},
-														&litMatcher{
-															pos:        position{line: 202, col: 8, offset: 3662},
-															val:        "\n",
-															ignoreCase: false,
-															want:       "\"\\n\"",
-														},
 													},
 												},
 												&charClassMatcher{
@@ -1305,12 +1215,6 @@ var g = &grammar{
 																inverted:   true,
 															},
 														},
-														&litMatcher{
-															pos:        position{line: 202, col: 8, offset: 3662},
-															val:        "\n",
-															ignoreCase: false,
-															want:       "\"\\n\"",
-														},
 													},
 												},
 												&charClassMatcher{
@@ -1350,12 +1254,6 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
-											},
 										},
 									},
 									&charClassMatcher{
diff --git a/parse/rules.peg b/parse/rules.peg
index 8d8201f..675d62b 100644
--- a/parse/rules.peg
+++ b/parse/rules.peg
@@ -194,7 +194,7 @@ Skip <- (Comment / Whitespace / EOL)
 
 // Comments
 
-Comment <- "//" [^\n]* EOL
+Comment <- "//" [^\n]*
 
 // Character classes
 
-- 
2.43.0


From fb071fb8804378fd6391d4c85117fbbccebf2be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 02/17] fix: allow the arrow directly after a condition

---
 parse/internal/parser/zparser.go | 6 +++---
 parse/rules.peg                  | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/parse/internal/parser/zparser.go b/parse/internal/parser/zparser.go
index 5a4e159..97240c9 100644
--- a/parse/internal/parser/zparser.go
+++ b/parse/internal/parser/zparser.go
@@ -245,9 +245,6 @@ var g = &grammar{
 												expr: &seqExpr{
 													pos: position{line: 169, col: 16, offset: 3185},
 													exprs: []interface{}{
-														&anyMatcher{
-															line: 169, col: 16, offset: 3185,
-														},
 														&notExpr{
 															pos: position{line: 169, col: 18, offset: 3187},
 															expr: &litMatcher{
@@ -257,6 +254,9 @@ var g = &grammar{
 																want:       "\"=>\"",
 															},
 														},
+														&anyMatcher{
+															line: 169, col: 16, offset: 3185,
+														},
 													},
 												},
 											},
diff --git a/parse/rules.peg b/parse/rules.peg
index 675d62b..e4542da 100644
--- a/parse/rules.peg
+++ b/parse/rules.peg
@@ -166,7 +166,7 @@ Ident <- [a-z] [_a-zA-Z0-9]*
 
 // Condition
 
-Condition <- ( . !"=>" )+ {
+Condition <- ( !"=>" . )+ {
     x := string(c.text)
     x = strings.ReplaceAll(x, "\n", " ")
     x = strings.TrimSpace(x)
-- 
2.43.0


From 3016af25282384212fd2d4e94926b5a6b3aa5d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 03/17] fix: end a block name at a line break

---
 parse/internal/parser/zparser.go | 4 ++--
 parse/rules.peg                  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/parse/internal/parser/zparser.go b/parse/internal/parser/zparser.go
index 97240c9..1907e01 100644
--- a/parse/internal/parser/zparser.go
+++ b/parse/internal/parser/zparser.go
@@ -369,8 +369,8 @@ var g = &grammar{
 															pos: position{line: 184, col: 16, offset: 3443},
 															expr: &charClassMatcher{
 																pos:        position{line: 201, col: 15, offset: 3647},
-																val:        "[ \\t\\r]",
-																chars:      []rune{' ', '\t', '\r'},
+																val:        "[ \\t\\r\\n]",
+																chars:      []rune{' ', '\t', '\r', '\n'},
 																ignoreCase: false,
 																inverted:   false,
 															},
diff --git a/parse/rules.peg b/parse/rules.peg
index e4542da..f403ec5 100644
--- a/parse/rules.peg
+++ b/parse/rules.peg
@@ -181,7 +181,7 @@ Condition <- ( !"=>" . )+ {
 
 // Block
 
-Block <- '@' ( !Whitespace .)+ {
+Block <- '@' ( !( Whitespace / EOL ) . )+ {
     return string(c.text[1:]), nil
 }
 
-- 
2.43.0


From 844f026f446b705a175d8a08e6a3017eb51734d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 04/17] fix: allow line breaks within aux and call expressions

---
 parse/internal/goexpr/parse.go | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/parse/internal/goexpr/parse.go b/parse/internal/goexpr/parse.go
index 15d43ff..2745aa2 100644
--- a/parse/internal/goexpr/parse.go
+++ b/parse/internal/goexpr/parse.go
@@ -3,13 +3,15 @@ package goexpr
 import (
 	goast "go/ast"
 	goparser "go/parser"
+	goscanner "go/scanner"
 	gotoken "go/token"
+	"strings"
 
 	"github.com/mmcloughlin/ssarules/internal/errutil"
 )
 
 func Parse(x string) (goast.Expr, error) {
-	expr, err := goparser.ParseExpr(x)
+	expr, err := goparser.ParseExpr(joinlines(x))
 	if err != nil {
 		return nil, err
 	}
@@ -21,6 +23,33 @@ func Parse(x string) (goast.Expr, error) {
 	return expr, nil
 }
 
+// joinlines puts the tokens of x on one line and drops comments, since neither
+// line breaks nor comments are significant within expressions.
+func joinlines(x string) string {
+	src := []byte(x)
+	fset := gotoken.NewFileSet()
+	var s goscanner.Scanner
+	s.Init(fset.AddFile("", fset.Base(), len(src)), src, nil, 0)
+
+	var tokens []string
+	for {
+		_, tok, lit := s.Scan()
+		switch {
+		case tok == gotoken.EOF:
+			if s.ErrorCount > 0 {
+				return x // leave it to the parser to report errors
+			}
+			return strings.Join(tokens, " ")
+		case tok == gotoken.SEMICOLON && lit == "\n":
+			// automatically inserted at a line break
+		case lit != "":
+			tokens = append(tokens, lit)
+		default:
+			tokens = append(tokens, tok.String())
+		}
+	}
+}
+
 func clearpos(expr goast.Expr) error {
 	var err error
 	goast.Inspect(expr, func(node goast.Node) bool {
-- 
2.43.0


From e93632f721add6c394b86925e79e8fcb34849c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 05/17] fix: keep adjacent operators apart when printing
 expressions

---
 printer/printer.go | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/printer/printer.go b/printer/printer.go
index 5cdcc71..97a9d5c 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -192,15 +192,16 @@ func (p *printer) goexpr(expr goast.Expr) {
 		p.printf(")")
 	case *goast.UnaryExpr:
 		p.printf("%s", e.Op)
-		p.goexpr(e.X)
+		p.operand(e.Op, e.X)
 	case *goast.BinaryExpr:
 		p.goexpr(e.X)
 		if e.Op.Precedence() < gotoken.ADD.Precedence() {
 			p.printf(" %s ", e.Op)
+			p.goexpr(e.Y)
 		} else {
 			p.printf("%s", e.Op)
+			p.operand(e.Op, e.Y)
 		}
-		p.goexpr(e.Y)
 	case *goast.CallExpr:
 		p.goexpr(e.Fun)
 		p.printf("(")
@@ -216,12 +217,45 @@ func (p *printer) goexpr(expr goast.Expr) {
 		p.goexpr(e.X)
 	case *goast.SelectorExpr:
 		p.goexpr(e.X)
+		if _, ok := e.X.(*goast.BasicLit); ok {
+			p.printf(" ") // not a decimal point
+		}
 		p.printf(".%s", e.Sel)
 	default:
 		p.seterror(errutil.UnexpectedType(expr))
 	}
 }
 
+// operand prints x directly after op, keeping them apart if they would otherwise
+// read as a different token.
+func (p *printer) operand(op gotoken.Token, x goast.Expr) {
+	if lead := leadingop(x); lead != "" {
+		switch op.String() + lead {
+		case "++", "--", "&&", "&^", "/*":
+			p.printf(" ")
+		}
+	}
+	p.goexpr(x)
+}
+
+// leadingop returns the operator the printed form of x starts with, if any.
+func leadingop(x goast.Expr) string {
+	switch e := x.(type) {
+	case *goast.UnaryExpr:
+		return e.Op.String()
+	case *goast.StarExpr:
+		return gotoken.MUL.String()
+	case *goast.BinaryExpr:
+		return leadingop(e.X)
+	case *goast.CallExpr:
+		return leadingop(e.Fun)
+	case *goast.SelectorExpr:
+		return leadingop(e.X)
+	default:
+		return ""
+	}
+}
+
 func (p *printer) printf(format string, args ...interface{}) {
 	if p.err != nil {
 		return
-- 
2.43.0


From 4bc963b811a1a0a815ff7322d7b3647c608b3cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 06/17] fix: preserve the ellipsis of variadic calls

---
 parse/internal/goexpr/parse.go | 4 +++-
 printer/printer.go             | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/parse/internal/goexpr/parse.go b/parse/internal/goexpr/parse.go
index 2745aa2..8c2cfa2 100644
--- a/parse/internal/goexpr/parse.go
+++ b/parse/internal/goexpr/parse.go
@@ -66,7 +66,9 @@ func clearpos(expr goast.Expr) error {
 			n.OpPos = gotoken.NoPos
 		case *goast.CallExpr:
 			n.Lparen = gotoken.NoPos
-			n.Ellipsis = gotoken.NoPos
+			if n.Ellipsis.IsValid() {
+				n.Ellipsis = 1 // only validity is significant
+			}
 			n.Rparen = gotoken.NoPos
 		case *goast.BinaryExpr:
 			n.OpPos = gotoken.NoPos
diff --git a/printer/printer.go b/printer/printer.go
index 97a9d5c..cadc806 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -211,6 +211,9 @@ func (p *printer) goexpr(expr goast.Expr) {
 			}
 			p.goexpr(arg)
 		}
+		if e.Ellipsis.IsValid() {
+			p.printf("...")
+		}
 		p.printf(")")
 	case *goast.StarExpr:
 		p.printf("*")
-- 
2.43.0


From 8ecc9885837be09b78a9138999d06623c99073b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 07/17] fix: visit bindings, conditions and aux expressions
 when walking

---
 ast/walk.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ast/walk.go b/ast/walk.go
index 98ff516..5dc040b 100644
--- a/ast/walk.go
+++ b/ast/walk.go
@@ -24,10 +24,22 @@ func Walk(v Visitor, node Node) {
 
 	case *Rule:
 		Walk(v, n.Match)
+		if n.Condition != nil {
+			Walk(v, n.Condition)
+		}
 		Walk(v, n.Result)
 
 	case *SExpr:
+		if n.Binding != "" {
+			Walk(v, n.Binding)
+		}
 		Walk(v, n.Op)
+		if n.AuxInt != nil {
+			Walk(v, n.AuxInt)
+		}
+		if n.Aux != nil {
+			Walk(v, n.Aux)
+		}
 		for _, arg := range n.Args {
 			Walk(v, arg)
 		}
-- 
2.43.0


From 7ed7d28bd0b73b45ad2d1c3b43aa556b34e0175d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 08/17] fix: print opcode alternates as a node of their own

---
 printer/printer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/printer/printer.go b/printer/printer.go
index cadc806..11b01a4 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -60,6 +60,9 @@ func (p *printer) node(node ast.Node) {
 	case ast.Op:
 		p.op(n)
 
+	case ast.OpPart:
+		p.oppart(n)
+
 	default:
 		p.seterror(errutil.UnexpectedType(node))
 	}
-- 
2.43.0


From 8bb8f56ff74aa54de08a7471cbbc886b0a7bc836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 09/17] fix: do not panic on a single opcode alternate next to
 several

---
 pass/alt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pass/alt.go b/pass/alt.go
index 7100a47..ca07294 100644
--- a/pass/alt.go
+++ b/pass/alt.go
@@ -164,7 +164,7 @@ func expandopcodeparts(parts ast.OpcodeParts) ([]ast.Opcode, error) {
 			case ast.Opcode:
 				alts[i] += p
 			case ast.OpcodeAlt:
-				alts[i] += p[i]
+				alts[i] += p[idx(i, len(p))]
 			default:
 				return nil, errutil.UnexpectedType(part)
 			}
-- 
2.43.0


From b35e32a3190d728160f1f26367afc9a8e2dac0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 10/17] fix: reject repeated type, auxint and aux operands

---
 parse/internal/parser/zparser.go | 9 +++++++++
 parse/rules.peg                  | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/parse/internal/parser/zparser.go b/parse/internal/parser/zparser.go
index 1907e01..f35d5fe 100644
--- a/parse/internal/parser/zparser.go
+++ b/parse/internal/parser/zparser.go
@@ -1436,10 +1436,19 @@ func (c *current) onSExpr1(binding, op, operands, ellipsis, trailing interface{}
 	for _, is := range operands.([]interface{}) {
 		switch operand := is.([]interface{})[1].(type) {
 		case ast.Type:
+			if s.Type != "" {
+				return nil, errors.New("multiple type operands")
+			}
 			s.Type = operand
 		case *valueauxint:
+			if s.AuxInt != nil {
+				return nil, errors.New("multiple auxint operands")
+			}
 			s.AuxInt = (*ast.Expr)(operand)
 		case *valueaux:
+			if s.Aux != nil {
+				return nil, errors.New("multiple aux operands")
+			}
 			s.Aux = (*ast.Expr)(operand)
 		case ast.Value:
 			s.Args = append(s.Args, operand)
diff --git a/parse/rules.peg b/parse/rules.peg
index f403ec5..36dc8ad 100644
--- a/parse/rules.peg
+++ b/parse/rules.peg
@@ -58,10 +58,19 @@ SExpr <- binding:( Variable ':' )? '(' _ op:Op operands:( __ Operand )* ellipsis
     for _, is := range operands.([]interface{}) {
         switch operand := is.([]interface{})[1].(type) {
         case ast.Type:
+            if s.Type != "" {
+                return nil, errors.New("multiple type operands")
+            }
             s.Type = operand
         case *valueauxint:
+            if s.AuxInt != nil {
+                return nil, errors.New("multiple auxint operands")
+            }
             s.AuxInt = (*ast.Expr)(operand)
         case *valueaux:
+            if s.Aux != nil {
+                return nil, errors.New("multiple aux operands")
+            }
             s.Aux = (*ast.Expr)(operand)
         case ast.Value:
             s.Args = append(s.Args, operand)
-- 
2.43.0


From ee2c322c962846d5fe0d981e1952fdf21bc1473e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 11/17] fix: declare a constant of its own for every
 placeholder

---
 smt2/generate.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/smt2/generate.go b/smt2/generate.go
index 503f952..d3e4b51 100644
--- a/smt2/generate.go
+++ b/smt2/generate.go
@@ -31,6 +31,8 @@ type generator struct {
 	ops  map[ast.Opcode]operation
 	vars map[ast.Variable]*value
 	err  error
+
+	placeholders int // number of placeholders declared
 }
 
 func (g *generator) generate(r *ast.Rule) error {
@@ -62,6 +64,10 @@ func (g *generator) generate(r *ast.Rule) error {
 	}
 
 	// Result
+	if ast.Contains(r.Result, isplaceholder) {
+		return errors.New("placeholder in result")
+	}
+
 	result, err := g.eval(r.Result, match.Type)
 	if err != nil {
 		return err
@@ -91,8 +97,15 @@ func (g *generator) eval(val ast.Value, t gotypes.Type) (*value, error) {
 }
 
 func (g *generator) variable(v ast.Variable, t gotypes.Type) (*value, error) {
+	// Every placeholder stands for a value of its own.
+	name := v
+	if v == ast.Placeholder {
+		g.placeholders++
+		name = ast.Variable(fmt.Sprintf("_%d", g.placeholders))
+	}
+
 	// Has variable been declared already?
-	if val, ok := g.vars[v]; ok {
+	if val, ok := g.vars[name]; ok {
 		if t != nil && !gotypes.Identical(val.Type, t) {
 			return nil, fmt.Errorf("inconsistent types for variable %s", v)
 		}
@@ -109,13 +122,18 @@ func (g *generator) variable(v ast.Variable, t gotypes.Type) (*value, error) {
 		return nil, fmt.Errorf("declare %s: %w", v, err)
 	}
 
-	g.printf("(declare-const %s %s)\n", v, s)
-	g.vars[v] = &value{
-		Expr: string(v),
+	g.printf("(declare-const %s %s)\n", name, s)
+	g.vars[name] = &value{
+		Expr: string(name),
 		Type: t,
 	}
 
-	return g.vars[v], nil
+	return g.vars[name], nil
+}
+
+func isplaceholder(n ast.Node) bool {
+	v, ok := n.(ast.Variable)
+	return ok && v == ast.Placeholder
 }
 
 func typesort(t gotypes.Type) (string, error) {
-- 
2.43.0


From 86fcf5322c7145942162d65205b01bc26e87bee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 12/17] fix: do not use SMT-LIB symbols as names of variables

---
 smt2/generate.go | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/smt2/generate.go b/smt2/generate.go
index d3e4b51..2d0e986 100644
--- a/smt2/generate.go
+++ b/smt2/generate.go
@@ -122,15 +122,43 @@ func (g *generator) variable(v ast.Variable, t gotypes.Type) (*value, error) {
 		return nil, fmt.Errorf("declare %s: %w", v, err)
 	}
 
-	g.printf("(declare-const %s %s)\n", name, s)
+	g.printf("(declare-const %s %s)\n", symbol(name), s)
 	g.vars[name] = &value{
-		Expr: string(name),
+		Expr: symbol(name),
 		Type: t,
 	}
 
 	return g.vars[name], nil
 }
 
+// symbol returns the SMT-LIB symbol for a variable. Names with a meaning of their
+// own in SMT-LIB are marked with a character that cannot occur in variables.
+func symbol(v ast.Variable) string {
+	if reserved[v] || strings.HasPrefix(string(v), "bv") {
+		return string(v) + "!"
+	}
+	return string(v)
+}
+
+// reserved is the set of SMT-LIB reserved words, and function symbols of the core
+// and bit vector theories, that are variable names. Symbols starting with "bv" are
+// left out.
+var reserved = map[ast.Variable]bool{
+	// Reserved words.
+	"as": true, "exists": true, "forall": true, "lambda": true, "let": true, "match": true, "par": true,
+
+	// Commands.
+	"assert": true, "echo": true, "exit": true, "pop": true, "push": true, "reset": true,
+
+	// Core theory.
+	"and": true, "distinct": true, "false": true, "ite": true, "not": true, "or": true, "true": true, "xor": true,
+
+	// Bit vectors.
+	"concat": true, "extract": true, "repeat": true, "rotate_left": true, "rotate_right": true,
+	"sign_extend": true, "zero_extend": true,
+	"int_to_bv": true, "sbv_to_int": true, "ubv_to_int": true,
+}
+
 func isplaceholder(n ast.Node) bool {
 	v, ok := n.(ast.Variable)
 	return ok && v == ast.Placeholder
-- 
2.43.0


From 8bebed2afec3eca4b822b129f29c545ed2b9d027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:33 +0000
Subject: [PATCH 13/17] fix: accept files without rules

A file of nothing but comments or white space was rejected, unlike an empty one.
---
 parse/internal/parser/zparser.go | 36 ++++++++++++++++++++++++++++++++
 parse/rules.peg                  |  2 +-
 2 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/parse/internal/parser/zparser.go b/parse/internal/parser/zparser.go
index f35d5fe..ff4f6ef 100644
--- a/parse/internal/parser/zparser.go
+++ b/parse/internal/parser/zparser.go
@@ -124,6 +124,42 @@ var g = &grammar{
 								},
 							},
 						},
+						&zeroOrMoreExpr{
+							pos: position{line: 191, col: 6, offset: 3525},
+							expr: &choiceExpr{
+								pos: position{line: 193, col: 10, offset: 3541},
+								alternatives: []interface{}{
+									&seqExpr{
+										pos: position{line: 197, col: 12, offset: 3594},
+										exprs: []interface{}{
+											&litMatcher{
+												pos:        position{line: 197, col: 12, offset: 3594},
+												val:        "//",
+												ignoreCase: false,
+												want:       "\"//\"",
+											},
+											&zeroOrMoreExpr{
+												pos: position{line: 197, col: 17, offset: 3599},
+												expr: &charClassMatcher{
+													pos:        position{line: 197, col: 17, offset: 3599},
+													val:        "[^\\n]",
+													chars:      []rune{'\n'},
+													ignoreCase: false,
+													inverted:   true,
+												},
+											},
+										},
+									},
+									&charClassMatcher{
+										pos:        position{line: 201, col: 15, offset: 3647},
+										val:        "[ \\t\\r\\n]",
+										chars:      []rune{' ', '\t', '\r', '\n'},
+										ignoreCase: false,
+										inverted:   false,
+									},
+								},
+							},
+						},
 						&notExpr{
 							pos: position{line: 203, col: 8, offset: 3674},
 							expr: &anyMatcher{
diff --git a/parse/rules.peg b/parse/rules.peg
index 36dc8ad..ab60d40 100644
--- a/parse/rules.peg
+++ b/parse/rules.peg
@@ -16,7 +16,7 @@ type (
 
 // File
 
-File <- rs:( _ Rule _ )* EOF {
+File <- rs:( _ Rule _ )* _ EOF {
     f := &ast.File{}
     for _, i := range rs.([]interface{}) {
         r := i.([]interface{})[1].(*ast.Rule)
-- 
2.43.0


From 50f0131e5c2af54fdcdf8d85e337ae32f465bd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:50 +0000
Subject: [PATCH 14/17] fix: print the ellipsis apart from an integer literal

f(1 ...) was printed as f(1...), which reads as 1. followed by two dots.
---
 printer/printer.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/printer/printer.go b/printer/printer.go
index 11b01a4..70a176d 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -215,6 +215,9 @@ func (p *printer) goexpr(expr goast.Expr) {
 			p.goexpr(arg)
 		}
 		if e.Ellipsis.IsValid() {
+			if endsinint(e.Args[len(e.Args)-1]) {
+				p.printf(" ") // not a decimal point
+			}
 			p.printf("...")
 		}
 		p.printf(")")
@@ -262,6 +265,22 @@ func leadingop(x goast.Expr) string {
 	}
 }
 
+// endsinint reports whether the printed form of x ends with an integer literal.
+func endsinint(x goast.Expr) bool {
+	switch e := x.(type) {
+	case *goast.BasicLit:
+		return e.Kind == gotoken.INT
+	case *goast.UnaryExpr:
+		return endsinint(e.X)
+	case *goast.StarExpr:
+		return endsinint(e.X)
+	case *goast.BinaryExpr:
+		return endsinint(e.Y)
+	default:
+		return false
+	}
+}
+
 func (p *printer) printf(format string, args ...interface{}) {
 	if p.err != nil {
 		return
-- 
2.43.0


From 39465d9dda91365dedc647180653114afd1d13f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:24 +0000
Subject: [PATCH 15/17] fix: write to the output directory as it is given

To join paths cleans them, and so -outdir link/.. wrote to the directory of the
link, rather than to the one above its target.
---
 cmd/ssarules/main.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/ssarules/main.go b/cmd/ssarules/main.go
index f54e8b0..da644da 100644
--- a/cmd/ssarules/main.go
+++ b/cmd/ssarules/main.go
@@ -36,6 +36,12 @@ func run() error {
 		return err
 	}
 
+	// The output directory is not cleaned, since ".." after a link would be another one.
+	prefix := *outdir
+	if prefix != "" && prefix[len(prefix)-1] != filepath.Separator {
+		prefix += string(filepath.Separator)
+	}
+
 	// Generate SMT.
 	for i, r := range f.Rules {
 		rule, err := printer.Bytes(r)
@@ -50,7 +56,7 @@ func run() error {
 			continue
 		}
 
-		filename := filepath.Join(*outdir, fmt.Sprintf("%04d.smt2", i))
+		filename := prefix + fmt.Sprintf("%04d.smt2", i)
 		if err := ioutil.WriteFile(filename, b, 0644); err != nil {
 			return err
 		}
-- 
2.43.0


From 34f17cf72e28cb48a479d776fb6ab2567fe0b783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:09 +0000
Subject: [PATCH 16/17] fix: report a call with an ellipsis but no argument
 when printing

It made the printer panic.
---
 printer/printer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/printer/printer.go b/printer/printer.go
index 70a176d..a026a95 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -215,6 +215,10 @@ func (p *printer) goexpr(expr goast.Expr) {
 			p.goexpr(arg)
 		}
 		if e.Ellipsis.IsValid() {
+			if len(e.Args) == 0 {
+				p.seterror(errutil.AssertionFailure("ellipsis without argument"))
+				return
+			}
 			if endsinint(e.Args[len(e.Args)-1]) {
 				p.printf(" ") // not a decimal point
 			}
-- 
2.43.0


From 6d4826ef0586feb0b48bf248f0f784752f89962a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:09 +0000
Subject: [PATCH 17/17] fix: report a selector without a name when printing

It was printed as <nil>.
---
 printer/printer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/printer/printer.go b/printer/printer.go
index a026a95..2dac654 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -229,6 +229,10 @@ func (p *printer) goexpr(expr goast.Expr) {
 		p.printf("*")
 		p.goexpr(e.X)
 	case *goast.SelectorExpr:
+		if e.Sel == nil {
+			p.seterror(errutil.AssertionFailure("selector without name"))
+			return
+		}
 		p.goexpr(e.X)
 		if _, ok := e.X.(*goast.BasicLit); ok {
 			p.printf(" ") // not a decimal point
-- 
2.43.0

