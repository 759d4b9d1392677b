package main

import "strings"

// The reference printer: the canonical text of models.

func printFileM(f *MFile) string {
	var b strings.Builder
	for _, r := range f.Rules {
		printRuleM(&b, r)
		b.WriteByte('\n')
	}
	return b.String()
}

func ruleText(r *MRule) string {
	var b strings.Builder
	printRuleM(&b, r)
	return b.String()
}

func valText(v MVal) string {
	var b strings.Builder
	printValM(&b, v)
	return b.String()
}

func printRuleM(b *strings.Builder, r *MRule) {
	printValM(b, r.Match)
	if r.Cond != nil {
		b.WriteString(" && ")
		printGX(b, r.Cond)
	}
	b.WriteString(" => ")
	if r.Block != "" {
		b.WriteString("@" + r.Block + " ")
	}
	printValM(b, r.Result)
}

func opText(op []MPart) string {
	var b strings.Builder
	for _, p := range op {
		if p.Alt {
			b.WriteString("(" + strings.Join(p.Alts, "|") + ")")
		} else {
			b.WriteString(p.Alts[0])
		}
	}
	return b.String()
}

func printValM(b *strings.Builder, v MVal) {
	switch w := v.(type) {
	case MVar:
		b.WriteString(string(w))
	case *MX:
		printGX(b, w.X)
	case *MS:
		if w.Binding != "" {
			b.WriteString(w.Binding + ":")
		}
		b.WriteString("(" + opText(w.Op))
		if w.Type != "" {
			b.WriteString(" <" + w.Type + ">")
		}
		if w.AuxInt != nil {
			b.WriteString(" [")
			printGX(b, w.AuxInt)
			b.WriteString("]")
		}
		if w.Aux != nil {
			b.WriteString(" {")
			printGX(b, w.Aux)
			b.WriteString("}")
		}
		for _, a := range w.Args {
			b.WriteByte(' ')
			printValM(b, a)
		}
		if w.Ellipsis {
			b.WriteString(" ...")
		}
		if w.Trailing {
			b.WriteString(" ___")
		}
		b.WriteByte(')')
	}
}

func gxText(x *GX) string {
	var b strings.Builder
	printGX(&b, x)
	return b.String()
}

// firstTok returns the first token of the text of x.
func firstTok(x *GX) string {
	for {
		switch x.K {
		case 'i', 'l', 'u':
			return x.S
		case 'p':
			return "("
		case 's':
			return "*"
		default:
			x = x.A[0]
		}
	}
}

// lastTok returns the last token of the text of x.
func lastTok(x *GX) string {
	for {
		switch x.K {
		case 'i', 'l', 'd':
			return x.S
		case 'p', 'c':
			return ")"
		default:
			x = x.A[len(x.A)-1]
		}
	}
}

func printGX(b *strings.Builder, x *GX) {
	operand := func(op string, y *GX) {
		if !glueOK(op, firstTok(y)) {
			b.WriteByte(' ')
		}
		printGX(b, y)
	}
	switch x.K {
	case 'i', 'l':
		b.WriteString(x.S)
	case 'p':
		b.WriteByte('(')
		printGX(b, x.A[0])
		b.WriteByte(')')
	case 'u':
		b.WriteString(x.S)
		operand(x.S, x.A[0])
	case 's':
		b.WriteByte('*')
		operand("*", x.A[0])
	case 'b':
		printGX(b, x.A[0])
		if binPrec[x.S] < 4 {
			b.WriteString(" " + x.S + " ")
			printGX(b, x.A[1])
		} else {
			b.WriteString(x.S)
			operand(x.S, x.A[1])
		}
	case 'd':
		printGX(b, x.A[0])
		if x.A[0].K == 'l' {
			b.WriteByte(' ')
		}
		b.WriteString("." + x.S)
	case 'c':
		printGX(b, x.A[0])
		b.WriteByte('(')
		for i, a := range x.A[1:] {
			if i > 0 {
				b.WriteString(", ")
			}
			printGX(b, a)
		}
		if x.Ell {
			if !glueOK(lastTok(x.A[len(x.A)-1]), "...") {
				b.WriteByte(' ')
			}
			b.WriteString("...")
		}
		b.WriteByte(')')
	}
}
