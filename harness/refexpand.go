package main

import "errors"

// The reference expansion of alternates.

var errCounts = errors.New("incompatible alternatives")

// altCountOp returns the number of alternatives of an opcode, or -1 if they differ.
func altCountOp(op []MPart) int {
	n := 1
	for _, p := range op {
		if p.Alt {
			n = joinCounts(n, len(p.Alts))
		}
	}
	return n
}

func joinCounts(a, b int) int {
	switch {
	case a < 0 || b < 0:
		return -1
	case a == 1:
		return b
	case b == 1 || a == b:
		return a
	}
	return -1
}

func altCount(v MVal) int {
	s, ok := v.(*MS)
	if !ok {
		return 1
	}
	n := altCountOp(s.Op)
	for _, a := range s.Args {
		n = joinCounts(n, altCount(a))
	}
	return n
}

func hasAlts(v MVal) bool {
	s, ok := v.(*MS)
	if !ok {
		return false
	}
	for _, p := range s.Op {
		if p.Alt {
			return true
		}
	}
	for _, a := range s.Args {
		if hasAlts(a) {
			return true
		}
	}
	return false
}

// choose returns v with the i-th alternative everywhere.
func choose(v MVal, i int) MVal {
	s, ok := v.(*MS)
	if !ok {
		return cloneVal(v)
	}
	c := &MS{Binding: s.Binding, Type: s.Type, AuxInt: s.AuxInt.clone(), Aux: s.Aux.clone(), Ellipsis: s.Ellipsis, Trailing: s.Trailing}
	name := ""
	for _, p := range s.Op {
		if p.Alt {
			name += p.Alts[i]
		} else {
			name += p.Alts[0]
		}
	}
	c.Op = lit(name)
	for _, a := range s.Args {
		c.Args = append(c.Args, choose(a, i))
	}
	return c
}

func expandM(r *MRule) ([]*MRule, error) {
	n := joinCounts(altCount(r.Match), altCount(r.Result))
	if n < 0 {
		return nil, errCounts
	}
	if n == 1 {
		return []*MRule{r}, nil
	}
	var out []*MRule
	for i := 0; i < n; i++ {
		out = append(out, &MRule{Match: choose(r.Match, i), Cond: r.Cond.clone(), Block: r.Block, Result: choose(r.Result, i)})
	}
	return out, nil
}

func expandFileM(f *MFile) (*MFile, error) {
	g := &MFile{}
	for _, r := range f.Rules {
		rs, err := expandM(r)
		if err != nil {
			return nil, err
		}
		g.Rules = append(g.Rules, rs...)
	}
	return g, nil
}
