package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
)

// writeFindings prints the list of rules that the known finding about comments
// within conditions affects, for /verif/known_findings.json. It is run by hand;
// no check calls it.
func writeFindings() {
	var out []finding
	add := func(where, src string) {
		bad := refParseMode(src, true)
		good := refParseMode(src, false)
		if bad.File == nil || good.File == nil || canonFileM(bad.File) == canonFileM(good.File) {
			fatal(fmt.Errorf("not a finding: %s", src))
		}
		out = append(out, finding{
			Property: "C01",
			ID:       fmt.Sprintf("K%02d", len(out)+1),
			Input:    src,
			Wrong:    canonRuleM(bad.File.Rules[0]),
			What:     "a // comment within a condition drops the rest of the condition: " + where,
		})
	}
	add("minimal", "(A x) && a // c\n && b => (B x)")
	names, texts := ruleFiles()
	for i, t := range texts {
		for _, r := range refParse(t).File.Rules {
			src := t[r.lo:r.hi]
			if refParse(src).Ambiguous {
				line, _ := lineCol(t, r.lo)
				add(fmt.Sprintf("%s line %d", filepath.Base(names[i]), line), src)
			}
		}
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"findings": out}, "", " ")
	os.Stdout.Write(append(b, '\n'))
}
