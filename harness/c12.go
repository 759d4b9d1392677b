package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/mmcloughlin/ssarules/smt2"
)

// runCLI runs the command in a directory.
func runCLI(c *Case, dir string, args ...string) (exit int, stdout, stderr string) {
	return runProgram(c, dir, os.Getenv("SSARULES_CLI"), args...)
}

// crash is what the end of a Go program that does not end by itself looks like.
var crash = regexp.MustCompile(`(?m)^goroutine \d+ (gp=\S+ m=\S+ mp=\S+ )?\[[a-z0-9, ]+\]:$`)

func runProgram(c *Case, dir, prog string, args ...string) (exit int, stdout, stderr string) {
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, prog, args...)
	cmd.Dir = dir
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	err := cmd.Run()
	if ctx.Err() != nil {
		c.Fail("the command did not end")
	} else if _, ok := err.(*exec.ExitError); err != nil && !ok {
		c.Error("%v", err)
	}
	if cmd.ProcessState == nil {
		return -2, "", ""
	}
	if crash.MatchString(errs.String()) {
		c.Fail("the command crashes: %s", short(errs.String()))
	}
	return cmd.ProcessState.ExitCode(), out.String(), errs.String()
}

// workdir returns an empty directory.
func workdir(c *Case) string {
	dir := filepath.Join(c.Scratch(), "work")
	if err := os.RemoveAll(dir); err != nil {
		c.Error("%v", err)
	}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		c.Error("%v", err)
	}
	return dir
}

// snapshot reads all files of a directory.
func snapshot(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		switch {
		case info.Mode().IsRegular():
			b, err := os.ReadFile(p)
			if err != nil {
				m[rel] = "unreadable: " + err.Error()
			} else {
				m[rel] = "file " + string(b)
			}
		default:
			m[rel] = info.Mode().Type().String()
		}
		return nil
	})
	return m
}

func diffSnapshots(want, got map[string]string) string {
	var keys []string
	for k := range want {
		keys = append(keys, k)
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		w, okw := want[k]
		g, okg := got[k]
		switch {
		case !okg:
			return fmt.Sprintf("%s is missing", k)
		case !okw:
			return fmt.Sprintf("%s should not exist: %s", k, short(g))
		case w != g:
			return fmt.Sprintf("%s: %s", k, diff(w, g))
		}
	}
	return ""
}

func simpleRule(r *MRule) bool {
	if r.Cond != nil || r.Block != "" {
		return false
	}
	for _, s := range sexprsOf(r) {
		for _, p := range predicates {
			if p.has(s) {
				return false
			}
		}
	}
	return true
}

// withSizes replaces the sizes of the operations of a rule by alternates.
func withSizes(r *MRule, sizes []string) *MRule {
	r = r.clone()
	for _, s := range sexprsOf(r) {
		n := strings.TrimSuffix(s.Op[0].Alts[0], "64")
		s.Op = []MPart{{Alts: []string{n}}, {Alt: true, Alts: sizes}}
	}
	return r
}

// cliRule returns a rule of one of the kinds the command tells apart.
func cliRule(c *Case) *MRule {
	switch c.n(9) {
	case 0, 1:
		g := newSMTGen(c.RNG, 3)
		g.hole = 5 * c.n(2)
		return g.rule(smtWidths[c.n(5)], 1+c.n(3)).clone()
	case 2, 3:
		g := newSMTGen(c.RNG, 3)
		sizes := []string{"8", "16", "32", "64"}
		c.shuffle(4, func(i, j int) { sizes[i], sizes[j] = sizes[j], sizes[i] })
		if c.p(1, 4) {
			sizes[c.n(4)] = "128"
		}
		return withSizes(g.rule(64, 1+c.n(2)), sizes[:2+c.n(3)])
	case 4:
		return bare(c.RNG, 3+c.n(8))
	case 5:
		// Supported but for one thing.
		g := newSMTGen(c.RNG, 3)
		m := g.rule(smtWidths[c.n(5)], 1+c.n(3)).clone()
		damage(c, newGen(c.RNG, 4), m, c.n(17))
		return m
	case 6:
		return consistentModel(c.RNG, 1).Rules[0]
	default:
		g := newGen(c.RNG, 3+c.n(10))
		g.Alts = 0
		return g.rule()
	}
}

// cliFile returns a file of such rules, all of which can be expanded if they are
// simple.
func cliFile(c *Case, n int) *MFile {
	f := &MFile{}
	for len(f.Rules) < n {
		r := cliRule(c)
		if res := refParse(ruleText(r)); res.File == nil || len(res.File.Rules) != 1 || canonRuleM(res.File.Rules[0]) != canonRuleM(r) {
			continue // a list of one alternative has no text
		}
		if simpleRule(r) {
			if _, err := expandM(r); err != nil {
				continue
			}
		}
		f.Rules = append(f.Rules, r)
	}
	return f
}

// expectCLI returns what the command writes and reports.
func expectCLI(c *Case, files []*MFile, names []string, outdir string) (scripts map[string]string, report []string, err error) {
	scripts = map[string]string{}
	total := 0
	var simple []*MRule
	for i, f := range files {
		report = append(report, fmt.Sprintf("parsed %d rules from %s", len(f.Rules), names[i]))
		total += len(f.Rules)
		for _, r := range f.Rules {
			if simpleRule(r) {
				simple = append(simple, r)
			}
		}
	}
	report = append(report, fmt.Sprintf("parsed %d rules total", total))
	report = append(report, fmt.Sprintf("filter simple: %d rules", len(simple)))
	var all []*MRule
	for _, r := range simple {
		rs, err := expandM(r)
		if err != nil {
			return nil, report, err
		}
		all = append(all, rs...)
	}
	report = append(report, fmt.Sprintf("expand alternates: %d rules", len(all)))
	for i, r := range all {
		report = append(report, "rule: "+ruleText(r))
		ref, why := smtMeaning(r)
		if ref == nil {
			report = append(report, "error: some reason")
			c.Hit("reported: " + why)
			continue
		}
		b, err := smt2.Generate(toRepoRule(r))
		if err != nil {
			b = []byte("GENERATE FAILED")
		}
		name := fmt.Sprintf("%04d.smt2", i)
		scripts[name] = "file " + string(b)
		if outdir != "" {
			name = outdir + "/" + name
		}
		report = append(report, "smt2: written to "+name)
	}
	// Names may have line breaks in them.
	return scripts, reportLines(strings.Join(report, "\n")), nil
}

// reportLines returns the lines of the standard error output that matter.
func reportLines(stderr string) []string {
	var out []string
	for _, l := range strings.Split(stderr, "\n") {
		l = strings.TrimPrefix(l, "ssarules: ")
		for _, p := range []string{"parsed ", "filter simple: ", "expand alternates: ", "rule: ", "error: ", "smt2: written to "} {
			if strings.HasPrefix(l, p) {
				if p == "error: " {
					if l == p {
						l = "error without a reason"
					} else {
						l = p
					}
				}
				out = append(out, l)
			}
		}
	}
	return out
}

// manyFiles are numbers of input files: beyond 8 bits, beyond the files that may be
// open at the same time (often 1,024), and more.
var manyFiles = []int{100, 129, 255, 256, 257, 300, 513, 1023, 1024, 1025, 1100, 2049, 4097, 8193}

var longSizes = []int{80, 120, 128, 200, 256, 500, 512, 1000, 1024, 2000, 2048, 4096, 8192, 10000, 16384, 32768, 65536, 70000, 131072}

// cliSetup writes the inputs and things that are in the way.
func cliSetup(c *Case, dir string, texts []string) (names []string, outdir string, args []string) {
	base := []string{"a.rules", "b.rules", "c d.rules", "é.rules", "sub/e.rules", "f", "g.rules.txt", "%d.rules",
		"-", "[ab].rules", "*.rules", "?", "$HOME.rules", "${X}", "~", "~/h", "b.rules,f", "a:b", "@f", " i.rules", "j ", "k\\.rules", "{a,b}.rules",
		"#l", "sub/0000.smt2", "sub/0001.smt2", "m.gz", "A.RULES", "sub/-", "n=1", "--", "-o.rules", "..p", "%2e", "+", "!a", "a.rules;b", "\"q\"", "'r'", "c:\\s", strings.Repeat("l", 100), strings.Repeat("é", 120), "s.RULES", "t.json", "u.smt2", "0000.smt2.rules", "v.rules.", ".w", "x.go", "1", "0x1", "stdin", "nul", "true", "e\u0301.rules", "\xff.rules", "\t.rules",
		"nl\n", "nl\nx.rules", "cr.rules\r", "crlf\r\n", " ", "sp.rules ", "tab.rules\t", "\n", "nb\u00a0", "nul\\0", "a.rules\n\n",
		"a.rules~", "a.rules.bak", "a.rules.orig", "a.rules.swp", "#a.rules#", ".#a.rules", "a_test.rules", "_a.rules", ".rules", ".a.rules", "core", "vendor", "testdata", "a.rules,v", "a.out",
		"sub//e2.rules", "./e3.rules", "./sub/./e4.rules", "sub/../e5.rules", "l/e6.rules", "l/../e7.rules", "l/../../e8.rules", "sub/l2/../e9.rules", "deep//er/e0.rules"}
	c.shuffle(len(base), func(i, j int) { base[i], base[j] = base[j], base[i] })
	os.MkdirAll(filepath.Join(dir, "sub"), 0o755)
	os.MkdirAll(filepath.Join(dir, "~"), 0o755)
	// Where ".." is not what it seems to be.
	os.MkdirAll(filepath.Join(dir, "deep", "er"), 0o755)
	os.MkdirAll(filepath.Join(dir, "deep", "o"), 0o755)
	os.Symlink(filepath.Join("deep", "er"), filepath.Join(dir, "l"))
	os.Symlink(filepath.Join("..", "deep", "er"), filepath.Join(dir, "sub", "l2"))
	byText := map[string]string{}
	dashes := false
	for i, t := range texts {
		n := base[i%len(base)]
		if i >= len(base) {
			n = fmt.Sprintf("n%d.rules", i)
		}
		if n == "~" {
			n = "~~"
		}
		if old, ok := byText[t]; ok && c.p(2, 3) {
			// The same file again, perhaps by another name.
			if c.p(1, 2) && !filepath.IsAbs(old) {
				old = []string{"./", "sub/../", dir + "/"}[c.n(3)] + old
			}
			c.Hit("a file given twice")
			names = append(names, old)
			continue
		}
		if c.p(1, 4) {
			n = dir + "/" + n
		}
		byText[t] = n
		if strings.HasPrefix(n, "-") && n != "-" {
			dashes = true
		}
		names = append(names, n)
		p := n
		if !filepath.IsAbs(p) {
			p = dir + "/" + p
		}
		if c.p(1, 10) {
			// By way of a link.
			q := filepath.Join(dir, fmt.Sprintf("linked%d", i))
			if os.Symlink(q, p) == nil {
				p = q
			}
		}
		if err := os.WriteFile(p, []byte(t), 0o644); err != nil {
			c.Error("%v", err)
		}
	}
	outdirs := []string{"", "out", "out/", "./out", filepath.Join(dir, "out"), "sub/../out", "o u%t", "o$x", "${HOME}", "~", "[o]", "*", "o,p", "-o", "o\\", ".", "%2f", "ö",
		" o", "o ", "\to", "~/o", "~root", "@o", "=o", "'o'", "\"o\"", "O", "o.rules", "o#", "out//", "out/.", "out/./", ".//out", "sub/0000.smt2.d", strings.Repeat("o", 200), "\xff", "o:p", "o;p", "c:\\o", "+o", "-x", "--o", "o=1",
		"l", "l/", "l/.", "l/../o", "l/..", "l/../", "sub/l2/../o", dir + "/l/../o", dir + "/l/..", dir + "//out",
		"o\n", "o\r", "\no", "o\nx", "o\u00a0"}
	outdir = outdirs[c.n(len(outdirs))]
	if outdir != "" && !filepath.IsAbs(outdir) {
		os.MkdirAll(dir+"/"+outdir, 0o755)
	}
	os.MkdirAll(filepath.Join(dir, "out"), 0o755)
	os.MkdirAll(filepath.Join(dir, "o"), 0o755)
	if c.p(1, 3) {
		decoys(c, dir, names)
	}
	// Old files, some in the way.
	for i := 0; i < c.n(6); i++ {
		p := outPath(dir, outdir)
		name := fmt.Sprintf("%04d.smt2", c.n(12))
		os.WriteFile(filepath.Join(p, name), bytes.Repeat([]byte("(old)\n"), c.n(400)), 0o644)
		os.WriteFile(filepath.Join(p, "other.txt"), []byte("other"), 0o644)
	}
	switch {
	case outdir == "" && c.p(1, 2):
	case c.p(1, 3):
		args = append(args, "-outdir="+outdir)
	case c.p(1, 2):
		args = append(args, "--outdir", outdir)
	default:
		args = append(args, "-outdir", outdir)
	}
	if dashes || c.p(1, 10) {
		args = append(args, "--")
	} else if len(names) > 0 && names[0] == "--" {
		args = append(args, "--")
	}
	args = append(args, names...)
	return
}

// decoys puts files where others are that the names of the inputs would mean if
// anything in them was taken for more than a part of the name.
func decoys(c *Case, dir string, names []string) {
	list := strings.Join(names, "\n") + "\n"
	for _, n := range names {
		if filepath.IsAbs(n) {
			continue
		}
		var cand []string
		if t := strings.TrimLeft(n, "@-+!#=%~:.\"' "); t != n {
			cand = append(cand, t)
		}
		cand = append(cand, strings.TrimSpace(n), strings.Trim(n, "\"'"), n[1:], n[:len(n)-1])
		cand = append(cand, strings.FieldsFunc(n, func(r rune) bool { return strings.ContainsRune(" ,;:=", r) })...)
		cand = append(cand, strings.TrimSuffix(n, filepath.Ext(n)), n+".rules", n+".gz", n+".bak", n+"~", strings.ToLower(n), strings.ToUpper(n), os.ExpandEnv(n), filepath.Base(n), filepath.Clean(n), strings.TrimRight(n, "~"), strings.ReplaceAll(n, "\\", "/"), strings.ReplaceAll(n, "%", "%%"), strings.ReplaceAll(n, "%2e", "."), norm(n))
		for _, d := range cand {
			if d == "" || d == n || !c.p(1, 4) {
				continue
			}
			p := filepath.Join(dir, d)
			if rel, err := filepath.Rel(dir, p); err != nil || rel == "." || strings.HasPrefix(rel, "..") {
				continue
			}
			if _, err := os.Lstat(p); err == nil {
				continue
			}
			if os.WriteFile(p, []byte(c.pick([]string{list, n + "\n", "(Decoy x) => x\n", "", "(", "none.rules\n", "other.rules none.rules"})), 0o644) == nil {
				c.Hit("a decoy")
			}
		}
	}
}

// norm spells an accent another way.
func norm(s string) string {
	return strings.NewReplacer("é", "e\u0301", "ö", "o\u0308").Replace(s)
}

// outPath returns the path of an output directory, without links.
func outPath(dir, outdir string) string {
	p := outdir
	if !filepath.IsAbs(p) {
		p = dir + "/" + p
	}
	if q, err := filepath.EvalSymlinks(p); err == nil {
		return q
	}
	return p
}

// sameReport tells if a line of a report is the expected one. A script may be named
// in any way that leads to it.
func sameReport(dir, want, got string) bool {
	const p = "smt2: written to "
	if want == got {
		return true
	}
	if !strings.HasPrefix(want, p) || !strings.HasPrefix(got, p) {
		return false
	}
	var infos [2]os.FileInfo
	for i, s := range []string{want, got} {
		s = s[len(p):]
		if !filepath.IsAbs(s) {
			s = dir + "/" + s
		}
		info, err := os.Stat(s)
		if err != nil {
			return false
		}
		infos[i] = info
	}
	return os.SameFile(infos[0], infos[1])
}

// inTheWay are names of files that a careless program may use for its own.
var inTheWay = []string{"%s.tmp", "%s~", "%s.bak", "%s.new", "%s.old", "%s.part", "%s.swp", "%s.lock", ".%s", ".%s.tmp", "#%s#", "tmp-%s", "%s.1", "%s.gz", "tmp", ".tmp", "temp", "log", "index", "lock", ".lock", "out", "rules", "a.out", "ssarules.log"}

// oldFiles puts files in the way of the scripts that are going to be written, and
// next to them.
func oldFiles(c *Case, dir, outdir string, scripts map[string]string) {
	p := outPath(dir, outdir)
	var names []string
	for n := range scripts {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if !c.p(1, 4) || len(names) > 100 {
			continue
		}
		if _, err := os.Lstat(filepath.Join(p, n)); err == nil {
			continue // an input, perhaps
		}
		b := []byte(strings.TrimPrefix(scripts[n], "file "))
		old := append([]byte(nil), b...)
		switch c.n(6) {
		case 0:
			old[c.n(len(old))] ^= 1
		case 1:
			old = old[:c.n(len(old))]
		case 2:
			old = append(old, "(check-sat)\n"...)
		case 3:
			old = bytes.Replace(old, []byte("bv"), []byte("BV"), 1)
		case 4:
			old = bytes.Repeat([]byte(";"), len(old))
		}
		q := filepath.Join(p, n)
		os.WriteFile(q, old, 0o644)
		when := time.Now().Add(time.Duration(c.n(3)-1) * 1000 * time.Hour)
		os.Chtimes(q, when, when)
		c.Hit("an old script in the way")
	}
	for i := c.n(4); i > 0; i-- {
		base := fmt.Sprintf("%04d.smt2", c.n(3))
		if c.p(1, 3) {
			base = strings.TrimSuffix(base, ".smt2")
		}
		n := c.pick(inTheWay)
		if strings.Contains(n, "%s") {
			n = fmt.Sprintf(n, base)
		}
		d := p
		if c.p(1, 3) {
			d = dir
		}
		if _, err := os.Lstat(filepath.Join(d, n)); err != nil {
			os.WriteFile(filepath.Join(d, n), []byte("mine\n"), 0o644)
		}
	}
}

// cliRun is a way to run the command.
type cliRun struct {
	prog string   // instead of the command itself
	env  []string // on top of the usual environment
	how  int      // what the standard files are
}

var cliHow = []string{"pipes", "terminal", "a file for both", "standard input closed", "standard output closed", "threads"}

// run runs the command.
func (r cliRun) run(c *Case, dir string, args []string) (exit int, stdout, stderr string) {
	prog := r.prog
	if prog == "" {
		prog = os.Getenv("SSARULES_CLI")
	}
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, prog, args...)
	cmd.Dir = dir
	cmd.Env = append(append(os.Environ(), "PWD="+dir), r.env...)
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	end := func() {}
	switch cliHow[r.how] {
	case "terminal":
		pty, tty, err := openTerminal()
		if err != nil {
			c.Hit("no terminal")
			break
		}
		cmd.Stdin, cmd.Stdout, cmd.Stderr = tty, tty, tty
		all := fromTerminal(pty, tty)
		end = func() { errs.WriteString(all()) }
	case "a file for both":
		f, err := os.CreateTemp(c.Scratch(), "both")
		if err != nil {
			break
		}
		cmd.Stdin, cmd.Stdout, cmd.Stderr = f, f, f
		end = func() {
			f.Close()
			b, _ := os.ReadFile(f.Name())
			errs.Write(b)
			os.Remove(f.Name())
		}
	case "standard input closed":
		cmd = shell(ctx, cmd, `exec "$0" "$@" 0<&-`)
	case "standard output closed":
		cmd = shell(ctx, cmd, `exec "$0" "$@" 1>&-`)
	case "threads":
		cmd.Env = append(cmd.Env, "GOMAXPROCS="+c.pick([]string{"1", "2", "3"}))
	}
	err := cmd.Run()
	end()
	if ctx.Err() != nil {
		c.Fail("the command did not end")
	} else if _, ok := err.(*exec.ExitError); err != nil && !ok {
		c.Error("%v", err)
	}
	if cmd.ProcessState == nil {
		return -2, "", ""
	}
	if crash.MatchString(errs.String()) {
		c.Fail("the command crashes: %s", short(errs.String()))
	}
	return cmd.ProcessState.ExitCode(), out.String(), errs.String()
}

// shell has a command run by a shell script.
func shell(ctx context.Context, cmd *exec.Cmd, script string) *exec.Cmd {
	sh := exec.CommandContext(ctx, "/bin/bash", append([]string{"-c", script, cmd.Path}, cmd.Args[1:]...)...)
	sh.Dir, sh.Env, sh.Stdin, sh.Stdout, sh.Stderr = cmd.Dir, cmd.Env, cmd.Stdin, cmd.Stdout, cmd.Stderr
	return sh
}

// cliCase is a directory for the command, and what is to come of it.
type cliCase struct {
	dir, outdir string
	args        []string
	scripts     map[string]string
	report      []string
	err         error
}

func newCLICase(c *Case, files []*MFile, texts []string) *cliCase {
	k := &cliCase{dir: workdir(c)}
	var names []string
	names, k.outdir, k.args = cliSetup(c, k.dir, texts)
	c.Input(fmt.Sprintf("%q\n%s", k.args, strings.Join(texts, "\n----\n")))
	k.scripts, k.report, k.err = expectCLI(c, files, names, k.outdir)
	if k.err == nil {
		oldFiles(c, k.dir, k.outdir, k.scripts)
	}
	return k
}

// judge runs the command and checks all it leaves behind. It returns the names it
// was seen to use, and what there should be now.
func (k *cliCase) judge(c *Case, r cliRun) (used []string, want map[string]string, ok bool) {
	want = snapshot(k.dir)
	seen := watch(k.dir, filepath.Join(k.dir, "sub"), outPath(k.dir, k.outdir))
	exit, stdout, stderr := r.run(c, k.dir, k.args)
	got := snapshot(k.dir)
	used = seen()
	c.Hit(fmt.Sprintf("names used: %d", min(len(used), 20)))
	c.Eval(1)
	if k.err != nil {
		failedCLI(c, exit, stderr, want, got)
		return used, want, false
	}
	if exit != 0 {
		c.Fail("exit status %d: %s", exit, short(stderr))
		return
	}
	rel, err := filepath.Rel(outPath(k.dir, "."), outPath(k.dir, k.outdir))
	if err != nil {
		c.Error("%v", err)
	}
	for n, s := range k.scripts {
		want[filepath.Join(rel, n)] = s
	}
	if d := diffSnapshots(want, got); d != "" {
		c.Fail("files: %s\n%s", d, short(stderr))
		return
	}
	c.Eval(len(want))
	lines := reportLines(stderr)
	for i, l := range k.report {
		if i >= len(lines) || !sameReport(k.dir, l, lines[i]) {
			g := "nothing"
			if i < len(lines) {
				g = lines[i]
			}
			c.Fail("report line %d of %d: %s", i, len(k.report), diff(l, g))
			return
		}
	}
	if len(lines) != len(k.report) {
		c.Fail("%d report lines, want %d: extra %q", len(lines), len(k.report), lines[len(k.report)])
		return
	}
	c.Eval(len(k.report))
	if stdout != "" {
		c.Hit("standard output used")
	}
	return used, want, true
}

// checkCLI runs the command on files and checks all it leaves behind.
func checkCLI(c *Case, files []*MFile, texts []string) {
	k := newCLICase(c, files, texts)
	var r cliRun
	if c.p(1, 4) {
		r.how = c.n(len(cliHow))
		c.Hit("run with " + cliHow[r.how])
	}
	used, want, ok := k.judge(c, r)
	if !ok {
		return
	}
	if foreign(used, want, k.dir) > 0 {
		// Once more, with files of others where it kept something for a while.
		c.Hit("run again with files in the way")
		want = snapshot(k.dir)
		_, _, stderr := runCLI(c, k.dir, k.args...)
		if d := diffSnapshots(want, snapshot(k.dir)); d != "" {
			c.Fail("files of others: %s\n%s", d, short(stderr))
		}
	}
	c.Hit(fmt.Sprintf("input files: %d", len(files)))
	c.Hit(fmt.Sprintf("scripts: %d", min(len(k.scripts), 20)))
	c.Distinct(strings.Join(texts, "\x00"))
	c.Sample(texts)
}

// elsewhere runs the command in several surroundings: with environment variables
// set and files lying about, those that it was seen to ask for above all.
func elsewhere(c *Case) {
	files, texts := renderFiles(c, 1+c.n(2), func() int { return 1 + c.heavy(6) })
	k := newCLICase(c, files, texts)
	home := filepath.Join(k.dir, "home")
	os.Mkdir(home, 0o755)
	os.Mkdir(filepath.Join(k.dir, "other"), 0o755)
	os.WriteFile(filepath.Join(k.dir, "other", "keep"), []byte("mine\n"), 0o644)
	log := filepath.Join(c.Scratch(), "asked")
	os.Remove(log)
	r := cliRun{prog: os.Getenv("SSARULES_CLI_LOG"), env: []string{"HOME=" + home, "VERIF_TESTLOG=" + log}}
	if _, _, ok := k.judge(c, r); !ok {
		return
	}
	env, asked := askedFor(log)
	if len(asked) > 0 {
		c.Hit("the command was seen to ask for files")
	}
	for _, n := range env {
		c.Hit("asked for the environment variable " + n)
	}
	links := c.Idx % 3
	for i := 0; i < 8; i++ {
		// As before but for the scripts.
		for n := range k.scripts {
			if c.p(3, 4) {
				os.Remove(filepath.Join(outPath(k.dir, k.outdir), n))
			}
		}
		r := cliRun{how: c.n(len(cliHow)), env: []string{"HOME=" + home}}
		what := ""
		if i%3 != 1 {
			r.env = append(r.env, someEnv(c.RNG, env, k.dir)...)
			what += fmt.Sprintf(" environment %q", r.env)
			c.Hit("run with environment variables")
		}
		if i%3 != 0 {
			for _, p := range unmentioned(c.RNG, asked, k.dir) {
				if _, err := os.Lstat(p); err == nil {
					continue
				}
				if base := filepath.Base(p); k.scripts[base] != "" {
					continue
				}
				os.MkdirAll(filepath.Dir(p), 0o755)
				if os.WriteFile(p, []byte(unmentionedText(c.RNG, k.dir)), 0o644) == nil {
					what += " " + p
					c.Hit("run with a file nobody mentioned")
				}
			}
		}
		if links == 0 && i > 4 {
			// By another name.
			link := filepath.Join(c.Scratch(), c.pick([]string{"ssarules-debug", "z3", "smt2", "a b", "-v", "dump"}))
			os.Remove(link)
			if os.Symlink(os.Getenv("SSARULES_CLI"), link) == nil {
				r.prog = link
				c.Hit("run by another name")
			}
		}
		c.Hit("run with " + cliHow[r.how])
		old := c.input
		c.Input(fmt.Sprintf("run %d with %s%s\n%s", i, cliHow[r.how], what, old))
		if _, _, ok := k.judge(c, r); !ok {
			return
		}
		c.Input(old)
	}
	c.Distinct(strings.Join(texts, "\x00"))
}

// longRule returns a rule whose text has about n bytes.
func longRule(c *Case, n int) *MRule {
	long := func(first string) string {
		b := []byte(first)
		for len(b) < n {
			b = append(b, "abcdefghijklmnopqrstuvwxyz0123456789"[c.n(36)])
		}
		return string(b)
	}
	v := MVar("x")
	switch c.n(6) {
	case 0: // supported
		v = MVar(long("v"))
		return &MRule{Match: &MS{Op: lit("Add64"), Args: []MVal{v, MVar("y")}}, Result: v}
	case 1:
		return &MRule{Match: &MS{Op: lit(long("O")), Args: []MVal{v}}, Result: v}
	case 2:
		s := &MS{Op: lit("Many")}
		for i := 0; i*7 < n; i++ {
			s.Args = append(s.Args, MVar(fmt.Sprintf("v%05d", c.n(100000))))
		}
		return &MRule{Match: s, Result: v}
	case 3: // supported
		s := &MS{Op: lit("Sub32"), Args: []MVal{v, MVar("y")}}
		for i := 0; i*10 < min(n, 9000); i++ {
			s = &MS{Op: lit("Sub32"), Args: []MVal{s, v}}
		}
		return &MRule{Match: s, Result: v}
	case 4:
		return &MRule{Match: &MS{Op: lit("Load"), Type: long("t"), Args: []MVal{v}}, Result: v}
	default:
		s := &MS{Op: []MPart{{Alts: []string{"Sub"}}, {Alt: true, Alts: []string{"32", "64"}}}, Args: []MVal{MVar(long("w")), v}}
		return &MRule{Match: s, Result: v}
	}
}

// failedCLI demands that a run that failed said so, and left everything alone.
func failedCLI(c *Case, exit int, stderr string, want, got map[string]string) {
	c.Eval(1)
	if exit == 0 {
		c.Fail("exit status 0 despite the failure: %s", short(stderr))
		return
	}
	if len(strings.TrimSpace(stderr)) == 0 {
		c.Fail("no message")
	}
	if d := diffSnapshots(want, got); d != "" {
		c.Fail("a run that failed changed files: %s", d)
	}
	c.Hit("failed as it should")
}

// badText returns a text that is not a rule file.
func badText(c *Case) string {
	for {
		g := newGen(c.RNG, 6)
		text := newRend(c.RNG).file(g.file(1 + c.n(4)))
		if len(text) == 0 {
			continue
		}
		switch c.n(4) {
		case 0:
			text = text[:c.n(len(text))]
		case 1:
			k := c.n(len(text))
			text = text[:k] + c.pick([]string{"$", "(", ")", "=>", "]", "\xff"}) + text[k:]
		case 2:
			text += "\n(A x) =>"
		default:
			text = mutate(c.RNG, text)
		}
		res := refParse(text)
		if res.File == nil && !res.Ambiguous {
			return text
		}
	}
}

// renderFiles renders models whose text means the model.
func renderFiles(c *Case, n int, rules func() int) (files []*MFile, texts []string) {
	for i := 0; i < n; i++ {
		f := cliFile(c, rules())
		w := newRend(c.RNG)
		if c.p(1, 2) {
			w = plainRend(c.RNG)
		}
		text := w.file(f)
		if res := refParse(text); res.File == nil || res.Ambiguous || canonFileM(res.File) != canonFileM(f) {
			c.Hit("skipped: layout")
			text = plainRend(c.RNG).file(f)
		}
		files = append(files, f)
		texts = append(texts, text)
	}
	return
}

func init() {
	register(&Check{
		ID:       "C12",
		MinEvals: 5000,
		Rule: "A case is a run of the command, built from the tree, on a directory: files of rules of all kinds in several layouts, or with one that is missing, malformed, or of incompatible alternates; output directories named in several ways, with old files in them, or files of others under names the command was seen to use; the directories are watched, and the command is run with environment variables set and files lying about that it was seen to ask for, on a terminal, with standard files closed, and by other names. " +
			"All files before and after, the exit status, and the report are compared with a model of the command. Non-trivial: every run; distinct by input.",
		Assumptions: []string{"what is in a script is taken from smt2.Generate (decided by C10)"},
		Streams: func(t Tier) []Stream {
			big := []int{9, 10, 11, 99, 100, 101, 255, 256, 257, 999, 1000, 1001, 4096, 9999, 10000, 10001, 10012}
			return []Stream{
				{"runs", t.n(1500, 40000), func(c *Case) {
					files, texts := renderFiles(c, c.n(5), func() int { return c.heavy(14) })
					for len(files) > 0 && c.p(1, 4) {
						i, k := c.n(len(files)), c.n(len(files)+1)
						files = append(files[:k:k], append([]*MFile{files[i]}, files[k:]...)...)
						texts = append(texts[:k:k], append([]string{texts[i]}, texts[k:]...)...)
					}
					checkCLI(c, files, texts)
				}},
				{"one rule", t.n(1200, 30000), func(c *Case) {
					files, texts := renderFiles(c, 1, func() int { return 1 })
					checkCLI(c, files, texts)
				}},
				{"filter", nAttr * 24 * t.n(1, 4) / 4, func(c *Case) {
					// Several rules of every combination of attributes in one run.
					f := &MFile{}
					for i := 0; i < 8; i++ {
						k := c.Idx*8 + i
						m := attrModel(newGen(c.RNG, 5), k%nAttr, k/nAttr)
						if c.p(1, 3) {
							m.Rules[0].Match = &MS{Op: lit("Not"), Args: []MVal{m.Rules[0].Match}}
						}
						f.Rules = append(f.Rules, m.Rules[0])
					}
					checkCLI(c, []*MFile{f}, []string{plainRend(c.RNG).file(f)})
				}},
				{"surroundings", t.n(150, 3000), elsewhere},
				{"long rules", 3 * len(longSizes) * t.n(1, 10), func(c *Case) {
					f := &MFile{}
					for i := 1 + c.n(3); i > 0; i-- {
						f.Rules = append(f.Rules, longRule(c, longSizes[c.Idx%len(longSizes)]+c.n(9)-4))
					}
					checkCLI(c, []*MFile{f}, []string{plainRend(c.RNG).file(f)})
					c.Input("")
				}},
				{"malformed file", t.n(600, 10000), func(c *Case) {
					_, texts := renderFiles(c, 1+c.n(4), func() int { return c.heavy(8) })
					texts[c.n(len(texts))] = badText(c)
					dir := workdir(c)
					names, _, args := cliSetup(c, dir, texts)
					_ = names
					c.Input(fmt.Sprintf("%q\n%s", args, strings.Join(texts, "\n----\n")))
					want := snapshot(dir)
					exit, _, stderr := runCLI(c, dir, args...)
					failedCLI(c, exit, stderr, want, snapshot(dir))
					c.Distinct(strings.Join(texts, "\x00"))
				}},
				{"missing file", t.n(150, 2000), func(c *Case) {
					_, texts := renderFiles(c, 1+c.n(4), func() int { return c.heavy(8) })
					dir := workdir(c)
					names, _, args := cliSetup(c, dir, texts)
					k := c.n(len(names))
					args[len(args)-len(names)+k] = []string{"none.rules", "sub", "", "a.rules/x", "."}[c.n(5)]
					c.Input(fmt.Sprintf("%q", args))
					want := snapshot(dir)
					exit, _, stderr := runCLI(c, dir, args...)
					failedCLI(c, exit, stderr, want, snapshot(dir))
				}},
				{"incompatible alternates", t.n(400, 8000), func(c *Case) {
					// A rule that cannot be expanded is a failure if simple, and left out otherwise.
					files, _ := renderFiles(c, 1+c.n(3), func() int { return c.heavy(8) })
					f := files[c.n(len(files))]
					k := 2 + c.n(4)
					bad := mixedCounts(newGen(c.RNG, 3), c.n(5), 5+c.n(5), k, k+1+c.n(3)).Rules[0]
					if c.p(1, 3) {
						if ss := sexprsOf(bad); c.p(1, 3) {
							bad.Cond = gi("x")
						} else if c.p(1, 2) {
							bad.Block = "b"
						} else {
							predicates[c.n(6)].set(newGen(c.RNG, 3), ss[c.n(len(ss))])
						}
					}
					at := c.n(len(f.Rules) + 1)
					f.Rules = append(f.Rules[:at:at], append([]*MRule{bad}, f.Rules[at:]...)...)
					var texts []string
					for _, f := range files {
						texts = append(texts, plainRend(c.RNG).file(f))
					}
					checkCLI(c, files, texts)
				}},
				{"many rules", len(big) * t.n(1, 4), func(c *Case) {
					n := big[c.Idx%len(big)]
					files := []*MFile{{}}
					if c.p(1, 2) {
						files = append(files, &MFile{})
					}
					for i := 0; i < n; i++ {
						r := &MRule{Match: &MS{Op: lit("Add64"), Args: []MVal{MVar("x"), MVar(fmt.Sprintf("v%d", i))}}, Result: MVar("x")}
						switch {
						case n-i > 3 && i > 3 && c.p(7, 10):
							r.Match.(*MS).Op = lit("Mul64")
						case c.p(1, 10):
							r.Match.(*MS).Op = []MPart{{Alts: []string{"Sub"}}, {Alt: true, Alts: []string{"32", "64"}}}
							i++
						}
						f := files[len(files)-1]
						if i < n/2 {
							f = files[0]
						}
						f.Rules = append(f.Rules, r)
					}
					var texts []string
					for _, f := range files {
						texts = append(texts, printFileM(f))
					}
					checkCLI(c, files, texts)
					c.Input(fmt.Sprintf("%d rules", n))
				}},
				{"very many rules", 2 * t.n(1, 3), func(c *Case) {
					// Numbers of five and six digits, and beyond 16 and 17 bits.
					n := []int{70001, 140003}[c.Idx%2]
					at := map[int]bool{}
					for _, k := range []int{0, 1, 9999, 10000, 10001, 32767, 32768, 65535, 65536, 65537, 70000, 99999, 100000, 131071, 131072, 140002} {
						at[k] = true
					}
					f := &MFile{}
					lists := c.Idx%2 == 0 // some of the numbers come from alternates
					for i := 0; i < n; {
						r := &MRule{Match: &MS{Op: lit("Foo"), Args: []MVal{MVar("x")}}, Result: MVar("x")}
						if at[i] {
							r.Match = &MS{Op: lit("Neg64"), Args: []MVal{MVar(fmt.Sprintf("v%d", i))}}
							r.Result = MVar(fmt.Sprintf("v%d", i))
							i++
						} else if lists && i+300 < n && c.p(1, 100) {
							alt := MPart{Alt: true}
							for k := 0; k < 300; k++ {
								op := "Foo"
								if at[i+k] {
									op = "Com8"
								}
								alt.Alts = append(alt.Alts, op)
							}
							r.Match.(*MS).Op = []MPart{alt}
							i += 300
						} else {
							i++
						}
						f.Rules = append(f.Rules, r)
					}
					checkCLI(c, []*MFile{f}, []string{printFileM(f)})
					c.Input(fmt.Sprintf("%d rules", n))
				}},
				{"many input files", len(manyFiles) * t.n(1, 4), func(c *Case) {
					n := manyFiles[c.Idx%len(manyFiles)]
					var files []*MFile
					var texts []string
					for i := 0; i < n; i++ {
						f := &MFile{}
						r := &MRule{Match: &MS{Op: lit("Foo"), Args: []MVal{MVar(fmt.Sprintf("v%d", c.n(10*n)))}}, Result: MVar("x")}
						if i == n-1 || c.p(1, 50) {
							r = &MRule{Match: &MS{Op: lit("Neg64"), Args: []MVal{MVar(fmt.Sprintf("v%d", i))}}, Result: MVar("x")}
						}
						if c.p(9, 10) {
							f.Rules = append(f.Rules, r)
						}
						files = append(files, f)
						texts = append(texts, printFileM(f))
					}
					checkCLI(c, files, texts)
					c.Input(fmt.Sprintf("%d files", n))
				}},
				{"rule files", numRuleFiles() + 1, func(c *Case) {
					names, texts := ruleFiles()
					var files []*MFile
					var in []string
					for i := range names {
						if i != c.Idx && c.Idx < len(names) {
							continue
						}
						res := refParse(texts[i])
						if res.File == nil {
							return
						}
						files = append(files, res.File)
						in = append(in, texts[i])
					}
					checkCLI(c, files, in)
					c.Input(fmt.Sprintf("rule file %d", c.Idx))
				}},
			}
		},
	})
}
