package main

import (
	"bufio"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
)

// Surroundings: environment variables, files that nobody mentioned, and the like,
// none of which has a say in what the library and the command do.

// envNames are names of environment variables that programs heed.
var envNames = []string{"COLUMNS", "LINES", "LANG", "LC_ALL", "LC_CTYPE", "LC_MESSAGES", "LANGUAGE", "TERM", "COLORTERM", "NO_COLOR", "FORCE_COLOR", "CLICOLOR", "CLICOLOR_FORCE",
	"DEBUG", "VERBOSE", "QUIET", "TRACE", "LOG_LEVEL", "LOG", "CI", "TEST", "USER", "LOGNAME", "SHELL", "EDITOR", "PAGER", "PWD", "OLDPWD", "XDG_CONFIG_HOME", "XDG_CACHE_HOME", "XDG_DATA_HOME",
	"SSARULES", "SSARULES_DEBUG", "SSARULES_OUTDIR", "SSARULES_FLAGS", "SSARULES_OPTS", "SSARULES_CONFIG", "SSARULES_PATH", "SSARULES_TRACE", "OUTDIR", "OUTPUT", "OUT", "OUT_DIR",
	"SMT", "SMT2", "SOLVER", "GO111MODULE", "GOROOT", "GOPATH", "GOARCH", "GOOS", "GOFLAGS", "TZ", "POSIXLY_CORRECT", "SOURCE_DATE_EPOCH", "WIDTH", "BITS", "X", "h"}

// keptEnv are those that the Go runtime itself, or the harness, has a use for.
var keptEnv = regexp.MustCompile(`^(PATH|TMPDIR|HOME|GODEBUG|GOTRACEBACK|GOGC|GOMEMLIMIT|GOMAXPROCS|GOCOVERDIR|ZONEINFO|GORACE|VERIF_.*|SSARULES_CLI.*|LD_.*)$`)

var envName = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]{1,40}$`)

// envDictionary returns names of environment variables: of the list, and words of
// the code that may be some.
func envDictionary() []string {
	out := append([]string(nil), envNames...)
	for _, w := range dict.Words {
		if envName.MatchString(w) && strings.ToUpper(w) == w && !keptEnv.MatchString(w) {
			out = append(out, w)
		}
	}
	return out
}

// envValue returns a value for a variable.
func envValue(r *RNG, dir string) string {
	return r.pick([]string{"", "0", "1", "1", "2", "7", "20", "80", "-1", "true", "true", "false", "yes", "on", "off", "x", "debug", "trace", "all", "none", "json", "dumb", "xterm-256color", "C", "POSIX", "en_US.UTF-8", "tr_TR.UTF-8", "ja_JP.SJIS", "de_DE",
		"other", "other", filepath.Join(dir, "other"), filepath.Join(dir, "other"), "a.rules", "-outdir=other", "-outdir other", "--help", "-v", "UTC", "Asia/Tokyo", "8", "16", "32", "64", "128", "999999999999", ":", ",", "*", "sat", "unsat", "z3", "amd64", "wasm", "windows"})
}

// someEnv makes settings of environment variables, the learned ones first of all.
func someEnv(r *RNG, learned []string, dir string) (out []string) {
	names := envDictionary()
	all := r.p(1, 3)
	seen := map[string]bool{}
	set := func(n string) {
		if !keptEnv.MatchString(n) && !seen[n] {
			seen[n] = true
			out = append(out, n+"="+envValue(r, dir))
		}
	}
	for _, n := range learned {
		set(n)
	}
	for _, n := range names {
		if all || r.p(1, 8) {
			set(n)
		}
	}
	return out
}

// askedFor reads the log of what a run of the command asked for.
func askedFor(log string) (env, files []string) {
	f, err := os.Open(log)
	if err != nil {
		return nil, nil
	}
	defer f.Close()
	e, fs := map[string]int{}, map[string]int{}
	for s := bufio.NewScanner(f); s.Scan(); {
		what, q, _ := strings.Cut(s.Text(), " ")
		name, err := strconv.Unquote(q)
		if err != nil {
			continue
		}
		switch what {
		case "env":
			e[name]++
		case "file":
			fs[name]++
		}
	}
	return sortedKeys(e), sortedKeys(fs)
}

var fileName = regexp.MustCompile(`^[.A-Za-z][-.\w]{1,30}$`)

// unmentioned returns names of files that a program may look at although nobody
// mentioned them: those it was seen to ask for, and some that are customary.
func unmentioned(r *RNG, asked []string, dir string) []string {
	var out []string
	for _, f := range asked {
		if !filepath.IsAbs(f) {
			f = filepath.Join(dir, f)
		}
		if rel, err := filepath.Rel(dir, f); err == nil && rel != "." && !strings.HasPrefix(rel, "..") {
			out = append(out, f)
		}
	}
	usual := []string{".ssarules", ".ssarulesrc", "ssarules.conf", "ssarules.cfg", "ssarules.ini", "ssarules.json", "ssarules.yaml", "ssarules.toml", ".ssarules.json", ".config/ssarules", ".config/ssarules/config", "rules", "default.rules", "config", "config.json", ".env", ".gitignore", ".ignore", ".editorconfig", "go.mod", "ops.json", "skip", "ignore", "opcodes", "args", "Makefile"}
	for _, w := range dict.Words {
		if fileName.MatchString(w) && strings.Contains(w[1:], ".") {
			usual = append(usual, w)
		}
	}
	for _, n := range usual {
		if r.p(1, 4) {
			out = append(out, filepath.Join(dir, n))
		}
		if r.p(1, 6) {
			out = append(out, filepath.Join(dir, "home", n))
		}
	}
	return out
}

// unmentionedText returns what is in such a file.
func unmentionedText(r *RNG, dir string) string {
	return r.pick([]string{"", "\n", "x", "1\n", "-outdir other\n", "-outdir=other\n", "-outdir\nother\n", "-outdir " + filepath.Join(dir, "other"), "outdir=other\n", "outdir = \"other\"\n", "outdir: other\n", `{"outdir": "other"}`, "[options]\noutdir=other\n",
		"(Add64 x y) => (Add64 y x)\n", "(Add64 x y)\n", "Add64\nSub64\n", "Add64 Sub64 Mul64 And64 Or64 Xor64\n", "*\n", "*.rules\n", "*.smt2\n", "a.rules\nb.rules\n", "--help", "true", "other\n", "module x\n", "SSARULES_OUTDIR=other\nOUTDIR=other\n", "\x00\xff", "all: ;\n", "none.rules\n"})
}
