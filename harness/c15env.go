package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
)

// answersOf returns the answers of all operations on a few items.
func answersOf(c *Case, items []*conItem) []string {
	var out []string
	for _, w := range items {
		for _, op := range conOps {
			// Errors hold the name of the file.
			out = append(out, strings.ReplaceAll(op.run(w, &RNG{1}), c.Scratch(), "SCRATCH"))
		}
	}
	return out
}

func answersDiffer(c *Case, items []*conItem, want, got []string, what string) bool {
	c.Eval(len(want))
	for i := range want {
		if i >= len(got) || got[i] != want[i] {
			c.Input(items[i/len(conOps)].text)
			c.Fail("%s gives another result %s: %s", conOps[i%len(conOps)].name, what, diff(want[i], got[min(i, len(got)-1)]))
			return true
		}
	}
	return false
}

// surroundedItems are the same whichever process makes them.
func surroundedItems(c *Case, idx int) []*conItem {
	r := *c
	r.RNG = newRNG(c.w.seed, "surroundings", fmt.Sprint(idx))
	return conItems(&r, 3)
}

// lieAbout makes a directory in which files lie about that nobody mentioned.
func lieAbout(c *Case, asked []string) string {
	dir := workdir(c)
	os.Mkdir(filepath.Join(dir, "home"), 0o755)
	os.Mkdir(filepath.Join(dir, "other"), 0o755)
	for _, p := range unmentioned(c.RNG, asked, dir) {
		os.MkdirAll(filepath.Dir(p), 0o755)
		os.WriteFile(p, []byte(unmentionedText(c.RNG, dir)), 0o644)
	}
	return dir
}

// surrounded asks the same questions while the surroundings change: environment
// variables, the working directory and what is in it, the number of threads, the
// garbage collector, settings of the standard library, and where the call is made.
func surrounded(c *Case) {
	askedEnv()
	items := surroundedItems(c, c.Idx)
	want := answersOf(c, items)
	var env, files []string
	for i := 0; i < 4; i++ {
		env, files = askedEnv()
		var undo []func()
		var what []string
		change := func(name string, back func()) {
			what = append(what, name)
			undo = append(undo, back)
			c.Hit("surroundings: " + strings.SplitN(name, " ", 2)[0])
		}
		run := func() []string { return answersOf(c, items) }
		if c.p(2, 3) {
			settings := someEnv(c.RNG, env, filepath.Join(c.Scratch(), "work"))
			for _, s := range settings {
				k, v, _ := strings.Cut(s, "=")
				old, had := syscall.Getenv(k)
				os.Setenv(k, v)
				undo = append(undo, func() {
					if os.Unsetenv(k); had {
						os.Setenv(k, old)
					}
				})
			}
			change(fmt.Sprintf("environment %q", settings), func() {})
		}
		if c.p(1, 2) {
			if old, err := os.Getwd(); err == nil {
				dir := lieAbout(c, files)
				home, _ := syscall.Getenv("HOME")
				os.Setenv("HOME", filepath.Join(dir, "home"))
				if os.Chdir(dir) == nil {
					change("directory", func() { os.Chdir(old); os.Setenv("HOME", home) })
				}
			}
		}
		if c.p(1, 2) {
			n := []int{1, 1, 2, 3, 5, 8, 16}[c.n(7)]
			old := runtime.GOMAXPROCS(n)
			change(fmt.Sprintf("threads %d", n), func() { runtime.GOMAXPROCS(old) })
		}
		if c.p(1, 6) {
			old := debug.SetGCPercent(1 + c.n(20))
			change("collector", func() { debug.SetGCPercent(old) })
		}
		if c.p(1, 4) {
			old := time.Local
			time.Local = time.FixedZone("X", 5*3600+1800)
			change("time", func() { time.Local = old })
		}
		if c.p(1, 4) {
			w, p, f := log.Writer(), log.Prefix(), log.Flags()
			log.SetOutput(io.Discard)
			log.SetPrefix("prefix ")
			log.SetFlags(log.LstdFlags)
			change("log", func() { log.SetOutput(w); log.SetPrefix(p); log.SetFlags(f) })
		}
		if c.p(1, 4) {
			old := os.Args
			os.Args = []string{c.pick([]string{"x", "x.test", "go", ""}), "-v", "-test.v", "-outdir", "other"}
			change("arguments", func() { os.Args = old })
		}
		if c.p(1, 4) {
			old := [3]*os.File{os.Stdin, os.Stdout, os.Stderr}
			os.Stdin, os.Stdout, os.Stderr = nil, nil, nil
			change("files", func() { os.Stdin, os.Stdout, os.Stderr = old[0], old[1], old[2] })
		}
		switch c.n(5) {
		case 0:
			inner := run
			run = func() (out []string) {
				done := make(chan interface{})
				go func() {
					defer func() { done <- recover() }()
					runtime.LockOSThread()
					out = inner()
				}()
				if e := <-done; e != nil {
					panic(e)
				}
				return
			}
			change("goroutine of its own", func() {})
		case 1:
			inner := run
			var deep func(n int) []string
			deep = func(n int) []string {
				if n == 0 {
					return inner()
				}
				return deep(n - 1)
			}
			run = func() []string { return deep(20000) }
			change("deep stack", func() {})
		case 2:
			inner := run
			run = func() (out []string) {
				defer func() {
					if e := recover(); e != "leave" {
						panic(e)
					}
				}()
				defer func() { out = inner() }()
				panic("leave")
			}
			change("panicking goroutine", func() {})
		case 3:
			inner := run
			run = func() []string {
				runtime.GC()
				runtime.GC()
				return inner()
			}
			change("collection before", func() {})
		}
		var got []string
		func() {
			defer func() {
				for k := len(undo) - 1; k >= 0; k-- {
					undo[k]()
				}
			}()
			got = run()
		}()
		if answersDiffer(c, items, want, got, "in other surroundings: "+strings.Join(what, ", ")) {
			return
		}
	}
	for _, n := range env {
		if !keptEnv.MatchString(n) {
			c.w.st.Hist["asked for: "+n]++
		}
	}
	c.Distinct(items[0].text + items[1].text + items[2].text)
}

// elsewhereProcess has a process of its own answer in other surroundings.
func elsewhereProcess(c *Case) {
	items := surroundedItems(c, -1-c.Idx)
	want := answersOf(c, items)
	env, files := askedEnv()
	dir := lieAbout(c, files)
	answers := filepath.Join(c.Scratch(), "answers.json")
	b, _ := json.Marshal(want)
	path := filepath.Join(c.Scratch(), "elsewhere.json")
	v, _ := json.Marshal(violation{Property: "C15", Seed: c.w.seed, Tier: tierName(c.tier), Stream: "answers of a process", Index: c.Idx})
	words := filepath.Join(c.Scratch(), "dict.json")
	d, _ := json.Marshal(dict)
	for p, b := range map[string][]byte{answers: b, path: v, words: d} {
		if err := os.WriteFile(p, b, 0o644); err != nil {
			c.Error("%v", err)
			return
		}
	}
	exe, err := os.Executable()
	if err != nil {
		c.Error("%v", err)
		return
	}
	name := filepath.Join(c.Scratch(), c.pick([]string{"vrun", "ssarules.test", "z3", "go", "a b"}))
	os.Remove(name)
	if os.Symlink(exe, name) != nil {
		name = exe
	}
	cmd := exec.Command(name, "-replay", path, "-once", "-repo", repoRoot)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "VERIF_DICT="+words, "VERIF_ANSWERS="+answers, "HOME="+filepath.Join(dir, "home"), "PWD="+dir)
	settings := someEnv(c.RNG, env, dir)
	if c.Idx%2 == 0 {
		// All that may be one.
		settings = nil
		for _, n := range append(envDictionary(), env...) {
			if !keptEnv.MatchString(n) {
				settings = append(settings, n+"="+envValue(c.RNG, dir))
			}
		}
	}
	threads := c.pick([]string{"1", "1", "2", "3", "8"})
	cmd.Env = append(append(cmd.Env, settings...), "GOMAXPROCS="+threads)
	what := fmt.Sprintf("with threads %s, environment %q", threads, settings)
	var stderr tail
	cmd.Stderr = &stderr
	err = cmd.Run()
	c.Eval(len(want))
	c.Hit("processes in other surroundings")
	if err == nil {
		return
	}
	var ee *exec.ExitError
	if out := stderr.String(); errors.As(err, &ee) && (ee.ExitCode() == 1 || blamesRepo(out)) {
		c.Fail("in a process of its own %s: %v\n%s", what, err, clipStack(out))
		return
	}
	c.Error("process: %v %s", err, clipStack(stderr.String()))
}

// answersInProcess is the part of the process.
func answersInProcess(c *Case) {
	var want []string
	b, err := os.ReadFile(os.Getenv("VERIF_ANSWERS"))
	if err == nil {
		err = json.Unmarshal(b, &want)
	}
	if err != nil {
		c.Hit("not run on behalf of another")
		return
	}
	if n := os.Getenv("GOMAXPROCS"); n != "" {
		k := 0
		fmt.Sscan(n, &k)
		runtime.GOMAXPROCS(k)
	}
	items := surroundedItems(c, -1-c.Idx)
	answersDiffer(c, items, want, answersOf(c, items), "in a process in other surroundings")
}

// leave runs an operation with a callback that ends it, by a panic or by the end of
// the goroutine, and reports whether it did.
func leave(r *RNG, after int, before func(), run func(hook func())) bool {
	exit := r.p(1, 3)
	left := make(chan bool, 1)
	go func() {
		called := false
		defer func() {
			// On the way, others may have made another panic of it.
			if e := recover(); e != nil && !called {
				panic(e)
			}
			left <- called
		}()
		run(func() {
			if after--; after < 0 {
				called = true
				before()
				if exit {
					runtime.Goexit()
				}
				panic("left")
			}
		})
	}()
	return <-left
}

// abandoned has operations end in the middle, by callbacks that do not return, and
// demands the same answers as before.
func abandoned(c *Case, times int) {
	items := conItems(c, 3)
	want := answersOf(c, items)
	names := map[string]bool{}
	for i := 0; i < times; i++ {
		op, w := callingBack[c.n(len(callingBack))], items[c.n(len(items))]
		r := &RNG{c.next()}
		before := func() {}
		if c.p(1, 4) {
			// Another operation within it.
			k, w := c.n(len(conOps)), items[c.n(len(items))]
			before = func() { conOps[k].run(w, &RNG{1}) }
		}
		if leave(c.RNG, c.heavy(60), before, func(hook func()) { op.run(w, r, hook) }) {
			names[op.name] = true
			c.w.st.Hist["abandoned: "+op.name]++
		}
	}
	answersDiffer(c, items, want, answersOf(c, items), fmt.Sprintf("after operations that were abandoned: %v", names))
	c.Distinct(items[0].text)
}

// meeting runs operations in goroutines whose callbacks wait until all the others
// have come as far: none may have to wait for another to end.
func meeting(c *Case, n int) {
	var items []*conItem
	for len(items) < 2 {
		for _, w := range conItems(c, 2) {
			if len(w.file.Rules) > 0 {
				items = append(items, w)
			}
		}
	}
	only := -1
	if c.p(2, 3) {
		only = c.n(len(callingBack))
	}
	arrived := make(chan bool, 2*n)
	open := make(chan bool)
	type res struct {
		op   int
		item int
		got  string
		bad  interface{}
	}
	results := make(chan res, n)
	for g := 0; g < n; g++ {
		k, item, seed := c.n(len(callingBack)), c.n(len(items)), c.next()
		if only >= 0 {
			k = only
		}
		go func() {
			there := false
			arrive := func() {
				if !there {
					there = true
					arrived <- true
					<-open
				}
			}
			r := res{op: k, item: item}
			defer func() {
				r.bad = recover()
				if !there {
					arrived <- true
				}
				results <- r
			}()
			r.got = callingBack[k].run(items[item], &RNG{seed}, arrive)
		}()
	}
	for i := 0; i < n; i++ {
		<-arrived // the watchdog ends it if they never come
	}
	close(open)
	alone := map[[2]int]string{}
	for i := 0; i < n; i++ {
		r := <-results
		if r.bad != nil {
			panic(r.bad)
		}
		key := [2]int{r.op, r.item}
		if _, ok := alone[key]; !ok {
			alone[key] = callingBack[r.op].run(items[r.item], &RNG{1}, func() {})
		}
		c.Eval(1)
		if r.got != alone[key] {
			c.Input(items[r.item].text)
			c.Fail("%s gives another result while %d others wait: %s", callingBack[r.op].name, n-1, diff(alone[key], r.got))
			return
		}
	}
	c.Hit(fmt.Sprintf("met: %d", n))
	c.Distinct(fmt.Sprint(n, only, items[0].text))
}
