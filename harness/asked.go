//go:build asked

package main

import (
	"path/filepath"
	"sort"
	"sync"
	"syscall"
	_ "unsafe"
)

// Environment variables and files that this process asks for by means of package
// os, the library under test included.

type askedLog interface {
	Getenv(key string)
	Stat(file string)
	Open(file string)
	Chdir(dir string)
}

//go:linkname setAskedLog internal/testlog.SetLogger
func setAskedLog(l askedLog)

type askedRecorder struct{}

var (
	askedMu    sync.Mutex
	askedNames = map[string]bool{}
	askedPaths = map[string]bool{}
)

func (askedRecorder) Getenv(key string) {
	askedMu.Lock()
	askedNames[key] = true
	askedMu.Unlock()
}

func (askedRecorder) Stat(file string) { askedFile(file) }
func (askedRecorder) Open(file string) { askedFile(file) }
func (askedRecorder) Chdir(dir string) {}

// askedFile keeps names of relative files, and of those below the home directory.
func askedFile(file string) {
	home, _ := syscall.Getenv("HOME")
	if filepath.IsAbs(file) && home != "" && home != "/" {
		rel, err := filepath.Rel(home, file)
		if err != nil {
			return
		}
		file = filepath.Join("home", rel)
	}
	if file == "" || !filepath.IsLocal(file) || len(file) > 100 {
		return
	}
	askedMu.Lock()
	if len(askedPaths) < 200 {
		askedPaths[file] = true
	}
	askedMu.Unlock()
}

var askedOnce sync.Once

// askedEnv returns the names of the environment variables and files asked for since
// the first call.
func askedEnv() (names, files []string) {
	askedOnce.Do(func() { setAskedLog(askedRecorder{}) })
	askedMu.Lock()
	defer askedMu.Unlock()
	for n := range askedNames {
		names = append(names, n)
	}
	for n := range askedPaths {
		files = append(files, n)
	}
	sort.Strings(names)
	sort.Strings(files)
	return
}
