package main

import (
	"bytes"
	"os"
	"path/filepath"
	"syscall"
	"unsafe"
)

// watch records the names that come to be in a directory, however briefly. The
// function returned ends it and returns them.
func watch(dirs ...string) func() []string {
	fd, err := syscall.InotifyInit1(syscall.IN_CLOEXEC | syscall.IN_NONBLOCK)
	if err != nil {
		return func() []string { return nil }
	}
	byID := map[int32]string{}
	for _, d := range dirs {
		if id, err := syscall.InotifyAddWatch(fd, d, syscall.IN_CREATE|syscall.IN_MOVED_TO|syscall.IN_MOVED_FROM|syscall.IN_DELETE|syscall.IN_MODIFY); err == nil {
			byID[int32(id)] = d
		}
	}
	return func() (names []string) {
		defer syscall.Close(fd)
		seen := map[string]bool{}
		buf := make([]byte, 1<<16)
		for {
			n, err := syscall.Read(fd, buf)
			if n <= 0 || err != nil {
				return
			}
			for b := buf[:n]; len(b) >= syscall.SizeofInotifyEvent; {
				e := (*syscall.InotifyEvent)(unsafe.Pointer(&b[0]))
				end := syscall.SizeofInotifyEvent + int(e.Len)
				name := string(bytes.TrimRight(b[syscall.SizeofInotifyEvent:end], "\x00"))
				b = b[end:]
				if d := byID[e.Wd]; d != "" && name != "" && !seen[d+name] {
					seen[d+name] = true
					names = append(names, filepath.Join(d, name))
				}
			}
		}
	}
}

// foreign puts a file of someone else at every place that a program was seen to
// use for something else than its results.
func foreign(names []string, want map[string]string, dir string) (n int) {
	for _, p := range names {
		rel, err := filepath.Rel(dir, p)
		if err != nil || want[rel] != "" {
			continue
		}
		if _, err := os.Lstat(p); err == nil {
			continue
		}
		if os.WriteFile(p, []byte("mine\n"), 0o644) == nil {
			n++
		}
	}
	return n
}
