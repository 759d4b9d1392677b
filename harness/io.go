package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
)

// Kinds of readers and writers. What a reader has given before, and what a writer
// has been given before, is none of the library's business.

const junk = "(Junk a) => @junk b\n"

// onlyReader has no other methods.
type onlyReader struct{ r io.Reader }

func (r onlyReader) Read(b []byte) (int, error) { return r.r.Read(b) }

type onlyWriter struct{ w io.Writer }

func (w onlyWriter) Write(b []byte) (int, error) { return w.w.Write(b) }

// readerOf returns a reader that gives text, and a function to call when it is not
// needed any more.
func readerOf(c *Case, text string) (io.Reader, func()) {
	skip := func(r io.Reader) io.Reader {
		io.CopyN(io.Discard, r, int64(len(junk)))
		return r
	}
	nothing := func() {}
	kind := c.n(17)
	c.Hit(fmt.Sprintf("reader of kind %d", kind))
	switch kind {
	case 0:
		return skip(strings.NewReader(junk + text)), nothing
	case 1:
		return skip(bytes.NewReader([]byte(junk + text))), nothing
	case 2:
		return skip(bytes.NewBufferString(junk + text)), nothing
	case 3:
		return skip(bufio.NewReaderSize(strings.NewReader(junk+text), 16+c.n(200))), nothing
	case 4:
		return bufio.NewReader(strings.NewReader(text)), nothing
	case 5:
		k := c.n(len(text) + 1)
		return io.MultiReader(strings.NewReader(text[:k]), strings.NewReader(""), onlyReader{strings.NewReader(text[k:])}), nothing
	case 6:
		return io.LimitReader(strings.NewReader(text+junk), int64(len(text))), nothing
	case 7:
		r := io.NewSectionReader(strings.NewReader(junk+junk+text+junk), int64(len(junk)), int64(len(junk)+len(text)))
		return skip(r), nothing
	case 8:
		// A file, from the middle.
		p := filepath.Join(c.Scratch(), "rest.rules")
		if err := os.WriteFile(p, []byte(junk+text), 0o644); err != nil {
			c.Error("%v", err)
		}
		f, err := os.Open(p)
		if err != nil {
			c.Error("%v", err)
		}
		f.Seek(int64(len(junk)), io.SeekStart)
		return f, func() { f.Close() }
	case 9:
		r, w := io.Pipe()
		go func() {
			k := len(text) / 2
			io.WriteString(w, text[:k])
			io.WriteString(w, text[k:])
			w.Close()
		}()
		return r, func() { r.Close() }
	case 10:
		r, w, err := os.Pipe()
		if err != nil {
			c.Error("%v", err)
		}
		go func() {
			io.WriteString(w, text)
			w.Close()
		}()
		return r, func() { r.Close() }
	case 11:
		return io.TeeReader(strings.NewReader(text), io.Discard), nothing
	case 12:
		return onlyReader{strings.NewReader(text)}, nothing
	case 13:
		// A reader that can also write.
		return bufio.NewReadWriter(bufio.NewReader(strings.NewReader(text)), bufio.NewWriter(io.Discard)), nothing
	case 14:
		// A reader with other methods.
		r := &faultyReader{s: text, with: c.p(1, 2), max: 1 + c.heavy(4000), err: io.EOF}
		r2 := dressedReaders[c.n(len(dressedReaders))](r)
		return r2, func() {
			if r.closed {
				c.Fail("the reader has been closed")
			}
		}
	default:
		return &chunked{r: c.RNG, s: text, mode: c.n(3), max: 1 + c.heavy(5000)}, nothing
	}
}

// parseFile parses text from a file of some kind.
func parseFile(c *Case, text string) (*ast.File, error, string) {
	path := filepath.Join(c.Scratch(), c.pick([]string{"in.rules", "in.rules", "in", "-", "é %s.rules", "a:1:2.rules", "[x]*.rules", "$HOME"}))
	os.Remove(path)
	kind := c.n(12)
	if len(text) > 1<<20 {
		kind = 3
	}
	switch kind {
	case 0:
		// A named pipe.
		if err := syscall.Mkfifo(path, 0o600); err != nil {
			c.Error("%v", err)
		}
		done := make(chan bool)
		go func() {
			defer close(done)
			if w, err := os.OpenFile(path, os.O_WRONLY, 0); err == nil {
				io.WriteString(w, text)
				w.Close()
			}
		}()
		f, err := parse.File(path)
		// Should it not have been opened.
		if fd, e := syscall.Open(path, syscall.O_RDONLY|syscall.O_NONBLOCK, 0); e == nil {
			select {
			case <-done:
			default:
				b := make([]byte, 4096)
				for i := 0; i < 3; i++ {
					syscall.Read(fd, b)
				}
			}
			syscall.Close(fd)
		}
		os.Remove(path)
		c.Hit("file: named pipe")
		return f, err, path
	case 1:
		target := filepath.Join(c.Scratch(), "target")
		if err := os.WriteFile(target, []byte(text), 0o644); err != nil {
			c.Error("%v", err)
		}
		if err := os.Symlink("target", path); err != nil {
			c.Error("%v", err)
		}
		f, err := parse.File(path)
		os.Remove(path)
		c.Hit("file: link")
		return f, err, path
	case 2:
		// A file that nobody may write.
		if err := os.WriteFile(path, []byte(text), 0o444); err != nil {
			c.Error("%v", err)
		}
	default:
		if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
			c.Error("%v", err)
		}
	}
	f, err := parse.File(path)
	os.Remove(path)
	return f, err, path
}

// writtenVia returns what a function writes to a writer of some kind, which has
// something written to it before and after.
func writtenVia(c *Case, size int, write func(io.Writer) error) (string, error) {
	before, after := "before\n", "-- after --\n"
	if c.p(1, 2) {
		before = c.pick([]string{"x", "x:", "(A x) => x", "// comment", "100%", "a ", "\t", "=>", "(", "é", "\\", "\"", "_", "0"})
	}
	kind := c.n(11)
	if size > 1<<14 {
		kind = []int{0, 1, 3, 7}[c.n(4)] // writers that take many small writes quickly
	}
	c.Hit(fmt.Sprintf("writer of kind %d", kind))
	var buf bytes.Buffer
	var builder strings.Builder
	var w io.Writer
	end := func() string { return buf.String() }
	switch kind {
	case 0:
		w = &buf
	case 1:
		w, end = &builder, builder.String
	case 2:
		b := bufio.NewWriterSize(&buf, 16+c.n(100))
		w, end = b, func() string { b.Flush(); return buf.String() }
	case 3:
		b := bufio.NewWriterSize(&buf, 1<<20)
		w, end = b, func() string { b.Flush(); return buf.String() }
	case 4:
		w = io.MultiWriter(&buf, io.Discard)
	case 5:
		p := filepath.Join(c.Scratch(), "written")
		f, err := os.Create(p)
		if err != nil {
			c.Error("%v", err)
		}
		w, end = f, func() string {
			f.Close()
			b, _ := os.ReadFile(p)
			return string(b)
		}
	case 6:
		r, pw := io.Pipe()
		done := make(chan bool)
		go func() { io.Copy(&buf, onlyReader{r}); close(done) }()
		w, end = pw, func() string { pw.Close(); <-done; return buf.String() }
	case 7:
		// A buffer partly read, with room.
		buf.Grow(1 << 16)
		buf.WriteString("read before")
		buf.Next(len("read before"))
		w = &buf
	case 8:
		// A writer with other methods.
		f := &faultyWriter{left: math.MaxInt}
		w, end = dressedWriters[c.n(len(dressedWriters))](f), func() string {
			if f.closed {
				c.Fail("the writer has been closed")
			}
			return string(f.got)
		}
	case 9:
		// A terminal.
		pty, tty, err := openTerminal()
		if err != nil {
			c.Hit("no terminal")
			w = onlyWriter{&buf}
			break
		}
		c.Hit("terminal")
		w, end = tty, fromTerminal(pty, tty)
	default:
		w = onlyWriter{&buf}
	}
	io.WriteString(w, before)
	err := write(w)
	io.WriteString(w, after)
	s := end()
	if !strings.HasPrefix(s, before) {
		c.Fail("what was in the writer before is lost: %q", short(s))
		return s, err
	}
	if !strings.HasSuffix(s, after) {
		c.Fail("what was written afterwards is lost: %q", short(s))
		return s, err
	}
	return s[len(before) : len(s)-len(after)], err
}

// openTerminal makes a terminal that passes on what is written as it is.
func openTerminal() (pty, tty *os.File, err error) {
	pty, err = os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, err
	}
	ioctl := func(f *os.File, req uintptr, arg unsafe.Pointer) error {
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), req, uintptr(arg)); e != 0 {
			return e
		}
		return nil
	}
	var n, unlock int32
	if err = ioctl(pty, syscall.TIOCGPTN, unsafe.Pointer(&n)); err == nil {
		err = ioctl(pty, syscall.TIOCSPTLCK, unsafe.Pointer(&unlock))
	}
	if err == nil {
		tty, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	}
	if err == nil {
		var t syscall.Termios
		if err = ioctl(tty, syscall.TCGETS, unsafe.Pointer(&t)); err == nil {
			t.Oflag, t.Lflag, t.Iflag = 0, 0, 0
			err = ioctl(tty, syscall.TCSETS, unsafe.Pointer(&t))
		}
	}
	if err != nil {
		pty.Close()
		if tty != nil {
			tty.Close()
		}
		return nil, nil, err
	}
	return pty, tty, nil
}

// fromTerminal reads what is written to a terminal. The function it returns ends
// that, and returns it. A terminal may drop what has not been read when it is
// closed, so a mark is written at the end and waited for.
func fromTerminal(pty, tty *os.File) func() string {
	const mark = "\x04 end of terminal \x04"
	var mu sync.Mutex
	var buf bytes.Buffer
	more, done := make(chan bool, 1), make(chan bool)
	go func() {
		defer close(done)
		b := make([]byte, 4096)
		for {
			n, err := pty.Read(b)
			mu.Lock()
			buf.Write(b[:n])
			mu.Unlock()
			select {
			case more <- true:
			default:
			}
			if err != nil {
				return
			}
		}
	}()
	return func() string {
		io.WriteString(tty, mark)
		for whole, quiet := false, false; !whole && !quiet; {
			select {
			case <-more:
			case <-done:
				quiet = true
			case <-time.After(20 * time.Second):
				quiet = true
			}
			mu.Lock()
			whole = strings.HasSuffix(buf.String(), mark)
			mu.Unlock()
		}
		tty.Close()
		<-done
		pty.Close()
		return strings.TrimSuffix(buf.String(), mark)
	}
}

// withStdout runs f with another file as standard output of the process.
func withStdout(c *Case, file *os.File, f func() error) error {
	old, err := syscall.Dup(1)
	if err != nil {
		c.Error("%v", err)
		return nil
	}
	syscall.CloseOnExec(old)
	defer syscall.Close(old)
	if err := syscall.Dup3(int(file.Fd()), 1, 0); err != nil {
		c.Error("%v", err)
		return nil
	}
	defer syscall.Dup3(old, 1, 0)
	return f()
}

// onStdout returns what a function writes to standard output.
func onStdout(c *Case, f func() error) (string, error) {
	c.Hit("standard output")
	w, err := os.CreateTemp(c.Scratch(), "stdout")
	if err != nil {
		c.Error("%v", err)
		return "", err
	}
	defer os.Remove(w.Name())
	defer w.Close()
	w.WriteString("before\n")
	err = withStdout(c, w, f)
	w.WriteString("after\n")
	b, _ := os.ReadFile(w.Name())
	s := string(b)
	if !strings.HasPrefix(s, "before\n") || !strings.HasSuffix(s, "after\n") {
		return s, err
	}
	return s[len("before\n") : len(s)-len("after\n")], err
}
