package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	goast "go/ast"
	"io"
	"math/bits"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"syscall"
	"unicode/utf8"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/printer"
	"github.com/mmcloughlin/ssarules/smt2"
)

var errDisk = errors.New("disk fault 4711")

// faultKind is an error of some kind: temporary ones, timeouts, errors of the
// system, and those with a meaning of their own elsewhere.
type faultKind struct {
	msg                string
	temporary, timeout bool
}

func (e *faultKind) Error() string   { return e.msg }
func (e *faultKind) Temporary() bool { return e.temporary }
func (e *faultKind) Timeout() bool   { return e.timeout }

// Errors of other shapes: lists, which cannot be compared; nil pointers; and one
// that claims to be every other.
type (
	faultList   []string
	faultStruct struct{ msgs []string }
	faultMap    map[string]bool
	faultNil    struct{}
	faultIs     struct{ msg string }
	faultValue  struct{}
)

func (e faultList) Error() string   { return strings.Join(e, "; ") }
func (e faultStruct) Error() string { return strings.Join(e.msgs, ", ") }
func (e faultMap) Error() string    { return fmt.Sprintf("%d faults 4717", len(e)) }
func (e *faultNil) Error() string   { return "nil fault 4718" }
func (e *faultIs) Error() string    { return e.msg }
func (e *faultIs) Is(error) bool    { return true }
func (e faultValue) Error() string  { return "fault 4720\nover two lines" }
func (e faultList) Unwrap() []error { return []error{io.EOF, nil} }
func (e faultStruct) Unwrap() error { return io.EOF }
func (e faultStruct) Is(error) bool { return false }

// sameFault reports whether an error is, wraps, or tells of a fault.
func sameFault(err, fault error) bool {
	return strings.Contains(err.Error(), fault.Error()) || reflect.TypeOf(fault).Comparable() && errors.Is(err, fault)
}

var faultKinds = []error{
	errDisk,
	&faultKind{"try again 4712", true, false},
	&faultKind{"too late 4713", true, true},
	&faultKind{"no 4714", false, false},
	io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrClosedPipe, io.ErrShortBuffer, io.ErrNoProgress,
	os.ErrClosed, os.ErrDeadlineExceeded, os.ErrNotExist, os.ErrPermission,
	syscall.EINTR, syscall.EAGAIN, syscall.ENOSPC, syscall.EPIPE, syscall.EIO,
	&os.PathError{Op: "write", Path: "p", Err: syscall.EAGAIN},
	fmt.Errorf("wrapped: %w", io.EOF), fmt.Errorf("wrapped: %w", syscall.EPIPE),
	errors.Join(errDisk, io.EOF), context.Canceled, context.DeadlineExceeded,
	errors.New("not supported"), errors.New(""),
	faultList{"one 4715", "two"}, faultStruct{[]string{"one 4716"}}, faultMap{"a": true}, (*faultNil)(nil), &faultIs{"any 4719"}, faultValue{},
	errors.Join(faultList{"joined 4721"}, io.EOF), fmt.Errorf("wrapped 4722: %w", faultList{"list"}), faultList{},
}

// faultyWriter accepts so many bytes and then fails, for good or once.
type faultyWriter struct {
	left  int
	once  bool
	whole bool // fails without taking a part of the write
	got   []byte
	fails int
	late  int // bytes accepted after a failure
	err   error

	closed bool
}

func (w *faultyWriter) Write(p []byte) (int, error) {
	if w.fails > 0 && w.once {
		w.late += len(p)
		w.got = append(w.got, p...)
		return len(p), nil
	}
	if len(p) > w.left || w.fails > 0 {
		n := w.left
		if w.whole || w.fails > 0 {
			n = 0
		}
		w.got = append(w.got, p[:n]...)
		w.left -= n
		w.fails++
		return n, w.err
	}
	w.left -= len(p)
	w.got = append(w.got, p...)
	return len(p), nil
}

// Writers have other methods too.
type (
	stringWriter struct{ *faultyWriter }
	byteWriter   struct{ *faultyWriter }
	readFrom     struct{ *faultyWriter }
	richWriter   struct {
		stringWriter
		bytes byteWriter
		from  readFrom
	}
	valueWriter struct {
		*faultyWriter
		none []int
	}
)

func (w stringWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

func (w byteWriter) WriteByte(b byte) error {
	_, err := w.Write([]byte{b})
	return err
}

func (w byteWriter) WriteRune(r rune) (int, error) { return w.Write([]byte(string(r))) }

func (w readFrom) ReadFrom(r io.Reader) (n int64, err error) {
	return io.Copy(onlyWriter{w.faultyWriter}, onlyReader{r})
}

func (w richWriter) WriteByte(b byte) error              { return w.bytes.WriteByte(b) }
func (w richWriter) WriteRune(r rune) (int, error)       { return w.bytes.WriteRune(r) }
func (w richWriter) ReadFrom(r io.Reader) (int64, error) { return w.from.ReadFrom(r) }
func (w richWriter) WriteAt([]byte, int64) (int, error)  { return 0, errors.New("not at a place") }
func (w richWriter) Seek(int64, int) (int64, error)      { return 0, errors.New("not seekable") }
func (w richWriter) Stat() (os.FileInfo, error)          { return nil, errors.New("no file") }
func (w richWriter) Fd() uintptr                         { return ^uintptr(0) }
func (w richWriter) Len() int                            { return len(w.stringWriter.got) }
func (w richWriter) Available() int                      { return 0 }
func (w richWriter) Flush() error                        { return nil }
func (w richWriter) Sync() error                         { return nil }
func (w richWriter) String() string                      { return string(w.stringWriter.got) }

func (w richWriter) Close() error {
	w.stringWriter.closed = true
	return nil
}

var dressedWriters = []func(w *faultyWriter) io.Writer{
	func(w *faultyWriter) io.Writer { return w },
	func(w *faultyWriter) io.Writer { return stringWriter{w} },
	func(w *faultyWriter) io.Writer { return byteWriter{w} },
	func(w *faultyWriter) io.Writer { return readFrom{w} },
	func(w *faultyWriter) io.Writer { return richWriter{stringWriter{w}, byteWriter{w}, readFrom{w}} },
	func(w *faultyWriter) io.Writer { return onlyWriter{w} },
	func(w *faultyWriter) io.Writer { return valueWriter{w, nil} },
	func(w *faultyWriter) io.Writer { return io.MultiWriter(w) },
	func(w *faultyWriter) io.Writer { return writeFunc(w.Write) },
}

type writeFunc func(p []byte) (int, error)

func (f writeFunc) Write(p []byte) (int, error) { return f(p) }

// checkWriter prints to a writer that fails after k bytes.
func checkWriter(c *Case, what string, full []byte, k int, print func(w io.Writer) error) {
	fault := faultKinds[0]
	if c.p(1, 2) {
		fault = faultKinds[c.n(len(faultKinds))]
	}
	w := &faultyWriter{left: k, once: c.p(1, 2), whole: c.p(1, 2), err: fault}
	dress := c.n(len(dressedWriters))
	if c.p(1, 2) {
		dress = 0
	}
	err := print(dressedWriters[dress](w))
	c.w.st.Hist[fmt.Sprintf("faulty writer of kind %d", dress)]++
	c.Eval(1)
	switch {
	case w.fails == 0 && err != nil:
		c.Fail("%s: error without a fault: %v", what, err)
	case w.fails == 0 && !bytes.Equal(w.got, full):
		c.Fail("%s: no fault, but %s", what, diff(string(full), string(w.got)))
	case w.fails == 0 && k < len(full):
		c.Fail("%s: writer of %d bytes took %d", what, k, len(w.got))
	case w.fails > 0 && err == nil:
		c.Fail("%s: fault after %d of %d bytes not reported", what, k, len(full))
	case w.fails > 0 && !sameFault(err, fault):
		c.Fail("%s: the fault is reported as another error: %v", what, err)
	case !bytes.HasPrefix(full, w.got):
		c.Fail("%s: fault after %d of %d bytes: written is no beginning of the text: %s", what, k, len(full), diff(string(full), string(w.got)))
	}
	c.Hit(fmt.Sprintf("error %T %v", fault, fault))
	c.Hit(fmt.Sprintf("%s: fault %v, once %v", what, w.fails > 0, w.once))
	if w.closed {
		c.Fail("%s: the writer has been closed", what)
	}
}

// checkWriters tries faults at all places of the output of a node, or at many.
func checkWriters(c *Case, n ast.Node) {
	if b, err := printer.Bytes(n); err == nil {
		for _, k := range faultPlaces(c, len(b)) {
			checkWriter(c, "printer.Fprint", b, k, func(w io.Writer) error { return printer.Fprint(w, n) })
		}
		c.Distinct(string(b))
	} else {
		c.Fail("not printed: %v", err)
	}
	if s, err := ast.Dump(n); err == nil {
		for i, k := range faultPlaces(c, len(s)) {
			if i < 40 {
				checkWriter(c, "ast.Fprint", []byte(s), k, func(w io.Writer) error { return ast.Fprint(w, n) })
			}
		}
	} else {
		c.Fail("not dumped: %v", err)
	}
}

var lateSizes = []int{4096, 8192, 32768, 65536, 131072, 1 << 18, 1 << 19, 1 << 20, 1<<20 + 65536, 1 << 21, 3 << 20}

func faultPlaces(c *Case, n int) []int {
	var out []int
	if n <= 150 {
		for k := 0; k <= n+1; k++ {
			out = append(out, k)
		}
	} else {
		out = append(out, 0, 1, n-1, n, n+1)
		for i := 0; i < 60; i++ {
			out = append(out, c.n(n))
		}
	}
	c.shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

// faultyReader fails after some bytes, with or next to the last of them.
type faultyReader struct {
	s    string
	with bool
	max  int
	err  error

	closed bool
}

func (r *faultyReader) Read(p []byte) (int, error) {
	if len(r.s) == 0 {
		return 0, r.err
	}
	n := min(r.max, len(p), len(r.s))
	copy(p, r.s[:n])
	r.s = r.s[n:]
	if r.with && len(r.s) == 0 {
		return n, r.err
	}
	return n, nil
}

// Readers have other methods too.
type (
	writerTo   struct{ *faultyReader }
	byteReader struct{ *faultyReader }
	lenReader  struct{ *faultyReader }
	richReader struct {
		writerTo
		bytes byteReader
	}
	readFunc func(p []byte) (int, error)
)

func (f readFunc) Read(p []byte) (int, error) { return f(p) }

func (r writerTo) WriteTo(w io.Writer) (n int64, err error) {
	return io.Copy(onlyWriter{w}, onlyReader{r.faultyReader})
}

func (r byteReader) ReadByte() (byte, error) {
	if len(r.s) == 0 {
		return 0, r.err
	}
	b := r.s[0]
	r.s = r.s[1:]
	return b, nil
}

func (r byteReader) ReadRune() (rune, int, error) {
	if len(r.s) == 0 {
		return 0, 0, r.err
	}
	c, n := utf8.DecodeRuneInString(r.s)
	r.s = r.s[n:]
	return c, n, nil
}

func (r lenReader) Len() int    { return len(r.s) }
func (r lenReader) Size() int64 { return int64(len(r.s)) }

func (r richReader) ReadByte() (byte, error)           { return r.bytes.ReadByte() }
func (r richReader) ReadRune() (rune, int, error)      { return r.bytes.ReadRune() }
func (r richReader) Len() int                          { return len(r.bytes.s) }
func (r richReader) Size() int64                       { return int64(len(r.bytes.s)) }
func (r richReader) Seek(int64, int) (int64, error)    { return 0, errors.New("not seekable") }
func (r richReader) ReadAt([]byte, int64) (int, error) { return 0, errors.New("not at a place") }
func (r richReader) Stat() (os.FileInfo, error)        { return nil, errors.New("no file") }
func (r richReader) Name() string                      { return "/nowhere" }
func (r richReader) String() string                    { return "(Reader x) => x" }
func (r richReader) Bytes() []byte                     { return []byte("(Reader x) => x") }
func (r richReader) Buffered() int                     { return 0 }

func (r richReader) Close() error {
	r.bytes.closed = true
	return nil
}

var dressedReaders = []func(r *faultyReader) io.Reader{
	func(r *faultyReader) io.Reader { return r },
	func(r *faultyReader) io.Reader { return writerTo{r} },
	func(r *faultyReader) io.Reader { return byteReader{r} },
	func(r *faultyReader) io.Reader { return lenReader{r} },
	func(r *faultyReader) io.Reader { return richReader{writerTo{r}, byteReader{r}} },
	func(r *faultyReader) io.Reader { return onlyReader{r} },
	func(r *faultyReader) io.Reader { return readFunc(r.Read) },
	func(r *faultyReader) io.Reader { return bufio.NewReaderSize(r, 16) },
	func(r *faultyReader) io.Reader { return io.MultiReader(strings.NewReader(""), r) },
	func(r *faultyReader) io.Reader { return io.TeeReader(r, io.Discard) },
	func(r *faultyReader) io.Reader { return io.LimitReader(r, 1<<40) },
}

// badNode returns a node with something in it that cannot be printed.
func badNode(c *Case) (*ast.File, string) {
	m := randomModel(c.RNG)
	for len(m.Rules) == 0 {
		m = randomModel(c.RNG)
	}
	f := toRepoFile(m)
	r := f.Rules[c.n(len(f.Rules))]
	var ss []*ast.SExpr
	var walk func(v ast.Value)
	walk = func(v ast.Value) {
		if s, ok := v.(*ast.SExpr); ok {
			ss = append(ss, s)
			for _, a := range s.Args {
				walk(a)
			}
		}
	}
	walk(r.Match)
	walk(r.Result)
	bad := []goast.Expr{
		&goast.IndexExpr{X: &goast.Ident{Name: "a"}, Index: &goast.Ident{Name: "i"}},
		&goast.SliceExpr{X: &goast.Ident{Name: "a"}},
		&goast.CompositeLit{Type: &goast.Ident{Name: "T"}},
		&goast.TypeAssertExpr{X: &goast.Ident{Name: "a"}, Type: &goast.Ident{Name: "T"}},
		&goast.BadExpr{},
		&goast.KeyValueExpr{Key: &goast.Ident{Name: "a"}, Value: &goast.Ident{Name: "b"}},
		&goast.ArrayType{Elt: &goast.Ident{Name: "a"}},
		&goast.FuncLit{Type: &goast.FuncType{Params: &goast.FieldList{}}, Body: &goast.BlockStmt{}},
		&goast.Ellipsis{}, nil,
		// Parts are missing.
		&goast.SelectorExpr{X: &goast.Ident{Name: "a"}}, &goast.SelectorExpr{Sel: &goast.Ident{Name: "a"}},
		&goast.CallExpr{Fun: &goast.Ident{Name: "f"}, Ellipsis: 1}, &goast.CallExpr{Fun: &goast.Ident{Name: "f"}, Ellipsis: 1, Args: []goast.Expr{}},
		&goast.CallExpr{}, &goast.CallExpr{Args: []goast.Expr{&goast.Ident{Name: "a"}}}, &goast.CallExpr{Fun: &goast.Ident{Name: "f"}, Args: []goast.Expr{nil}, Ellipsis: 1},
		&goast.ParenExpr{}, &goast.StarExpr{}, &goast.UnaryExpr{Op: goTokens["-"]}, &goast.UnaryExpr{Op: goTokens["&"]},
		&goast.BinaryExpr{X: &goast.Ident{Name: "a"}, Op: goTokens["-"]}, &goast.BinaryExpr{Op: goTokens["&&"], Y: &goast.Ident{Name: "a"}},
		// Of no use in expressions.
		&goast.FuncType{}, &goast.InterfaceType{}, &goast.StructType{}, &goast.MapType{}, &goast.ChanType{}, &goast.IndexListExpr{X: &goast.Ident{Name: "a"}},
	}[c.n(29)]
	// Bury it.
	for i := c.n(4); i > 0; i-- {
		x := &goast.Ident{Name: "x"}
		switch c.n(11) {
		case 8:
			bad = &goast.CallExpr{Fun: x, Args: []goast.Expr{x, bad}, Ellipsis: 1}
		case 9:
			bad = &goast.BinaryExpr{X: x, Op: goTokens["&"], Y: bad}
		case 10:
			bad = &goast.UnaryExpr{Op: goTokens["&"], X: bad}
		case 0:
			bad = &goast.ParenExpr{X: bad}
		case 1:
			bad = &goast.CallExpr{Fun: x, Args: []goast.Expr{x, bad, x}}
		case 2:
			bad = &goast.CallExpr{Fun: bad}
		case 3:
			bad = &goast.BinaryExpr{X: bad, Op: goTokens["+"], Y: x}
		case 4:
			bad = &goast.BinaryExpr{X: x, Op: goTokens["&&"], Y: bad}
		case 5:
			bad = &goast.UnaryExpr{Op: goTokens["-"], X: bad}
		case 6:
			bad = &goast.StarExpr{X: bad}
		default:
			bad = &goast.SelectorExpr{X: bad, Sel: x}
		}
	}
	what := fmt.Sprintf("%T", bad)
	kinds := 4
	if len(ss) == 0 {
		kinds = 2
	}
	switch c.n(kinds) {
	case 0:
		r.Condition = &ast.Expr{Expr: bad}
		return f, what + " as condition"
	case 1:
		v := []ast.Value{nil, &ast.Expr{Expr: bad}}[c.n(2)]
		if c.p(1, 2) {
			r.Match = v
		} else {
			r.Result = v
		}
		return f, "a bad value at the top"
	}
	s := ss[c.n(len(ss))]
	switch c.n(5) {
	case 0:
		s.AuxInt = &ast.Expr{Expr: bad}
		return f, what + " as auxint"
	case 1:
		s.Aux = &ast.Expr{Expr: bad}
		return f, what + " as aux"
	case 2:
		s.Op = nil
		return f, "no opcode"
	case 3:
		s.Op = ast.OpcodeParts{ast.Opcode("A"), nil, ast.OpcodeAlt{"B", "C"}}
		return f, "no opcode part"
	default:
		s.Args = append(s.Args, []ast.Value{nil, &ast.Expr{Expr: bad}}[c.n(2)])
		c.shuffle(len(s.Args), func(i, j int) { s.Args[i], s.Args[j] = s.Args[j], s.Args[i] })
		return f, "a bad argument"
	}
}

func init() {
	register(&Check{
		ID:       "C13",
		MinEvals: 50000,
		Rule: "A case injects faults: writers that fail after k bytes (all k for short outputs), once or for good, with or without a partial write; readers that fail after k bytes; readers and writers with all kinds of further methods, and errors of all kinds, those that cannot be compared included; a full device, a closed file; trees with something unprintable in one place; and for the command, output and input files that are missing, in the way, full, or limited in size. " +
			"Non-trivial: every node or run; distinct by text.",
		Assumptions: []string{"writers and readers keep to the contracts of io.Writer and io.Reader"},
		Streams: func(t Tier) []Stream {
			return []Stream{
				{"writers", t.n(1500, 60000), func(c *Case) {
					g := newGen(c.RNG, 4+c.heavy(20))
					m := g.file(1 + c.n(3))
					c.Input(printFileM(m))
					f := toRepoFile(m)
					checkWriters(c, f)
					all := treeFrom(f).preorder(nil)
					n := all[c.n(len(all))].node
					if e, ok := n.(ast.Variable); !ok || e != "" {
						checkWriters(c, n)
					}
				}},
				{"attributes", nAttr * 24 / 4 * t.n(1, 8), func(c *Case) {
					m := attrModel(newGen(c.RNG, 6), c.Idx%nAttr, c.Idx/nAttr*4+c.n(4))
					c.Input(printFileM(m))
					checkWriters(c, toRepoFile(m))
				}},
				{"large", t.n(60, 2000), func(c *Case) {
					m := randomModel(c.RNG)
					for i := 0; i < 20; i++ {
						m.Rules = append(m.Rules, randomModel(c.RNG).Rules...)
					}
					c.Input(short(printFileM(m)))
					checkWriters(c, toRepoFile(m))
				}},
				{"standard output", t.n(200, 2000), func(c *Case) {
					m := randomModel(c.RNG)
					for len(m.Rules) == 0 {
						m = randomModel(c.RNG)
					}
					f := toRepoFile(m)
					full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
					if err != nil {
						c.Hit("skipped: no /dev/full")
						return
					}
					closed, err := os.Open(os.DevNull) // cannot be written
					if err != nil {
						c.Error("%v", err)
						return
					}
					defer closed.Close()
					good := filepath.Join(c.Scratch(), "stdout")
					for i, print := range []func(ast.Node) error{printer.Print, ast.Print} {
						for k, w := range []*os.File{full, closed} {
							if withStdout(c, w, func() error { return print(f) }) == nil {
								c.Fail("printing to standard output that fails (way %d, function %d) gives no error", k, i)
							}
							c.Eval(1)
						}
						// And one that does not fail.
						w, err := os.Create(good)
						if err != nil {
							c.Error("%v", err)
							return
						}
						err = withStdout(c, w, func() error { return print(f) })
						w.Close()
						b, _ := os.ReadFile(good)
						var want []byte
						if i == 0 {
							want, _ = printer.Bytes(f)
						} else {
							s, _ := ast.Dump(f)
							want = []byte(s)
						}
						if err != nil || !bytes.Equal(b, want) {
							c.Fail("printed to standard output (function %d): error %v, %s", i, err, diff(string(want), string(b)))
						}
						c.Eval(1)
					}
					full.Close()
					c.Hit("standard output replaced")
				}},
				{"readers", t.n(6000, 200000), func(c *Case) {
					g := newGen(c.RNG, 5)
					text := newRend(c.RNG).file(g.file(c.n(4)))
					k := c.n(len(text) + 1)
					if c.p(1, 3) {
						// Where the text so far is complete.
						if j := strings.LastIndexByte(text[:k], '\n'); j >= 0 {
							k = j + 1
						}
					}
					if c.p(1, 4) {
						k = len(text)
					}
					fault := faultKinds[c.n(len(faultKinds))]
					for fault == io.EOF {
						fault = faultKinds[c.n(len(faultKinds))]
					}
					c.Input(fmt.Sprintf("%v after %d bytes of %q", fault, k, text))
					r := &faultyReader{s: text[:k], with: c.p(1, 2), max: 1 + c.heavy(4000), err: fault}
					dress := c.n(len(dressedReaders))
					f, err := parse.Reader("in", dressedReaders[dress](r))
					c.Hit(fmt.Sprintf("faulty reader of kind %d", dress))
					if r.closed {
						c.Fail("the reader has been closed")
					}
					c.Eval(1)
					if err == nil || f != nil {
						c.Fail("reader that failed: result %v, error %v", f != nil, err)
					} else if !sameFault(err, fault) {
						c.Fail("the fault of the reader is reported as another error: %v", err)
					}
					c.Hit("reader failed")
				}},
				{"late reader faults", len(lateSizes) * t.n(4, 40), func(c *Case) {
					// A reader that fails after very much text, complete so far.
					n := lateSizes[c.Idx%len(lateSizes)] + c.n(3) - 1
					line := []string{"(A x) => x\n", "// " + strings.Repeat("-", 60) + "\n", "\n", "(A x [a.b+1]) => (B x)\n"}[c.n(4)]
					if n > 1<<17 {
						line = "// " + strings.Repeat("-", 6000) + "\n" // quick to parse, if it is
					}
					text := strings.Repeat(line, n/len(line))
					text += strings.Repeat("\n", n-len(text))
					fault := faultKinds[c.n(len(faultKinds))]
					for fault == io.EOF {
						fault = faultKinds[c.n(len(faultKinds))]
					}
					r := &faultyReader{s: text, with: c.p(1, 2), max: []int{1 << 30, 4096, 512, 65536, 1 << 20}[c.n(5)], err: fault}
					dress := c.n(len(dressedReaders))
					c.Input(fmt.Sprintf("%v after %d bytes from a reader of kind %d", fault, n, dress))
					f, err := parse.Reader("in", dressedReaders[dress](r))
					c.Eval(1)
					if err == nil || f != nil {
						c.Fail("reader that failed: result %v, error %v", f != nil, err)
					} else if !sameFault(err, fault) {
						c.Fail("the fault of the reader is reported as another error: %v", err)
					}
					c.Hit(fmt.Sprintf("reader failed after 2^%d bytes", bits.Len(uint(n))))
				}},
				{"late writer faults", len(lateSizes) * t.n(4, 40), func(c *Case) {
					// A writer that fails after very much text.
					n := lateSizes[c.Idx%len(lateSizes)] + c.n(3) - 1
					g := newGen(c.RNG, 10)
					r := toRepoRule(g.rule())
					b, err := printer.Bytes(r)
					if err != nil || len(b) < 5 {
						return
					}
					f := &ast.File{}
					if c.p(1, 2) {
						for i := 0; i <= n/(len(b)+1)+1; i++ {
							f.Rules = append(f.Rules, r)
						}
					} else {
						op := &ast.SExpr{Op: ast.Opcode("A")}
						for i := 0; i < n/8+1; i++ {
							op.Args = append(op.Args, ast.Variable("variable"))
						}
						f.Rules = append(f.Rules, r, &ast.Rule{Match: op, Result: op}, r)
					}
					full, err := printer.Bytes(f)
					if err != nil {
						c.Fail("not printed: %v", err)
						return
					}
					c.Input(fmt.Sprintf("%d of %d bytes", n, len(full)))
					if n > len(full) {
						n = len(full) - 1
					}
					for _, k := range []int{n, len(full) - 1, c.n(len(full))} {
						checkWriter(c, "printer.Fprint", full, k, func(w io.Writer) error { return printer.Fprint(w, f) })
					}
					if n <= 1<<17 {
						if s, err := ast.Dump(f); err == nil {
							for _, k := range []int{n, len(s) - 1, c.n(len(s))} {
								checkWriter(c, "ast.Fprint", []byte(s), k, func(w io.Writer) error { return ast.Fprint(w, f) })
							}
						} else {
							c.Fail("not dumped: %v", err)
						}
					}
					c.Hit(fmt.Sprintf("writer failed after 2^%d bytes", bits.Len(uint(n))))
				}},
				{"unprintable", t.n(10000, 300000), func(c *Case) {
					f, what := badNode(c)
					c.Input(what)
					b, err := printer.Bytes(f)
					c.Eval(1)
					if err == nil || b != nil {
						c.Fail("%s: printed as %s, error %v", what, short(string(b)), err)
						return
					}
					var buf bytes.Buffer
					if printer.Fprint(&buf, f) == nil {
						c.Fail("%s: Fprint gives no error", what)
					}
					for _, r := range f.Rules {
						// A rule that cannot be printed has no script.
						_, perr := printer.Bytes(r)
						s, err := smt2.Generate(r)
						c.Eval(1)
						if perr != nil && (err == nil || len(s) != 0) {
							c.Fail("%s: a script of a rule that cannot be printed: error %v", what, err)
						}
					}
					c.Hit("unprintable: " + what)
					c.Distinct(what + buf.String())
				}},
				{"odd roots", 1, func(c *Case) {
					for _, n := range []ast.Node{nil, ast.OpcodeParts{nil}, &ast.Expr{}} {
						b, err := printer.Bytes(n)
						c.Eval(1)
						if err == nil || b != nil {
							c.Fail("%v printed as %q, error %v", reflect.TypeOf(n), b, err)
						}
					}
				}},
				{"command", t.n(500, 8000), func(c *Case) { faultyCommand(c) }},
			}
		},
	})
}

// faultyCommand runs the command with a fault in its way.
func faultyCommand(c *Case) {
	dir := workdir(c)
	n := 1 + c.n(12)
	m := &MFile{}
	for i := 0; i < n; i++ {
		g := newSMTGen(c.RNG, 3)
		m.Rules = append(m.Rules, g.rule(smtWidths[c.n(5)], 1+c.n(3)))
	}
	for i := range m.Rules {
		if i > 0 && c.p(1, 4) {
			m.Rules[i] = &MRule{Match: &MS{Op: lit("Mul64")}, Result: MVar("x")}
		}
	}
	os.WriteFile(filepath.Join(dir, "in.rules"), []byte(printFileM(m)), 0o644)
	os.Mkdir(filepath.Join(dir, "out"), 0o755)
	scripts, _, err := expectCLI(c, []*MFile{m}, []string{"in.rules"}, "out")
	if err != nil || len(scripts) == 0 {
		return
	}
	k := c.n(n)
	for scripts[fmt.Sprintf("%04d.smt2", k)] == "" {
		k = c.n(n)
	}
	name := filepath.Join("out", fmt.Sprintf("%04d.smt2", k))
	prog, args := os.Getenv("SSARULES_CLI"), []string{"-outdir", "out", "in.rules"}
	kind := c.Idx % 7
	what := ""
	fail := true
	switch kind {
	case 0:
		what, args[1] = "missing output directory", "none"
		k = 0
	case 1:
		what, args[1] = "output directory is a file", "in.rules"
		k = 0
	case 2:
		what = "directory in the way"
		os.MkdirAll(filepath.Join(dir, name), 0o755)
	case 3:
		what = "full device"
		if os.Symlink("/dev/full", filepath.Join(dir, name)) != nil {
			return
		}
	case 4:
		what = "link to nowhere"
		os.Symlink(filepath.Join(dir, "no", "where"), filepath.Join(dir, name))
	case 5:
		what = "file size limit"
		args = append([]string{"-c", `ulimit -f 0; exec "$0" "$@"`, prog}, args...)
		prog = "/bin/bash"
		k = 0
	default:
		what, fail = "no fault", false
		k = n
	}
	c.Input(fmt.Sprintf("%s at %s: %q\n%s", what, name, args, printFileM(m)))
	c.Hit("command: " + what)
	exit, _, stderr := runProgram(c, dir, prog, args...)
	c.Eval(1)
	if (kind == 3 || kind == 4) && exit == 0 {
		// A command that puts a file of its own in place of the link does
		// not meet the fault; the script has to be there then.
		info, err := os.Lstat(filepath.Join(dir, name))
		b, _ := os.ReadFile(filepath.Join(dir, name))
		if err == nil && info.Mode().IsRegular() && "file "+string(b) == scripts[filepath.Base(name)] {
			c.Hit("command: link replaced")
			fail, k = false, n
		}
	}
	if fail != (exit != 0) {
		c.Fail("%s: exit status %d: %s", what, exit, short(stderr))
		return
	}
	if fail && strings.TrimSpace(stderr) == "" {
		c.Fail("%s: no message", what)
	}
	if fail && strings.Contains(stderr, "smt2: written to "+name+"\n") && kind != 5 {
		c.Fail("%s: reported as written: %s", what, short(stderr))
	}
	// The scripts before it are there and whole; nothing is, that is none.
	for i := 0; i < n; i++ {
		f := fmt.Sprintf("%04d.smt2", i)
		var b []byte
		info, err := os.Lstat(filepath.Join(dir, "out", f))
		if err == nil && info.Mode().IsRegular() {
			b, err = os.ReadFile(filepath.Join(dir, "out", f))
		}
		if i < k && scripts[f] != "" && (err != nil || "file "+string(b) != scripts[f]) {
			c.Fail("%s at %d: script %d is missing or wrong", what, k, i)
		}
		if scripts[f] == "" && err == nil {
			c.Fail("%s: unexpected script %d", what, i)
		}
		c.Eval(1)
	}
}
