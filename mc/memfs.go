package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"syscall"
	"time"
)

// memFS is an in-memory CreateFS. It records every name it is given and asks
// an optional fault function before each operation.
type memFS struct {
	files   map[string][]byte
	opened  []string
	created []string
	open    int // created files not yet closed
	closes  int
	dbl     bool // a file was closed twice
	ropen   int  // files opened for reading and not yet closed
	rbad    string
	fault   func(op, name string) faultKind
	err     error // error of injected faults, if not the default
}

type faultKind int

const (
	faultNone    faultKind = iota
	faultErr               // nothing done, error returned
	faultShort             // a part done, error returned
	faultShortOK           // a part done, no error (contract violation of the sink)
	faultPost              // all done, error returned
)

var errFault = errors.New("mc: injected fault")

// faultErrors are the errors a failing operation may report: nothing in the library may
// treat some of them as success. io.EOF itself is the end of a file for a Read, so that one
// (always the last) is only used for other operations.
var faultErrors = []error{
	errFault,
	&fs.PathError{Op: "read", Path: "x", Err: fs.ErrNotExist},
	&fs.PathError{Op: "open", Path: "x", Err: fs.ErrNotExist},
	&fs.PathError{Op: "write", Path: "x", Err: syscall.ENOSPC},
	&fs.PathError{Op: "close", Path: "x", Err: fs.ErrClosed},
	&fs.PathError{Op: "open", Path: "x", Err: fs.ErrPermission},
	&fs.PathError{Op: "open", Path: "x", Err: fs.ErrExist},
	&fs.PathError{Op: "open", Path: "x", Err: fs.ErrInvalid},
	&fs.PathError{Op: "read", Path: "x", Err: syscall.EISDIR},
	&fs.PathError{Op: "read", Path: "x", Err: syscall.EINTR},
	fs.ErrNotExist, fs.ErrClosed, fs.ErrExist, fs.ErrPermission, fs.ErrInvalid,
	io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrShortBuffer, io.ErrClosedPipe, io.ErrNoProgress,
	os.ErrDeadlineExceeded, context.Canceled, errors.ErrUnsupported,
	fmt.Errorf("mc: connection lost: %w", io.EOF),
	fmt.Errorf("mc: %w", fs.ErrNotExist),
	io.EOF,
}

const faultErrorsRead = 25 // without io.EOF

func (m *memFS) failErr(op, name string) error {
	if m.err != nil {
		return m.err
	}
	if op == "open" {
		return &fs.PathError{Op: "open", Path: name, Err: errFault}
	}
	return errFault
}

func newMemFS() *memFS { return &memFS{files: map[string][]byte{}} }

type memFile struct {
	r    *bytes.Reader
	name string
	size int64
	fs   *memFS
	shut bool
}

func (m *memFS) ask(op, name string) faultKind {
	if m.fault == nil {
		return faultNone
	}
	return m.fault(op, name)
}

func (m *memFS) Open(name string) (fs.File, error) {
	m.opened = append(m.opened, name)
	if m.ask("open", name) != faultNone {
		return nil, m.failErr("open", name)
	}
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrInvalid}
	}
	b, ok := m.files[name]
	if !ok {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	m.ropen++
	return &memFile{bytes.NewReader(b), name, int64(len(b)), m, false}, nil
}

func (f *memFile) Stat() (fs.FileInfo, error) {
	if f.fs.ask("stat", f.name) != faultNone {
		return nil, f.fs.failErr("stat", f.name)
	}
	return f, nil
}
func (f *memFile) Read(b []byte) (int, error) {
	if f.shut {
		f.fs.rbad = "read of the closed file " + f.name
		return 0, fs.ErrClosed
	}
	switch f.fs.ask("read", f.name) {
	case faultErr:
		return 0, f.fs.failErr("read", f.name)
	case faultShort:
		n, _ := f.r.Read(b[:min(len(b), 1)])
		return n, f.fs.failErr("read", f.name)
	case faultPost:
		n, _ := f.r.Read(b)
		return n, f.fs.failErr("read", f.name)
	case faultShortOK:
		return f.r.Read(b[:min(len(b), 1)])
	}
	return f.r.Read(b)
}
func (f *memFile) Close() error {
	if f.shut {
		f.fs.rbad = "second close of " + f.name
		return fs.ErrClosed
	}
	f.shut = true
	f.fs.ropen--
	if f.fs.ask("rclose", f.name) != faultNone {
		return f.fs.failErr("rclose", f.name)
	}
	return nil
}
func (f *memFile) Name() string       { return f.name }
func (f *memFile) Size() int64        { return f.size }
func (f *memFile) Mode() fs.FileMode  { return 0o444 }
func (f *memFile) ModTime() time.Time { return time.Time{} }
func (f *memFile) IsDir() bool        { return false }
func (f *memFile) Sys() any           { return nil }

type memWriter struct {
	fs     *memFS
	name   string
	closed bool
}

func (m *memFS) Create(name string) (io.WriteCloser, error) {
	m.created = append(m.created, name)
	if m.ask("create", name) != faultNone {
		return nil, m.failErr("create", name)
	}
	m.files[name] = nil
	m.open++
	return &memWriter{fs: m, name: name}, nil
}

func (w *memWriter) Write(b []byte) (int, error) {
	if w.closed {
		w.fs.rbad = "write to the closed file " + w.name
		return 0, fs.ErrClosed
	}
	n, err := len(b), error(nil)
	switch w.fs.ask("write", w.name) {
	case faultErr:
		n, err = 0, w.fs.failErr("write", w.name)
	case faultShort:
		n, err = len(b)/2, w.fs.failErr("write", w.name)
	case faultShortOK:
		n = len(b) / 2
	case faultPost:
		err = w.fs.failErr("write", w.name)
	}
	w.fs.files[w.name] = append(w.fs.files[w.name], b[:n]...)
	return n, err
}

func (w *memWriter) Close() error {
	if w.closed {
		w.fs.dbl = true
		return fs.ErrClosed
	}
	w.closed = true
	w.fs.open--
	w.fs.closes++
	if w.fs.ask("close", w.name) != faultNone {
		return w.fs.failErr("close", w.name)
	}
	return nil
}
