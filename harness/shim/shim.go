// Package shim holds the stand-ins the symbolic executor uses for functions outside the repository.
package shim

import (
	"errors"
	"hash"
	"io"
	"io/fs"
	"os"

	"github.com/iotaledger/trie.go/verifh/sym"
)

// RuntimeError is the type of run-time panics.
type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }
func (e RuntimeError) RuntimeError() {}

type fmtErr struct {
	msg string
	err error
}

func (e *fmtErr) Error() string { return e.msg }
func (e *fmtErr) Unwrap() error { return e.err }

func hasW(s string) bool {
	for i := 0; i+1 < len(s); i++ {
		if s[i] == '%' && s[i+1] == 'w' {
			return true
		}
	}
	return false
}

// Errorf stands for fmt.Errorf and xerrors.Errorf: the message stays opaque, wrapping is kept.
func Errorf(format string, a ...interface{}) error {
	if hasW(format) {
		for _, x := range a {
			if e, ok := x.(error); ok {
				return &fmtErr{format, e}
			}
		}
	}
	return &fmtErr{format, nil}
}

type strErr struct{ s string }

func (e *strErr) Error() string { return e.s }

func NewError(s string) error { return &strErr{s} }

func Wrapf(err error, format string, a ...interface{}) error {
	if err == nil {
		return nil
	}
	return &fmtErr{format, err}
}

func Wrap(err error, msg string) error {
	if err == nil {
		return nil
	}
	return &fmtErr{msg, err}
}

// Is stands for errors.Is.
func Is(err, target error) bool {
	for {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if Is(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func assignTo(err error, target interface{}) bool { panic("engine only") }

// As stands for errors.As.
func As(err error, target interface{}) bool {
	for err != nil {
		if assignTo(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(interface{}) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if e != nil && As(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

type joined struct{ errs []error }

func (e *joined) Error() string   { return e.errs[0].Error() }
func (e *joined) Unwrap() []error { return e.errs }

// Join stands for errors.Join.
func Join(errs ...error) error {
	e := &joined{}
	for _, x := range errs {
		if x != nil {
			e.errs = append(e.errs, x)
		}
	}
	if len(e.errs) == 0 {
		return nil
	}
	return e
}

// ---- hashes ----

func Sum256(data []byte) [32]byte {
	var r [32]byte
	copy(r[:], sym.Hash(data, 32))
	return r
}

type digest struct {
	buf  []byte
	size int
}

func (d *digest) Write(p []byte) (int, error) {
	d.buf = append(d.buf, p...)
	return len(p), nil
}
func (d *digest) Sum(b []byte) []byte { return append(b, sym.Hash(d.buf, d.size)...) }
func (d *digest) Reset()              { d.buf = nil }
func (d *digest) Size() int           { return d.size }
func (d *digest) BlockSize() int      { return 128 }

func NewHash(size int, key []byte) (hash.Hash, error) {
	if size < 1 || size > 64 || len(key) > 0 {
		return nil, errors.New("blake2b: unsupported")
	}
	return &digest{size: size}, nil
}

func New256(key []byte) (hash.Hash, error) { return NewHash(32, key) }

// ---- files: in memory ----

type memFile struct {
	data []byte
	full bool // a link to /dev/full: what is written does not fit
	dir  bool
}
type handle struct {
	f      *memFile
	pos    int
	closed bool
	name   string
}

type fsState struct {
	files   map[string]*memFile
	handles map[*os.File]*handle
}

var state *fsState

func st() *fsState {
	if state == nil {
		state = &fsState{files: map[string]*memFile{}, handles: map[*os.File]*handle{}}
	}
	return state
}

func Create(name string) (*os.File, error) {
	s := st()
	m := s.files[name]
	switch {
	case m == nil:
		m = &memFile{}
		s.files[name] = m
	case m.dir:
		return nil, errFile
	}
	m.data = nil
	f := new(os.File)
	s.handles[f] = &handle{f: m, name: name}
	return f, nil
}

var errFile = NewError("file error")

// Symlink is a link to /dev/full.
func Symlink(old, name string) error {
	if old != "/dev/full" {
		panic("link to another file than /dev/full")
	}
	st().files[name] = &memFile{full: true}
	return nil
}

func Mkdir(name string, _ os.FileMode) error {
	st().files[name] = &memFile{dir: true}
	return nil
}

func Open(name string) (*os.File, error) {
	s := st()
	m, ok := s.files[name]
	if !ok {
		return nil, fs.ErrNotExist
	}
	f := new(os.File)
	s.handles[f] = &handle{f: m, name: name}
	return f, nil
}

func ReadFile(name string) ([]byte, error) {
	s := st()
	m, ok := s.files[name]
	if !ok {
		return nil, fs.ErrNotExist
	}
	if m.dir {
		return nil, errFile
	}
	return append([]byte{}, m.data...), nil
}

func WriteFile(name string, data []byte, _ os.FileMode) error {
	s := st()
	if m := s.files[name]; m != nil && (m.dir || m.full && len(data) > 0) {
		return errFile
	}
	s.files[name] = &memFile{data: append([]byte{}, data...)}
	return nil
}

func Remove(name string) error {
	s := st()
	if _, ok := s.files[name]; !ok {
		return fs.ErrNotExist
	}
	delete(s.files, name)
	return nil
}

func FileWrite(f *os.File, p []byte) (int, error) {
	h := st().handles[f]
	if h == nil || h.closed {
		return 0, fs.ErrClosed
	}
	if h.f.full && len(p) > 0 {
		return 0, errFile
	}
	for len(h.f.data) < h.pos+len(p) {
		h.f.data = append(h.f.data, 0)
	}
	copy(h.f.data[h.pos:], p)
	h.pos += len(p)
	return len(p), nil
}

func FileRead(f *os.File, p []byte) (int, error) {
	h := st().handles[f]
	if h == nil || h.closed {
		return 0, fs.ErrClosed
	}
	if len(p) == 0 {
		return 0, nil
	}
	if h.f.dir {
		return 0, errFile
	}
	if h.f.full {
		for i := range p {
			p[i] = 0
		}
		return len(p), nil
	}
	if h.pos >= len(h.f.data) {
		return 0, io.EOF
	}
	n := copy(p, h.f.data[h.pos:])
	h.pos += n
	return n, nil
}

func FileClose(f *os.File) error {
	h := st().handles[f]
	if h == nil || h.closed {
		return fs.ErrClosed
	}
	h.closed = true
	return nil
}

func OpenFile(name string, flag int, _ os.FileMode) (*os.File, error) {
	s := st()
	m, ok := s.files[name]
	if ok && flag&os.O_EXCL != 0 && flag&os.O_CREATE != 0 {
		return nil, fs.ErrExist
	}
	if !ok {
		if flag&os.O_CREATE == 0 {
			return nil, fs.ErrNotExist
		}
		m = &memFile{}
		s.files[name] = m
	}
	if flag&os.O_TRUNC != 0 {
		m.data = nil
	}
	f := new(os.File)
	h := &handle{f: m, name: name}
	if flag&os.O_APPEND != 0 {
		h.pos = len(m.data)
	}
	s.handles[f] = h
	return f, nil
}

func FileWriteString(f *os.File, x string) (int, error) { return FileWrite(f, []byte(x)) }

func FileSync(f *os.File) error { return nil }
