package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"sync"

	cp "github.com/nginxinc/nginx-go-crossplane"
)

// memFS is a set of files in memory that records what is done with them.
type memFS struct {
	mu      sync.Mutex
	files   map[string]string
	fail    map[string]error // errors of opening
	opens   []string
	globs   []string
	open    int // open handles
	badUse  []string
	chunk   func() int                               // size of the next read, nil: everything at once
	reader  func(path string, r io.Reader) io.Reader // wraps readers
	onOpen  func(n int, path string) error           // fault injection by number of the open
	onGlob  func(n int, pattern string) error
	partial bool // a failing glob also returns matches
	maxOpen int
}

func newMemFS(files map[string]string) *memFS {
	return &memFS{files: files, fail: map[string]error{}}
}

var errNotExist = errors.New("file does not exist")

func (m *memFS) Read(path string) (string, error) {
	if err := m.fail[path]; err != nil {
		return "", err
	}
	s, ok := m.files[path]
	if !ok {
		return "", &os.PathError{Op: "open", Path: path, Err: errNotExist}
	}
	return s, nil
}

func (m *memFS) Glob(pattern string) ([]string, error) {
	var out []string
	for f := range m.files {
		ok, err := filepath.Match(pattern, f)
		if err != nil {
			return nil, err
		}
		if ok {
			out = append(out, f)
		}
	}
	sort.Strings(out)
	return out, nil
}

// GlobHook is for ParseOptions; it gives the matches in no particular order.
func (m *memFS) GlobHook(pattern string) ([]string, error) {
	m.mu.Lock()
	m.globs = append(m.globs, pattern)
	n := len(m.globs)
	m.mu.Unlock()
	if m.onGlob != nil {
		if err := m.onGlob(n, pattern); err != nil {
			if m.partial { // some matches and an error
				out, _ := m.Glob(pattern)
				return out[:(len(out)+1)/2], err
			}
			return nil, err
		}
	}
	out, err := m.Glob(pattern)
	// an order that is a matter of the pattern and neither sorted nor reversed
	NewRand(hashStr(pattern)).Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out, err
}

func (m *memFS) OpenHook(path string) (io.ReadCloser, error) {
	m.mu.Lock()
	m.opens = append(m.opens, path)
	n := len(m.opens)
	m.mu.Unlock()
	if m.onOpen != nil {
		if err := m.onOpen(n, path); err != nil {
			return nil, err
		}
	}
	s, err := m.Read(path)
	if err != nil {
		return nil, err
	}
	m.mu.Lock()
	m.open++
	if m.open > m.maxOpen {
		m.maxOpen = m.open
	}
	m.mu.Unlock()
	var r io.Reader = &memReader{s: s, chunk: m.chunk}
	if m.reader != nil {
		r = m.reader(path, r)
	}
	return &memFile{m: m, r: r, path: path}, nil
}

type memReader struct {
	s     string
	chunk func() int
}

func (r *memReader) Read(b []byte) (int, error) {
	if r.s == "" {
		return 0, io.EOF
	}
	n := len(b)
	if r.chunk != nil {
		if k := r.chunk(); k < n {
			n = k
		}
	}
	n = copy(b[:n], r.s)
	r.s = r.s[n:]
	return n, nil
}

type memFile struct {
	m      *memFS
	r      io.Reader
	path   string
	mu     sync.Mutex
	closed bool
}

func (f *memFile) Read(b []byte) (int, error) {
	f.mu.Lock()
	closed := f.closed
	f.mu.Unlock()
	if closed {
		f.m.bad("read of " + f.path + " after close")
		return 0, os.ErrClosed
	}
	return f.r.Read(b)
}

func (f *memFile) Close() error {
	f.mu.Lock()
	was := f.closed
	f.closed = true
	f.mu.Unlock()
	if was {
		f.m.bad("second close of " + f.path)
		return os.ErrClosed
	}
	f.m.mu.Lock()
	f.m.open--
	f.m.mu.Unlock()
	return nil
}

func (m *memFS) bad(s string) {
	m.mu.Lock()
	m.badUse = append(m.badUse, s)
	m.mu.Unlock()
}

// check gives what is wrong with the use of the files after a call has returned.
func (m *memFS) check() string {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.open != 0 {
		return fmt.Sprintf("%d files are still open (opened: %q)", m.open, m.opens)
	}
	if len(m.badUse) > 0 {
		return fmt.Sprintf("%q", m.badUse)
	}
	return ""
}

// with gives the options that use these files.
func (m *memFS) with(o cp.ParseOptions) *cp.ParseOptions {
	o.Open = m.OpenHook
	o.Glob = m.GlobHook
	return &o
}

func (m *memFS) copy() *memFS {
	return &memFS{files: m.files, fail: m.fail}
}

// parse1 parses one text.
func parse1(text string, o cp.ParseOptions) (*cp.Payload, error) {
	m := newMemFS(map[string]string{"/c/main": text})
	return cp.Parse("/c/main", m.with(o))
}
