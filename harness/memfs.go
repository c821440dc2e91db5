package main

import (
	"context"
	"errors"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"sync"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
)

// memFS is a strict file system in memory: parents must exist, and chosen operations fail.

type memNode struct {
	dir   bool
	data  []byte
	mode  fs.FileMode
	fresh bool
}

type memFS struct {
	mu    sync.Mutex
	nodes map[string]*memNode
	fails map[string]bool // "op path"
	open  int
}

type injected struct{ what string }

func (i injected) Error() string { return "injected " + i.what }

var errNotDir = errors.New("not a directory")
var errIsDir = errors.New("is a directory")
var epoch = time.Unix(1000000000, 0)

func newMemFS(fails []string) *memFS {
	m := &memFS{nodes: map[string]*memNode{}, fails: map[string]bool{}}
	for _, f := range fails {
		m.fails[f] = true
	}
	m.nodes["."] = &memNode{dir: true, mode: 0755}
	m.nodes["/"] = &memNode{dir: true, mode: 0755}
	return m
}

func (m *memFS) put(name string, n *memNode) {
	m.mkdirs(path.Dir(name), false)
	m.nodes[name] = n
}

func (m *memFS) mkdirs(name string, fresh bool) {
	if m.nodes[name] != nil {
		return
	}
	m.mkdirs(path.Dir(name), fresh)
	m.nodes[name] = &memNode{dir: true, mode: 0755, fresh: fresh}
}

func perr(op, name string, err error) error { return &fs.PathError{Op: op, Path: name, Err: err} }

// at finds the node, or why there is none
func (m *memFS) at(op, name string) (string, *memNode, error) {
	name = path.Clean(name)
	if n := m.nodes[name]; n != nil {
		return name, n, nil
	}
	for d := path.Dir(name); ; d = path.Dir(d) {
		if n := m.nodes[d]; n != nil {
			if !n.dir {
				return name, nil, perr(op, name, errNotDir)
			}
			return name, nil, perr(op, name, fs.ErrNotExist)
		}
	}
}

func (m *memFS) fail(op, name string) error {
	name = path.Clean(name)
	if m.fails[op+" "+name] {
		return injected{op + " " + name}
	}
	return nil
}

type memInfo struct {
	name string
	n    memNode
}

func (i memInfo) Name() string { return path.Base(i.name) }
func (i memInfo) Size() int64  { return int64(len(i.n.data)) }
func (i memInfo) Mode() fs.FileMode {
	if i.n.dir {
		return i.n.mode | fs.ModeDir
	}
	return i.n.mode
}
func (i memInfo) ModTime() time.Time         { return epoch }
func (i memInfo) IsDir() bool                { return i.n.dir }
func (i memInfo) Sys() any                   { return nil }
func (i memInfo) Type() fs.FileMode          { return i.Mode().Type() }
func (i memInfo) Info() (fs.FileInfo, error) { return i, nil }

type memFile struct {
	m      *memFS
	name   string
	n      *memNode
	off    int
	w      bool
	ls     []fs.DirEntry
	listed bool
	closed bool
}

func (f *memFile) Stat() (fs.FileInfo, error) { return memInfo{f.name, *f.n}, nil }
func (f *memFile) Read(b []byte) (int, error) {
	f.m.mu.Lock()
	defer f.m.mu.Unlock()
	if f.closed {
		return 0, fs.ErrClosed
	}
	if f.n.dir {
		return 0, perr("read", f.name, errIsDir)
	}
	if err := f.m.fail("read", f.name); err != nil {
		return 0, err
	}
	if f.off >= len(f.n.data) {
		return 0, io.EOF
	}
	n := copy(b, f.n.data[f.off:])
	f.off += n
	return n, nil
}
func (f *memFile) Write(b []byte) (int, error) {
	f.m.mu.Lock()
	defer f.m.mu.Unlock()
	if f.closed {
		return 0, fs.ErrClosed
	}
	if !f.w {
		return 0, fs.ErrPermission
	}
	if len(b) == 0 {
		return 0, nil
	}
	if err := f.m.fail("write", f.name); err != nil {
		return 0, err
	}
	f.n.data = append(f.n.data[:f.off:f.off], b...)
	f.off += len(b)
	f.n.fresh = true
	return len(b), nil
}
func (f *memFile) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *memFile) ReadDir(n int) ([]fs.DirEntry, error) {
	f.m.mu.Lock()
	defer f.m.mu.Unlock()
	if !f.n.dir {
		return nil, perr("readdir", f.name, errNotDir)
	}
	if err := f.m.fail("readdir", f.name); err != nil {
		return nil, err
	}
	if !f.listed {
		f.listed = true
		for k, x := range f.m.nodes {
			if k != "." && k != "/" && path.Dir(k) == f.name {
				f.ls = append(f.ls, memInfo{k, *x})
			}
		}
		sort.Slice(f.ls, func(i, j int) bool { return f.ls[i].Name() < f.ls[j].Name() })
	}
	if n <= 0 || n > len(f.ls) {
		if n > 0 && len(f.ls) == 0 {
			return nil, io.EOF
		}
		n = len(f.ls)
	}
	r := f.ls[:n]
	f.ls = f.ls[n:]
	return r, nil
}
func (f *memFile) Close() error {
	f.m.mu.Lock()
	defer f.m.mu.Unlock()
	if f.closed {
		return fs.ErrClosed
	}
	f.closed = true
	f.m.open--
	if f.w {
		return f.m.fail("close", f.name)
	}
	return nil
}

func (m *memFS) Open(name string) (fs.File, error) { return m.OpenFile(name, os.O_RDONLY, 0) }
func (m *memFS) OpenContext(_ context.Context, name string) (fs.File, error) {
	return m.Open(name)
}
func (m *memFS) Create(name string) (fs.File, error) {
	return m.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}
func (m *memFS) OpenFile(name string, flag int, perm fs.FileMode) (fs.File, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	w := flag&(os.O_WRONLY|os.O_RDWR) != 0
	op := "open"
	if w {
		op = "create"
	}
	if err := m.fail(op, name); err != nil {
		return nil, err
	}
	name, n, err := m.at("open", name)
	if n == nil {
		if !errors.Is(err, fs.ErrNotExist) || flag&os.O_CREATE == 0 {
			return nil, err
		}
		if m.nodes[path.Dir(name)] == nil {
			return nil, perr("open", name, fs.ErrNotExist)
		}
		n = &memNode{mode: perm &^ 022, fresh: true}
		m.nodes[name] = n
	} else if n.dir && w {
		return nil, perr("open", name, errIsDir)
	} else if flag&os.O_EXCL != 0 {
		return nil, perr("open", name, fs.ErrExist)
	}
	if flag&os.O_TRUNC != 0 {
		n.data, n.fresh = nil, true
	}
	m.open++
	f := &memFile{m: m, name: name, n: n, w: w}
	if flag&os.O_APPEND != 0 {
		f.off = len(n.data)
	}
	return f, nil
}
func (m *memFS) Stat(name string) (fs.FileInfo, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if err := m.fail("stat", name); err != nil {
		return nil, err
	}
	name, n, err := m.at("stat", name)
	if err != nil {
		return nil, err
	}
	return memInfo{name, *n}, nil
}
func (m *memFS) change(op, name string, f func(n *memNode)) error {
	m.mu.Lock()
	defer m.mu.Unlock()
	if err := m.fail(op, name); err != nil {
		return err
	}
	_, n, err := m.at(op, name)
	if err == nil {
		f(n)
	}
	return err
}
func (m *memFS) Chmod(name string, mode fs.FileMode) error {
	return m.change("chmod", name, func(n *memNode) { n.mode = mode })
}
func (m *memFS) Chown(name string, uid, gid int) error {
	return m.change("chown", name, func(n *memNode) {})
}
func (m *memFS) Chtimes(name string, a, t time.Time) error {
	return m.change("chtimes", name, func(n *memNode) { n.fresh = t.After(epoch) })
}
func (m *memFS) Mkdir(name string, perm fs.FileMode) error {
	m.mu.Lock()
	defer m.mu.Unlock()
	name, n, err := m.at("mkdir", name)
	if n != nil {
		return perr("mkdir", name, fs.ErrExist)
	}
	if e := m.fail("mkdir", name); e != nil {
		return e
	}
	if !errors.Is(err, fs.ErrNotExist) || m.nodes[path.Dir(name)] == nil {
		return err
	}
	m.nodes[name] = &memNode{dir: true, mode: perm &^ 022, fresh: true}
	return nil
}
func (m *memFS) MkdirAll(name string, perm fs.FileMode) error {
	m.mu.Lock()
	name = path.Clean(name)
	n := m.nodes[name]
	m.mu.Unlock()
	if n != nil {
		if n.dir {
			return nil
		}
		return perr("mkdir", name, errNotDir)
	}
	if err := m.MkdirAll(path.Dir(name), perm); err != nil {
		return err
	}
	return m.Mkdir(name, perm)
}
func (m *memFS) Remove(name string) error {
	m.mu.Lock()
	defer m.mu.Unlock()
	if err := m.fail("remove", name); err != nil {
		return err
	}
	name, _, err := m.at("remove", name)
	if err != nil {
		return err
	}
	for k := range m.nodes {
		if strings.HasPrefix(k, name+"/") {
			return perr("remove", name, errors.New("directory not empty"))
		}
	}
	delete(m.nodes, name)
	return nil
}
func (m *memFS) RemoveAll(name string) error {
	m.mu.Lock()
	defer m.mu.Unlock()
	if err := m.fail("remove", name); err != nil {
		return err
	}
	name = path.Clean(name)
	if name == "." || name == "/" {
		return errors.New("refused")
	}
	for k := range m.nodes {
		if k == name || strings.HasPrefix(k, name+"/") {
			delete(m.nodes, k)
		}
	}
	return nil
}
func (m *memFS) Rename(a, b string) error {
	m.mu.Lock()
	defer m.mu.Unlock()
	if err := m.fail("rename", a); err != nil {
		return err
	}
	a, n, err := m.at("rename", a)
	if err != nil {
		return err
	}
	b, o, err := m.at("rename", b)
	if n.dir || o != nil && o.dir {
		return perr("rename", a, errIsDir)
	}
	if o == nil && (!errors.Is(err, fs.ErrNotExist) || m.nodes[path.Dir(b)] == nil) {
		return err
	}
	delete(m.nodes, a)
	m.nodes[b] = n
	return nil
}

// listing describes everything
func (m *memFS) listing() obj {
	r := obj{}
	for k, n := range m.nodes {
		r[k] = obj{"dir": n.dir, "data": string(n.data), "mode": int(n.mode), "fresh": n.fresh}
	}
	return r
}

var _ cli.FS = (*memFS)(nil)
