package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"testing/fstest"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
)

// File sets.

type fsetNode struct {
	P []string `json:"p"` // components of the path
	K string   `json:"k"` // f d
	T string   `json:"t"`
}

type fsetLine struct {
	Lead int    `json:"lead"`
	T    string `json:"t"`
	End  int    `json:"end"`
}

type fsetScen struct {
	Kind   string       `json:"kind"`   // plain stat map dir sys app
	Tree   []fsetNode   `json:"tree"`   // parents come first
	Faults [][]string   `json:"faults"` // op, then the components of the path
	Names  [][]string   `json:"names"`
	Src    string       `json:"src"`   // field args data ref
	Lines  [][]fsetLine `json:"lines"` // for data and ref: one or more lists
	NL     string       `json:"nl"`    // lf crlf
	Own    bool         `json:"own"`   // the set has a file system of its own
	Rec    string       `json:"rec"`   // no field flag
	Must   bool         `json:"must"`
	Mode   string       `json:"mode"` // do all
	Stop   int          `json:"stop"` // the visit that ends it (0: none does)
	Stdin  string       `json:"stdin"`
}

func init() {
	areas["fset"] = area{gen: genFset, exec: execFset}
}

// faultFS is a read-only file system of which chosen operations fail.
type faultFS struct {
	nodes  map[string]fsetNode
	faults map[string]bool
}

type faultStatFS struct{ *faultFS }

type faultFile struct {
	f    *faultFS
	name string
	n    fsetNode
	r    *strings.Reader
}

type faultInfo struct {
	name string
	n    fsetNode
}

func (i faultInfo) Name() string { return path.Base(i.name) }
func (i faultInfo) Size() int64  { return int64(len(i.n.T)) }
func (i faultInfo) Mode() fs.FileMode {
	if i.n.K == "d" {
		return fs.ModeDir | 0755
	}
	return 0644
}
func (i faultInfo) Type() fs.FileMode          { return i.Mode().Type() }
func (i faultInfo) ModTime() time.Time         { return epoch }
func (i faultInfo) IsDir() bool                { return i.n.K == "d" }
func (i faultInfo) Sys() any                   { return nil }
func (i faultInfo) Info() (fs.FileInfo, error) { return i, nil }

func (f *faultFS) find(op, name string) (fsetNode, error) {
	if n, ok := f.nodes[name]; ok {
		if f.faults[op+" "+name] {
			return n, perr(op, name, injected{op})
		}
		return n, nil
	}
	return fsetNode{}, perr(op, name, fs.ErrNotExist)
}

func (f *faultFS) Open(name string) (fs.File, error) {
	n, err := f.find("open", name)
	if err != nil {
		return nil, err
	}
	return &faultFile{f, name, n, strings.NewReader(n.T)}, nil
}

func (f faultStatFS) Stat(name string) (fs.FileInfo, error) {
	n, err := f.find("stat", name)
	if err != nil {
		return nil, err
	}
	return faultInfo{name, n}, nil
}

func (f *faultFile) Stat() (fs.FileInfo, error) {
	n, err := f.f.find("stat", f.name)
	if err != nil {
		return nil, err
	}
	return faultInfo{f.name, n}, nil
}

func (f *faultFile) Close() error { return nil }

func (f *faultFile) Read(p []byte) (int, error) {
	if f.n.K == "d" {
		return 0, perr("read", f.name, errIsDir)
	}
	return f.r.Read(p)
}

func (f *faultFile) ReadDir(n int) ([]fs.DirEntry, error) {
	if f.n.K != "d" {
		return nil, perr("readdir", f.name, errNotDir)
	}
	if _, err := f.f.find("readdir", f.name); err != nil {
		return nil, err
	}
	var res []fs.DirEntry
	for p, c := range f.f.nodes {
		if p != "." && path.Dir(p) == f.name {
			res = append(res, faultInfo{p, c})
		}
	}
	// deliberately not in the order of the names
	sort.Slice(res, func(i, j int) bool { return res[i].Name() > res[j].Name() })
	return res, nil
}

func fsetErr(err error) string {
	var inj injected
	switch {
	case err == nil:
		return "ok"
	case errors.As(err, &inj):
		return "fault"
	case errors.Is(err, fs.ErrNotExist):
		return "missing"
	}
	return "err"
}

var errFsetStop = errors.New("stop here")

func execFset(raw json.RawMessage) any {
	s := decode[fsetScen](raw)
	nl := "\n"
	if s.NL == "crlf" {
		nl = "\r\n"
	}
	texts := make([]string, len(s.Lines))
	for i, ls := range s.Lines {
		for _, l := range ls {
			texts[i] += strings.Repeat(" ", l.Lead) + l.T + strings.Repeat(" ", l.End) + nl
		}
	}
	tree := append([]fsetNode{}, s.Tree...)
	var listNames [][]string
	if s.Src == "ref" {
		for i, t := range texts {
			p := []string{"list" + string(rune('1'+i))}
			listNames = append(listNames, p)
			tree = append(tree, fsetNode{P: p, K: "f", T: t})
		}
	}

	stdin := strings.NewReader(s.Stdin)
	var stdout bytes.Buffer
	var sys fs.FS
	root := ""
	switch s.Kind {
	case "plain", "stat":
		f := &faultFS{map[string]fsetNode{".": {K: "d"}}, map[string]bool{}}
		for _, n := range tree {
			f.nodes[strings.Join(n.P, "/")] = n
		}
		for _, x := range s.Faults {
			p := strings.Join(x[1:], "/")
			if p == "" {
				p = "."
			}
			f.faults[x[0]+" "+p] = true
		}
		sys = f
		if s.Kind == "stat" {
			sys = faultStatFS{f}
		}
	case "map":
		m := fstest.MapFS{}
		for _, n := range tree {
			e := &fstest.MapFile{Data: []byte(n.T), Mode: 0644}
			if n.K == "d" {
				e.Mode = fs.ModeDir | 0755
			}
			m[strings.Join(n.P, "/")] = e
		}
		sys = m
	case "dir", "sys", "app":
		dir, err := os.MkdirTemp("", "joeh-fset-")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		for _, n := range tree {
			p := filepath.Join(dir, filepath.Join(n.P...))
			if n.K == "d" {
				err = os.Mkdir(p, 0755)
			} else {
				err = os.WriteFile(p, []byte(n.T), 0644)
			}
			if err != nil {
				panic(err)
			}
		}
		switch s.Kind {
		case "dir":
			sys = cli.DirFS(dir)
		case "sys":
			sys = cli.NewSysFS(cli.DirFS(dir), stdin, &stdout)
		case "app":
			root = dir
		}
	}
	nameOf := func(p []string) string {
		n := strings.Join(p, "/")
		if n == "-" {
			return n
		}
		if n == "" && root == "" {
			return "."
		}
		if root != "" {
			return strings.TrimSuffix(root+"/"+n, "/")
		}
		return n
	}
	split := func(n string) []string {
		if root != "" && (n == root || strings.HasPrefix(n, root+"/")) {
			n = strings.TrimPrefix(strings.TrimPrefix(n, root), "/")
		} else if n == "." {
			n = ""
		}
		if n == "" {
			return []string{}
		}
		return strings.Split(n, "/")
	}

	set := &cli.FileSet{Recursive: s.Rec == "field"}
	decoy := fstest.MapFS{"decoy": {Data: []byte("decoy")}}
	app := &cli.App{Name: "app", Stdin: stdin, Stdout: &stdout, Stderr: io.Discard, FS: sys}
	if s.Own {
		set.FS, app.FS = sys, decoy
	}
	argv := []string{"app"}
	if s.Rec == "flag" {
		argv = append(argv, "--files-recursive")
	}
	switch s.Src {
	case "field", "data":
		if s.Src == "field" {
			for _, n := range s.Names {
				set.Files = append(set.Files, nameOf(n))
			}
		} else {
			for _, t := range texts {
				if err := cli.SetData(set, strings.NewReader(t)); err != nil {
					return obj{"odd": err.Error()}
				}
			}
		}
	case "args":
		if len(s.Names) > 0 {
			argv = append(argv, "--")
			for _, n := range s.Names {
				argv = append(argv, nameOf(n))
			}
		}
	case "ref":
		for _, n := range listNames {
			argv = append(argv, nameOf(n))
		}
	}
	arg := &cli.Arg{Name: "files", Value: set, Uses: cli.Accessory("-", (*cli.FileSet).RecursiveFlag)}
	if s.Src == "ref" {
		arg.Options |= cli.FileReference
	}
	if s.Must {
		arg.Options |= cli.MustExist
	}
	app.Args = []*cli.Arg{arg}

	out := obj{"visits": []any{}, "res": "-", "exists": false, "files": [][]string{}}
	visits := []any{}
	look := func(f *cli.File) string {
		st, err := f.Stat()
		if err != nil {
			return "stat " + fsetErr(err)
		}
		if st.IsDir() {
			return "dir"
		}
		r, err := f.Open()
		if err != nil {
			return "open " + fsetErr(err)
		}
		data, err := io.ReadAll(r)
		if err != nil {
			return "read " + fsetErr(err)
		}
		return "= " + string(data)
	}
	app.Action = func(c *cli.Context) error {
		set := c.FileSet("files")
		n := 0
		visit := func(f *cli.File, err error) bool {
			n++
			visits = append(visits, []any{split(f.Name), fsetErr(err), look(f)})
			return n == s.Stop
		}
		var err error
		if s.Mode == "do" {
			err = set.Do(func(f *cli.File, err error) error {
				if visit(f, err) {
					return errFsetStop
				}
				return nil
			})
		} else {
			for f, err := range set.All() {
				if visit(f, err) {
					break
				}
			}
		}
		if errors.Is(err, errFsetStop) {
			out["res"] = "stop"
		} else {
			out["res"] = fsetErr(err)
		}
		out["exists"] = set.Exists()
		files := [][]string{}
		for _, f := range set.Files {
			files = append(files, split(f))
		}
		out["files"] = files
		return nil
	}
	if err := app.RunContext(context.Background(), argv); err != nil {
		out["res"] = "error"
		if strings.Contains(err.Error(), "no such file or directory") {
			out["res"] = "not exist"
		}
	}
	out["visits"] = visits
	return out
}

func genFset(r *rand.Rand, profile string, i int) any {
	s := fsetScen{Kind: pick(r, []string{"plain", "stat", "stat", "map", "dir", "sys", "app"}), Tree: []fsetNode{}, Faults: [][]string{},
		Names: [][]string{}, Lines: [][]fsetLine{}, NL: "lf", Src: pick(r, []string{"field", "args", "args", "data", "ref"}),
		Rec: pick(r, []string{"no", "no", "field", "flag"}), Mode: pick(r, []string{"do", "all"}), Stdin: pick(r, []string{"", "in", "x\ny"})}
	dirs := [][]string{{}}
	var all [][]string
	for n := r.Intn(9); n > 0; n-- {
		d := pick(r, dirs)
		if len(d) > 3 {
			continue
		}
		p := append(append([]string{}, d...), pick(r, []string{"a", "b", "c", "d"}))
		dup := false
		for _, q := range all {
			dup = dup || strings.Join(q, "/") == strings.Join(p, "/")
		}
		if dup {
			continue
		}
		all = append(all, p)
		if chance(r, 45) {
			dirs = append(dirs, p)
			s.Tree = append(s.Tree, fsetNode{P: p, K: "d"})
		} else {
			s.Tree = append(s.Tree, fsetNode{P: p, K: "f", T: pick(r, []string{"", "A", "hello", "B\nC"})})
		}
	}
	name := func() []string {
		if (s.Kind == "sys" || s.Kind == "app" && !s.Own) && chance(r, 15) {
			return []string{"-"}
		}
		if len(all) == 0 || chance(r, 15) {
			return append(append([]string{}, pick(r, dirs)...), pick(r, []string{"a", "b", "zz"}))
		}
		if chance(r, 10) {
			return []string{}
		}
		if chance(r, 40) {
			return pick(r, dirs)
		}
		return pick(r, all)
	}
	s.Own = s.Kind != "app" && chance(r, 25)
	for n := r.Intn(4); n > 0; n-- {
		s.Names = append(s.Names, name())
	}
	if s.Src == "data" || s.Src == "ref" {
		s.Names = [][]string{}
		if s.Kind == "app" {
			s.Kind = "dir"
		}
		lists := 1
		if chance(r, 30) {
			lists = 2
		}
		for ; lists > 0; lists-- {
			l := []fsetLine{}
			for n := r.Intn(5); n > 0; n-- {
				t := strings.Join(name(), "/")
				if t == "" {
					t = "."
				}
				if chance(r, 30) {
					t = pick(r, []string{"", "# x", ";a", "#", "a#b", "b;c", "a b", "; "})
				}
				l = append(l, fsetLine{Lead: r.Intn(3), T: t, End: r.Intn(2)})
			}
			s.Lines = append(s.Lines, l)
		}
		if chance(r, 20) {
			s.NL = "crlf"
		}
	}
	if s.Src == "ref" && s.Own {
		s.Own = false // the lists are read from the file system of the app
	}
	if s.Kind == "plain" || s.Kind == "stat" {
		for n := r.Intn(4); n > 0 && len(all) > 0; n-- {
			p := pick(r, all)
			if chance(r, 10) {
				p = []string{}
			}
			s.Faults = append(s.Faults, append([]string{pick(r, []string{"stat", "open", "readdir"})}, p...))
		}
	}
	if chance(r, 35) {
		s.Stop = 1 + r.Intn(5)
	}
	s.Must = chance(r, 20) && (s.Src == "args" || s.Src == "ref")
	return s
}
