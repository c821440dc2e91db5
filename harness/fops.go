package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing/fstest"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
)

// Operations on files, one after another, in a directory of its own.

type fopsOp struct {
	Op   string   `json:"op"`
	P    []string `json:"p"`
	Q    []string `json:"q"`
	Form string   `json:"form"` // how p is written: plain dot abs slash
	T    string   `json:"t"`    // text, mode or time
}

type fopsScen struct {
	Kind  string     `json:"kind"` // dir sub new app sys ro
	Tree  []fsetNode `json:"tree"`
	Stdin string     `json:"stdin"`
	Ops   []fopsOp   `json:"ops"`
}

func init() {
	syscall.Umask(022)
	areas["fops"] = area{gen: genFops, exec: execFops}
}

var fopsTimes = map[string]time.Time{"t1": time.Unix(1111111111, 0), "t2": time.Unix(1222222222, 0)}
var fopsModes = map[string]fs.FileMode{"600": 0600, "640": 0640, "700": 0700, "755": 0755}

func fopsErr(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, fs.ErrNotExist):
		return "missing"
	case strings.Contains(err.Error(), "not supported"):
		return "unsupported"
	case errors.Is(err, context.Canceled):
		return "canceled"
	}
	return "err"
}

// onlyOpens is a file system that does nothing more than to open files
type onlyOpens struct{ f fs.FS }

func (o onlyOpens) Open(name string) (fs.File, error) { return o.f.Open(name) }

func execFops(raw json.RawMessage) any {
	s := decode[fopsScen](raw)
	top, err := os.MkdirTemp("", "joeh-fops-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(top)
	dir := filepath.Join(top, "base")
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	must(os.Mkdir(dir, 0755))
	must(os.WriteFile(filepath.Join(top, "outside"), []byte("outside"), 0644))
	must(os.Mkdir(filepath.Join(top, "x"), 0755)) // names in the directory are also there, outside of it
	must(os.WriteFile(filepath.Join(top, "x", "a"), []byte("outside"), 0644))
	for _, n := range s.Tree {
		p := filepath.Join(dir, filepath.Join(n.P...))
		if n.K == "d" {
			must(os.Mkdir(p, 0755))
		} else {
			must(os.WriteFile(p, []byte(n.T), 0644))
		}
	}
	var stdout bytes.Buffer
	stdin := struct{ io.Reader }{strings.NewReader(s.Stdin)}
	results := []string{}
	run := func(sys fs.FS) {
		for _, o := range s.Ops {
			if s.Kind == "app" {
				o.Form = "abs" // otherwise it would be relative to the directory of this process
			}
			results = append(results, fopsDo(sys, dir, o))
		}
	}
	switch s.Kind {
	case "dir":
		run(cli.DirFS(dir))
	case "sub":
		f, err := fs.Sub(cli.DirFS(top), "base")
		must(err)
		run(f)
	case "new":
		run(cli.NewFS(cli.DirFS(dir)))
	case "sys":
		run(cli.NewSysFS(cli.DirFS(dir), stdin, struct{ io.Writer }{&stdout}))
	case "ro":
		m := fstest.MapFS{}
		for _, n := range s.Tree {
			e := &fstest.MapFile{Data: []byte(n.T), Mode: 0644}
			if n.K == "d" {
				e.Mode = fs.ModeDir | 0755
			}
			m[strings.Join(n.P, "/")] = e
		}
		run(onlyOpens{m})
	case "app":
		app := &cli.App{Name: "app", Stdin: stdin, Stdout: struct{ io.Writer }{&stdout}, Stderr: io.Discard, Action: func(c *cli.Context) error {
			run(c.FS)
			return nil
		}}
		must(app.RunContext(context.Background(), []string{"app"}))
	}
	return obj{"results": results, "final": fopsDump(dir), "out": stdout.String(), "around": len(fopsDump(top)) - len(fopsDump(dir)) - 1, "left": fopsLeft(top)}
}

func fopsLeft(top string) string {
	a, _ := os.ReadFile(filepath.Join(top, "outside"))
	b, _ := os.ReadFile(filepath.Join(top, "x", "a"))
	return string(a) + " " + string(b)
}

// fopsDump lists what is below the directory as [path, kind and mode, text], in order
func fopsDump(dir string) [][]string {
	res := [][]string{}
	_ = filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil || p == dir {
			return err
		}
		info, err := d.Info()
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		text := ""
		if !d.IsDir() {
			data, _ := os.ReadFile(p)
			text = string(data)
		}
		res = append(res, []string{rel, fopsMode(info), text})
		return nil
	})
	sort.Slice(res, func(i, j int) bool { return res[i][0] < res[j][0] })
	return res
}

func fopsMode(i fs.FileInfo) string {
	k := "f"
	if i.IsDir() {
		k = "d"
	}
	return fmt.Sprintf("%s %o", k, i.Mode().Perm())
}

func fopsDo(sys fs.FS, dir string, o fopsOp) string {
	name := func(p []string, form string) string {
		n := strings.Join(p, "/")
		if n == "-" {
			return n
		}
		switch form {
		case "dot":
			return "./" + n
		case "abs":
			return dir + "/" + n
		case "slash":
			return n + "/"
		}
		return n
	}
	f := &cli.File{Name: name(o.P, o.Form), FS: sys}
	put := func(w fs.File, err error) string {
		if err != nil {
			return fopsErr(err)
		}
		defer w.Close()
		_, err = io.WriteString(w.(io.Writer), o.T)
		return fopsErr(err)
	}
	get := func(r fs.File, err error) string {
		if err != nil {
			return fopsErr(err)
		}
		defer r.Close()
		data, err := io.ReadAll(struct{ io.Reader }{r})
		if err != nil {
			return fopsErr(err)
		}
		return "= " + string(data)
	}
	switch o.Op {
	case "create":
		return put(f.Create())
	case "append":
		return put(f.OpenFile(os.O_WRONLY|os.O_APPEND, 0644))
	case "over":
		return put(f.OpenFile(os.O_WRONLY, 0644))
	case "excl":
		return put(f.OpenFile(os.O_WRONLY|os.O_CREATE|os.O_EXCL, fopsModes["600"]))
	case "rdwr":
		return put(f.OpenFile(os.O_RDWR, 0644))
	case "rdwra":
		return put(f.OpenFile(os.O_RDWR|os.O_APPEND, 0644))
	case "read":
		return get(f.Open())
	case "readf":
		return get(f.OpenFile(os.O_RDONLY, 0))
	case "seek":
		r, err := f.Open()
		if err != nil {
			return fopsErr(err)
		}
		defer r.Close()
		_, err = r.(io.Seeker).Seek(0, io.SeekStart)
		return fopsErr(err)
	case "readctx":
		return get(f.OpenContext(context.Background()))
	case "readdead":
		ctx, cancel := context.WithCancel(context.Background())
		r, err := f.OpenContext(ctx)
		cancel()
		return get(r, err)
	case "writedead":
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		r, err := f.OpenContext(ctx)
		if err != nil {
			return fopsErr(err)
		}
		defer r.Close()
		buf := make([]byte, 1)
		n, err := r.Read(buf)
		one := string(buf[:n]) + " " + fopsErr(err)
		cancel()
		_, err = r.Read(buf)
		return one + " " + fopsErr(err)
	case "stat":
		st, err := f.Stat()
		if err != nil {
			return fopsErr(err)
		}
		if st.Mode()&fs.ModeNamedPipe != 0 {
			return "std"
		}
		res := fopsMode(st)
		if !st.IsDir() {
			res += fmt.Sprint(" ", st.Size())
		}
		return res
	case "mtime":
		st, err := f.Stat()
		if err != nil {
			return fopsErr(err)
		}
		for k, t := range fopsTimes {
			if st.ModTime().Equal(t) {
				return k
			}
		}
		return "new"
	case "exists":
		return fmt.Sprint(f.Exists())
	case "mkdir":
		return fopsErr(f.Mkdir(fopsModes[o.T]))
	case "mkdirall":
		return fopsErr(f.MkdirAll(fopsModes[o.T]))
	case "remove":
		return fopsErr(f.Remove())
	case "removeall":
		return fopsErr(f.RemoveAll())
	case "rename":
		return fopsErr(f.Rename(name(o.Q, o.Form)))
	case "chmod":
		return fopsErr(f.Chmod(fopsModes[o.T]))
	case "chtimes":
		return fopsErr(f.Chtimes(epoch, fopsTimes[o.T]))
	case "walk":
		var got []string
		err := f.Walk(func(p string, d fs.DirEntry, err error) error {
			if err != nil {
				got = append(got, "!"+fopsErr(err))
				return nil
			}
			p = strings.TrimPrefix(p, dir+"/")
			if d.IsDir() {
				p += "/"
			}
			got = append(got, filepath.Base(p))
			return nil
		})
		return fopsErr(err) + " " + strings.Join(got, " ")
	case "walkskip":
		var got []string
		err := f.Walk(func(p string, d fs.DirEntry, err error) error {
			if err != nil {
				return err
			}
			got = append(got, filepath.Base(p))
			if d.IsDir() && len(got) > 1 {
				return fs.SkipDir
			}
			return nil
		})
		return fopsErr(err) + " " + strings.Join(got, " ")
	}
	return "?"
}

var fopsNames = [][]string{{"a"}, {"b"}, {"x"}, {"y"}, {"x", "a"}, {"x", "b"}, {"x", "y"}, {"y", "a"}, {"x", "y", "a"}, {"y", "x"}, {"x", "-"}}

func genFops(r *rand.Rand, profile string, i int) any {
	s := fopsScen{Kind: pick(r, []string{"dir", "dir", "sub", "new", "app", "sys", "ro"}), Tree: []fsetNode{}, Stdin: pick(r, []string{"", "in", "x\ny"}), Ops: []fopsOp{}}
	have := map[string]string{"": "d"}
	for _, p := range fopsNames {
		up := strings.Join(p[:len(p)-1], "/")
		if have[up] == "d" && chance(r, 40) {
			k := pick(r, []string{"f", "d"})
			have[strings.Join(p, "/")] = k
			n := fsetNode{P: p, K: k}
			if k == "f" {
				n.T = pick(r, []string{"", "A", "hello"})
			}
			s.Tree = append(s.Tree, n)
		}
	}
	ops := []string{"create", "append", "over", "excl", "rdwr", "rdwra", "read", "readf", "readctx", "readdead", "writedead", "stat", "mtime", "exists", "mkdir",
		"mkdirall", "remove", "removeall", "rename", "rename", "chmod", "chtimes", "walk", "walkskip"}
	for n := 1 + r.Intn(9); n > 0; n-- {
		o := fopsOp{Op: pick(r, ops), P: pick(r, fopsNames), Q: []string{}, Form: pick(r, []string{"plain", "plain", "dot", "abs"})}
		if (s.Kind == "sys" || s.Kind == "app") && chance(r, 35) {
			o.P, o.Form = []string{"-"}, "plain"
			o.Op = pick(r, []string{"create", "append", "over", "rdwr", "rdwra", "read", "readf", "readctx", "stat", "exists", "walk", "seek"})
		}
		if (s.Kind == "dir" || s.Kind == "sub" || s.Kind == "new") && chance(r, 6) {
			o.P = []string{"-"}
		}
		if s.Kind == "ro" {
			o.Form = "plain"
		}
		switch o.Op {
		case "create", "append", "over", "excl", "rdwr", "rdwra":
			o.T = pick(r, []string{"", "w", "words"})
		case "mkdir", "mkdirall", "chmod":
			o.T = pick(r, []string{"700", "755", "755"})
		case "chtimes":
			o.T = pick(r, []string{"t1", "t2"})
		case "rename":
			o.Q = pick(r, fopsNames)
		}
		s.Ops = append(s.Ops, o)
	}
	return s
}
