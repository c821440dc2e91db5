package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"path"
	"regexp"
	"strings"
	"text/template"

	cli "github.com/Carbonfrost/joe-cli"
	etemplate "github.com/Carbonfrost/joe-cli/extensions/template"
)

// Template generators against a file system in memory.

type tPiece struct {
	T string `json:"t"` // lit var bad fail
	S string `json:"s"`
}

type tNV struct {
	N string `json:"n"`
	V string `json:"v"`
}

type tOp struct {
	K    string   `json:"k"` // contents json template touch mode gofmt fail
	S    string   `json:"s"`
	P    []tPiece `json:"p"`
	D    []tNV    `json:"d"`
	M    int      `json:"m"`
	Form int      `json:"form"`
}

type tStep struct {
	K   string   `json:"k"` // vars data dir seq try file fail nil fs
	N   []tPiece `json:"n"`
	N2  []tPiece `json:"n2"`
	D   []tNV    `json:"d"`
	C   []tStep  `json:"c"`
	Ops []tOp    `json:"ops"`
	S   string   `json:"s"`
	M   int      `json:"m"`
}

type tFile struct {
	P    string `json:"p"`
	Dir  bool   `json:"dir"`
	Data string `json:"data"`
	Mode int    `json:"mode"`
}

type tmplScen struct {
	Dry   bool     `json:"dry"`
	Over  bool     `json:"over"`
	Place string   `json:"place"` // action, flags
	WD    string   `json:"wd"`
	Files []tFile  `json:"files"`
	Fails []string `json:"fails"`
	Steps []tStep  `json:"steps"`
}

func init() {
	areas["tmpl"] = area{gen: genTmpl, exec: execTmpl}
}

type tmplRun struct {
	log []obj
	m   *memFS
	out *bytes.Buffer
}

func tSource(ps []tPiece) string {
	var b strings.Builder
	for _, p := range ps {
		switch p.T {
		case "lit":
			b.WriteString(p.S)
		case "var":
			b.WriteString("{{ ." + p.S + " }}")
		case "bad":
			b.WriteString("{{ " + p.S)
		case "fail":
			b.WriteString("{{ index .X 99 }}")
		}
	}
	return b.String()
}

type tGen func(context.Context, *etemplate.OutputContext) error

func (f tGen) Generate(c context.Context, o *etemplate.OutputContext) error { return f(c, o) }

type failReader struct{ s string }

func (f failReader) Read([]byte) (int, error) { return 0, pErr(f.s) }

// flush moves what was reported so far to the log
var reportRx = regexp.MustCompile(`^ *(create|overwrite|identical|error)  (.*?)( \(dry-run\))?$`)

func (t *tmplRun) flush() {
	s := t.out.String()
	t.out.Reset()
	for _, l := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
		if s == "" {
			break
		}
		m := reportRx.FindStringSubmatch(l)
		if m == nil {
			t.say("line", l, false)
			continue
		}
		t.say(m[1], path.Clean(m[2]), m[3] != "")
	}
}

func (t *tmplRun) say(w, p string, dry bool) {
	t.log = append(t.log, obj{"w": w, "p": p, "dry": dry})
}

func (t *tmplRun) op(o tOp) etemplate.FileGenerator {
	switch o.K {
	case "contents":
		switch o.Form {
		case 1:
			return etemplate.Contents([]byte(o.S))
		case 2:
			return etemplate.Contents(strings.NewReader(o.S))
		}
		return etemplate.Contents(o.S)
	case "badreader":
		return etemplate.Contents(io.MultiReader(strings.NewReader("part"), failReader{o.S}))
	case "json":
		return etemplate.Contents(map[string]string{"a": o.S})
	case "template":
		tt, err := template.New("t").Parse(tSource(o.P))
		if err != nil {
			panic(err)
		}
		nv := []any{}
		for _, d := range o.D {
			nv = append(nv, d.N, d.V)
		}
		return etemplate.Template(tt, nv...)
	case "touch":
		return etemplate.Touch()
	case "mode":
		if o.Form == 1 {
			return etemplate.FileMode(o.M)
		}
		return etemplate.Mode(fs.FileMode(o.M))
	case "gofmt":
		return etemplate.Gofmt()
	case "fail":
		return etemplate.FileGeneratorFunc(func(context.Context, *etemplate.OutputContext, string) error { return pErr(o.S) })
	case "name":
		return etemplate.FileGeneratorFunc(func(_ context.Context, _ *etemplate.OutputContext, name string) error {
			t.flush()
			t.say("name", path.Clean(name), false)
			return nil
		})
	}
	panic("op " + o.K)
}

func (t *tmplRun) steps(ss []tStep) []etemplate.Generator {
	r := []etemplate.Generator{}
	for _, s := range ss {
		r = append(r, t.step(s))
	}
	return r
}

func (t *tmplRun) step(s tStep) etemplate.Generator {
	switch s.K {
	case "vars":
		v := etemplate.Vars{}
		for _, d := range s.D {
			v[d.N] = d.V
		}
		return v
	case "data":
		return etemplate.Data(s.D[0].N, s.D[0].V)
	case "dir":
		return etemplate.Dir(tSource(s.N), t.steps(s.C)...)
	case "seq":
		return etemplate.Sequence(t.steps(s.C))
	case "root":
		return etemplate.New(t.steps(s.C)...)
	case "nil":
		return nil
	case "try":
		gs := t.steps(s.C)
		return tGen(func(c context.Context, o *etemplate.OutputContext) error {
			_ = o.Do(c, gs...)
			return nil
		})
	case "fail":
		return tGen(func(context.Context, *etemplate.OutputContext) error { return pErr(s.S) })
	case "file":
		ops := []etemplate.FileGenerator{}
		for _, o := range s.Ops {
			ops = append(ops, t.op(o))
		}
		return etemplate.File(tSource(s.N), ops...)
	case "fs":
		a, b := tSource(s.N), tSource(s.N2)
		return tGen(func(c context.Context, o *etemplate.OutputContext) error {
			t.flush()
			if o.DryRun && s.S != "exists" && s.S != "read" && s.S != "where" {
				return nil
			}
			switch s.S {
			case "create":
				f, err := o.Create(a)
				if err != nil {
					return err
				}
				_, err = f.(io.Writer).Write([]byte(b))
				if e := f.Close(); err == nil {
					err = e
				}
				return err
			case "mkdir":
				return o.Mkdir(a, 0755)
			case "mkdirall":
				return o.MkdirAll(a, 0755)
			case "remove":
				return o.Remove(a)
			case "removeall":
				return o.RemoveAll(a)
			case "rename":
				return o.Rename(a, b)
			case "chmod":
				return o.Chmod(a, fs.FileMode(s.M))
			case "exists":
				t.say("exists", fmt.Sprint(o.Exists(a)), false)
			case "where":
				t.say("where", path.Clean(o.WorkDir()), false)
			case "read":
				f, err := o.Open(a)
				if err != nil {
					return err
				}
				defer f.Close()
				d, err := io.ReadAll(f)
				if err != nil {
					return err
				}
				t.say("read", string(d), false)
			}
			return nil
		})
	}
	panic("step " + s.K)
}

var sgrRx = regexp.MustCompile("\x1b\\[[0-9;]*m")

type sgrWriter struct{ w io.Writer }

func (s sgrWriter) Write(b []byte) (int, error) {
	_, err := s.w.Write(sgrRx.ReplaceAll(b, nil))
	return len(b), err
}

func execTmpl(raw json.RawMessage) any {
	s := decode[tmplScen](raw)
	m := newMemFS(s.Fails)
	for _, f := range s.Files {
		m.put(f.P, &memNode{dir: f.Dir, data: []byte(f.Data), mode: fs.FileMode(f.Mode)})
	}
	t := &tmplRun{m: m, out: &bytes.Buffer{}, log: []obj{}}
	root := etemplate.New(t.steps(s.Steps)...)
	root.WorkingDirectory = s.WD
	app := &cli.App{Name: "app", FS: m, Stdout: sgrWriter{t.out}, Stderr: io.Discard}
	args := []string{"app"}
	if s.Place == "flags" {
		app.Uses = root
		if s.Dry {
			args = append(args, "--dry-run")
		}
		if s.Over {
			args = append(args, "--overwrite")
		}
	} else {
		root.DryRun, root.Overwrite = s.Dry, s.Over
		app.Action = root
	}
	err := app.RunContext(context.Background(), args)
	t.flush()
	res := "ok"
	if err != nil {
		var p pErr
		var i injected
		switch {
		case errors.As(err, &p):
			res = string(p)
		case errors.As(err, &i):
			res = i.what
		default:
			res = "err"
		}
	}
	return obj{"fs": m.listing(), "log": t.log, "res": res, "open": m.open}
}

func genTmpl(r *rand.Rand, profile string, i int) any {
	s := tmplScen{Dry: chance(r, 25), Over: chance(r, 30), Place: pick(r, []string{"action", "flags"}), WD: pick(r, []string{"", "", "", ".", "out", "out/..", "a", "/w"}), Files: []tFile{}, Fails: []string{}}
	words := []string{"hello", "x", "", "package  p\n", "package p\n", "}{", "b\nc"}
	names := [][]tPiece{
		{{"lit", "f"}}, {{"lit", "f"}}, {{"lit", "g.txt"}}, {{"lit", "a/f"}}, {{"lit", "d/e/f"}}, {{"var", "V"}}, {{"lit", "p"}, {"var", "V"}, {"lit", ".t"}},
		{{"lit", "a/../h"}}, {{"lit", "./f"}}, {{"lit", "/w/f"}}, {{"lit", "/w/"}, {"var", "W"}}, {{"bad", "f"}}, {{"var", "W"}, {"bad", "x"}}, {{"var", "Q"}}, {{"lit", "a//f"}}, {{"fail", ""}},
	}
	mk := func(k string) tStep {
		return tStep{K: k, N: []tPiece{}, N2: []tPiece{}, D: []tNV{}, C: []tStep{}, Ops: []tOp{}}
	}
	nvs := func(n int) []tNV {
		r2 := []tNV{}
		for _, v := range r.Perm(3)[:n] {
			r2 = append(r2, tNV{[]string{"V", "W", "Q"}[v], pick(r, []string{"v", "w/x", "q", "f", "{{ .W }}", "/w/z", "a"})})
		}
		return r2
	}
	mko := func(k string) tOp { return tOp{K: k, P: []tPiece{}, D: []tNV{}} }
	op := func() tOp {
		switch x := r.Intn(20); {
		case x < 6:
			o := mko("contents")
			o.S, o.Form = pick(r, words), r.Intn(3)
			return o
		case x < 7:
			o := mko("json")
			o.S = pick(r, []string{"x", "y"})
			return o
		case x < 10:
			o := mko("template")
			for n := r.Intn(3); n >= 0; n-- {
				o.P = append(o.P, pick(r, []tPiece{{"lit", "t "}, {"var", "V"}, {"var", "W"}, {"var", "Q"}, {"lit", "package  p\n"}}))
			}
			if chance(r, 8) {
				o.P = append(o.P, tPiece{"fail", ""})
			}
			o.D = nvs(r.Intn(3))
			return o
		case x < 12:
			return mko("touch")
		case x < 15:
			o := mko("mode")
			o.M, o.Form = pick(r, []int{0600, 0755, 0640}), r.Intn(2)
			return o
		case x < 17:
			return mko("gofmt")
		case x < 18 && chance(r, 30):
			o := mko("badreader")
			o.S = "boomr"
			if chance(r, 50) {
				o = mko("fail")
				o.S = fmt.Sprint("boom", r.Intn(3))
			}
			return o
		}
		return mko("name")
	}
	budget := 9
	var steps func(depth int) []tStep
	steps = func(depth int) []tStep {
		res := []tStep{}
		for n := 1 + r.Intn(4); n > 0 && budget > 0; n-- {
			budget--
			switch x := r.Intn(22); {
			case x < 10:
				s := mk("file")
				s.N = pick(r, names)
				for k := r.Intn(4); k > 0; k-- {
					s.Ops = append(s.Ops, op())
				}
				if len(s.Ops) == 0 && chance(r, 80) {
					s.Ops = append(s.Ops, op())
				}
				res = append(res, s)
			case x < 14 && depth < 3:
				s := mk("dir")
				s.N = pick(r, [][]tPiece{{{"lit", "a"}}, {{"lit", "a"}}, {{"lit", "d"}}, {{"lit", "d/e"}}, {{"lit", ".."}}, {{"lit", "/w"}}, {{"lit", "."}}, {{"lit", "n"}}, {{"lit", ""}}})
				s.C = steps(depth + 1)
				res = append(res, s)
			case x < 16:
				s := mk(pick(r, []string{"vars", "data"}))
				s.D = nvs(1)
				if s.K == "vars" {
					s.D = nvs(r.Intn(3))
				}
				res = append(res, s)
			case x < 18 && depth < 3:
				s := mk(pick(r, []string{"seq", "try", "try", "root"}))
				s.C = steps(depth + 1)
				res = append(res, s)
			case x == 18 && chance(r, 30):
				s := mk("fail")
				s.S = fmt.Sprint("boom", 3+r.Intn(3))
				res = append(res, s)
			default:
				s := mk("fs")
				s.S = pick(r, []string{"create", "create", "create", "mkdir", "mkdirall", "mkdirall", "remove", "removeall", "removeall", "rename", "chmod", "exists", "exists", "exists", "read", "where"})
				s.N, s.N2, s.M = pick(r, names[:10]), pick(r, names[:8]), pick(r, []int{0600, 0700})
				if s.S == "create" {
					s.N2 = []tPiece{{"lit", "made"}}
				}
				res = append(res, s)
			}
		}
		return res
	}
	s.Steps = steps(0)
	if chance(r, 10) {
		s.Steps = append(s.Steps, steps(0)...)
	}
	for _, p := range []string{"f", "a/f", "g.txt", "d/e/f", "a/a/f", "d/f", "/w/f", "out/f", "v", "d"} {
		if chance(r, 18) && !(p == "d" && len(s.Files) > 0) {
			f := tFile{P: p, Data: pick(r, words), Mode: pick(r, []int{0644, 0600})}
			if chance(r, 8) {
				f.Dir, f.Data, f.Mode = true, "", 0755
			}
			s.Files = append(s.Files, f)
		}
	}
	n := r.Intn(4) - 1
	if profile == "fault" {
		n, s.Dry = 3, false
	}
	for ; n > 0; n-- {
		s.Fails = append(s.Fails, pick(r, []string{"create", "create", "write", "write", "close", "mkdir", "mkdir", "chmod", "chtimes", "remove", "rename"})+" "+pick(r, []string{"f", "f", "a", "a/f", "d", "d/e", "d/e/f", "g.txt", "a/g.txt", "out", "/w", "/w/f"}))
	}
	return s
}
