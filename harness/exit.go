package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"strings"
	"sync"

	cli "github.com/Carbonfrost/joe-cli"
)

// How a process ends.

type eArg struct {
	T string `json:"t"`
	S string `json:"s"`
	N int    `json:"n"`
}

type eRes struct {
	T    string `json:"t"`
	S    string `json:"s"`
	N    int    `json:"n"`
	Args []eArg `json:"args"`
}

type eHand struct {
	ID string `json:"id"`
	R  eRes   `json:"r"`
}

type eScen struct {
	RT   []string `json:"rt"`
	ST   []string `json:"st"`
	RBad string   `json:"rbad"`
	SBad string   `json:"sbad"`
	Sub  string   `json:"sub"`
	XE   bool     `json:"xe"`
	YE   bool     `json:"ye"`
	H    []eHand  `json:"h"`
	Mode string   `json:"mode"`
}

type myCoder struct {
	msg  string
	code int
}

func (m *myCoder) Error() string { return m.msg }
func (m *myCoder) ExitCode() int { return m.code }

func codeOf(name string) cli.ErrorCode {
	for c, n := range codeNames {
		if n == name {
			return c
		}
	}
	panic("code " + name)
}

func (r eRes) err() error {
	switch r.T {
	case "err":
		return errors.New(r.S)
	case "coder":
		return &myCoder{r.S, r.N}
	case "code":
		return &cli.ParseError{Code: codeOf(r.S)}
	case "exit":
		var xs []any
		for _, a := range r.Args {
			switch a.T {
			case "s":
				xs = append(xs, a.S)
			case "i":
				xs = append(xs, a.N)
			case "e":
				xs = append(xs, errors.New(a.S))
			case "x":
				xs = append(xs, &myCoder{a.S, a.N})
			case "n":
				xs = append(xs, nil)
			case "c":
				xs = append(xs, codeOf(a.S))
			}
		}
		return cli.Exit(xs...)
	}
	return nil
}

func (s eScen) app(say func(string)) *cli.App {
	on := func(id string) cli.Action {
		r := eRes{T: "ok"}
		for _, h := range s.H {
			if h.ID == id {
				r = h.R
				break
			}
		}
		a := cli.ActionOf(func() error {
			say(id)
			if r.T == "panic" {
				panic(r.S)
			}
			return r.err()
		})
		if r.T == "panic" {
			return cli.Recover(a)
		}
		return a
	}
	opt := func(b bool) cli.Option {
		if b {
			return cli.Exits
		}
		return 0
	}
	return &cli.App{Name: "app", Uses: on("ui"), Before: on("br"), Action: on("ar"), After: on("fr"),
		Flags: []*cli.Flag{{Name: "x", Value: new(bool), Options: opt(s.XE), Uses: on("ux"), Before: on("bx"), Action: on("ax"), After: on("fx")}},
		Commands: []*cli.Command{{Name: "sub", Uses: on("us"), Before: on("bs"), Action: on("as"), After: on("fs"),
			Flags: []*cli.Flag{{Name: "y", Value: new(bool), Options: opt(s.YE), Uses: on("uy"), Before: on("by"), Action: on("ay"), After: on("fy")},
				{Name: "s", Value: new(string)}}}}}
}

func (s eScen) args() []string {
	a := append([]string{"app"}, s.RT...)
	if s.RBad != "" {
		a = append(a, s.RBad)
	}
	if s.Sub != "" {
		a = append(append(a, s.Sub), s.ST...)
		if s.SBad != "" {
			a = append(a, s.SBad)
		}
	}
	return a
}

// procExit is the process under observation
func procExit() {
	s := decode[eScen]([]byte(os.Getenv("JOEH_EXIT")))
	a := s.app(func(id string) { fmt.Fprintln(os.Stdout, "H:"+id) })
	a.Run(s.args())
	fmt.Fprintln(os.Stdout, "R:")
	os.Exit(0)
}

func (s eScen) helps() bool {
	for _, t := range append(append([]string{}, s.RT...), s.ST...) {
		if t == "--help" {
			return true
		}
	}
	return false
}

func stripStack(e string) string {
	if !strings.Contains(e, "goroutine ") {
		return e
	}
	if i := strings.Index(e, "internal error, at "); i >= 0 {
		return e[i:]
	}
	return e
}

var exitHandlerMu sync.Mutex

func execExit(raw json.RawMessage) any {
	s := decode[eScen](raw)
	if s.Mode == "hand" {
		exitHandlerMu.Lock()
		defer exitHandlerMu.Unlock()
		out, calls := []string{}, []any{}
		cli.ExitHandler = func(c *cli.Context, m string, n int) { calls = append(calls, obj{"msg": m, "code": n}) }
		defer func() { cli.ExitHandler = nil }()
		a := s.app(func(id string) { out = append(out, id) })
		a.Stdout, a.Stderr = new(bytes.Buffer), new(bytes.Buffer)
		a.Run(s.args())
		return obj{"out": out, "ret": true, "end": calls}
	}
	cmd := exec.Command(os.Args[0], "proc-exit")
	cmd.Env = append(os.Environ(), "JOEH_EXIT="+string(raw))
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	var xe *exec.ExitError
	if err != nil && !errors.As(err, &xe) {
		panic(err)
	}
	out, ret := []string{}, false
	for _, l := range strings.Split(so.String(), "\n") {
		if strings.HasPrefix(l, "H:") {
			out = append(out, l[2:])
		}
		if l == "R:" {
			ret = true
		}
	}
	msg := stripStack(se.String())
	code := cmd.ProcessState.ExitCode()
	if s.helps() && code == 0 { // the help itself
		msg = ""
	}
	return obj{"out": out, "ret": ret, "end": []any{obj{"msg": msg, "code": code}}}
}

var eIDs = []string{"ui", "ux", "us", "uy", "br", "bx", "ax", "ar", "bs", "by", "ay", "as", "fs", "fy", "fr", "fx"}

func genExit(r *rand.Rand, profile string, i int) any {
	s := eScen{RT: []string{}, ST: []string{}, H: []eHand{}, XE: chance(r, 15), YE: chance(r, 15), Mode: "hand"}
	if chance(r, 25) {
		s.Mode = "proc"
	}
	toks := func(extra ...string) []string {
		x := []string{}
		for _, t := range append([]string{"-x", "--help", "--version"}, extra...) {
			p := 8
			if len(t) == 2 {
				p = 45
			}
			if chance(r, p) {
				x = append(x, t)
			}
		}
		r.Shuffle(len(x), func(i, j int) { x[i], x[j] = x[j], x[i] })
		return x
	}
	s.RT = toks()
	if chance(r, 8) {
		s.RBad = pick(r, []string{"--zz", "-y", "-q", "--long-option"})
	}
	switch k := r.Intn(10); {
	case k < 6:
		s.Sub, s.ST = "sub", toks("-y")
		if chance(r, 15) {
			s.SBad = pick(r, []string{"--zz", "extra", "-s", "-q"})
		}
	case k < 7:
		s.Sub = pick(r, []string{"nocmd", "su", "subs", "x y"})
	}
	for k := pick(r, []int{0, 1, 1, 1, 2, 3}); k > 0; k-- {
		h := eHand{ID: pick(r, eIDs), R: eRes{Args: []eArg{}}}
		h.R.T = pick(r, []string{"err", "exit", "exit", "exit", "coder", "code", "panic"})
		txt := func() string { return pick(r, []string{"boom", "two words", "", "100%d", "a\tb"}) }
		arg := func() eArg {
			a := eArg{T: pick(r, []string{"s", "s", "i", "i", "e", "x", "n", "c"})}
			switch a.T {
			case "s", "e":
				a.S = txt()
			case "i":
				a.N = r.Intn(256)
			case "x":
				a.S, a.N = txt(), r.Intn(256)
			case "c":
				a.S = pick(r, []string{"UnknownOption", "InvalidArgument", "MissingArgument"})
			}
			return a
		}
		switch h.R.T {
		case "err":
			h.R.S = txt()
		case "coder":
			h.R.S, h.R.N = txt(), r.Intn(256)
		case "code":
			h.R.S = pick(r, []string{"UnexpectedArgument", "ExpectedArgument", "FlagUsedAfterArgs"})
		case "panic":
			h.R.S = pick(r, []string{"oops", "it is 100%d full"})
		case "exit":
			for n := r.Intn(5); n > 0; n-- {
				h.R.Args = append(h.R.Args, arg())
			}
		}
		s.H = append(s.H, h)
	}
	return s
}

func init() { areas["exit"] = area{gen: genExit, exec: execExit} }
