package main

import (
	"bytes"
	"context"
	"encoding/json"
	"math/rand"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/exec"
)

// Area "parse": one command with flags and positional arguments; observes the
// occurrences recorded for each option, or the class of the error.

type pFlag struct {
	Name    string   `json:"name"`
	Aliases []string `json:"aliases"`
	Kind    string   `json:"kind"` // bool str list opt
}

type pArg struct {
	Name string `json:"name"`
	Cnt  string `json:"cnt"` // str list n0 n1 n2 n3 m1 m2 m3
}

type pScen struct {
	Flags []pFlag  `json:"flags"`
	Args  []pArg   `json:"args"`
	RTL   bool     `json:"rtl"`
	DFA   bool     `json:"dfa"`
	SFP   bool     `json:"sfp"`
	Argv  []string `json:"argv"`
}

func init() {
	areas["parse"] = area{gen: genParse, exec: execParse}
}

var nargs = map[string]int{"n0": 0, "n1": 1, "n2": 2, "n3": 3, "m1": -1, "m2": -2, "m3": -3, "m7": -7}

func buildFlag(f pFlag) *cli.Flag {
	res := &cli.Flag{Name: f.Name, Aliases: f.Aliases}
	switch f.Kind {
	case "bool":
		res.Value = new(bool)
	case "str":
		res.Value = new(string)
	case "list":
		res.Value = new([]string)
		res.Options = cli.DisableSplitting
	case "opt":
		res.Value = new(string)
		res.Uses = cli.OptionalValue("dflt")
	case "exec":
		res.Value = new(exec.ArgList)
	case "nv":
		res.Value = new(cli.NameValue)
	default:
		panic("kind " + f.Kind)
	}
	return res
}

func buildArg(a pArg) *cli.Arg {
	res := &cli.Arg{Name: a.Name}
	switch a.Cnt {
	case "str":
		res.Value = new(string)
	case "list":
		res.Value = new([]string)
	case "exec":
		res.Value = new(exec.ArgList)
	case "nv":
		res.Value = new(cli.NameValue)
	case "o1":
		res.Value = new(string)
		res.NArg = cli.OptionalArg(func(s string) bool { return strings.HasPrefix(s, "p") })
	default:
		res.Value = new([]string)
		res.NArg = nargs[a.Cnt]
	}
	return res
}

func execParse(raw json.RawMessage) any {
	s := decode[pScen](raw)
	var binds []any
	ran := 0
	app := &cli.App{
		Name: "app",
		Action: func(c *cli.Context) {
			ran++
			lk := c.BindingLookup()
			one := func(name string, seen bool, occ int) {
				bs := lk.Bindings(name)
				list := make([][]string, 0)
				for _, b := range bs {
					list = append(list, strs(b))
				}
				binds = append(binds, obj{
					"n": name, "b": list, "r": strs(c.Raw(name)), "o": strs(c.RawOccurrences(name)),
					"seen": seen, "occ": occ,
				})
			}
			for _, f := range s.Flags {
				one(f.Name, c.Seen(f.Name), c.Occurrences(f.Name))
			}
			for _, a := range s.Args {
				one(a.Name, c.Seen(a.Name), c.Occurrences(a.Name))
			}
		},
		Stdout: new(bytes.Buffer), Stderr: new(bytes.Buffer),
	}
	for _, f := range s.Flags {
		app.Flags = append(app.Flags, buildFlag(f))
	}
	shared := map[string]any{}
	for _, a := range s.Args {
		arg := buildArg(a)
		// Args of the same kind share their counter, which counts for each of them separately
		if c, ok := shared[a.Cnt]; ok {
			arg.NArg = c
		} else if arg.NArg != nil {
			shared[a.Cnt] = arg.NArg
			if s.Flags == nil || len(s.Argv)%2 == 0 {
				shared[a.Cnt] = cli.ArgCount(arg.NArg)
			}
			arg.NArg = shared[a.Cnt]
		}
		app.Args = append(app.Args, arg)
	}
	if s.RTL {
		app.Options |= cli.RightToLeft
	}
	if s.DFA {
		app.Options |= cli.DisallowFlagsAfterArgs
	}
	if s.SFP {
		app.Options |= cli.SkipFlagParsing
	}
	err := app.RunContext(context.Background(), append([]string{"app"}, s.Argv...))
	code := errClass(err)
	if binds == nil {
		binds = []any{}
	}
	if err == nil && ran != 1 {
		code = "norun"
	}
	if err != nil && ran != 0 {
		code = "ran+" + code
	}
	return obj{"code": code, "binds": binds}
}

func genParse(r *rand.Rand, profile string, i int) any {
	var s pScen
	s.Flags = []pFlag{}
	s.Args = []pArg{}
	shorts := []string{"a", "b", "c", "d", "e"}
	longs := []string{"alpha", "beta", "gamma", "delta", "eps"}
	kinds := []string{"bool", "bool", "str", "list", "opt"}
	cnts := []string{"str", "str", "list", "n0", "n1", "n1", "n2", "n3", "m1", "m2", "m3", "o1", "m7"}
	vals := []string{"p", "q", "pq", "", "-", "=", "p=q", "0", "a", "w x"}
	if profile == "own" {
		kinds = append(kinds, "exec", "nv", "exec", "nv")
		cnts = append(cnts, "exec", "nv", "exec", "nv", "exec", "nv")
		vals = append(vals, ";", "+", ";", "+", "-a", ";x", "p=q", "k=", "=v", ";", "+")
	}
	nf := r.Intn(5)
	if profile == "args" {
		nf = r.Intn(3)
	}
	for k := 0; k < nf; k++ {
		f := pFlag{Kind: pick(r, kinds), Aliases: []string{}}
		switch r.Intn(4) {
		case 0:
			f.Name = shorts[k]
		case 1:
			f.Name = longs[k]
		case 2:
			f.Name, f.Aliases = longs[k], []string{shorts[k]}
		case 3:
			f.Name, f.Aliases = shorts[k], []string{longs[k]}
			if chance(r, 40) {
				f.Aliases = append(f.Aliases, strings.ToUpper(shorts[k]), longs[k]+"-x")
			}
		}
		s.Flags = append(s.Flags, f)
	}
	na := r.Intn(4)
	if profile == "args" {
		na = 1 + r.Intn(4)
	}
	for k := 0; k < na; k++ {
		s.Args = append(s.Args, pArg{Name: []string{"w", "xx", "y", "z"}[k], Cnt: pick(r, cnts)})
	}
	if profile == "args" {
		s.RTL = chance(r, 35)
	} else {
		s.RTL = chance(r, 8)
	}
	s.DFA = chance(r, 12)
	s.SFP = chance(r, 4)
	n := r.Intn(8)
	s.Argv = []string{}
	names := func() (sh, lo []string) {
		for _, f := range s.Flags {
			for _, n := range append([]string{f.Name}, f.Aliases...) {
				if len(n) == 1 {
					sh = append(sh, n)
				} else {
					lo = append(lo, n)
				}
			}
		}
		return
	}
	sh, lo := names()
	sval := func() string { return pick(r, vals) }
	for len(s.Argv) < n {
		x := r.Intn(100)
		if profile == "args" && x < 45 && chance(r, 60) {
			x = 70
		}
		var t string
		switch {
		case x < 15 && len(lo) > 0:
			t = "--" + pick(r, lo)
			if chance(r, 40) {
				t += "=" + sval()
			}
		case x < 45 && len(sh) > 0:
			t = "-" + pick(r, sh)
			for chance(r, 40) {
				t += pick(r, sh)
			}
			switch r.Intn(6) {
			case 0:
				t += "=" + sval()
			case 1:
				t += sval()
			}
		case x < 50:
			t = pick(r, []string{"--", "--", "-", "", "---", "--=", "-=", "--zz", "-z", "--zz=1", "--a", "--b=p", "--alph"})
		case x < 56:
			t = "--"
		default:
			t = sval()
		}
		s.Argv = append(s.Argv, t)
	}
	return s
}
