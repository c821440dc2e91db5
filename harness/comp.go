package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
)

// Completion: what is offered for a partial command line, either asked for by the program
// (Context.Complete) or by the shell (the zsh protocol).

type cComp struct {
	K    string   `json:"k"` // none vals file dir func
	Vals []string `json:"vals"`
}

type cFlag struct {
	Name    string   `json:"name"`
	Aliases []string `json:"aliases"`
	Kind    string   `json:"kind"`
	Hidden  bool     `json:"hidden"`
	NP      bool     `json:"np"`
	Req     bool     `json:"req"`
	Comp    cComp    `json:"comp"`
}

type cArg struct {
	Name string `json:"name"`
	Cnt  string `json:"cnt"`
	Comp cComp  `json:"comp"`
}

type cCmd struct {
	Name    string   `json:"name"`
	Aliases []string `json:"aliases"`
	Hidden  bool     `json:"hidden"`
	Flags   []cFlag  `json:"flags"`
	Args    []cArg   `json:"args"`
	Subs    []cCmd   `json:"subs"`
}

type compScen struct {
	Mode string   `json:"mode"`
	Root cCmd     `json:"root"`
	Argv []string `json:"argv"`
	Inc  string   `json:"inc"`
}

func init() {
	areas["comp"] = area{gen: genComp, exec: execComp, serial: true}
}

func (c cComp) build() cli.Completion {
	switch c.K {
	case "none":
		return nil
	case "vals":
		return cli.CompletionValues(c.Vals...)
	case "file":
		return cli.FileCompletion
	case "dir":
		return cli.DirectoryCompletion
	case "func":
		return cli.CompletionFunc(func(c *cli.Context) []cli.CompletionItem {
			return []cli.CompletionItem{{Value: c.CompletionRequest().Incomplete + "!"}}
		})
	}
	panic("completion " + c.K)
}

func execComp(raw json.RawMessage) any {
	s := decode[compScen](raw)
	ran := 0
	act := func() { ran++ }
	options := func(fs []cFlag, as []cArg) (flags []*cli.Flag, args []*cli.Arg) {
		for _, f := range fs {
			x := buildFlag(pFlag{f.Name, f.Aliases, f.Kind})
			x.HelpText = "about\n" + f.Name
			x.Completion = f.Comp.build()
			x.Action = act
			if f.Hidden {
				x.Options |= cli.Hidden
			}
			if f.NP {
				x.Options |= cli.NonPersistent
			}
			if f.Req {
				x.Options |= cli.Required
			}
			flags = append(flags, x)
		}
		for _, a := range as {
			x := buildArg(pArg{a.Name, a.Cnt})
			x.Completion = a.Comp.build()
			x.Action = act
			args = append(args, x)
		}
		return
	}
	var build func(c cCmd) *cli.Command
	build = func(c cCmd) *cli.Command {
		r := &cli.Command{Name: c.Name, Aliases: c.Aliases, Action: act, HelpText: "about " + c.Name}
		if c.Hidden {
			r.Options |= cli.Hidden
		}
		r.Flags, r.Args = options(c.Flags, c.Args)
		for _, x := range c.Subs {
			r.Subcommands = append(r.Subcommands, build(x))
		}
		return r
	}
	root := build(s.Root)
	var out, errOut bytes.Buffer
	app := &cli.App{Name: "app", Flags: root.Flags, Args: root.Args, Commands: root.Subcommands, Action: act, Stdout: &out, Stderr: &errOut}
	items := []string{}
	add := func(typ, v string, nospace bool) {
		if nospace {
			v += "~"
		}
		items = append(items, typ+v)
	}
	if s.Mode == "call" {
		ctx, err := app.Initialize(context.Background())
		if err != nil {
			return obj{"bag": items, "res": "init: " + err.Error()}
		}
		for _, x := range cli.FromContext(ctx).Complete(append([]string{"app"}, s.Argv...), s.Inc) {
			add([]string{"", "F:", "D:"}[x.Type], x.Value, x.PreventSpaceAfter)
		}
		return obj{"bag": items, "res": fmt.Sprint("ran ", ran)}
	}
	words := cli.Join(append([]string{"app"}, s.Argv...)) + " "
	if s.Inc != "" {
		words += s.Inc
	}
	for k, v := range map[string]string{"_JOE_APP_COMPLETE": "zsh", "COMP_WORDS": words, "COMP_CWORD": fmt.Sprint(len(s.Argv) + 1)} {
		os.Setenv(k, v)
		defer os.Unsetenv(k)
	}
	err := app.RunContext(context.Background(), []string{"app"})
	var xc cli.ExitCoder
	if !errors.As(err, &xc) || xc.ExitCode() != 0 {
		return obj{"bag": items, "res": fmt.Sprint("error: ", err)}
	}
	if errOut.Len() > 0 {
		return obj{"bag": items, "res": "stderr: " + errOut.String()}
	}
	lines := strings.Split(out.String(), "\n")
	if len(lines)%4 != 1 || lines[len(lines)-1] != "" {
		return obj{"bag": items, "res": "output: " + out.String()}
	}
	for i := 0; i+4 < len(lines)+3 && i+3 < len(lines); i += 4 {
		t, ok := map[string]string{"plain": "", "file": "F:", "dir": "D:"}[lines[i]]
		if !ok || lines[i+2] == "" || lines[i+3] != "" && lines[i+3] != "1" {
			return obj{"bag": items, "res": "output: " + out.String()}
		}
		add(t, lines[i+1], lines[i+3] == "")
	}
	return obj{"bag": items, "res": fmt.Sprint("ran ", ran)}
}

func genComp(r *rand.Rand, profile string, i int) any {
	comp := func() cComp {
		switch x := r.Intn(10); {
		case x < 3:
			return cComp{"none", []string{}}
		case x < 8:
			vs := []string{"red", "rose", "green", "-5", "r", "s"}
			r.Shuffle(len(vs), func(i, j int) { vs[i], vs[j] = vs[j], vs[i] })
			return cComp{"vals", vs[:r.Intn(4)]}
		}
		return cComp{pick(r, []string{"file", "dir", "func"}), []string{}}
	}
	kinds := []string{"bool", "str", "str", "list", "opt"}
	longs := []string{"color", "color-mode", "col", "size", "simple", "ya"}
	shorts := []string{"c", "s", "x", "y", "z"}
	flags := func(max int) []cFlag {
		res := []cFlag{}
		l, s := r.Perm(len(longs)), r.Perm(len(shorts))
		for k := 0; k < r.Intn(max+1); k++ {
			f := cFlag{Kind: pick(r, kinds), Aliases: []string{}, Hidden: chance(r, 20), NP: chance(r, 15), Req: chance(r, 10), Comp: comp()}
			long, short := longs[l[k]], shorts[s[k]]
			switch r.Intn(5) {
			case 0:
				f.Name = short
			case 1, 2:
				f.Name = long
			case 3:
				f.Name, f.Aliases = long, []string{short}
			case 4:
				f.Name, f.Aliases = short, []string{long}
				if chance(r, 40) {
					f.Aliases = append(f.Aliases, long+"s", strings.ToUpper(short))
				}
			}
			res = append(res, f)
		}
		return res
	}
	args := func(max int) []cArg {
		res := []cArg{}
		for k := 0; k < r.Intn(max+1); k++ {
			res = append(res, cArg{[]string{"aa", "bb", "cc"}[k], pick(r, []string{"str", "n1", "n1", "n2", "list", "m1", "m2", "m3"}), comp()})
		}
		return res
	}
	var cmd func(name string, depth int) cCmd
	cmd = func(name string, depth int) cCmd {
		c := cCmd{Name: name, Aliases: []string{}, Hidden: depth > 0 && chance(r, 20), Flags: flags(3), Args: args(2), Subs: []cCmd{}}
		if depth == 0 && chance(r, 50) {
			c.Args = []cArg{}
		}
		if depth < 2 {
			n := r.Intn(4 - depth)
			names := []string{"sub", "su", "red", "get", "go"}
			r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
			for k := 0; k < n; k++ {
				x := cmd(names[k], depth+1)
				if chance(r, 30) {
					x.Aliases = append(x.Aliases, fmt.Sprintf("g%d", k))
				}
				c.Subs = append(c.Subs, x)
			}
			if n > 0 {
				for len(c.Args) > 0 && (c.Args[len(c.Args)-1].Cnt == "m1" || c.Args[len(c.Args)-1].Cnt[0] == 'm' || c.Args[len(c.Args)-1].Cnt == "list") {
					c.Args = c.Args[:len(c.Args)-1]
				}
			}
		}
		return c
	}
	s := compScen{Mode: pick(r, []string{"call", "zsh"}), Root: cmd("app", 0), Argv: []string{}}
	cur := s.Root
	pool := append([]cFlag{}, cur.Flags...)
	word := func() string { return pick(r, []string{"red", "w", "7", "rose", "x=y"}) }
	flagTok := func() []string {
		if len(pool) == 0 {
			return nil
		}
		f := pick(r, pool)
		n := pick(r, append([]string{f.Name}, f.Aliases...))
		t := "--" + n
		if len(n) == 1 {
			t = "-" + n
		}
		switch {
		case f.Kind == "bool" || f.Kind == "opt":
			return []string{t}
		case len(n) == 1 && chance(r, 30):
			return []string{t + word()}
		case chance(r, 40):
			return []string{t + "=" + word()}
		}
		return []string{t, word()}
	}
	for {
		for chance(r, 35) {
			s.Argv = append(s.Argv, flagTok()...)
		}
		for _, a := range cur.Args {
			n := map[string]int{"str": 1, "n1": 1, "n2": 2}[a.Cnt]
			if n == 0 {
				n = r.Intn(3)
			}
			if chance(r, 15) {
				n--
			}
			for ; n > 0; n-- {
				s.Argv = append(s.Argv, word())
			}
			if chance(r, 20) {
				s.Argv = append(s.Argv, flagTok()...)
			}
		}
		if len(cur.Subs) == 0 || chance(r, 35) {
			break
		}
		cur = pick(r, cur.Subs)
		s.Argv = append(s.Argv, pick(r, append([]string{cur.Name}, cur.Aliases...)))
		pool = append(pool, cur.Flags...)
	}
	if chance(r, 6) {
		s.Argv = append(s.Argv, "--")
	}
	if chance(r, 5) && len(s.Argv) > 0 {
		s.Argv = s.Argv[:len(s.Argv)-1]
	}
	if chance(r, 4) {
		s.Argv = append(s.Argv, pick(r, []string{"--nope", "nocmd", "--", "-", "extra"}))
	}
	incs := []string{"", "", "r", "re", "s", "su", "g", "-", "--", "--c", "--col", "--color", "--color-", "--color=", "--color=r", "--col=r", "--si", "-s", "-sr", "-c", "-cr", "-x", "-z", "rose", "zzz", "h"}
	s.Inc = pick(r, incs)
	if chance(r, 30) {
		if t := flagTok(); t != nil {
			s.Inc = t[0]
			if chance(r, 30) && len(s.Inc) > 2 {
				s.Inc = s.Inc[:len(s.Inc)-1]
			}
			if len(t) == 2 && chance(r, 60) {
				s.Argv = append(s.Argv, t[0])
				s.Inc = pick(r, []string{"", "r", "re", "g"})
			}
		}
	}
	return s
}
