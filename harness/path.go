package main

import (
	"context"
	"encoding/json"
	"errors"
	"io"
	"math/rand"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
)

// Context paths, patterns and filters.

type pathEl struct {
	K    string `json:"k"` // cmd flag arg val
	Up   int    `json:"up"`
	Name string `json:"name"`
	To   string `json:"to"` // new name set in its own Uses
}

type pathReg struct {
	El    int      `json:"el"`
	Via   string   `json:"via"` // hook if
	T     string   `json:"t"`   // init before after
	Pat   string   `json:"pat"`
	Modes []string `json:"modes"`
	To    string   `json:"to"` // new name given to what matches
}

type pathFind struct {
	From int      `json:"from"`
	Path []string `json:"path"`
}

type pathWalk struct {
	From int   `json:"from"`
	Skip []int `json:"skip"`
	Stop int   `json:"stop"`
}

type pathScen struct {
	Op    string     `json:"op"` // match tree
	Pat   string     `json:"pat"`
	Path  []string   `json:"path"`
	Els   []pathEl   `json:"els"`
	Regs  []pathReg  `json:"regs"`
	Run   int        `json:"run"`
	Given []int      `json:"given"`
	Finds []pathFind `json:"finds"`
	Walk  pathWalk   `json:"walk"`
}

func init() {
	areas["path"] = area{gen: genPath, exec: execPath}
}

var pathModes = map[string]cli.FilterModes{
	"flag": cli.AnyFlag, "arg": cli.AnyArg, "command": cli.AnyCommand, "anything": cli.Anything,
	"seen": cli.Seen, "root": cli.RootCommand, "value": cli.HasValue,
}

func kindOf(p cli.ContextPath) string {
	var k []string
	for _, x := range []struct {
		n string
		b bool
	}{{"cmd", p.IsCommand()}, {"flag", p.IsFlag()}, {"arg", p.IsArg()}, {"expr", p.IsExpr()}} {
		if x.b {
			k = append(k, x.n)
		}
	}
	return strings.Join(k, "+")
}

type pathVal struct{ id int }

func execPath(raw json.RawMessage) any {
	s := decode[pathScen](raw)
	if s.Op == "match" {
		p := cli.ContextPath(s.Path)
		return obj{"res": p.Match(s.Pat), "kind": kindOf(p), "last": p.Last(), "str": p.String()}
	}

	var (
		bag     = []obj{}
		cmds    = make([]*cli.Command, len(s.Els)+1)
		targets = map[any]int{}
		ctxs    = map[int]*cli.Context{}
		errStop = errors.New("stop")
	)
	action := func(n int) cli.Action {
		r := s.Regs[n]
		x := cli.ActionFunc(func(c *cli.Context) error {
			if targets[c.Target()] == 0 {
				return nil // help, version and so on
			}
			bag = append(bag, obj{"r": n + 1, "t": r.T, "path": c.Path().String()})
			if r.To != "" {
				return c.SetName(r.To)
			}
			return nil
		})
		if r.Via == "hook" {
			switch r.T {
			case "init":
				return cli.Customize(r.Pat, x)
			case "before":
				return cli.HookBefore(r.Pat, x)
			default:
				return cli.HookAfter(r.Pat, x)
			}
		}
		filter := cli.PatternFilter(r.Pat)
		if len(r.Modes) > 0 {
			var m cli.FilterModes
			for _, y := range r.Modes {
				m |= pathModes[y]
			}
			filter = m
		}
		switch r.T {
		case "init":
			return cli.IfMatch(filter, x)
		case "before":
			return cli.Before(cli.IfMatch(filter, x))
		default:
			return cli.After(cli.IfMatch(filter, x))
		}
	}
	var uses func(i int) cli.Action
	uses = func(i int) cli.Action {
		var all []cli.Action
		for n, r := range s.Regs {
			if r.El == i {
				all = append(all, action(n))
			}
		}
		if to := s.Els[i-1].To; to != "" {
			all = append(all, cli.Named(to))
		}
		for j, e := range s.Els {
			if e.Up == i && e.K == "val" {
				v := &pathVal{j + 1}
				targets[v] = j + 1
				u := uses(j + 1)
				all = append(all, cli.ActionFunc(func(c *cli.Context) error {
					return c.ProvideValueInitializer(v, e.Name, u)
				}))
			}
		}
		return cli.ActionPipeline(all)
	}
	argv := map[int][]string{}
	for i := len(s.Els); i >= 1; i-- {
		e := s.Els[i-1]
		given := false
		for _, g := range s.Given {
			given = given || g == i
		}
		switch e.K {
		case "cmd":
			cmds[i] = &cli.Command{Name: e.Name, Uses: uses(i), Action: func() {}}
			targets[cmds[i]] = i
		case "flag":
			if given {
				d := "--"
				if len(e.Name) == 1 {
					d = "-"
				}
				argv[e.Up] = append([]string{d + e.Name}, argv[e.Up]...)
			}
		}
	}
	for i, e := range s.Els {
		up := e.Up
		switch e.K {
		case "cmd":
			if up > 0 {
				cmds[up].Subcommands = append(cmds[up].Subcommands, cmds[i+1])
			}
		case "flag":
			f := &cli.Flag{Name: e.Name, Value: new(bool), Uses: uses(i + 1)}
			targets[f] = i + 1
			cmds[up].Flags = append(cmds[up].Flags, f)
		case "arg":
			a := &cli.Arg{Name: e.Name, Value: new(string), NArg: cli.OptionalArg(func(string) bool { return true }), Uses: uses(i + 1)}
			for _, g := range s.Given {
				if g == i+1 {
					argv[up] = append(argv[up], "x")
				}
			}
			targets[a] = i + 1
			cmds[up].Args = append(cmds[up].Args, a)
		}
	}

	var (
		chain  []int
		finds  = []string{}
		walk   = []string{}
		walked = cli.Action(nil)
	)
	for i := s.Run; i > 0; i = s.Els[i-1].Up {
		chain = append([]int{i}, chain...)
	}
	stopped := false
	walked = cli.ActionFunc(func(c *cli.Context) error {
		for p := c; p != nil; p = p.Parent() {
			ctxs[targets[p.Target()]] = p
		}
		for _, f := range s.Finds {
			from := ctxs[f.From]
			if res, ok := from.FindTarget(cli.ContextPath(f.Path)); ok {
				finds = append(finds, res.Path().String())
			} else {
				finds = append(finds, "none")
			}
		}
		err := ctxs[s.Walk.From].Walk(func(c *cli.Context) error {
			id := targets[c.Target()]
			if id == 0 {
				return nil
			}
			walk = append(walk, c.Path().String())
			if id == s.Walk.Stop {
				return errStop
			}
			for _, x := range s.Walk.Skip {
				if x == id {
					return cli.ErrSkipCommand
				}
			}
			return nil
		})
		stopped = err == errStop
		return nil
	})
	cmds[s.Run].Action = walked

	root := cmds[1]
	app := &cli.App{
		Name: root.Name, Uses: root.Uses, Action: root.Action, Flags: root.Flags, Args: root.Args, Commands: root.Subcommands,
		Stdout: io.Discard, Stderr: io.Discard,
	}
	app.Uses = cli.Pipeline(cli.ActionFunc(func(c *cli.Context) error {
		targets[c.Target()] = 1
		return nil
	}), app.Uses)
	args := []string{root.Name}
	for n, i := range chain {
		if n > 0 {
			args = append(args, s.Els[i-1].Name)
		}
		args = append(args, argv[i]...)
	}
	if err := app.RunContext(context.Background(), args); err != nil {
		return obj{"err": err.Error()}
	}
	return obj{"bag": bag, "finds": finds, "walk": walk, "stopped": stopped}
}

func genPath(r *rand.Rand, profile string, i int) any {
	s := pathScen{Path: []string{}, Els: []pathEl{}, Regs: []pathReg{}, Given: []int{}, Finds: []pathFind{}, Walk: pathWalk{Skip: []int{}}}
	if profile == "match" || profile == "" && chance(r, 15) {
		names := []string{"app", "sub", "a", "-a", "-sub", "--sub", "--a", "<a>", "<sub>", "<-a>", "<-sub>", "--", "<>", "<->", "a-b", "sub<x>", "*a"}
		wild := []string{"*", "-", "--", "<>", "<->"}
		s.Op = "match"
		for n := 1 + r.Intn(4); n > 0; n-- {
			s.Path = append(s.Path, pick(r, names[:11]))
		}
		var b strings.Builder
		sp := func() {
			for chance(r, 12) {
				b.WriteString(pick(r, []string{" ", "\t", "\n"}))
			}
		}
		sp()
		n := r.Intn(5)
		for j := 0; j < n; j++ {
			if j > 0 {
				b.WriteString(" ")
			}
			at := len(s.Path) - n + j
			switch {
			case at >= 0 && chance(r, 55):
				e := s.Path[at]
				if strings.HasPrefix(e, "--") && chance(r, 40) {
					e = e[1:]
				}
				b.WriteString(e)
			case chance(r, 60):
				b.WriteString(pick(r, wild))
			default:
				b.WriteString(pick(r, names))
			}
			sp()
		}
		s.Pat = b.String()
		return s
	}

	s.Op = "tree"
	add := func(k string, up int, name string) int {
		for _, e := range s.Els {
			if e.K == k && e.Up == up && e.Name == name {
				return 0
			}
		}
		s.Els = append(s.Els, pathEl{K: k, Up: up, Name: name})
		return len(s.Els)
	}
	fill := func(up int, leaf bool) {
		for n := r.Intn(3); n > 0; n-- {
			f := add("flag", up, pick(r, []string{"flag", "f", "long", "g"}))
			if f > 0 && chance(r, 20) {
				add("val", f, pick(r, []string{"v", "flag"}))
			}
		}
		if leaf && chance(r, 60) {
			a := add("arg", up, pick(r, []string{"arg", "a"}))
			if a > 0 && chance(r, 20) {
				add("val", a, pick(r, []string{"v", "arg"}))
			}
		}
		if chance(r, 25) {
			add("val", up, pick(r, []string{"v", "flag"}))
		}
	}
	add("cmd", 0, pick(r, []string{"app", "sub"}))
	s.Els[0].Name = "app"
	if chance(r, 25) {
		fill(1, true)
	} else {
		fill(1, false)
		for n := 1 + r.Intn(2); n > 0; n-- {
			c := add("cmd", 1, pick(r, []string{"sub", "cmd", "x"}))
			if c == 0 {
				continue
			}
			if chance(r, 35) {
				fill(c, false)
				for m := 1 + r.Intn(2); m > 0; m-- {
					if d := add("cmd", c, pick(r, []string{"sub", "app", "y"})); d > 0 {
						fill(d, true)
					}
				}
			} else {
				fill(c, true)
			}
		}
	}
	var cs []int
	for i, e := range s.Els {
		if e.K == "cmd" {
			cs = append(cs, i+1)
		}
	}
	s.Run = pick(r, cs)
	inChain := map[int]bool{}
	for i := s.Run; i > 0; i = s.Els[i-1].Up {
		inChain[i] = true
	}
	label := func(i int) string {
		e := s.Els[i-1]
		n := e.Name
		if e.To != "" {
			n = e.To
		}
		switch e.K {
		case "flag":
			if len(n) == 1 {
				return "-" + n
			}
			return "--" + n
		case "arg":
			return "<" + n + ">"
		case "val":
			return "<-" + n + ">"
		}
		return n
	}
	pathTo := func(i int) []string {
		var p []string
		for ; i > 0; i = s.Els[i-1].Up {
			p = append([]string{label(i)}, p...)
		}
		return p
	}

	// options given, and at most one change of name of something else
	for i, e := range s.Els {
		if (e.K == "flag" || e.K == "arg") && inChain[e.Up] && chance(r, 40) {
			if e.K == "arg" && s.Els[e.Up-1].K == "cmd" && e.Up != s.Run {
				continue
			}
			s.Given = append(s.Given, i+1)
		}
	}
	fixed := map[int]bool{}
	for _, g := range s.Given {
		fixed[g] = true
	}
	pattern := func() string {
		p := pathTo(1 + r.Intn(len(s.Els)))
		if chance(r, 75) {
			p = p[r.Intn(len(p)):]
		}
		for j := range p {
			if chance(r, 35) {
				p[j] = pick(r, []string{"*", "-", "<>", "<->", "--"})
			} else if strings.HasPrefix(p[j], "--") && chance(r, 30) {
				p[j] = p[j][1:]
			}
		}
		if chance(r, 3) {
			return ""
		}
		if chance(r, 5) {
			return " "
		}
		return strings.Join(p, " ")
	}
	for n := 1 + r.Intn(5); n > 0; n-- {
		reg := pathReg{El: 1 + r.Intn(len(s.Els)), T: pick(r, []string{"init", "init", "before", "after"}), Modes: []string{}}
		if chance(r, 60) {
			reg.El = pick(r, cs)
		}
		if chance(r, 35) || s.Els[reg.El-1].K == "val" {
			reg.Via = "if"
			if chance(r, 70) {
				if chance(r, 60) {
					reg.Modes = append(reg.Modes, pick(r, []string{"flag", "arg", "command", "anything"}))
				}
				for _, m := range []string{"seen", "root", "value"} {
					if chance(r, 35) {
						reg.Modes = append(reg.Modes, m)
					}
				}
			}
			if len(reg.Modes) == 0 {
				reg.Pat = pattern()
			}
		} else {
			reg.Via = "hook"
			reg.Pat = pattern()
		}
		s.Regs = append(s.Regs, reg)
	}
	if i := 1 + r.Intn(len(s.Els)); chance(r, 40) && !fixed[i] && !inChain[i] && s.Els[i-1].K != "val" {
		to := pick(r, []string{"new", "n"})
		if chance(r, 50) {
			s.Els[i-1].To = to
		} else {
			reg := pathReg{El: s.Els[i-1].Up, Via: "hook", T: "init", Pat: label(i), Modes: []string{}, To: to}
			same := 0
			for _, e := range s.Els {
				if e.K == s.Els[i-1].K && e.Name == s.Els[i-1].Name {
					same++
				}
			}
			if same == 1 {
				at := r.Intn(len(s.Regs) + 1)
				s.Regs = append(s.Regs[:at], append([]pathReg{reg}, s.Regs[at:]...)...)
			}
		}
		for n := r.Intn(3); n > 0; n-- {
			nl := to
			switch s.Els[i-1].K {
			case "flag":
				nl = pick(r, []string{"-", "--", "-"}) + to
			case "arg":
				nl = "<" + to + ">"
			}
			s.Regs = append(s.Regs, pathReg{El: 1, Via: "hook", T: pick(r, []string{"init", "init", "before"}), Pat: nl, Modes: []string{}})
		}
	}

	// the name that an element has in the end is known to the specification only; ask by declared names
	renamed := false
	for _, reg := range s.Regs {
		renamed = renamed || reg.To != ""
	}
	if !renamed {
		for n := 2 + r.Intn(4); n > 0; n-- {
			from := 1
			if chance(r, 30) {
				from = s.Run
			}
			i := 1 + r.Intn(len(s.Els))
			p := pathTo(i)
			at := len(pathTo(from)) - 1
			if at < len(p) {
				p = p[at:]
			}
			if chance(r, 15) {
				p[len(p)-1] = pick(r, []string{"zz", "--zz", "-z", "<zz>", "<-zz>"})
			}
			if last := len(p) - 1; strings.HasPrefix(p[last], "--") && chance(r, 20) {
				p[last] = p[last][1:]
			}
			if chance(r, 5) {
				p = []string{}
			}
			// only what is below the element asked, and what is nowhere
			ok := len(p) == 0
			for j := range s.Els {
				q := pathTo(j + 1)
				under := false
				for k := j + 1; k > 0; k = s.Els[k-1].Up {
					under = under || k == from
				}
				if under && strings.Join(q[at:], " ") == strings.Join(p, " ") {
					ok = true
				}
			}
			if len(p) > 0 && strings.Contains(p[len(p)-1], "z") {
				ok = true
			}
			if !ok {
				continue
			}
			s.Finds = append(s.Finds, pathFind{From: from, Path: p})
		}
	}
	s.Walk.From = 1
	if chance(r, 25) {
		s.Walk.From = s.Run
	}
	for _, c := range cs {
		if chance(r, 20) {
			s.Walk.Skip = append(s.Walk.Skip, c)
		}
	}
	if chance(r, 20) {
		s.Walk.Stop = pick(r, cs)
	}
	return s
}
