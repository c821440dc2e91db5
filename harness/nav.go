package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
)

// What a handler can tell about where it is, and find from there.

type gEl struct {
	K    string   `json:"k"` // cmd flag arg
	Name string   `json:"name"`
	Al   []string `json:"al"`
	Par  int      `json:"par"`
}

type gQ struct {
	At    int    `json:"at"`
	Stage string `json:"stage"`
	Q     string `json:"q"`
	N     string `json:"n"`
	I     int    `json:"i"`
}

type gScen struct {
	Els  []gEl `json:"els"`
	Path []int `json:"path"` // the commands that are run
	Used []int `json:"used"` // flags given, each by its command
	Qs   []gQ  `json:"qs"`
}

func execNav(raw json.RawMessage) any {
	s := decode[gScen](raw)
	res := make([]string, len(s.Qs))
	ids := map[any]int{}
	ptrs := map[int]any{}
	var app *cli.App
	id := func(t any) int {
		if t == nil {
			return 0
		}
		return ids[t]
	}
	of := func(c *cli.Context) string {
		if c == nil {
			return "none"
		}
		return fmt.Sprint(id(c.Target()))
	}
	list := func(n int, at func(int) any) string {
		var r []string
		for i := 0; i < n; i++ {
			if x := id(at(i)); x != 0 {
				r = append(r, fmt.Sprint(x))
			}
		}
		return strings.Join(r, ",")
	}
	bits := func(v ...bool) (r string) {
		for _, b := range v {
			if b {
				r += "1"
			} else {
				r += "0"
			}
		}
		return
	}
	found := func(x any, ok bool) string {
		if !ok {
			return "none"
		}
		return fmt.Sprint(id(x))
	}
	ask := func(c *cli.Context, q gQ) string {
		switch q.Q {
		case "path":
			p := strings.Join(c.Path(), " ")
			if p != c.Path().String() || p != strings.Join(c.Path(), " ") {
				p += "?"
			}
			return p
		case "name":
			return c.Name() + " " + c.Path().Last()
		case "lineage":
			l := c.Lineage()
			return list(len(l), func(i int) any { return l[i].Target() })
		case "parent":
			return of(c.Parent())
		case "root":
			return of(c.Root())
		case "near":
			r := []string{fmt.Sprint(id(c.Command()))}
			if f := c.Flag(); f != nil {
				r = append(r, fmt.Sprint("f", id(f)))
			}
			if a := c.Arg(); a != nil {
				r = append(r, fmt.Sprint("a", id(a)))
			}
			return strings.Join(r, " ")
		case "kind":
			t := map[cli.Timing]string{cli.InitialTiming: "uses", cli.BeforeTiming: "before", cli.ActionTiming: "action", cli.AfterTiming: "after"}[c.Timing()]
			return bits(c.IsCommand(), c.IsFlag(), c.IsArg(), c.HasValue()) + " " +
				bits(c.IsInitializing(), c.IsBefore(), c.IsAction(), c.IsAfter()) + " " + t
		case "app":
			return fmt.Sprint(c.App() == app)
		case "flags":
			f := c.Flags()
			return list(len(f), func(i int) any { return f[i] })
		case "lflags":
			f := c.LocalFlags()
			return list(len(f), func(i int) any { return f[i] })
		case "pflags":
			f := c.PersistentFlags()
			return list(len(f), func(i int) any { return f[i] })
		case "largs":
			a := c.LocalArgs()
			if c.NValue() != len(a) || len(c.Values()) != len(a) {
				return "NValue"
			}
			return list(len(a), func(i int) any { return a[i] })
		case "flag":
			if f, ok := c.LookupFlag(q.N); ok {
				return fmt.Sprint(id(f))
			}
			return "none"
		case "rune":
			if f, ok := c.LookupFlag(rune(q.N[0])); ok {
				return fmt.Sprint(id(f))
			}
			return "none"
		case "arg":
			if a, ok := c.LookupArg(q.N); ok {
				return fmt.Sprint(id(a))
			}
			return "none"
		case "argrune":
			if a, ok := c.LookupArg(rune(q.N[0])); ok {
				return fmt.Sprint(id(a))
			}
			return "none"
		case "index":
			if a, ok := c.LookupArg(q.I); ok {
				return fmt.Sprint(id(a))
			}
			return "none"
		case "cmdflag":
			f, ok := c.Command().Flag(q.N)
			return found(f, ok)
		case "cmdarg":
			f, ok := c.Command().Arg(q.N)
			return found(f, ok)
		case "cmdindex":
			f, ok := c.Command().Arg(q.I)
			return found(f, ok)
		case "cmdcmd":
			f, ok := c.Command().Command(q.N)
			return found(f, ok)
		case "appflag":
			f, ok := c.App().Flag(q.N)
			return found(f, ok)
		case "apparg":
			f, ok := c.App().Arg(q.N)
			return found(f, ok)
		case "appcmd":
			f, ok := c.App().Command(q.N)
			return found(f, ok)
		case "names":
			switch x := ptrs[q.At].(type) {
			case *cli.Flag:
				return strings.Join(x.Names(), ",") + " " + x.ShortName() + " " + x.LongName() + " " + strings.Join(c.Aliases(), ",")
			case *cli.Command:
				return strings.Join(x.Names(), ",") + " " + strings.Join(c.Aliases(), ",")
			}
			return c.Name()
		case "pathkind":
			p := c.Path()
			return bits(p.IsCommand(), p.IsFlag(), p.IsArg())
		case "cmd":
			if x, ok := c.LookupCommand(q.N); ok {
				return fmt.Sprint(id(x))
			}
			return "none"
		case "ptr": // by the element itself
			var ok bool
			var x any
			switch e := ptrs[q.I].(type) {
			case *cli.Flag:
				x, ok = c.LookupFlag(e)
			case *cli.Arg:
				x, ok = c.LookupArg(e)
			case *cli.Command:
				x, ok = c.LookupCommand(e)
			}
			if !ok {
				return "none"
			}
			return fmt.Sprint(id(x))
		case "ctxname":
			x := c.ContextOf(q.N)
			if x != nil {
				return of(x) + " " + strings.Join(x.Path(), " ")
			}
			return "none"
		case "ctxrune":
			x := c.ContextOf(rune(q.N[0]))
			if x != nil {
				return of(x) + " " + strings.Join(x.Path(), " ")
			}
			return "none"
		case "ctxindex":
			x := c.ContextOf(q.I)
			if x != nil {
				return of(x) + " " + strings.Join(x.Path(), " ")
			}
			return "none"
		case "ctxptr":
			x := c.ContextOf(ptrs[q.I])
			return of(x) + " " + of(x.Parent())
		case "seen":
			return fmt.Sprint(c.Seen(q.N), c.Occurrences(q.N))
		case "seenrune":
			return fmt.Sprint(c.Seen(rune(q.N[0])), c.Occurrences(rune(q.N[0])))
		case "values":
			r := []string{}
			for i, v := range c.Values() {
				if v != c.Value(i) || v != c.Value(i-c.NValue()) {
					r = append(r, "?")
				}
				r = append(r, fmt.Sprint(v))
			}
			return strings.Join(r, ",")
		case "args":
			return strings.Join(c.Args(), " ")
		}
		panic(q.Q)
	}
	stage := func(e int, st string) cli.Action {
		return cli.ActionOf(func(c *cli.Context) {
			for i, q := range s.Qs {
				if q.At == e && q.Stage == st {
					res[i] = ask(c, q)
				}
			}
		})
	}
	var cmd func(e int) *cli.Command
	var flags func(e int) []*cli.Flag
	var args func(e int) []*cli.Arg
	flags = func(e int) (r []*cli.Flag) {
		for i, x := range s.Els {
			if x.K == "flag" && x.Par == e {
				f := &cli.Flag{Name: x.Name, Aliases: x.Al, Value: new(bool), Uses: stage(i+1, "uses"), Before: stage(i+1, "before"),
					Action: stage(i+1, "action"), After: stage(i+1, "after")}
				ids[f], ptrs[i+1] = i+1, f
				r = append(r, f)
			}
		}
		return
	}
	args = func(e int) (r []*cli.Arg) {
		for i, x := range s.Els {
			if x.K == "arg" && x.Par == e {
				f := &cli.Arg{Name: x.Name, Value: new(string), Uses: stage(i+1, "uses"), Before: stage(i+1, "before"),
					Action: stage(i+1, "action"), After: stage(i+1, "after")}
				ids[f], ptrs[i+1] = i+1, f
				r = append(r, f)
			}
		}
		return
	}
	subs := func(e int) (r []*cli.Command) {
		for i, x := range s.Els {
			if x.K == "cmd" && x.Par == e {
				r = append(r, cmd(i+1))
			}
		}
		return
	}
	cmd = func(e int) *cli.Command {
		x := s.Els[e-1]
		c := &cli.Command{Name: x.Name, Aliases: x.Al, Flags: flags(e), Args: args(e), Subcommands: subs(e),
			Uses: stage(e, "uses"), Before: stage(e, "before"), Action: stage(e, "action"), After: stage(e, "after")}
		ids[c], ptrs[e] = e, c
		return c
	}
	root := stage(1, "uses")
	app = &cli.App{Name: s.Els[0].Name, Stdout: io.Discard, Stderr: io.Discard, Flags: flags(1), Args: args(1), Commands: subs(1),
		Uses:   cli.Pipeline(cli.ActionOf(func(c *cli.Context) { ids[c.Command()], ptrs[1] = 1, c.Command() }), root),
		Before: stage(1, "before"), Action: stage(1, "action"), After: stage(1, "after")}
	argv := []string{}
	for _, e := range s.Path {
		argv = append(argv, s.Els[e-1].Name)
		for _, f := range s.Used {
			if x := s.Els[f-1]; x.Par == e {
				argv = append(argv, strings.Repeat("-", 1+min(1, len(x.Name)-1))+x.Name)
			}
		}
	}
	for i, x := range s.Els {
		if x.K == "arg" && x.Par == s.Path[len(s.Path)-1] {
			argv = append(argv, fmt.Sprint("v", i+1))
		}
	}
	err := app.RunContext(context.Background(), argv)
	return obj{"err": errClass(err), "res": res}
}

func genNav(r *rand.Rand, profile string, i int) any {
	s := gScen{Els: []gEl{{"cmd", "app", []string{}, 0}}, Path: []int{1}, Used: []int{}, Qs: []gQ{}}
	taken := map[string]bool{}
	add := func(k string, par int) int {
		e := gEl{K: k, Par: par, Al: []string{}}
		for try := 0; ; try++ {
			switch k {
			case "cmd":
				e.Name = pick(r, []string{"s", "t", "u", "f"})
			default:
				e.Name = pick(r, []string{"f", "g", "foo", "a", "b", "s"})
			}
			if key := fmt.Sprint(k == "cmd", par, e.Name); !taken[key] {
				taken[key] = true
				break
			}
			if try > 20 {
				return 0
			}
		}
		if k != "arg" && chance(r, 30) {
			a := pick(r, []string{"f", "z", "bar", "g", "y"})
			if key := fmt.Sprint(k == "cmd", par, a); !taken[key] {
				taken[key] = true
				e.Al = append(e.Al, a)
			}
		}
		s.Els = append(s.Els, e)
		return len(s.Els)
	}
	var grow func(par, depth int)
	grow = func(par, depth int) {
		for n := r.Intn(3); n > 0; n-- {
			add("flag", par)
		}
		var ss []int
		if depth < 3 && chance(r, 75) {
			for n := 1 + r.Intn(2); n > 0; n-- {
				if c := add("cmd", par); c != 0 {
					ss = append(ss, c)
				}
			}
		}
		if len(ss) == 0 {
			for n := r.Intn(4); n > 0; n-- {
				add("arg", par)
			}
		}
		for _, c := range ss {
			grow(c, depth+1)
		}
	}
	grow(1, 1)
	for cur := 1; ; {
		var ss []int
		for j, e := range s.Els {
			if e.K == "cmd" && e.Par == cur {
				ss = append(ss, j+1)
			}
		}
		if len(ss) == 0 || chance(r, 15) {
			break
		}
		cur = pick(r, ss)
		s.Path = append(s.Path, cur)
	}
	on := func(c int) bool {
		for _, p := range s.Path {
			if p == c {
				return true
			}
		}
		return false
	}
	for j, e := range s.Els {
		if e.K == "flag" && on(e.Par) && chance(r, 50) {
			s.Used = append(s.Used, j+1)
		}
	}
	names := []string{"f", "g", "foo", "a", "b", "s", "t", "z", "bar", "nope", "-f", "--foo", "<a>", "<b>"}
	for n := 4 + r.Intn(10); n > 0; n-- {
		at := 1 + r.Intn(len(s.Els))
		if chance(r, 70) {
			at = pick(r, s.Path)
		}
		k := s.Els[at-1].K
		q := gQ{At: at, Stage: pick(r, []string{"uses", "before", "before", "action", "after"}), N: "", I: 0}
		q.Q = pick(r, []string{"path", "name", "lineage", "parent", "root", "near", "kind", "app", "flags", "lflags", "pflags", "largs", "flag", "flag", "rune", "arg",
			"arg", "argrune", "index", "cmd", "ptr", "cmdflag", "cmdarg", "cmdindex", "cmdcmd", "appflag", "apparg", "appcmd", "names", "pathkind", "ctxname", "ctxname", "ctxrune", "ctxindex", "ctxptr", "seen", "seenrune", "values", "args"})
		switch q.Q {
		case "flag", "arg", "cmd", "cmdflag", "cmdarg", "cmdcmd", "appflag", "apparg", "appcmd", "ctxname", "seen":
			q.N = pick(r, names)
			if strings.HasSuffix(q.Q, "arg") && q.N[0] == '-' || strings.HasSuffix(q.Q, "flag") && q.N[0] == '<' {
				q.N = "a"
			}
			if (q.Q == "ctxname" || q.Q == "seen") && (q.N[0] == '-' || q.N[0] == '<') {
				q.N = "f"
			}
		case "rune", "argrune", "ctxrune", "seenrune":
			q.N = pick(r, []string{"f", "g", "a", "z"})
		case "index", "cmdindex", "ctxindex":
			q.I = r.Intn(7) - 3
		case "ptr", "ctxptr":
			q.I = 1 + r.Intn(len(s.Els))
			if q.Q == "ctxptr" && k != "cmd" && s.Els[q.I-1].K == "cmd" {
				continue
			}
		}
		if q.Q == "index" || q.Q == "cmdindex" || q.Q == "values" || q.Q == "ctxindex" {
			c := at
			if k != "cmd" {
				c = s.Els[at-1].Par
			}
			below := false // there, an implicit arg takes the name of the sub-command
			for _, e := range s.Els {
				below = below || e.K == "cmd" && e.Par == c
			}
			if below {
				continue
			}
		}
		if (q.Q == "index" || q.Q == "values" || q.Q == "args" || q.Q == "largs") && k != "cmd" {
			continue
		}
		if (q.Q == "values" || q.Q == "args" || q.Q == "seen" || q.Q == "seenrune") && q.Stage == "uses" {
			continue
		}
		s.Qs = append(s.Qs, q)
	}
	return s
}

func init() {
	areas["nav"] = area{gen: genNav, exec: execNav}
}
