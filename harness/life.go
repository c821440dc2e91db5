package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
	"sync"

	cli "github.com/Carbonfrost/joe-cli"
)

// Area "life": a tree of commands, flags and arguments whose handlers are data
// (lists of ops); observes the events of the handlers and how the run ended.

type lOp struct {
	O     string   `json:"o"`
	ID    string   `json:"id,omitempty"`
	T     string   `json:"t,omitempty"`
	X     []lOp    `json:"x,omitempty"`
	Parts []lPart  `json:"parts,omitempty"`
	Opt   *bool    `json:"opt,omitempty"`
	Pat   []string `json:"pat,omitempty"`
	El    int      `json:"el,omitempty"`
	Name  string   `json:"name,omitempty"`
	Key   string   `json:"key,omitempty"`
	V     string   `json:"v,omitempty"`
	Ret   string   `json:"ret,omitempty"`
	Vs    []string `json:"vs,omitempty"`
	Names []string `json:"names,omitempty"`
	Via   int      `json:"via,omitempty"`
}

type lPart struct {
	T string `json:"t"`
	X []lOp  `json:"x"`
}

type lEl struct {
	K       string   `json:"k"`
	Name    string   `json:"name"`
	Aliases []string `json:"aliases"`
	Kind    string   `json:"kind"`
	Up      int      `json:"up"`
	Opts    []string `json:"opts"`
	Uses    []lOp    `json:"uses"`
	Before  []lOp    `json:"before"`
	Action  []lOp    `json:"action"`
	After   []lOp    `json:"after"`
}

type lScen struct {
	Els  []lEl    `json:"els"`
	Argv []string `json:"argv"`
}

func init() {
	areas["life"] = area{gen: genLife, exec: execLife}
}

type hErr struct{ id string }

func (h *hErr) Error() string { return "handler error " + h.id + " 100%" }

type lifeRun struct {
	mu   sync.Mutex
	s    lScen
	out  []string
	ptrs map[any]int
	cmds map[int]*cli.Command
	fls  map[int]*cli.Flag
	ars  map[int]*cli.Arg
}

var optionNames = map[string]cli.Option{
	"Required": cli.Required, "NonPersistent": cli.NonPersistent, "Exits": cli.Exits,
	"ImpliedAction": cli.ImpliedAction, "Trigger": cli.Trigger,
	"DisallowFlagsAfterArgs": cli.DisallowFlagsAfterArgs, "SkipFlagParsing": cli.SkipFlagParsing,
	"RightToLeft": cli.RightToLeft,
}

var timings = map[string]cli.Timing{
	"init": cli.InitialTiming, "before": cli.BeforeTiming, "action": cli.ActionTiming, "after": cli.AfterTiming,
	"val": cli.ValidatorTiming, "impl": cli.ImplicitValueTiming,
}

func timingName(t cli.Timing) string {
	for _, n := range []string{"init", "before", "action", "after"} {
		if timings[n] == t {
			return n
		}
	}
	return fmt.Sprint("timing", int(t))
}

func (l *lifeRun) index(c *cli.Context) int {
	if c.Parent() == nil {
		return 1
	}
	return l.ptrs[c.Target()]
}

func (l *lifeRun) say(s string) { l.out = append(l.out, s) }

func (l *lifeRun) event(c *cli.Context, id string) string {
	return id + "|" + c.Path().String() + "|" + timingName(c.Timing())
}

// ops makes the action of a list of ops; elements the library itself adds are left alone
func (l *lifeRun) ops(x []lOp) cli.Action {
	var p []any
	for i := range x {
		p = append(p, l.op(x[i]))
	}
	if len(p) == 1 {
		return p[0].(cli.Action)
	}
	return cli.Pipeline(p...)
}

func (l *lifeRun) op(o lOp) cli.Action {
	a := l.rawOp(o)
	return cli.ActionOf(func(c *cli.Context) error {
		if l.index(c) == 0 {
			return nil
		}
		return cli.Do(c, a)
	})
}

func show(v any) string {
	switch t := v.(type) {
	case nil:
		return "nil"
	case []string:
		return strings.Join(t, ",")
	case *[]string:
		return strings.Join(*t, ",")
	case *string:
		return *t
	case *bool:
		return fmt.Sprint(*t)
	default:
		return fmt.Sprint(t)
	}
}

func (l *lifeRun) rawOp(o lOp) cli.Action {
	do := func(fn func(*cli.Context) error) cli.Action { return cli.ActionOf(fn) }
	switch o.O {
	case "log":
		return do(func(c *cli.Context) error { l.say(l.event(c, o.ID)); return nil })
	case "err":
		return do(func(c *cli.Context) error { l.say(l.event(c, o.ID)); return &hErr{o.ID} })
	case "at":
		x := l.ops(o.X)
		switch {
		case o.Via == 1 && o.T == "before":
			return cli.Before(x)
		case o.Via == 1 && o.T == "after":
			return cli.After(x)
		case o.Via == 1 && o.T == "init":
			return cli.Initializer(x)
		case o.Via == 2 && o.T == "before":
			return do(func(c *cli.Context) error { return c.Before(x) })
		case o.Via == 2 && o.T == "after":
			return do(func(c *cli.Context) error { return c.After(x) })
		case o.Via == 2 && o.T == "action":
			return do(func(c *cli.Context) error { return c.Action(x) })
		case o.Via == 2 && o.T == "init":
			return do(func(c *cli.Context) error { return c.Use(x) })
		case o.T == "impl":
			return cli.Implicitly(x)
		}
		return cli.At(timings[o.T], x)
	case "setup":
		s := cli.Setup{Optional: *o.Opt}
		for _, p := range o.Parts {
			x := l.ops(p.X)
			switch p.T {
			case "init":
				s.Uses = x
			case "before":
				s.Before = x
			case "action":
				s.Action = x
			case "after":
				s.After = x
			}
		}
		return s
	case "hook":
		pat, x := strings.Join(o.Pat, " "), l.ops(o.X)
		switch o.T {
		case "init":
			return cli.Customize(pat, x)
		case "before":
			return cli.HookBefore(pat, x)
		case "after":
			return cli.HookAfter(pat, x)
		}
	case "up":
		x := l.ops(o.X)
		return do(func(c *cli.Context) error {
			if c.Parent() == nil {
				return nil
			}
			return cli.Do(c.Parent(), x)
		})
	case "addf":
		return cli.AddFlag(l.flag(o.El))
	case "adda":
		return cli.AddArg(l.arg(o.El))
	case "addc":
		return cli.AddCommand(l.cmd(o.El))
	case "rmf":
		return cli.RemoveFlag(o.Name)
	case "rma":
		return cli.RemoveArg(o.Name)
	case "rmc":
		return cli.RemoveCommand(o.Name)
	case "alias":
		return cli.AddAlias(o.Name)
	case "rmalias":
		return cli.RemoveAlias(o.Name)
	case "name":
		return cli.Named(o.Name)
	case "option":
		return optionNames[o.Name]
	case "data":
		return cli.Data(o.Key, o.V)
	case "nf":
		var fn func(*cli.Context, error) (*cli.Command, error)
		switch o.Ret {
		case "implicit":
			return cli.ImplicitCommand(o.Name)
		case "default":
		default:
			fn = func(c *cli.Context, err error) (*cli.Command, error) {
				var pe *cli.ParseError
				errors.As(err, &pe)
				if pe == nil || pe.Code != cli.CommandNotFound {
					pe = &cli.ParseError{Name: fmt.Sprint("?", err)}
				}
				l.say("nf:" + o.ID + "(" + pe.Name + ")")
				switch o.Ret {
				case "cmd":
					return l.cmd(o.El), nil
				case "skip":
					return nil, cli.ErrSkipCommand
				case "err":
					return nil, &hErr{o.ID}
				}
				return nil, nil
			}
		}
		return cli.HandleCommandNotFound(fn)
	case "look":
		return do(func(c *cli.Context) error {
			f, a := 0, 0
			if p, ok := c.LookupFlag(o.Name); ok {
				f = l.ptrs[p]
			}
			if p, ok := c.LookupArg(o.Name); ok {
				a = l.ptrs[p]
			}
			d, _ := c.LookupData(o.Name)
			ds, _ := d.(string)
			l.say(fmt.Sprintf("%s|f%d|a%d|d%s|v%s|s%d", l.event(c, o.ID), f, a, ds, show(c.Value(o.Name)), c.Occurrences(o.Name)))
			return nil
		})
	case "enum":
		return cli.Enum(o.Vs...)
	case "mutex":
		return cli.Mutex(o.Names...)
	case "implv":
		return cli.ImplicitValue(func(*cli.Context) (string, bool) { return o.V, true })
	case "implies":
		return cli.Implies(o.Name, o.V)
	}
	panic("op " + o.O)
}

func (l *lifeRun) options(i int) (o cli.Option) {
	for _, n := range l.s.Els[i-1].Opts {
		o |= optionNames[n]
	}
	return
}

func (l *lifeRun) flag(i int) *cli.Flag {
	if f, ok := l.fls[i]; ok {
		return f
	}
	e := l.s.Els[i-1]
	f := buildFlag(pFlag{e.Name, append([]string{}, e.Aliases...), e.Kind})
	l.fls[i], l.ptrs[f] = f, i
	f.Options |= l.options(i)
	f.Uses, f.Before, f.Action, f.After = l.ops(e.Uses), l.ops(e.Before), l.ops(e.Action), l.ops(e.After)
	return f
}

func (l *lifeRun) arg(i int) *cli.Arg {
	if f, ok := l.ars[i]; ok {
		return f
	}
	e := l.s.Els[i-1]
	f := buildArg(pArg{e.Name, e.Kind})
	l.ars[i], l.ptrs[f] = f, i
	f.Options = l.options(i)
	f.Uses, f.Before, f.Action, f.After = l.ops(e.Uses), l.ops(e.Before), l.ops(e.Action), l.ops(e.After)
	return f
}

func (l *lifeRun) parts(i int) (fs []*cli.Flag, as []*cli.Arg, cs []*cli.Command) {
	for k, e := range l.s.Els {
		if e.Up != i {
			continue
		}
		switch e.K {
		case "flag":
			fs = append(fs, l.flag(k+1))
		case "arg":
			as = append(as, l.arg(k+1))
		case "cmd":
			cs = append(cs, l.cmd(k+1))
		}
	}
	return
}

func (l *lifeRun) cmd(i int) *cli.Command {
	if f, ok := l.cmds[i]; ok {
		return f
	}
	e := l.s.Els[i-1]
	f := &cli.Command{Name: e.Name, Aliases: append([]string{}, e.Aliases...), Options: l.options(i)}
	l.cmds[i], l.ptrs[f] = f, i
	f.Flags, f.Args, f.Subcommands = l.parts(i)
	f.Uses, f.Before, f.Action, f.After = l.ops(e.Uses), l.ops(e.Before), l.ops(e.Action), l.ops(e.After)
	return f
}

func lifeClass(err error) string {
	if h, ok := err.(*hErr); ok {
		return "E:" + h.id
	}
	var h *hErr
	if errors.As(err, &h) {
		return "wrapped E:" + h.id
	}
	if errors.Is(err, cli.ErrTimingTooLate) {
		return "toolate"
	}
	c := errClass(err)
	if c == "other" {
		var ec cli.ExitCoder
		if errors.As(err, &ec) {
			return "exit:" + strconv.Itoa(ec.ExitCode())
		}
	}
	return c
}

func execLife(raw json.RawMessage) any {
	l := &lifeRun{s: decode[lScen](raw), out: []string{}, ptrs: map[any]int{}, cmds: map[int]*cli.Command{},
		fls: map[int]*cli.Flag{}, ars: map[int]*cli.Arg{}}
	e := l.s.Els[0]
	app := &cli.App{Name: e.Name, Options: l.options(1), Stdout: new(bytes.Buffer), Stderr: new(bytes.Buffer)}
	app.Flags, app.Args, app.Commands = l.parts(1)
	app.Uses, app.Before, app.Action, app.After = l.ops(e.Uses), l.ops(e.Before), l.ops(e.Action), l.ops(e.After)
	err := app.RunContext(context.Background(), append([]string{"app"}, l.s.Argv...))
	vals := make([]string, len(l.s.Els))
	for i := range vals {
		if f, ok := l.fls[i+1]; ok {
			vals[i] = show(f.Value)
		} else if a, ok := l.ars[i+1]; ok {
			vals[i] = show(a.Value)
		} else if l.s.Els[i].Kind == "bool" {
			vals[i] = "false"
		}
	}
	res := lifeClass(err)
	if res == "other" { // how far it got applying values is not determined
		vals = []string{}
	}
	return obj{"out": l.out, "res": res, "vals": vals}
}

// ---------------------------------------------------------------------------

type lifeGen struct {
	r  *rand.Rand
	p  lifeProfile
	s  lScen
	id int
}

// weights of the ops that appear in handlers, by stage
type lifeProfile struct {
	init, later, hookx map[string]int
	density            int // chance of a handler having ops
	noise              int // chance of junk tokens
	opts               int // chance of an option on an element
	errs               int // chance that a log is an error
}

var lifeProfiles = map[string]lifeProfile{
	"": {init: map[string]int{"log": 4, "at": 3, "setup": 1, "hook": 2, "addf": 1, "adda": 1, "addc": 1, "rm": 1, "alias": 1,
		"name": 1, "option": 1, "data": 1, "nf": 1, "look": 1, "enum": 1, "mutex": 1, "implv": 1, "implies": 1, "up": 1},
		later: map[string]int{"log": 6, "at": 2, "setup": 1, "hook": 1, "look": 2, "data": 1}, hookx: map[string]int{"log": 3, "at": 1, "data": 1, "look": 1},
		density: 50, noise: 10, opts: 12, errs: 3},
	"order": {init: map[string]int{"log": 6, "at": 3}, later: map[string]int{"log": 6, "at": 1}, density: 75, noise: 3, opts: 8, errs: 1},
	"reject": {init: map[string]int{"log": 3, "at": 2, "hook": 1}, later: map[string]int{"log": 6}, hookx: map[string]int{"log": 1},
		density: 60, noise: 35, opts: 10, errs: 1},
	"err": {init: map[string]int{"log": 3, "at": 3, "hook": 2, "setup": 1}, later: map[string]int{"log": 6, "at": 2}, hookx: map[string]int{"log": 1},
		density: 65, noise: 3, opts: 8, errs: 14},
	"timing": {init: map[string]int{"log": 1, "at": 6, "setup": 3, "up": 1, "hook": 1}, later: map[string]int{"log": 4, "at": 3, "setup": 3},
		hookx: map[string]int{"log": 2, "at": 3, "setup": 1}, density: 55, noise: 3, opts: 10, errs: 2},
	"hooks": {init: map[string]int{"log": 1, "hook": 6, "at": 1, "up": 2, "name": 1, "addf": 1}, later: map[string]int{"log": 3, "hook": 2},
		hookx: map[string]int{"log": 4, "at": 1, "hook": 1}, density: 60, noise: 3, opts: 4, errs: 2},
	"dispatch": {init: map[string]int{"log": 2, "nf": 5, "alias": 1, "rmalias": 1}, later: map[string]int{"log": 4, "look": 1, "nf": 1}, density: 55, noise: 25, opts: 6, errs: 2},
	"scope":    {init: map[string]int{"log": 1, "look": 3, "data": 4, "alias": 1, "addf": 1}, later: map[string]int{"look": 6, "data": 2}, density: 60, noise: 5, opts: 25, errs: 1},
	"dyn": {init: map[string]int{"log": 2, "addf": 4, "adda": 3, "addc": 3, "rm": 4, "alias": 2, "rmalias": 1, "name": 3, "up": 4, "hook": 1, "option": 1},
		later: map[string]int{"log": 5, "look": 1, "addf": 1}, hookx: map[string]int{"log": 3, "name": 1, "alias": 1, "data": 1, "rm": 1, "addf": 1, "option": 1},
		density: 55, noise: 6, opts: 4, errs: 1},
	"valid": {init: map[string]int{"log": 1, "enum": 4, "mutex": 4, "implv": 2, "implies": 3, "at": 2, "option": 1}, later: map[string]int{"log": 6, "look": 1},
		density: 55, noise: 4, opts: 22, errs: 1},
}

func (g *lifeGen) newID() string { g.id++; return "e" + strconv.Itoa(g.id) }

func weighted(r *rand.Rand, m map[string]int, order []string) string {
	t := 0
	for _, k := range order {
		t += m[k]
	}
	if t == 0 {
		return "log"
	}
	n := r.Intn(t)
	for _, k := range order {
		n -= m[k]
		if n < 0 {
			return k
		}
	}
	return "log"
}

var lifeOps = []string{"log", "at", "setup", "hook", "addf", "adda", "addc", "rm", "alias", "rmalias", "name", "option", "data", "nf",
	"look", "enum", "mutex", "implv", "implies", "up"}

var (
	lFlagNames = []string{"alpha", "beta", "mode", "color", "x", "y"}
	lAlias     = map[string]string{"alpha": "a", "beta": "b", "mode": "m", "color": "c", "x": "xray", "y": "yoke",
		"size": "s", "tone": "t", "add": "plus", "rm": "del", "ls": "dir", "fo": "fu"}
	lArgNames = []string{"p", "q", "r"}
	lCmdNames = []string{"add", "rm", "ls"}
)

func bp(b bool) *bool { return &b }

func (g *lifeGen) log() []lOp {
	if chance(g.r, g.p.errs) {
		return []lOp{{O: "err", ID: g.newID()}}
	}
	return []lOp{{O: "log", ID: g.newID()}}
}

// the ops of a handler on element el (0-based) at stage t; depth limits nesting
func (g *lifeGen) ops(el int, t string, depth int, weights map[string]int) []lOp {
	n := 1 + g.r.Intn(2)
	out := []lOp{}
	for k := 0; k < n; k++ {
		out = append(out, g.op(el, t, depth, weights)...)
	}
	return out
}

func (g *lifeGen) inner(el int, t string, depth int) []lOp {
	x := g.log()
	if depth < 2 && chance(g.r, 25) {
		x = append(x, g.op(el, t, depth+1, map[string]int{"at": 2, "log": 2, "look": 1})...)
	}
	return x
}

func (g *lifeGen) pattern() []string {
	one := func() string {
		switch g.r.Intn(8) {
		case 0:
			return "*"
		case 1:
			return "-"
		case 2:
			return "<>"
		case 3:
			return pick(g.r, []string{"--alpha", "--mode", "-x", "-mode", "--color", "--tone"})
		case 4:
			return pick(g.r, []string{"<p>", "<q>", "<r>"})
		case 5:
			return "app"
		default:
			return pick(g.r, lCmdNames)
		}
	}
	p := []string{one()}
	if chance(g.r, 30) {
		p = append([]string{pick(g.r, []string{"app", "*", "add", "rm", "ls"})}, p...)
		if chance(g.r, 25) {
			p = append([]string{pick(g.r, []string{"app", "*", "add"})}, p...)
		}
	}
	return p
}

func (g *lifeGen) spare(k string) int {
	for i, e := range g.s.Els {
		if e.K == k && e.Up == -1 {
			g.s.Els[i].Up = 0
			return i + 1
		}
	}
	return 0
}

func (g *lifeGen) op(el int, t string, depth int, weights map[string]int) []lOp {
	r := g.r
	e := g.s.Els[el]
	init := t == "init"
	o := weighted(r, weights, lifeOps)
	if depth > 0 && (o == "up" || o == "nf") {
		o = "log"
	}
	switch o {
	case "at":
		tm := pick(r, []string{"init", "before", "before", "action", "action", "after", "after", "val"})
		if !init && chance(r, 70) {
			tm = pick(r, map[string][]string{"before": {"before", "action", "after", "val"}, "val": {"before", "action", "after", "val"}, "action": {"action", "after"}, "after": {"after"}}[t])
		}
		if e.K == "cmd" && tm == "val" {
			tm = "before"
		}
		return []lOp{{O: "at", T: tm, X: g.inner(el, tm, depth), Via: r.Intn(3)}}
	case "setup":
		var parts []lPart
		for _, tm := range []string{"init", "before", "action", "after"} {
			if chance(r, 45) {
				parts = append(parts, lPart{tm, g.inner(el, tm, depth)})
			}
		}
		if parts == nil {
			return g.log()
		}
		return []lOp{{O: "setup", Parts: parts, Opt: bp(chance(r, 50))}}
	case "hook":
		tm := pick(r, []string{"init", "before", "before", "after", "after"})
		if e.K != "cmd" {
			if el == 0 || depth > 0 {
				return g.log()
			}
			return []lOp{{O: "up", X: []lOp{{O: "hook", T: tm, Pat: g.pattern(), X: g.hookOps(el, tm)}}}}
		}
		return []lOp{{O: "hook", T: tm, Pat: g.pattern(), X: g.hookOps(el, tm)}}
	case "up":
		if el == 0 || !init {
			return g.log()
		}
		return []lOp{{O: "up", X: g.op(max(e.Up, 1)-1, "init", 1, map[string]int{"log": 1, "addf": 2, "adda": 1, "addc": 1, "rm": 2, "data": 1, "at": 1, "alias": 1})}}
	case "addf", "adda", "addc":
		if !init && !chance(r, 10) {
			return g.log()
		}
		i := g.spare(map[string]string{"addf": "flag", "adda": "arg", "addc": "cmd"}[o])
		if i == 0 {
			return g.log()
		}
		return []lOp{{O: o, El: i}}
	case "rm":
		return []lOp{pick(r, []lOp{
			{O: "rmf", Name: pick(r, lFlagNames)}, {O: "rmf", Name: pick(r, []string{"a", "b", "m"})},
			{O: "rma", Name: pick(r, lArgNames)}, {O: "rmc", Name: pick(r, lCmdNames)},
		})}
	case "alias":
		return []lOp{{O: "alias", Name: pick(r, []string{"k", "l", "also"})}}
	case "rmalias":
		if a := lAlias[e.Name]; a != "" {
			return []lOp{{O: "rmalias", Name: a}}
		}
		return g.log()
	case "name":
		if !init || el == 0 {
			return g.log()
		}
		return []lOp{{O: "name", Name: pick(r, map[string][]string{"flag": {"size", "tone", "x"}, "arg": {"q", "t"}, "cmd": {"fo", "ls"}}[e.K])}}
	case "option":
		if !init {
			return g.log()
		}
		if e.K == "flag" {
			return []lOp{{O: "option", Name: pick(r, []string{"Required", "NonPersistent", "Exits", "Trigger", "ImpliedAction"})}}
		}
		return g.log()
	case "data":
		return []lOp{{O: "data", Key: pick(r, []string{"k1", "k2"}), V: "d" + strconv.Itoa(r.Intn(9))}}
	case "look":
		return []lOp{{O: "look", ID: g.newID(), Name: pick(r, []string{"alpha", "beta", "mode", "color", "x", "a", "b", "m", "p", "q", "k1", "k2", "k1", "k2", "tone", "k"})}}
	case "nf":
		if e.K != "cmd" || !(t == "init" || t == "before") {
			return g.log()
		}
		ret := pick(r, []string{"nil", "cmd", "cmd", "skip", "err", "implicit", "default"})
		x := lOp{O: "nf", ID: g.newID(), Ret: ret}
		switch ret {
		case "cmd":
			// one without sub-commands, which can't have its own lookup fail again
			var subs []int
			for i, f := range g.s.Els {
				leaf := true
				for _, h := range g.s.Els {
					leaf = leaf && !(h.K == "cmd" && h.Up == i+1)
				}
				if f.K == "cmd" && f.Up == el+1 && leaf {
					subs = append(subs, i+1)
				}
			}
			if len(subs) == 0 {
				return g.log()
			}
			x.El = pick(r, subs)
		case "implicit":
			var subs []string
			for i, f := range g.s.Els {
				leaf := true
				for _, h := range g.s.Els {
					leaf = leaf && !(h.K == "cmd" && h.Up == i+1)
				}
				if f.K == "cmd" && f.Up == el+1 && leaf {
					subs = append(subs, f.Name)
				}
			}
			x.Name = pick(r, append(subs, "zz"))
		}
		return []lOp{x}
	case "enum":
		if e.K == "cmd" || !init {
			return g.log()
		}
		return []lOp{{O: "enum", Vs: pick(r, [][]string{{"u"}, {"u", "w"}, {"u", "w", "0", "true", ""}})}}
	case "mutex":
		if e.K == "cmd" || !init {
			return g.log()
		}
		ns := []string{pick(r, lFlagNames)}
		if chance(r, 40) {
			ns = append(ns, pick(r, append(lArgNames, lFlagNames...)))
		}
		return []lOp{{O: "mutex", Names: ns}}
	case "implv":
		if e.K == "cmd" || !init || (e.Kind != "str" && e.Kind != "bool") {
			return g.log()
		}
		return []lOp{{O: "implv", V: pick(r, []string{"true", "false", "true"})}}
	case "implies":
		if e.K != "flag" || !init || e.Kind == "list" {
			return g.log()
		}
		return []lOp{{O: "implies", Name: pick(r, lFlagNames), V: "true"}}
	}
	return g.log()
}

func (g *lifeGen) hookOps(el int, tm string) []lOp {
	// the target is not known here: only ops that any element allows
	x := g.log()
	if chance(g.r, 35) {
		o := weighted(g.r, g.p.hookx, lifeOps)
		switch o {
		case "log", "look", "data":
			x = append(x, g.op(el, tm, 2, map[string]int{o: 1})...)
		case "at":
			x = append(x, lOp{O: "at", T: pick(g.r, []string{"init", "before", "action", "after"}), X: g.log(), Via: g.r.Intn(3)})
		case "setup":
			x = append(x, lOp{O: "setup", Opt: bp(chance(g.r, 50)), Parts: []lPart{{pick(g.r, []string{"before", "action", "after"}), g.log()}}})
		case "alias":
			x = append(x, lOp{O: "alias", Name: pick(g.r, []string{"k", "l"})})
		case "name":
			if tm == "init" {
				x = append(x, lOp{O: "name", Name: pick(g.r, []string{"size", "tone"})})
			}
		case "hook":
			x = append(x, lOp{O: "up", X: []lOp{{O: "hook", T: pick(g.r, []string{"before", "after", "init"}), Pat: g.pattern(), X: g.log()}}})
		case "rm":
			x = append(x, lOp{O: "rmf", Name: pick(g.r, lFlagNames)})
		}
	}
	return x
}

func genLife(r *rand.Rand, profile string, i int) any {
	g := &lifeGen{r: r, p: lifeProfiles[profile]}
	if g.p.init == nil {
		panic("profile " + profile)
	}
	add := func(k, name string, aliases []string, kind string, up int) int {
		g.s.Els = append(g.s.Els, lEl{K: k, Name: name, Aliases: aliases, Kind: kind, Up: up, Opts: []string{},
			Uses: []lOp{}, Before: []lOp{}, Action: []lOp{}, After: []lOp{}})
		return len(g.s.Els)
	}
	al := func(n string) []string {
		switch r.Intn(6) {
		case 0, 1:
			return []string{lAlias[n]}
		case 2: // one alias begins with the other
			x := []string{lAlias[n], lAlias[n] + "l"}
			if chance(r, 30) {
				x[0], x[1] = x[1], x[0]
			}
			return x
		}
		return []string{}
	}
	// the declared tree: commands with their flags and arguments
	options := func(ci int, maxf, maxa int) {
		perm := r.Perm(len(lFlagNames))
		for k := 0; k < r.Intn(maxf+1); k++ {
			n := lFlagNames[perm[k]]
			add("flag", n, al(n), pick(r, []string{"bool", "bool", "str", "str", "list"}), ci)
		}
		for k := 0; k < r.Intn(maxa+1); k++ {
			add("arg", lArgNames[k], []string{}, pick(r, []string{"str", "list", "n1", "str"}), ci)
		}
	}
	root := add("cmd", "app", []string{}, "", -9)
	g.s.Els[0].Up = 0
	var level2 []int
	nsub := r.Intn(3)
	maxa := 2
	if nsub > 0 {
		maxa = 1
	}
	options(root, 3, maxa)
	perm := r.Perm(len(lCmdNames))
	for k := 0; k < nsub; k++ {
		n := lCmdNames[perm[k]]
		level2 = append(level2, add("cmd", n, al(n), "", root))
	}
	for _, c := range level2 {
		ns := 0
		if chance(r, 30) {
			ns = 1
		}
		options(c, 2, 2-ns)
		if ns > 0 {
			n := pick(r, lCmdNames)
			options(add("cmd", n, al(n), "", c), 2, 1)
		}
	}
	// spare elements, to be added while initializing
	for k := 0; k < 2; k++ {
		add("flag", pick(r, []string{"size", "tone", "alpha", "mode"}), []string{}, pick(r, []string{"bool", "str"}), -1)
		add("arg", pick(r, []string{"q", "s", "t"}), []string{}, pick(r, []string{"str", "list"}), -1)
	}
	add("cmd", pick(r, []string{"fo", "ls", "add"}), []string{}, "", -1)
	// the handlers
	for k := range g.s.Els {
		if g.s.Els[k].K == "cmd" && g.s.Els[k].Up == -1 {
			// a command that is added may have a flag of its own
		}
		for _, t := range []string{"init", "before", "action", "after"} {
			if !chance(r, g.p.density) {
				continue
			}
			w := g.p.later
			if t == "init" {
				w = g.p.init
			}
			x := g.ops(k, t, 0, w)
			e := &g.s.Els[k]
			switch t {
			case "init":
				e.Uses = x
			case "before":
				e.Before = x
			case "action":
				e.Action = x
			case "after":
				e.After = x
			}
		}
		if chance(r, g.p.opts) {
			switch g.s.Els[k].K {
			case "cmd":
				g.s.Els[k].Opts = append(g.s.Els[k].Opts, pick(r, []string{"Exits", "ImpliedAction", "DisallowFlagsAfterArgs", "SkipFlagParsing", "RightToLeft"}))
			case "flag":
				g.s.Els[k].Opts = append(g.s.Els[k].Opts, pick(r, []string{"Required", "NonPersistent", "NonPersistent", "Exits", "Trigger", "ImpliedAction"}))
			case "arg":
				g.s.Els[k].Opts = append(g.s.Els[k].Opts, pick(r, []string{"Required", "Trigger", "ImpliedAction", "Exits"}))
			}
		}
	}
	for k := range g.s.Els {
		if g.s.Els[k].Up == -1 {
			g.s.Els[k].Up = 0
		}
	}
	g.argv()
	// a handler that runs a command which is given sub-commands of its own would find itself again, forever
	b, err := json.Marshal(g.s)
	if err != nil {
		panic(err)
	}
	if bytes.Contains(b, []byte(`"o":"addc"`)) {
		b = bytes.ReplaceAll(b, []byte(`"ret":"cmd"`), []byte(`"ret":"nil"`))
		b = bytes.ReplaceAll(b, []byte(`"ret":"implicit"`), []byte(`"ret":"nil"`))
	}
	// which of two siblings an alias of both means is left open
	for _, n := range []string{"k", "l", "also"} {
		set := []byte(`{"o":"alias","name":"` + n + `"}`)
		if c := bytes.Count(b, set); c > 1 || c == 1 && bytes.Contains(b, []byte(`"o":"hook"`)) {
			b = regexp.MustCompile(`"--?`+n+`[^"]*"`).ReplaceAll(b, []byte(`"u"`))
			b = regexp.MustCompile(`({"o":"look","id":"[^"]*",)"name":"`+n+`"`).ReplaceAll(b, []byte(`${1}"name":"a"`))
		}
	}
	return json.RawMessage(b)
}

func (g *lifeGen) argv() {
	r := g.r
	cur, tokens := 1, []string{}
	lineage := []int{1}
	val := func() string { return pick(r, []string{"u", "w", "0", "u", "true", "1"}) }
	for {
		// flags usable here
		var fs []lEl
		for i, e := range g.s.Els {
			in := false
			for _, c := range lineage {
				in = in || e.Up == c
			}
			if e.K == "flag" && (in || (e.Up == 0 && i > 0 && chance(r, 30))) {
				fs = append(fs, e)
			}
		}
		for k := r.Intn(3); k > 0; k-- {
			if chance(r, g.p.noise) {
				tokens = append(tokens, pick(r, []string{"--zz", "-z", "w", "--", "--alpha=bad", "-x", "--mode", "zz", "-"}))
				continue
			}
			if len(fs) == 0 {
				break
			}
			f := pick(r, fs)
			n := pick(r, append([]string{f.Name}, f.Aliases...))
			if chance(r, 6) {
				n = pick(r, []string{"k", "size", "tone", "also"})
			}
			t := "--" + n
			if len(n) == 1 {
				t = "-" + n
			}
			if f.Kind == "bool" {
				if len(n) > 1 && chance(r, 15) {
					t += "=false"
				}
				tokens = append(tokens, t)
			} else if len(n) > 1 && chance(r, 50) {
				tokens = append(tokens, t+"="+val())
			} else {
				tokens = append(tokens, t, val())
			}
		}
		for i, e := range g.s.Els {
			if e.K == "arg" && e.Up == cur && (e.Kind == "n1" && !chance(r, g.p.noise) || chance(r, 60)) {
				tokens = append(tokens, val())
			} else if e.K == "arg" && e.Up == 0 && i > 0 && chance(r, 8) {
				tokens = append(tokens, val())
			}
		}
		var subs []int
		for i, e := range g.s.Els {
			if e.K == "cmd" && e.Up == cur && i > 0 {
				subs = append(subs, i+1)
			}
		}
		if chance(r, g.p.noise) {
			tokens = append(tokens, pick(r, []string{"zz", "k", "fo", "add", "rm"}))
			if chance(r, 50) {
				tokens = append(tokens, val())
			}
		}
		if len(subs) == 0 || chance(r, 12) {
			if chance(r, 10) {
				tokens = append(tokens, pick(r, []string{"fo", "ls", "k"}))
			}
			break
		}
		cur = pick(r, subs)
		lineage = append(lineage, cur)
		e := g.s.Els[cur-1]
		tokens = append(tokens, pick(r, append([]string{e.Name, e.Name}, e.Aliases...)))
	}
	g.s.Argv = tokens
}
