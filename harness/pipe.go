package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
)

// Pipelines and middleware.

type pNode struct {
	O    string  `json:"o"`
	ID   string  `json:"id"`
	Xs   []pNode `json:"xs"`
	Form int     `json:"form"`
}

type pipeScen struct {
	Place string  `json:"place"`
	Defs  []pNode `json:"defs"`
	Act   pNode   `json:"act"`
}

type pipeRun struct {
	out []string
}

type pErr string

func (e pErr) Error() string { return string(e) }

type ifaceAction func() error

func (f ifaceAction) Execute(context.Context) error { return f() }

type legacy func() error

func (f legacy) Execute(*cli.Context) error { return f() }

type ifaceMw func(context.Context, cli.Action) error

func (f ifaceMw) Execute(c context.Context) error { return f(c, nil) }
func (f ifaceMw) ExecuteWithNext(c context.Context, n cli.Action) error {
	return f(c, n)
}

func (p *pipeRun) say(s string) { p.out = append(p.out, s) }

// plain makes an action of any of the forms that ActionOf accepts; those without an error
// result are only used when f cannot fail
func plain(form int, fails bool, f func() error) any {
	forms := []any{
		func(*cli.Context) error { return f() },
		func(context.Context) error { return f() },
		func() error { return f() },
		ifaceAction(f),
		legacy(f),
		cli.ActionFunc(func(*cli.Context) error { return f() }),
		func(*cli.Context) { _ = f() },
		func(context.Context) { _ = f() },
		func() { _ = f() },
	}
	n := len(forms)
	if fails {
		n -= 3
	}
	return forms[form%n]
}

func (p *pipeRun) build(n pNode) any {
	one := func(i int) cli.Action { return cli.ActionOf(p.build(n.Xs[i])) }
	some := func(xs []pNode) []cli.Action {
		r := make([]cli.Action, 0, len(xs)+4) // with room, which belongs to the caller
		for _, x := range xs {
			r = append(r, cli.ActionOf(p.build(x)))
		}
		return r
	}
	pl := func(i int) cli.ActionPipeline { return p.build(n.Xs[i]).(cli.ActionPipeline) }
	yes := cli.ContextFilterFunc(func(*cli.Context) bool { return true })
	no := cli.ContextFilterFunc(func(*cli.Context) bool { return false })
	switch n.O {
	case "log":
		return plain(n.Form, false, func() error { p.say(n.ID); return nil })
	case "err":
		return plain(n.Form, true, func() error { p.say(n.ID); return pErr(n.ID) })
	case "nil":
		return nil
	case "pipe":
		xs := []any{}
		for _, x := range n.Xs {
			xs = append(xs, p.build(x))
		}
		return cli.Pipeline(xs...)
	case "lit":
		return cli.ActionPipeline(some(n.Xs))
	case "append":
		return pl(0).Append(some(n.Xs[1:])...)
	case "prepend":
		return pl(0).Prepend(some(n.Xs[1:])...)
	case "fork":
		b := pl(0)
		first := b.Append(one(1))
		_ = b.Append(one(2))
		return first
	case "forkpre":
		b := pl(0)
		x := some(n.Xs[1:2])
		first := b.Prepend(x...)
		_ = cli.Pipeline(p.build(n.Xs[2]), p.build(n.Xs[2]), p.build(n.Xs[2]), p.build(n.Xs[2])).Prepend(x...)
		return first
	case "ift":
		if n.Form%2 == 1 {
			return cli.IfMatch(cli.Anything, one(0))
		}
		return cli.IfMatch(yes, one(0))
	case "iff":
		return cli.IfMatch(no, one(0))
	case "ifnil":
		return cli.IfMatch(nil, one(0))
	case "assertt":
		return cli.Assert(yes, one(0))
	case "assertf":
		return cli.Assert(no, one(0))
	case "supp":
		return cli.SuppressError(one(0))
	case "dox":
		if n.Form%2 == 1 {
			return func(c *cli.Context) error { return c.Do(one(0)) }
		}
		return func(c context.Context) error { return cli.Do(c, one(0)) }
	}
	mw := func(do func(next func() error) error) any {
		if n.Form%2 == 1 {
			return ifaceMw(func(c context.Context, next cli.Action) error {
				return do(func() error { return cli.Do(c, next) })
			})
		}
		return func(c *cli.Context, next cli.Action) error {
			return do(func() error { return cli.Do(c, next) })
		}
	}
	switch strings.TrimPrefix(n.O, "mw.") {
	case "before":
		return mw(func(next func() error) error { p.say(n.ID + "<"); return next() })
	case "after":
		return mw(func(next func() error) error { err := next(); p.say(n.ID + ">"); return err })
	case "around":
		return mw(func(next func() error) error {
			p.say(n.ID + "<")
			if err := next(); err != nil {
				return err
			}
			p.say(n.ID + ">")
			return nil
		})
	case "skip":
		return mw(func(next func() error) error { p.say(n.ID); return nil })
	case "failfirst":
		return mw(func(next func() error) error { p.say(n.ID); return pErr(n.ID) })
	case "swallow":
		return mw(func(next func() error) error { _ = next(); p.say(n.ID + ">"); return nil })
	case "replace":
		return mw(func(next func() error) error {
			if next() != nil {
				return pErr(n.ID)
			}
			return nil
		})
	case "fail":
		return mw(func(next func() error) error { _ = next(); p.say(n.ID + ">"); return pErr(n.ID) })
	case "twice":
		return mw(func(next func() error) error {
			if err := next(); err != nil {
				return err
			}
			return next()
		})
	case "wrap":
		return func(next cli.Action) cli.Action {
			l := func(s string) any { return plain(n.Form, false, func() error { p.say(n.ID + s); return nil }) }
			return cli.Pipeline(l("<"), next, l(">"))
		}
	case "wrapdrop":
		return func(next cli.Action) cli.Action {
			return cli.ActionOf(plain(n.Form, false, func() error { p.say(n.ID); return nil }))
		}
	case "wrapnil":
		return func(next cli.Action) cli.Action { return nil }
	}
	panic("node " + n.O)
}

func execPipe(raw json.RawMessage) any {
	s := decode[pipeScen](raw)
	p := &pipeRun{out: []string{}}
	var uses []any
	for _, d := range s.Defs {
		uses = append(uses, cli.At(cli.ActionTiming, cli.ActionOf(p.build(d))))
	}
	act := p.build(s.Act)
	app := &cli.App{Name: "app"}
	args := []string{"app"}
	switch s.Place {
	case "do":
		app.Action = func(c context.Context) error { return cli.Do(c, cli.ActionOf(act)) }
	case "cmd":
		app.Uses, app.Action = cli.Pipeline(uses...), act
	case "before":
		app.Before = act
	case "after":
		app.After = act
	case "flag":
		app.Flags = []*cli.Flag{{Name: "f", Value: new(bool), Uses: cli.Pipeline(uses...), Action: act}}
		args = append(args, "-f")
	case "fbefore":
		app.Flags = []*cli.Flag{{Name: "f", Value: new(bool), Before: act}}
	case "arg":
		app.Args = []*cli.Arg{{Name: "f", Value: new(string), Uses: cli.Pipeline(uses...), Action: act}}
		args = append(args, "v")
	}
	if s.Place != "do" && s.Place != "cmd" {
		app.Action = func() {}
	}
	err := app.RunContext(context.Background(), args)
	res := "ok"
	if err != nil {
		var pe pErr
		switch {
		case errors.As(err, &pe):
			res = string(pe)
			if err != error(pe) {
				res = "wrapped " + res
			}
		case err.Error() == "context does not meet requirements for action":
			res = "assert"
		default:
			res = "other: " + err.Error()
		}
	}
	return obj{"out": p.out, "res": res}
}

type pipeGen struct {
	r *rand.Rand
	n int
}

var pipeMws = []string{"before", "after", "around", "skip", "failfirst", "swallow", "replace", "fail", "twice", "wrap", "wrapdrop", "wrapnil"}

func (g *pipeGen) id() string { g.n++; return fmt.Sprint("n", g.n) }

func (g *pipeGen) list(d, max int) []pNode {
	xs := []pNode{}
	for k := g.r.Intn(max + 1); k > 0; k-- {
		xs = append(xs, g.node(d))
	}
	return xs
}

func (g *pipeGen) pipeline(d int) pNode {
	r := g.r
	n := pNode{Form: 0, Xs: []pNode{}}
	switch k := r.Intn(12); {
	case k < 5 || d <= 0:
		n.O, n.Xs = "pipe", g.list(d-1, 4)
	case k < 8:
		n.O, n.Xs = "lit", g.list(d-1, 4)
	case k < 10:
		n.O = pick(r, []string{"append", "prepend"})
		n.Xs = append([]pNode{g.pipeline(d - 1)}, g.list(d-1, 3)...)
	default:
		n.O = pick(r, []string{"fork", "forkpre"})
		n.Xs = []pNode{g.pipeline(d - 1), g.node(d - 1), g.node(d - 1)}
	}
	return n
}

func (g *pipeGen) node(d int) pNode {
	r := g.r
	form := r.Intn(36)
	k := r.Intn(100)
	if d <= 0 {
		k = r.Intn(60)
	}
	switch {
	case k < 32:
		return pNode{O: "log", ID: g.id(), Xs: []pNode{}, Form: form}
	case k < 37:
		return pNode{O: "err", ID: g.id(), Xs: []pNode{}, Form: form}
	case k < 39:
		return pNode{O: "nil", Xs: []pNode{}}
	case k < 60:
		return pNode{O: "mw." + pick(r, pipeMws), ID: g.id(), Xs: []pNode{}, Form: form}
	case k < 85:
		return g.pipeline(d)
	}
	return pNode{O: pick(r, []string{"ift", "ift", "iff", "ifnil", "assertt", "assertf", "supp", "dox", "dox"}), Xs: []pNode{g.node(d - 1)}, Form: form}
}

func genPipe(r *rand.Rand, profile string, i int) any {
	g := &pipeGen{r: r}
	s := pipeScen{Place: pick(r, []string{"do", "do", "cmd", "cmd", "flag", "arg", "before", "after", "fbefore"}), Defs: []pNode{}}
	switch s.Place {
	case "cmd", "flag", "arg":
		s.Defs = g.list(2, 3)
	}
	s.Act = g.node(4)
	return s
}

func init() { areas["pipe"] = area{gen: genPipe, exec: execPipe} }
