package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/exec"
	"github.com/Carbonfrost/joe-cli/extensions/expr"
)

// Expressions: operators with operands, bound from tokens and evaluated over items.

type eEv struct {
	K    string `json:"k"`
	X    string `json:"x"`
	Form int    `json:"form"`
}

type eOp struct {
	Name    string   `json:"name"`
	Aliases []string `json:"aliases"`
	Args    []pArg   `json:"args"`
	Ev      eEv      `json:"ev"`
	Hooks   bool     `json:"hooks"`
}

type eCustom struct {
	At string `json:"at"` // pre post
	ID string `json:"id"`
	Ev eEv    `json:"ev"`
}

type exprScen struct {
	Place   string     `json:"place"`
	Ops     []eOp      `json:"ops"`
	Expr    []string   `json:"expr"`
	Custom  []eCustom  `json:"custom"`
	Batches [][]string `json:"batches"`
	Form    int        `json:"form"`
}

func init() {
	areas["expr"] = area{gen: genExpr, exec: execExpr}
}

type eErr string

func (e eErr) Error() string { return string(e) }

type exprRun struct {
	log []any
}

func (r *exprRun) say(ev ...string) { r.log = append(r.log, ev) }

func operands(c *cli.Context, op eOp) []string {
	var res []string
	for _, a := range op.Args {
		res = append(res, "/"+a.Name)
		switch v := c.Value(a.Name).(type) {
		case string:
			res = append(res, v)
		case int:
			res = append(res, fmt.Sprint(v))
		case []string:
			res = append(res, v...)
		case *exec.ArgList:
			all := append(append([]string{}, v.Args()...), ";")
			if v.UsePlaceholder() {
				all[len(all)-1] = "+"
			}
			if strings.Join(all, " ") != v.String() {
				all = append(all, v.String())
			}
			if cmd, args := v.Command(); len(v.Args()) > 0 && strings.Join(append([]string{cmd}, args...), "|") != strings.Join(v.Args(), "|") {
				all = append(all, "cmd", cmd)
			}
			res = append(res, all...)
		default:
			res = append(res, fmt.Sprintf("?%T", v))
		}
	}
	return res
}

// evaluator makes an evaluator of the given behaviour, in any of the forms that EvaluatorOf
// accepts
func (r *exprRun) evaluator(id string, op eOp, ev eEv) any {
	see := func(ctx context.Context, what string, v any) {
		e := []string{what, id, fmt.Sprint(v)}
		if op.Name != "" {
			c := cli.FromContext(ctx)
			e = append(e, operands(c, op)...)
		}
		r.say(e...)
	}
	// blind: the form doesn't have a context, so that the operands can't be seen
	blind := func(v any) { r.say("<", id, fmt.Sprint(v)) }
	full := func(f func(ctx context.Context, v any, y func(any) error) error) any {
		switch ev.Form % 4 {
		case 0:
			return func(c *cli.Context, v any, y func(any) error) error { return f(c, v, y) }
		case 1:
			return func(c context.Context, v any, y func(any) error) error { return f(c, v, y) }
		case 2:
			return expr.EvaluatorFunc(func(c *cli.Context, v any, y func(any) error) error { return f(c, v, y) })
		}
		return ifaceEval(f)
	}
	fail := eErr("E" + id)
	switch ev.K {
	case "pass":
		f := func(ctx context.Context, v any) { see(ctx, "<", v) }
		switch ev.Form % 6 {
		case 0:
			return func(c *cli.Context, v any) { f(c, v) }
		case 1:
			return func(c context.Context, v any) { f(c, v) }
		case 2:
			return func(c *cli.Context, v any) error { f(c, v); return nil }
		case 3:
			return func(c context.Context, v any) error { f(c, v); return nil }
		case 4:
			return func(c *cli.Context, v any) bool { f(c, v); return true }
		}
		return func(c context.Context, v any) bool { f(c, v); return true }
	case "bpass":
		switch ev.Form % 5 {
		case 0:
			return func(v any) { blind(v) }
		case 1:
			return func(v any) error { blind(v); return nil }
		case 2:
			return func(v any) bool { blind(v); return true }
		case 3:
			return expr.Predicate(func(v any) bool { blind(v); return true })
		}
		return func(v any, y func(any) error) error { blind(v); return y(v) }
	case "drop":
		if ev.Form%3 == 0 {
			return func(c *cli.Context, v any) bool { see(c, "<", v); return false }
		}
		return full(func(c context.Context, v any, y func(any) error) error { see(c, "<", v); return nil })
	case "err":
		if ev.Form%3 == 0 {
			return func(c *cli.Context, v any) error { see(c, "<", v); return fail }
		}
		if ev.Form%3 == 1 {
			return func(c context.Context, v any) error { see(c, "<", v); return fail }
		}
		return full(func(c context.Context, v any, y func(any) error) error { see(c, "<", v); return fail })
	case "berr":
		if ev.Form%2 == 0 {
			return func(v any) error { blind(v); return fail }
		}
		return func(v any, y func(any) error) error { blind(v); return fail }
	case "not": // everything except x
		switch ev.Form % 3 {
		case 0:
			return func(c *cli.Context, v any) bool { see(c, "<", v); return fmt.Sprint(v) != ev.X }
		case 1:
			return func(c context.Context, v any) bool { see(c, "<", v); return fmt.Sprint(v) != ev.X }
		}
		return full(func(c context.Context, v any, y func(any) error) error {
			see(c, "<", v)
			if fmt.Sprint(v) != ev.X {
				return y(v)
			}
			return nil
		})
	case "bnot":
		if ev.Form%2 == 0 {
			return func(v any) bool { blind(v); return fmt.Sprint(v) != ev.X }
		}
		return expr.Predicate(func(v any) bool { blind(v); return fmt.Sprint(v) != ev.X })
	case "dup":
		return full(func(c context.Context, v any, y func(any) error) error {
			see(c, "<", v)
			if err := y(v); err != nil {
				return err
			}
			see(c, "=", v)
			return y(v)
		})
	case "around":
		return full(func(c context.Context, v any, y func(any) error) error {
			see(c, "<", v)
			err := y(v)
			see(c, ">", v)
			return err
		})
	case "errafter":
		return full(func(c context.Context, v any, y func(any) error) error {
			see(c, "<", v)
			if err := y(v); err != nil {
				return err
			}
			see(c, ">", v)
			return fail
		})
	case "swallow":
		return full(func(c context.Context, v any, y func(any) error) error {
			see(c, "<", v)
			_ = y(v)
			see(c, ">", v)
			return nil
		})
	case "map":
		return full(func(c context.Context, v any, y func(any) error) error {
			see(c, "<", v)
			return y(fmt.Sprint(v) + ev.X)
		})
	case "each": // yields v itself and then v followed by each operand value
		return full(func(c context.Context, v any, y func(any) error) error {
			see(c, "<", v)
			var list []string
			if op.Name != "" {
				for _, o := range operands(cli.FromContext(c), op) {
					list = append(list, fmt.Sprint(v)+o)
				}
			}
			for _, o := range list {
				if err := y(o); err != nil {
					return err
				}
			}
			see(c, ">", v)
			return nil
		})
	case "true":
		if ev.Form%3 == 0 {
			return nil
		}
		if ev.Form%3 == 1 {
			return expr.AlwaysTrue
		}
		return true
	case "false":
		if ev.Form%2 == 1 {
			return expr.AlwaysFalse
		}
		return false
	case "errval":
		if ev.Form%2 == 1 {
			return expr.Error(fail)
		}
		return error(fail)
	}
	panic("evaluator " + ev.K)
}

type ifaceEval func(ctx context.Context, v any, y func(any) error) error

func (f ifaceEval) Evaluate(ctx context.Context, v any, y func(any) error) error {
	return f(ctx, v, y)
}

func execExpr(raw json.RawMessage) any {
	s := decode[exprScen](raw)
	r := &exprRun{log: []any{}}
	e := &expr.Expression{}
	var ops []*expr.Expr
	for i, o := range s.Ops {
		x := &expr.Expr{Name: o.Name, Aliases: o.Aliases}
		for _, a := range o.Args {
			if a.Cnt == "int" {
				x.Args = append(x.Args, &cli.Arg{Name: a.Name, NArg: 1, Value: cli.Int()})
				continue
			}
			arg := buildArg(a)
			if n, ok := arg.NArg.(int); ok && (i+s.Form)%2 == 0 {
				arg.NArg = cli.ArgCount(n)
			}
			x.Args = append(x.Args, arg)
		}
		x.Evaluate = r.evaluator(o.Name, o, o.Ev)
		if s.Form%3 == 2 && i == 0 {
			ev := expr.EvaluatorOf(x.Evaluate)
			x.Evaluate = nil
			x.Uses = expr.SetEvaluator(ev)
		}
		if o.Hooks {
			x.Before = func() { r.say("before", o.Name) }
			x.After = func() { r.say("after", o.Name) }
		}
		ops = append(ops, x)
	}
	arg := &cli.Arg{Name: "expression", Value: e}
	switch s.Form % 3 {
	case 0, 2:
		e.Exprs = ops
	case 1:
		arg.Uses = expr.AddExprs(ops...)
	}
	ran := 0
	walk := []string{}
	files := []string{}
	action := func(c *cli.Context) error {
		ran++
		ex := expr.FromContext(c, "expression")
		for _, x := range s.Custom {
			b := expr.NewBinding(expr.EvaluatorOf(r.evaluator(x.ID, eOp{}, x.Ev)))
			if x.At == "pre" {
				ex.Prepend(b)
			} else {
				ex.Append(b)
			}
		}
		for b := range ex.Bindings() {
			if b.Expr() == nil {
				walk = append(walk, "custom")
			} else {
				walk = append(walk, b.Expr().Name)
			}
		}
		if s.Place != "sep" && s.Place != "sub" {
			files = append(files, c.List("files")...)
		}
		for _, b := range s.Batches {
			items := []any{}
			for _, x := range b {
				items = append(items, x)
			}
			err := ex.Evaluate(c, items...)
			t := "ok"
			if err != nil {
				t = err.Error()
			}
			r.say("end", t)
		}
		return nil
	}
	app := &cli.App{Name: "app", Stdout: new(bytes.Buffer), Stderr: new(bytes.Buffer)}
	argv := []string{"app"}
	args := []*cli.Arg{arg}
	switch s.Place {
	case "sep":
		argv = append(argv, "--")
	case "one":
		args = []*cli.Arg{{Name: "files", Value: cli.List(), NArg: 1}, arg}
		argv = append(argv, "f1")
	case "list":
		args = []*cli.Arg{{Name: "files", Value: cli.List(), NArg: cli.TakeUntilNextFlag}, arg}
		argv = append(argv, "f1", "f2")
	case "sub":
		argv = append(argv, "sub", "--")
	}
	if s.Place == "sub" {
		app.Commands = []*cli.Command{{Name: "sub", Args: args, Action: action}}
	} else {
		app.Args, app.Action = args, action
	}
	argv = append(argv, s.Expr...)
	err := app.RunContext(context.Background(), argv)
	code, what := errClass(err), ""
	var pe *cli.ParseError
	if errors.As(err, &pe) && (pe.Code == cli.UnknownExpr || pe.Code == cli.ArgsMustPrecedeExprs) {
		what = pe.Name + pe.Value
	}
	if (err == nil) != (ran == 1) {
		code = fmt.Sprintf("%s, ran %d", code, ran)
	}
	return obj{"code": code, "what": what, "walk": walk, "files": files, "log": r.log}
}

func genExpr(r *rand.Rand, profile string, i int) any {
	s := exprScen{
		Place: pick(r, []string{"sep", "sep", "one", "list", "sub"}), Form: r.Intn(3),
		Ops: []eOp{}, Expr: []string{}, Custom: []eCustom{}, Batches: [][]string{},
	}
	kinds := []string{"pass", "pass", "pass", "bpass", "drop", "err", "berr", "not", "not", "bnot", "dup", "dup", "around", "errafter",
		"swallow", "map", "each", "each", "true", "false", "errval"}
	if profile == "bind" {
		kinds = []string{"pass", "pass", "around", "each", "true"}
	}
	ev := func() eEv {
		k := pick(r, kinds)
		e := eEv{K: k, Form: r.Intn(12)}
		switch k {
		case "not", "bnot":
			e.X = pick(r, []string{"1", "2", "1m"})
		case "map":
			e.X = pick(r, []string{"m", "", "n"})
		}
		return e
	}
	cnts := []string{"str", "n1", "n1", "n2", "list", "o1", "n0", "int", "n3", "m1", "m2", "m3"}
	if profile == "own" {
		cnts = append(cnts, "exec", "exec", "exec", "exec", "exec")
	}
	names := []string{"and", "or", "n", "b", "name", "print-all", "x:y"}
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	all := []string{}
	for k := 0; k < 1+r.Intn(3); k++ {
		o := eOp{Name: names[k], Aliases: []string{}, Args: []pArg{}, Ev: ev(), Hooks: chance(r, 20)}
		if chance(r, 25) {
			o.Aliases = append(o.Aliases, string(rune('p'+k)))
			if chance(r, 30) {
				o.Aliases = append(o.Aliases, "alt"+fmt.Sprint(k))
			}
		}
		opNames := []string{"a", "b", "n", "name", "w"}
		r.Shuffle(len(opNames), func(i, j int) { opNames[i], opNames[j] = opNames[j], opNames[i] })
		for q := 0; q < r.Intn(3); q++ {
			o.Args = append(o.Args, pArg{Name: opNames[q], Cnt: pick(r, cnts)})
		}
		s.Ops = append(s.Ops, o)
		all = append(all, o.Name)
		all = append(all, o.Aliases...)
	}
	junk := []string{"", "-", "--", "x", "-5", "-zz", "--zz", "--and", "--b", "--a=1", "--name=q", "-and=1", "and", "oname", "-a", "-n1", "---", "-b"}
	vals := []string{"1", "2", "p", "q", "pp", "7", "", "-", "w x"}
	n := r.Intn(5)
	if profile == "bind" {
		n += 2
	}
	for k := 0; k < n; k++ {
		if chance(r, 8) {
			s.Expr = append(s.Expr, pick(r, junk))
		}
		o := pick(r, s.Ops)
		s.Expr = append(s.Expr, "-"+pick(r, append([]string{o.Name, o.Name, o.Name}, o.Aliases...)))
		for _, a := range o.Args {
			m := map[string]int{"str": r.Intn(2), "n1": 1, "int": 1, "n2": 2, "n3": 3, "list": r.Intn(3), "n0": r.Intn(2), "o1": r.Intn(2), "m1": r.Intn(3), "m2": r.Intn(3), "m3": r.Intn(3), "exec": r.Intn(3)}[a.Cnt]
			if chance(r, 7) {
				m += r.Intn(3) - 1
			}
			for ; m > 0; m-- {
				switch {
				case a.Cnt == "int" && chance(r, 85):
					s.Expr = append(s.Expr, pick(r, []string{"1", "2", "7"}))
				case a.Cnt == "o1" && chance(r, 85):
					s.Expr = append(s.Expr, "p"+pick(r, vals))
				default:
					s.Expr = append(s.Expr, pick(r, vals))
				}
			}
			if a.Cnt == "exec" && chance(r, 90) {
				s.Expr = append(s.Expr, pick(r, []string{";", "+"}))
			}
		}
	}
	if len(s.Expr) > 0 && (s.Expr[0] == "--" || s.Place == "list" && (len(s.Expr[0]) < 2 || s.Expr[0][0] != '-')) {
		s.Place = "sep" // the token would belong to the files
	}
	// not too many events
	many := 0
	for _, t := range s.Expr {
		for k := range s.Ops {
			o := &s.Ops[k]
			if t == "-"+o.Name || len(o.Aliases) > 0 && t == "-"+o.Aliases[0] {
				if o.Ev.K == "dup" || o.Ev.K == "each" {
					if many++; many > 2 {
						o.Ev.K = "around"
					}
				}
			}
		}
	}
	for chance(r, 12) {
		s.Custom = append(s.Custom, eCustom{At: pick(r, []string{"pre", "post"}), ID: fmt.Sprintf("c%d", len(s.Custom)), Ev: ev()})
	}
	for k := 0; k < 1+r.Intn(2); k++ {
		b := []string{}
		for q := 0; q < r.Intn(4); q++ {
			b = append(b, pick(r, []string{"1", "2", "3"}))
		}
		s.Batches = append(s.Batches, b)
	}
	return s
}
