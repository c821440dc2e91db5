package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"net/url"
	"regexp"
	"strconv"
	"strings"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/bind"
	"github.com/Carbonfrost/joe-cli/extensions/expr"
)

// Actions and evaluators bound to the values of flags and args.

type bindParam struct {
	B   string `json:"b"` // named index implicit exact noexact const ctx fail
	N   string `json:"n"`
	I   int    `json:"i"`
	Ty  string `json:"ty"` // int string bool list box ctx
	V   string `json:"v"`
	Via string `json:"via"` // typed value for
}

type bindAct struct {
	ID  string      `json:"id"`
	K   string      `json:"k"` // call action indirect redirect bind bindind bindctx
	N   string      `json:"n"` // target of indirect, redirect, bindind
	Ps  []bindParam `json:"ps"`
	Err bool        `json:"err"`
}

type bindOpt struct {
	N      string    `json:"n"`
	Arg    bool      `json:"arg"`
	Lv     int       `json:"lv"`
	Ty     string    `json:"ty"`
	Uses   []bindAct `json:"uses"`
	Action []bindAct `json:"action"`
}

type bindTok struct {
	O    string `json:"o"`
	V    string `json:"v"`
	Bare bool   `json:"bare"`
}

type bindExpr struct {
	Args  []bindOpt  `json:"args"` // operands
	Uses  []bindAct  `json:"uses"`
	Eval  []bindAct  `json:"eval"`  // at most one
	Times [][]string `json:"times"` // operand values of each use
}

type bindScen struct {
	Op     string    `json:"op"` // run type
	Sub    bool      `json:"sub"`
	Opts   []bindOpt `json:"opts"`
	Uses   []bindAct `json:"uses"`
	Action []bindAct `json:"action"`
	Toks   []bindTok `json:"toks"`
	Ex     bindExpr  `json:"ex"`
	Ty     string    `json:"ty"`
	Via    string    `json:"via"`
	V      string    `json:"v"`
}

func init() {
	areas["bind"] = area{gen: genBind, exec: execBind}
}

// box is a value with its own Set
type box struct{ s, extra string }

func (b *box) Set(s string) error { b.s = s; return nil }
func (b *box) String() string     { return b.s + b.extra }

type boxKey struct{}

var errBind = errors.New("bind failed")
var errFn = errors.New("function failed")

func bindText(v any) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case *cli.Context:
		return "context of " + strings.Trim(x.Name(), "-<>")
	case []string:
		return strings.Join(x, "|")
	case []byte:
		return string(x)
	case map[string]string:
		return mapText(pairsOf(x))
	case *box:
		if x == nil {
			return "nil"
		}
		return x.String()
	case *cli.File:
		return x.Name
	case *cli.FileSet:
		return strings.Join(x.Files, "|")
	case *cli.NameValue:
		return x.Name + "=" + x.Value
	case []*cli.NameValue:
		var out []string
		for _, n := range x {
			out = append(out, n.Name+"="+n.Value)
		}
		return strings.Join(out, "|")
	case *big.Float:
		return x.Text('g', 10)
	}
	return fmt.Sprint(v)
}

func bindType(v any) string {
	switch v.(type) {
	case *int:
		return "int"
	case *string:
		return "string"
	case *bool:
		return "bool"
	case *[]string:
		return "list"
	case *box:
		return "box"
	}
	return fmt.Sprintf("%T", v)
}

func bindNew(ty string) any {
	switch ty {
	case "int":
		return new(int)
	case "string":
		return new(string)
	case "bool":
		return new(bool)
	case "list":
		return new([]string)
	case "box":
		return new(box)
	}
	return nil
}

func bindConv[T any](s string) T {
	var v any
	var t T
	switch any(t).(type) {
	case int:
		v, _ = strconv.Atoi(s)
	case bool:
		v = s == "true"
	case []string:
		v = strings.Split(s, "|")
	case *box:
		v = &box{s: s}
	default:
		v = s
	}
	return v.(T)
}

func typedBinder[T any](via string, name ...any) bind.Binder[T] {
	switch via {
	case "value":
		return bind.Value[T](name...)
	case "for":
		return bind.For[T](name...)
	}
	var t T
	var b any
	switch any(t).(type) {
	case int:
		b = bind.Int(name...)
	case string:
		b = bind.String(name...)
	case bool:
		b = bind.Bool(name...)
	case []string:
		b = bind.List(name...)
	default:
		b = bind.Value[T](name...)
	}
	return b.(bind.Binder[T])
}

func mkBinder[T any](r *bindRec, a bindAct, k int) bind.Binder[T] {
	p := a.Ps[k]
	var t T
	if _, ok := any(t).(*cli.Context); ok {
		return any(bind.Context()).(bind.Binder[T])
	}
	switch p.B {
	case "named":
		return typedBinder[T](p.Via, p.N)
	case "index":
		return typedBinder[T](p.Via, p.I)
	case "implicit":
		return typedBinder[T](p.Via)
	case "exact":
		return bind.Exact(bindConv[T](p.V))
	case "noexact":
		return bind.Exact[T]()
	case "const":
		return bind.FromContext(func(context.Context) T {
			r.evaluated(a, k)
			return bindConv[T](p.V)
		})
	case "fail":
		return bind.Func[T](func(*cli.Context) (T, error) {
			var t T
			r.evaluated(a, k)
			return t, errBind
		})
	}
	panic("binder " + p.B)
}

type bindRec struct {
	Calls [][]any `json:"calls"`
}

func (r *bindRec) evaluated(a bindAct, k int) {
	r.Calls = append(r.Calls, []any{fmt.Sprint(a.ID, ".", k+1), []string{}})
}

func (r *bindRec) call(a bindAct, vals ...any) error {
	t := []string{}
	for _, v := range vals {
		t = append(t, bindText(v))
	}
	r.Calls = append(r.Calls, []any{a.ID, t})
	if a.Err {
		return errFn
	}
	return nil
}

type bindFuncs struct {
	call   func(r *bindRec, a bindAct) cli.Action
	action func(r *bindRec, a bindAct) cli.Action
	eval   func(r *bindRec, a bindAct) expr.Evaluator
}

func (r *bindRec) derived(a bindAct, vals ...any) cli.Action {
	return cli.ActionFunc(func(*cli.Context) error { return r.call(a, vals...) })
}

func (r *bindRec) evaluator(a bindAct, vals ...any) expr.Evaluator {
	return expr.EvaluatorFunc(func(_ *cli.Context, v any, yield func(any) error) error {
		if err := r.call(a, append(vals, v)...); err != nil {
			return err
		}
		return yield(v)
	})
}

func bind1[T any]() bindFuncs {
	return bindFuncs{
		func(r *bindRec, a bindAct) cli.Action {
			return bind.Call(func(t T) error { return r.call(a, t) }, mkBinder[T](r, a, 0))
		},
		func(r *bindRec, a bindAct) cli.Action {
			return bind.Action(func(t T) cli.Action { return r.derived(a, t) }, mkBinder[T](r, a, 0))
		},
		func(r *bindRec, a bindAct) expr.Evaluator {
			return bind.Evaluator(func(t T) expr.Evaluator { return r.evaluator(a, t) }, mkBinder[T](r, a, 0))
		},
	}
}

func bind2[T, U any]() bindFuncs {
	return bindFuncs{
		func(r *bindRec, a bindAct) cli.Action {
			return bind.Call2(func(t T, u U) error { return r.call(a, t, u) }, mkBinder[T](r, a, 0), mkBinder[U](r, a, 1))
		},
		func(r *bindRec, a bindAct) cli.Action {
			return bind.Action2(func(t T, u U) cli.Action { return r.derived(a, t, u) }, mkBinder[T](r, a, 0), mkBinder[U](r, a, 1))
		},
		func(r *bindRec, a bindAct) expr.Evaluator {
			return bind.Evaluator2(func(t T, u U) expr.Evaluator { return r.evaluator(a, t, u) }, mkBinder[T](r, a, 0), mkBinder[U](r, a, 1))
		},
	}
}

func bind3[T, U, V any]() bindFuncs {
	return bindFuncs{
		func(r *bindRec, a bindAct) cli.Action {
			return bind.Call3(func(t T, u U, v V) error { return r.call(a, t, u, v) }, mkBinder[T](r, a, 0), mkBinder[U](r, a, 1), mkBinder[V](r, a, 2))
		},
		func(r *bindRec, a bindAct) cli.Action {
			return bind.Action3(func(t T, u U, v V) cli.Action { return r.derived(a, t, u, v) }, mkBinder[T](r, a, 0), mkBinder[U](r, a, 1), mkBinder[V](r, a, 2))
		},
		func(r *bindRec, a bindAct) expr.Evaluator {
			return bind.Evaluator3(func(t T, u U, v V) expr.Evaluator { return r.evaluator(a, t, u, v) }, mkBinder[T](r, a, 0), mkBinder[U](r, a, 1), mkBinder[V](r, a, 2))
		},
	}
}

var bindTable = map[string]bindFuncs{
	"int":    bind1[int](),
	"string": bind1[string](),
	"bool":   bind1[bool](),
	"list":   bind1[[]string](),
	"box":    bind1[*box](),
	"ctx":    bind1[*cli.Context](),

	"int int":       bind2[int, int](),
	"int string":    bind2[int, string](),
	"int ctx":       bind2[int, *cli.Context](),
	"string int":    bind2[string, int](),
	"string string": bind2[string, string](),
	"string ctx":    bind2[string, *cli.Context](),
	"ctx int":       bind2[*cli.Context, int](),
	"ctx string":    bind2[*cli.Context, string](),

	"int int int":          bind3[int, int, int](),
	"int int string":       bind3[int, int, string](),
	"int string int":       bind3[int, string, int](),
	"int string string":    bind3[int, string, string](),
	"string int int":       bind3[string, int, int](),
	"string int string":    bind3[string, int, string](),
	"string string int":    bind3[string, string, int](),
	"string string string": bind3[string, string, string](),
}

func bindFuncsOf(a bindAct) bindFuncs {
	var tys []string
	for _, p := range a.Ps {
		tys = append(tys, p.Ty)
	}
	f, ok := bindTable[strings.Join(tys, " ")]
	if !ok {
		panic("no functions of " + strings.Join(tys, " "))
	}
	return f
}

// indirectAct has a target that is a box
func indirectAct[V any](r *bindRec, a bindAct) cli.Action {
	var opt []V
	if p := a.Ps[0]; p.B == "exact" {
		opt = []V{bindConv[V](p.V)}
	}
	set := func(b *box, v V) error {
		err := r.call(a, b, v)
		if err == nil {
			b.extra += "+" + bindText(v)
		}
		return err
	}
	switch a.K {
	case "indirect":
		return bind.Indirect(a.N, set, opt...)
	case "bindind":
		return cli.BindIndirect(a.N, set, opt...)
	case "bindctx":
		return cli.BindContext(func(c context.Context) *box { return c.Value(boxKey{}).(*box) }, set, opt...)
	case "bind":
		return cli.Bind(func(v V) error { return r.call(a, v) }, opt...)
	case "redirect":
		return bind.Redirect(a.N, opt...)
	}
	panic("action " + a.K)
}

func bindAction(r *bindRec, a bindAct) cli.Action {
	switch a.K {
	case "call":
		return bindFuncsOf(a).call(r, a)
	case "action":
		return bindFuncsOf(a).action(r, a)
	}
	switch a.Ps[0].Ty {
	case "int":
		return indirectAct[int](r, a)
	case "bool":
		return indirectAct[bool](r, a)
	case "list":
		return indirectAct[[]string](r, a)
	}
	return indirectAct[string](r, a)
}

func bindActions(r *bindRec, acts []bindAct) cli.Action {
	if len(acts) == 0 {
		return nil
	}
	if len(acts) == 1 {
		return bindAction(r, acts[0])
	}
	var out []any
	for _, a := range acts {
		out = append(out, bindAction(r, a))
	}
	return cli.Pipeline(out...)
}

// bindTypeRes is what a function of each type is called with
type bindTypeRes struct {
	Res string `json:"res"`
	V   string `json:"v"`
}

func tyCase[T any](value func() any, typed func(...any) bind.Binder[T]) func(via, v string, imp bool) bindTypeRes {
	return func(via, v string, imp bool) (res bindTypeRes) {
		defer func() {
			if p := recover(); p != nil {
				res = bindTypeRes{"panic", fmt.Sprint(p)}
			}
		}()
		var names []any
		if !imp {
			names = []any{"x"}
		}
		res.Res = "not called"
		var b bind.Binder[T]
		switch via {
		case "typed":
			b = typed(names...)
		case "for":
			b = bind.For[T](names...)
		case "value":
			b = bind.Value[T](names...)
		}
		x := &cli.Flag{Name: "x"}
		app := &cli.App{Name: "app", Flags: []*cli.Flag{x}, Stderr: io.Discard, Stdout: io.Discard}
		if value != nil {
			x.Value = value()
		}
		call := bind.Call(func(t T) error {
			res = bindTypeRes{"ok", bindText(t)}
			return nil
		}, b)
		if imp {
			x.Uses = call
		} else {
			app.Uses = call
		}
		if err := app.RunContext(context.Background(), []string{"app", "--x=" + v}); err != nil {
			return bindTypeRes{"err", err.Error()}
		}
		return res
	}
}

var tyCases = map[string]func(via, v string, imp bool) bindTypeRes{
	"bool":       tyCase(nil, bind.Bool),
	"string":     tyCase(nil, bind.String),
	"list":       tyCase(nil, bind.List),
	"int":        tyCase(nil, bind.Int),
	"int8":       tyCase(nil, bind.Int8),
	"int16":      tyCase(nil, bind.Int16),
	"int32":      tyCase(nil, bind.Int32),
	"int64":      tyCase(nil, bind.Int64),
	"uint":       tyCase(nil, bind.Uint),
	"uint8":      tyCase(nil, bind.Uint8),
	"uint16":     tyCase(nil, bind.Uint16),
	"uint32":     tyCase(nil, bind.Uint32),
	"uint64":     tyCase(nil, bind.Uint64),
	"float32":    tyCase(nil, bind.Float32),
	"float64":    tyCase(nil, bind.Float64),
	"duration":   tyCase[time.Duration](nil, bind.Duration),
	"file":       tyCase[*cli.File](nil, bind.File),
	"fileset":    tyCase[*cli.FileSet](nil, bind.FileSet),
	"map":        tyCase[map[string]string](nil, bind.Map),
	"namevalue":  tyCase[*cli.NameValue](nil, bind.NameValue),
	"namevalues": tyCase[[]*cli.NameValue](nil, bind.NameValues),
	"url":        tyCase[*url.URL](nil, bind.URL),
	"regexp":     tyCase[*regexp.Regexp](nil, bind.Regexp),
	"ip":         tyCase[net.IP](nil, bind.IP),
	"bigint":     tyCase[*big.Int](nil, bind.BigInt),
	"bigfloat":   tyCase[*big.Float](nil, bind.BigFloat),
	"bytes":      tyCase[[]byte](nil, bind.Bytes),
	"any":        tyCase[any](func() any { return new(string) }, bind.Interface),
}

func execBind(raw json.RawMessage) (out any) {
	s := decode[bindScen](raw)
	if s.Op == "type" {
		return tyCases[s.Ty](s.Via, s.V, s.Sub)
	}
	type final struct {
		N  string `json:"n"`
		Ty string `json:"ty"`
		V  string `json:"v"`
	}
	type result struct {
		Res   string  `json:"res"`
		Calls [][]any `json:"calls"`
		Final []final `json:"final"`
		Boxed string  `json:"boxed"`
	}
	r := &bindRec{Calls: [][]any{}}
	res := result{Final: []final{}}
	defer func() {
		if p := recover(); p != nil {
			out = map[string]any{"res": "panic", "what": fmt.Sprint(p)}
		}
	}()

	app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard}
	sub := &cli.Command{Name: "s"}
	value := map[string]func() any{}
	for _, o := range s.Opts {
		if o.Arg {
			a := &cli.Arg{Name: o.N, Value: bindNew(o.Ty), Uses: bindActions(r, o.Uses), Action: bindActions(r, o.Action)}
			value[o.N] = func() any { return a.Value }
			if s.Sub {
				sub.Args = append(sub.Args, a)
			} else {
				app.Args = append(app.Args, a)
			}
			continue
		}
		f := &cli.Flag{Name: o.N, Value: bindNew(o.Ty), Uses: bindActions(r, o.Uses), Action: bindActions(r, o.Action)}
		value[o.N] = func() any { return f.Value }
		if o.Lv == 1 {
			sub.Flags = append(sub.Flags, f)
		} else {
			app.Flags = append(app.Flags, f)
		}
	}
	args := []string{"app"}
	tokens := func(lv int, arg bool) {
		for _, t := range s.Toks {
			for _, o := range s.Opts {
				if o.N != t.O || o.Lv != lv || o.Arg != arg {
					continue
				}
				switch {
				case o.Arg:
					args = append(args, t.V)
				case t.Bare:
					args = append(args, "--"+t.O)
				default:
					args = append(args, "--"+t.O+"="+t.V)
				}
			}
		}
	}
	tokens(0, false)
	if s.Sub {
		args = append(args, "s")
		tokens(1, false)
		tokens(1, true)
		app.Commands = []*cli.Command{sub}
		sub.Uses = bindActions(r, s.Uses)
		sub.Action = bindActions(r, s.Action)
	} else {
		app.Uses = bindActions(r, s.Uses)
		app.Action = bindActions(r, s.Action)
		tokens(0, true)
	}
	if len(s.Ex.Times) > 0 {
		e := &expr.Expr{Name: "e"}
		for _, o := range s.Ex.Args {
			e.Args = append(e.Args, &cli.Arg{Name: o.N, Value: bindNew(o.Ty), NArg: 1})
		}
		if len(s.Ex.Eval) > 0 {
			a := s.Ex.Eval[0]
			e.Evaluate = bindFuncsOf(a).eval(r, a)
		}
		if len(s.Ex.Uses) > 0 {
			var us []any
			for _, a := range s.Ex.Uses {
				us = append(us, bindFuncsOf(a).eval(r, a))
			}
			e.Uses = cli.Pipeline(us...)
		}
		args = append(args, ".")
		app.Args = append(app.Args, &cli.Arg{Name: "start", NArg: cli.TakeUntilNextFlag}, &cli.Arg{Name: "expression", Value: &expr.Expression{Exprs: []*expr.Expr{e}}})
		app.Action = func(c *cli.Context) error {
			return expr.FromContext(c, "expression").Evaluate(c, "item")
		}
		for _, t := range s.Ex.Times {
			args = append(args, "-e")
			args = append(args, t...)
		}
	}
	bx := &box{}
	ctx := context.WithValue(context.Background(), boxKey{}, bx)
	err := app.RunContext(ctx, args)
	{
		switch {
		case err == nil:
			res.Res = "ok"
		case errors.Is(err, errBind):
			res.Res = "bind failed"
		case errors.Is(err, errFn):
			res.Res = "function failed"
		default:
			var pe *cli.ParseError
			if errors.As(err, &pe) || strings.HasPrefix(err.Error(), "not a valid ") || strings.HasPrefix(err.Error(), "invalid value for ") {
				res.Res = "parse"
			} else {
				res.Res = "other: " + err.Error()
			}
		}
	}
	res.Calls = r.Calls
	for _, o := range s.Opts {
		v := value[o.N]()
		if res.Res == "parse" {
			res.Final = append(res.Final, final{o.N, bindType(v), ""})
			continue
		}
		res.Final = append(res.Final, final{o.N, bindType(v), bindText(derefAny(v))})
	}
	res.Boxed = bx.String()
	return res
}

func derefAny(v any) any {
	switch x := v.(type) {
	case *int:
		return *x
	case *string:
		return *x
	case *bool:
		return *x
	case *[]string:
		return *x
	}
	return v
}

func genBind(r *rand.Rand, profile string, _ int) any {
	pick := func(xs ...string) string { return xs[r.Intn(len(xs))] }
	s := bindScen{Op: "run", Opts: []bindOpt{}, Uses: []bindAct{}, Action: []bindAct{}, Toks: []bindTok{},
		Ex: bindExpr{Args: []bindOpt{}, Uses: []bindAct{}, Eval: []bindAct{}, Times: [][]string{}}}
	s.Sub = r.Intn(4) == 0
	nf, na := 1+r.Intn(3), r.Intn(3)
	if profile == "expr" {
		s.Sub = false
		nf, na = r.Intn(2), 0
	}
	// the type that each option is going to have
	ty := map[string]string{}
	var names, argNames []string
	for i := range nf + na {
		o := bindOpt{Uses: []bindAct{}, Action: []bindAct{}}
		if i < nf {
			o.N = []string{"f", "g", "h"}[i]
			ty[o.N] = pick("int", "string", "string", "bool", "list", "box", "int")
			if s.Sub {
				o.Lv = r.Intn(2)
			}
		} else {
			o.N, o.Arg = []string{"a", "b"}[i-nf], true
			ty[o.N] = pick("int", "string", "box")
			if s.Sub {
				o.Lv = 1
			}
			argNames = append(argNames, o.N)
		}
		if r.Intn(2) == 0 {
			o.Ty = ty[o.N]
		}
		names = append(names, o.N)
		s.Opts = append(s.Opts, o)
	}
	id := 0
	text := func(t string) string {
		switch t {
		case "int":
			return pick("5", "7", "0")
		case "bool":
			return pick("true", "false")
		case "list":
			return pick("p", "p|q")
		}
		return pick("u", "v", "")
	}
	named := func(allowed ...string) string { // an option of one of the types
		for range 20 {
			n := pick(names...)
			for _, t := range allowed {
				if ty[n] == t {
					return n
				}
			}
		}
		return ""
	}
	var mk func(holder string, wide []string) bindAct
	mk = func(holder string, operands []string) bindAct {
		id++
		a := bindAct{ID: fmt.Sprint("c", id), Ps: []bindParam{}, Err: r.Intn(12) == 0}
		a.K = pick("call", "call", "action", "action", "indirect", "redirect", "bind", "bindind", "bindctx")
		cmd := holder == "" || holder == "-"
		if holder == "-" || (cmd && (a.K != "call" && a.K != "action")) {
			a.K = pick("call", "action")
		}
		if holder == "-" {
			a.K = "eval"
		}
		if a.K != "call" && a.K != "action" && a.K != "eval" {
			p := bindParam{B: "noexact", Ty: ty[holder]}
			if ty[holder] == "bool" && r.Intn(2) == 0 {
				p.B, p.Ty = "exact", pick("int", "string", "bool", "list")
				p.V = text(p.Ty)
			}
			if p.Ty == "box" {
				p.Ty = ""
			}
			if a.K == "redirect" {
				var c []string
				for _, n := range names {
					if ty[n] == p.Ty && n != holder {
						c = append(c, n)
					}
				}
				if p.B == "exact" && len(c) == 0 {
					for _, n := range names {
						if n != holder && ty[n] != "box" {
							c = append(c, n)
						}
					}
				}
				if len(c) > 0 && p.Ty != "" {
					a.N = pick(c...)
					p.Ty = ty[a.N]
					if p.B == "exact" {
						p.V = text(p.Ty)
					}
					a.Err = false
					a.Ps = append(a.Ps, p)
					return a
				}
				a.K = "call"
			} else if p.Ty != "" {
				if a.K == "indirect" || a.K == "bindind" {
					a.N = named("box")
				}
				if a.N != "" || a.K == "bind" || a.K == "bindctx" {
					a.Ps = append(a.Ps, p)
					return a
				}
				a.K = "call"
			} else {
				a.K = "call"
			}
		}
		n := 1
		if r.Intn(2) == 0 {
			n = 2 + r.Intn(2)
		}
		for i := range n {
			p := bindParam{Via: pick("typed", "value", "for")}
			types := []string{"int", "string"}
			if n == 1 {
				types = []string{"int", "string", "bool", "list", "box"}
			}
			p.B = pick("named", "named", "implicit", "implicit", "index", "exact", "const", "ctx", "fail", "noexact")
			if p.B == "fail" && r.Intn(3) > 0 {
				p.B = "implicit"
			}
			if p.B == "ctx" && n == 3 {
				p.B = "const"
			}
			ok := func(t string) bool {
				for _, x := range types {
					if x == t {
						return true
					}
				}
				return false
			}
			args := argNames
			if operands != nil {
				args = operands
			}
			switch p.B {
			case "named":
				p.N = named(types...)
				if operands != nil && r.Intn(2) == 0 {
					p.N = pick(operands...)
				}
				p.Ty = ty[p.N]
				if !ok(p.Ty) {
					p.B = "const"
				}
			case "implicit", "noexact":
				if cmd {
					if i < len(args) {
						p.Ty = ty[args[i]]
					}
				} else {
					p.Ty = ty[holder]
				}
				if !ok(p.Ty) {
					p.B = "const"
				}
			case "index":
				if len(args) > 0 && cmd {
					p.I = r.Intn(len(args))
					p.Ty = ty[args[p.I]]
				}
				if !ok(p.Ty) {
					p.B = "const"
				}
			case "ctx":
				p.Ty = "ctx"
			}
			if p.B == "exact" && (cmd && i < len(args) || !cmd && ty[holder] != "bool") {
				p.B = "const"
			}
			if p.B == "exact" || p.B == "const" || p.B == "fail" {
				p.N = ""
				p.Ty = pick(types...)
				p.V = text(p.Ty)
				if p.B == "fail" {
					p.V = ""
				}
			}
			if p.Ty == "box" && p.Via == "for" {
				p.Via = "value"
			}
			a.Ps = append(a.Ps, p)
		}
		// only these combinations with a context
		if n == 2 && a.Ps[0].Ty == "ctx" && a.Ps[1].Ty == "ctx" {
			a.Ps = a.Ps[:1]
		}
		return a
	}
	acts := func(holder string) []bindAct {
		out := []bindAct{}
		for r.Intn(5) < 2 && len(out) < 2 {
			out = append(out, mk(holder, nil))
		}
		return out
	}
	for i := range s.Opts {
		s.Opts[i].Uses = acts(s.Opts[i].N)
		s.Opts[i].Action = acts(s.Opts[i].N)
	}
	if profile == "expr" {
		var operands []string
		for i := range 1 + r.Intn(2) {
			o := bindOpt{N: []string{"x", "y"}[i], Arg: true, Uses: []bindAct{}, Action: []bindAct{}}
			ty[o.N] = pick("int", "string")
			if r.Intn(2) == 0 {
				o.Ty = ty[o.N]
			}
			operands = append(operands, o.N)
			s.Ex.Args = append(s.Ex.Args, o)
		}
		if len(names) == 0 {
			names = operands
		}
		if r.Intn(2) == 0 {
			s.Ex.Uses = append(s.Ex.Uses, mk("-", operands))
		} else {
			s.Ex.Eval = append(s.Ex.Eval, mk("-", operands))
		}
		for range 1 + r.Intn(2) {
			t := []string{}
			for _, o := range operands {
				v := text(ty[o])
				if v == "" {
					v = "w"
				}
				t = append(t, v)
			}
			s.Ex.Times = append(s.Ex.Times, t)
		}
	} else {
		s.Uses = acts("")
		s.Action = acts("")
	}
	for _, o := range s.Opts {
		if r.Intn(4) == 0 && !o.Arg {
			continue
		}
		if o.Arg && r.Intn(4) == 0 {
			break
		}
		t := bindTok{O: o.N, V: text(ty[o.N])}
		if r.Intn(15) == 0 {
			t.V = pick("5", "u", "true")
		}
		if o.Arg && t.V == "" {
			t.V = "w"
		}
		t.V = strings.ReplaceAll(t.V, "|", ",")
		if ty[o.N] == "bool" && r.Intn(2) == 0 {
			t.Bare, t.V = true, ""
		}
		s.Toks = append(s.Toks, t)
	}
	r.Shuffle(len(s.Toks), func(i, j int) {
		if s.Toks[i].O > "b" && s.Toks[j].O > "b" {
			s.Toks[i], s.Toks[j] = s.Toks[j], s.Toks[i]
		}
	})
	return s
}
