package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"maps"
	"math/rand"
	"slices"
	"sort"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/provider"
	"github.com/Carbonfrost/joe-cli/extensions/structure"
)

// Providers, registries and their arguments.

type provDef struct {
	Name string      `json:"name"`
	Defs [][2]string `json:"defs"`
	Kind string      `json:"kind"` // func fail value
}

type provTok struct {
	F     string      `json:"f"` // p a l
	Name  string      `json:"name"`
	Items [][2]string `json:"items"`
}

type provCall struct {
	Name string      `json:"name"`
	Opts [][2]string `json:"opts"`
}

type provScen struct {
	Op     string      `json:"op"` // app new fac
	Provs  []provDef   `json:"provs"`
	Allow  bool        `json:"allow"`
	Reg    string      `json:"reg"`   // app sub flag none other
	Home   string      `json:"home"`  // app sub: where the flags are
	Run    string      `json:"run"`   // app sub
	El     string      `json:"el"`    // flag arg
	Aux    string      `json:"aux"`   // set acc
	Order  []string    `json:"order"` // p a l
	Split  bool        `json:"split"`
	Preset string      `json:"preset"`
	Toks   []provTok   `json:"toks"`
	Calls  []provCall  `json:"calls"`
	Sig    string      `json:"sig"`
	Strict bool        `json:"strict"`
	Opts   [][2]string `json:"opts"`
}

func init() {
	areas["prov"] = area{gen: genProv, exec: execProv}
}

func pairsOf(m map[string]string) [][2]string {
	out := [][2]string{}
	for _, k := range slices.Sorted(maps.Keys(m)) {
		out = append(out, [2]string{k, m[k]})
	}
	return out
}

func mapOf(p [][2]string) map[string]string {
	m := map[string]string{}
	for _, x := range p {
		m[x[0]] = x[1]
	}
	return m
}

func mapText(p [][2]string) string {
	var b []string
	for _, x := range p {
		b = append(b, x[0]+"="+x[1])
	}
	return strings.Join(b, ",")
}

var errProv = errors.New("factory failed")

func (s provScen) lookup(calls *int) provider.Lookup {
	d := provider.Details{}
	for _, p := range s.Provs {
		det := provider.Detail{Defaults: mapOf(p.Defs)}
		switch p.Kind {
		case "value":
			det.Value = "value of " + p.Name
			det.Defaults = nil
		case "fail":
			det.Factory = func(opts map[string]string) (any, error) {
				*calls++
				return nil, errProv
			}
		default:
			det.Factory = func(opts map[string]string) (any, error) {
				*calls++
				made := p.Name + ":" + mapText(pairsOf(opts))
				opts["changed"] = "yes" // by the factory
				return made, nil
			}
		}
		d[p.Name] = det
	}
	return d
}

func made(v any, err error) string {
	switch {
	case errors.Is(err, errProv):
		return "failed"
	case err != nil && strings.HasPrefix(err.Error(), "provider not found"):
		return "not found"
	case err != nil:
		return "other: " + err.Error()
	}
	return fmt.Sprint(v)
}

type provOpts struct {
	A, B string
	N    int
}

func execProv(raw json.RawMessage) any {
	s := decode[provScen](raw)
	calls := 0
	switch s.Op {
	case "new":
		reg := &provider.Registry{Name: "p", Providers: s.lookup(&calls)}
		res := []string{}
		for _, c := range s.Calls {
			opts := mapOf(c.Opts)
			if len(c.Opts) == 0 {
				opts = nil
			}
			r := made(reg.New(c.Name, opts))
			if opts != nil && mapText(pairsOf(opts)) != mapText(pairsOf(mapOf(c.Opts))) {
				r += " and options changed"
			}
			res = append(res, r)
		}
		names := reg.ProviderNames()
		sort.Strings(names)
		return obj{"res": res, "names": names, "calls": calls}

	case "fac":
		var (
			got    string
			called int
			fn     any
		)
		show := func(o provOpts) string {
			called++
			return fmt.Sprintf("%s/%s/%d", o.A, o.B, o.N)
		}
		switch s.Sig {
		case "one":
			fn = func(o provOpts) any { return show(o) }
		case "two":
			fn = func(o provOpts) (any, error) { return show(o), nil }
		case "err":
			fn = func(o provOpts) (any, error) { return show(o), errProv }
		case "string":
			fn = func(o provOpts) string { return show(o) }
		case "map":
			fn = func(o map[string]string) (any, error) { called++; return mapText(pairsOf(o)), nil }
		}
		var opts []structure.DecoderOption
		if s.Strict {
			opts = append(opts, structure.ErrorUnused)
		}
		m := mapOf(s.Opts)
		if len(s.Opts) == 0 {
			m = nil
		}
		v, err := provider.Factory(fn, opts...)(m)
		switch {
		case errors.Is(err, errProv):
			got = "failed " + fmt.Sprint(v)
		case err != nil:
			got = "invalid"
		default:
			got = fmt.Sprint(v)
		}
		return obj{"res": got, "calls": called}
	}

	value := &provider.Value{Name: s.Preset}
	var (
		ran, result = false, ""
		stdout      bytes.Buffer
		flags       []*cli.Flag
		args        []*cli.Arg
	)
	regName := "p"
	if s.Reg == "other" {
		regName = "q"
	}
	reg := &provider.Registry{Name: regName, AllowUnknown: s.Allow, Providers: s.lookup(&calls)}
	var uses cli.ActionPipeline
	if s.Reg == "flag" {
		uses = append(uses, reg)
	}
	var opts cli.Option
	if s.Split {
		opts = cli.DisableSplitting
	}
	if s.Aux == "acc" {
		uses = append(uses, cli.Accessory("-", (*provider.Value).ArgumentFlag))
	}
	for _, o := range s.Order {
		switch o {
		case "p":
			if s.El == "arg" {
				args = append(args, &cli.Arg{Name: "p", Value: value, Uses: uses, Options: opts})
			} else {
				flags = append(flags, &cli.Flag{Name: "p", Value: value, Uses: uses, Options: opts})
			}
		case "a":
			if s.Aux == "set" {
				flags = append(flags, &cli.Flag{Uses: provider.SetArgument("p")})
			}
		case "l":
			flags = append(flags, &cli.Flag{Uses: provider.ListProviders("p")})
		}
	}
	action := func() {
		ran = true
		opts := map[string]string{}
		if m, ok := value.Args.(*map[string]string); ok {
			opts = *m
		}
		result = made(reg.New(value.Name, opts))
	}
	sub := &cli.Command{Name: "sub"}
	app := &cli.App{Name: "app", Commands: []*cli.Command{sub}, Stdout: &stdout, Stderr: io.Discard}
	switch s.Home {
	case "app":
		app.Flags, app.Args = flags, args
	case "sub":
		sub.Flags, sub.Args = flags, args
	}
	switch s.Reg {
	case "app", "other":
		app.Uses = reg
	case "sub":
		sub.Uses = reg
	}
	app.Action, sub.Action = action, action
	argv := []string{"app"}
	if s.Run == "sub" {
		argv = append(argv, "sub")
	}
	named := false
	for _, t := range s.Toks {
		var items []string
		for _, x := range t.Items {
			v := x[1]
			if !s.Split {
				v = strings.ReplaceAll(v, ",", `\,`)
			}
			items = append(items, x[0]+"="+v)
		}
		switch t.F {
		case "p":
			text := strings.Join(items, ",")
			if !named {
				text = t.Name
				if len(items) > 0 {
					text += "," + strings.Join(items, ",")
				}
			}
			named = true
			if s.El == "arg" {
				argv = append(argv, text)
			} else {
				argv = append(argv, "--p", text)
			}
		case "a":
			argv = append(argv, "--p-arg", strings.Join(items, ","))
		case "l":
			argv = append(argv, "--list-p")
		}
	}
	err := app.RunContext(context.Background(), argv)
	res := "ok"
	if err != nil {
		var ee cli.ExitCoder
		switch m := err.Error(); {
		case errors.As(err, &ee) && ee.ExitCode() == 0:
			res = "exit 0"
		case strings.HasPrefix(m, "unknown argument "):
			res = "unknown argument"
		case strings.HasPrefix(m, "unknown "):
			res = m
		default:
			res = "other: " + m
		}
	}
	got := [][2]string{}
	if m, ok := value.Args.(*map[string]string); ok {
		got = pairsOf(*m)
	}
	list := []string{}
	if stdout.Len() > 0 {
		list = strings.Split(strings.TrimSuffix(stdout.String(), "\n"), "\n")
	}
	return obj{"res": res, "ran": ran, "made": result, "name": value.Name, "args": got, "str": value.String(), "list": list, "calls": calls}
}

func genProv(r *rand.Rand, profile string, i int) any {
	s := provScen{Op: "app", Provs: []provDef{}, Reg: "none", Home: "app", Run: "app", El: "flag", Aux: "set",
		Order: []string{"p", "a", "l"}, Toks: []provTok{}, Calls: []provCall{}, Opts: [][2]string{}}
	keys := []string{"a", "b", "n", "zz"}
	vals := []string{"1", "x", "", "a b", "yes"}
	items := func(max int, keys []string, vals []string) [][2]string {
		out := [][2]string{}
		for n := r.Intn(max + 1); n > 0; n-- {
			out = append(out, [2]string{pick(r, keys), pick(r, vals)})
		}
		return out
	}
	uniq := func(p [][2]string) [][2]string { return pairsOf(mapOf(p)) }
	for _, n := range []string{"csv", "json", "raw"} {
		if chance(r, 70) {
			p := provDef{Name: n, Defs: uniq(items(3, keys[:3], vals)), Kind: pick(r, []string{"func", "func", "func", "fail", "value"})}
			if p.Kind == "value" {
				p.Defs = [][2]string{}
			}
			s.Provs = append(s.Provs, p)
		}
	}
	names := []string{"csv", "json", "raw", "csv", "json", "other"}
	switch {
	case profile == "new" || profile == "" && chance(r, 15):
		s.Op = "new"
		for n := 1 + r.Intn(4); n > 0; n-- {
			s.Calls = append(s.Calls, provCall{Name: pick(r, names), Opts: uniq(items(3, append(keys, "changed"), vals))})
		}
		return s
	case profile == "fac" || profile == "" && chance(r, 15):
		s.Op, s.Provs = "fac", []provDef{}
		s.Sig = pick(r, []string{"one", "two", "err", "string", "map"})
		s.Strict = s.Sig != "map" && chance(r, 30)
		s.Opts = uniq(items(4, []string{"A", "B", "b", "N", "Extra"}, []string{"1", "23", "x", "a b"}))
		m := mapOf(s.Opts)
		if s.Strict {
			delete(m, "N") // these options take the place of the usual conversions
			s.Opts = pairsOf(m)
		}
		if _, ok := m["B"]; ok {
			delete(m, "b") // the same field
			s.Opts = pairsOf(m)
		}
		return s
	}
	s.Allow = chance(r, 15)
	s.Home = pick(r, []string{"app", "app", "sub"})
	s.Run = s.Home
	if s.Home == "app" && chance(r, 30) {
		s.Run = "sub"
	}
	s.Reg = pick(r, []string{"app", "app", "flag", "none", "other", s.Home})
	s.Split = chance(r, 15)
	if chance(r, 15) {
		s.Preset = pick(r, names)
	}
	if chance(r, 20) && s.Home == s.Run && (s.Home == "sub") {
		s.El = "arg"
	}
	switch pick(r, []string{"set", "acc", "set"}) {
	case "acc":
		s.Aux = "acc"
		s.Order = pick(r, [][]string{{"p", "l", "a"}, {"l", "p", "a"}})
	default:
		r.Shuffle(3, func(i, j int) { s.Order[i], s.Order[j] = s.Order[j], s.Order[i] })
	}
	ks := append(keys, keys[:3]...)
	for n := r.Intn(5); n > 0; n-- {
		t := provTok{F: pick(r, []string{"p", "p", "a", "a", "l"}), Items: items(2, ks, vals)}
		if chance(r, 10) && len(t.Items) > 0 {
			t.Items[0][1] = pick(r, []string{"1,2", "x,b=3"})
		}
		seen := false
		for _, x := range s.Toks {
			seen = seen || x.F == t.F
		}
		switch t.F {
		case "p":
			if seen && s.El == "arg" {
				continue
			}
			t.Name = pick(r, names)
			if seen && len(t.Items) == 0 {
				continue
			}
		case "a":
			if len(t.Items) == 0 {
				continue
			}
		case "l":
			if chance(r, 60) || seen {
				continue
			}
			t.Items = [][2]string{}
		}
		s.Toks = append(s.Toks, t)
	}
	if s.El == "arg" && chance(r, 90) { // the arg comes last
		var rest, last []provTok
		for _, t := range s.Toks {
			if t.F == "p" {
				last = append(last, t)
			} else {
				rest = append(rest, t)
			}
		}
		s.Toks = append(rest, last...)
	}
	if s.Toks == nil {
		s.Toks = []provTok{}
	}
	used := slices.ContainsFunc(s.Toks, func(t provTok) bool { return t.F == "p" })
	s.Split = s.Split && used
	return s
}
