package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"maps"
	"math/rand"
	"os"
	"slices"
	"strings"
	"testing/fstest"

	cli "github.com/Carbonfrost/joe-cli"
)

// What describes an element: its names, texts, metadata, environment variables...;
// set by its definition, prototypes, setters, customization and accessories.

type metaFields struct {
	Name string      `json:"name"`
	Help string      `json:"help"`
	Cat  string      `json:"cat"`
	Man  string      `json:"man"`
	Use  string      `json:"use"`
	Desc string      `json:"desc"`
	Def  string      `json:"def"`
	Data [][2]string `json:"data"`
	Al   []string    `json:"al"`
	Env  []string    `json:"env"`
	File string      `json:"file"`
	Hid  bool        `json:"hid"`
	Val  string      `json:"val"` // "" int bool string
	Comp string      `json:"comp"`
	Narg int         `json:"narg"`
}

type metaStep struct {
	K   string     `json:"k"`   // proto help cat man use desc name data undata alias unalias fsetup asetup csetup prevent
	At  string     `json:"at"`  // cust uses before
	Pat string     `json:"pat"` // for cust: name or *
	V   string     `json:"v"`
	Key string     `json:"key"`
	F   metaFields `json:"f"`
	Su  string     `json:"su"` // proto: data set by its Setup
}

type metaAcc struct {
	Name  string `json:"name"` // "" - other
	Fn    bool   `json:"fn"`   // has a prototype
	Pname string `json:"pname"`
	Pcat  string `json:"pcat"`
	Extra string `json:"extra"` // "" name cat
	Late  bool   `json:"late"`
}

type metaScen struct {
	Op    string      `json:"op"` // el acc
	El    string      `json:"el"` // flag arg cmd value
	Home  string      `json:"home"`
	Init  metaFields  `json:"init"`
	Steps []metaStep  `json:"steps"`
	Prev  string      `json:"prev"`  // "" own parent: option PreventSetup
	Pdata [][2]string `json:"pdata"` // of the app
	Hdata [][2]string `json:"hdata"` // of the command the element is in, when it's not the app
	Accs  []metaAcc   `json:"accs"`
}

type metaObs struct {
	Res    string     `json:"res"`
	F      metaFields `json:"f"`
	Same   bool       `json:"same"`   // the context of the element says the same
	Usable []string   `json:"usable"` // names it can be used by
	Envval string     `json:"envval"` // value from the environment
	Look   []string   `json:"look"`   // LookupData
	Cmd    []string   `json:"cmd"`    // what CommandSetup did, in order
	Flags  []metaFlag `json:"flags"`
}

type metaFlag struct {
	Name string `json:"name"`
	Cat  string `json:"cat"`
	Dep  string `json:"dep"`
	Use  bool   `json:"use"` // the flag can be used on the command line
	Val  bool   `json:"val"` // the function was given the value of the element
}

func init() {
	areas["meta"] = area{gen: genMeta, exec: execMeta}
	for k, v := range map[string]string{"JOE_META_E1": "11", "JOE_META_E2": "22", "JOE_META_E3": "33"} {
		os.Setenv(k, v)
	}
}

type metaComp string

func (metaComp) Complete(context.Context) []cli.CompletionItem { return nil }

func compName(c cli.Completion) string {
	if m, ok := c.(metaComp); ok {
		return string(m)
	}
	return ""
}

var metaNames = []string{"f", "nn", "pn", "a1", "a2", "a3", "q", "a1x"}
var metaKeys = []string{"k1", "k2", "k3", "k4"}

func metaVal(s string) any {
	switch s {
	case "int":
		return new(int)
	case "bool":
		return new(bool)
	case "string":
		return new(string)
	}
	return nil
}

func metaComplete(s string) cli.Completion {
	if s == "" {
		return nil
	}
	return metaComp(s)
}

func metaAny(s string) any {
	if s == "" {
		return nil
	}
	return s
}

func metaEnv(ss []string) []string {
	var out []string
	for _, s := range ss {
		out = append(out, "JOE_META_"+s)
	}
	return out
}

func metaData(d [][2]string) map[string]any {
	if len(d) == 0 {
		return nil
	}
	m := map[string]any{}
	for _, p := range d {
		m[p[0]] = p[1]
	}
	return m
}

func metaNarg(n int) any {
	if n == 0 {
		return nil
	}
	return n
}

func (f metaFields) proto() cli.Prototype {
	p := cli.Prototype{Name: f.Name, HelpText: f.Help, Category: f.Cat, ManualText: f.Man, UsageText: f.Use, DefaultText: f.Def,
		Description: metaAny(f.Desc), Data: metaData(f.Data), Aliases: slices.Clone(f.Al), EnvVars: metaEnv(f.Env), FilePath: f.File,
		Value: metaVal(f.Val), Completion: metaComplete(f.Comp), NArg: metaNarg(f.Narg)}
	if f.Hid {
		p.Options = cli.Hidden
	}
	return p
}

// metaValue is a value that can be described.
type metaValue struct{ f metaFields }

func (v *metaValue) SetName(s string)        { v.f.Name = s }
func (v *metaValue) SetHelpText(s string)    { v.f.Help = s }
func (v *metaValue) SetCategory(s string)    { v.f.Cat = s }
func (v *metaValue) SetManualText(s string)  { v.f.Man = s }
func (v *metaValue) SetUsageText(s string)   { v.f.Use = s }
func (v *metaValue) SetDescription(s string) { v.f.Desc = s }
func (v *metaValue) SetDefaultText(s string) { v.f.Def = s }
func (v *metaValue) SetAliases(s []string)   { v.f.Al = slices.Clone(s) }
func (v *metaValue) SetHidden(b bool)        { v.f.Hid = b }
func (v *metaValue) SetData(k string, d any) {
	v.f.Data = slices.DeleteFunc(v.f.Data, func(p [2]string) bool { return p[0] == k })
	if d != nil {
		v.f.Data = append(v.f.Data, [2]string{k, fmt.Sprint(d)})
	}
}

func anyPairs(m map[string]any) [][2]string {
	out := [][2]string{}
	for _, k := range slices.Sorted(maps.Keys(m)) {
		if slices.Contains(metaKeys, k) || k == "su" {
			out = append(out, [2]string{k, fmt.Sprint(m[k])})
		}
	}
	return out
}

func descText(v any) string {
	if v == nil {
		return ""
	}
	return fmt.Sprint(v)
}

func stripEnv(ss []string) []string {
	out := []string{}
	for _, s := range ss {
		out = append(out, strings.TrimPrefix(s, "JOE_META_"))
	}
	return out
}

func typeName(v any) string {
	return strings.TrimPrefix(fmt.Sprintf("%T", v), "*")
}

func (s metaScen) action(st metaStep, cmds *[]string) cli.Action {
	switch st.K {
	case "proto":
		p := st.F.proto()
		if st.Su != "" {
			p.Setup.Uses = cli.Data("su", st.Su)
		}
		return p
	case "help":
		return cli.HelpText(st.V)
	case "cat":
		return cli.Category(st.V)
	case "man":
		return cli.ManualText(st.V)
	case "use":
		return cli.UsageText(st.V)
	case "desc":
		return cli.Description(st.V)
	case "name":
		return cli.Named(st.V)
	case "data":
		return cli.Data(st.Key, st.V)
	case "undata":
		return cli.Data(st.Key, nil)
	case "alias":
		if st.Key == "add" {
			return cli.AddAlias(st.V)
		}
		return cli.Alias(st.V, st.V+"x")
	case "unalias":
		return cli.RemoveAlias(st.V)
	case "fsetup":
		return cli.FlagSetup(func(f *cli.Flag) { f.HelpText = st.V })
	case "asetup":
		return cli.ArgSetup(func(f *cli.Arg) { f.HelpText = st.V })
	case "csetup":
		return cli.CommandSetup(func(c *cli.Command) { *cmds = append(*cmds, c.Name+"="+st.V) })
	case "prevent":
		return cli.PreventSetup
	case "touch":
		return cli.ActionFunc(func(c *cli.Context) error {
			c.Value("")
			return nil
		})
	}
	panic("bad step " + st.K)
}

// build makes the app; get tells how the element is now described.
func (s metaScen) build(cmds *[]string) (app *cli.App, get func() metaFields, capture *func(*cli.Context)) {
	capture = new(func(*cli.Context))
	app = &cli.App{Name: "app", Data: metaData(s.Pdata), Stdout: &bytes.Buffer{}, Stderr: &bytes.Buffer{}, FS: fstest.MapFS{}}
	var uses, before, cust []cli.Action
	for _, st := range s.Steps {
		a := s.action(st, cmds)
		switch st.At {
		case "uses":
			uses = append(uses, a)
		case "before":
			before = append(before, a)
		case "cust":
			pat := "*"
			switch {
			case st.Pat == "*":
				pat = map[string]string{"flag": "-", "arg": "<>", "cmd": "*", "value": "<-v>"}[s.El]
			case s.El == "flag" && len(st.Pat) == 1:
				pat = "-" + st.Pat
			case s.El == "flag":
				pat = "--" + st.Pat
			case s.El == "arg":
				pat = "<" + st.Pat + ">"
			default:
				pat = st.Pat
			}
			cust = append(cust, cli.Customize(pat, a))
		}
	}
	before = append(before, cli.ActionFunc(func(c *cli.Context) error {
		if *capture != nil {
			(*capture)(c)
		}
		return nil
	}))
	opts := cli.Option(0)
	if s.Prev == "own" {
		opts |= cli.PreventSetup
	}
	if s.Init.Hid {
		opts |= cli.Hidden
	}
	f := s.Init
	seq := func(a []cli.Action) cli.Action { return cli.ActionPipeline(a) }
	sub := &cli.Command{Name: "s", Data: metaData(s.Hdata)}
	add := func(fl []*cli.Flag, ar []*cli.Arg, co []*cli.Command) {
		if s.Home == "sub" {
			sub.Flags, sub.Args, sub.Subcommands = fl, ar, co
		} else {
			app.Flags, app.Args, app.Commands = fl, ar, co
		}
	}
	switch s.El {
	case "flag":
		e := &cli.Flag{Name: f.Name, HelpText: f.Help, Category: f.Cat, ManualText: f.Man, UsageText: f.Use, DefaultText: f.Def,
			Description: metaAny(f.Desc), Data: metaData(f.Data), Aliases: slices.Clone(f.Al), EnvVars: metaEnv(f.Env), FilePath: f.File,
			Value: metaVal(f.Val), Completion: metaComplete(f.Comp), Options: opts, Uses: seq(uses), Before: seq(before)}
		add([]*cli.Flag{e}, nil, nil)
		get = func() metaFields {
			return metaFields{Name: e.Name, Help: e.HelpText, Cat: e.Category, Man: e.ManualText, Use: e.UsageText, Def: e.DefaultText,
				Desc: descText(e.Description), Data: anyPairs(e.Data), Al: strs(e.Aliases), Env: stripEnv(e.EnvVars), File: e.FilePath,
				Hid: e.Options&cli.Hidden != 0, Val: typeName(e.Value), Comp: compName(e.Completion)}
		}
	case "arg":
		e := &cli.Arg{Name: f.Name, HelpText: f.Help, Category: f.Cat, ManualText: f.Man, UsageText: f.Use, DefaultText: f.Def,
			Description: metaAny(f.Desc), Data: metaData(f.Data), EnvVars: metaEnv(f.Env), FilePath: f.File, NArg: metaNarg(f.Narg),
			Value: metaVal(f.Val), Completion: metaComplete(f.Comp), Options: opts, Uses: seq(uses), Before: seq(before)}
		add(nil, []*cli.Arg{e}, nil)
		get = func() metaFields {
			n, _ := e.NArg.(int)
			return metaFields{Name: e.Name, Help: e.HelpText, Cat: e.Category, Man: e.ManualText, Use: e.UsageText, Def: e.DefaultText,
				Desc: descText(e.Description), Data: anyPairs(e.Data), Al: []string{}, Env: stripEnv(e.EnvVars), File: e.FilePath,
				Hid: e.Options&cli.Hidden != 0, Val: typeName(e.Value), Comp: compName(e.Completion), Narg: n}
		}
	case "cmd":
		e := &cli.Command{Name: f.Name, HelpText: f.Help, Category: f.Cat, ManualText: f.Man, UsageText: f.Use,
			Description: metaAny(f.Desc), Data: metaData(f.Data), Aliases: slices.Clone(f.Al),
			Completion: metaComplete(f.Comp), Options: opts, Uses: seq(uses), Before: seq(before)}
		add(nil, nil, []*cli.Command{e})
		get = func() metaFields {
			return metaFields{Name: e.Name, Help: e.HelpText, Cat: e.Category, Man: e.ManualText, Use: e.UsageText,
				Desc: descText(e.Description), Data: anyPairs(e.Data), Al: strs(e.Aliases), Env: []string{},
				Hid: e.Options&cli.Hidden != 0, Comp: compName(e.Completion)}
		}
	case "value":
		v := &metaValue{}
		e := &cli.Arg{Name: "f", Uses: cli.ProvideValueInitializer(v, "v", uses...), Before: before[len(before)-1]}
		add(nil, []*cli.Arg{e}, nil)
		get = func() metaFields {
			g := v.f
			m := map[string]any{}
			for _, p := range g.Data {
				m[p[0]] = p[1]
			}
			g.Data, g.Al, g.Env = anyPairs(m), strs(g.Al), []string{}
			return g
		}
	}
	if s.Home == "sub" {
		app.Commands = append(app.Commands, sub)
	}
	if s.Prev == "parent" {
		app.Options |= cli.PreventSetup
	}
	app.Uses = cli.ActionPipeline(cust)
	return
}

func execMeta(raw json.RawMessage) any {
	s := decode[metaScen](raw)
	if s.Op == "acc" {
		return execMetaAcc(s)
	}
	obs := metaObs{F: metaFields{Data: [][2]string{}, Al: []string{}, Env: []string{}}, Same: true, Usable: []string{}, Look: []string{}, Cmd: []string{}, Flags: []metaFlag{}}
	ctx := context.Background()
	line := func(more ...string) []string {
		l := []string{"app"}
		if s.Home == "sub" {
			l = append(l, "s")
		}
		return append(l, more...)
	}
	app, get, capture := s.build(&obs.Cmd)
	_, err := app.Initialize(ctx)
	obs.Res = errClass(err)
	if err != nil {
		obs.Cmd = []string{}
		return obs
	}
	name := get().Name
	var val any
	*capture = func(c *cli.Context) {
		for _, k := range metaKeys {
			v, ok := c.LookupData(k)
			if !ok {
				v = "none"
			}
			obs.Look = append(obs.Look, fmt.Sprint(v))
		}
		if s.El == "value" {
			return
		}
		g := get()
		al := []string{}
		if c.Aliases() != nil {
			al = c.Aliases()
		}
		obs.Same = c.HelpText() == g.Help && c.Category() == g.Cat && c.ManualText() == g.Man && c.UsageText() == g.Use &&
			descText(c.Description()) == g.Desc && slices.Equal(al, g.Al) && slices.Equal(anyPairs(c.Data()), g.Data)
		if s.El != "cmd" {
			val = c.Value("")
		}
	}
	cmds := obs.Cmd
	var args []string
	if s.El == "cmd" {
		args = line(name)
	} else {
		args = line()
	}
	app, get, capture2 := s.build(&[]string{})
	*capture2 = *capture
	err = app.RunContext(ctx, args)
	obs.Res = errClass(err)
	obs.Cmd = strs(cmds)
	obs.F = get()
	if val != nil {
		obs.Envval = fmt.Sprint(val)
	}
	if s.El == "flag" || s.El == "cmd" {
		for _, n := range metaNames {
			app, get, cap := s.build(&[]string{})
			used := false
			*cap = func(c *cli.Context) {
				used = s.El == "cmd" || c.Occurrences("") == 1
			}
			_ = get
			if s.El == "cmd" {
				args = line(n)
			} else {
				dash := "--"
				if len(n) == 1 {
					dash = "-"
				}
				args = line(dash + n)
				if obs.F.Val != "bool" {
					args = append(args, "7")
				}
			}
			if app.RunContext(ctx, args) == nil && used {
				obs.Usable = append(obs.Usable, n)
			}
		}
	}
	return obs
}

func execMetaAcc(s metaScen) any {
	obs := metaObs{F: metaFields{Data: [][2]string{}, Al: []string{}, Env: []string{}}, Same: true, Usable: []string{}, Look: []string{}, Cmd: []string{}, Flags: []metaFlag{}}
	build := func(given *[]bool, used *string) *cli.App {
		app := &cli.App{Name: "app", Stdout: &bytes.Buffer{}, Stderr: &bytes.Buffer{}, FS: fstest.MapFS{}}
		sub := &cli.Command{Name: "s"}
		value := new(cli.FileSet)
		var uses, before []cli.Action
		for i, a := range s.Accs {
			*given = append(*given, !a.Fn)
			var more []cli.Action
			switch a.Extra {
			case "name":
				more = append(more, cli.Named("xn"))
			case "cat":
				more = append(more, cli.Category("xc"))
			}
			more = append(more, cli.At(cli.ActionTiming, cli.ActionFunc(func(c *cli.Context) error {
				*used += c.Name()
				return nil
			})))
			var act cli.Action
			if a.Fn {
				act = cli.Accessory(a.Name, func(v *cli.FileSet) cli.Prototype {
					(*given)[i] = v == value
					return cli.Prototype{Name: a.Pname, Category: a.Pcat, Value: new(string)}
				}, more...)
			} else {
				act = cli.Accessory0(a.Name, more...)
			}
			if a.Late {
				before = append(before, act)
			} else {
				uses = append(uses, act)
			}
		}
		var fl []*cli.Flag
		var ar []*cli.Arg
		if s.El == "flag" {
			fl = []*cli.Flag{{Name: s.Init.Name, Category: s.Init.Cat, Value: value, Uses: cli.ActionPipeline(uses), Before: cli.ActionPipeline(before)}}
		} else {
			ar = []*cli.Arg{{Name: s.Init.Name, Category: s.Init.Cat, Value: value, NArg: cli.OptionalArg(func(string) bool { return true }), Uses: cli.ActionPipeline(uses), Before: cli.ActionPipeline(before)}}
		}
		if s.Home == "sub" {
			sub.Flags, sub.Args = fl, ar
			app.Commands = []*cli.Command{sub}
		} else {
			app.Flags, app.Args = fl, ar
		}
		return app
	}
	line := []string{"app"}
	if s.Home == "sub" {
		line = append(line, "s")
	}
	var given []bool
	var used string
	app := build(&given, &used)
	var flags []*cli.Flag
	find := cli.ActionFunc(func(c *cli.Context) error {
		cmd, _ := app.Command("")
		if s.Home == "sub" {
			cmd, _ = cmd.Command("s")
		}
		for _, f := range cmd.Flags {
			if f.Name != s.Init.Name && f.Data["DependentFlag"] != nil {
				flags = append(flags, f)
			}
		}
		return nil
	})
	app.After = find
	err := app.RunContext(context.Background(), line)
	obs.Res = errClass(err)
	if err != nil {
		return obs
	}
	for i, f := range flags {
		m := metaFlag{Name: f.Name, Cat: f.Category, Dep: fmt.Sprint(f.Data["DependentFlag"])}
		if i < len(given) {
			m.Val = given[i]
		}
		var g []bool
		var u string
		dash := "--"
		if len(f.Name) == 1 {
			dash = "-"
		}
		a := build(&g, &u)
		if a.RunContext(context.Background(), append(slices.Clone(line), dash+f.Name, "x")) == nil && u == dash+f.Name {
			m.Use = true
		}
		obs.Flags = append(obs.Flags, m)
	}
	return obs
}

// --- random scenarios

func genMetaFields(r *rand.Rand, tag string, el string, density int) metaFields {
	t := func(s string) string {
		if chance(r, density) {
			return s + tag
		}
		return ""
	}
	f := metaFields{Help: t("h"), Cat: t("c"), Man: t("m"), Use: t("u"), Desc: t("d"), Def: t("t"), Data: [][2]string{}, Al: []string{}, Env: []string{}, Comp: t("comp")}
	if chance(r, density) {
		f.Al = pick(r, [][]string{{"a1"}, {"a1", "a2"}, {"a3"}, {"a2"}})
	}
	if chance(r, density) {
		f.Env = pick(r, [][]string{{"E1"}, {"E2", "E1"}, {"E0", "E3"}, {"E0"}})
	}
	f.File = t("file")
	f.Hid = chance(r, density/3)
	if chance(r, density/2) {
		f.Val = pick(r, []string{"int", "bool", "string"})
	}
	if chance(r, density/3) {
		f.Narg = pick(r, []int{-1, -2})
	}
	if el == "flag" {
		f.Narg = 0
	}
	if el == "cmd" {
		f.Def = ""
	}
	if el == "cmd" || el == "value" {
		f.Env, f.File, f.Val, f.Narg = []string{}, "", "", 0
	}
	return f
}

func genMeta(r *rand.Rand, profile string, _ int) any {
	s := metaScen{Op: "el", El: pick(r, []string{"flag", "flag", "arg", "cmd", "value"}), Home: pick(r, []string{"app", "app", "sub"}),
		Steps: []metaStep{}, Pdata: [][2]string{}, Hdata: [][2]string{}, Accs: []metaAcc{}}
	s.Init = metaFields{Data: [][2]string{}, Al: []string{}, Env: []string{}}
	if profile == "acc" {
		s.Op, s.El = "acc", pick(r, []string{"flag", "arg"})
		s.Init.Name = pick(r, []string{"files", "f", "in-put"})
		s.Init.Cat = pick(r, []string{"", "C"})
		for n := 1 + r.Intn(2); n > 0; n-- {
			a := metaAcc{Name: pick(r, []string{"", "-", "given", "g"}), Fn: chance(r, 60), Extra: pick(r, []string{"", "", "name", "cat"}), Late: chance(r, 5)}
			if a.Fn {
				a.Pname, a.Pcat = pick(r, []string{"", "rec", "r"}), pick(r, []string{"", "P"})
			}
			if a.Name == "-" && a.Pname == "" {
				a.Extra = "name"
			}
			s.Accs = append(s.Accs, a)
		}
		return s
	}
	names := []string{"f", "f", "f", "nn", ""}
	if s.El == "cmd" {
		names = names[:4]
	}
	s.Init = genMetaFields(r, "0", s.El, 30)
	s.Init.Name = pick(r, names)
	if s.El == "value" {
		s.Init = metaFields{Data: [][2]string{}, Al: []string{}, Env: []string{}}
	}
	if s.El == "arg" {
		s.Init.Al = []string{}
	}
	if s.El != "value" && chance(r, 40) {
		s.Init.Data = [][2]string{{"k1", "i"}}
	}
	if chance(r, 30) {
		s.Pdata = [][2]string{{pick(r, []string{"k1", "k2", "k4"}), "up"}}
	}
	if s.Home == "sub" && chance(r, 40) {
		s.Hdata = [][2]string{{pick(r, []string{"k2", "k4"}), "home"}}
	}
	if chance(r, 12) {
		s.Prev = pick(r, []string{"own", "parent"})
	}
	if s.El == "value" && s.Prev == "own" {
		s.Prev = ""
	}
	ks := []string{"help", "cat", "man", "use", "desc", "name", "data", "undata", "alias", "unalias", "fsetup", "asetup", "csetup", "touch", "proto", "proto", "proto", "proto"}
	if chance(r, 10) {
		ks = append(ks, "prevent", "prevent")
	}
	keys := []string{"k1", "k2", "k3"}
	for i, n := 0, 1+r.Intn(4); i < n; i++ {
		st := metaStep{K: pick(r, ks), At: pick(r, []string{"uses", "uses", "uses", "cust", "before"}), F: metaFields{Data: [][2]string{}, Al: []string{}, Env: []string{}}}
		tag := string(rune('1' + i))
		switch st.K {
		case "proto":
			st.F = genMetaFields(r, tag, "", 35)
			if chance(r, 30) {
				st.F.Name = "pn"
			}
			if chance(r, 40) {
				st.F.Data = [][2]string{{"k" + pick(r, []string{"2", "3"}), tag}}
			}
			if chance(r, 20) {
				st.Su = tag
			}
		case "name":
			st.V = pick(r, []string{"nn", "q"})
		case "data", "undata":
			st.Key = pick(r, keys)
			if st.K == "data" {
				st.V = tag
			}
		case "alias":
			st.V = pick(r, []string{"a1", "a2", "a3"})
			st.Key = pick(r, []string{"add", ""})
		case "unalias":
			st.V = pick(r, []string{"a1", "a2", "a3"})
		case "prevent":
		default:
			st.V = st.K + tag
		}
		if st.At == "cust" {
			st.Pat = pick(r, []string{"f", "nn", "pn", "*"})
		}
		s.Steps = append(s.Steps, st)
	}
	if !metaFine(s) {
		return genMeta(r, profile, 0)
	}
	return s
}

// metaFine tells whether the documentation settles what should happen.
func metaFine(s metaScen) bool {
	prevented := s.Prev != ""
	count := map[string]int{} // where it is set
	for _, p := range s.Init.Data {
		count[p[0]]++
	}
	for _, st := range s.Steps {
		if st.K == "data" || st.K == "undata" {
			count[st.Key]++
		}
		for _, p := range st.F.Data {
			count[p[0]]++
		}
	}
	set := map[string]bool{} // texts set on a value
	for _, st := range s.Steps {
		switch st.K {
		case "name":
			if st.At != "uses" {
				return false
			}
		case "prevent":
			if st.At != "uses" {
				return false
			}
			prevented = true
		case "touch": // whose value is a list isn't settled then
			for _, o := range s.Steps {
				if st.At != "uses" || s.Init.Narg != 0 || o.F.Narg != 0 {
					return false
				}
			}
		case "alias", "unalias":
			if s.El == "value" || st.At == "before" {
				return false
			}
		case "fsetup", "asetup", "csetup":
			if s.El == "value" || st.At == "cust" && s.Prev == "own" {
				return false
			}
		}
		if s.El == "value" && st.At == "cust" {
			return false
		}
		if s.El == "value" && st.At == "before" {
			return false
		}
		if st.At == "cust" {
			if st.K == "unalias" || st.K == "prevent" || st.Pat == "*" && (st.K == "csetup" || st.K == "alias" || s.El == "cmd" || len(st.F.Al) > 0) {
				return false
			}
		}
		if st.K == "proto" {
			if st.At == "before" || prevented && (s.El != "cmd" || st.F.Help+st.F.Cat+st.F.Man+st.F.Use+st.F.Desc+st.F.Def+st.Su != "") {
				return false // before: late; prevented: a known finding
			}
			if st.At == "cust" && (st.F.Name != "" || len(st.F.Env) > 0 || st.F.Val != "" || st.F.File != "" || st.F.Hid || st.F.Narg != 0) {
				return false
			}
			for _, p := range st.F.Data { // which one wins isn't settled
				if count[p[0]] > 1 || s.El != "value" && p[0] == "k1" {
					return false
				}
			}
			if s.El == "value" {
				if set["aliases"] && len(st.F.Al) > 0 { // nor whether these are merged
					return false
				}
				set["aliases"] = set["aliases"] || len(st.F.Al) > 0
				for k, v := range map[string]string{"help": st.F.Help, "cat": st.F.Cat, "man": st.F.Man, "use": st.F.Use, "desc": st.F.Desc} {
					if v != "" && set[k] {
						return false
					}
				}
			}
		}
		set[st.K] = true
		if st.K == "proto" {
			for k, v := range map[string]string{"help": st.F.Help, "cat": st.F.Cat, "man": st.F.Man, "use": st.F.Use, "desc": st.F.Desc, "def": st.F.Def} {
				set[k] = set[k] || v != ""
			}
		}
	}
	return true
}
