package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"math/big"
	"math/rand"
	"net"
	"net/url"
	"os"
	"regexp"
	"sort"
	"strings"
	"testing/fstest"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
)

// One option, every source of its value, and what the program sees of it.

type vUse struct {
	V  []string `json:"v"`
	Eq bool     `json:"eq"` // the first value is attached to the flag's name
}

type vScen struct {
	Kind string     `json:"kind"`
	Tgt  string     `json:"tgt"`
	Name string     `json:"name"`
	Init [][]string `json:"init"`
	Opts []string   `json:"opts"`
	OptV []string   `json:"optv"`
	Tr   []string   `json:"tr"`
	Uses []vUse     `json:"uses"`
	Vars []string   `json:"vars"`
	Env  [][]string `json:"env"`
	File string     `json:"file"`
	FS   [][]string `json:"fs"`
	Uimp []string   `json:"uimp"`
	Imp  []string   `json:"imp"`
	Z    bool       `json:"z"`
	Zpre bool       `json:"zpre"`
	Fail int        `json:"fail"`
}

// custom is a value that follows the conventions of resettable values
type custom struct {
	Items []string
	Whole bool
}

func (c *custom) Set(s string) error {
	if s == "bad" {
		return fmt.Errorf("bad custom value")
	}
	if c.Whole {
		c.Items = append(c.Items, s)
	} else {
		c.Items = append(c.Items, strings.Split(s, "+")...)
	}
	return nil
}
func (c *custom) String() string    { return strings.Join(c.Items, "+") }
func (c *custom) Reset()            { c.Items = nil }
func (c *custom) DisableSplitting() { c.Whole = true }
func (c *custom) Copy() *custom {
	return &custom{Items: append([]string{}, c.Items...), Whole: c.Whole}
}

// accum has no conventions: every value is added
type accum struct{ Items []string }

func (c *accum) Set(s string) error {
	if s == "bad" {
		return fmt.Errorf("bad accumulating value")
	}
	c.Items = append(c.Items, s)
	return nil
}
func (c *accum) String() string { return strings.Join(c.Items, "+") }

// upper is set by UnmarshalText
type upper struct{ S string }

func (u *upper) UnmarshalText(b []byte) error {
	if string(b) == "bad" {
		return fmt.Errorf("bad text")
	}
	u.S = "<" + string(b) + ">"
	return nil
}

func vMake(kind string, init [][]string) any {
	first := ""
	if len(init) > 0 {
		first = init[0][0]
	}
	col := func() []string {
		var res []string
		for _, x := range init {
			res = append(res, x[0])
		}
		return res
	}
	scan := func(p any) any {
		if first != "" {
			if _, err := fmt.Sscan(first, p); err != nil {
				panic(err)
			}
		}
		return p
	}
	switch kind {
	case "str":
		return &first
	case "none", "nonel":
		return nil
	case "list":
		l := col()
		return &l
	case "map":
		m := map[string]string{}
		for _, x := range init {
			m[x[0]] = x[1]
		}
		return &m
	case "nvs":
		var kv []string
		for _, x := range init {
			kv = append(kv, x[0], x[1])
		}
		return cli.NameValues(kv...)
	case "nv", "nvf":
		v := &cli.NameValue{AllowFileReference: kind == "nvf"}
		if len(init) > 0 {
			v.Name, v.Value = init[0][0], init[0][1]
		}
		return v
	case "bool":
		return scan(new(bool))
	case "int":
		return scan(new(int))
	case "int8":
		return scan(new(int8))
	case "int16":
		return scan(new(int16))
	case "int32":
		return scan(new(int32))
	case "int64":
		return scan(new(int64))
	case "uint":
		return scan(new(uint))
	case "uint8":
		return scan(new(uint8))
	case "uint16":
		return scan(new(uint16))
	case "uint32":
		return scan(new(uint32))
	case "uint64":
		return scan(new(uint64))
	case "float32":
		return scan(new(float32))
	case "float64":
		return scan(new(float64))
	case "dur":
		d := new(time.Duration)
		if first != "" {
			v, err := time.ParseDuration(first)
			if err != nil {
				panic(err)
			}
			*d = v
		}
		return d
	case "url":
		u := cli.URL()
		if first != "" {
			*u, _ = url.Parse(first)
		}
		return u
	case "re":
		u := cli.Regexp()
		if first != "" {
			*u = regexp.MustCompile(first)
		}
		return u
	case "ip":
		u := cli.IP()
		if first != "" {
			*u = net.ParseIP(first)
		}
		return u
	case "bigint":
		u := cli.BigInt()
		if first != "" {
			*u, _ = new(big.Int).SetString(first, 10)
		}
		return u
	case "bytes":
		b := []byte(first)
		return &b
	case "text":
		return &upper{S: first}
	case "cust":
		return &custom{Items: col()}
	case "acc":
		return &accum{Items: col()}
	case "fset":
		return &cli.FileSet{Files: col()}
	case "fil":
		return &cli.File{Name: first}
	}
	panic("kind " + kind)
}

func one(x any) [][]string { return [][]string{{fmt.Sprint(x)}} }

func column(xs []string) [][]string {
	res := [][]string{}
	for _, x := range xs {
		res = append(res, []string{x})
	}
	return res
}

// vNorm shows a value as rows of text
func vNorm(v any) [][]string {
	switch x := v.(type) {
	case nil:
		return [][]string{}
	case *string:
		return one(*x)
	case string:
		return one(x)
	case *[]string:
		return column(*x)
	case []string:
		return column(x)
	case *map[string]string:
		return vNorm(*x)
	case map[string]string:
		keys := []string{}
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		res := [][]string{}
		for _, k := range keys {
			res = append(res, []string{k, x[k]})
		}
		return res
	case *[]*cli.NameValue:
		return vNorm(*x)
	case []*cli.NameValue:
		res := [][]string{}
		for _, k := range x {
			res = append(res, []string{k.Name, k.Value})
		}
		return res
	case *cli.NameValue:
		return [][]string{{x.Name, x.Value}}
	case *bool:
		return one(*x)
	case *int:
		return one(*x)
	case *int8:
		return one(*x)
	case *int16:
		return one(*x)
	case *int32:
		return one(*x)
	case *int64:
		return one(*x)
	case *uint:
		return one(*x)
	case *uint8:
		return one(*x)
	case *uint16:
		return one(*x)
	case *uint32:
		return one(*x)
	case *uint64:
		return one(*x)
	case *float32:
		return one(*x)
	case *float64:
		return one(*x)
	case *time.Duration:
		return one(*x)
	case **url.URL:
		return vNorm(*x)
	case *url.URL:
		if x == nil {
			return [][]string{}
		}
		return one(x)
	case **regexp.Regexp:
		return vNorm(*x)
	case *regexp.Regexp:
		if x == nil {
			return [][]string{}
		}
		return one(x)
	case *net.IP:
		return vNorm(*x)
	case net.IP:
		if x == nil {
			return [][]string{}
		}
		return one(x)
	case **big.Int:
		return vNorm(*x)
	case *big.Int:
		if x == nil {
			return [][]string{}
		}
		return one(x)
	case *[]byte:
		return one(string(*x))
	case []byte:
		return one(string(x))
	case *upper:
		return one(x.S)
	case upper:
		return one(x.S)
	case *custom:
		return column(x.Items)
	case *accum:
		return column(x.Items)
	case *cli.FileSet:
		return column(x.Files)
	case *cli.File:
		return one(x.Name)
	}
	return one(v)
}

var vOptions = map[string]cli.Option{
	"Merge": cli.Merge, "DisableSplitting": cli.DisableSplitting, "Optional": cli.Optional,
	"EachOccurrence": cli.EachOccurrence, "FileReference": cli.FileReference,
	"AllowFileReference": cli.AllowFileReference, "MustExist": cli.MustExist,
	"ImpliedAction": cli.ImpliedAction, "Required": cli.Required,
}

func (s vScen) argv() []string {
	argv := []string{"app"}
	if s.Z && s.Zpre {
		argv = append(argv, "--z")
	}
	for _, u := range s.Uses {
		if s.Tgt == "arg" {
			argv = append(argv, u.V...)
			continue
		}
		if u.Eq {
			argv = append(argv, "--"+s.Name+"="+u.V[0])
			argv = append(argv, u.V[1:]...)
		} else {
			argv = append(argv, "--"+s.Name)
			argv = append(argv, u.V...)
		}
	}
	if s.Z && !s.Zpre {
		argv = append(argv, "--z")
	}
	return argv
}

func execVals(raw json.RawMessage) any {
	s := decode[vScen](raw)
	for _, e := range s.Env {
		os.Setenv(e[0], e[1])
		defer os.Unsetenv(e[0])
	}
	fsys := fstest.MapFS{}
	for _, f := range s.FS {
		fsys[f[0]] = &fstest.MapFile{Data: []byte(f[1])}
	}
	ptr := vMake(s.Kind, s.Init)

	acts := []any{}
	look := func(c *cli.Context, name string) obj {
		return obj{"val": vNorm(c.Value(name)), "raw": strs(c.Raw(name)), "occ": strs(c.RawOccurrences(name)),
			"cnt": c.Occurrences(name), "seen": c.Seen(name)}
	}
	action := func(c *cli.Context) error {
		acts = append(acts, obj{"cur": look(c, ""), "all": look(c, s.Name)})
		if s.Fail == len(acts) {
			return fmt.Errorf("failed as told")
		}
		return nil
	}
	impl := false
	after := func(c *cli.Context) error {
		impl = c.ImplicitlySet()
		return nil
	}
	var opts cli.Option
	for _, o := range s.Opts {
		opts |= vOptions[o]
	}
	var uses []cli.Action
	if len(s.OptV) > 0 {
		switch s.Kind {
		case "int":
			var i int
			fmt.Sscan(s.OptV[0], &i)
			uses = append(uses, cli.OptionalValue(i))
		default:
			uses = append(uses, cli.OptionalValue(s.OptV[0]))
		}
	}
	for _, t := range s.Tr {
		fn, part := t, false
		if t != "values" {
			fn, part = strings.CutPrefix(t, "v")
		}
		if part {
			uses = append(uses, cli.ValueTransform(vTransform(fn, fsys)))
		} else {
			uses = append(uses, cli.Transform(vTransform(fn, fsys)))
		}
	}
	if len(s.Uimp) > 0 {
		uses = append(uses, cli.ImplicitValue(func(*cli.Context) (string, bool) { return s.Uimp[0], true }))
	}
	z := &cli.Flag{Name: "z", Value: new(bool)}
	app := &cli.App{
		Name: "app", FS: fsys, Stderr: io.Discard, Stdout: io.Discard,
		Flags: []*cli.Flag{z},
	}
	if s.Tgt == "arg" {
		a := &cli.Arg{Name: s.Name, Value: ptr, Options: opts, Action: action, After: after, EnvVars: s.Vars,
			FilePath: s.File, Uses: cli.ActionPipeline(uses)}
		if s.Kind != "nv" && s.Kind != "nvf" {
			a.NArg = -2
		}
		app.Args = []*cli.Arg{a}
	} else {
		f := &cli.Flag{Name: s.Name, Value: ptr, Options: opts, Action: action, After: after, EnvVars: s.Vars,
			FilePath: s.File, Uses: cli.ActionPipeline(uses)}
		app.Flags = append(app.Flags, f)
	}
	if len(s.Imp) > 0 {
		z.Uses = cli.Implies(impliesName(s), s.Imp[0])
	}
	var fin obj
	app.Action = func(c *cli.Context) error {
		fin = look(c, s.Name)
		if ptr != nil {
			fin["ptr"] = vNorm(ptr)
		} else {
			fin["ptr"] = fin["val"]
		}
		return nil
	}
	err := app.RunContext(context.Background(), s.argv())
	res := obj{"err": errClass(err), "acts": acts}
	if err == nil {
		fin["impl"] = impl
		res["fin"] = fin
	}
	return res
}

// vTransform is a transform which shows all that it was given
func vTransform(name string, fsys fs.FS) cli.TransformFunc {
	switch name {
	case "text":
		return func(raw []string) (any, error) { return strings.Join(raw, "~"), nil }
	case "data":
		return func(raw []string) (any, error) { return []byte(strings.Join(raw, "~")), nil }
	case "reader":
		return func(raw []string) (any, error) { return strings.NewReader(strings.Join(raw, "~")), nil }
	case "values":
		return func(raw []string) (any, error) {
			for _, v := range raw[1:] {
				if v == "bad" {
					return nil, fmt.Errorf("bad value")
				}
			}
			return strings.Join(raw[1:], "+"), nil
		}
	case "file":
		return cli.TransformFileReference(fsys)
	case "atfile":
		return cli.TransformOptionalFileReference(fsys)
	case "nilfile":
		return cli.TransformOptionalFileReference(nil)
	}
	panic(name)
}

func impliesName(s vScen) string {
	if s.Tgt == "arg" {
		return "<" + s.Name + ">"
	}
	return s.Name
}

func init() {
	areas["vals"] = area{gen: genVals, exec: execVals, serial: true}
}

var vInts = strings.Fields("127 128 255 256 32767 32768 65535 65536 2147483647 2147483648 4294967295 4294967296 " +
	"9223372036854775807 9223372036854775808 18446744073709551615 18446744073709551616 -128 -129 -32768 -32769 " +
	"-2147483648 -2147483649 0 1 7 12 0x10 010 0b11 0o17 0x1_0 +3 -3 q 1.5 1e3")

var vTokens = map[string][]string{
	"int":    vInts,
	"float":  strings.Fields("0 1 7 1.5 .5 1e3 -3 1e39 q 1..5"),
	"dur":    strings.Fields("0 1s 90s 1m 1h1m 150ms -1s 5 q"),
	"bool":   {"1", "true", "on", "t", "TRUE", "On", "0", "false", "off", "f", "False", "q", "yes", "2"},
	"url":    strings.Fields("http://h/p rel/p 7 1 q ::x"),
	"re":     strings.Fields("a+ x|y 7 1 q ( a)"),
	"ip":     strings.Fields("1.2.3.4 ::1 0:0::1 q 1.2.3 7"),
	"bigint": strings.Fields("0 1 7 010 123456789012345678901234567890 -3 q 0x1 1.5"),
	"bytes":  strings.Fields("61 6263 4A 4a 616 zz"),
	"text":   {"a", "b c", "bad", "", "1,2"},
	"cust":   {"a", "b", "a+b", "a,b", "", "bad", "x+"},
	"acc":    {"a", "b", "a+b", "a,b", "", "bad"},
	"fset":   {"a", "b", "d/c", "d", "zz", "a,b", "dd"},
	"fil":    {"a", "b", "d/c", "d", "zz", "a b"},
	"str":    {"a", "b", "a,b", "", "a=b", "x y", "\\,", "zz"},
}

func vMapText(r *rand.Rand) string {
	n := 1 + r.Intn(3)
	var parts []string
	for i := 0; i < n; i++ {
		p := pick(r, []string{"a", "b", "k", "K", "a b", "x\\=y", "\\=", "c\\,d"}) + "=" + pick(r, []string{"", "1", "2", "v w", "p=q", "s\\,t", "u\\=v", "\\x", " 1 "})
		if i > 0 && chance(r, 15) {
			p = pick(r, []string{"t", "u v", "w\\=z"})
		}
		parts = append(parts, p)
	}
	s := strings.Join(parts, ",")
	if chance(r, 8) {
		s = " " + s + " "
	}
	return s
}

func vListText(r *rand.Rand) string {
	n := r.Intn(4)
	var parts []string
	for i := 0; i < n; i++ {
		parts = append(parts, pick(r, []string{"a", "b", "c d", " e ", "", "f\\,g", "\\,", "h\\i", "j=k", "\\", "l\\=m"}))
	}
	return strings.Join(parts, ",")
}

var vScalars = []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "dur", "bool", "url", "re", "ip", "bigint", "text"}

func vToken(r *rand.Rand, kind string) string {
	switch {
	case kind == "list" || kind == "nonel":
		return vListText(r)
	case kind == "map":
		return vMapText(r)
	case kind == "nvs":
		if chance(r, 8) {
			return pick(r, []string{"novalue", "a=1,novalue,b=2", "", "a=1,,b=2"})
		}
		s := vMapText(r)
		if strings.Contains(s, ",t") || strings.Contains(s, ",u v") || strings.Contains(s, ",w") {
			return "a=1,b\\,c=2"
		}
		return s
	case kind == "nv":
		return pick(r, []string{"a=b", "a", "a=", "k\\=l=m", "a=b=c", "a=b\\,c", "name", " s = t ", "a\\,b=c"})
	case kind == "nvf":
		return pick(r, []string{"a=b", "a=@a", "a", "k=@d/c", "a=@zz", "k=x@a", "a=@"})
	case strings.HasPrefix(kind, "int") || strings.HasPrefix(kind, "uint"):
		t := pick(r, vTokens["int"])
		if chance(r, 60) {
			t = pick(r, []string{"0", "1", "7", "12", "127"})
		}
		return t
	case strings.HasPrefix(kind, "float"):
		return pick(r, vTokens["float"])
	case kind == "none":
		return pick(r, vTokens["str"])
	}
	return pick(r, vTokens[kind])
}

func vInitial(r *rand.Rand, kind string) [][]string {
	if chance(r, 40) {
		return [][]string{}
	}
	switch kind {
	case "str":
		return [][]string{{"init"}}
	case "list", "cust", "acc", "fset":
		return pick(r, [][][]string{{{"i"}}, {{"i"}, {"j"}}})
	case "map":
		return pick(r, [][][]string{{{"i", "0"}}, {{"a", "0"}, {"z", "9"}}})
	case "nvs":
		return pick(r, [][][]string{{{"i", "0"}}, {{"a", "0"}, {"a", "9"}}})
	case "nv", "nvf":
		return [][]string{{"i", "j"}}
	case "text", "fil":
		return [][]string{{"a"}}
	case "url", "re":
		return [][]string{{"q"}}
	case "ip":
		return [][]string{{"1.2.3.4"}}
	case "dur":
		return [][]string{{"1m0s"}}
	case "bool":
		return [][]string{{"true"}}
	case "none", "nonel", "bytes":
		return [][]string{}
	}
	return [][]string{{"7"}}
}

func genVals(r *rand.Rand, profile string, i int) any {
	s := vScen{Tgt: "flag", Name: pick(r, []string{"opt-x", "opt", "a-b-c"}), Init: [][]string{}, Opts: []string{}, OptV: []string{}, Tr: []string{},
		Uses: []vUse{}, Vars: []string{}, Env: [][]string{}, FS: [][]string{}, Uimp: []string{}, Imp: []string{}}
	switch {
	case chance(r, 45):
		s.Kind = pick(r, []string{"str", "list", "map", "nvs", "cust"})
	case chance(r, 50):
		s.Kind = pick(r, []string{"nv", "nvf", "acc", "fset", "fil", "none", "bytes"})
	default:
		s.Kind = pick(r, vScalars)
	}
	k := s.Kind
	if k != "bool" && chance(r, 30) {
		s.Tgt = "arg"
		if k == "none" {
			k, s.Kind = "nonel", "nonel"
		}
	}
	if k == "nvf" {
		s.Tgt = "flag"
	}
	s.Init = vInitial(r, k)
	// a FileSet named in the initial value that must exist is validated as well
	if chance(r, 25) {
		s.Opts = append(s.Opts, "Merge")
	}
	if chance(r, 20) {
		s.Opts = append(s.Opts, "DisableSplitting")
	}
	numeric := strings.Contains("int int8 int16 int32 int64 uint uint8 uint16 uint32 uint64 float32 float64 dur", k)
	if s.Tgt == "flag" && chance(r, 20) {
		switch {
		case numeric && chance(r, 60):
			s.Opts = append(s.Opts, "Optional")
		case k == "str":
			s.OptV = []string{"dflt"}
		case k == "int":
			s.OptV = []string{"42"}
		}
	}
	optional := len(s.OptV) > 0 || strings.Contains(strings.Join(s.Opts, " "), "Optional")
	copies := k != "acc" && k != "fset" && k != "fil" && k != "text" && k != "none" && k != "nonel"
	if copies && (profile == "each" || chance(r, 25)) {
		s.Opts = append(s.Opts, "EachOccurrence")
	}
	if chance(r, 15) {
		s.Opts = append(s.Opts, "ImpliedAction")
	}
	reads := false
	if (k == "str" || k == "list" || k == "bytes" || k == "fset" || k == "cust" || k == "acc") && !optional && chance(r, 20) {
		s.Opts = append(s.Opts, pick(r, []string{"FileReference", "AllowFileReference"}))
		reads = true
	}
	if (k == "str" || k == "fset" || k == "fil") && chance(r, 30) {
		s.Opts = append(s.Opts, "MustExist")
	}
	part := k == "nv" || k == "nvs" || k == "map"
	want := 7
	if profile == "xform" {
		want = 100
	}
	if !reads && !optional && k != "nvf" && k != "url" && k != "re" && chance(r, want) {
		all := []string{"text", "data", "reader", "values", "file", "atfile"}
		if part {
			all = []string{"vtext", "vdata", "vreader", "vvalues", "vatfile", "vatfile", "vfile"}
		}
		if chance(r, 20) {
			s.Tr = append(s.Tr, pick(r, all))
		}
		s.Tr = append(s.Tr, pick(r, all))
		reads = !part && strings.HasSuffix(s.Tr[len(s.Tr)-1], "file")
	}
	content := func() string {
		if reads && k == "fset" {
			return pick(r, []string{"a\nb\n", "", "# c\n\n d/c \n;x\nzz", "a"})
		}
		if k != "str" && k != "none" && k != "fil" && !reads {
			return vToken(r, k)
		}
		return pick(r, []string{"T1\n", "", "p,q", "1", "7", " s ", "x\\,y\n\nz"})
	}
	s.FS = [][]string{{"a", content()}, {"b", content()}, {"d/c", content()}}

	// command line
	n := 0
	if profile == "source" {
		if chance(r, 25) {
			n = 1 + r.Intn(2)
		}
	} else if chance(r, 85) {
		n = 1 + r.Intn(4)
	}
	tok := func() string {
		if reads && chance(r, 80) {
			t := pick(r, []string{"a", "b", "d/c", "a", "zz"})
			if strings.Contains(strings.Join(append(s.Tr, s.Opts...), " ")+" ", "atfile ") && chance(r, 70) {
				return "@" + t
			}
			if strings.Contains(strings.Join(s.Opts, " "), "AllowFileReference") && chance(r, 70) {
				return "@" + t
			}
			return t
		}
		t := vToken(r, k)
		if part && len(s.Tr) > 0 && chance(r, 50) {
			if i := strings.LastIndex(t, "="); i >= 0 && !strings.HasSuffix(t[:i], "\\") {
				t = t[:i+1] + pick(r, []string{"@a", "@b", "@d/c", "@zz", "a", "bad", "x\\\\=y", "x\\\\,y"})
			}
		}
		return t
	}
	for j := 0; j < n; j++ {
		u := vUse{V: []string{tok()}}
		switch {
		case s.Tgt == "arg":
			if (k == "nv") && j > 0 {
				continue
			}
			if k == "nv" && chance(r, 50) && !strings.Contains(u.V[0], "=") {
				u.V = append(u.V, pick(r, []string{"v", "v w", "", "v=w"}))
			}
		case k == "bool" || optional:
			u.Eq = true
			if chance(r, 50) {
				u.V, u.Eq = []string{}, false
			}
		case k == "nv" || k == "nvf":
			if !strings.Contains(u.V[0], "=") && chance(r, 70) {
				u.V = append(u.V, pick(r, []string{"v", "v w", "", "v=w"}))
				if k == "nvf" {
					u.V[1] = pick(r, []string{"v", "@a", "@zz"})
				}
			} else {
				u.Eq = chance(r, 30)
			}
		case k == "list" || k == "fset":
			for chance(r, 25) {
				u.V = append(u.V, tok())
			}
			u.Eq = len(u.V) == 1 && j == n-1 && chance(r, 40)
		default:
			u.Eq = chance(r, 40)
		}
		if (k == "nv" || k == "nvf") && s.Tgt == "flag" && len(u.V) == 1 && !strings.Contains(strings.ReplaceAll(u.V[0], "\\=", ""), "=") {
			// a lone name takes whatever follows as its value
			u.Eq = false
			u.V = append(u.V, "v")
		}
		bad := false
		for q, v := range u.V {
			if strings.HasPrefix(v, "-") && !(u.Eq && q == 0) {
				if q == 0 && s.Tgt == "flag" && len(u.V) == 1 {
					u.Eq = true
				} else {
					bad = true
				}
			}
		}
		if bad {
			continue
		}
		s.Uses = append(s.Uses, u)
	}

	// implicit sources
	want = 25
	if profile == "source" {
		want = 60
	}
	src := func() string {
		if optional && chance(r, 20) {
			return ""
		}
		return vToken(r, k)
	}
	if chance(r, want) {
		nm := map[string]string{"opt-x": "OPT_X", "opt": "OPT", "a-b-c": "A_B_C"}[s.Name]
		all := [][]string{{"VE1", "VE1"}, {"VE2", "VE2"}, {"{}", nm}, {"APP{}", "APP_" + nm}, {"{}SFX", nm + "_SFX"}, {"V{}W", "V_" + nm + "_W"}}
		r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		for _, e := range all[:1+r.Intn(3)] {
			s.Vars = append(s.Vars, e[0])
		}
		for _, e := range all[:4] {
			if chance(r, 40) {
				v := src()
				if chance(r, 20) {
					v = ""
				}
				s.Env = append(s.Env, []string{e[1], v})
			}
		}
	}
	if chance(r, want-10) {
		s.File = pick(r, []string{"a", "d/c", "zz", "b"})
		if k != "str" && k != "none" && chance(r, 70) {
			s.FS[0][1], s.FS[2][1] = src(), src()
		}
	}
	if chance(r, want/3) {
		s.Uimp = []string{src()}
	}
	if s.Tgt == "flag" && chance(r, want) {
		s.Imp = []string{src()}
	}
	s.Z = chance(r, 50)
	s.Zpre = s.Tgt == "arg" || chance(r, 50)
	if chance(r, 10) {
		s.Fail = 1 + r.Intn(3)
	}
	return s
}
