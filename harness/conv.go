package main

import (
	"bytes"
	"context"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"net"
	"net/url"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
)

// Text converted by the type of an option, and lookups of the value.

type convLook struct {
	Acc string `json:"acc"`
	Via string `json:"via"` // ctx flag func values raw(values with the pointer)
	As  string `json:"as"`  // plain long short angle rune elem self index missing
}

type convScen struct {
	Kind  string     `json:"kind"`
	El    string     `json:"el"` // flag arg
	Via   string     `json:"via"`
	Init  string     `json:"init"` // text of the initial value, "" for none
	Opt   bool       `json:"opt"`
	Texts []string   `json:"texts"`
	Looks []convLook `json:"looks"`
}

func init() {
	areas["conv"] = area{gen: genConv, exec: execConv}
}

var convNew = map[string]func() any{
	"bool": func() any { return cli.Bool() }, "string": func() any { return cli.String() }, "int": func() any { return cli.Int() }, "int8": func() any { return cli.Int8() },
	"int16": func() any { return cli.Int16() }, "int32": func() any { return cli.Int32() }, "int64": func() any { return cli.Int64() }, "uint": func() any { return cli.Uint() },
	"uint8": func() any { return cli.Uint8() }, "uint16": func() any { return cli.Uint16() }, "uint32": func() any { return cli.Uint32() }, "uint64": func() any { return cli.Uint64() },
	"float32": func() any { return cli.Float32() }, "float64": func() any { return cli.Float64() }, "duration": func() any { return cli.Duration() },
	"bigint": func() any { return cli.BigInt() }, "bigfloat": func() any { return cli.BigFloat() }, "ip": func() any { return cli.IP() }, "bytes": func() any { return cli.Bytes() },
	"url": func() any { return cli.URL() }, "regexp": func() any { return cli.Regexp() }, "list": func() any { return cli.List() }, "map": func() any { return cli.Map() },
	"file": func() any { return new(cli.File) }, "nv": func() any { return new(cli.NameValue) }, "nvs": func() any { return cli.NameValues() }, "fileset": func() any { return new(cli.FileSet) },
}

func convText(v any) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case float32:
		return strconv.FormatFloat(float64(x), 'f', -1, 32)
	case float64:
		return strconv.FormatFloat(x, 'f', -1, 64)
	case time.Duration:
		return fmt.Sprint(int64(x))
	case *big.Float:
		if x == nil {
			return "nil"
		}
		return x.Text('f', -1)
	case net.IP:
		if x == nil {
			return "nil"
		}
		return x.String()
	case []byte:
		return hex.EncodeToString(x)
	case *url.URL, *regexp.Regexp, *big.Int:
		if reflect.ValueOf(x).IsNil() {
			return "nil"
		}
		return fmt.Sprint(x)
	case []string:
		return strings.Join(x, "|")
	case map[string]string:
		s := ""
		for _, k := range []string{"a", "b", "c"} {
			if t, ok := x[k]; ok {
				s += k + ":" + t + "|"
			}
		}
		return s
	case *cli.File:
		if x == nil {
			return "nil"
		}
		return x.Name
	case *cli.FileSet:
		if x == nil {
			return "nil"
		}
		return strings.Join(x.Files, "|")
	case *cli.NameValue:
		if x == nil {
			return "nil"
		}
		return x.Name + ":" + x.Value
	case []*cli.NameValue:
		s := ""
		for _, y := range x {
			s += y.Name + ":" + y.Value + "|"
		}
		return s
	}
	return fmt.Sprint(v)
}

func convLookup(l cli.Lookup, acc string, name any) any {
	switch acc {
	case "bool":
		return l.Bool(name)
	case "string":
		return l.String(name)
	case "int":
		return l.Int(name)
	case "int8":
		return l.Int8(name)
	case "int16":
		return l.Int16(name)
	case "int32":
		return l.Int32(name)
	case "int64":
		return l.Int64(name)
	case "uint":
		return l.Uint(name)
	case "uint8":
		return l.Uint8(name)
	case "uint16":
		return l.Uint16(name)
	case "uint32":
		return l.Uint32(name)
	case "uint64":
		return l.Uint64(name)
	case "float32":
		return l.Float32(name)
	case "float64":
		return l.Float64(name)
	case "duration":
		return l.Duration(name)
	case "bigint":
		return l.BigInt(name)
	case "bigfloat":
		return l.BigFloat(name)
	case "ip":
		return l.IP(name)
	case "bytes":
		return l.Bytes(name)
	case "url":
		return l.URL(name)
	case "regexp":
		return l.Regexp(name)
	case "list":
		return l.List(name)
	case "map":
		return l.Map(name)
	case "file":
		return l.File(name)
	case "fileset":
		return l.FileSet(name)
	case "nv":
		return l.NameValue(name)
	case "nvs":
		return l.NameValues(name)
	case "value":
		return l.Value(name)
	case "interface":
		v, ok := l.Interface(name)
		if !ok {
			return nil
		}
		if d := reflect.ValueOf(v); d.Kind() == reflect.Pointer {
			switch v.(type) {
			case *cli.File, *cli.FileSet, *cli.NameValue, *big.Int, *big.Float, *url.URL, *regexp.Regexp:
				return v
			}
			return d.Elem().Interface()
		}
		return v
	}
	panic("accessor " + acc)
}

func convError(err error, texts []string) string {
	if err == nil {
		return "ok"
	}
	m := err.Error()
	for _, t := range texts {
		if strings.Contains(m, "value out of range: "+t) {
			return "range"
		}
		if t != "" && strings.Contains(m, "not a valid number: "+t) {
			return "syntax"
		}
	}
	if strings.Contains(m, "empty string is not a valid number") {
		return "empty"
	}
	return "error"
}

func execConv(raw json.RawMessage) any {
	s := decode[convScen](raw)
	v := convNew[s.Kind]()
	if s.Init != "" {
		if err := cli.Set(v, s.Init); err != nil {
			return obj{"init": err.Error()}
		}
	}
	looks := []string{}
	value := "?"
	final := func() { value = convText(convLookup(cli.LookupValues{"f": v}, "value", "f")) }
	var aFlag *cli.Flag
	var anArg *cli.Arg
	look := func(c, own *cli.Context) {
		for _, k := range s.Looks {
			var name any = "f"
			switch k.As {
			case "long":
				name = "--f"
			case "short":
				name = "-f"
			case "angle":
				name = "<f>"
			case "rune":
				name = 'f'
			case "alias":
				name = "other"
			case "elem":
				if anArg != nil {
					name = anArg
				} else if aFlag != nil {
					name = aFlag
				} else {
					name = &cli.Flag{Name: "f"}
				}
			case "index":
				name = 0
			case "missing":
				name = "nope"
			}
			var l cli.Lookup
			switch k.Via {
			case "ctx":
				l = c
			case "own":
				l = own
				if k.As == "self" {
					name = ""
				} else if k.As == "nil" {
					name = nil
				}
			case "func":
				l = cli.LookupFunc(func(n string) (any, bool) {
					if n == "f" {
						return v, true
					}
					return nil, false
				})
			case "values":
				l = cli.LookupValues{"f": v}
			case "plain":
				l = cli.LookupValues{"f": convLookup(cli.LookupValues{"f": v}, "value", "f")}
			case "nilfunc":
				l = cli.LookupFunc(nil)
			case "nilvalues":
				l = cli.LookupValues(nil)
			}
			looks = append(looks, convText(convLookup(l, k.Acc, name)))
		}
	}
	var err error
	switch s.Via {
	case "set":
		if err = cli.Set(v, s.Texts...); err == nil {
			look(nil, nil)
		}
	case "data", "databytes", "datareader":
		for _, t := range s.Texts {
			var d any = t
			if s.Via == "databytes" {
				d = []byte(t)
			} else if s.Via == "datareader" {
				d = strings.NewReader(t)
			}
			if err = cli.SetData(v, d); err != nil {
				break
			}
		}
		if err == nil {
			look(nil, nil)
		}
	default:
		app := &cli.App{Name: "app", Stdin: strings.NewReader(""), Stdout: &bytes.Buffer{}, Stderr: &bytes.Buffer{}}
		argv := []string{"app"}
		var own *cli.Context
		keep := func(c *cli.Context) error { own = c; return nil }
		if s.El == "arg" {
			anArg = &cli.Arg{Name: "f", Value: v, Action: keep}
			app.Args = []*cli.Arg{anArg}
			argv = append(argv, "--")
			argv = append(argv, s.Texts...)
		} else {
			aFlag = &cli.Flag{Name: "f", Value: v, Aliases: []string{"other"}, Action: keep}
			if s.Opt {
				aFlag.Options = cli.Optional
			}
			app.Flags = []*cli.Flag{aFlag}
			for _, t := range s.Texts {
				if t == "" && s.Opt {
					argv = append(argv, "--other")
				} else if s.Via == "run" {
					argv = append(argv, "-f"+t)
				} else if s.Via == "sep" && !s.Opt {
					argv = append(argv, "-f", t)
				} else {
					argv = append(argv, "--other="+t)
				}
			}
		}
		app.Action = func(c *cli.Context) error {
			look(c, own)
			return nil
		}
		err = app.RunContext(context.Background(), argv)
	}
	final()
	return obj{"res": convError(err, s.Texts), "value": value, "looks": looks}
}

func genConv(r *rand.Rand, profile string, i int) any {
	kinds := []string{"bool", "string", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "duration",
		"bigint", "bigfloat", "ip", "bytes", "url", "regexp"}
	s := convScen{Kind: pick(r, kinds), El: "flag", Via: pick(r, []string{"argv", "argv", "run", "sep", "set", "data", "databytes", "datareader"}), Texts: []string{}, Looks: []convLook{}}
	digits := func(set string, n int) string {
		b := ""
		for j := 0; j < n; j++ {
			b += string(set[r.Intn(len(set))])
		}
		return b
	}
	sign := func() string { return pick(r, []string{"", "", "", "-", "+"}) }
	var number func() string
	number = func() string {
		switch r.Intn(8) {
		case 0: // at the limits
			n := pick(r, []int{7, 8, 15, 16, 31, 32, 63, 64})
			v := new(big.Int).Lsh(big.NewInt(1), uint(n))
			v.Add(v, big.NewInt(int64(r.Intn(4)-2)))
			t := pick(r, []string{"%d", "%d", "0x%x", "0X%X", "0o%o", "0%o", "0b%b"})
			return sign() + fmt.Sprintf(t, v)
		case 1:
			return sign() + pick(r, []string{"0x", "0X", "0b", "0B", "0o", "0O", "0"}) + digits("0123456789abcdefABCDEFg", 1+r.Intn(3))
		case 2:
			return sign() + pick(r, []string{"", "0x", "0b", "0"}) + digits("01_1_", 1+r.Intn(5))
		case 3:
			return pick(r, []string{"", "0", "-0", "+", "-", "x", " 1", "1 ", "1x", "0x", "1e3", "--1", "0_", "_0", "00", "1.0"})
		case 4:
			return sign() + digits("0123456789", 1+r.Intn(22))
		}
		return sign() + digits("123456789", 1) + digits("0123456789", r.Intn(4))
	}
	exps := 6
	if s.Kind == "bigfloat" {
		exps = 4
	}
	float := func() string {
		if s.Kind == "bigfloat" && chance(r, 70) { // what is exact in 53 bits
			return sign() + digits("0123456789", 1+r.Intn(6)) + pick(r, []string{"", ".5", ".25", ".0", ".75", ".", "e1", "e+2", "E0"})
		}
		switch r.Intn(6) {
		case 0:
			return pick(r, []string{"", ".", "-", "1.2.3", "x", "1e", "e1", "1e1x", " 1", "0x", "+-1", "1,5", "..5", "5e+", "1e1e1"})
		case 1:
			return sign() + digits("0123456789", 1+r.Intn(3)) + pick(r, []string{"e", "E"}) + pick(r, []string{"0", "1", "2", "+2", "-1", "-2"}[:exps])
		case 2:
			if s.Kind == "bigfloat" {
				return sign() + pick(r, []string{".5", "0.75", ".125"})
			}
			return sign() + pick(r, []string{".", "0."}) + digits("0123456789", 1+r.Intn(4))
		case 3:
			if s.Kind == "bigfloat" {
				return "12.x"
			}
			return sign() + digits("0123456789", 1+r.Intn(2)) + "." + digits("0123456789", r.Intn(3)) + pick(r, []string{"", "e1", "E-1", "e2"})
		case 4:
			if s.Kind == "bigfloat" {
				return sign() + "1e+3"
			}
			return sign() + "1e" + pick(r, []string{"39", "309", "400", "999"})
		}
		return sign() + digits("0123456789", 1+r.Intn(4)) + pick(r, []string{"", ".5", ".25", ".0", ".75"})
	}
	duration := func() string {
		if chance(r, 20) {
			return pick(r, []string{"", "0", "-0", "+0", "1", "s", "-", "1.s", ".s", "1s1", "1 s", "1d", "1mo", "-.5h", "h1", "5S", "1h-1m", "..1s", "2562047h", "2562048h", "-2562048h"})
		}
		t := sign()
		for n := 1 + r.Intn(3); n > 0; n-- {
			t += pick(r, []string{digits("0123456789", 1+r.Intn(3)), digits("0123456789", 1+r.Intn(3)), digits("0123456789", 1) + "." + digits("0123456789", r.Intn(3)), "." + digits("0123456789", 1+r.Intn(2))})
			t += pick(r, []string{"ns", "us", "ms", "s", "m", "h"})
		}
		return t
	}
	ip := func() string {
		if chance(r, 20) {
			return pick(r, []string{"", "1.2.3", "1.2.3.4.5", "1.2.3.", ".1.2.3", "a.b.c.d", "1.2.3.-4", "1..2.3", "01.2.3.4", "256.1.1.1", "1.2.3.4 ", "::1", "::", "1.2.3.04", "1.2.3.0x4"})
		}
		t := []string{}
		for j := 0; j < 4; j++ {
			t = append(t, pick(r, []string{fmt.Sprint(r.Intn(256)), fmt.Sprint(r.Intn(10)), fmt.Sprint(250 + r.Intn(8)), "0"}))
		}
		return strings.Join(t, ".")
	}
	text := func() string {
		switch s.Kind {
		case "bool":
			t := pick(r, []string{"1", "0", "true", "false", "on", "off", "t", "f", "", "yes", "no", "2", "tru", " true", "TRUE", "False", "oN", "OFF", "T", "F"})
			return t
		case "float32", "float64", "bigfloat":
			return float()
		case "duration":
			return duration()
		case "ip":
			return ip()
		case "bytes":
			return digits("0123456789abcdefABCDEF", r.Intn(7)) + pick(r, []string{"", "", "", "", "g", " ", "0x"})
		case "url":
			return pick(r, []string{"", "http://h/p?q=1", "//h", "p/q", ":x", "%zz", "http://h:p", "mailto:a@b", "http://[::1", "a#b", "http://h/%41"})
		case "regexp":
			return pick(r, []string{"", "a+b", "(", "[a-z]*", "*", "a{2}", "x|y", "(?P<n>.)", "[", "a**", "\\d"})
		case "string":
			return pick(r, []string{"", "x", "a b", "a,b", "k=v", "-x"})
		case "bigint":
			if chance(r, 40) {
				return sign() + digits("0123456789", 1+r.Intn(40))
			}
		}
		return number()
	}
	n := 1
	if chance(r, 25) {
		n = 2 + r.Intn(2)
	}
	if chance(r, 5) && s.Via != "run" && s.Via != "sep" {
		n = 0
	}
	if s.Via == "argv" && chance(r, 30) {
		s.El = "arg"
		n = min(n, 1)
	}
	for len(s.Texts) < n {
		t := text()
		if s.El == "flag" && s.Via == "run" && (t == "" || t[0] == '=' || s.Kind == "bool") {
			t = "1"
			if s.Kind == "bool" {
				s.Via = "argv"
			}
		}
		if s.Via == "sep" && (t == "" || t[0] == '-' || s.Kind == "bool") {
			s.Via = "argv"
		}
		s.Texts = append(s.Texts, t)
	}
	if s.Via == "run" || s.Via == "sep" {
		for _, t := range s.Texts {
			if t == "" || t[0] == '-' || t[0] == '=' {
				s.Via = "argv"
			}
		}
	}
	switch s.Kind {
	case "bool", "string", "url", "regexp", "bigint", "bigfloat", "bytes":
	default:
		s.Opt = s.El == "flag" && chance(r, 15) && (s.Via == "argv" || s.Via == "run")
	}
	if s.Opt && chance(r, 50) {
		s.Texts = []string{""}
		if s.Via == "run" {
			s.Via = "argv"
		}
	}
	if s.Kind == "bool" && s.Via == "argv" && s.El == "flag" {
		for j := range s.Texts {
			if s.Texts[j] == "" {
				s.Texts[j] = "on"
			}
		}
	}
	if chance(r, 30) {
		switch s.Kind {
		case "bytes", "string":
		case "bool":
			s.Init = "true"
		case "duration":
			s.Init = "7s"
		case "ip":
			s.Init = "9.9.9.9"
		default:
			s.Init = "7"
		}
	}
	accs := map[string][]string{"i": {"int", "int8", "int16", "int32", "int64"}, "u": {"uint", "uint8", "uint16", "uint32", "uint64"}, "f": {"float32", "float64"}}
	app := s.Via == "argv" || s.Via == "run" || s.Via == "sep"
	for n := 1 + r.Intn(4); n > 0; n-- {
		k := convLook{Acc: s.Kind, Via: pick(r, []string{"func", "values", "plain"}), As: pick(r, []string{"plain", "rune", "elem"})}
		if app && chance(r, 60) {
			k.Via = "ctx"
		}
		switch k.Via {
		case "func":
			k.As = pick(r, []string{"plain", "rune", "elem", "long", "short", "angle"})
		case "ctx":
			k.As = pick(r, []string{"plain", "elem", "long", "angle"})
			if s.El == "arg" {
				k.As = pick(r, []string{"plain", "elem", "index", "angle"})
			} else if chance(r, 40) {
				k.As = pick(r, []string{"alias", "rune"})
			}
			if chance(r, 25) && len(s.Texts) > 0 {
				k.Via = "own"
				k.As = pick(r, []string{"self", "nil"})
			}
		}
		switch {
		case chance(r, 25):
			k.Acc = pick(r, []string{"value", "interface"})
			if k.As == "index" {
				k.Acc = "value"
			}
		case strings.HasPrefix(s.Kind, "int"):
			k.Acc = pick(r, accs["i"])
		case strings.HasPrefix(s.Kind, "uint"):
			k.Acc = pick(r, accs["u"])
		case strings.HasPrefix(s.Kind, "float"):
			k.Acc = pick(r, accs["f"])
		}
		if chance(r, 8) {
			k.As = "missing" // numbers panic
			k.Acc = pick(r, []string{"string", "list", "duration", "file", "fileset", "map", "nv", "nvs", "url", "regexp", "ip", "bigint", "bigfloat", "bytes", "value", "interface"})
			if k.Via == "own" {
				k.Via = "ctx"
			}
			if chance(r, 30) {
				k.Via = pick(r, []string{"nilfunc", "nilvalues"})
			}
		}
		s.Looks = append(s.Looks, k)
	}
	return s
}
