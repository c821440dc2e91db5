package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/url"
	"regexp"
	"strings"
	"time"

	"encoding/json"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/structure"
)

// Structured values: the fields of a struct that are set by name-value pairs.

type sScen struct {
	How    string     `json:"how"`   // flag arg set value decode
	Whole  string     `json:"whole"` // "", method or option
	Strict bool       `json:"strict"`
	Init   bool       `json:"init"`
	Uses   []string   `json:"uses"`
	In     [][]string `json:"in"` // decode: key, type, text
}

type sAcc struct{ v string }

func (a *sAcc) Set(s string) error {
	if s == "bad" {
		return errors.New("bad")
	}
	a.v += "<" + s + ">"
	return nil
}
func (a *sAcc) String() string { return a.v }

type sAll struct {
	Name  string
	Count int
	Small uint8
	On    bool
	Wait  time.Duration
	Tags  []string
	IP    net.IP
	Where *url.URL `mapstructure:"link"`
	Re    *regexp.Regexp
	Acc   *sAcc
	NAcc  *sAcc
}

func (s *sAll) show() []string {
	ip := "-"
	if s.IP != nil {
		ip = s.IP.String()
	}
	u, re, a, na := "-", "-", "-", "-"
	if s.Where != nil {
		u = s.Where.String()
	}
	if s.Re != nil {
		re = s.Re.String()
	}
	if s.Acc != nil {
		a = s.Acc.v
	}
	if s.NAcc != nil {
		na = s.NAcc.v
	}
	return []string{s.Name, fmt.Sprint(s.Count), fmt.Sprint(s.Small), fmt.Sprint(s.On), s.Wait.String(), strings.Join(s.Tags, "|"), ip, u, re, a, na}
}

func execStruc(raw json.RawMessage) any {
	s := decode[sScen](raw)
	v := &sAll{Acc: new(sAcc)}
	tags := []string{"a", "b", "c", "d"}
	if s.Init {
		v.Name, v.Count, v.Tags, v.Where, v.Re, v.Acc.v = "n0", 5, tags, &url.URL{Path: "rel/p"}, regexp.MustCompile("q"), "i"
		v.On, v.Wait = true, time.Second
	}
	val := structure.Of(v)
	if s.Strict {
		val = val.WithOptions(structure.ErrorUnused)
	}
	if s.Whole == "method" {
		val.DisableSplitting()
	}
	var err error
	same := true
	switch s.How {
	case "decode":
		in := map[string]any{}
		for _, e := range s.In {
			switch e[1] {
			case "int":
				var n int
				fmt.Sscan(e[2], &n)
				in[e[0]] = n
			case "bool":
				in[e[0]] = e[2] == "true"
			default:
				in[e[0]] = e[2]
			}
		}
		if s.Strict {
			err = structure.Decode(in, v, structure.ErrorUnused)
		} else {
			err = structure.Decode(in, v)
		}
	case "set":
		err = cli.Set(val, s.Uses...)
	case "value":
		for _, u := range s.Uses {
			if err == nil {
				err = val.Set(u)
			}
		}
	default:
		opts := cli.Option(0)
		if s.Whole == "option" {
			opts = cli.DisableSplitting
		}
		ran := 0
		app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard, Action: func(c *cli.Context) {
			ran++
			p, _ := c.Value("set").(*sAll)
			same = p == v
		}}
		argv := []string{"app"}
		if s.How == "flag" {
			app.Flags = []*cli.Flag{{Name: "set", Aliases: []string{"s"}, Value: val, Options: opts}}
			for i, u := range s.Uses {
				if i%2 == 0 {
					argv = append(argv, "-s", u)
				} else {
					argv = append(argv, "--set="+u)
				}
			}
		} else {
			app.Args = []*cli.Arg{{Name: "set", Value: val, Options: opts, NArg: cli.TakeUntilNextFlag}}
			argv = append(argv, "--")
			argv = append(argv, s.Uses...)
		}
		err = app.RunContext(context.Background(), argv)
		if (err == nil) != (ran == 1) {
			return obj{"err": "ran", "v": []string{}}
		}
	}
	if err != nil {
		return obj{"err": "err", "v": []string{}}
	}
	if !same {
		return obj{"err": "not the value", "v": []string{}}
	}
	if s.Init && strings.Join(tags, "") != "abcd" {
		return obj{"err": "the initial list was overwritten", "v": []string{}}
	}
	return obj{"err": "", "v": v.show()}
}

var sNames = []string{"Name", "Count", "Small", "On", "Wait", "Tags", "IP", "link", "Re", "Acc", "NAcc"}

func sText(r *rand.Rand, i int) string {
	ok := [][]string{
		{"x", "", "y z", "a=b", `p\,q`, `m\=n`, "k,l", `w\\`},
		{"0", "7", "-3", "0x10", "+3", "", "010", "127"},
		{"0", "7", "255", "", "128"},
		{"true", "false", "1", "0", "", "T", "t", "FALSE"},
		{"0", "1s", "90s", "150ms", "1h1m"},
		{"x", "", "x,y", `x\,y`, "x,y,z,w,v", ",", "y"},
		{"1.2.3.4", "::1"},
		{"http://h/p", "q", "", "rel/p"},
		{"a+", "q", "", "x|y"},
		{"x", "", "y"},
		{"x", "", "y"},
	}[i]
	if chance(r, 6) {
		return pick(r, []string{"zz", "256", "bad", "on", "", "-3", "1.2.3.4"})
	}
	return pick(r, ok)
}

func genStruc(r *rand.Rand, profile string, i int) any {
	s := sScen{How: pick(r, []string{"flag", "flag", "arg", "set", "value", "decode"}), Strict: chance(r, 25), Init: chance(r, 50), Uses: []string{}, In: [][]string{}}
	s.Whole = pick(r, []string{"", "", "", "method", "option"})
	if s.Whole == "option" && s.How != "flag" && s.How != "arg" {
		s.Whole = ""
	}
	name := func(f int) string {
		n := sNames[f]
		if chance(r, 25) {
			n = pick(r, []string{strings.ToLower(n), strings.ToUpper(n)})
		}
		return n
	}
	if s.How == "decode" {
		s.Init, s.Whole = false, ""
		for _, f := range r.Perm(len(sNames))[:1+r.Intn(3)] {
			switch t := pick(r, []string{"str", "str", "int", "bool"}); {
			case t == "str":
				x := sText(r, f)
				s.In = append(s.In, []string{name(f), t, x})
			case f == 6 || f == 2 && t == "int":
			case t == "int":
				s.In = append(s.In, []string{name(f), t, pick(r, []string{"0", "1", "7"})})
			case t == "bool":
				s.In = append(s.In, []string{name(f), t, pick(r, []string{"true", "false"})})
			}
		}
		if chance(r, 10) {
			s.In = append(s.In, []string{"zzz", "str", "1"})
		}
		return s
	}
	for j, m := 0, 1+r.Intn(3); j < m; j++ {
		var ps []string
		for _, f := range r.Perm(len(sNames))[:1+r.Intn(3)] {
			ps = append(ps, name(f)+"="+sText(r, f))
		}
		if s.Whole != "" && strings.HasPrefix(strings.ToLower(ps[0]), "link") {
			ps = ps[:1]
		}
		if chance(r, 8) {
			ps = append(ps, pick(r, []string{"zzz=1", "lone", "=v", ""}))
		}
		if chance(r, 8) {
			ps = append([]string{pick(r, []string{"zzz=1", "lone", "=v", ""})}, ps...)
		}
		if chance(r, 15) { // the last of two, or the exact name of two
			f := pick(r, []int{0, 1, 5})
			ps = []string{sNames[f] + "=" + sText(r, f), pick(r, []string{sNames[f], strings.ToLower(sNames[f])}) + "=" + sText(r, f)}
			if chance(r, 50) {
				ps[0], ps[1] = ps[1], ps[0]
			}
		}
		u := strings.Join(ps, ",")
		if chance(r, 4) {
			u = pick(r, []string{"", " ", ",", "="})
		}
		s.Uses = append(s.Uses, u)
	}
	return s
}

func init() {
	areas["struc"] = area{gen: genStruc, exec: execStruc}
}
