package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"net"
	"net/url"
	"regexp"
	"strings"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
)

// The help screen.

type helpEl struct {
	K       string   `json:"k"` // cmd flag arg
	Up      int      `json:"up"`
	Name    string   `json:"name"`
	Aliases []string `json:"aliases"`
	Opts    []string `json:"opts"`
	Cat     string   `json:"cat"`
	Help    bool     `json:"help"`
	Kind    string   `json:"kind"`
	Act     bool     `json:"act"`
	Text    bool     `json:"text"` // has UsageText
	Ph      []helpPh `json:"ph"`
}

type helpPh struct {
	N   string `json:"n"`
	Pos int    `json:"pos"`
}

type helpScen struct {
	Els  []helpEl `json:"els"`
	Via  string   `json:"via"` // flag command none
	At   int      `json:"at"`
	Toks []string `json:"toks"`
	Argv []string `json:"argv"`
}

func init() {
	// the library keeps whether usage is in color in a global
	areas["help"] = area{gen: genHelp, exec: execHelp, serial: true}
}

func execHelp(raw json.RawMessage) any {
	s := decode[helpScen](raw)
	var ran []string
	cmds := make([]*cli.Command, len(s.Els)+1)
	for i, e := range s.Els {
		var opts cli.Option
		for _, o := range e.Opts {
			switch o {
			case "Hidden":
				opts |= cli.Hidden
			case "Visible":
				opts |= cli.Visible
			case "DisableAutoVisibility":
				opts |= cli.DisableAutoVisibility
			case "Exits":
				opts |= cli.Exits
			case "Required":
				opts |= cli.Required
			case "RightToLeft":
				opts |= cli.RightToLeft
			case "SortedFlags":
				opts |= cli.SortedFlags
			case "SortedCommands":
				opts |= cli.SortedCommands
			}
		}
		help := ""
		if e.Help {
			help = "About " + e.Name
			for _, p := range e.Ph {
				if p.Pos < 0 {
					help += " with {" + p.N + "}"
				} else {
					help += fmt.Sprintf(" with {%d:%s}", p.Pos, p.N)
				}
			}
		}
		text := ""
		if e.Text {
			text = "(" + e.Name + " text)"
		}
		switch e.K {
		case "cmd":
			c := &cli.Command{Name: e.Name, UsageText: text, Aliases: e.Aliases, Options: opts, Category: e.Cat, HelpText: help}
			if e.Act {
				c.Action = func() { ran = append(ran, e.Name) }
			}
			cmds[i+1] = c
			if e.Up > 0 {
				cmds[e.Up].Subcommands = append(cmds[e.Up].Subcommands, c)
			}
		case "flag":
			f := &cli.Flag{Name: e.Name, UsageText: text, Aliases: e.Aliases, Options: opts, Category: e.Cat, HelpText: help}
			switch e.Kind {
			case "bool":
				f.Value = new(bool)
			case "int":
				f.Value = new(int)
			case "list":
				f.Value = new([]string)
			case "map":
				f.Value = new(map[string]string)
			case "uint":
				f.Value = new(uint8)
			case "float":
				f.Value = new(float64)
			case "duration":
				f.Value = new(time.Duration)
			case "url":
				f.Value = new(*url.URL)
			case "ip":
				f.Value = new(net.IP)
			case "regexp":
				f.Value = new(*regexp.Regexp)
			case "file":
				f.Value = new(cli.File)
			case "files":
				f.Value = new(cli.FileSet)
			case "bigint":
				f.Value = new(*big.Int)
			default:
				f.Value = new(string)
			}
			cmds[e.Up].Flags = append(cmds[e.Up].Flags, f)
		case "arg":
			a := &cli.Arg{Name: e.Name, UsageText: text, Options: opts, HelpText: help}
			switch e.Kind {
			case "0":
				a.NArg = 0
			case "1":
				a.NArg = 1
			case "2":
				a.NArg, a.Value = 2, new([]string)
			case "-1":
				a.NArg, a.Value = cli.TakeUntilNextFlag, new([]string)
			case "opt":
				a.NArg = cli.OptionalArg(func(string) bool { return true })
			}
			cmds[e.Up].Args = append(cmds[e.Up].Args, a)
		}
	}
	r := cmds[1]
	var stdout, stderr bytes.Buffer
	app := &cli.App{
		Name: r.Name, UsageText: r.UsageText, Options: r.Options, HelpText: r.HelpText, Action: r.Action,
		Flags: r.Flags, Args: r.Args, Commands: r.Subcommands,
		Stdout: &stdout, Stderr: &stderr, Stdin: bytes.NewReader(nil),
	}
	err := app.RunContext(context.Background(), append([]string{r.Name}, s.Argv...))
	res := "ok"
	if err != nil {
		var pe *cli.ParseError
		if ee := cli.ExitCoder(nil); errors.As(err, &pe) && pe.Code == cli.CommandNotFound {
			res = "missing " + pe.Name
		} else if errors.As(err, &ee) && ee.ExitCode() == 0 {
			res = "exit 0"
		} else {
			res = "other: " + err.Error()
		}
	}
	out := readHelp(stderr.String())
	out["res"], out["ran"] = res, strings.Join(ran, " ")
	if stdout.Len() > 0 {
		out["stdout"] = stdout.String()
	}
	return out
}

var gap = regexp.MustCompile(`\s\s+`)

// readHelp takes a help screen apart
func readHelp(text string) obj {
	rows := []obj{}
	usage, about, junk := "", "", []string{}
	sec, cat := "flags", ""
	lines := strings.Split(text, "\n")
	i := 0
	if strings.HasPrefix(text, "usage: ") {
		var words []string
		for ; i < len(lines) && strings.TrimSpace(lines[i]) != ""; i++ {
			words = append(words, strings.Fields(lines[i])...)
		}
		usage = strings.Join(words[1:], " ")
		for i < len(lines) && strings.TrimSpace(lines[i]) == "" {
			i++
		}
		if i < len(lines) && strings.HasPrefix(strings.TrimSpace(lines[i]), "About ") {
			about = strings.TrimSpace(lines[i])
			i++
		}
	}
	for ; i < len(lines); i++ {
		l := strings.TrimSpace(lines[i])
		switch {
		case l == "":
		case l == "Sub-commands:":
			sec, cat = "commands", ""
		case l == "Global options (specify before any sub-commands)":
			sec, cat = "global", ""
		case strings.HasSuffix(l, ":") && lines[i] == l:
			cat = strings.TrimSuffix(l, ":")
		default:
			if sec != "commands" && !strings.HasPrefix(l, "-") {
				junk = append(junk, l)
				continue
			}
			f := gap.Split(l, -1)
			help := ""
			if len(f) > 1 {
				help = strings.Join(f[1:], "  ")
			}
			if n := len(rows); n > 0 && strings.HasSuffix(rows[n-1]["row"].(string), ",") { // the names go on
				rows[n-1]["row"] = rows[n-1]["row"].(string) + " " + l
				continue
			}
			rows = append(rows, obj{"sec": sec, "cat": cat, "row": f[0], "help": help})
		}
	}
	out := obj{"usage": usage, "about": about, "rows": rows}
	if len(junk) > 0 {
		out["junk"] = junk
	}
	return out
}

func genHelp(r *rand.Rand, profile string, i int) any {
	s := helpScen{Toks: []string{}, Argv: []string{}}
	used := map[int]map[string]bool{}
	fresh := func(up int, all []string) string {
		if used[up] == nil {
			used[up] = map[string]bool{"help": true, "h": true, "version": true}
		}
		for tries := 0; tries < 6; tries++ {
			if n := pick(r, all); !used[up][n] {
				used[up][n] = true
				return n
			}
		}
		return ""
	}
	add := func(e helpEl) int {
		e.Text = chance(r, 8) && (e.K != "flag" || e.Kind != "bool")
		if e.Aliases == nil {
			e.Aliases = []string{}
		}
		if e.Opts == nil {
			e.Opts = []string{}
		}
		e.Ph = []helpPh{}
		if e.K == "flag" && chance(r, 15) {
			for n := 1 + r.Intn(3); n > 0; n-- {
				e.Ph = append(e.Ph, helpPh{pick(r, []string{"X", "Y", "FILE"}), r.Intn(4) - 1})
			}
		}
		s.Els = append(s.Els, e)
		return len(s.Els)
	}
	opt := func(e *helpEl, p int, o string) {
		if chance(r, p) {
			e.Opts = append(e.Opts, o)
		}
	}
	cat := func() string {
		if chance(r, 50) {
			return ""
		}
		return pick(r, []string{"Cat", "Other", "Zed"})
	}
	cats := cat
	if chance(r, 40) {
		cats = func() string { return "" }
	}
	cmdNames := []string{"sub", "deep", "er", "list", "_own", "_in", "a", "b"}
	root := helpEl{K: "cmd", Name: "app", Help: chance(r, 40), Act: chance(r, 50)}
	opt(&root, 8, "DisableAutoVisibility")
	opt(&root, 12, "RightToLeft")
	opt(&root, 15, "SortedFlags")
	opt(&root, 15, "SortedCommands")
	add(root)
	var grow func(up, depth int)
	grow = func(up, depth int) {
		if depth > 3 {
			return
		}
		n := r.Intn(4)
		if depth == 1 && n == 0 {
			n = r.Intn(4)
		}
		for ; n > 0; n-- {
			name := fresh(up, cmdNames)
			if name == "" {
				continue
			}
			e := helpEl{K: "cmd", Up: up, Name: name, Cat: cats(), Help: chance(r, 60), Act: chance(r, 60)}
			if chance(r, 25) {
				if a := fresh(up, cmdNames); a != "" && !strings.HasPrefix(a, "_") {
					e.Aliases = []string{a}
				}
			}
			opt(&e, 15, "Hidden")
			opt(&e, 10, "Visible")
			opt(&e, 8, "DisableAutoVisibility")
			opt(&e, 12, "RightToLeft")
			opt(&e, 15, "SortedFlags")
			opt(&e, 15, "SortedCommands")
			id := add(e)
			if chance(r, 60) {
				grow(id, depth+1)
			}
		}
	}
	grow(1, 1)
	// who is asked
	var all []int
	for j, e := range s.Els {
		if e.K == "cmd" {
			all = append(all, j+1)
		}
	}
	target := pick(r, all)
	subs := func(i int) (out []int) {
		for j, e := range s.Els {
			if e.K == "cmd" && e.Up == i {
				out = append(out, j+1)
			}
		}
		return
	}
	path := func(i int) (out []int) {
		for ; i > 0; i = s.Els[i-1].Up {
			out = append([]int{i}, out...)
		}
		return
	}
	s.Via = pick(r, []string{"flag", "flag", "flag", "command", "none"})
	if s.Via == "command" && len(subs(1)) == 0 {
		s.Via = "flag"
	}
	chain := path(target)
	s.At = target
	cut := len(chain)
	switch s.Via {
	case "command":
		cut = 1
	case "flag":
		cut = 1 + r.Intn(len(chain))
	}
	s.At = chain[cut-1]
	executed := map[int]bool{}
	for _, j := range chain[:cut] {
		executed[j] = true
	}
	call := func(j int) string {
		e := s.Els[j-1]
		return pick(r, append([]string{e.Name}, e.Aliases...))
	}
	for _, j := range chain[cut:] {
		s.Toks = append(s.Toks, call(j))
	}
	last := target
	// flags and args
	flagNames := []string{"f", "g", "x", "flag", "long", "name", "_fl", "z", "y"}
	for _, j := range all {
		if used[-j] == nil && j == 1 {
			used[-j] = map[string]bool{"help": true, "h": true, "version": true}
		}
		bare := chance(r, 25)
		for n := r.Intn(5); n > 0; n-- {
			name := fresh(-j, flagNames)
			if name == "" {
				continue
			}
			e := helpEl{K: "flag", Up: j, Name: name, Cat: cats(), Help: chance(r, 60),
				Kind: pick(r, []string{"bool", "bool", "bool", "string", "int", "list", "map",
					pick(r, []string{"uint", "float", "duration", "url", "ip", "regexp", "file", "files", "bigint"})})}
			if bare && e.Cat != "" {
				e.Help = false
			}
			if chance(r, 30) {
				if a := fresh(-j, flagNames); a != "" && !strings.HasPrefix(a, "_") && (len(a) == 1) != (len(name) == 1) {
					e.Aliases = []string{a}
				}
			}
			opt(&e, 15, "Hidden")
			opt(&e, 10, "Visible")
			opt(&e, 10, "Exits")
			opt(&e, 6, "DisableAutoVisibility")
			if !executed[j] {
				opt(&e, 25, "Required")
			}
			add(e)
		}
		if chance(r, 40) && (!executed[j] || len(subs(j)) == 0 || s.Via == "none" && j == s.At) {
			kinds := []string{"0", "opt", "-1"}
			if !executed[j] && len(subs(j)) == 0 {
				kinds = []string{"0", "1", "2", "-1", "opt", "1"}
			}
			if len(subs(j)) > 0 {
				kinds = []string{"0"}
			}
			names := []string{"in", "file", "_arg"}
			for n := 1 + r.Intn(3); n > 0; n-- {
				e := helpEl{K: "arg", Up: j, Name: names[n-1], Kind: pick(r, kinds), Help: chance(r, 40)}
				if executed[j] && e.Kind == "-1" {
					n = 1
				}
				opt(&e, 15, "Hidden")
				opt(&e, 10, "Visible")
				add(e)
			}
		}
	}
	// what follows
	if s.Via == "flag" && chance(r, 40) {
		switch {
		case len(subs(last)) == 0 && last != s.At:
			s.Toks = append(s.Toks, pick(r, []string{"q", "--q", "sub"}))
		case len(subs(last)) > 0:
			q := pick(r, []string{"q", "-q", "sub"})
			if len(s.Toks) == 0 && q == "-q" {
				q = "q" // it would be a flag of this command
			}
			s.Toks = append(s.Toks, q)
		}
	}
	if s.Via == "command" && chance(r, 15) {
		s.Toks = append(s.Toks, pick(r, []string{"q", "sub"}))
	}
	for _, j := range chain[1:cut] {
		s.Argv = append(s.Argv, call(j))
	}
	switch s.Via {
	case "flag":
		s.Argv = append(s.Argv, pick(r, []string{"--help", "-h"}))
	case "command":
		s.Argv = append(s.Argv, pick(r, []string{"help", "h"}))
	}
	s.Argv = append(s.Argv, s.Toks...)
	return s
}
