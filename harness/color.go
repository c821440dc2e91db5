package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strings"
	"syscall"
	"time"
	"unsafe"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/color"
)

// Color and styles.

type colorFn struct {
	F   string `json:"f"`
	Arg string `json:"arg"` // of Color, Background and Style
}

type colorPiece struct {
	K     string    `json:"k"` // text pipe bare ints first emoji
	Fns   []colorFn `json:"fns"`
	T     string    `json:"t"`
	Items []string  `json:"items"`
}

type colorOp struct {
	Op     string       `json:"op"`
	W      string       `json:"w"` // out err buf
	T      string       `json:"t"`
	Name   string       `json:"name"`
	Pieces []colorPiece `json:"pieces"`
}

type colorScen struct {
	Out     string    `json:"out"` // mem tty cli cli+ (Writers of which color is off and on)
	NoColor bool      `json:"nocolor"`
	Dumb    bool      `json:"dumb"`
	Feats   []string  `json:"feats"`
	Uses    []string  `json:"uses"` // on off auto
	Before  []string  `json:"before"`
	Argv    []string  `json:"argv"`
	Sub     bool      `json:"sub"`
	Ops     []colorOp `json:"ops"`
}

func init() {
	areas["color"] = area{gen: genColor, exec: execColor, serial: true}
}

var colorColors = map[string]cli.Color{"Default": cli.Default, "Black": cli.Black, "Red": cli.Red, "Green": cli.Green, "Yellow": cli.Yellow, "Blue": cli.Blue,
	"Magenta": cli.Magenta, "Cyan": cli.Cyan, "Gray": cli.Gray, "DarkGray": cli.DarkGray, "BrightRed": cli.BrightRed, "BrightGreen": cli.BrightGreen,
	"BrightYellow": cli.BrightYellow, "BrightBlue": cli.BrightBlue, "BrightMagenta": cli.BrightMagenta, "BrightCyan": cli.BrightCyan, "White": cli.White}
var colorStyles = map[string]cli.Style{"Bold": cli.Bold, "Faint": cli.Faint, "Italic": cli.Italic, "Underline": cli.Underline, "Blink": cli.Blink,
	"Reverse": cli.Reverse, "Strikethrough": cli.Strikethrough, "Conceal": cli.Conceal}
var colorFeats = map[string]color.Feature{"flag": color.FlagFeature, "no": color.NoFlagFeature, "mode": color.ModeFeature, "funcs": color.TemplateFuncs}

// openTTY opens a terminal: what is read and what is written to
func openTTY() (*os.File, *os.File, error) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, err
	}
	var n, zero int32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), 0x40045431, uintptr(unsafe.Pointer(&zero))); e != 0 {
		m.Close()
		return nil, nil, e
	}
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), 0x80045430, uintptr(unsafe.Pointer(&n))); e != 0 {
		m.Close()
		return nil, nil, e
	}
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		m.Close()
		return nil, nil, err
	}
	return m, s, nil
}

func execColor(raw json.RawMessage) any {
	s := decode[colorScen](raw)
	os.Unsetenv("NO_COLOR")
	os.Setenv("TERM", "xterm")
	if s.NoColor {
		os.Setenv("NO_COLOR", "")
	}
	if s.Dumb {
		os.Setenv("TERM", "dumb")
	}
	defer os.Unsetenv("NO_COLOR")
	defer os.Setenv("TERM", "xterm")

	var outb, errb bytes.Buffer
	var stdout io.Writer = &outb
	output := func() string { return outb.String() }
	switch s.Out {
	case "cli", "cli+":
		b := cli.NewBuffer()
		b.SetColorCapable(s.Out == "cli+")
		stdout, output = b, b.String
	case "tty":
		m, t, err := openTTY()
		if err != nil {
			return obj{"notty": true}
		}
		defer m.Close()
		stdout = t
		var got bytes.Buffer
		done := make(chan struct{})
		go func() {
			_, _ = io.Copy(&got, m) // until nothing has it open for writing
			close(done)
		}()
		output = func() string {
			t.Close()
			select {
			case <-done:
			case <-time.After(5 * time.Second):
			}
			return got.String()
		}
	}

	set := func(modes []string) []cli.Action {
		var res []cli.Action
		for _, m := range modes {
			switch m {
			case "on":
				res = append(res, cli.SetColor(true))
			case "off":
				res = append(res, cli.SetColor(false))
			case "auto":
				res = append(res, cli.AutodetectColor())
			case "always":
				res = append(res, color.SetMode(color.Always))
			case "never":
				res = append(res, color.SetMode(color.Never))
			case "detect":
				res = append(res, color.SetMode(color.Auto))
			}
		}
		return res
	}
	var feats color.Feature
	for _, f := range s.Feats {
		feats |= colorFeats[f]
	}
	results := []string{}
	bufs := []string{}
	act := func(c *cli.Context) error {
		var list []interface{ String() string }
		var buf cli.Writer
		for i, o := range s.Ops {
			var w cli.Writer = c.Stdout
			switch o.W {
			case "err":
				w = c.Stderr
			case "buf":
				if buf == nil {
					b := c.NewBuffer()
					buf = b
					list = append(list, b)
				}
				w = buf
			}
			switch o.Op {
			case "newbuf":
				b := c.NewBuffer()
				buf = b
				list = append(list, b)
			case "newbuf0":
				b := cli.NewBuffer()
				buf = b
				list = append(list, b)
			case "write":
				_, _ = w.Write([]byte(o.T))
			case "wstr":
				_, _ = w.WriteString(o.T)
			case "style":
				w.SetStyle(colorStyles[o.Name])
			case "fg":
				w.SetForeground(colorColors[o.Name])
			case "bg":
				w.SetBackground(colorColors[o.Name])
			case "reset":
				w.Reset()
			case "styled":
				_, _ = w.Styled(colorStyles[o.Name], o.T)
			case "bold":
				_, _ = w.Bold(o.T)
			case "underline":
				_, _ = w.Underline(o.T, 7)
			case "cap":
				results = append(results, fmt.Sprint(w.ColorCapable()))
			case "wset":
				w.SetColorCapable(o.T == "on")
			case "wauto":
				w.ResetColorCapable()
			case "set":
				c.SetColor(o.T == "on")
			case "auto":
				c.AutodetectColor()
			case "print":
				_, _ = c.Print(o.T)
			case "render":
				text := ""
				data := map[string][]string{}
				for j, p := range o.Pieces {
					text += colorTemplate(p, j, data)
				}
				name := fmt.Sprint("t", i)
				if err := c.RegisterTemplate(name, text); err != nil {
					results = append(results, "parse")
					continue
				}
				if err := c.ExecuteTemplate(name, func(*cli.Context) any { return data }); err != nil {
					results = append(results, "error")
					continue
				}
				results = append(results, "ok")
			}
		}
		for _, b := range list {
			bufs = append(bufs, escape(b.String()))
		}
		return nil
	}
	app := &cli.App{Name: "app", Stdin: strings.NewReader(""), Stdout: stdout, Stderr: &errb,
		Uses:   cli.ActionPipeline(append([]cli.Action{color.Options{Features: feats}}, set(s.Uses)...)),
		Before: cli.ActionPipeline(set(s.Before))}
	argv := append([]string{"app"}, s.Argv...)
	if s.Sub {
		app.Commands = []*cli.Command{{Name: "sub", Action: act}}
		argv = append(argv, "sub")
	} else {
		app.Action = act
	}
	err := app.RunContext(context.Background(), argv)
	res := errClass(err)
	return obj{"res": res, "results": results, "out": escape(output()), "err": escape(errb.String()), "bufs": bufs}
}

var colorEmoji = map[string]color.Emoji{"Tada": color.Tada, "Fire": color.Fire, "Sparkles": color.Sparkles, "Exclamation": color.Exclamation, "Bulb": color.Bulb,
	"X": color.X, "HeavyCheckMark": color.HeavyCheckMark, "Warning": color.Warning, "Play": color.Play}

func escape(s string) string {
	for n, e := range colorEmoji {
		s = strings.ReplaceAll(s, string(e), "("+n+")")
	}
	return strings.ReplaceAll(s, "\x1b", "~")
}

func colorTemplate(p colorPiece, j int, data map[string][]string) string {
	name := func(f colorFn) string {
		switch f.F {
		case "Color", "Background", "Style":
			return fmt.Sprintf("%s %q", f.F, f.Arg)
		}
		return f.F
	}
	switch p.K {
	case "text":
		return p.T
	case "emoji":
		return fmt.Sprintf("{{ Emoji %q }}", p.T)
	case "bare":
		return "{{ " + name(p.Fns[0]) + " }}"
	case "ints":
		return "{{ " + name(p.Fns[0]) + " 4 2 }}"
	case "first":
		k := fmt.Sprint("I", j)
		data[k] = p.Items
		return "{{ ." + k + ` | BoldFirst | Join "," }}`
	}
	t := fmt.Sprintf("{{ %q", p.T)
	for _, f := range p.Fns {
		t += " | " + name(f)
	}
	return t + " }}"
}

func genColorFn(r *rand.Rand) colorFn {
	var cs, ss []string
	cs = []string{"Black", "Red", "Green", "Yellow", "Blue", "Magenta", "Cyan", "Gray", "DarkGray", "BrightRed", "BrightGreen", "BrightYellow", "BrightBlue",
		"BrightMagenta", "BrightCyan", "White"}
	ss = []string{"Bold", "Faint", "Italic", "Underline", "Blink", "Reverse", "Strikethrough", "Conceal"}
	switch r.Intn(5) {
	case 0:
		return colorFn{F: pick(r, cs)}
	case 1:
		return colorFn{F: pick(r, ss)}
	case 2:
		return colorFn{F: "Color", Arg: pick(r, append(cs, "Default", "Default", "red", "Pink"))}
	case 3:
		return colorFn{F: "Background", Arg: pick(r, append(cs, "Default", "Default", "red", "Pink"))}
	}
	return colorFn{F: "Style", Arg: pick(r, append(ss, "", "Bold Underline", "Italic  Faint Bold", "Bold Nope", "Nope", "Blink Blink"))}
}

func genColor(r *rand.Rand, profile string, i int) any {
	s := colorScen{Out: pick(r, []string{"mem", "mem", "cli", "cli+"}), NoColor: chance(r, 15), Dumb: chance(r, 10), Feats: []string{}, Uses: []string{},
		Before: []string{}, Argv: []string{}, Sub: chance(r, 30), Ops: []colorOp{}}
	if profile == "tty" {
		s.Out = "tty"
	}
	if chance(r, 60) {
		for _, f := range []string{"flag", "no", "mode", "funcs"} {
			if chance(r, 60) {
				s.Feats = append(s.Feats, f)
			}
		}
	}
	modes := []string{"on", "off", "auto", "always", "never", "detect"}
	if chance(r, 25) {
		s.Uses = append(s.Uses, pick(r, modes))
	}
	if chance(r, 25) {
		s.Before = append(s.Before, pick(r, modes))
		if chance(r, 30) {
			s.Before = append(s.Before, pick(r, modes))
		}
	}
	if chance(r, 60) {
		tok := pick(r, []string{"--color", "--color=auto", "--color=always", "--color=never", "--color=true", "--color=false", "--color=ON", "--color=Off",
			"--color=maybe", "--no-color", "--no-color", "--color", "--color="})
		s.Argv = append(s.Argv, tok)
		if chance(r, 20) && strings.HasPrefix(tok, "--color=") {
			s.Argv = append(s.Argv, pick(r, []string{"--color=always", "--color=never", "--color=auto"}))
		}
	}
	texts := []string{"", "x", "yes", "a b", "<tag>"}
	var piece func() colorPiece
	piece = func() colorPiece {
		p := colorPiece{K: pick(r, []string{"text", "pipe", "pipe", "pipe", "bare", "ints", "first", "emoji"}), Fns: []colorFn{}, T: pick(r, texts), Items: []string{}}
		switch p.K {
		case "pipe":
			for n := 1 + r.Intn(3); n > 0; n-- {
				p.Fns = append(p.Fns, genColorFn(r))
			}
		case "bare":
			f := genColorFn(r)
			if chance(r, 30) {
				f = colorFn{F: pick(r, []string{"Reset", "ResetColor"})}
			}
			p.Fns = append(p.Fns, f)
		case "ints":
			p.Fns = append(p.Fns, genColorFn(r))
		case "first":
			for n := r.Intn(3); n > 0; n-- {
				p.Items = append(p.Items, pick(r, texts))
			}
		case "emoji":
			p.T = pick(r, []string{"", "Nope", "Tada", "Fire", "Sparkles", "Exclamation", "Bulb", "X", "HeavyCheckMark", "Warning", "Play"})
		}
		return p
	}
	colors := []string{"Default", "Red", "White", "DarkGray", "BrightCyan"}
	styles := []string{"Bold", "Faint", "Italic", "Underline", "Blink", "Reverse", "Strikethrough", "Conceal"}
	for n := 1 + r.Intn(8); n > 0; n-- {
		o := colorOp{Op: pick(r, []string{"write", "wstr", "style", "fg", "bg", "reset", "styled", "bold", "underline", "cap", "cap", "wset", "wauto", "set", "auto",
			"newbuf", "newbuf0", "render", "render", "render", "print"}), W: pick(r, []string{"out", "out", "err", "buf"}), T: pick(r, texts), Pieces: []colorPiece{}}
		switch o.Op {
		case "style", "styled":
			o.Name = pick(r, styles)
		case "fg", "bg":
			o.Name = pick(r, colors)
		case "wset", "set":
			o.T = pick(r, []string{"on", "off"})
		case "render":
			for m := 1 + r.Intn(3); m > 0; m-- {
				o.Pieces = append(o.Pieces, piece())
			}
		}
		s.Ops = append(s.Ops, o)
	}
	return s
}
