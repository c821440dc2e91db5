package main

import (
	"bytes"
	"encoding/json"
	"math/rand"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
)

// Wrapped text.

type wrapWord struct {
	Sp int    `json:"sp"`
	W  string `json:"w"`
}

type wrapLine struct {
	Lead  int        `json:"lead"`
	Words []wrapWord `json:"words"`
}

type wrapScen struct {
	Lines  []wrapLine `json:"lines"`
	Indent int        `json:"indent"`
	Width  int        `json:"width"`
}

func init() {
	areas["wrap"] = area{gen: genWrap, exec: execWrap}
}

func execWrap(raw json.RawMessage) any {
	s := decode[wrapScen](raw)
	var in, out bytes.Buffer
	for i, l := range s.Lines {
		if i > 0 {
			in.WriteString("\n")
		}
		in.WriteString(strings.Repeat(" ", l.Lead))
		for _, w := range l.Words {
			in.WriteString(strings.Repeat(" ", w.Sp))
			in.WriteString(strings.ReplaceAll(w.W, "~", "\x1b[1;31m"))
		}
	}
	cli.Wrap(&out, in.String(), strings.Repeat(" ", s.Indent), s.Width)
	text := strings.ReplaceAll(out.String(), "\x1b[1;31m", "~")
	if !strings.HasSuffix(text, "\n") {
		return obj{"out": []string{}, "unended": text}
	}
	return obj{"out": strings.Split(strings.TrimSuffix(text, "\n"), "\n")}
}

func genWrap(r *rand.Rand, profile string, i int) any {
	s := wrapScen{Lines: []wrapLine{}, Width: pick(r, []int{0, 1, 2, 3, 5, 6, 7, 8, 10, 12, 16, 20})}
	if chance(r, 40) {
		s.Indent = r.Intn(5)
	} else if chance(r, 15) {
		s.Indent = r.Intn(12)
	}
	for n := 1 + r.Intn(3); n > 0; n-- {
		l := wrapLine{Words: []wrapWord{}}
		m := r.Intn(7)
		if m > 0 && chance(r, 30) {
			l.Lead = r.Intn(5)
		}
		for j := 0; j < m; j++ {
			w := wrapWord{W: strings.Repeat(pick(r, []string{"a", "b", "c", "[x]"}), 1+r.Intn(3))}
			if chance(r, 20) {
				w.W = "~" + w.W
			}
			if chance(r, 20) {
				w.W += "~"
			}
			if chance(r, 8) {
				w.W = w.W + "~" + w.W
			}
			if j > 0 {
				w.Sp = 1
				if chance(r, 20) {
					w.Sp = 1 + r.Intn(3)
				}
			}
			l.Words = append(l.Words, w)
		}
		s.Lines = append(s.Lines, l)
	}
	return s
}
