package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/value"
)

// Numbers that are written in other ways: hexadecimal, octal, byte lengths; and JSON values.

type nStep struct {
	Type string `json:"type"` // hex octal bytes json
	V    string `json:"v"`    // (json) the wrapped value: text hex pogo
	By   string `json:"by"`   // (json) set data
	Text string `json:"text"`
}

type nScen struct {
	Steps []nStep `json:"steps"`
}

type nPogo struct {
	J string `json:"j"`
	K int    `json:"k"`
}

func execNums(raw json.RawMessage) any {
	s := decode[nScen](raw)
	res := []any{}
	for _, st := range s.Steps {
		var v any
		var pogo nPogo
		var text string
		var hex value.Hex
		switch st.Type {
		case "hex":
			v = new(value.Hex)
		case "octal":
			v = new(value.Octal)
		case "bytes":
			v = new(value.ByteLength)
		case "json":
			switch st.V {
			case "text":
				v = value.JSON(&text)
			case "hex":
				v = value.JSON(&hex)
			case "pogo":
				v = value.JSON(&pogo)
			}
		}
		got := []string{}
		app := &cli.App{
			Name: "app", Stdout: io.Discard, Stderr: io.Discard,
			Flags: []*cli.Flag{{Name: "o", Value: v}},
			Action: func(c *cli.Context) {
				switch x := c.Value("o").(type) {
				case value.Hex:
					got = append(got, fmt.Sprint(int(x)), x.String())
				case value.Octal:
					got = append(got, fmt.Sprint(int(x)), x.String())
				case value.ByteLength:
					got = append(got, fmt.Sprint(int(x)))
				case *string:
					got = append(got, *x)
				case *value.Hex:
					got = append(got, fmt.Sprint(int(*x)))
				case *nPogo:
					got = append(got, fmt.Sprintf("%s %d", x.J, x.K))
				default:
					got = append(got, fmt.Sprintf("?%T", x))
				}
			},
		}
		var err error
		if st.By == "data" {
			if err = cli.SetData(v, bytes.NewReader([]byte(st.Text))); err == nil {
				err = app.RunContext(context.Background(), []string{"app"})
			}
		} else {
			err = app.RunContext(context.Background(), []string{"app", "--o=" + st.Text})
		}
		if err != nil {
			got = append(got, "error")
		}
		res = append(res, got)
	}
	return obj{"res": res}
}

func genNums(r *rand.Rand, profile string, i int) any {
	s := nScen{}
	digits := func(set string, n int) string {
		var b strings.Builder
		for ; n > 0; n-- {
			b.WriteByte(set[r.Intn(len(set))])
		}
		return b.String()
	}
	sign := func() string { return pick(r, []string{"", "", "", "", "-", "+"}) }
	for n := 1 + r.Intn(4); n > 0; n-- {
		st := nStep{Type: pick(r, []string{"hex", "octal", "bytes", "bytes", "bytes", "json"}), By: "set"}
		switch st.Type {
		case "hex":
			st.Text = sign() + pick(r, []string{"", "", "0x", "0x", "0X", "0o", "x"}) + sign() + digits("0123456789abcdefABCDEF", r.Intn(17))
			if chance(r, 10) {
				st.Text = pick(r, []string{"7fffffffffffffff", "8000000000000000", "-8000000000000000", "-8000000000000001", "0x7FFFFFFFFFFFFFFF", "000000000000000000001", "0x-ff", "G", "1_0", " 1", "1 ", "0x"})
			}
		case "octal":
			st.Text = sign() + pick(r, []string{"", "", "0o", "0o", "0O", "0x", "o"}) + sign() + digits("0123456701234567018", r.Intn(9)) + digits("01234567", r.Intn(14))
			if chance(r, 10) {
				st.Text = pick(r, []string{"777777777777777777777", "1000000000000000000000", "-1000000000000000000000", "-1000000000000000000001", "0o", "1_0", "08"})
			}
		case "bytes":
			num := digits("0123456789", 1+r.Intn(3))
			unit := pick(r, []string{"", "B", "kB", "KB", "MB", "GB", "TB", "PB", "kiB", "KiB", "MiB", "GiB", "TiB", "PiB", "k", "M", "mB", "gB", "iB", "kBB", "xB"})
			if chance(r, 50) {
				num += "." + digits("0123456789", r.Intn(7))
			}
			switch {
			case chance(r, 5):
				num = "." + digits("0123456789", r.Intn(3))
			case chance(r, 5):
				num += "." + digits("0123456789", r.Intn(3))
			case chance(r, 6):
				num = digits("012345678", 1)
				unit = pick(r, []string{"EB", "EiB"})[0:2]
			case chance(r, 5):
				num, unit = digits("0123456789", 17+r.Intn(4)), pick(r, []string{"", "B"})
			case chance(r, 8):
				num = pick(r, []string{"x", "-", "+", "1 ", "$", "1,", "e"}) + num
			}
			st.Text = pick(r, []string{"", "", "", " "}) + num + pick(r, []string{"", "", "", " ", "  "}) + unit + pick(r, []string{"", "", "", " ", "x"})
		case "json":
			st.V = pick(r, []string{"text", "hex", "pogo"})
			st.By = pick(r, []string{"set", "data"})
			switch {
			case st.By == "data" && st.V == "hex":
				st.Text = pick(r, []string{`"ff"`, `"0x10"`, `"zz"`, `{}`, ``, `null`, `"7`, ` "1"`})
			case st.By == "data" && st.V == "text":
				st.Text = pick(r, []string{`"ff"`, `"0x10"`, `1`, `{}`, ``, `null`, `"7`, ` "1"`})
			case st.By == "data":
				st.Text = pick(r, []string{`{"j":"a","k":3}`, `{"k":3}`, `{}`, `{"z":1}`, `"a"`, ``, `null`, `{"k":"3"}`, `{"j":"a"`, `[]`})
			case st.V == "text":
				st.Text = pick(r, []string{"a", "", "1", "0x10", "w x"})
			default:
				st.Text = pick(r, []string{"a", "", "1", "0x10", "w x", "ff"})
			}
		}
		s.Steps = append(s.Steps, st)
	}
	return s
}

func init() {
	areas["nums"] = area{gen: genNums, exec: execNums}
}
