package main

import (
	"encoding/json"
	"math/big"
	"math/rand"
	"net"
	"net/url"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/kballard/go-shellquote"
)

// Quoting, joining and splitting.

type quoteScen struct {
	Op   string   `json:"op"` // split join quote list map value
	Text string   `json:"text"`
	List []string `json:"list"`
	Sep  string   `json:"sep"`
	N    int      `json:"n"`
	Kind string   `json:"kind"`
}

func init() {
	areas["quote"] = area{gen: genQuote, exec: execQuote}
}

type qText struct{ s string }

func (t qText) MarshalText() ([]byte, error) { return []byte(t.s), nil }

type qStr struct{ s string }

func (t qStr) String() string { return t.s }

// Scenarios have stand-ins for what isn't ASCII
var (
	qDec = strings.NewReplacer("\x01", "é", "\x02", "\u00a0", "\x03", "日")
	qEnc = strings.NewReplacer("é", "\x01", "\u00a0", "\x02", "日", "\x03")
)

func execQuote(raw json.RawMessage) any {
	s := decode[quoteScen](raw)
	s.Text = qDec.Replace(s.Text)
	for i, x := range s.List {
		s.List[i] = qDec.Replace(x)
	}
	split := func(t string) obj {
		w, err := cli.Split(t)
		e := ""
		switch err {
		case nil:
		case shellquote.UnterminatedSingleQuoteError:
			e, w = "single", nil
		case shellquote.UnterminatedDoubleQuoteError:
			e, w = "double", nil
		case shellquote.UnterminatedEscapeError:
			e, w = "escape", nil
		default:
			e, w = err.Error(), nil
		}
		if w == nil {
			w = []string{}
		}
		for i, x := range w {
			w[i] = qEnc.Replace(x)
		}
		return obj{"words": w, "err": e, "text": qEnc.Replace(t)}
	}
	switch s.Op {
	case "split":
		return split(s.Text)
	case "join":
		before := append([]string{}, s.List...)
		o := split(cli.Join(s.List))
		for i := range before {
			if before[i] != s.List[i] {
				o["err"] = "list changed"
			}
		}
		return o
	case "files":
		return split((&cli.FileSet{Files: s.List}).String())
	case "quote":
		if s.Kind == "ptr" {
			return split(cli.Quote(&s.Text))
		}
		return split(cli.Quote(s.Text))
	case "nv":
		return split((&cli.NameValue{Name: s.List[0], Value: s.List[1]}).String())
	case "list":
		w := cli.SplitList(s.Text, s.Sep, s.N)
		if w == nil {
			w = []string{}
		}
		return obj{"words": w}
	case "map":
		m := cli.SplitMap(s.Text)
		w := []string{}
		ks := []string{}
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			w = append(w, k+" => "+m[k])
		}
		return obj{"bag": w}
	}
	var v any
	switch s.Kind {
	case "nil":
		v = nil
	case "strs":
		v = s.List
	case "map":
		m := map[string]string{}
		for _, x := range s.List {
			m[x] = "v" + x
		}
		v = m
	case "bytes":
		v = []byte(s.Text)
	case "nvs":
		nv := []*cli.NameValue{}
		for _, x := range s.List {
			nv = append(nv, &cli.NameValue{Name: x, Value: "v"})
		}
		v = nv
	case "int":
		v, _ = strconv.Atoi(s.Text)
	case "intptr":
		n, _ := strconv.ParseInt(s.Text, 10, 64)
		v = &n
	case "uint8":
		n, _ := strconv.ParseUint(s.Text, 10, 8)
		v = uint8(n)
	case "bool":
		v = s.Text == "true"
	case "float":
		v, _ = strconv.ParseFloat(s.Text, 64)
	case "url":
		v, _ = url.Parse(s.Text)
	case "ip":
		v = net.ParseIP(s.Text)
	case "regexp":
		v = regexp.MustCompile(s.Text)
	case "bigint":
		v, _ = new(big.Int).SetString(s.Text, 10)
	case "duration":
		v, _ = time.ParseDuration(s.Text)
	case "stringer":
		v = qStr{s.Text}
	case "text":
		v = qText{s.Text}
	}
	return obj{"text": cli.Quote(v)}
}

func genQuote(r *rand.Rand, profile string, i int) any {
	s := quoteScen{List: []string{}, N: -1}
	alpha := []string{"a", "b", "a", " ", "'", "\"", "\\", "\n", "\t", "$", "`", "*", "?", "[", "#", "~", "&", ";", "|", "<", ">", "(", ")", "!", "{", "=", "%", "-", ",", "\x01", "\r", "\x02", "\x03", "/", "^", "@", "+", ":", ".", "_", "A", "Z", "0", "9"}
	str := func(max int) string {
		var b strings.Builder
		for n := r.Intn(max + 1); n > 0; n-- {
			if chance(r, 40) {
				b.WriteString(alpha[r.Intn(10)])
			} else {
				b.WriteString(pick(r, alpha))
			}
		}
		return b.String()
	}
	if profile == "all" { // every short list, in order of length; the last letter separates
		set := []string{}
		for _, c := range alpha {
			if !slices.Contains(set, c) {
				set = append(set, c)
			}
		}
		s.Op, s.List = "join", []string{""}
		for n := i; n > 0; n = (n - 1) / (len(set) + 1) {
			if d := (n - 1) % (len(set) + 1); d == len(set) {
				s.List = append(s.List, "")
			} else {
				s.List[len(s.List)-1] += set[d]
			}
		}
		return s
	}
	switch x := r.Intn(20); {
	case x < 7:
		s.Op, s.Text = "split", str(12)
	case x < 12:
		s.Op = pick(r, []string{"join", "join", "files"})
		for n := r.Intn(5); n > 0; n-- {
			s.List = append(s.List, str(5))
		}
	case x < 14:
		s.Op, s.Text, s.Kind = "quote", str(6), pick(r, []string{"", "ptr"})
	case x < 15:
		s.Op, s.List = "nv", []string{str(3), str(4)}
	case x < 18:
		s.Op, s.Sep, s.N = "list", pick(r, []string{",", ",", ";", "::", "="}), pick(r, []int{-1, -1, 1, 2, 3})
		la := []string{"a", "b", " ", "\\", s.Sep, s.Sep, "\\" + s.Sep, "\t", "x y", ":"}
		for n := r.Intn(9); n > 0; n-- {
			s.Text += pick(r, la)
		}
	default:
		s.Op = "map"
		la := []string{"a", "b", "c", "=", "=", ",", "\\,", "\\", "\\=", "d e", ",k="}
		s.Text = pick(r, la[:3]) + "="
		for n := r.Intn(9); n > 0; n-- {
			s.Text += pick(r, la)
		}
	}
	return s
}
