package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"sort"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/color"
)

// Sets of bits: features, options, filters; and the texts of these.

type bStep struct {
	Do   string   `json:"do"`   // features, write, read
	Type string   `json:"type"` // option filter timing mode
	Keys [][]int  `json:"keys"`
	V    []int    `json:"v"`
	Set  []string `json:"set"`
	Text string   `json:"text"`
}

type bScen struct {
	Steps []bStep `json:"steps"`
}

type bFeature int

func mask(b []int) (m bFeature) {
	for _, x := range b {
		m |= 1 << x
	}
	return
}

var bOptions = []struct {
	n string
	v cli.Option
}{
	{"HIDDEN", cli.Hidden}, {"REQUIRED", cli.Required}, {"EXITS", cli.Exits}, {"SKIP_FLAG_PARSING", cli.SkipFlagParsing}, {"MUST_EXIST", cli.MustExist},
	{"WORKING_DIRECTORY", cli.WorkingDirectory}, {"OPTIONAL", cli.Optional}, {"NO", cli.No}, {"NON_PERSISTENT", cli.NonPersistent},
	{"DISABLE_SPLITTING", cli.DisableSplitting}, {"MERGE", cli.Merge}, {"RIGHT_TO_LEFT", cli.RightToLeft}, {"PREVENT_SETUP", cli.PreventSetup},
	{"EACH_OCCURRENCE", cli.EachOccurrence}, {"FILE_REFERENCE", cli.FileReference}, {"ALLOW_FILE_REFERENCE", cli.AllowFileReference},
	{"SORTED_FLAGS", cli.SortedFlags}, {"SORTED_COMMANDS", cli.SortedCommands}, {"SORTED_EXPRS", cli.SortedExprs}, {"IMPLIED_ACTION", cli.ImpliedAction},
	{"VISIBLE", cli.Visible}, {"DISABLE_AUTO_VISIBILITY", cli.DisableAutoVisibility}, {"TRIGGER", cli.Trigger},
	{"DISALLOW_FLAGS_AFTER_ARGS", cli.DisallowFlagsAfterArgs},
}

var bFilters = []struct {
	n string
	v cli.FilterModes
}{
	{"ANY_FLAG", cli.AnyFlag}, {"ANY_ARG", cli.AnyArg}, {"ANY_COMMAND", cli.AnyCommand}, {"SEEN", cli.Seen}, {"ROOT_COMMAND", cli.RootCommand}, {"HAS_VALUE", cli.HasValue},
}

var bTimings = []struct {
	n string
	v cli.Timing
}{
	{"INITIAL", cli.InitialTiming}, {"BEFORE", cli.BeforeTiming}, {"ACTION", cli.ActionTiming}, {"AFTER", cli.AfterTiming},
	{"VALIDATOR", cli.ValidatorTiming}, {"IMPLICIT_VALUE", cli.ImplicitValueTiming},
}

var bModes = []struct {
	n string
	v color.Mode
}{{"auto", color.Auto}, {"always", color.Always}, {"never", color.Never}}

func optionSet(names []string) (o cli.Option) {
	for _, n := range names {
		for _, x := range bOptions {
			if x.n == n {
				o |= x.v
			}
		}
	}
	return
}

func filterSet(names []string) (o cli.FilterModes) {
	for _, n := range names {
		for _, x := range bFilters {
			if x.n == n {
				o |= x.v
			}
		}
	}
	return
}

func bOptionNames(o cli.Option) string {
	var r []string
	for _, x := range bOptions {
		if o&x.v != 0 {
			r = append(r, x.n)
			o &^= x.v
		}
	}
	if o != 0 {
		r = append(r, fmt.Sprint(int(o)))
	}
	sort.Strings(r)
	return strings.Join(r, ",")
}

func bFilterNames(o cli.FilterModes) string {
	var r []string
	for _, x := range bFilters {
		if o&x.v != 0 {
			r = append(r, x.n)
			o &^= x.v
		}
	}
	if o != 0 {
		r = append(r, fmt.Sprint(int(o)))
	}
	sort.Strings(r)
	return strings.Join(r, ",")
}

func execBits(raw json.RawMessage) any {
	s := decode[bScen](raw)
	res := []string{}
	written := func(x interface {
		String() string
		MarshalText() ([]byte, error)
	}) string {
		b, err := x.MarshalText()
		if err != nil || string(b) != x.String() {
			return "differs"
		}
		return string(b)
	}
	do := func(c context.Context, st bStep) string {
		switch st.Do {
		case "features":
			var ran []string
			m := cli.FeatureMap[bFeature]{}
			for i, k := range st.Keys {
				m[mask(k)] = cli.ActionOf(func() { ran = append(ran, fmt.Sprint(i+1)) })
			}
			if err := m.Pipeline(mask(st.V)).Execute(c); err != nil {
				return err.Error()
			}
			return strings.Join(ran, " ")
		case "write":
			switch st.Type {
			case "option":
				return written(optionSet(st.Set))
			case "filter":
				return written(filterSet(st.Set))
			case "timing":
				for _, x := range bTimings {
					if x.n == st.Set[0] {
						return written(x.v)
					}
				}
			case "mode":
				for _, x := range bModes {
					if x.n == st.Set[0] {
						return x.v.String()
					}
				}
			}
		case "read":
			switch st.Type {
			case "option":
				o := optionSet(st.Set)
				if err := o.UnmarshalText([]byte(st.Text)); err != nil {
					return "error"
				}
				return bOptionNames(o)
			case "filter":
				o := filterSet(st.Set)
				if err := o.UnmarshalText([]byte(st.Text)); err != nil {
					return "error"
				}
				return bFilterNames(o)
			case "timing":
				var t cli.Timing
				for _, x := range bTimings {
					if x.n == st.Set[0] {
						t = x.v
					}
				}
				if err := t.UnmarshalText([]byte(st.Text)); err != nil {
					return "error"
				}
				for _, x := range bTimings {
					if x.v == t {
						return x.n
					}
				}
			case "mode":
				var t color.Mode
				for _, x := range bModes {
					if x.n == st.Set[0] {
						t = x.v
					}
				}
				before := t
				if err := t.Set(st.Text); err != nil {
					if t != before {
						return "changed"
					}
					return "error"
				}
				for _, x := range bModes {
					if x.v == t {
						return x.n
					}
				}
			}
		}
		return "?"
	}
	app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard, Action: cli.ActionOf(func(c *cli.Context) {
		for _, st := range s.Steps {
			res = append(res, do(c, st))
		}
	})}
	err := app.RunContext(context.Background(), []string{"app"})
	return obj{"err": errClass(err), "res": res}
}

func genBits(r *rand.Rand, profile string, i int) any {
	s := bScen{}
	sub := func(n, p int) []int {
		b := []int{}
		for j := 0; j < n; j++ {
			if chance(r, p) {
				b = append(b, j)
			}
		}
		return b
	}
	for n := 1 + r.Intn(4); n > 0; n-- {
		st := bStep{Do: pick(r, []string{"features", "features", "write", "read"}), Keys: [][]int{}, V: []int{}, Set: []string{}}
		if st.Do == "features" {
			bits := 3 + r.Intn(4)
			seen := map[bFeature]bool{}
			for k := r.Intn(14); k > 0; k-- {
				if b := sub(bits, 40); len(b) > 0 && !seen[mask(b)] {
					seen[mask(b)] = true
					st.Keys = append(st.Keys, b)
				}
			}
			st.V = sub(bits, 75)
			s.Steps = append(s.Steps, st)
			continue
		}
		st.Type = pick(r, []string{"option", "option", "filter", "filter", "timing", "mode"})
		var all []string
		switch st.Type {
		case "option":
			for _, x := range bOptions {
				all = append(all, x.n)
			}
		case "filter":
			for _, x := range bFilters {
				all = append(all, x.n)
			}
		case "timing":
			for _, x := range bTimings {
				all = append(all, x.n)
			}
		case "mode":
			for _, x := range bModes {
				all = append(all, x.n)
			}
		}
		p := pick(r, []int{5, 20, 60})
		for _, n := range all {
			if chance(r, p) {
				st.Set = append(st.Set, n)
			}
		}
		if st.Type == "timing" || st.Type == "mode" {
			st.Set = []string{pick(r, all)}
		}
		if st.Do == "read" {
			var t []string
			for k := r.Intn(5); k > 0; k-- {
				w := pick(r, append(all, "NOPE", "", "ANYTHING", "any_flag"))
				if st.Type == "mode" {
					w = pick(r, []string{"auto", "always", "never", "true", "false", "on", "off", "", "NEVER", "Always", "OFF", "yes", " auto"})
				}
				t = append(t, pick(r, []string{"", "", " ", "  "})+w+pick(r, []string{"", "", " "}))
			}
			st.Text = strings.Join(t, ",")
			if st.Type == "mode" && len(t) > 0 {
				st.Text = t[0]
			}
		}
		s.Steps = append(s.Steps, st)
	}
	return s
}

func init() {
	areas["bits"] = area{gen: genBits, exec: execBits}
}
