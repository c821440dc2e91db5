package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/signal"
	"sync"
	"syscall"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
)

// The context.Context that handlers see.

type kStep struct {
	At    int    `json:"at"`
	Stage string `json:"stage"`
	Do    string `json:"do"`
	K     string `json:"k"`
	V     string `json:"v"`
	How   string `json:"how"`
}

type kScen struct {
	Path   []string `json:"path"`
	XFirst bool     `json:"xfirst"`
	Steps  []kStep  `json:"steps"`
}

type kKey string

// The process outlives signals that nobody handles
var kSink = sync.OnceFunc(func() { signal.Notify(make(chan os.Signal, 1), syscall.SIGUSR1) })

// asked are the keys looked at in a command: those that no command outside of it sets in Uses
func (s kScen) asked(c int) []string {
	res := []string{}
	for _, k := range []string{"base", "k1", "k2", "k3"} {
		ok := true
		for _, t := range s.Steps {
			if t.Stage == "uses" && t.Do == "set" && t.K == k && t.At > c {
				ok = false
			}
		}
		if ok {
			res = append(res, k)
		}
	}
	return res
}

func execCtxv(raw json.RawMessage) any {
	s := decode[kScen](raw)
	kSink()
	logs := []any{}
	made := []context.Context{}
	base, cancel := context.WithCancel(context.WithValue(context.Background(), kKey("base"), "0"))
	defer cancel()

	look := func(at int, stage string) cli.Action {
		return cli.ActionOf(func(ctx context.Context) error {
			c := cli.FromContext(ctx)
			vals := []string{}
			for i, k := range s.asked(at) {
				var v any
				switch i % 3 {
				case 0:
					v = c.Value(kKey(k))
				case 1:
					v = ctx.Value(kKey(k))
				default:
					v = c.Context().Value(kKey(k))
				}
				if v == nil {
					v = ""
				}
				vals = append(vals, fmt.Sprint(v))
			}
			dl := "none"
			if d, ok := c.Deadline(); ok {
				dl = "far"
				if time.Until(d) < time.Minute {
					dl = "near"
				}
			}
			e := ""
			switch {
			case stage == "after" || stage == "fafter":
				e = "-"
			case errors.Is(c.Err(), context.Canceled):
				e = "canceled"
			case errors.Is(c.Err(), context.DeadlineExceeded):
				e = "deadline"
			case c.Err() != nil:
				e = c.Err().Error()
			}
			if e != "-" {
				done := false
				select {
				case <-c.Done():
					done = true
				default:
				}
				if done != (e != "") {
					e += "?"
				}
			}
			logs = append(logs, obj{"at": at, "stage": stage, "vals": vals, "dl": dl, "err": e})
			return nil
		})
	}
	keep := func(c *cli.Context) { made = append(made, c.Context()) }
	step := func(t kStep) cli.Action {
		stage := t.Stage
		var a cli.Action
		switch t.Do {
		case "set":
			switch t.How {
			case "method":
				a = cli.ActionFunc(func(c *cli.Context) error { return c.SetContextValue(kKey(t.K), t.V) })
			case "ctx":
				a = cli.ActionFunc(func(c *cli.Context) error {
					return c.Do(cli.SetContext(context.WithValue(c.Context(), kKey(t.K), t.V)))
				})
			default:
				a = cli.ContextValue(kKey(t.K), t.V)
			}
		case "reset":
			a = cli.SetContext(context.WithValue(context.Background(), kKey(t.K), t.V))
		case "timeout", "signal":
			if t.Do == "signal" {
				a = cli.HandleSignal(syscall.SIGUSR1)
			} else if t.V == "near" {
				a = cli.Timeout(-time.Second)
			} else {
				a = cli.Timeout(time.Hour)
			}
			return cli.Pipeline(a, cli.Before(cli.Pipeline(keep, look(t.At, "before"))))
		case "raise":
			a = cli.ActionFunc(func(c *cli.Context) error {
				syscall.Kill(os.Getpid(), syscall.SIGUSR1)
				select {
				case <-c.Done():
				case <-time.After(5 * time.Second):
				}
				return nil
			})
		case "cancel":
			a = cli.ActionOf(func() { cancel() })
		}
		return cli.Pipeline(a, look(t.At, stage))
	}
	stage := func(c int, st string) cli.Action {
		var res []cli.Action
		for _, t := range s.Steps {
			if t.At == c && t.Stage == st {
				res = append(res, step(t))
			}
		}
		return cli.ActionPipeline(res)
	}
	flag := func(c int) *cli.Flag {
		return &cli.Flag{Name: fmt.Sprint("f", c), Value: new(bool), Uses: look(c, "fuses"), Before: look(c, "fbefore"),
			Action: look(c, "faction"), After: look(c, "fafter")}
	}
	var below []*cli.Command
	argv := []string{}
	for c := len(s.Path); c >= 2; c-- {
		below = []*cli.Command{{Name: s.Path[c-1], Uses: stage(c, "uses"), Before: stage(c, "before"), Action: stage(c, "action"),
			After: stage(c, "after"), Flags: []*cli.Flag{flag(c)}, Subcommands: below}}
		argv = append([]string{s.Path[c-1], fmt.Sprintf("--f%d", c)}, argv...)
	}
	x := &cli.Command{Name: "x", Uses: cli.ContextValue(kKey("k9"), "x")}
	if s.XFirst {
		below = append([]*cli.Command{x}, below...)
	} else {
		below = append(below, x)
	}
	argv = append([]string{"app", "--f1"}, argv...)
	app := &cli.App{Name: "app", Stdout: io.Discard, Stderr: io.Discard, Flags: []*cli.Flag{flag(1)}, Commands: below,
		Uses: stage(1, "uses"), Before: stage(1, "before"), Action: stage(1, "action"), After: stage(1, "after")}
	err := app.RunContext(base, argv)
	released := []bool{}
	for _, c := range made {
		released = append(released, c.Err() != nil)
	}
	return obj{"err": errClass(err), "log": logs, "released": released}
}

func genCtxv(r *rand.Rand, profile string, i int) any {
	s := kScen{Path: []string{"app", "s1", "s2"}[:1+r.Intn(3)], XFirst: chance(r, 30), Steps: []kStep{}}
	n := len(s.Path)
	owner := map[string]int{}
	reset, sig := false, false
	raises := chance(r, 20)
	for j, m := 0, 1+r.Intn(8); j < m; j++ {
		t := kStep{At: 1 + r.Intn(n), How: pick(r, []string{"action", "method", "ctx"})}
		t.Stage = pick(r, []string{"uses", "uses", "before", "before", "action", "after"})
		switch {
		case chance(r, 60):
			t.Do, t.K, t.V = "set", pick(r, []string{"k1", "k2", "k3", "k3"}), fmt.Sprint(j)
		case chance(r, 30):
			if raises {
				continue
			}
			t.Do, t.K, t.V = "reset", pick(r, []string{"k1", "k2", "k3", "base"}), fmt.Sprint(j)
			reset = true
			if t.Stage == "uses" {
				t.Stage = "before"
			}
		case chance(r, 50):
			t.Do, t.V = "timeout", pick(r, []string{"far", "far", "near"})
			t.Stage = pick(r, []string{"uses", "before"})
		case chance(r, 60):
			t.Do = "signal"
			t.Stage = pick(r, []string{"uses", "before"})
			sig = true
		default:
			t.Do = "cancel"
			if t.Stage == "uses" {
				t.Stage = "action"
			}
		}
		if t.Do == "set" && t.Stage == "uses" {
			if o, ok := owner[t.K]; ok && o != t.At {
				continue
			}
			owner[t.K] = t.At
		}
		s.Steps = append(s.Steps, t)
	}
	if raises && sig && !reset {
		s.Steps = append(s.Steps, kStep{At: n, Stage: "action", Do: "raise"})
		if chance(r, 50) {
			s.Steps = append(s.Steps, kStep{At: n, Stage: "action", Do: "set", K: "k3", V: "z", How: "method"})
		}
	}
	// what is set in Uses is set only there and below
	var ok []kStep
	for _, t := range s.Steps {
		if o, has := owner[t.K]; !has || t.At >= o {
			ok = append(ok, t)
		}
	}
	s.Steps = append([]kStep{}, ok...)
	return s
}

func init() {
	areas["ctxv"] = area{gen: genCtxv, exec: execCtxv, serial: true}
}
