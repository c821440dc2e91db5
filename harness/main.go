// joeh drives the real joe-cli library through its public API for the
// specifications in ../spec.
//
//	joeh gen  AREA -n N -seed S -profile P   writes one scenario per line
//	joeh exec AREA                           reads scenarios, writes one observation per line
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"
)

type area struct {
	gen    func(r *rand.Rand, profile string, i int) any
	exec   func(raw json.RawMessage) any
	serial bool
}

var areas = map[string]area{}

type obj = map[string]any

var hangs atomic.Int32

// watchMemory ends the process, which the caller notices, when a scenario consumes too much
func watchMemory() {
	for {
		time.Sleep(200 * time.Millisecond)
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > 5<<30 {
			os.Exit(77)
		}
	}
}

func runOne(a area, raw json.RawMessage) (out any) {
	if hangs.Load() >= 3 {
		return obj{"skipped": true}
	}
	ch := make(chan any, 1)
	go func() {
		defer func() {
			if rvr := recover(); rvr != nil {
				o := obj{"panic": fmt.Sprint(rvr)}
				if os.Getenv("JOEH_STACK") != "" {
					o["stack"] = string(debug.Stack())
				}
				ch <- o
			}
		}()
		ch <- a.exec(raw)
	}()
	select {
	case out = <-ch:
		return out
	case <-time.After(20 * time.Second):
		hangs.Add(1)
		return obj{"hang": true}
	}
}

func main() {
	if len(os.Args) == 2 && os.Args[1] == "proc-exit" {
		procExit()
	}
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: joeh gen|exec AREA ...")
		os.Exit(3)
	}
	a, ok := areas[os.Args[2]]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown area", os.Args[2])
		os.Exit(3)
	}
	w := bufio.NewWriterSize(os.NewFile(uintptr(dupStdout()), "out"), 1<<20)
	defer w.Flush()
	enc := json.NewEncoder(w)
	enc.SetEscapeHTML(false)
	switch os.Args[1] {
	case "gen":
		fs := flag.NewFlagSet("gen", flag.ExitOnError)
		n := fs.Int("n", 100, "")
		seed := fs.Int64("seed", 1, "")
		profile := fs.String("profile", "", "")
		_ = fs.Parse(os.Args[3:])
		r := rand.New(rand.NewSource(*seed*7919 + 17))
		for i := 0; i < *n; i++ {
			s := a.gen(r, *profile, i)
			if s == nil {
				break
			}
			if err := enc.Encode(s); err != nil {
				panic(err)
			}
		}
	case "exec":
		var raws []json.RawMessage
		sc := bufio.NewScanner(os.Stdin)
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		for sc.Scan() {
			raws = append(raws, append(json.RawMessage{}, sc.Bytes()...))
		}
		go watchMemory()
		outs := make([]any, len(raws))
		if a.serial {
			for i := range raws {
				outs[i] = runOne(a, raws[i])
			}
		} else {
			var wg sync.WaitGroup
			next := make(chan int)
			for k := 0; k < runtime.NumCPU(); k++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := range next {
						outs[i] = runOne(a, raws[i])
					}
				}()
			}
			for i := range raws {
				next <- i
			}
			close(next)
			wg.Wait()
		}
		for _, o := range outs {
			if err := enc.Encode(o); err != nil {
				panic(err)
			}
		}
	}
}
