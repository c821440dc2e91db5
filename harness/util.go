package main

import (
	"encoding/json"
	"errors"
	"math/rand"
	"os"
	"syscall"

	cli "github.com/Carbonfrost/joe-cli"
)

// dupStdout keeps the real stdout for results and points file descriptor 1 at
// /dev/null, so that nothing the library prints gets in between.
func dupStdout() int {
	fd, err := syscall.Dup(1)
	if err != nil {
		panic(err)
	}
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err == nil {
		os.Stdout = null
	}
	return fd
}

func decode[T any](raw json.RawMessage) T {
	var t T
	if err := json.Unmarshal(raw, &t); err != nil {
		panic("bad scenario: " + err.Error())
	}
	return t
}

func pick[T any](r *rand.Rand, xs []T) T { return xs[r.Intn(len(xs))] }

func chance(r *rand.Rand, pct int) bool { return r.Intn(100) < pct }

var codeNames = map[cli.ErrorCode]string{
	cli.UnexpectedArgument:     "UnexpectedArgument",
	cli.CommandNotFound:        "CommandNotFound",
	cli.UnknownOption:          "UnknownOption",
	cli.MissingArgument:        "MissingArgument",
	cli.InvalidArgument:        "InvalidArgument",
	cli.ExpectedArgument:       "ExpectedArgument",
	cli.UnknownExpr:            "UnknownExpr",
	cli.ArgsMustPrecedeExprs:   "ArgsMustPrecedeExprs",
	cli.FlagUsedAfterArgs:      "FlagUsedAfterArgs",
	cli.ExpectedRequiredOption: "ExpectedRequiredOption",
}

// errClass names the class of an error: "ok", a usage error code, "internal" or "other".
func errClass(err error) string {
	if err == nil {
		return "ok"
	}
	var pe *cli.ParseError
	if errors.As(err, &pe) {
		if n, ok := codeNames[pe.Code]; ok {
			return n
		}
		return "ParseError?"
	}
	var ie *cli.InternalError
	if errors.As(err, &ie) {
		return "internal"
	}
	return "other"
}

func strs(s []string) []string {
	if s == nil {
		return []string{}
	}
	return s
}
