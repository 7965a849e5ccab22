// Command replay runs harnesses natively with the assignments in a file and
// prints one line per case.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"verifharness/sym"
)

type testCase struct {
	Harness  string      `json:"harness"`
	Inputs   []sym.Input `json:"inputs"`
	Repeat   int         `json:"repeat"`
	Thorough bool        `json:"thorough"`
}

type result struct {
	Case  int      `json:"case"`
	Kind  string   `json:"kind"` // done, violation, panic, vacuous, hang
	Msg   string   `json:"msg,omitempty"`
	Reach []string `json:"reach,omitempty"`
}

func runOnce(c testCase) (r result) {
	f := registry[c.Harness]
	if f == nil {
		return result{Kind: "missing"}
	}
	sym.Begin(c.Inputs, c.Thorough)
	defer func() {
		if x := recover(); x != nil {
			switch x := x.(type) {
			case sym.Failure:
				r = result{Kind: "violation", Msg: x.Msg}
			case sym.Vacuous:
				r = result{Kind: "vacuous"}
			default:
				var site []string
				for _, l := range strings.Split(string(debug.Stack()), "\n") {
					if strings.Contains(l, "/repo/") && strings.HasPrefix(l, "\t") {
						site = append(site, strings.Fields(l)[0])
					}
				}
				if len(site) > 3 {
					site = site[:3]
				}
				r = result{Kind: "panic", Msg: fmt.Sprint(x) + " at " + strings.Join(site, " < ")}
			}
		}
		for l := range sym.End() {
			r.Reach = append(r.Reach, l)
		}
		sort.Strings(r.Reach)
	}()
	f()
	return result{Kind: "done"}
}

func main() {
	debug.SetMaxStack(64 << 20)
	debug.SetMemoryLimit(3 << 30)
	file := os.Args[1]
	from := 0
	if len(os.Args) > 2 {
		from, _ = strconv.Atoi(os.Args[2])
	}
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var cases []testCase
	if err := json.Unmarshal(b, &cases); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	out := bufio.NewWriter(os.Stdout)
	emit := func(r result) {
		j, _ := json.Marshal(r)
		fmt.Fprintln(out, string(j))
		out.Flush()
	}
	// the code under test may print; keep that away from the protocol
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	for i := from; i < len(cases); i++ {
		c := cases[i]
		if c.Repeat < 1 {
			c.Repeat = 1
		}
		done := make(chan result, 1)
		go func() {
			var r result
			for k := 0; k < c.Repeat; k++ {
				r = runOnce(c)
				if r.Kind != "done" {
					break
				}
			}
			done <- r
		}()
		select {
		case r := <-done:
			r.Case = i
			emit(r)
		case <-time.After(10 * time.Second):
			emit(result{Case: i, Kind: "hang", Msg: "no result after 10 s"})
			sym.End()
			os.Exit(3)
		}
	}
}
