// replay runs harnesses natively on solver models, one JSON case per
// line on stdin, one JSON result per line on stdout.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"time"

	"verif/harness/h"
	"verif/harness/sym"
)

func main() {
	fs := map[string]func(){}
	for _, x := range h.All {
		fs[x.Name] = x.F
	}
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		var c sym.Case
		if e := json.Unmarshal(sc.Bytes(), &c); e != nil {
			fmt.Fprintln(os.Stderr, "bad case:", e)
			os.Exit(3)
		}
		f := fs[c.Harness]
		if f == nil {
			fmt.Fprintln(os.Stderr, "no harness", c.Harness)
			os.Exit(3)
		}
		// every point of the first operation in turn, if the case is one
		// of concurrent operations (and the code is instrumented)
		sym.At = -1
		r := run(&c, f)
		for sym.At = 0; r.Outcome == "ok" && sym.At < sym.Points; sym.At++ {
			if x := run(&c, f); x.Outcome != "ok" && x.Outcome != "assume" {
				r = x
				r.Label += fmt.Sprintf(" [second operation at point %d of %d]", sym.At, sym.Points)
			}
		}
		out, _ := json.Marshal(r)
		fmt.Println(string(out))
	}
}

func run(c *sym.Case, f func()) sym.Run {
	r := sym.Start(c)
	done := make(chan bool)
	go func() {
		defer close(done)
		defer func() {
			if p := recover(); p != nil && r.Outcome == "" {
				r.Outcome, r.Label = "panic", fmt.Sprint(p)
			}
		}()
		f()
		if r.Outcome == "" {
			r.Outcome = "ok"
		}
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		return sym.Run{Outcome: "hang"}
	}
	return *r
}
