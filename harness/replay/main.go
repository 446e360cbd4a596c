// replay runs harnesses natively on given inputs, one JSON request per line.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"time"

	"verifharness/h"
	"verifharness/sym"
)

type req struct {
	Harness string            `json:"harness"`
	Inputs  map[string]uint64 `json:"inputs"`
	Tier    string            `json:"tier"`
}
type resp struct {
	Status string   `json:"status"` // ok | assert | panic | infeasible | hang
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

func run(r req) (res resp) {
	f := h.All[r.Harness]
	if f == nil {
		return resp{Status: "error", Msg: "no harness " + r.Harness}
	}
	sym.Begin(r.Inputs, r.Tier)
	defer func() {
		res.Obs = sym.S.Obs
		if x := recover(); x != nil {
			switch e := x.(type) {
			case sym.Infeasible:
				res.Status = "infeasible"
			case sym.Failed:
				res.Status, res.Msg = "assert", e.Msg
			default:
				res.Status, res.Msg = "panic", fmt.Sprint(x)
				if os.Getenv("VERIF_TRACE") != "" {
					os.Stderr.Write(debug.Stack())
				}
			}
		}
	}()
	f()
	res.Status = "ok"
	return
}

func main() {
	debug.SetMaxStack(64 << 20)
	debug.SetMemoryLimit(4 << 30)
	if len(os.Args) > 1 { // a replay file
		b, err := os.ReadFile(os.Args[1])
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var r req
		if err := json.Unmarshal(b, &r); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		res := guard(r)
		fmt.Printf("%s %s\n", res.Status, res.Msg)
		if res.Status == "assert" || res.Status == "panic" || res.Status == "hang" {
			os.Exit(1)
		}
		return
	}
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<26)
	out := json.NewEncoder(os.Stdout)
	for in.Scan() {
		var r req
		if err := json.Unmarshal(in.Bytes(), &r); err != nil {
			out.Encode(resp{Status: "error", Msg: err.Error()})
			continue
		}
		res := guard(r)
		out.Encode(res)
		if res.Status == "hang" {
			os.Exit(3)
		}
	}
}

func guard(r req) resp {
	ch := make(chan resp, 1)
	go func() { ch <- run(r) }()
	select {
	case x := <-ch:
		return x
	case <-time.After(8 * time.Second):
		return resp{Status: "hang", Msg: "no result after 8 s"}
	}
}
