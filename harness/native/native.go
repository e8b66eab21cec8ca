// Package native replays models against the compiled code.
package native

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"verif/harness/sched"
	"verif/harness/sym"
)

type request struct {
	Harness  string    `json:"harness"`
	Inputs   []int64   `json:"inputs"`
	Thorough bool      `json:"thorough"`
	Repeat   int       `json:"repeat"`
	Sched    []int     `json:"sched"`
	Rand     [][]int64 `json:"rand"`
}

type result struct {
	Outcome  string  `json:"outcome"`
	Msg      string  `json:"msg"`
	Obs      []int64 `json:"obs"`
	Followed bool    `json:"followed"`
}

// Main reads requests from stdin and writes one result per request.
func Main(hs map[string]func()) {
	log.SetOutput(io.Discard)
	debug.SetMaxStack(64 << 20)
	out := os.Stdout
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	dec := json.NewDecoder(os.Stdin)
	enc := json.NewEncoder(out)
	for {
		var r request
		if dec.Decode(&r) != nil {
			return
		}
		f := hs[r.Harness]
		var res result
		for i := 0; i < max(r.Repeat, 1); i++ {
			res = once(f, r)
			if res.Outcome == "assert" || res.Outcome == "panic" || res.Outcome == "hang" {
				break
			}
		}
		enc.Encode(res)
		if res.Outcome == "hang" {
			return
		}
	}
}

// limit is how long one run may take.
const limit = 15 * time.Second

func once(f func(), r request) result {
	sym.Begin(r.Inputs, r.Thorough)
	done := make(chan string, 1)
	go func() {
		msg := ""
		sched.Begin(r.Sched, r.Rand)
		defer func() { done <- msg }()
		defer func() {
			if e := recover(); e != nil {
				st := strings.Split(string(debug.Stack()), "\n")
				msg = fmt.Sprintf("%v", e)
				for _, l := range st {
					if strings.Contains(l, "/repo/") {
						msg += " at " + strings.TrimSpace(l)
						break
					}
				}
			}
		}()
		f()
	}()
	msg := ""
	hang := time.NewTimer(limit)
	defer hang.Stop()
	select {
	case msg = <-done:
	case <-sym.Ended():
	case <-hang.C:
		return result{Outcome: "hang", Msg: "does not end within " + limit.String()}
	}
	o, m, obs := sym.Result()
	if msg != "" {
		return result{"panic", msg, obs, sched.Followed()}
	}
	if o == "" {
		o = "ok"
	}
	return result{o, m, obs, sched.Followed()}
}
