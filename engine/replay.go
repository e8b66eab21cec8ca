package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
)

// Native is the harness package compiled with the ordinary Go compiler, used
// to replay solver models against the real code.
type Native struct {
	bin  string
	dir  string
	err  error
	done chan struct{}
}

type nativeReq struct {
	Harness  string  `json:"harness"`
	Inputs   []int64 `json:"inputs"`
	Thorough bool    `json:"thorough"`
	Repeat   int     `json:"repeat"`
	// Followed only by an instrumented build.
	Sched []int     `json:"sched,omitempty"`
	Rand  [][]int64 `json:"rand,omitempty"`
}

type nativeRes struct {
	Outcome string  `json:"outcome"`
	Msg     string  `json:"msg"`
	Obs     []int64 `json:"obs"`
	// Followed says that an instrumented build kept to the schedule.
	Followed bool `json:"followed"`
}

func buildNative(harnessDir, scratch, pkg string, names []string, race bool, overlay map[string]string) *Native {
	n := &Native{done: make(chan struct{}), dir: scratch, bin: filepath.Join(scratch, "replay")}
	go func() {
		defer close(n.done)
		var sb strings.Builder
		sb.WriteString("package main\n\nimport (\n\t\"verif/harness/native\"\n\tp \"" + pkg + "\"\n)\n\nfunc main() {\n\tnative.Main(map[string]func(){\n")
		for _, h := range names {
			fmt.Fprintf(&sb, "\t\t%q: p.%s,\n", h, h)
		}
		sb.WriteString("\t})\n}\n")
		src := filepath.Join(scratch, "main.go")
		if n.err = os.WriteFile(src, []byte(sb.String()), 0o644); n.err != nil {
			return
		}
		ov := map[string]map[string]string{"Replace": {filepath.Join(harnessDir, "zzreplay", "main.go"): src}}
		for k, v := range overlay {
			ov["Replace"][k] = v
		}
		b, _ := json.Marshal(ov)
		ovf := filepath.Join(scratch, "overlay.json")
		if n.err = os.WriteFile(ovf, b, 0o644); n.err != nil {
			return
		}
		args := []string{"build", "-overlay", ovf, "-o", n.bin}
		if race {
			args = append(args, "-race")
		}
		cmd := exec.Command("go", append(args, "./zzreplay")...)
		cmd.Dir = harnessDir
		if out, err := cmd.CombinedOutput(); err != nil {
			n.err = fmt.Errorf("native build: %v\n%s", err, out)
		}
	}()
	return n
}

func inputsOf(in []InVal) []int64 {
	var out []int64
	for _, i := range in {
		if i.Kind != "rand" && i.Kind != "rng" && i.Kind != "maporder" {
			out = append(out, i.Val)
		}
	}
	return out
}

// anyOrder reports a path that depends on the order of a built-in map, which no
// replay can fix.
func anyOrder(in []InVal) bool {
	for _, i := range in {
		if i.Kind == "maporder" {
			return true
		}
	}
	return false
}

func hasRand(in []InVal) bool {
	for _, i := range in {
		if i.Kind == "rand" {
			return true
		}
	}
	return false
}

// run replays the requests in one process. A crash or timeout yields fewer
// results plus a description of how the process ended.
func (n *Native) run(reqs []nativeReq, timeout time.Duration) ([]nativeRes, string) {
	<-n.done
	if n.err != nil {
		return nil, n.err.Error()
	}
	var in bytes.Buffer
	enc := json.NewEncoder(&in)
	for _, r := range reqs {
		enc.Encode(r)
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, n.bin)
	cmd.Stdin = &in
	cmd.Dir = n.dir
	cmd.Env = append(os.Environ(), "GOMAXPROCS=4", "GORACE=halt_on_error=1 exitcode=66")
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &limitWriter{b: &errb, n: 1 << 16}
	err := cmd.Run()
	var res []nativeRes
	dec := json.NewDecoder(&out)
	for {
		var r nativeRes
		if dec.Decode(&r) != nil {
			break
		}
		res = append(res, r)
	}
	if ctx.Err() != nil {
		return res, "timeout"
	}
	if err != nil {
		msg := errb.String()
		if i := strings.Index(msg, "\n\n"); i > 0 {
			msg = msg[:i]
		}
		if len(msg) > 400 {
			msg = msg[:400]
		}
		return res, "crash: " + err.Error() + ": " + msg
	}
	return res, ""
}

type limitWriter struct {
	b *bytes.Buffer
	n int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if k := l.n - l.b.Len(); k > 0 {
		l.b.Write(p[:min(k, len(p))])
	}
	return len(p), nil
}

// randOf lists the draws of the model by thread.
func randOf(in []InVal) [][]int64 {
	var out [][]int64
	for _, i := range in {
		if i.Kind == "rand" {
			for len(out) <= i.Tid {
				out = append(out, nil)
			}
			out[i.Tid] = append(out[i.Tid], i.Val)
		}
	}
	return out
}

// schedOf drops the choices between ready select cases, which a native run
// cannot be made to follow.
func schedOf(s []int) []int {
	var out []int
	for _, t := range s {
		if t >= 0 {
			out = append(out, t)
		}
	}
	return out
}

// Replayer confirms candidates on the real code: as it is, and for candidates
// that depend on a schedule or on random draws in a build that follows them.
type Replayer struct {
	plain *Native
	pkgs  []*packages.Package
	hdir  string
	pkg   string
	names []string
	race  bool
	instr *Native
}

// controlled is the instrumented build, made when first needed.
func (r *Replayer) controlled() *Native {
	if r.instr == nil {
		dir := filepath.Join(r.plain.dir, "instr")
		os.MkdirAll(dir, 0o755)
		ov, err := instrument(r.pkgs, dir)
		if err != nil {
			r.instr = &Native{err: err, done: make(chan struct{})}
			close(r.instr.done)
		} else {
			r.instr = buildNative(r.hdir, dir, r.pkg, r.names, r.race, ov)
		}
	}
	<-r.instr.done
	return r.instr
}

// confirm replays a candidate and reports whether the real code fails.
func (r *Replayer) confirm(c *Candidate, thorough bool) (bool, string) {
	req := nativeReq{Harness: c.Harness, Inputs: inputsOf(c.Inputs), Thorough: thorough, Repeat: 1}
	if anyOrder(c.Inputs) {
		req.Repeat = 500
	}
	if len(c.Sched) == 0 && !hasRand(c.Inputs) {
		return r.plain.attempt(req, c)
	}
	how := ""
	if n := r.controlled(); n.err == nil {
		req.Sched, req.Rand, req.Repeat = schedOf(c.Sched), randOf(c.Inputs), 4
		ok, h := n.attempt(req, c)
		if ok {
			return true, h + " (on the schedule and draws found)"
		}
		how = "on the schedule found: " + h + "; "
	} else {
		how = n.err.Error() + "; "
	}
	req.Sched, req.Rand, req.Repeat = nil, nil, 3000
	ok, h := r.plain.attempt(req, c)
	if ok {
		return true, h
	}
	return false, how + "3000 free runs: " + h
}

func (n *Native) attempt(req nativeReq, c *Candidate) (bool, string) {
	res, how := n.run([]nativeReq{req}, 90*time.Second)
	if len(res) == 1 {
		switch r := res[0]; r.Outcome {
		case "assert", "panic":
			return true, r.Outcome + ": " + r.Msg
		case "hang":
			switch c.Kind {
			case "deadlock", "steps", "native", "inconclusive":
				return true, r.Msg
			}
			return false, r.Msg
		default:
			return false, fmt.Sprintf("%s (schedule followed: %v)", r.Outcome, r.Followed)
		}
	}
	if strings.HasPrefix(how, "crash") {
		return true, how
	}
	return false, how
}
