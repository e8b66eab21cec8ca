package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type satResult int

const (
	rUnknown satResult = iota
	rSat
	rUnsat
)

// litLimit bounds the literals named in one solver process before it is
// started afresh.
var litLimit = 2000

// Solver drives one incremental SMT process. Path condition literals are named
// once and passed as assumptions of each query, so that moving between states
// costs nothing.
type Solver struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	inPipe  io.WriteCloser
	out     *bufio.Reader
	lits    map[uint32]bool
	sb      strings.Builder
	defined map[uint32]bool
	vars    map[uint64]bool
	seed    int
	timeout int
	queries int
	nSat    int
	nUnsat  int
	nUnk    int
	spent   time.Duration
	errs    []string
	path    string
}

func solverPath() string {
	if p := os.Getenv("VERIF_SOLVER"); p != "" {
		return p
	}
	for _, c := range []string{"z3-new", "z3"} {
		if p, err := exec.LookPath(c); err == nil {
			return p
		}
	}
	return "z3"
}

func newSolver(seed, timeoutMs int) *Solver {
	s := &Solver{seed: seed, timeout: timeoutMs, path: solverPath()}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.path, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inPipe = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.lits = map[uint32]bool{}
	s.defined = map[uint32]bool{}
	s.vars = map[uint64]bool{}
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :random-seed %d)\n(set-option :timeout %d)\n(set-logic QF_BV)\n", s.seed, s.timeout)
}

func (s *Solver) close() {
	if s.cmd == nil {
		return
	}
	s.inPipe.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.cmd = nil
}

func (s *Solver) restart() {
	s.close()
	s.start()
}

func (s *Solver) define(t *Term) {
	switch t.op {
	case OConst:
		return
	case OVar:
		if !s.vars[t.val] {
			s.vars[t.val] = true
			fmt.Fprintf(s.in, "(declare-const %s %s)\n", varName(t.val), bvSort(t.w))
		}
		return
	}
	if s.defined[t.id] {
		return
	}
	for _, x := range [...]*Term{t.a, t.b, t.c} {
		if x != nil {
			s.define(x)
		}
	}
	s.defined[t.id] = true
	fmt.Fprintf(s.in, "(define-fun t%d () %s %s)\n", t.id, bvSort(t.w), t.body())
}

// lit returns an assumption literal equivalent to t, naming t permanently so
// that it is translated once however many queries use it.
func (s *Solver) lit(t *Term) string {
	neg := false
	if t.op == OBNot {
		neg, t = true, t.a
	}
	if !s.lits[t.id] {
		s.define(t)
		s.lits[t.id] = true
		fmt.Fprintf(s.in, "(declare-const b%d Bool)\n(assert (= b%d %s))\n", t.id, t.id, t.ref())
	}
	if neg {
		return fmt.Sprintf("(not b%d)", t.id)
	}
	return fmt.Sprintf("b%d", t.id)
}

// check asks whether pc and cond are jointly satisfiable; on sat the values of
// vars are returned as a model.
func (s *Solver) check(pc []*Term, cond *Term, vars []*Term) (satResult, *Model) {
	start := time.Now()
	defer func() { s.spent += time.Since(start) }()
	s.queries++
	if len(s.lits) > litLimit {
		s.restart()
	}
	s.sb.Reset()
	for _, t := range pc {
		s.sb.WriteString(s.lit(t))
		s.sb.WriteByte(' ')
	}
	s.sb.WriteString(s.lit(cond))
	for _, v := range vars {
		s.define(v)
	}
	fmt.Fprintf(s.in, "(check-sat-assuming (%s))\n", s.sb.String())
	s.in.Flush()
	line, err := s.readLine()
	if err != nil || strings.HasPrefix(line, "(error") {
		s.errs = append(s.errs, fmt.Sprintf("%s %v", line, err))
		s.nUnk++
		s.restart()
		return rUnknown, nil
	}
	res := rUnknown
	var m *Model
	switch line {
	case "sat":
		res = rSat
		s.nSat++
		m = &Model{vals: map[uint64]uint64{}}
		if len(vars) > 0 {
			s.in.WriteString("(get-value (")
			for _, v := range vars {
				s.in.WriteString(v.ref())
				s.in.WriteByte(' ')
			}
			s.in.WriteString("))\n")
			s.in.Flush()
			txt, err := s.readSexp()
			if err != nil || !parseModel(txt, vars, m) {
				s.errs = append(s.errs, fmt.Sprintf("model: %v %s", err, txt))
				s.restart()
				return rUnknown, nil
			}
		}
	case "unsat":
		res = rUnsat
		s.nUnsat++
	default:
		s.nUnk++
	}
	return res, m
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return l, err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return sb.String(), err
		}
		sb.WriteString(l)
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if depth <= 0 && strings.TrimSpace(l) != "" {
			return sb.String(), nil
		}
	}
}

func parseModel(txt string, vars []*Term, m *Model) bool {
	txt = strings.NewReplacer("(", " ", ")", " ").Replace(txt)
	f := strings.Fields(txt)
	if len(f) != 2*len(vars) {
		return false
	}
	for i, v := range vars {
		s := f[2*i+1]
		var n uint64
		var err error
		switch {
		case s == "true":
			n = 1
		case s == "false":
			n = 0
		case strings.HasPrefix(s, "#x"):
			n, err = strconv.ParseUint(s[2:], 16, 64)
		case strings.HasPrefix(s, "#b"):
			n, err = strconv.ParseUint(s[2:], 2, 64)
		default:
			return false
		}
		if err != nil {
			return false
		}
		m.vals[v.val] = n
	}
	return true
}
