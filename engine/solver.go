package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

type SolverStats struct {
	Queries, Sat, Unsat, Unknown int
	Time                         time.Duration
	Restarts                     int
	DomainDecisions              int
	ModelHits                    int
	CrossChecked, CrossDisagree  int
}

// Solver is one incremental SMT solver process. The assertion stack mirrors a prefix of the current
// path condition.
type Solver struct {
	c       *Ctx
	bin     string
	args    []string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	gen     uint32
	stack   []*Term
	emitted int
	timeout time.Duration
	Stats   SolverStats
	log     *os.File
}

var solverGen atomic.Uint32

func NewSolver(c *Ctx, timeout time.Duration) *Solver {
	s := &Solver{c: c, bin: "z3-new", args: []string{"-in"}, timeout: timeout}
	if p := os.Getenv("VERIF_SMTLOG"); p != "" {
		s.log, _ = os.Create(p)
	}
	s.start()
	return s
}

func (s *Solver) start() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.Stats.Restarts++
	}
	s.cmd = exec.Command(s.bin, s.args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.gen++
	s.stack = s.stack[:0]
	s.emitted = 0
	s.send("(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout.Milliseconds()))
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(t string) {
	if s.log != nil {
		s.log.WriteString(t)
	}
	io.WriteString(s.in, t)
}

func (s *Solver) assertText(sb *strings.Builder, t *Term) {
	n := t.smt(sb, s.gen)
	if t.fp {
		var sides []string
		t.sides(map[*Term]bool{}, &sides)
		for _, x := range sides {
			fmt.Fprintf(sb, "(assert %s)\n", x)
		}
	}
	fmt.Fprintf(sb, "(assert %s)\n", n)
}

// Check decides pc ∧ extra. On Sat it returns a model over the context's variables.
func (s *Solver) Check(pc []*Term, extra *Term, nvars int) (SatResult, Model) {
	t0 := time.Now()
	defer func() { s.Stats.Time += time.Since(t0) }()
	if s.emitted > 400000 {
		s.start()
	}
	var sb strings.Builder
	k := 0
	for k < len(s.stack) && k < len(pc) && s.stack[k] == pc[k] {
		k++
	}
	if k < len(s.stack) {
		fmt.Fprintf(&sb, "(pop %d)\n", len(s.stack)-k)
		s.stack = s.stack[:k]
	}
	for _, t := range pc[k:] {
		// Declarations must not be lost on pop: global-declarations keeps them.
		sb.WriteString("(push 1)\n")
		s.assertText(&sb, t)
		s.stack = append(s.stack, t)
	}
	sb.WriteString("(push 1)\n")
	if extra != nil {
		s.assertText(&sb, extra)
	}
	sb.WriteString("(check-sat)\n")
	s.emitted += sb.Len() / 40
	s.send(sb.String())
	s.Stats.Queries++
	line := s.readLine()
	switch line {
	case "unsat":
		s.Stats.Unsat++
		s.send("(pop 1)\n")
		return Unsat, nil
	case "sat":
		s.Stats.Sat++
		all := append(append([]*Term(nil), pc...), extra)
		if extra == nil {
			all = all[:len(all)-1]
		}
		m := make(Model, nvars)
		var q strings.Builder
		q.WriteString("(get-value (")
		n := 0
		seen := map[*Term]bool{}
		var idx []int
		var rec func(t *Term)
		rec = func(t *Term) {
			if t.sup == -1 || seen[t] {
				return
			}
			seen[t] = true
			if t.Op == OpVar {
				fmt.Fprintf(&q, "%s ", t.name)
				idx = append(idx, int(t.K))
				n++
				return
			}
			for _, a := range t.Args {
				rec(a)
			}
		}
		for _, t := range all {
			rec(t)
		}
		q.WriteString("))\n")
		if n > 0 {
			s.send(q.String())
			txt := s.readSexp()
			vals := parseValues(txt)
			if len(vals) != n {
				fmt.Fprintf(os.Stderr, "solver: bad model %q\n", txt)
				s.start()
				s.Stats.Unknown++
				return Unknown, nil
			}
			for i, v := range vals {
				for len(m) <= idx[i] {
					m = append(m, 0)
				}
				m[idx[i]] = v
			}
		}
		s.send("(pop 1)\n")
		return Sat, m
	case "unknown":
		s.Stats.Unknown++
		s.send("(pop 1)\n")
		return Unknown, nil
	}
	fmt.Fprintf(os.Stderr, "solver said %q\n", line)
	s.Stats.Unknown++
	s.start()
	return Unknown, nil
}

func (s *Solver) readLine() string {
	done := make(chan string, 1)
	go func() {
		l, err := s.out.ReadString('\n')
		if err != nil {
			done <- "eof"
			return
		}
		done <- strings.TrimSpace(l)
	}()
	select {
	case l := <-done:
		return l
	case <-time.After(s.timeout + 20*time.Second):
		s.cmd.Process.Kill()
		return <-done
	}
}

func (s *Solver) readSexp() string {
	var sb strings.Builder
	depth := 0
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return sb.String()
		}
		sb.WriteString(l)
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if depth <= 0 {
			return sb.String()
		}
	}
}

func parseValues(txt string) []uint64 {
	var out []uint64
	for i := 0; i < len(txt); i++ {
		if txt[i] == '#' && i+1 < len(txt) {
			base := 16
			if txt[i+1] == 'b' {
				base = 2
			}
			j := i + 2
			for j < len(txt) && (txt[j] >= '0' && txt[j] <= '9' || txt[j] >= 'a' && txt[j] <= 'f') {
				j++
			}
			v, _ := strconv.ParseUint(txt[i+2:j], base, 64)
			out = append(out, v)
			i = j
		} else if strings.HasPrefix(txt[i:], "true)") {
			out = append(out, 1)
		} else if strings.HasPrefix(txt[i:], "false)") {
			out = append(out, 0)
		}
	}
	return out
}

// Script renders the query as a stand-alone SMT-LIB script, for a second solver.
func Script(pc []*Term, extra *Term) string {
	gen := 0x80000000 | solverGen.Add(1)
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n")
	s := &Solver{gen: gen}
	for _, t := range pc {
		s.assertText(&sb, t)
	}
	if extra != nil {
		s.assertText(&sb, extra)
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

// oneShot gives pc ∧ extra to fresh solvers side by side: some queries are beyond incremental solving.
func (s *Solver) oneShot(pc []*Term, extra *Term) (SatResult, Model) {
	t0 := time.Now()
	defer func() { s.Stats.Time += time.Since(t0) }()
	script := Script(pc, extra)
	s.start() // rendering the script took the terms over
	var vars []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t.sup == -1 || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OpVar {
			vars = append(vars, t)
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	for _, t := range pc {
		rec(t)
	}
	rec(extra)
	var q strings.Builder
	q.WriteString("(set-option :produce-models true)\n" + script + "(get-value (")
	for _, v := range vars {
		fmt.Fprintf(&q, "%s ", v.name)
	}
	q.WriteString("))\n")
	ctx, cancel := context.WithTimeout(context.Background(), s.timeout)
	defer cancel()
	type ans struct {
		r SatResult
		m Model
	}
	cmds := [][]string{{"z3-new", "-in"}, {"cvc5", "--lang=smt2", "-q"}}
	ch := make(chan ans, len(cmds))
	for _, c := range cmds {
		go func() {
			cmd := exec.CommandContext(ctx, c[0], c[1:]...)
			cmd.Stdin = strings.NewReader(q.String())
			out, _ := cmd.Output()
			r, rest, _ := strings.Cut(string(out), "\n")
			switch strings.TrimSpace(r) {
			case "sat":
				vals := parseValues(rest)
				if len(vals) != len(vars) {
					ch <- ans{Unknown, nil}
					return
				}
				m := Model{}
				for i, v := range vars {
					for len(m) <= int(v.K) {
						m = append(m, 0)
					}
					m[v.K] = vals[i]
				}
				ch <- ans{Sat, m}
			case "unsat":
				ch <- ans{Unsat, nil}
			default:
				ch <- ans{Unknown, nil}
			}
		}()
	}
	s.Stats.Queries++
	for range cmds {
		if a := <-ch; a.r != Unknown {
			return a.r, a.m
		}
	}
	return Unknown, nil
}
