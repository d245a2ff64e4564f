package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type satResult int

const (
	unsat satResult = iota
	sat
	unknown
)

func (r satResult) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// Solver is one persistent SMT process. Each path uses one push/pop scope.
type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	w       *smtWriter
	open    bool
	bin     []string
	timeout int // ms per query
	now     int // the limit in force
	logic   string

	Queries  int
	Sat      int
	Unsat    int
	Unknown  int
	Errors   int
	Time     time.Duration
	MaxQuery time.Duration
}

func newSolver(bin []string, timeoutMS int) (*Solver, error) {
	s := &Solver{bin: bin, timeout: timeoutMS, now: timeoutMS, logic: "QF_BV"}
	return s, s.start()
}

// newIntSolver is a solver of integer arithmetic.
func newIntSolver(bin []string, timeoutMS int) (*Solver, error) {
	s := &Solver{bin: bin, timeout: timeoutMS, now: timeoutMS, logic: "QF_LIA"}
	return s, s.start()
}

// limit changes the time limit of the queries to come.
func (s *Solver) limit(ms int) {
	if ms != s.now && strings.Contains(s.bin[0], "z3") {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", ms)
		s.now = ms
	}
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.open = false
	if strings.Contains(s.bin[0], "z3") {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n(set-option :model.completion true)\n", s.timeout)
	} else {
		fmt.Fprintf(s.in, "(set-option :tlimit-per %d)\n(set-option :produce-models true)\n", s.timeout)
	}
	fmt.Fprintf(s.in, "(set-logic %s)\n", s.logic)
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

// Begin opens the scope of a new path.
func (s *Solver) Begin() {
	s.End()
	s.w = &smtWriter{done: map[*Term]bool{}, sb: &strings.Builder{}}
	s.w.sb.WriteString("(push 1)\n")
	s.open = true
}

func (s *Solver) End() {
	if s.open {
		io.WriteString(s.in, "(pop 1)\n")
		s.open = false
	}
}

func (s *Solver) Assert(t *Term) {
	s.w.emit(t)
	fmt.Fprintf(s.w.sb, "(assert %s)\n", s.w.ref(t))
}

// Check decides the asserted conditions together with extra. On sat, a model
// of every declared variable is returned.
func (s *Solver) Check(extra *Term) (satResult, Model) {
	if extra != nil {
		s.w.emit(extra)
		s.w.sb.WriteString("(push 1)\n(assert " + s.w.ref(extra) + ")\n")
	}
	s.w.sb.WriteString("(check-sat)\n")
	t0 := time.Now()
	text := s.w.sb.String()
	s.w.sb.Reset()
	s.Queries++
	res := unknown
	var m Model
	if _, err := io.WriteString(s.in, text); err == nil {
		line, err := s.readLine()
		switch {
		case err != nil:
			s.Errors++
		case line == "sat":
			res = sat
		case line == "unsat":
			res = unsat
		case line == "unknown" || line == "timeout":
		default:
			s.Errors++
			lastSolverError = line + "\n" + text
		}
		if res == sat {
			m = s.model()
			if m == nil {
				res = unknown
			}
		}
	} else {
		s.Errors++
	}
	if extra != nil {
		io.WriteString(s.in, "(pop 1)\n")
	}
	d := time.Since(t0)
	s.Time += d
	if d > s.MaxQuery {
		s.MaxQuery = d
	}
	switch res {
	case sat:
		s.Sat++
	case unsat:
		s.Unsat++
	default:
		s.Unknown++
	}
	return res, m
}

var lastSolverError string

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) model() Model {
	m := Model{}
	if len(s.w.vars) == 0 {
		return m
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range s.w.vars {
		sb.WriteString("|" + v.name + "| ")
	}
	sb.WriteString("))\n")
	io.WriteString(s.in, sb.String())
	// read a balanced s-expression
	depth := 0
	var txt strings.Builder
	inBar := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			s.Errors++
			return nil
		}
		txt.WriteByte(b)
		if b == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if b == '(' {
			depth++
		}
		if b == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	str := txt.String()
	if strings.Contains(str, "(error") {
		s.Errors++
		lastSolverError = str
		return nil
	}
	for _, v := range s.w.vars {
		key := "(|" + v.name + "| "
		i := strings.Index(str, key)
		if i < 0 {
			// z3 prints simple symbols without bars
			key = "(" + v.name + " "
			i = strings.Index(str, key)
		}
		if i < 0 {
			s.Errors++
			lastSolverError = "no value for " + v.name + " in " + str
			return nil
		}
		rest := str[i+len(key):]
		m[v.name] = parseValue(rest)
	}
	return m
}

func parseValue(s string) uint64 {
	s = strings.TrimSpace(s)
	switch {
	case strings.HasPrefix(s, "true"):
		return 1
	case strings.HasPrefix(s, "false"):
		return 0
	case strings.HasPrefix(s, "#x"):
		end := strings.IndexAny(s, ") \n")
		v, _ := strconv.ParseUint(s[2:end], 16, 64)
		return v
	case strings.HasPrefix(s, "#b"):
		end := strings.IndexAny(s, ") \n")
		v, _ := strconv.ParseUint(s[2:end], 2, 64)
		return v
	case strings.HasPrefix(s, "(_ bv"):
		end := strings.IndexByte(s[5:], ' ')
		v, _ := strconv.ParseUint(s[5:5+end], 10, 64)
		return v
	}
	neg := strings.HasPrefix(s, "(- ")
	if neg {
		s = s[3:]
	}
	if end := strings.IndexAny(s, ") \n"); end > 0 {
		if v, err := strconv.ParseUint(s[:end], 10, 64); err == nil {
			if neg {
				return -v
			}
			return v
		}
	}
	panic("cannot parse solver value: " + s)
}
