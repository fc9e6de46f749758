package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strings"
	"sync"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

// Solver wraps one z3 process.
type Solver struct {
	c       *TermCtx
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	stack   []*Term // asserted literals, one push level each
	queries int
	unsat   int
	sat     int
	unknown int
	time    time.Duration
	timeout int
	errs    int
	buf     strings.Builder
}

var solverBin = "z3-new"
var solverMu sync.Mutex

func NewSolver(c *TermCtx, timeoutMs int) (*Solver, error) {
	s := &Solver{c: c, timeout: timeoutMs}
	return s, s.start()
}

func (s *Solver) start() error {
	s.cmd = exec.Command(solverBin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<20)
	s.stack = nil
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :timeout %d)\n(set-option :produce-models true)\n(set-logic ALL)\n", s.timeout)
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// sync makes the asserted stack equal to pc.
func (s *Solver) sync(pc []*Term) {
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if n < len(s.stack) {
		fmt.Fprintf(&s.buf, "(pop %d)\n", len(s.stack)-n)
		s.stack = s.stack[:n]
	}
	for ; n < len(pc); n++ {
		pc[n].smtDefs(&s.buf)
		fmt.Fprintf(&s.buf, "(push 1)\n(assert %s)\n", pc[n].smtRef())
		s.stack = append(s.stack, pc[n])
	}
}

func (s *Solver) flush() {
	io.WriteString(s.in, s.buf.String())
	s.buf.Reset()
}

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		return "(error \"solver died: " + err.Error() + "\")"
	}
	return strings.TrimSpace(l)
}

// Check decides pc ∧ extra; with a model for vars when sat.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term) (SatResult, map[string]uint64) {
	t0 := time.Now()
	defer func() { s.time += time.Since(t0) }()
	s.sync(pc)
	for _, v := range vars {
		v.smtDefs(&s.buf)
	}
	s.queries++
	if extra != nil {
		extra.smtDefs(&s.buf)
		if extra.op == OConst {
			fmt.Fprintf(&s.buf, "(push 1)\n(assert %s)\n(check-sat)\n", extra.smtRef())
		} else {
			fmt.Fprintf(&s.buf, "(push 1)\n(assert %s)\n(check-sat)\n", extra.smtRef())
		}
	} else {
		s.buf.WriteString("(push 1)\n(check-sat)\n")
	}
	s.flush()
	r := s.readLine()
	res := Unknown
	var model map[string]uint64
	switch {
	case r == "sat":
		res = Sat
		s.sat++
		model = s.getModel(vars)
	case r == "unsat":
		res = Unsat
		s.unsat++
	case r == "unknown" || r == "timeout":
		s.unknown++
	default:
		s.errs++
		s.unknown++
		if s.errs < 5 {
			debugf("solver error: %s\n", r)
		}
		if strings.Contains(r, "solver died") {
			panic(engineError("solver process died: " + r))
		}
		panic(engineError("solver said: " + r))
	}
	s.buf.WriteString("(pop 1)\n")
	return res, model
}

func (s *Solver) getModel(vars []*Term) map[string]uint64 {
	m := map[string]uint64{}
	if len(vars) == 0 {
		return m
	}
	s.buf.WriteString("(get-value (")
	for _, v := range vars {
		s.buf.WriteString(v.smtRef())
		s.buf.WriteByte(' ')
	}
	s.buf.WriteString("))\n")
	s.flush()
	// read balanced sexpr
	depth := 0
	var sb strings.Builder
	started := false
	inBar := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			panic(engineError("solver died reading model"))
		}
		sb.WriteByte(b)
		if b == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if b == '(' {
			depth++
			started = true
		}
		if b == ')' {
			depth--
			if started && depth == 0 {
				break
			}
		}
	}
	s.out.ReadString('\n')
	txt := sb.String()
	if strings.HasPrefix(strings.TrimSpace(txt), "(error") {
		panic(engineError("get-value: " + txt))
	}
	// parse pairs ((|x| v) ...)
	i := strings.IndexByte(txt, '(') + 1
	for i < len(txt) {
		for i < len(txt) && txt[i] != '(' {
			i++
		}
		if i >= len(txt) {
			break
		}
		i++
		var name string
		if txt[i] == '|' {
			j := strings.IndexByte(txt[i+1:], '|')
			name = txt[i+1 : i+1+j]
			i += j + 2
		} else {
			j := i
			for txt[j] != ' ' && txt[j] != '\n' {
				j++
			}
			name = txt[i:j]
			i = j
		}
		d := 0
		j := i
		for {
			if txt[j] == '(' {
				d++
			}
			if txt[j] == ')' {
				if d == 0 {
					break
				}
				d--
			}
			j++
		}
		v, err := parseBVLit(txt[i:j])
		if err != nil {
			panic(engineError("model: " + err.Error()))
		}
		m[name] = v
		i = j + 1
	}
	return m
}
