package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

// Solver drives one incremental SMT process. The assertion stack mirrors the
// path condition of the path being explored.
type Solver struct {
	bin     string
	cmd     *exec.Cmd
	in      *bufio.Writer
	stdin   io.WriteCloser
	out     *bufio.Reader
	gen     uint32
	stack   []*Term
	vars    []*Term
	Queries int64
	NSat    int64
	NUnsat  int64
	NUnk    int64
	Time    time.Duration
	timeout int
	Restart int
	trace   io.Writer

	fallback  string
	Fallbacks int
}

var solverGen uint32

func NewSolver(bin string, timeoutMS int) *Solver {
	s := &Solver{bin: bin, timeout: timeoutMS}
	if d := os.Getenv("GOSYM_TRACE"); d != "" {
		if f, err := os.CreateTemp(d, "trace*.smt2"); err == nil {
			s.trace = f
		}
	}
	s.start()
	return s
}

func (s *Solver) start() {
	args := []string{"-in", "-smt2"}
	cvc := strings.Contains(s.bin, "cvc5")
	if cvc {
		args = []string{"--incremental", "--produce-models", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", s.timeout)}
	}
	s.cmd = exec.Command(s.bin, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.stdin = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.gen = nextGen()
	s.stack = nil
	s.vars = nil
	s.send("(set-option :print-success false)\n(set-option :global-declarations true)\n")
	if cvc {
		s.send("(set-logic QF_BV)\n")
	} else {
		s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout))
	}
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.stdin.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.Close()
	s.Restart++
	s.start()
}

func (s *Solver) send(x string) {
	s.in.WriteString(x)
	if s.trace != nil {
		io.WriteString(s.trace, x)
	}
}

func tname(t *Term) string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		if t.w%4 == 0 {
			return fmt.Sprintf("#x%0*x", t.w/4, t.val)
		}
		return fmt.Sprintf("#b%0*b", t.w, t.val)
	case OpVar:
		return "v" + strconv.Itoa(int(t.id))
	}
	return "t" + strconv.Itoa(int(t.id))
}

func sortOf(t *Term) string {
	if t.w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", t.w)
}

func (s *Solver) define(t *Term) {
	if t.op == OpConst || t.defined == s.gen {
		return
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s.define(x)
		}
	}
	t.defined = s.gen
	var body string
	switch t.op {
	case OpVar:
		s.send(fmt.Sprintf("(declare-fun %s () %s)\n", tname(t), sortOf(t)))
		s.vars = append(s.vars, t)
		return
	case OpExtract:
		body = fmt.Sprintf("((_ extract %d %d) %s)", int(t.val)+int(t.w)-1, t.val, tname(t.a))
	case OpZExt:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, tname(t.a))
	case OpSExt:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, tname(t.a))
	default:
		body = "(" + opName[t.op]
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				body += " " + tname(x)
			}
		}
		body += ")"
	}
	s.send(fmt.Sprintf("(define-fun %s () %s %s)\n", tname(t), sortOf(t), body))
}

// sync makes the solver's stack equal to pc.
func (s *Solver) sync(pc []*Term) {
	k := 0
	for k < len(s.stack) && k < len(pc) && s.stack[k] == pc[k] {
		k++
	}
	if n := len(s.stack) - k; n > 0 {
		s.send(fmt.Sprintf("(pop %d)\n", n))
		s.stack = s.stack[:k]
	}
	for ; k < len(pc); k++ {
		s.define(pc[k])
		s.send("(push 1)\n(assert " + tname(pc[k]) + ")\n")
		s.stack = append(s.stack, pc[k])
	}
}

// Check decides pc ∧ extra; on Sat it returns a model over all variables
// declared so far.
func (s *Solver) Check(pc []*Term, extra *Term) (Result, Model) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	s.sync(pc)
	if extra != nil {
		s.define(extra)
		s.send("(push 1)\n(assert " + tname(extra) + ")\n")
	}
	s.send("(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		s.restart()
		s.NUnk++
		return Unknown, nil
	}
	line, err := s.readLine()
	if err != nil {
		s.restart()
		s.NUnk++
		return Unknown, nil
	}
	var m Model
	res := Unknown
	switch line {
	case "sat":
		res = Sat
		m = s.getModel()
		if m == nil {
			res = Unknown
		}
	case "unsat":
		res = Unsat
	default:
		if strings.HasPrefix(line, "(error") {
			fmt.Println("solver error:", line)
			s.restart()
			s.NUnk++
			return Unknown, nil
		}
	}
	if extra != nil {
		s.send("(pop 1)\n")
	}
	if res == Unknown && s.fallback != "" {
		f := NewSolver(s.fallback, 10*s.timeout)
		res, m = f.Check(pc, extra)
		f.Close()
		// terms are defined per solver generation: start over
		s.restart()
		s.Fallbacks++
	}
	switch res {
	case Sat:
		s.NSat++
	case Unsat:
		s.NUnsat++
	default:
		s.NUnk++
	}
	return res, m
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) getModel() Model {
	m := Model{}
	if len(s.vars) == 0 {
		return m
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range s.vars {
		sb.WriteString(tname(v))
		sb.WriteByte(' ')
	}
	sb.WriteString("))\n")
	s.send(sb.String())
	if err := s.in.Flush(); err != nil {
		return nil
	}
	// read a balanced s-expression
	depth := 0
	var buf strings.Builder
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return nil
		}
		buf.WriteByte(b)
		if b == '(' {
			depth++
		} else if b == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	txt := buf.String()
	if strings.HasPrefix(txt, "(error") {
		fmt.Println("solver error:", txt)
		return nil
	}
	toks := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\r' || r == '\t' })
	byName := map[string]*Term{}
	for _, v := range s.vars {
		byName[tname(v)] = v
	}
	for i := 0; i+1 < len(toks); i += 2 {
		v := byName[toks[i]]
		if v == nil {
			return nil
		}
		x := toks[i+1]
		var n uint64
		var err error
		switch {
		case x == "true":
			n = 1
		case x == "false":
			n = 0
		case strings.HasPrefix(x, "#x"):
			n, err = strconv.ParseUint(x[2:], 16, 64)
		case strings.HasPrefix(x, "#b"):
			n, err = strconv.ParseUint(x[2:], 2, 64)
		default:
			return nil
		}
		if err != nil {
			return nil
		}
		m[v.name] = n
	}
	return m
}
