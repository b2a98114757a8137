package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

// Solver drives one incremental SMT process. The assertion stack is kept in sync with
// the literal list of the current path; common prefixes of consecutive paths stay asserted.
type Solver struct {
	c       *Ctx
	cmd     *exec.Cmd
	in      *bufio.Writer
	inPipe  io.WriteCloser
	out     *bufio.Reader
	stack   []*Term
	gen     int
	bin     string
	timeout int

	Queries  int
	Time     time.Duration
	Unknowns int
	Errors   []string
	dead     bool
	depth    int
}

var solverGen int

var slowLog, _ = time.ParseDuration(os.Getenv("VX_SLOW"))

func NewSolver(c *Ctx, bin string, gen int) *Solver {
	s := &Solver{c: c, bin: bin, gen: gen, timeout: 20000}
	s.start()
	return s
}

func (s *Solver) start() {
	var args []string
	switch {
	case strings.Contains(s.bin, "cvc5"):
		args = []string{"--incremental", "--produce-models", fmt.Sprintf("--tlimit-per=%d", s.timeout)}
	default:
		args = []string{"-in", "-smt2"}
	}
	s.cmd = exec.Command(s.bin, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inPipe = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.send("(set-option :global-declarations true)")
	if !strings.Contains(s.bin, "cvc5") {
		s.send(fmt.Sprintf("(set-option :timeout %d)", s.timeout))
	}
	s.send("(set-logic QF_BV)")
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Flush()
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) send(l string) {
	s.in.WriteString(l)
	s.in.WriteByte('\n')
}

func (s *Solver) define(t *Term) {
	if t.op == OConst || t.emit == s.gen {
		return
	}
	// iterative post-order to keep Go stacks small
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.t.op == OConst || f.t.emit == s.gen {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(f.t.args) {
			a := f.t.args[f.i]
			f.i++
			if a.op != OConst && a.emit != s.gen {
				st = append(st, fr{a, 0})
			}
			continue
		}
		x := f.t
		if x.op == OVar {
			s.send(fmt.Sprintf("(declare-const %s %s)", x.ref(), sortName(x.w)))
		} else {
			s.send(fmt.Sprintf("(define-fun %s () %s %s)", x.ref(), sortName(x.w), x.body()))
		}
		x.emit = s.gen
		st = st[:len(st)-1]
	}
}

// crossSolve decides a conjunction with a fresh process of another solver.
func crossSolve(bin string, conj []*Term) (Res, string) {
	var sb strings.Builder
	sb.WriteString("(set-logic QF_BV)\n")
	seen := map[*Term]bool{}
	var def func(t *Term)
	def = func(t *Term) {
		if t.op == OConst || seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			def(a)
		}
		if t.op == OVar {
			fmt.Fprintf(&sb, "(declare-const %s %s)\n", t.ref(), sortName(t.w))
		} else {
			fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", t.ref(), sortName(t.w), t.body())
		}
	}
	for _, t := range conj {
		def(t)
		fmt.Fprintf(&sb, "(assert %s)\n", t.ref())
	}
	sb.WriteString("(check-sat)\n")
	c := exec.Command(bin, "--lang=smt2", "--tlimit=10000", "-")
	c.Stdin = strings.NewReader(sb.String())
	out, _ := c.Output()
	switch {
	case strings.HasPrefix(string(out), "unsat"):
		return Unsat, ""
	case strings.HasPrefix(string(out), "sat"):
		return Sat, sb.String()
	}
	return Unknown, ""
}

func (s *Solver) sync(lits []*Term) {
	n := 0
	for n < len(lits) && n < len(s.stack) && lits[n] == s.stack[n] {
		n++
	}
	if n < len(s.stack) {
		s.send(fmt.Sprintf("(pop %d)", len(s.stack)-n))
		s.stack = s.stack[:n]
	}
	for ; n < len(lits); n++ {
		s.define(lits[n])
		s.send("(push 1)")
		s.send("(assert " + lits[n].ref() + ")")
		s.stack = append(s.stack, lits[n])
	}
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// Check decides lits ∧ extra. On Sat with vars != nil, returns a model of vars.
func (s *Solver) Check(lits []*Term, extra *Term, vars []*Term) (Res, Model) {
	if s.dead {
		return Unknown, nil
	}
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if slowLog > 0 && d > slowLog {
			x := ""
			if extra != nil {
				x = extra.show(6)
			}
			if len(x) > 600 {
				x = x[:600]
			}
			fmt.Printf("SLOW %v lits %d: %s\n", d, len(lits), x)
		}
	}()
	s.sync(lits)
	s.Queries++
	if extra != nil {
		s.define(extra)
		s.send("(push 1)")
		s.send("(assert " + extra.ref() + ")")
	}
	for _, v := range vars {
		s.define(v)
	}
	s.send("(check-sat)")
	s.in.Flush()
	r := Unknown
	for {
		l, err := s.readLine()
		if err != nil {
			s.dead = true
			s.Errors = append(s.Errors, "solver died: "+err.Error())
			s.Unknowns++
			return Unknown, nil
		}
		if l == "sat" {
			r = Sat
		} else if l == "unsat" {
			r = Unsat
		} else if l == "unknown" || l == "timeout" {
			r = Unknown
		} else if strings.HasPrefix(l, "(error") {
			s.Errors = append(s.Errors, l)
			s.dead = true
			s.Unknowns++
			return Unknown, nil
		} else {
			continue
		}
		break
	}
	var m Model
	if r == Sat && len(vars) > 0 {
		m = Model{}
		for i := 0; i < len(vars); i += 200 {
			j := min(i+200, len(vars))
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for _, v := range vars[i:j] {
				sb.WriteString(v.ref() + " ")
			}
			sb.WriteString("))")
			s.send(sb.String())
			s.in.Flush()
			txt := s.readSexp()
			s.parseValues(txt, m)
		}
	}
	if extra != nil {
		s.send("(pop 1)")
	}
	if r == Unknown {
		s.Unknowns++
	}
	return r, m
}

func (s *Solver) readSexp() string {
	var sb strings.Builder
	depth, started, quoted := 0, false, false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			s.dead = true
			return sb.String()
		}
		sb.WriteByte(b)
		if b == '|' {
			quoted = !quoted
		}
		if quoted {
			continue
		}
		if b == '(' {
			depth++
			started = true
		} else if b == ')' {
			depth--
		}
		if started && depth == 0 {
			return sb.String()
		}
	}
}

func (s *Solver) parseValues(txt string, m Model) {
	// entries look like (|name| #x..) or (name true) or (name (_ bv5 8))
	i := 0
	for i < len(txt) {
		var name string
		if txt[i] == '|' {
			j := strings.IndexByte(txt[i+1:], '|')
			name = txt[i+1 : i+1+j]
			i = i + j + 2
		} else if txt[i] == '(' && i+1 < len(txt) && txt[i+1] != '(' && txt[i+1] != '|' && txt[i+1] != '_' {
			j := i + 1
			for txt[j] != ' ' && txt[j] != ')' {
				j++
			}
			name = txt[i+1 : j]
			i = j
		} else {
			i++
			continue
		}
		for txt[i] == ' ' || txt[i] == '\n' {
			i++
		}
		var v uint64
		switch {
		case strings.HasPrefix(txt[i:], "#x"):
			j := i + 2
			for j < len(txt) && txt[j] != ')' && txt[j] != ' ' {
				j++
			}
			v, _ = strconv.ParseUint(txt[i+2:j], 16, 64)
			i = j
		case strings.HasPrefix(txt[i:], "#b"):
			j := i + 2
			for j < len(txt) && txt[j] != ')' && txt[j] != ' ' {
				j++
			}
			v, _ = strconv.ParseUint(txt[i+2:j], 2, 64)
			i = j
		case strings.HasPrefix(txt[i:], "true"):
			v = 1
			i += 4
		case strings.HasPrefix(txt[i:], "false"):
			i += 5
		case strings.HasPrefix(txt[i:], "(_ bv"):
			j := i + 5
			for txt[j] != ' ' {
				j++
			}
			v, _ = strconv.ParseUint(txt[i+5:j], 10, 64)
			i = j
			for txt[i] != ')' {
				i++
			}
			i++
		}
		m[name] = v
	}
}
