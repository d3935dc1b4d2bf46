package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver is one z3 process driven over pipes; push/pop per path and per query.
type Solver struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	buf    strings.Builder
	sent   map[*Term]string // terms already defined in the current path scope
	decl   []*Term          // declared variables in the current path scope
	undo   [][]*Term        // per open scope: terms defined in it
	ndecl  []int
	nq     int64
	nsat   int64
	nunsat int64
	nunk   int64
	nerr   int64
	tsolve time.Duration
	bin    string
	tmo    int
	log    io.Writer
	slow   func(time.Duration)
}

func newSolver(bin string, timeoutMs int) *Solver {
	s := &Solver{bin: bin, tmo: timeoutMs}
	s.start()
	return s
}

func (s *Solver) start() {
	args := []string{"-in"}
	if strings.Contains(s.bin, "cvc5") {
		args = []string{"--incremental", "--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit-per=%d", s.tmo)}
	}
	s.cmd = exec.Command(s.bin, args...)
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		panic(err)
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.out = bufio.NewReaderSize(o, 1<<16)
	if f := os.Getenv("VENGINE_SMTLOG"); f != "" { // for one worker
		s.log, _ = os.Create(f)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.sent = map[*Term]string{}
	s.decl = nil
	s.undo = nil
	s.ndecl = nil
	s.buf.Reset()
	if !strings.Contains(s.bin, "cvc5") {
		fmt.Fprintf(&s.buf, "(set-option :rlimit %d)\n(set-option :model.completion true)\n", s.tmo*3000)
	} else {
		s.buf.WriteString("(set-logic QF_BV)\n")
	}
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.close()
	s.start()
}

func (s *Solver) push() {
	s.buf.WriteString("(push 1)\n")
	s.undo = append(s.undo, nil)
	s.ndecl = append(s.ndecl, len(s.decl))
}

func (s *Solver) pop() {
	s.buf.WriteString("(pop 1)\n")
	n := len(s.undo) - 1
	for _, t := range s.undo[n] {
		delete(s.sent, t)
	}
	s.undo = s.undo[:n]
	s.decl = s.decl[:s.ndecl[n]]
	s.ndecl = s.ndecl[:n]
}

func (s *Solver) noteSent(t *Term, name string) {
	s.sent[t] = name
	n := len(s.undo) - 1
	if n >= 0 {
		s.undo[n] = append(s.undo[n], t)
	}
}

func (s *Solver) isDecl(t *Term) bool { _, ok := s.sent[t]; return ok }

// ref makes the term available in the solver and returns its text.
func (s *Solver) ref(t *Term) string {
	if t.op == OConst {
		return smtConst(t)
	}
	if n, ok := s.sent[t]; ok {
		return n
	}
	if t.op == OVar {
		n := "v" + strconv.Itoa(int(t.id))
		fmt.Fprintf(&s.buf, "(declare-const %s %s)\n", n, smtSort(t.w))
		s.noteSent(t, n)
		s.decl = append(s.decl, t)
		return n
	}
	a := s.ref(t.a)
	var b, c string
	if t.b != nil {
		b = s.ref(t.b)
	}
	if t.c != nil {
		c = s.ref(t.c)
	}
	n := "t" + strconv.Itoa(int(t.id))
	var e string
	switch t.op {
	case OZExt:
		if t.a.w == 0 {
			e = fmt.Sprintf("(ite %s %s %s)", a, smtConst(K(t.w, 1)), smtConst(K(t.w, 0)))
		} else {
			e = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, a)
		}
	case OSExt:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, a)
	case OTrunc:
		e = fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, a)
	case OIte:
		e = fmt.Sprintf("(ite %s %s %s)", a, b, c)
	case OBNot, ONotB, ONeg:
		e = fmt.Sprintf("(%s %s)", opName[t.op], a)
	default:
		e = fmt.Sprintf("(%s %s %s)", opName[t.op], a, b)
	}
	fmt.Fprintf(&s.buf, "(define-fun %s () %s %s)\n", n, smtSort(t.w), e)
	s.noteSent(t, n)
	return n
}

func (s *Solver) assert(t *Term) {
	r := s.ref(t)
	fmt.Fprintf(&s.buf, "(assert %s)\n", r)
}

func (s *Solver) flush() error {
	if s.log != nil {
		io.WriteString(s.log, s.buf.String())
	}
	_, err := io.WriteString(s.in, s.buf.String())
	s.buf.Reset()
	return err
}

const (
	rUnsat = iota
	rSat
	rUnknown
)

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// checkSat runs the query on what was asserted so far; with sat, the values of the declared variables.
func (s *Solver) checkSat() (int, Model) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.tsolve += d
		if s.log != nil {
			fmt.Fprintf(s.log, "; %.3f s\n", d.Seconds())
		}
		if d > time.Second && s.slow != nil {
			s.slow(d)
		}
	}()
	s.nq++
	s.buf.WriteString("(check-sat)\n")
	if err := s.flush(); err != nil {
		s.nerr++
		panic(solverDied{err.Error()})
	}
	line, err := s.readLine()
	if err != nil {
		s.nerr++
		panic(solverDied{err.Error()})
	}
	switch line {
	case "unsat":
		s.nunsat++
		return rUnsat, nil
	case "sat":
		s.nsat++
	case "unknown", "timeout":
		s.nunk++
		return rUnknown, nil
	default:
		s.nerr++
		panic(solverDied{"unexpected solver output: " + line})
	}
	m := Model{}
	if len(s.decl) == 0 {
		return rSat, m
	}
	s.buf.WriteString("(get-value (")
	for _, t := range s.decl {
		s.buf.WriteString(s.sent[t])
		s.buf.WriteByte(' ')
	}
	s.buf.WriteString("))\n")
	if err := s.flush(); err != nil {
		panic(solverDied{err.Error()})
	}
	// parse ((v1 #x..) (v2 true) ...)
	depth := 0
	var tok strings.Builder
	var toks []string
	emit := func() {
		if tok.Len() > 0 {
			toks = append(toks, tok.String())
			tok.Reset()
		}
	}
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			panic(solverDied{err.Error()})
		}
		if c == '(' {
			depth++
			emit()
			continue
		}
		if c == ')' {
			depth--
			emit()
			if depth == 0 {
				break
			}
			continue
		}
		if c == ' ' || c == '\n' || c == '\r' || c == '\t' {
			emit()
			continue
		}
		tok.WriteByte(c)
	}
	s.out.ReadString('\n')
	if len(toks) > 0 && toks[0] == "error" {
		s.nerr++
		panic(solverDied{strings.Join(toks, " ")})
	}
	byName := map[string]*Term{}
	for _, t := range s.decl {
		byName[s.sent[t]] = t
	}
	for i := 0; i+1 < len(toks); i += 2 {
		t := byName[toks[i]]
		if t == nil {
			panic(solverDied{"bad model: " + strings.Join(toks, " ")})
		}
		v := toks[i+1]
		switch {
		case v == "true":
			m[t.name] = 1
		case v == "false":
			m[t.name] = 0
		case strings.HasPrefix(v, "#x"):
			x, err := strconv.ParseUint(v[2:], 16, 64)
			if err != nil {
				panic(solverDied{"bad value " + v})
			}
			m[t.name] = x
		case strings.HasPrefix(v, "#b"):
			x, err := strconv.ParseUint(v[2:], 2, 64)
			if err != nil {
				panic(solverDied{"bad value " + v})
			}
			m[t.name] = x
		default:
			panic(solverDied{"bad value " + v})
		}
	}
	return rSat, m
}

type solverDied struct{ why string }
