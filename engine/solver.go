package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

// Solver drives one incremental SMT solver process.
type Solver struct {
	st       *Store
	cmd      *exec.Cmd
	in       *bufio.Writer
	out      *bufio.Reader
	gen      int32 // emission generation (restarts)
	stack    []*Term
	nEmit    int
	Queries  int
	Unknowns int
	Time     time.Duration
	bin      []string
	timeout  int
	declared []*Term
	deadline time.Time
	inLog    *bytes.Buffer
}

var solverBin = pickSolver()

func pickSolver() []string {
	for _, b := range []string{"z3-new", "z3"} {
		if _, err := exec.LookPath(b); err == nil {
			return []string{b, "-in", "-smt2"}
		}
	}
	return []string{"z3", "-in", "-smt2"}
}

func NewSolver(st *Store) *Solver {
	s := &Solver{st: st, bin: solverBin, timeout: 20000}
	s.start()
	return s
}

func (s *Solver) start() {
	s.gen++
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	w, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.stack = s.stack[:0]
	s.nEmit = 0
	s.declared = s.declared[:0]
	s.send("(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :global-declarations true)\n")
	if s.bin[0] == "z3" || s.bin[0] == "z3-new" {
		s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout))
	}
	s.send("(set-logic QF_BV)\n")
}

func (s *Solver) Close() {
	if s.cmd == nil {
		return
	}
	s.send("(exit)\n")
	s.in.Flush()
	_ = s.cmd.Process.Kill()
	_ = s.cmd.Wait()
	s.cmd = nil
}

func (s *Solver) send(x string) {
	if s.inLog != nil {
		s.inLog.WriteString(x)
	}
	io.WriteString(s.in, x)
}

func (s *Solver) emit(t *Term) {
	if t.op == OConst || t.emitted == s.gen {
		return
	}
	if t.op == OVar {
		s.send("(declare-const |" + t.name + "| " + smtSort(t.w) + ")\n")
		t.emitted = s.gen
		s.declared = append(s.declared, t)
		return
	}
	s.emit(t.a)
	if t.b != nil {
		s.emit(t.b)
	}
	if t.c != nil {
		s.emit(t.c)
	}
	s.send("(define-fun t" + fmt.Sprint(t.id) + " () " + smtSort(t.w) + " " + t.body() + ")\n")
	t.emitted = s.gen
	s.nEmit++
}

// sync makes the solver's assertion stack equal to pc.
func (s *Solver) sync(pc []*Term) {
	if s.nEmit > 150000 {
		s.Close()
		s.start()
	}
	i := 0
	for i < len(pc) && i < len(s.stack) && pc[i] == s.stack[i] {
		i++
	}
	if n := len(s.stack) - i; n > 0 {
		s.send(fmt.Sprintf("(pop %d)\n", n))
		s.stack = s.stack[:i]
	}
	for ; i < len(pc); i++ {
		s.emit(pc[i])
		s.send("(push 1)\n(assert " + pc[i].ref() + ")\n")
		s.stack = append(s.stack, pc[i])
	}
}

// Check decides pc && extra. On Sat a model over all declared variables is returned.
func (s *Solver) Check(pc []*Term, extra *Term) (Result, Model) {
	t0 := time.Now()
	if !s.deadline.IsZero() && t0.After(s.deadline) {
		panic(unsupported{"time budget exhausted inside a path"})
	}
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	s.sync(pc)
	if extra != nil {
		s.emit(extra)
		s.send("(push 1)\n(assert " + extra.ref() + ")\n")
	}
	s.send("(check-sat)\n")
	s.in.Flush()
	// the solver's own timeout does not bound every phase of it
	proc := s.cmd.Process
	guard := time.AfterFunc(time.Duration(s.timeout)*time.Millisecond+5*time.Second, func() { _ = proc.Kill() })
	ans, err := s.readLine()
	if !guard.Stop() || err != nil {
		if err != nil && time.Since(t0) < time.Duration(s.timeout)*time.Millisecond {
			panic("solver died: " + err.Error())
		}
		s.Unknowns++
		_ = proc.Kill()
		_ = s.cmd.Wait()
		s.start()
		return Unknown, nil
	}
	res := Unknown
	var mdl Model
	switch {
	case ans == "sat":
		res = Sat
		mdl = s.getModel()
	case ans == "unsat":
		res = Unsat
	case strings.HasPrefix(ans, "(error"):
		panic("solver error: " + ans)
	default:
		s.Unknowns++
	}
	if extra != nil {
		s.send("(pop 1)\n")
	}
	return res, mdl
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) getModel() Model {
	m := Model{}
	if len(s.declared) == 0 {
		return m
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range s.declared {
		sb.WriteString(v.ref())
		sb.WriteByte(' ')
	}
	sb.WriteString("))\n")
	s.send(sb.String())
	s.in.Flush()
	// read balanced parens
	depth := 0
	started := false
	inBar := false
	var buf strings.Builder
	for !started || depth > 0 {
		c, err := s.out.ReadByte()
		if err != nil {
			panic("solver died: " + err.Error())
		}
		buf.WriteByte(c)
		if c == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if c == '(' {
			depth++
			started = true
		} else if c == ')' {
			depth--
		}
	}
	txt := buf.String()
	if strings.HasPrefix(strings.TrimSpace(txt), "(error") {
		panic("solver error: " + txt)
	}
	// parse sequence of (|name| value)
	i := 0
	for i < len(txt) {
		j := strings.IndexByte(txt[i:], '|')
		if j < 0 {
			// names may be printed unquoted
			break
		}
		j += i
		k := strings.IndexByte(txt[j+1:], '|') + j + 1
		name := txt[j+1 : k]
		rest := txt[k+1:]
		e := strings.IndexByte(rest, ')')
		val := strings.TrimSpace(rest[:e])
		m[name] = parseBV(val)
		i = k + 1 + e
	}
	return m
}

func parseBV(v string) uint64 {
	switch {
	case v == "true":
		return 1
	case v == "false":
		return 0
	case strings.HasPrefix(v, "#x"):
		var x uint64
		fmt.Sscanf(v[2:], "%x", &x)
		return x
	case strings.HasPrefix(v, "#b"):
		var x uint64
		for _, c := range v[2:] {
			x = x<<1 | uint64(c-'0')
		}
		return x
	case strings.HasPrefix(v, "(_ bv"):
		var x uint64
		fmt.Sscanf(v[5:], "%d", &x)
		return x
	}
	panic("bad value " + v)
}
