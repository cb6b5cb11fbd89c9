package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Result of a satisfiability query.
type Sat int

const (
	Unsat Sat = iota
	SatYes
	Unknown
)

// Solver is one SMT solver process driven over a pipe.
type Solver struct {
	cmd      *exec.Cmd
	in       *bufio.Writer
	inPipe   io.WriteCloser
	out      *bufio.Reader
	declared map[string]bool
	cache    map[string]cacheEnt
	Queries  int
	CacheHit int
	Unknowns int
	Time     time.Duration
	MaxTime  time.Duration
	args     []string
}

type cacheEnt struct {
	r Sat
	m Model
}

func NewSolver(args ...string) (*Solver, error) {
	s := &Solver{args: args, cache: map[string]cacheEnt{}}
	return s, s.start()
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.args[0], s.args[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inPipe = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.declared = map[string]bool{}
	if strings.Contains(s.args[0], "z3") {
		fmt.Fprintln(s.in, "(set-option :timeout 20000)")
	} else {
		fmt.Fprintln(s.in, "(set-option :tlimit-per 20000)")
		fmt.Fprintln(s.in, "(set-option :produce-models true)")
		fmt.Fprintln(s.in, "(set-logic QF_BV)")
	}
	return nil
}

func (s *Solver) Close() {
	s.inPipe.Close()
	_ = s.cmd.Process.Kill()
	_ = s.cmd.Wait()
}

func queryKey(es []*Expr) string {
	ids := make([]int, len(es))
	for i, e := range es {
		ids[i] = int(e.id)
	}
	sort.Ints(ids)
	b := make([]byte, 0, len(ids)*4)
	for i, id := range ids {
		if i > 0 && ids[i-1] == id {
			continue
		}
		b = append(b, byte(id), byte(id>>8), byte(id>>16), byte(id>>24))
	}
	return string(b)
}

// Check decides the conjunction of es; with SatYes a model of their variables.
func (s *Solver) Check(es []*Expr) (Sat, Model) {
	key := queryKey(es)
	if c, ok := s.cache[key]; ok {
		s.CacheHit++
		return c.r, c.m
	}
	t0 := time.Now()
	r, m := s.query(es)
	d := time.Since(t0)
	s.Time += d
	if d > s.MaxTime {
		s.MaxTime = d
	}
	s.Queries++
	if r == Unknown {
		s.Unknowns++
	}
	if len(s.cache) > 400000 {
		s.cache = map[string]cacheEnt{}
	}
	s.cache[key] = cacheEnt{r, m}
	return r, m
}

func (s *Solver) query(es []*Expr) (Sat, Model) {
	vs, text := smtAssertions(es)
	for _, v := range vs {
		if !s.declared[v.name] {
			s.declared[v.name] = true
			fmt.Fprintf(s.in, "(declare-const %s %s)\n", smtVar(v.name), sortName(v.w))
		}
	}
	fmt.Fprintf(s.in, "(push 1)\n%s\n(check-sat)\n", text)
	if err := s.in.Flush(); err != nil {
		return Unknown, nil
	}
	line, err := s.readLine()
	if err != nil {
		s.restart()
		return Unknown, nil
	}
	res := Unknown
	var m Model
	switch line {
	case "unsat":
		res = Unsat
	case "sat":
		res = SatYes
		m = Model{}
		if len(vs) > 0 {
			var b strings.Builder
			b.WriteString("(get-value (")
			for _, v := range vs {
				b.WriteString(smtVar(v.name))
				b.WriteByte(' ')
			}
			b.WriteString("))\n")
			s.in.WriteString(b.String())
			s.in.Flush()
			txt, err := s.readSexp()
			if err != nil || strings.Contains(txt, "(error") || !parseModel(txt, m) {
				s.restart()
				return Unknown, nil
			}
		}
	default:
		if strings.Contains(line, "error") {
			fmt.Println("solver:", line)
			s.restart()
			return Unknown, nil
		}
	}
	fmt.Fprintf(s.in, "(pop 1)\n")
	return res, m
}

func (s *Solver) restart() {
	s.Close()
	_ = s.start()
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var b strings.Builder
	depth := 0
	inBar := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		b.WriteByte(c)
		if c == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
			if depth == 0 {
				return b.String(), nil
			}
		}
	}
}

// parseModel reads "((|x| #b101) (|y| true))".
func parseModel(txt string, m Model) bool {
	i := 0
	n := len(txt)
	skip := func() {
		for i < n && (txt[i] == ' ' || txt[i] == '\n' || txt[i] == '\t' || txt[i] == '\r') {
			i++
		}
	}
	skip()
	if i >= n || txt[i] != '(' {
		return false
	}
	i++
	for {
		skip()
		if i < n && txt[i] == ')' {
			return true
		}
		if i >= n || txt[i] != '(' {
			return false
		}
		i++
		skip()
		var name string
		if txt[i] == '|' {
			j := strings.IndexByte(txt[i+1:], '|')
			name = txt[i+1 : i+1+j]
			i += j + 2
		} else {
			j := i
			for i < n && txt[i] != ' ' && txt[i] != '\n' {
				i++
			}
			name = txt[j:i]
		}
		skip()
		j := i
		if txt[i] == '(' { // (_ bvN w)
			for txt[i] != ')' {
				i++
			}
			i++
		} else {
			for i < n && txt[i] != ')' && txt[i] != ' ' && txt[i] != '\n' {
				i++
			}
		}
		lit := txt[j:i]
		var v uint64
		var err error
		switch {
		case lit == "true":
			v = 1
		case lit == "false":
			v = 0
		case strings.HasPrefix(lit, "#b"):
			v, err = strconv.ParseUint(lit[2:], 2, 64)
		case strings.HasPrefix(lit, "#x"):
			v, err = strconv.ParseUint(lit[2:], 16, 64)
		case strings.HasPrefix(lit, "(_ bv"):
			f := strings.Fields(lit)
			v, err = strconv.ParseUint(strings.TrimPrefix(f[1], "bv"), 10, 64)
		default:
			return false
		}
		if err != nil {
			return false
		}
		m[name] = v
		skip()
		if i >= n || txt[i] != ')' {
			return false
		}
		i++
	}
}
