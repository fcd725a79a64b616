package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver is one SMT-LIB process kept alive; every node of the term DAG is
// defined once at the base level and queries are push/assert/check-sat/pop.
type Solver struct {
	T        *Terms
	cmdline  []string
	deadline time.Time // of the exploration
	cmd      *exec.Cmd
	in       *bufio.Writer
	out      *bufio.Reader
	inPipe   io.WriteCloser
	defined  map[*Term]bool
	vars     map[int32]bool
	ndef     int

	Queries int
	Sat     int
	Unsat   int
	Unknown int
	Time    time.Duration
	Errors  []string
	timeout int // ms
}

func newSolver(T *Terms, timeoutMs int, cmdline ...string) *Solver {
	if len(cmdline) == 0 {
		cmdline = []string{"z3-new", "-in", "-smt2"}
	}
	return &Solver{T: T, cmdline: cmdline, timeout: timeoutMs}
}

func (s *Solver) start() error {
	s.defined = map[*Term]bool{}
	s.vars = map[int32]bool{}
	s.ndef = 0
	s.cmd = exec.Command(s.cmdline[0], s.cmdline[1:]...)
	ip, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	op, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inPipe = ip
	s.in = bufio.NewWriterSize(ip, 1<<16)
	s.out = bufio.NewReaderSize(op, 1<<16)
	if strings.Contains(s.cmdline[0], "z3") {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.timeout)
	} else {
		fmt.Fprintf(s.in, "(set-option :tlimit-per %d)\n(set-option :produce-models true)\n(set-logic ALL)\n", s.timeout)
	}
	return nil
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		return smtExpr(t, nil)
	case OVar:
		s.declare(int32(t.k))
		return "v" + strconv.Itoa(int(t.k))
	}
	s.define(t)
	return "t" + strconv.Itoa(int(t.id))
}
func (s *Solver) declare(v int32) {
	if !s.vars[v] {
		s.vars[v] = true
		fmt.Fprintf(s.in, "(declare-const v%d %s)\n", v, sortStr(s.T.varSort[v]))
	}
}
func (s *Solver) define(t *Term) {
	if s.defined[t] {
		return
	}
	s.defined[t] = true
	for i := int8(0); i < t.nv; i++ {
		s.ref(t.a[i])
	}
	e := smtExpr(t, s.ref)
	fmt.Fprintf(s.in, "(define-fun t%d () %s %s)\n", t.id, sortStr(t.sort), e)
	s.ndef++
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// Check decides the conjunction; on sat it fills model for the variables listed.
func (s *Solver) Check(cs []*Term, wantModel []int32) (string, map[int32]uint64) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	if s.cmd != nil && s.ndef > 60000 {
		s.stop()
	}
	if s.cmd == nil {
		if err := s.start(); err != nil {
			s.Errors = append(s.Errors, err.Error())
			s.Unknown++
			return "unknown", nil
		}
	}
	refs := make([]string, len(cs))
	for i, c := range cs {
		refs[i] = s.ref(c)
	}
	for _, v := range wantModel {
		s.declare(v)
	}
	fmt.Fprintf(s.in, "(push 1)\n")
	for _, r := range refs {
		fmt.Fprintf(s.in, "(assert %s)\n", r)
	}
	fmt.Fprintf(s.in, "(check-sat)\n")
	s.in.Flush()
	// hard watchdog
	limit := time.Duration(s.timeout*3/2) * time.Millisecond
	if rest := time.Until(s.deadline) + 5*time.Second; !s.deadline.IsZero() && rest < limit {
		limit = rest
		if limit < 3*time.Second {
			limit = 3 * time.Second
		}
	}
	timer := time.AfterFunc(limit, func() {
		if s.cmd != nil {
			s.cmd.Process.Kill()
		}
	})
	defer timer.Stop()
	res := ""
	for {
		l, err := s.readLine()
		if err != nil {
			s.Errors = append(s.Errors, "solver died: "+err.Error())
			s.stop()
			s.Unknown++
			return "unknown", nil
		}
		if l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" {
			res = l
			break
		}
		if strings.HasPrefix(l, "(error") {
			s.Errors = append(s.Errors, l)
			if len(s.Errors) > 20 {
				s.Errors = s.Errors[:20]
			}
			res = "unknown"
			s.stop()
			s.Unknown++
			return res, nil
		}
	}
	var model map[int32]uint64
	if res == "sat" {
		s.Sat++
		model = map[int32]uint64{}
		if len(wantModel) > 0 {
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for _, v := range wantModel {
				fmt.Fprintf(&sb, " v%d", v)
			}
			sb.WriteString("))\n")
			s.in.WriteString(sb.String())
			s.in.Flush()
			txt := ""
			depth := 0
			for {
				l, err := s.readLine()
				if err != nil {
					s.stop()
					return "unknown", nil
				}
				txt += l + " "
				depth += strings.Count(l, "(") - strings.Count(l, ")")
				if depth <= 0 {
					break
				}
			}
			if strings.HasPrefix(txt, "(error") {
				s.Errors = append(s.Errors, txt)
				s.stop()
				return "unknown", nil
			}
			parseValues(txt, model)
		}
	} else if res == "unsat" {
		s.Unsat++
	} else {
		s.Unknown++
		res = "unknown"
	}
	fmt.Fprintf(s.in, "(pop 1)\n")
	return res, model
}

func parseValues(txt string, m map[int32]uint64) {
	txt = strings.NewReplacer("(", " ( ", ")", " ) ").Replace(txt)
	f := strings.Fields(txt)
	for i := 0; i < len(f); i++ {
		if strings.HasPrefix(f[i], "v") && i+1 < len(f) {
			n, err := strconv.Atoi(f[i][1:])
			if err != nil {
				continue
			}
			v := f[i+1]
			switch {
			case v == "true":
				m[int32(n)] = 1
			case v == "false":
				m[int32(n)] = 0
			case strings.HasPrefix(v, "#x"):
				u, _ := strconv.ParseUint(v[2:], 16, 64)
				m[int32(n)] = u
			case strings.HasPrefix(v, "#b"):
				u, _ := strconv.ParseUint(v[2:], 2, 64)
				m[int32(n)] = u
			case v == "(" && i+3 < len(f) && f[i+2] == "_":
				u, _ := strconv.ParseUint(strings.TrimPrefix(f[i+3], "bv"), 10, 64)
				m[int32(n)] = u
			}
		}
	}
}
