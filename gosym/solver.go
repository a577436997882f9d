package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math/big"
	"os/exec"
	"strings"
	"time"
)

type Result uint8

const (
	Unknown Result = iota
	Sat
	Unsat
)

// Solver drives one incremental z3 process. The asserted stack mirrors the
// path condition of the current path.
type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	stack   []*Term
	defined map[*Term]bool
	Queries int
	NSat    int
	NUnsat  int
	NUnk    int
	Time    time.Duration
	bin     string
	timeout int // ms
	dead    bool
}

func newSolver(bin string, timeoutMs int) *Solver {
	s := &Solver{bin: bin, timeout: timeoutMs}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.stack = nil
	s.defined = map[*Term]bool{}
	s.dead = false
	s.send(fmt.Sprintf("(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :timeout %d)\n(set-option :memory_max_size 3000)\n", s.timeout))
}

func (s *Solver) send(t string) {
	if _, err := io.WriteString(s.in, t); err != nil {
		s.dead = true
	}
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) readLine() (string, bool) {
	l, err := s.out.ReadString('\n')
	if err != nil {
		s.dead = true
		return "", false
	}
	return strings.TrimSpace(l), true
}

// sync makes the asserted stack equal to pc.
func (s *Solver) sync(pc []*Term, sb *strings.Builder) {
	n := 0
	for n < len(s.stack) && n < len(pc) && s.stack[n] == pc[n] {
		n++
	}
	if d := len(s.stack) - n; d > 0 {
		fmt.Fprintf(sb, "(pop %d)\n", d)
		s.stack = s.stack[:n]
	}
	for _, t := range pc[n:] {
		r := t.ref(s.defined, sb)
		fmt.Fprintf(sb, "(push 1)\n(assert %s)\n", r)
		s.stack = append(s.stack, t)
	}
}

// Check decides pc && extra. If sat and vars != nil the model over vars is returned.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term) (Result, *Model) {
	if s.dead {
		s.Close()
		s.start()
	}
	t0 := time.Now()
	s.Queries++
	var sb strings.Builder
	s.sync(pc, &sb)
	if extra != nil {
		r := extra.ref(s.defined, &sb)
		fmt.Fprintf(&sb, "(push 1)\n(assert %s)\n", r)
	}
	for _, v := range vars {
		v.ref(s.defined, &sb)
	}
	sb.WriteString("(check-sat)\n")
	s.send(sb.String())
	res := Unknown
	l, ok := s.readLine()
	for ok && strings.HasPrefix(l, "(error") {
		// an error makes the session unreliable: inconclusive
		s.dead = true
		ok = false
	}
	switch l {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	}
	var m *Model
	if ok && res == Sat {
		m = newModel()
		if len(vars) > 0 {
			var q strings.Builder
			q.WriteString("(get-value (")
			for _, v := range vars {
				fmt.Fprintf(&q, "t%d ", v.id)
			}
			q.WriteString("))\n")
			s.send(q.String())
			if !s.readModel(m, vars) {
				s.dead = true
				res = Unknown
			}
		}
	}
	if extra != nil && !s.dead {
		s.send("(pop 1)\n")
	}
	s.Time += time.Since(t0)
	switch res {
	case Sat:
		s.NSat++
	case Unsat:
		s.NUnsat++
	default:
		s.NUnk++
		if res2, m2 := s.fallback(pc, extra, vars); res2 != Unknown {
			s.Time += 0
			return res2, m2
		}
	}
	return res, m
}

func (s *Solver) readModel(m *Model, vars []*Term) bool {
	byID := map[string]*Term{}
	for _, v := range vars {
		byID[fmt.Sprintf("t%d", v.id)] = v
	}
	depth, started := 0, false
	var toks []string
	for !started || depth > 0 {
		l, ok := s.readLine()
		if !ok || strings.HasPrefix(l, "(error") {
			return false
		}
		cur := ""
		for _, c := range l {
			switch c {
			case '(', ')', ' ', '\t':
				if cur != "" {
					toks = append(toks, cur)
					cur = ""
				}
				if c == '(' {
					depth++
					started = true
					toks = append(toks, "(")
				} else if c == ')' {
					depth--
					toks = append(toks, ")")
				}
			default:
				cur += string(c)
			}
		}
		if cur != "" {
			toks = append(toks, cur)
		}
	}
	return parseModel(toks, byID, m)
}

// parseModel reads ((t1 5) (t2 (- 3)) (t3 true) ...)
func parseModel(toks []string, byID map[string]*Term, m *Model) bool {
	i := 1
	for i < len(toks) && toks[i] == "(" {
		if i+2 >= len(toks) {
			return false
		}
		v := byID[toks[i+1]]
		i += 2
		val := toks[i]
		neg := false
		if val == "(" {
			if toks[i+1] != "-" {
				return false
			}
			neg = true
			val = toks[i+2]
			i += 4
		} else {
			i++
		}
		if v != nil {
			if v.op == OpBVar {
				m.bools[v] = val == "true"
			} else {
				k, ok := new(big.Int).SetString(val, 10)
				if !ok {
					return false
				}
				if neg {
					k.Neg(k)
				}
				m.ints[v] = k
			}
		}
		if i >= len(toks) || toks[i] != ")" {
			return false
		}
		i++
	}
	return true
}

// fallback asks the other installed solvers, non-incrementally.
func (s *Solver) fallback(pc []*Term, extra *Term, vars []*Term) (Result, *Model) {
	var sb strings.Builder
	def := map[*Term]bool{}
	var as strings.Builder
	for _, t := range append(append([]*Term{}, pc...), extra) {
		if t == nil {
			continue
		}
		r := t.ref(def, &sb)
		fmt.Fprintf(&as, "(assert %s)\n", r)
	}
	for _, v := range vars {
		v.ref(def, &sb)
	}
	tail := "(check-sat)\n"
	if len(vars) > 0 {
		tail += "(get-value ("
		for _, v := range vars {
			tail += fmt.Sprintf("t%d ", v.id)
		}
		tail += "))\n"
	}
	txt := "(set-option :produce-models true)\n(set-logic ALL)\n" + sb.String() + as.String() + tail
	for _, c := range [][]string{{"z3", "-in", "-smt2", fmt.Sprintf("-t:%d", s.timeout)}, {"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", s.timeout), "-"}} {
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(s.timeout+2000)*time.Millisecond)
		cmd := exec.CommandContext(ctx, c[0], c[1:]...)
		cmd.Stdin = strings.NewReader(txt)
		out, _ := cmd.Output()
		cancel()
		o := string(out)
		if strings.HasPrefix(o, "unsat") {
			s.NUnsat++
			s.NUnk--
			return Unsat, nil
		}
		if strings.HasPrefix(o, "sat") && !strings.Contains(o, "(error") {
			m := newModel()
			byID := map[string]*Term{}
			for _, v := range vars {
				byID[fmt.Sprintf("t%d", v.id)] = v
			}
			o = strings.TrimPrefix(o, "sat")
			o = strings.NewReplacer("(", " ( ", ")", " ) ").Replace(o)
			if len(vars) == 0 || parseModel(strings.Fields(o), byID, m) {
				s.NSat++
				s.NUnk--
				return Sat, m
			}
		}
	}
	return Unknown, nil
}
