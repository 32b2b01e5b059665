package sym

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// Solver drives one persistent SMT process; the assertion stack mirrors a path condition.
type Solver struct {
	Bank    *Bank
	Cmd     []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inc     io.WriteCloser
	out     *bufio.Reader
	stack   []*Term
	defined map[*Term]bool
	ufs     map[string]bool
	Queries int
	NSat    int
	NUnsat  int
	NUnk    int
	Time    time.Duration
	MaxTime time.Duration
	Errors  []string
	TimeoutMS int
	Log     io.Writer
	since   int
}

func NewSolver(b *Bank, timeoutMS int, cmd ...string) *Solver {
	if len(cmd) == 0 {
		cmd = []string{"z3-new", "-in"}
	}
	return &Solver{Bank: b, Cmd: cmd, TimeoutMS: timeoutMS}
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.Cmd[0], s.Cmd[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.stack = nil
	s.defined = map[*Term]bool{}
	s.ufs = map[string]bool{}
	s.since = 0
	s.send("(set-option :global-declarations true)")
	s.send("(set-option :produce-models true)")
	if strings.HasPrefix(s.Cmd[0], "z3") {
		s.send(fmt.Sprintf("(set-option :timeout %d)", s.TimeoutMS))
	} else {
		s.send(fmt.Sprintf("(set-option :tlimit-per %d)", s.TimeoutMS))
		s.send("(set-logic ALL)")
	}
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(l string) {
	if s.Log != nil {
		fmt.Fprintln(s.Log, l)
	}
	s.in.WriteString(l)
	s.in.WriteByte('\n')
}

func (s *Solver) define(t *Term) {
	if t.Op == OpConst || s.defined[t] {
		return
	}
	s.defined[t] = true
	if t.Op == OpVar {
		s.send("(declare-const |" + t.Name + "| " + t.Sort.String() + ")")
		return
	}
	if t.Op == OpUF && !s.ufs[t.Name] {
		s.ufs[t.Name] = true
		s.send(s.Bank.UFs[t.Name])
	}
	for _, a := range t.Args {
		s.define(a)
	}
	s.send(fmt.Sprintf("(define-fun t!%d () %s %s)", t.ID, t.Sort, t.body()))
}

// Check decides satisfiability of pc ∧ extra. After Sat, Model may be called.
func (s *Solver) Check(pc []*Term, extra ...*Term) Result {
	for attempt := 0; ; attempt++ {
		r, err := s.check(pc, extra...)
		if err == nil {
			return r
		}
		s.Close()
		if attempt >= 1 {
			s.Errors = append(s.Errors, err.Error())
			s.NUnk++
			return Unknown
		}
	}
}

func (s *Solver) check(pc []*Term, extra ...*Term) (Result, error) {
	if s.cmd != nil && s.since > 20000 {
		s.Close()
	}
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return Unknown, err
		}
	}
	s.since++
	t0 := time.Now()
	n := 0
	want := pc
	if len(extra) > 0 {
		want = append(append([]*Term{}, pc...), extra...)
	}
	for n < len(s.stack) && n < len(want) && s.stack[n] == want[n] {
		n++
	}
	if k := len(s.stack) - n; k > 0 {
		s.send(fmt.Sprintf("(pop %d)", k))
		s.stack = s.stack[:n]
	}
	for _, t := range want[n:] {
		s.define(t)
		s.send("(push 1)")
		s.send("(assert " + t.ref() + ")")
		s.stack = append(s.stack, t)
	}
	s.send("(check-sat)")
	if err := s.in.Flush(); err != nil {
		return Unknown, err
	}
	line, err := s.line()
	d := time.Since(t0)
	s.Time += d
	if d > s.MaxTime {
		s.MaxTime = d
	}
	if err != nil {
		return Unknown, err
	}
	s.Queries++
	switch line {
	case "sat":
		s.NSat++
		return Sat, nil
	case "unsat":
		s.NUnsat++
		return Unsat, nil
	case "unknown", "timeout":
		s.NUnk++
		return Unknown, nil
	}
	return Unknown, fmt.Errorf("solver: %s", line)
}

func (s *Solver) line() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

// Model returns values for the given variables after a Sat answer: *big.Int, *big.Rat or bool.
func (s *Solver) Model(vars []*Term) (map[*Term]any, error) {
	m := map[*Term]any{}
	if len(vars) == 0 {
		return m, nil
	}
	for _, v := range vars {
		s.define(v)
	}
	// definitions after check-sat may invalidate the model: re-check cheaply
	s.send("(check-sat)")
	s.send("(get-value (" + joinRefs(vars) + "))")
	if err := s.in.Flush(); err != nil {
		return nil, err
	}
	l, err := s.line()
	if err != nil {
		return nil, err
	}
	if l != "sat" {
		return nil, fmt.Errorf("model: %s", l)
	}
	txt, err := s.sexpr()
	if err != nil {
		return nil, err
	}
	e, _, err := parseSexp(txt, 0)
	if err != nil {
		return nil, err
	}
	if len(e.list) != len(vars) {
		return nil, fmt.Errorf("model: got %d values for %d vars: %.200s", len(e.list), len(vars), txt)
	}
	for i, v := range vars {
		val := e.list[i].list[1]
		switch v.Sort {
		case Bool:
			m[v] = val.atom == "true"
		default:
			r, err := val.rat()
			if err != nil {
				return nil, err
			}
			if v.Sort == Int {
				m[v] = new(big.Int).Set(r.Num())
			} else {
				m[v] = r
			}
		}
	}
	return m, nil
}

func joinRefs(vs []*Term) string {
	r := make([]string, len(vs))
	for i, v := range vs {
		r[i] = v.ref()
	}
	return strings.Join(r, " ")
}

func (s *Solver) sexpr() (string, error) {
	var sb strings.Builder
	depth := 0
	bar := false
	started := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(c)
		if c == '|' {
			bar = !bar
		}
		if bar {
			continue
		}
		if c == '(' {
			depth++
			started = true
		}
		if c == ')' {
			depth--
			if started && depth == 0 {
				return sb.String(), nil
			}
		}
	}
}

type sexp struct {
	atom string
	list []sexp
}

func parseSexp(s string, i int) (sexp, int, error) {
	for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r') {
		i++
	}
	if i >= len(s) {
		return sexp{}, i, fmt.Errorf("eof")
	}
	if s[i] == '(' {
		i++
		var e sexp
		e.list = []sexp{}
		for {
			for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r') {
				i++
			}
			if i >= len(s) {
				return e, i, fmt.Errorf("eof in list")
			}
			if s[i] == ')' {
				return e, i + 1, nil
			}
			x, j, err := parseSexp(s, i)
			if err != nil {
				return e, j, err
			}
			e.list = append(e.list, x)
			i = j
		}
	}
	j := i
	if s[i] == '|' {
		j = i + 1
		for j < len(s) && s[j] != '|' {
			j++
		}
		return sexp{atom: s[i : j+1]}, j + 1, nil
	}
	for j < len(s) && !strings.ContainsRune(" \n\t\r()", rune(s[j])) {
		j++
	}
	return sexp{atom: s[i:j]}, j, nil
}

func (e sexp) rat() (*big.Rat, error) {
	if e.list == nil {
		r, ok := new(big.Rat).SetString(e.atom)
		if !ok {
			return nil, fmt.Errorf("bad number %q", e.atom)
		}
		return r, nil
	}
	switch e.list[0].atom {
	case "-":
		r, err := e.list[1].rat()
		if err != nil {
			return nil, err
		}
		return r.Neg(r), nil
	case "/":
		x, err := e.list[1].rat()
		if err != nil {
			return nil, err
		}
		y, err := e.list[2].rat()
		if err != nil {
			return nil, err
		}
		return x.Quo(x, y), nil
	case "to_real":
		return e.list[1].rat()
	}
	return nil, fmt.Errorf("bad number expr")
}

// Eval evaluates a term under a model (missing variables default to 0/false or the lower bound).
func Eval(t *Term, m map[*Term]any, memo map[*Term]any) any {
	if v, ok := memo[t]; ok {
		return v
	}
	var r any
	gi := func(i int) *big.Int { return Eval(t.Args[i], m, memo).(*big.Int) }
	gr := func(i int) *big.Rat { return Eval(t.Args[i], m, memo).(*big.Rat) }
	gb := func(i int) bool { return Eval(t.Args[i], m, memo).(bool) }
	switch t.Op {
	case OpConst:
		switch t.Sort {
		case Bool:
			r = t.B
		case Int:
			r = t.C
		default:
			r = t.R
		}
	case OpVar:
		if v, ok := m[t]; ok {
			r = v
		} else {
			switch t.Sort {
			case Bool:
				r = false
			case Int:
				v := new(big.Int)
				if t.Lo != nil && v.Cmp(t.Lo) < 0 {
					v = t.Lo
				}
				if t.Hi != nil && v.Cmp(t.Hi) > 0 {
					v = t.Hi
				}
				r = v
			default:
				r = new(big.Rat)
			}
		}
	case OpLin:
		s := new(big.Int).Set(t.C)
		for i := range t.Args {
			s.Add(s, new(big.Int).Mul(t.Coef[i], gi(i)))
		}
		r = s
	case OpRLin:
		s := new(big.Rat).Set(t.R)
		for i := range t.Args {
			s.Add(s, new(big.Rat).Mul(t.RCoef[i], gr(i)))
		}
		r = s
	case OpMul:
		if t.Sort == Int {
			r = new(big.Int).Mul(gi(0), gi(1))
		} else {
			r = new(big.Rat).Mul(gr(0), gr(1))
		}
	case OpDiv:
		if y := gi(1); y.Sign() == 0 {
			r = new(big.Int)
		} else {
			r = new(big.Int).Div(gi(0), y)
		}
	case OpMod:
		if y := gi(1); y.Sign() == 0 {
			r = gi(0)
		} else {
			r = new(big.Int).Mod(gi(0), y)
		}
	case OpRDiv:
		if y := gr(1); y.Sign() == 0 {
			r = new(big.Rat)
		} else {
			r = new(big.Rat).Quo(gr(0), y)
		}
	case OpIte:
		if gb(0) {
			r = Eval(t.Args[1], m, memo)
		} else {
			r = Eval(t.Args[2], m, memo)
		}
	case OpLe0:
		r = gi(0).Sign() <= 0
	case OpEq0:
		r = gi(0).Sign() == 0
	case OpRLe0:
		r = gr(0).Sign() <= 0
	case OpRLt0:
		r = gr(0).Sign() < 0
	case OpREq0:
		r = gr(0).Sign() == 0
	case OpAnd:
		v := true
		for i := range t.Args {
			v = v && gb(i)
		}
		r = v
	case OpOr:
		v := false
		for i := range t.Args {
			v = v || gb(i)
		}
		r = v
	case OpNot:
		r = !gb(0)
	case OpIff:
		r = gb(0) == gb(1)
	case OpToReal:
		r = new(big.Rat).SetInt(gi(0))
	case OpFloor:
		x := gr(0)
		r = new(big.Int).Div(x.Num(), x.Denom())
	case OpUF:
		if v, ok := m[t]; ok {
			r = v
		} else if t.Sort == Int {
			r = new(big.Int)
		} else if t.Sort == Bool {
			r = false
		} else {
			r = new(big.Rat)
		}
	}
	memo[t] = r
	return r
}
