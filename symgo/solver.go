package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

type Solver struct {
	ctx     *TCtx
	bin     string
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	epoch   int32
	emitted int
	timeout int
	dead    bool
	log     io.Writer

	Queries  int
	Unknowns int
	Retries  int
	Errors   int
	Time     time.Duration
	declVars []*Term
}

func NewSolver(ctx *TCtx, timeoutMS int) *Solver {
	s := &Solver{ctx: ctx, timeout: timeoutMS, bin: "z3-new"}
	if b := os.Getenv("SYMGO_Z3"); b != "" {
		s.bin = b
	}
	if f := os.Getenv("SYMGO_SMTLOG"); f != "" {
		w, _ := os.Create(fmt.Sprintf("%s.%p", f, s))
		s.log = w
	}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	var w io.Writer = in
	if s.log != nil {
		w = io.MultiWriter(in, s.log)
	}
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.ctx.solverEpochNext()
	s.epoch = solverEpochOf(s.ctx)
	s.emitted = 0
	s.declVars = nil
	s.dead = false
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :timeout %d)\n(set-option :produce-models true)\n(push 1)\n", s.timeout)
}

func (c *TCtx) solverEpochNext()  { c.solEpoch++ }
func solverEpochOf(c *TCtx) int32 { return c.solEpoch }

func (s *Solver) Close() {
	if s.cmd != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) Restart() { s.Close(); s.start() }

// Reset drops all assertions (start of a new path).
func (s *Solver) Reset() {
	if s.dead || s.emitted > 150000 {
		s.Restart()
		return
	}
	s.in.WriteString("(pop 1)\n(push 1)\n")
}

func (s *Solver) emit(t *Term) {
	if t.op == OConst || t.emitEpoch == s.epoch {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.t.op == OConst || f.t.emitEpoch == s.epoch {
			st = st[:len(st)-1]
			continue
		}
		if f.t.op == OVar {
			fmt.Fprintf(s.in, "(declare-const %s %s)\n", f.t.ref(), sortName(f.t.w))
			s.declVars = append(s.declVars, f.t)
			f.t.emitEpoch = s.epoch
			st = st[:len(st)-1]
			continue
		}
		var ch *Term
		switch f.i {
		case 0:
			ch = f.t.a
		case 1:
			ch = f.t.b
		case 2:
			ch = f.t.c
		default:
			fmt.Fprintf(s.in, "(define-fun %s () %s %s)\n", f.t.ref(), sortName(f.t.w), f.t.body())
			s.emitted++
			f.t.emitEpoch = s.epoch
			st = st[:len(st)-1]
			continue
		}
		f.i++
		if ch != nil {
			st = append(st, fr{ch, 0})
		}
	}
}

func (s *Solver) Assert(t *Term) {
	if t.isConst() && t.v == 1 {
		return
	}
	s.emit(t)
	fmt.Fprintf(s.in, "(assert %s)\n", t.ref())
}

// Check decides satisfiability of the asserted formulas plus t (may be nil).
func (s *Solver) Check(t *Term, vars []*Term) (SatResult, Model) {
	if t != nil && t.isConst() {
		if t.v == 0 {
			return Unsat, nil
		}
		t = nil
	}
	s.Queries++
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	if t != nil {
		s.emit(t)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", t.ref())
	}
	s.in.WriteString("(check-sat)\n")
	s.in.Flush()
	r := Unknown
	line := s.readLine()
	if line == "unknown" || line == "timeout" {
		// the incremental solver gave up: simplify the whole query first
		s.Retries++
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n(check-sat-using (then simplify propagate-values solve-eqs elim-uncnstr simplify bit-blast sat))\n(set-option :timeout %d)\n", 30000, s.timeout)
		s.in.Flush()
		line = s.readLine()
	}
	switch line {
	case "sat":
		r = Sat
	case "unsat":
		r = Unsat
	case "unknown", "timeout":
		s.Unknowns++
	default:
		s.Errors++
		fmt.Fprintln(os.Stderr, "solver:", line)
		s.dead = true
		return Unknown, nil
	}
	var m Model
	if r == Sat && len(vars) > 0 {
		m = Model{}
		var sb strings.Builder
		n := 0
		var asked []*Term
		for _, v := range vars {
			if v.emitEpoch == s.epoch {
				if n == 0 {
					sb.WriteString("(get-value (")
				} else {
					sb.WriteByte(' ')
				}
				sb.WriteString(v.ref())
				n++
				asked = append(asked, v)
			}
		}
		if n > 0 {
			sb.WriteString("))\n")
			s.in.WriteString(sb.String())
			s.in.Flush()
			txt := s.readSexp()
			if !parseValues(txt, asked, m) {
				s.Errors++
				fmt.Fprintln(os.Stderr, "solver: bad values:", txt)
				s.dead = true
				return Unknown, nil
			}
		}
	}
	if t != nil {
		s.in.WriteString("(pop 1)\n")
	}
	return r, m
}

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		return "eof: " + err.Error()
	}
	return strings.TrimSpace(l)
}

func (s *Solver) readSexp() string {
	var sb strings.Builder
	d := 0
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return sb.String()
		}
		sb.WriteString(l)
		d += strings.Count(l, "(") - strings.Count(l, ")")
		if d <= 0 {
			return sb.String()
		}
	}
}

func parseValues(txt string, vars []*Term, m Model) bool {
	byName := map[string]*Term{}
	for _, v := range vars {
		byName[v.ref()] = v
	}
	txt = strings.NewReplacer("(", " ", ")", " ", "\n", " ").Replace(txt)
	f := strings.Fields(txt)
	for i := 0; i+1 < len(f); {
		v := byName[f[i]]
		if v == nil {
			return false
		}
		x := f[i+1]
		switch {
		case x == "true":
			m[v] = 1
		case x == "false":
			m[v] = 0
		case strings.HasPrefix(x, "#x"):
			n, err := strconv.ParseUint(x[2:], 16, 64)
			if err != nil {
				return false
			}
			m[v] = n
		case strings.HasPrefix(x, "#b"):
			n, err := strconv.ParseUint(x[2:], 2, 64)
			if err != nil {
				return false
			}
			m[v] = n
		case x == "_" && i+3 < len(f):
			n, err := strconv.ParseUint(f[i+2][2:], 10, 64)
			if err != nil {
				return false
			}
			m[v] = n
			i += 2
		default:
			return false
		}
		i += 2
	}
	return true
}
