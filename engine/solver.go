package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

var solverEpoch int32

// Stats are global counters (atomic).
type Stats struct {
	Queries, SatN, UnsatN, UnknownN, Fallbacks, CrossChecked, CrossDisagree, CacheHits, OrderN, IntN, GuessN int64
	SolverNS                                                                                                 int64
	Paths, Instrs, Forks                                                                                     int64
}

// Solver wraps one incremental z3 process.
type Solver struct {
	ctx     *Ctx
	bin     string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	epoch   int32
	stack   []*Expr   // asserted, one scope each
	logs    [][]*Expr // definitions made in each scope
	stats   *Stats
	timeout int // ms
	hardMS  int
	cross   bool
	decls   int
	n       int
}

func NewSolver(ctx *Ctx, st *Stats) *Solver {
	return &Solver{ctx: ctx, bin: "z3-new", stats: st, timeout: 3000, hardMS: 20000}
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		return err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err = s.cmd.Start(); err != nil {
		return err
	}
	s.epoch = atomic.AddInt32(&solverEpoch, 1)
	s.stack = s.stack[:0]
	s.logs = s.logs[:0]
	s.n = 0
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.timeout)
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// Check decides pc ∧ extra; on Sat it returns a model over all variables seen.
func (s *Solver) Check(pc []*Expr, extra *Expr, vars []*Expr) (Res, Model) {
	if extra.IsFalse() {
		return Unsat, nil
	}
	t0 := time.Now()
	defer func() { atomic.AddInt64(&s.stats.SolverNS, int64(time.Since(t0))) }()
	atomic.AddInt64(&s.stats.Queries, 1)
	r, m, isInt := s.checkInt(pc, extra, vars)
	if isInt {
		atomic.AddInt64(&s.stats.IntN, 1)
	} else {
		r, m = s.check1(pc, extra, vars)
	}
	if dbgSlow != nil && time.Since(t0) > 200*time.Millisecond {
		fmt.Fprintf(dbgSlow, "; %v %v\n%s\n(reset)\n", time.Since(t0), r, s.script(pc, extra, vars))
	}
	if r == Unknown {
		atomic.AddInt64(&s.stats.Fallbacks, 1)
		r, m = s.oneShot(pc, extra, vars)
	} else if s.cross && r == Unsat {
		atomic.AddInt64(&s.stats.CrossChecked, 1)
		r2, _ := s.runOne([]string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", s.hardMS), "-"}, s.script(pc, extra, vars), vars)
		if r2 == Sat {
			atomic.AddInt64(&s.stats.CrossDisagree, 1)
			r = Unknown
		}
	}
	switch r {
	case Sat:
		atomic.AddInt64(&s.stats.SatN, 1)
	case Unsat:
		atomic.AddInt64(&s.stats.UnsatN, 1)
	default:
		atomic.AddInt64(&s.stats.UnknownN, 1)
	}
	return r, m
}

func (s *Solver) check1(pc []*Expr, extra *Expr, vars []*Expr) (Res, Model) {
	if s.cmd == nil || s.n > 20000 {
		s.Close()
		if err := s.start(); err != nil {
			return Unknown, nil
		}
	}
	s.n++
	var sb strings.Builder
	// sync the assertion stack
	k := 0
	for k < len(s.stack) && k < len(pc) && s.stack[k] == pc[k] {
		k++
	}
	if d := len(s.stack) - k; d > 0 {
		fmt.Fprintf(&sb, "(pop %d)\n", d)
		s.stack = s.stack[:k]
		for _, l := range s.logs[k:] {
			for _, x := range l {
				x.emitted = 0
			}
		}
		s.logs = s.logs[:k]
	}
	for _, e := range pc[k:] {
		var log []*Expr
		sb.WriteString("(push 1)\n")
		Emit(&sb, e, s.epoch, &log)
		fmt.Fprintf(&sb, "(assert %s)\n", ref(e))
		s.stack = append(s.stack, e)
		s.logs = append(s.logs, log)
	}
	var log []*Expr
	sb.WriteString("(push 1)\n")
	Emit(&sb, extra, s.epoch, &log)
	for _, v := range vars {
		Emit(&sb, v, s.epoch, &log)
	}
	defer func() {
		for _, x := range log {
			x.emitted = 0
		}
	}()
	fmt.Fprintf(&sb, "(assert %s)\n(check-sat)\n", ref(extra))
	if dbgSolver != nil {
		io.WriteString(dbgSolver, sb.String())
	}
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		s.Close()
		return Unknown, nil
	}
	l, err := s.readLine()
	if err != nil {
		s.Close()
		return Unknown, nil
	}
	switch l {
	case "unsat":
		s.pop1()
		return Unsat, nil
	case "sat":
		m, ok := s.getModel(vars)
		if !ok {
			s.Close()
			return Unknown, nil
		}
		s.pop1()
		return Sat, m
	case "unknown":
		s.pop1()
		return Unknown, nil
	default:
		fmt.Fprintf(os.Stderr, "solver: %s\n", l)
		s.Close()
		return Unknown, nil
	}
}

func (s *Solver) getModel(vars []*Expr) (Model, bool) {
	m := Model{}
	if len(vars) == 0 {
		return m, true
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range vars {
		sb.WriteString(v.name)
		sb.WriteString(" ")
	}
	sb.WriteString("))\n(echo \"<end>\")\n")
	if dbgSolver != nil {
		io.WriteString(dbgSolver, sb.String())
	}
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		return nil, false
	}
	var txt strings.Builder
	for {
		l, err := s.readLine()
		if err != nil {
			return nil, false
		}
		if strings.Contains(l, "<end>") {
			break
		}
		txt.WriteString(l)
		txt.WriteString(" ")
	}
	return parseModel(txt.String(), m)
}

func parseModel(t string, m Model) (Model, bool) {
	if strings.Contains(t, "(error") {
		return nil, false
	}
	f := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(t))
	for i := 0; i+1 < len(f); i += 2 {
		v := f[i+1]
		switch {
		case v == "true":
			m[f[i]] = 1
		case v == "false":
			m[f[i]] = 0
		case strings.HasPrefix(v, "#x"):
			x, err := strconv.ParseUint(v[2:], 16, 64)
			if err != nil {
				return nil, false
			}
			m[f[i]] = x
		case strings.HasPrefix(v, "#b"):
			x, err := strconv.ParseUint(v[2:], 2, 64)
			if err != nil {
				return nil, false
			}
			m[f[i]] = x
		default:
			return nil, false
		}
	}
	return m, true
}

func (s *Solver) script(pc []*Expr, extra *Expr, vars []*Expr) string {
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	done := map[*Expr]bool{}
	var emit func(e *Expr)
	emit = func(e *Expr) {
		if e == nil || e.op == OConst || done[e] {
			return
		}
		done[e] = true
		emit(e.a)
		emit(e.b)
		emit(e.c)
		if e.op == OVar {
			fmt.Fprintf(&sb, "(declare-fun %s () %s)\n", e.name, sortStr(e.sort))
		} else {
			fmt.Fprintf(&sb, "(define-fun e%d () %s %s)\n", e.id, sortStr(e.sort), nodeStr(e))
		}
	}
	for _, v := range vars {
		emit(v)
	}
	for _, e := range pc {
		emit(e)
		fmt.Fprintf(&sb, "(assert %s)\n", ref(e))
	}
	emit(extra)
	fmt.Fprintf(&sb, "(assert %s)\n(check-sat)\n", ref(extra))
	if len(vars) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range vars {
			sb.WriteString(v.name + " ")
		}
		sb.WriteString("))\n")
	}
	return sb.String()
}

func (s *Solver) runOne(args []string, script string, vars []*Expr) (Res, Model) {
	c, cancel := context.WithTimeout(context.Background(), time.Duration(s.hardMS+2000)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(c, args[0], args[1:]...)
	cmd.Stdin = strings.NewReader(script)
	out, _ := cmd.Output()
	t := string(out)
	i := strings.IndexByte(t, '\n')
	if i < 0 {
		return Unknown, nil
	}
	switch strings.TrimSpace(t[:i]) {
	case "unsat":
		return Unsat, nil
	case "sat":
		if len(vars) == 0 {
			return Sat, Model{}
		}
		if m, ok := parseModel(t[i+1:], Model{}); ok {
			return Sat, m
		}
	}
	return Unknown, nil
}

// oneShot runs a portfolio of one-shot solvers.
func (s *Solver) oneShot(pc []*Expr, extra *Expr, vars []*Expr) (Res, Model) {
	sc := s.script(pc, extra, vars)
	type rm struct {
		r Res
		m Model
	}
	ch := make(chan rm, 3)
	sec := s.hardMS / 1000
	for _, a := range [][]string{
		{"z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", sec)},
		{"cvc5", "--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit=%d", s.hardMS), "-"},
		{"z3", "-in", "-smt2", fmt.Sprintf("-T:%d", sec)},
	} {
		go func(a []string) {
			r, m := s.runOne(a, sc, vars)
			ch <- rm{r, m}
		}(a)
	}
	for i := 0; i < 3; i++ {
		x := <-ch
		if x.r != Unknown {
			return x.r, x.m
		}
	}
	return Unknown, nil
}

var dbgSolver, dbgSlow io.Writer

func (s *Solver) pop1() {
	if dbgSolver != nil {
		io.WriteString(dbgSolver, "(pop 1)\n")
	}
	io.WriteString(s.in, "(pop 1)\n")
}
