package main

import (
	"fmt"
	"io"
	"strconv"
	"strings"
)

// Order constraints over 64-bit values are exponentially hard for bit-blasting, and are the same
// statement over integers: comparisons, equality, ite and boolean structure only, every variable
// bounded by its range. Queries of that fragment go to the SMT solver as linear integer arithmetic.

type intEnc struct {
	ok   map[*Expr]bool
	done map[*Expr]string
	sb   *strings.Builder
	vars []*Expr
}

func intTermOK(e *Expr) bool {
	switch e.op {
	case OConst, OVar:
		return e.sort != SFP && e.sort != SBool
	case OZExt:
		return e.a.op == OVar && e.a.sort != SBool
	case OIte:
		return e.sort != SFP && e.sort != SBool && intTermOK(e.b) && intTermOK(e.c)
	}
	return false
}

// readSigned: 64-bit terms are read as signed, narrower ones as unsigned.
func cmpReadable(op Op, e *Expr) bool {
	switch e.op {
	case OIte:
		return cmpReadable(op, e.b) && cmpReadable(op, e.c)
	}
	s := &osolver{}
	if op == OUlt || op == OUle {
		return s.nonneg(e)
	}
	return s.signedOK(e)
}

func (x *intEnc) check(e *Expr) bool {
	if v, ok := x.ok[e]; ok {
		return v
	}
	r := false
	switch e.op {
	case OConst:
		r = e.sort != SFP
	case OVar:
		r = e.sort != SFP
	case ONot:
		r = x.check(e.a)
	case OAnd, OOr:
		r = x.check(e.a) && x.check(e.b)
	case OIte:
		r = e.sort != SFP && x.check(e.a) && x.check(e.b) && x.check(e.c)
	case OZExt:
		r = intTermOK(e)
	case OEq:
		if e.a.sort == SBool {
			r = x.check(e.a) && x.check(e.b)
		} else if e.a.sort != SFP {
			r = intTermOK(e.a) && intTermOK(e.b) && x.check(e.a) && x.check(e.b)
		}
	case OSlt, OSle, OUlt, OUle:
		// x <=u c for small c is a range statement
		if (e.op == OUlt || e.op == OUle) && e.a.op == OVar && e.b.op == OConst && e.a.sort == 64 && int64(e.b.val) >= 0 {
			r = true
			break
		}
		r = intTermOK(e.a) && intTermOK(e.b) && x.check(e.a) && x.check(e.b) && cmpReadable(e.op, e.a) && cmpReadable(e.op, e.b)
	}
	x.ok[e] = r
	return r
}

func intLit(e *Expr) string {
	if e.sort == 64 {
		v := int64(e.val)
		if v < 0 {
			return "(- " + strconv.FormatUint(uint64(-v), 10) + ")"
		}
		return strconv.FormatInt(v, 10)
	}
	return strconv.FormatUint(e.val, 10)
}

func (x *intEnc) term(e *Expr) string {
	if s, ok := x.done[e]; ok {
		return s
	}
	var s string
	switch e.op {
	case OConst:
		if e.sort == SBool {
			if e.val == 1 {
				return "true"
			}
			return "false"
		}
		return intLit(e)
	case OVar:
		s = "i_" + e.name
		if e.sort == SBool {
			fmt.Fprintf(x.sb, "(declare-fun %s () Bool)\n", s)
		} else {
			fmt.Fprintf(x.sb, "(declare-fun %s () Int)\n", s)
			lo, hi := strconv.FormatUint(e.lo, 10), strconv.FormatUint(e.hi, 10)
			if e.sort == 64 && int64(e.hi) < 0 {
				lo, hi = "(- 9223372036854775808)", "9223372036854775807"
			}
			fmt.Fprintf(x.sb, "(assert (and (<= %s %s) (<= %s %s)))\n", lo, s, s, hi)
		}
		x.vars = append(x.vars, e)
		x.done[e] = s
		return s
	case OZExt:
		return x.term(e.a)
	default:
		a := x.term(e.a)
		b, c := "", ""
		if e.b != nil {
			b = x.term(e.b)
		}
		if e.c != nil {
			c = x.term(e.c)
		}
		var t string
		srt := "Bool"
		switch e.op {
		case ONot:
			t = "(not " + a + ")"
		case OAnd:
			t = "(and " + a + " " + b + ")"
		case OOr:
			t = "(or " + a + " " + b + ")"
		case OIte:
			t = "(ite " + a + " " + b + " " + c + ")"
			if e.sort != SBool {
				srt = "Int"
			}
		case OEq:
			t = "(= " + a + " " + b + ")"
		case OSlt:
			t = "(< " + a + " " + b + ")"
		case OSle:
			t = "(<= " + a + " " + b + ")"
		case OUlt, OUle:
			op := "<"
			if e.op == OUle {
				op = "<="
			}
			t = "(" + op + " " + a + " " + b + ")"
			if e.a.op == OVar && e.a.sort == 64 && int64(e.a.hi) < 0 {
				t = "(and (<= 0 " + a + ") " + t + ")"
			}
		}
		s = fmt.Sprintf("i%d", e.id)
		fmt.Fprintf(x.sb, "(define-fun %s () %s %s)\n", s, srt, t)
	}
	x.done[e] = s
	return s
}

// checkInt decides the query over the integers; ok=false if it is not in the fragment.
func (s *Solver) checkInt(pc []*Expr, extra *Expr, vars []*Expr) (Res, Model, bool) {
	x := &intEnc{ok: map[*Expr]bool{}, done: map[*Expr]string{}, sb: &strings.Builder{}}
	for _, e := range pc {
		if !x.check(e) {
			return Unknown, nil, false
		}
	}
	if !x.check(extra) {
		return Unknown, nil, false
	}
	if s.cmd == nil || s.n > 20000 {
		s.Close()
		if err := s.start(); err != nil {
			return Unknown, nil, false
		}
	}
	s.n++
	sb := x.sb
	if d := len(s.stack); d > 0 {
		fmt.Fprintf(sb, "(pop %d)\n", d)
		for _, l := range s.logs {
			for _, y := range l {
				y.emitted = 0
			}
		}
		s.stack, s.logs = s.stack[:0], s.logs[:0]
	}
	sb.WriteString("(push 1)\n")
	for _, e := range pc {
		t := x.term(e)
		fmt.Fprintf(sb, "(assert %s)\n", t)
	}
	t := x.term(extra)
	fmt.Fprintf(sb, "(assert %s)\n(check-sat)\n", t)
	if dbgSolver != nil {
		io.WriteString(dbgSolver, sb.String())
	}
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		s.Close()
		return Unknown, nil, false
	}
	l, err := s.readLine()
	if err != nil {
		s.Close()
		return Unknown, nil, false
	}
	switch l {
	case "unsat":
		s.pop1()
		return Unsat, nil, true
	case "sat":
		md := Model{}
		if len(x.vars) > 0 {
			var q strings.Builder
			q.WriteString("(get-value (")
			for _, v := range x.vars {
				q.WriteString("i_" + v.name + " ")
			}
			q.WriteString("))\n(echo \"<end>\")\n")
			if dbgSolver != nil {
				io.WriteString(dbgSolver, q.String())
			}
			io.WriteString(s.in, q.String())
			var txt strings.Builder
			for {
				l, err := s.readLine()
				if err != nil {
					s.Close()
					return Unknown, nil, false
				}
				if strings.Contains(l, "<end>") {
					break
				}
				txt.WriteString(l)
				txt.WriteString(" ")
			}
			if strings.Contains(txt.String(), "error") {
				s.Close()
				return Unknown, nil, false
			}
			f := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(txt.String()))
			for i := 0; i < len(f); {
				name := strings.TrimPrefix(f[i], "i_")
				i++
				neg := false
				if i < len(f) && f[i] == "-" {
					neg = true
					i++
				}
				if i >= len(f) {
					s.Close()
					return Unknown, nil, false
				}
				switch f[i] {
				case "true":
					md[name] = 1
				case "false":
					md[name] = 0
				default:
					u, err := strconv.ParseUint(f[i], 10, 64)
					if err != nil {
						s.Close()
						return Unknown, nil, false
					}
					if neg {
						u = -u
					}
					md[name] = u
				}
				i++
			}
		}
		s.pop1()
		return Sat, md, true
	case "unknown":
		s.pop1()
		return Unknown, nil, false
	}
	s.Close()
	return Unknown, nil, false
}
