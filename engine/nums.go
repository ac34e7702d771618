package main

import (
	"fmt"
	"math"
	"strconv"
)

type numKey struct {
	kind byte
	id   int32
}

type numEntry struct {
	n     *NumText
	text  *Str
	exact bool // the text is a function of the value
}

// newVarRange makes a variable constrained to [lo,hi] (unsigned).
func (m *Machine) newVarRange(s Sort, hint string, lo, hi uint64) *Expr {
	m.nvar++
	e := m.ctx.Var(s, fmt.Sprintf("v%d_%s_%d_r%x_%x", m.nvar, sanitize(hint), s, lo, hi))
	e.lo, e.hi = lo, hi
	m.vars = append(m.vars, e)
	if lo > 0 {
		m.pcAdd(m.ctx.mk(OUle, SBool, m.ctx.Const(s, lo), e, nil, 0))
	}
	if hi < mask(s) {
		m.pcAdd(m.ctx.mk(OUle, SBool, e, m.ctx.Const(s, hi), nil, 0))
	}
	if v, ok := m.model[e.name]; !ok || v < lo || v > hi {
		m.model = cloneModel(m.model)
		m.model[e.name] = lo
		m.ctx.NewEpoch()
	}
	return e
}

// newFloatRange makes a float variable with finite bounds.
func (m *Machine) newFloatRange(hint string, lo, hi float64) *Expr {
	if !(lo <= hi) {
		panic("float bounds")
	}
	m.nvar++
	e := m.ctx.Var(64, fmt.Sprintf("v%d_%s_f%x_%x", m.nvar, sanitize(hint), math.Float64bits(lo), math.Float64bits(hi)))
	m.vars = append(m.vars, e)
	f := m.ctx.Un(OFFromBits, SFP, e)
	m.pcAdd(m.ctx.mk(OFLe, SBool, m.ctx.Float(lo), f, nil, 0))
	m.pcAdd(m.ctx.mk(OFLe, SBool, f, m.ctx.Float(hi), nil, 0))
	e.fr = &[2]float64{lo, hi}
	if v, ok := m.model[e.name]; !ok || !(math.Float64frombits(v) >= lo && math.Float64frombits(v) <= hi) {
		m.model = cloneModel(m.model)
		m.model[e.name] = math.Float64bits(lo)
		m.ctx.NewEpoch()
	}
	return f
}

func cloneModel(a Model) Model {
	b := make(Model, len(a)+1)
	for k, v := range a {
		b[k] = v
	}
	return b
}

func lazyNum(kind byte, e *Expr) *Str {
	return &Str{parts: []part{{num: &NumText{kind: kind, e: e}}}}
}

// numStr is the text of a number, lazily.
func (m *Machine) numStr(kind byte, e *Expr) *Str {
	if e.IsConst() {
		return cstr(constNum(kind, e.val))
	}
	return lazyNum(kind, e)
}

func constNum(kind byte, v uint64) string {
	f := math.Float64frombits(v)
	switch kind {
	case 'i':
		return strconv.FormatInt(int64(v), 10)
	case 'u':
		return strconv.FormatUint(v, 10)
	case 'f':
		return fmt.Sprintf("%v", f)
	case 'e':
		b, err := jsonMarshalFloat(f)
		if err != nil {
			return "NaN"
		}
		return b
	}
	panic("constNum")
}

func (m *Machine) numText(n *NumText) *Str {
	if n.e.IsConst() {
		return cstr(constNum(n.kind, n.e.val))
	}
	if v, ok := m.concr[n.e]; ok && n.e.sort != SFP {
		return cstr(constNum(n.kind, v))
	}
	k := numKey{n.kind, n.e.id}
	if s, ok := m.numReg[k]; ok {
		return s
	}
	var s *Str
	exact := false
	if n.kind == 'i' || n.kind == 'u' {
		s, exact = m.intText(n)
	} else {
		s, exact = m.floatText(n)
	}
	m.numReg[k] = s
	for _, b := range m.sbytes(s) {
		if !b.IsConst() {
			m.numByVar[b] = &numEntry{n: n, text: s, exact: exact}
			break
		}
	}
	return s
}

var pow10 = func() (r [20]uint64) {
	r[0] = 1
	for i := 1; i < 20; i++ {
		r[i] = r[i-1] * 10
	}
	return
}()

func (m *Machine) intText(n *NumText) (*Str, bool) {
	c := m.ctx
	e := n.e
	var out []*Expr
	mag := e
	if n.kind == 'i' {
		if m.branch(c.Bin(OSlt, e, c.I64(0))) {
			out = append(out, c.Const(8, '-'))
			mag = c.Un(ONeg, 64, e)
		}
	}
	lo, hi := 1, 19
	if n.kind == 'u' {
		hi = 20
	}
	for lo < hi {
		mid := (lo + hi) / 2
		if m.branch(c.Bin(OUlt, mag, c.Const(64, pow10[mid]))) {
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	k := lo
	if k <= 4 {
		t := c.Un(OTrunc, 16, mag)
		for i := k - 1; i >= 0; i-- {
			d := t
			if i > 0 {
				d = c.bin(OUDiv, 16, t, c.Const(16, pow10[i]))
			}
			if i < k-1 {
				d = c.bin(OURem, 16, d, c.Const(16, 10))
			}
			out = append(out, c.Bin(OAdd, c.Un(OTrunc, 8, d), c.Const(8, '0')))
		}
		return m.bstr(out), true
	}
	for i := 0; i < k; i++ {
		l := uint64('0')
		if i == 0 {
			l = '1'
		}
		out = append(out, m.newVarRange(8, "dg", l, '9'))
	}
	return m.bstr(out), false
}

type fshape struct {
	name   string
	zero   bool
	ip, fp int // integer and fraction digits; ip<0: "0." with -ip-1 leading zeros
	exp    int // 0 none, +1 e+dd, -1 e-dd
	loE    int // smallest exponent magnitude
	hiE    int
}

var defaultShapes = []fshape{
	{name: "zero", zero: true},
	{name: "d", ip: 1},
	{name: "ddd", ip: 3},
	{name: "d.d", ip: 1, fp: 1},
	{name: "dd.dd", ip: 2, fp: 2},
	{name: "0.dd", ip: 0, fp: 2},
	{name: "de+xx", ip: 1, exp: 1},
	{name: "d.de-xx", ip: 1, fp: 1, exp: -1},
}

// narrow makes a term as small as its bound allows, so that division stays cheap.
func (m *Machine) narrow(x *Expr) *Expr {
	u := ubound(x, 0)
	for _, s := range []Sort{8, 16, 32} {
		if x.sort > s && u <= mask(s) {
			return m.ctx.Un(OTrunc, s, x)
		}
	}
	return x
}

// decimalText is the text of a float that came from a short decimal literal: x or x/10^k.
func (m *Machine) decimalText(n *NumText) (*Str, bool, bool) {
	c := m.ctx
	e := n.e
	neg := e.op == OFNeg
	if neg {
		e = e.a
	}
	lim, low := 6, -4
	if n.kind == 'e' {
		lim, low = 15, -6
	}
	x, ok := exactInt(e)
	k := 0
	if !ok {
		if e.op != OFDiv || !e.b.IsConst() || e.a.op != OFFromU {
			return nil, false, false
		}
		if x, ok = exactInt(e.a); !ok || ubound(x, 0) >= pow10[15] {
			return nil, false, false
		}
		d := math.Float64frombits(e.b.val)
		for k = 1; k < 15 && float64(pow10[k]) != d; k++ {
		}
		if k == 15 {
			return nil, false, false
		}
	}
	w := m.narrow(x)
	for k > 0 {
		ten := c.Const(w.sort, 10)
		if !m.branch(c.Eq(c.bin(OURem, w.sort, w, ten), c.Const(w.sort, 0))) {
			break
		}
		w = c.bin(OUDiv, w.sort, w, ten)
		k--
	}
	// value = w / 10^k, below 10^lim
	if l := pow10[lim+k]; lim+k < 19 && l <= mask(w.sort) && !m.branch(c.Bin(OUlt, w, c.Const(w.sort, l))) {
		return nil, false, false
	}
	ds, exact := m.intText(&NumText{kind: 'u', e: c.Un(OZExt, 64, w)})
	b := m.sbytes(ds)
	var out []*Expr
	if neg {
		out = append(out, c.Const(8, '-'))
	}
	switch {
	case k == 0:
		out = append(out, b...)
	case len(b) > k:
		out = append(out, b[:len(b)-k]...)
		out = append(out, c.Const(8, '.'))
		out = append(out, b[len(b)-k:]...)
	case len(b)-k-1 >= low:
		out = append(out, c.Const(8, '0'), c.Const(8, '.'))
		for i := len(b); i < k; i++ {
			out = append(out, c.Const(8, '0'))
		}
		out = append(out, b...)
	default:
		return nil, false, false
	}
	return m.bstr(out), exact, true
}

// floatText materialises the text of a symbolic float64 for a chosen shape.
func (m *Machine) floatText(n *NumText) (*Str, bool) {
	c := m.ctx
	e := n.e
	m.assume(c.Not(c.Or(c.Un(OFIsNaN, SBool, e), c.Un(OFIsInf, SBool, e))))
	neg := c.And(c.Not(c.Bin(OFLe, c.Float(0), e)), c.tru)
	if t, exact, ok := m.decimalText(n); ok {
		return t, exact
	}
	sh := defaultShapes[m.choose(len(defaultShapes), "floatshape")]
	m.bound("float texts: shapes " + shapeNames)
	if sh.zero {
		m.assume(c.Bin(OFEq, e, c.Float(0)))
		if m.branch(c.Eq(e, c.Float(math.Copysign(0, -1)))) {
			return cstr("-0"), true
		}
		return cstr("0"), true
	}
	m.assume(c.Not(c.Bin(OFEq, e, c.Float(0))))
	var out []*Expr
	a := e
	if m.branch(neg) {
		out = append(out, c.Const(8, '-'))
		a = c.Un(OFNeg, SFP, e)
	}
	digit := func(l, h byte) { out = append(out, m.newVarRange(8, "fd", uint64(l), uint64(h))) }
	dot := func() { out = append(out, c.Const(8, '.')) }
	if sh.exp != 0 {
		lo, hi := 6.0, 99.0
		if n.kind == 'e' {
			lo = 21
			if sh.exp < 0 {
				lo = 7
			}
		} else if sh.exp < 0 {
			lo = 5
		}
		if sh.exp > 0 {
			m.assume(c.And(c.Bin(OFLe, c.Float(math.Pow(10, lo)), a), c.Bin(OFLt, a, c.Float(1e100))))
		} else {
			m.assume(c.And(c.Bin(OFLt, a, c.Float(math.Pow(10, -lo+1))), c.Bin(OFLe, c.Float(1e-99), a)))
		}
		_ = hi
		digit('1', '9')
		if sh.fp > 0 {
			dot()
			digit('1', '9')
		}
		out = append(out, c.Const(8, 'e'))
		if sh.exp > 0 {
			out = append(out, c.Const(8, '+'))
			if n.kind == 'e' {
				digit('3', '9')
				digit('0', '9')
			} else {
				digit('1', '9')
				digit('0', '9')
			}
		} else {
			out = append(out, c.Const(8, '-'))
			digit('1', '9')
			digit('0', '9')
		}
		return m.bstr(out), false
	}
	if sh.ip == 0 {
		m.assume(c.And(c.Bin(OFLt, a, c.Float(1)), c.Bin(OFLe, c.Float(0.01), a)))
		out = append(out, c.Const(8, '0'))
	} else {
		m.assume(c.And(c.Bin(OFLe, c.Float(float64(pow10[sh.ip-1])), a), c.Bin(OFLt, a, c.Float(float64(pow10[sh.ip])))))
		for i := 0; i < sh.ip; i++ {
			if i == 0 {
				digit('1', '9')
			} else {
				digit('0', '9')
			}
		}
	}
	if sh.fp > 0 {
		dot()
		for i := 0; i < sh.fp; i++ {
			if i == sh.fp-1 {
				digit('1', '9')
			} else {
				digit('0', '9')
			}
		}
	}
	return m.bstr(out), false
}

var shapeNames = func() string {
	s := ""
	for _, x := range defaultShapes {
		s += x.name + " "
	}
	return s
}()

// numLookup finds the number whose text is exactly b.
func (m *Machine) numLookup(b []*Expr) *NumText {
	for _, x := range b {
		if x.IsConst() {
			continue
		}
		en := m.numByVar[x]
		if en == nil {
			return nil
		}
		t := m.sbytes(en.text)
		if len(t) != len(b) {
			return nil
		}
		for i := range t {
			if t[i] != b[i] {
				return nil
			}
		}
		return en.n
	}
	return nil
}

// numOf returns the number behind a string, without materialising it if possible.
func (m *Machine) numOf(s *Str) *NumText {
	if len(s.parts) == 1 && s.parts[0].num != nil {
		return s.parts[0].num
	}
	if len(s.parts) == 1 && s.parts[0].js != nil && s.parts[0].js.kind == 'd' && s.parts[0].js.num != nil {
		return s.parts[0].js.num
	}
	if s.parts != nil {
		m.forceStr(s)
	}
	if s.conc {
		return nil
	}
	return m.numLookup(s.b)
}

// refineNums makes a model consistent with the real texts of its numbers.
func (m *Machine) refineNums(md Model, extra *Expr) (Model, bool) {
	if extra == nil {
		extra = m.ctx.tru
	}
	for try := 0; try < 6; try++ {
		m.ctx.NewEpoch()
		var eqs []*Expr
		block := m.ctx.fls
		bad := false
		seen := map[*numEntry]bool{}
		for _, en := range m.numByVar {
			if seen[en] || en.exact {
				continue
			}
			seen[en] = true
			tb := m.sbytes(en.text)
			buf := make([]byte, len(tb))
			for i, b := range tb {
				buf[i] = byte(m.ctx.Eval(b, md))
			}
			v := m.ctx.Eval(en.n.e, md)
			want := constNum(en.n.kind, v)
			if want == string(buf) {
				eqs = append(eqs, m.ctx.Eq(en.n.e, m.ctx.Const(en.n.e.sort, v)))
				continue
			}
			bad = true
			if en.n.kind == 'i' || en.n.kind == 'u' {
				// the value decides the text
				if len(want) != len(buf) {
					return nil, false
				}
				eqs = append(eqs, m.ctx.Eq(en.n.e, m.ctx.Const(64, v)))
				for i, b := range tb {
					eqs = append(eqs, m.ctx.Eq(b, m.ctx.Const(8, uint64(want[i]))))
				}
				block = m.ctx.Or(block, m.ctx.Not(m.ctx.Eq(en.n.e, m.ctx.Const(64, v))))
			} else {
				f, err := strconv.ParseFloat(string(buf), 64)
				if err != nil || constNum(en.n.kind, math.Float64bits(f)) != string(buf) {
					for i, b := range tb {
						block = m.ctx.Or(block, m.ctx.Not(m.ctx.Eq(b, m.ctx.Const(8, uint64(buf[i])))))
					}
					eqs = append(eqs, m.ctx.fls)
					continue
				}
				eqs = append(eqs, m.ctx.Eq(en.n.e, m.ctx.Float(f)))
				for i, b := range tb {
					eqs = append(eqs, m.ctx.Eq(b, m.ctx.Const(8, uint64(buf[i]))))
					block = m.ctx.Or(block, m.ctx.Not(m.ctx.Eq(b, m.ctx.Const(8, uint64(buf[i])))))
				}
			}
		}
		if !bad {
			return md, true
		}
		all := extra
		for _, q := range eqs {
			all = m.ctx.And(all, q)
		}
		if r, md2 := m.check(all, true); r == Sat {
			return md2, true
		}
		// another candidate
		r, md2 := m.check(m.ctx.And(extra, block), true)
		if r != Sat {
			return nil, false
		}
		md = md2
	}
	return nil, false
}

// ---- parsing numbers

// parseFloat models strconv.ParseFloat; ok=false is a syntax error, rng a range error.
func (m *Machine) parseFloat(s *Str) (v *Expr, ok bool, rng bool) {
	c := m.ctx
	if n := m.numOf(s); n != nil {
		switch n.kind {
		case 'f', 'e':
			return n.e, true, false
		case 'i':
			return c.Un(OFFromS, SFP, n.e), true, false
		case 'u':
			return c.Un(OFFromU, SFP, n.e), true, false
		}
	}
	m.forceStr(s)
	if s.conc {
		f, err := strconv.ParseFloat(s.s, 64)
		if err != nil {
			ne := err.(*strconv.NumError)
			return c.Float(f), ne.Err != strconv.ErrSyntax, ne.Err == strconv.ErrRange
		}
		return c.Float(f), true, false
	}
	r := m.call(m.ld.model("ParseDecimal"), []Val{s}, nil, nil).(Tuple)
	if !m.branch(r[4].(*Expr)) {
		return c.Float(0), false, false
	}
	neg := m.ctx.Bool(m.branch(r[0].(*Expr)))
	mant := r[1].(*Expr)
	exp := int(int64(m.concretize(r[2].(*Expr))))
	nd := int(int64(m.concretize(r[3].(*Expr))))
	if nd > 15 || exp > 22 || exp < -22 {
		m.cut("float literal outside the exact range (15 digits, exponent 22)")
	}
	f := c.Un(OFFromU, SFP, mant)
	if exp > 0 {
		if k := pow10[min(exp, 19)]; exp < 16 && ubound(mant, 0) < 1<<53/k {
			f = c.Un(OFFromU, SFP, c.Bin(OMul, mant, c.Const(64, k))) // exact
		} else {
			f = c.fmul(f, c.Float(math.Pow(10, float64(exp))))
		}
	} else if exp < 0 {
		f = c.bin(OFDiv, SFP, f, c.Float(math.Pow(10, float64(-exp))))
	}
	return c.Ite(neg, c.Un(OFNeg, SFP, f), f), true, false
}

// cut ends the path as outside the bounds.
func (m *Machine) cut(why string) {
	panic(pathEnd{"cut", why})
}

func (m *Machine) bound(s string) { m.run.addBound(s) }
