package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

// Sort of an expression: 0 = Bool, 1..64 = bit vector width, SFP = float64.
type Sort uint8

const (
	SBool Sort = 0
	SFP   Sort = 200
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OUlt
	OUle
	OSlt
	OSle
	OZExt
	OSExt
	OTrunc
	OFFromBits
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFEq
	OFLt
	OFLe
	OFIsNaN
	OFIsInf
	OFFromS
	OFFromU
	OFToS
	OFFloor
	OFCeil
	OFTrunc
	OFRoundAway
	OFSqrt
	OFToF32 // round to float32 and back
	OFRoundEven
)

type Expr struct {
	fr *[2]float64 // bounds of the float these bits make
	op      Op
	sort    Sort
	a, b, c *Expr
	val     uint64
	name    string
	id      int32
	emitted int32 // solver epoch in which the node was defined
	evEpoch int32
	evVal   uint64
	lo, hi  uint64 // known range of a variable
	vs      []*Expr
}

type ekey struct {
	op      Op
	sort    Sort
	a, b, c int32
	val     uint64
}

// Ctx interns expressions; one per worker.
type Ctx struct {
	tab    map[ekey]*Expr
	consts map[ekey]*Expr
	vars   map[string]*Expr
	nextID int32
	small  [3][1024]*Expr // fast constants for widths 8, 64, 32
	tru    *Expr
	fls    *Expr
	epoch  int32
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[ekey]*Expr{}, consts: map[ekey]*Expr{}, vars: map[string]*Expr{}, nextID: 1}
	c.tru = c.Const(SBool, 1)
	c.fls = c.Const(SBool, 0)
	return c
}

// Reset drops all non-constant nodes.
func (c *Ctx) Reset() {
	c.tab = map[ekey]*Expr{}
	c.vars = map[string]*Expr{}
}

func (c *Ctx) Size() int { return len(c.tab) }

func mask(s Sort) uint64 {
	if s == SBool {
		return 1
	}
	if s >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << s) - 1
}

func (c *Ctx) Const(s Sort, v uint64) *Expr {
	v &= mask(s)
	var slot **Expr
	if v < 1024 {
		switch s {
		case 8:
			slot = &c.small[0][v]
		case 64:
			slot = &c.small[1][v]
		case 32:
			slot = &c.small[2][v]
		}
		if slot != nil && *slot != nil {
			return *slot
		}
	}
	k := ekey{op: OConst, sort: s, val: v}
	if e, ok := c.consts[k]; ok {
		return e
	}
	e := &Expr{op: OConst, sort: s, val: v, id: c.nextID}
	c.nextID++
	c.consts[k] = e
	if slot != nil {
		*slot = e
	}
	return e
}

func (c *Ctx) Bool(b bool) *Expr {
	if b {
		return c.tru
	}
	return c.fls
}
func (c *Ctx) Float(f float64) *Expr { return c.Const(SFP, math.Float64bits(f)) }
func (c *Ctx) I64(v int64) *Expr     { return c.Const(64, uint64(v)) }

func (c *Ctx) Var(s Sort, name string) *Expr {
	if e, ok := c.vars[name]; ok {
		if e.sort != s {
			panic("var sort clash " + name)
		}
		return e
	}
	e := &Expr{op: OVar, sort: s, name: name, id: c.nextID, hi: mask(s)}
	c.nextID++
	c.vars[name] = e
	return e
}

func (e *Expr) IsConst() bool { return e.op == OConst }
func (e *Expr) IsTrue() bool  { return e.op == OConst && e.sort == SBool && e.val == 1 }
func (e *Expr) IsFalse() bool { return e.op == OConst && e.sort == SBool && e.val == 0 }
func (e *Expr) Int() int64    { return sext(e.val, e.sort) }
func (e *Expr) F() float64    { return math.Float64frombits(e.val) }

func sext(v uint64, s Sort) int64 {
	if s >= 64 || s == 0 {
		return int64(v)
	}
	sh := 64 - uint(s)
	return int64(v<<sh) >> sh
}

func (c *Ctx) mk(op Op, s Sort, a, b, d *Expr, val uint64) *Expr {
	k := ekey{op: op, sort: s, val: val}
	if a != nil {
		k.a = a.id
	}
	if b != nil {
		k.b = b.id
	}
	if d != nil {
		k.c = d.id
	}
	if e, ok := c.tab[k]; ok {
		return e
	}
	e := &Expr{op: op, sort: s, a: a, b: b, c: d, val: val, id: c.nextID}
	c.nextID++
	c.tab[k] = e
	return e
}

func isCommut(op Op) bool {
	switch op {
	case OAnd, OOr, OEq, OAdd, OMul, OBAnd, OBOr, OBXor, OFEq:
		return true
	}
	return false
}

// evalOp computes an operator on concrete values.
func evalOp(op Op, s Sort, as Sort, x, y, z uint64, ival uint64) uint64 {
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	fl := math.Float64frombits
	fb := math.Float64bits
	switch op {
	case ONot:
		return x ^ 1
	case OAnd:
		return x & y
	case OOr:
		return x | y
	case OIte:
		if x != 0 {
			return y
		}
		return z
	case OEq:
		if as == SFP {
			return b2u(x == y || (fl(x) != fl(x) && fl(y) != fl(y)))
		}
		return b2u(x == y)
	case OAdd:
		return (x + y) & mask(s)
	case OSub:
		return (x - y) & mask(s)
	case OMul:
		return (x * y) & mask(s)
	case OUDiv:
		if y == 0 {
			return mask(s)
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		a, b := sext(x, s), sext(y, s)
		if b == 0 {
			if a >= 0 {
				return mask(s)
			}
			return 1
		}
		if b == -1 {
			return uint64(-a) & mask(s)
		}
		return uint64(a/b) & mask(s)
	case OSRem:
		a, b := sext(x, s), sext(y, s)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & mask(s)
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OBNot:
		return ^x & mask(s)
	case ONeg:
		return (-x) & mask(s)
	case OShl:
		if y >= uint64(s) {
			return 0
		}
		return (x << y) & mask(s)
	case OLShr:
		if y >= uint64(s) {
			return 0
		}
		return x >> y
	case OAShr:
		a := sext(x, s)
		if y >= uint64(s) {
			y = uint64(s) - 1
		}
		return uint64(a>>y) & mask(s)
	case OUlt:
		return b2u(x < y)
	case OUle:
		return b2u(x <= y)
	case OSlt:
		return b2u(sext(x, as) < sext(y, as))
	case OSle:
		return b2u(sext(x, as) <= sext(y, as))
	case OZExt:
		return x
	case OSExt:
		return uint64(sext(x, as)) & mask(s)
	case OTrunc:
		return x & mask(s)
	case OFFromBits:
		return x
	case OFAdd:
		return fb(fl(x) + fl(y))
	case OFSub:
		return fb(fl(x) - fl(y))
	case OFMul:
		return fb(fl(x) * fl(y))
	case OFDiv:
		return fb(fl(x) / fl(y))
	case OFNeg:
		return fb(-fl(x))
	case OFAbs:
		return fb(math.Abs(fl(x)))
	case OFEq:
		return b2u(fl(x) == fl(y))
	case OFLt:
		return b2u(fl(x) < fl(y))
	case OFLe:
		return b2u(fl(x) <= fl(y))
	case OFIsNaN:
		return b2u(fl(x) != fl(x))
	case OFIsInf:
		return b2u(math.IsInf(fl(x), 0))
	case OFFromS:
		return fb(float64(sext(x, as)))
	case OFFromU:
		return fb(float64(x))
	case OFToS:
		return uint64(f2i(fl(x))) & mask(s)
	case OFFloor:
		return fb(math.Floor(fl(x)))
	case OFCeil:
		return fb(math.Ceil(fl(x)))
	case OFTrunc:
		return fb(math.Trunc(fl(x)))
	case OFRoundAway:
		return fb(math.Round(fl(x)))
	case OFSqrt:
		return fb(math.Sqrt(fl(x)))
	case OFToF32:
		return fb(float64(float32(fl(x))))
	case OFRoundEven:
		return fb(math.RoundToEven(fl(x)))
	}
	panic(fmt.Sprintf("evalOp %d", op))
}

// f2i converts like the amd64 CVTTSD2SQ instruction.
func f2i(f float64) int64 {
	if f != f || f >= 9223372036854775808.0 || f < -9223372036854775808.0 {
		return math.MinInt64
	}
	return int64(f)
}

func (c *Ctx) Not(a *Expr) *Expr {
	if a.IsConst() {
		return c.Bool(a.val == 0)
	}
	if a.op == ONot {
		return a.a
	}
	return c.mk(ONot, SBool, a, nil, nil, 0)
}

func (c *Ctx) And(a, b *Expr) *Expr {
	if a.IsConst() {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.IsConst() {
		if b.val == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return c.fls
	}
	return c.bin(OAnd, SBool, a, b)
}

func (c *Ctx) Or(a, b *Expr) *Expr {
	if a.IsConst() {
		if a.val == 1 {
			return a
		}
		return b
	}
	if b.IsConst() {
		if b.val == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return c.tru
	}
	return c.bin(OOr, SBool, a, b)
}

func (c *Ctx) Implies(a, b *Expr) *Expr { return c.Or(c.Not(a), b) }

func (c *Ctx) Ite(k, a, b *Expr) *Expr {
	if k.IsConst() {
		if k.val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		if a.IsConst() {
			if a.val == 1 {
				return c.Or(k, b)
			}
			return c.And(c.Not(k), b)
		}
		if b.IsConst() {
			if b.val == 1 {
				return c.Or(c.Not(k), a)
			}
			return c.And(k, a)
		}
	}
	if k.op == ONot {
		return c.Ite(k.a, b, a)
	}
	return c.mk(OIte, a.sort, k, a, b, 0)
}

func (c *Ctx) bin(op Op, s Sort, a, b *Expr) *Expr {
	if a.IsConst() && b.IsConst() {
		return c.Const(s, evalOp(op, s, a.sort, a.val, b.val, 0, 0))
	}
	if isCommut(op) && (a.IsConst() || (!b.IsConst() && a.id > b.id)) {
		a, b = b, a // constants to the right
	}
	return c.mk(op, s, a, b, nil, 0)
}

func (c *Ctx) Eq(a, b *Expr) *Expr {
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq: sorts %d %d", a.sort, b.sort))
	}
	if a == b {
		return c.tru
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(evalOp(OEq, SBool, a.sort, a.val, b.val, 0, 0) == 1)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if a.sort == SBool {
		if b.IsConst() {
			if b.val == 1 {
				return a
			}
			return c.Not(a)
		}
	} else if b.IsConst() && a.sort != SFP {
		if lo, hi := urange(a); b.val < lo || b.val > hi {
			return c.fls
		}
		switch a.op {
		case OIte:
			if a.b.IsConst() && a.c.IsConst() {
				e1, e2 := a.b.val == b.val, a.c.val == b.val
				switch {
				case e1 && e2:
					return c.tru
				case e1:
					return a.a
				case e2:
					return c.Not(a.a)
				default:
					return c.fls
				}
			}
			if a.b.IsConst() {
				if a.b.val == b.val {
					return c.Or(a.a, c.Eq(a.c, b))
				}
				return c.And(c.Not(a.a), c.Eq(a.c, b))
			}
			if a.c.IsConst() {
				if a.c.val == b.val {
					return c.Or(c.Not(a.a), c.Eq(a.b, b))
				}
				return c.And(a.a, c.Eq(a.b, b))
			}
		case OZExt:
			if b.val > mask(a.a.sort) {
				return c.fls
			}
			return c.Eq(a.a, c.Const(a.a.sort, b.val))
		case OSExt:
			t := b.val & mask(a.a.sort)
			if uint64(sext(t, a.a.sort))&mask(a.sort) != b.val {
				return c.fls
			}
			return c.Eq(a.a, c.Const(a.a.sort, t))
		case OAdd:
			if a.b.IsConst() {
				return c.Eq(a.a, c.Const(a.sort, b.val-a.b.val))
			}
		}
	}
	if a.op == OAdd && b.op == OAdd && a.b == b.b && a.b.IsConst() {
		return c.Eq(a.a, b.a)
	}
	if (a.op == OZExt && b.op == OZExt || a.op == OSExt && b.op == OSExt) && a.a.sort == b.a.sort {
		return c.Eq(a.a, b.a)
	}
	return c.bin(OEq, SBool, a, b)
}

func (c *Ctx) Bin(op Op, a, b *Expr) *Expr {
	s := a.sort
	switch op {
	case OAnd:
		return c.And(a, b)
	case OOr:
		return c.Or(a, b)
	case OEq:
		return c.Eq(a, b)
	case OUlt, OUle, OSlt, OSle:
		if a == b {
			return c.Bool(op == OUle || op == OSle)
		}
		if r := c.cmpRange(op, a, b); r != nil {
			return r
		}
		return c.bin(op, SBool, a, b)
	case OFEq, OFLt, OFLe:
		if a.op == OFNeg && b.op == OFNeg {
			return c.Bin(op, b.a, a.a)
		}
		if a == b {
			if op == OFLt {
				return c.fls
			}
			return c.Not(c.Un(OFIsNaN, SBool, a))
		}
		if r := c.fcmpInt(op, a, b); r != nil {
			return r
		}
		if a.op == OIte && b.IsConst() && (a.b.IsConst() || a.c.IsConst()) {
			return c.Ite(a.a, c.Bin(op, a.b, b), c.Bin(op, a.c, b))
		}
		if b.op == OIte && a.IsConst() && (b.b.IsConst() || b.c.IsConst()) {
			return c.Ite(b.a, c.Bin(op, a, b.b), c.Bin(op, a, b.c))
		}
		if al, ah, ok := frange(a, 0); ok {
			if bl, bh, ok := frange(b, 0); ok {
				switch op {
				case OFEq:
					if ah < bl || bh < al {
						return c.fls
					}
				case OFLt:
					if ah < bl {
						return c.tru
					}
					if al >= bh {
						return c.fls
					}
				case OFLe:
					if ah <= bl {
						return c.tru
					}
					if al > bh {
						return c.fls
					}
					return c.Not(c.Bin(OFLt, b, a)) // neither is NaN
				}
			}
		}
		return c.bin(op, SBool, a, b)
	case OAdd:
		if b.IsConst() && b.val == 0 {
			return a
		}
		if a.IsConst() && a.val == 0 {
			return b
		}
		if b.IsConst() && a.op == OAdd && a.b.IsConst() {
			return c.Bin(OAdd, a.a, c.Const(s, a.b.val+b.val))
		}
	case OSub:
		if a == b {
			return c.Const(s, 0)
		}
		if b.IsConst() {
			return c.Bin(OAdd, a, c.Const(s, -b.val))
		}
	case OMul:
		for i := 0; i < 2; i++ {
			if b.IsConst() {
				if b.val == 0 {
					return b
				}
				if b.val == 1 {
					return a
				}
			}
			a, b = b, a
		}
	case OBAnd:
		if a == b {
			return a
		}
		for i := 0; i < 2; i++ {
			if b.IsConst() {
				if b.val == 0 {
					return b
				}
				if b.val == mask(s) {
					return a
				}
				if b.val&(b.val+1) == 0 && ubound(a, 0) <= b.val {
					return a
				}
				if a.op == OZExt && b.val&mask(a.a.sort) == mask(a.a.sort) {
					return a
				}
			}
			a, b = b, a
		}
	case OBOr, OBXor:
		for i := 0; i < 2; i++ {
			if b.IsConst() && b.val == 0 {
				return a
			}
			a, b = b, a
		}
	case OShl, OLShr, OAShr:
		if b.IsConst() && b.val == 0 {
			return a
		}
		if op == OLShr && b.IsConst() && a.op == OZExt && b.val >= uint64(a.a.sort) {
			return c.Const(s, 0)
		}
	}
	return c.bin(op, s, a, b)
}

// urange gives cheap unsigned bounds of a bit-vector expression.
func urange(e *Expr) (lo, hi uint64) {
	switch e.op {
	case OConst:
		return e.val, e.val
	case OVar:
		if e.sort != SFP && e.sort != SBool {
			return e.lo, e.hi
		}
	case OZExt:
		return urange(e.a)
	case OBAnd:
		if e.b.IsConst() {
			return 0, e.b.val
		}
	case OLShr:
		if e.b.IsConst() && e.b.val < 64 {
			_, h := urange(e.a)
			return 0, h >> e.b.val
		}
	case OURem:
		if e.b.IsConst() && e.b.val > 0 {
			return 0, e.b.val - 1
		}
	case OIte:
		l1, h1 := urange(e.b)
		l2, h2 := urange(e.c)
		return min(l1, l2), max(h1, h2)
	case OAdd:
		l1, h1 := urange(e.a)
		l2, h2 := urange(e.b)
		hs, carry := bits.Add64(h1, h2, 0)
		if carry == 0 && hs <= mask(e.sort) {
			return l1 + l2, hs
		}
	}
	return 0, mask(e.sort)
}

// offset: e is v+k as a signed integer that does not wrap, v unsigned.
func offset(e *Expr) (v *Expr, k int64, ok bool) {
	if e.op == OAdd && e.sort == 64 && e.b.IsConst() {
		if k := int64(e.b.val); k > -1<<61 && k < 1<<61 && ubound(e.a, 0) < 1<<61 {
			return e.a, k, true
		}
	}
	return nil, 0, false
}

func (c *Ctx) cmpRange(op Op, a, b *Expr) *Expr {
	if a.sort == SFP || a.sort == SBool {
		return nil
	}
	if op == OSlt || op == OSle {
		if v, k, ok := offset(a); ok && k < 0 {
			if b.IsConst() {
				if n := b.Int(); n > -1<<61 && n < 1<<61 {
					return c.Bin(op, v, c.Const(64, uint64(n-k)))
				}
			} else if w, l, ok := offset(b); ok && k == l {
				return c.Bin(op, v, w)
			}
		}
		if v, k, ok := offset(b); ok && k < 0 && a.IsConst() {
			if n := a.Int(); n > -1<<61 && n < 1<<61 {
				return c.Bin(op, c.Const(64, uint64(n-k)), v)
			}
		}
	}
	if !a.IsConst() && !b.IsConst() && a.op != OZExt && b.op != OZExt {
		return nil
	}
	la, ha := urange(a)
	lb, hb := urange(b)
	if op == OSlt || op == OSle {
		half := uint64(1) << (a.sort - 1)
		if ha >= half || hb >= half {
			// constant negative versus known non-negative
			if b.IsConst() && b.val >= half && ha < half {
				return c.fls
			}
			if a.IsConst() && a.val >= half && hb < half {
				return c.tru
			}
			return nil
		}
		if op == OSlt {
			op = OUlt
		} else {
			op = OUle
		}
	}
	switch op {
	case OUlt:
		if ha < lb {
			return c.tru
		}
		if la >= hb {
			return c.fls
		}
	case OUle:
		if ha <= lb {
			return c.tru
		}
		if la > hb {
			return c.fls
		}
	}
	// narrow zext comparisons
	if a.op == OZExt && b.IsConst() && b.val <= mask(a.a.sort) {
		return c.Bin(op, a.a, c.Const(a.a.sort, b.val))
	}
	if b.op == OZExt && a.IsConst() && a.val <= mask(b.a.sort) {
		return c.Bin(op, c.Const(b.a.sort, a.val), b.a)
	}
	return nil
}

func (c *Ctx) Un(op Op, s Sort, a *Expr) *Expr {
	if op == ONot {
		return c.Not(a)
	}
	if a.IsConst() {
		return c.Const(s, evalOp(op, s, a.sort, a.val, 0, 0, 0))
	}
	switch op {
	case OFFromS:
		if ubound(a, 0) < 1<<63 {
			return c.Un(OFFromU, s, a)
		}
	case OFIsNaN, OFIsInf:
		y := a
		if y.op == OFNeg {
			y = y.a
		}
		if y.op == OFFromS || y.op == OFFromU {
			return c.fls
		}
		if _, _, _, ok := monoInt(y); ok {
			return c.fls
		}
		if _, _, ok := frange(y, 0); ok {
			return c.fls
		}
	case OFAbs: // |x-y| is |y-x|
		if a.op == OFSub && a.a.id > a.b.id {
			a = c.Bin(OFSub, a.b, a.a)
		}
	case OFNeg:
		if a.op == OFNeg {
			return a.a
		}
	case OZExt:
		if a.sort == s {
			return a
		}
		if a.op == OZExt {
			a = a.a
		}
	case OSExt:
		if a.sort == s {
			return a
		}
		if a.op == OZExt {
			return c.Un(OZExt, s, a.a)
		}
		if a.op == OTrunc && a.a.sort == s && ubound(a.a, 0) < 1<<(a.sort-1) {
			return a.a
		}
	case OTrunc:
		if a.sort == s {
			return a
		}
		if a.op == OZExt || a.op == OSExt {
			if a.a.sort == s {
				return a.a
			}
			if a.a.sort > s {
				return c.Un(OTrunc, s, a.a)
			}
			return c.Un(a.op, s, a.a)
		}
		if a.op == OIte && a.b.IsConst() && a.c.IsConst() {
			return c.Ite(a.a, c.Un(op, s, a.b), c.Un(op, s, a.c))
		}
	case OFFromBits:
	}
	return c.mk(op, s, a, nil, nil, 0)
}

// ubound is an upper bound of an unsigned bit-vector term.
func ubound(e *Expr, depth int) uint64 {
	top := mask(e.sort)
	if depth > 40 {
		return top
	}
	switch e.op {
	case OConst:
		return e.val
	case OVar:
		if e.hi > 0 && e.hi < top {
			return e.hi
		}
	case OZExt:
		return ubound(e.a, depth+1)
	case OBAnd:
		return min(ubound(e.a, depth+1), ubound(e.b, depth+1))
	case OIte:
		return max(ubound(e.b, depth+1), ubound(e.c, depth+1))
	case OAdd:
		x, y := ubound(e.a, depth+1), ubound(e.b, depth+1)
		if x <= top-y && x+y >= x {
			return x + y
		}
	case OMul:
		x, y := ubound(e.a, depth+1), ubound(e.b, depth+1)
		if x == 0 || y <= top/x {
			return x * y
		}
	}
	return top
}

// exactInt: e is the float of an unsigned integer small enough to be exact, possibly negated.
func exactInt(e *Expr) (x *Expr, ok bool) {
	if e.op == OFNeg {
		e = e.a
	}
	if e.op == OFFromU && ubound(e.a, 0) < 1<<53 {
		return e.a, true
	}
	return nil, false
}

// fmul multiplies floats; products of small integers stay integers.
func (c *Ctx) fmul(a, b *Expr) *Expr {
	if a.IsConst() && !b.IsConst() {
		a, b = b, a
	}
	if b.IsConst() && !a.IsConst() {
		k := math.Float64frombits(b.val)
		if k == 1 {
			return a
		}
		if k > 1 && k < 1<<53 && k == math.Trunc(k) && a.op == OFFromU && a.a.sort == 64 {
			if u := ubound(a.a, 0); u < 1<<53 && u <= (1<<53-1)/uint64(k) {
				return c.Un(OFFromU, SFP, c.Bin(OMul, a.a, c.Const(64, uint64(k))))
			}
		}
	}
	return c.bin(OFMul, SFP, a, b)
}

// monoInt: e is a monotone function of an unsigned integer x in [0,ub]: sums, differences,
// products and quotients with constants, each correctly rounded. up tells its direction.
func monoInt(e *Expr) (x *Expr, f func(uint64) float64, up, ok bool) {
	return mono(e, 0)
}

func mono(e *Expr, depth int) (x *Expr, f func(uint64) float64, up, ok bool) {
	if x, ok := exactInt(e); ok && e.op != OFNeg {
		return x, func(u uint64) float64 { return float64(u) }, true, true
	}
	if e.op == OFFromS {
		if v, k, ok := offset(e.a); ok && ubound(v, 0) < 1<<52 && k > -1<<52 && k < 1<<52 {
			return v, func(u uint64) float64 { return float64(int64(u) + k) }, true, true
		}
	}
	if depth > 8 {
		return nil, nil, false, false
	}
	konst := func(k *Expr) (float64, bool) {
		if !k.IsConst() {
			return 0, false
		}
		v := math.Float64frombits(k.val)
		return v, v == 0 || math.Abs(v) >= 1e-30 && math.Abs(v) < 1e30
	}
	switch e.op {
	case OFNeg:
		if x, g, up, ok := mono(e.a, depth+1); ok {
			return x, func(u uint64) float64 { return -g(u) }, !up, true
		}
	case OFDiv, OFMul:
		k, ok := konst(e.b)
		if !ok || k == 0 {
			break
		}
		if x, g, up, ok := mono(e.a, depth+1); ok {
			if e.op == OFDiv {
				return x, func(u uint64) float64 { return g(u) / k }, up == (k > 0), true
			}
			return x, func(u uint64) float64 { return g(u) * k }, up == (k > 0), true
		}
	case OFAdd:
		a, b := e.a, e.b
		if a.IsConst() {
			a, b = b, a
		}
		k, ok := konst(b)
		if !ok {
			break
		}
		if x, g, up, ok := mono(a, depth+1); ok {
			return x, func(u uint64) float64 { return g(u) + k }, up, true
		}
	case OFSub:
		if k, ok := konst(e.b); ok {
			if x, g, up, ok := mono(e.a, depth+1); ok {
				return x, func(u uint64) float64 { return g(u) - k }, up, true
			}
		}
		if k, ok := konst(e.a); ok {
			if x, g, up, ok := mono(e.b, depth+1); ok {
				return x, func(u uint64) float64 { return k - g(u) }, !up, true
			}
		}
	}
	return nil, nil, false, false
}

// frange gives finite bounds of a float expression that is never NaN. Rounding to nearest is
// monotone, so the bounds of an operation are those of its operands' bounds.
func frange(e *Expr, depth int) (lo, hi float64, ok bool) { return frangeIn(nil, e, depth) }

type fbounds map[*Expr][2]float64

// frangeIn knows bounds of some expressions.
func frangeIn(kn fbounds, e *Expr, depth int) (lo, hi float64, ok bool) {
	lo, hi, ok = frange1(kn, e, depth)
	if b, has := kn[e]; has && ok {
		lo, hi = max(lo, b[0]), min(hi, b[1])
		if lo > hi {
			return 0, 0, false
		}
	}
	return
}

func frange1(kn fbounds, e *Expr, depth int) (lo, hi float64, ok bool) {
	fin := func(v ...float64) (lo, hi float64, ok bool) {
		lo, hi = v[0], v[0]
		for _, x := range v {
			if math.IsNaN(x) || math.IsInf(x, 0) {
				return 0, 0, false
			}
			lo, hi = min(lo, x), max(hi, x)
		}
		return lo, hi, true
	}
	if e.op == OConst {
		return fin(math.Float64frombits(e.val))
	}
	if e.op == OFFromBits {
		if e.a.op == OVar && e.a.fr != nil {
			return e.a.fr[0], e.a.fr[1], true
		}
		return
	}
	if depth > 12 {
		return
	}
	switch e.op {
	case OFFromU:
		l, h := urange(e.a)
		return float64(l), float64(h), true
	case OFFromS:
		if v, k, ok := offset(e.a); ok && ubound(v, 0) < 1<<52 && k > -1<<52 && k < 1<<52 {
			return float64(k), float64(int64(ubound(v, 0)) + k), true
		}
		if e.a.sort == 64 {
			return -(1 << 63), 1 << 63, true
		}
	case OFNeg:
		if l, h, ok := frangeIn(kn, e.a, depth+1); ok {
			return -h, -l, true
		}
	case OFAbs:
		if l, h, ok := frangeIn(kn, e.a, depth+1); ok {
			if l >= 0 {
				return l, h, true
			}
			return 0, max(-l, h), true
		}
	case OIte:
		if l, h, ok := frangeIn(kn, e.b, depth+1); ok {
			if l2, h2, ok := frangeIn(kn, e.c, depth+1); ok {
				// k < x ? k : x is at most k
				if k := e.a; k.op == OFLt && (k.a == e.b && k.b == e.c && e.b.IsConst()) {
					h2 = max(l2, min(h2, h))
				} else if k.op == OFLt && (k.a == e.c && k.b == e.b && e.b.IsConst()) { // x < k ? k : x
					l2 = min(h2, max(l2, l))
				}
				return min(l, l2), max(h, h2), true
			}
		}
	case OFAdd, OFSub, OFMul, OFDiv:
		if x, f, _, ok := mono(e, 0); ok {
			return fin(f(0), f(ubound(x, 0)))
		}
		l, h, ok1 := frangeIn(kn, e.a, depth+1)
		l2, h2, ok2 := frangeIn(kn, e.b, depth+1)
		if !ok1 || !ok2 {
			return
		}
		switch e.op {
		case OFAdd:
			return fin(l+l2, h+h2)
		case OFSub:
			return fin(l-h2, h-l2)
		case OFMul:
			return fin(l*l2, l*h2, h*l2, h*h2)
		}
		if l2 > 0 || h2 < 0 {
			return fin(l/l2, l/h2, h/l2, h/h2)
		}
	}
	return 0, 0, false
}

// grid: e is x/2^s exactly, x an unsigned 64-bit integer below 2^53.
func (c *Ctx) grid(e *Expr, s0 int) (x *Expr, s int, ok bool) {
	if x, ok := exactInt(e); ok && e.op != OFNeg && x.sort == 64 {
		return x, 0, true
	}
	if e.op == OFDiv && e.b.IsConst() {
		k := math.Float64frombits(e.b.val)
		if fr, ex := math.Frexp(k); fr == 0.5 && ex >= 1 && ex <= 61 {
			if x, ok := exactInt(e.a); ok && e.a.op != OFNeg && x.sort == 64 {
				return x, ex - 1, true
			}
		}
	}
	if e.IsConst() {
		k := math.Float64frombits(e.val) * math.Exp2(float64(s0))
		if k >= 0 && k < 1<<53 && k == math.Trunc(k) && !math.Signbit(k) {
			return c.Const(64, uint64(k)), s0, true
		}
	}
	return nil, 0, false
}

// grids brings two grid floats to one denominator.
func (c *Ctx) grids(a, b *Expr) (x, y *Expr, s int, ok bool) {
	if a.IsConst() {
		y, x, s, ok = c.grids(b, a)
		return
	}
	x, s, ok = c.grid(a, 0)
	if !ok {
		return
	}
	y, s2, ok := c.grid(b, s)
	if !ok {
		return nil, nil, 0, false
	}
	up := func(e *Expr, d int) *Expr {
		if d == 0 {
			return e
		}
		return c.Bin(OMul, e, c.Const(64, 1<<d))
	}
	top := max(s, s2)
	if ubound(x, 0) > (1<<62)>>(top-s) || ubound(y, 0) > (1<<62)>>(top-s2) {
		return nil, nil, 0, false
	}
	return up(x, top-s), up(y, top-s2), top, true
}

// fadd adds floats; grid floats stay grid floats while that is exact.
func (c *Ctx) fadd(a, b *Expr) *Expr {
	if !a.IsConst() || !b.IsConst() {
		if x, y, s, ok := c.grids(a, b); ok {
			if t := c.Bin(OAdd, x, y); ubound(x, 0)+ubound(y, 0) < 1<<53 && ubound(t, 0) < 1<<53 {
				r := c.Un(OFFromU, SFP, t)
				if s > 0 {
					r = c.bin(OFDiv, SFP, r, c.Float(math.Exp2(float64(s))))
				}
				return r
			}
		}
	}
	return c.bin(OFAdd, SFP, a, b)
}

// firstTrue is the least u in [0,ub] with p(u), ub+1 if none; p is monotone.
func firstTrue(ub uint64, p func(uint64) bool) uint64 {
	lo, hi := uint64(0), ub+1
	for lo < hi {
		mid := lo + (hi-lo)/2
		if p(mid) {
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	return lo
}

// fcmpInt compares a monotone function of an integer with a constant, or two exact integers, as integers.
func (c *Ctx) fcmpInt(op Op, a, b *Expr) *Expr {
	if x, ok := exactInt(a); ok && a.op != OFNeg {
		if y, ok := exactInt(b); ok && b.op != OFNeg && x.sort == y.sort {
			switch op {
			case OFEq:
				return c.Eq(x, y)
			case OFLt:
				return c.Bin(OUlt, x, y)
			}
			return c.Bin(OUle, x, y)
		}
	}
	if a.op == OFFromS && b.op == OFFromS && a.a.sort == b.a.sort {
		small := func(e *Expr) bool {
			v, k, ok := offset(e)
			return ok && ubound(v, 0) < 1<<52 && k > -1<<52 && k < 1<<52
		}
		if small(a.a) && small(b.a) {
			return c.Bin(map[Op]Op{OFEq: OEq, OFLt: OSlt, OFLe: OSle}[op], a.a, b.a)
		}
	}
	if (a.op == OFDiv || a.op == OFMul) && a.op == b.op && a.b.IsConst() && a.b == b.b && a.a.op == OFFromU && b.a.op == OFFromU {
		// distinct integers below 2^51 differ by more than the rounding of a product or quotient
		x, y := a.a.a, b.a.a
		if k := math.Float64frombits(a.b.val); k >= 1e-30 && k < 1e30 && ubound(x, 0) < 1<<51 && ubound(y, 0) < 1<<51 && x.sort == y.sort {
			switch op {
			case OFEq:
				return c.Eq(x, y)
			case OFLt:
				return c.Bin(OUlt, x, y)
			}
			return c.Bin(OUle, x, y)
		}
	}
	if !a.IsConst() && !b.IsConst() {
		if x, y, _, ok := c.grids(a, b); ok {
			switch op {
			case OFEq:
				return c.Eq(x, y)
			case OFLt:
				return c.Bin(OUlt, x, y)
			}
			return c.Bin(OUle, x, y)
		}
	}
	swapped := false
	if a.IsConst() {
		a, b, swapped = b, a, true
	}
	if !b.IsConst() || a.IsConst() {
		return nil
	}
	k := math.Float64frombits(b.val)
	if a.op == OFNeg { // -x op k  <=>  -k op x
		a, k, swapped = a.a, -k, !swapped
	}
	x, f, up, ok := monoInt(a)
	if !ok {
		return nil
	}
	if !up {
		g := f
		f, k, swapped = func(u uint64) float64 { return -g(u) }, -k, !swapped
	}
	if math.IsNaN(k) {
		return c.fls
	}
	ub := ubound(x, 0)
	ge := firstTrue(ub, func(u uint64) bool { return f(u) >= k }) // x >= ge iff value >= k
	gt := firstTrue(ub, func(u uint64) bool { return f(u) > k })
	atLeast := func(n uint64) *Expr { // x >= n
		if n == 0 {
			return c.tru
		}
		if n > ub {
			return c.fls
		}
		return c.Bin(OUle, c.Const(x.sort, n), x)
	}
	switch {
	case op == OFEq:
		if ge == gt {
			return c.fls
		}
		if gt == ge+1 {
			return c.Eq(x, c.Const(x.sort, ge))
		}
		return c.And(atLeast(ge), c.Not(atLeast(gt)))
	case op == OFLe && !swapped: // value <= k
		return c.Not(atLeast(gt))
	case op == OFLt && !swapped:
		return c.Not(atLeast(ge))
	case op == OFLe: // k <= value
		return atLeast(ge)
	}
	return atLeast(gt)
}

// ---- evaluation under a model

type Model map[string]uint64

// Eval computes e under m (missing variables are 0). Memoised until NewEpoch.
func (c *Ctx) Eval(e *Expr, m Model) uint64 {
	switch e.op {
	case OConst:
		return e.val
	}
	if e.evEpoch == c.epoch {
		return e.evVal
	}
	var r uint64
	switch e.op {
	case OVar:
		r = m[e.name] & mask(e.sort)
	case OIte:
		if c.Eval(e.a, m) != 0 {
			r = c.Eval(e.b, m)
		} else {
			r = c.Eval(e.c, m)
		}
	case OAnd:
		r = c.Eval(e.a, m)
		if r != 0 {
			r = c.Eval(e.b, m)
		}
	case OOr:
		r = c.Eval(e.a, m)
		if r == 0 {
			r = c.Eval(e.b, m)
		}
	default:
		var x, y, z uint64
		x = c.Eval(e.a, m)
		if e.b != nil {
			y = c.Eval(e.b, m)
		}
		if e.c != nil {
			z = c.Eval(e.c, m)
		}
		r = evalOp(e.op, e.sort, e.a.sort, x, y, z, e.val)
	}
	e.evEpoch = c.epoch
	e.evVal = r
	return r
}

func (c *Ctx) NewEpoch() { c.epoch++ }

// ---- SMT-LIB printing

func sortStr(s Sort) string {
	switch s {
	case SBool:
		return "Bool"
	case SFP:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", s)
}

func constStr(e *Expr) string {
	switch e.sort {
	case SBool:
		if e.val == 1 {
			return "true"
		}
		return "false"
	case SFP:
		f := e.F()
		if f != f {
			return "(_ NaN 11 53)"
		}
		return fmt.Sprintf("(fp #b%d #b%011b #b%052b)", e.val>>63, (e.val>>52)&0x7ff, e.val&(1<<52-1))
	}
	if e.sort%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(e.sort)/4, e.val)
	}
	return fmt.Sprintf("#b%0*b", int(e.sort), e.val)
}

func ref(e *Expr) string {
	switch e.op {
	case OConst:
		return constStr(e)
	case OVar:
		return e.name
	}
	return fmt.Sprintf("e%d", e.id)
}

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OUlt: "bvult", OUle: "bvule",
	OSlt: "bvslt", OSle: "bvsle", OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE",
	OFNeg: "fp.neg", OFAbs: "fp.abs", OFEq: "fp.eq", OFLt: "fp.lt", OFLe: "fp.leq", OFIsNaN: "fp.isNaN", OFIsInf: "fp.isInfinite",
	OFFromBits: "(_ to_fp 11 53)", OFFromS: "(_ to_fp 11 53) RNE", OFFromU: "(_ to_fp_unsigned 11 53) RNE",
	OFFloor: "fp.roundToIntegral RTN", OFCeil: "fp.roundToIntegral RTP", OFTrunc: "fp.roundToIntegral RTZ",
	OFRoundAway: "fp.roundToIntegral RNA", OFRoundEven: "fp.roundToIntegral RNE", OFSqrt: "fp.sqrt RNE",
}

func nodeStr(e *Expr) string {
	var sb strings.Builder
	switch e.op {
	case OZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", e.sort-e.a.sort, ref(e.a))
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", e.sort-e.a.sort, ref(e.a))
	case OTrunc:
		return fmt.Sprintf("((_ extract %d 0) %s)", e.sort-1, ref(e.a))
	case OFToF32:
		return fmt.Sprintf("((_ to_fp 11 53) RNE ((_ to_fp 8 24) RNE %s))", ref(e.a))
	case OFToS:
		x := ref(e.a)
		// amd64: out of range and NaN give the most negative value
		full := fmt.Sprintf("(ite (and (fp.lt %s %s) (fp.leq %s %s)) ((_ fp.to_sbv 64) RTZ %s) #x8000000000000000)",
			x, "(fp #b0 #b10000111110 #b0000000000000000000000000000000000000000000000000000)",
			"(fp #b1 #b10000111110 #b0000000000000000000000000000000000000000000000000000)", x, x)
		if e.sort == 64 {
			return full
		}
		return fmt.Sprintf("((_ extract %d 0) %s)", e.sort-1, full)
	}
	n := opNames[e.op]
	if n == "" {
		panic(fmt.Sprintf("nodeStr op %d", e.op))
	}
	if strings.HasPrefix(n, "(_ ") {
		// "(_ to_fp 11 53)" or "(_ to_fp 11 53) RNE"
		sb.WriteString("(" + n)
	} else {
		sb.WriteString("(" + n)
	}
	for _, x := range []*Expr{e.a, e.b, e.c} {
		if x != nil {
			sb.WriteString(" ")
			sb.WriteString(ref(x))
		}
	}
	sb.WriteString(")")
	return sb.String()
}

// Emit writes the definitions e needs that were not emitted in this solver epoch.
func Emit(sb *strings.Builder, e *Expr, epoch int32, log *[]*Expr) {
	if e.op == OConst || e.emitted == epoch {
		return
	}
	// iterative post-order
	type fr struct {
		e *Expr
		i int
	}
	st := []fr{{e, 0}}
	for len(st) > 0 {
		t := &st[len(st)-1]
		x := t.e
		if x.emitted == epoch || x.op == OConst {
			st = st[:len(st)-1]
			continue
		}
		var kid *Expr
		switch t.i {
		case 0:
			kid = x.a
		case 1:
			kid = x.b
		case 2:
			kid = x.c
		}
		if t.i < 3 {
			t.i++
			if kid != nil && kid.op != OConst && kid.emitted != epoch {
				st = append(st, fr{kid, 0})
			}
			continue
		}
		if x.op == OVar {
			fmt.Fprintf(sb, "(declare-fun %s () %s)\n", x.name, sortStr(x.sort))
		} else {
			fmt.Fprintf(sb, "(define-fun e%d () %s %s)\n", x.id, sortStr(x.sort), nodeStr(x))
		}
		x.emitted = epoch
		*log = append(*log, x)
		st = st[:len(st)-1]
	}
}
