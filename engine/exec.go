package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

const nilDeref = "runtime error: invalid memory address or nil pointer dereference"

func (m *Machine) exec(fr *frame, in *inst, i ssa.Instruction) {
	switch x := i.(type) {
	case *ssa.Alloc:
		p := new(Val)
		*p = m.zero(x.Type().Underlying().(*types.Pointer).Elem())
		fr.regs[in.dst] = p
	case *ssa.UnOp:
		fr.regs[in.dst] = m.unop(fr, in, x)
	case *ssa.BinOp:
		fr.regs[in.dst] = m.binop(x.Op, x.X.Type(), x.Y.Type(), m.get(fr, &in.ops[0]), m.get(fr, &in.ops[1]))
	case *ssa.Call:
		fr.regs[in.dst] = m.doCall(fr, in, &x.Call)
	case *ssa.Store:
		m.store(m.get(fr, &in.ops[0]), m.get(fr, &in.ops[1]))
	case *ssa.FieldAddr:
		p, ok := m.get(fr, &in.ops[0]).(Ptr)
		if !ok || p == nil {
			m.rtPanic(nilDeref)
		}
		s, ok := (*p).(Struct)
		if !ok {
			m.unsupported(fmt.Sprintf("FieldAddr on %T", *p))
		}
		fr.regs[in.dst] = &s[x.Field]
	case *ssa.Field:
		fr.regs[in.dst] = m.get(fr, &in.ops[0]).(Struct)[x.Field]
	case *ssa.IndexAddr:
		fr.regs[in.dst] = m.indexAddr(m.get(fr, &in.ops[0]), m.get(fr, &in.ops[1]).(*Expr), x.Index.Type())
	case *ssa.Index:
		fr.regs[in.dst] = m.index(m.get(fr, &in.ops[0]), m.get(fr, &in.ops[1]).(*Expr), x.Index.Type())
	case *ssa.Lookup:
		fr.regs[in.dst] = m.lookup(fr, in, x)
	case *ssa.MapUpdate:
		m.mapSet(m.get(fr, &in.ops[0]).(*MapV), m.get(fr, &in.ops[1]), copyVal(m.get(fr, &in.ops[2])))
	case *ssa.Extract:
		fr.regs[in.dst] = m.get(fr, &in.ops[0]).(Tuple)[x.Index]
	case *ssa.MakeInterface:
		v := m.get(fr, &in.ops[0])
		fr.regs[in.dst] = Iface{t: x.X.Type(), v: copyVal(v)}
	case *ssa.ChangeInterface:
		fr.regs[in.dst] = m.get(fr, &in.ops[0])
	case *ssa.ChangeType:
		fr.regs[in.dst] = m.get(fr, &in.ops[0])
	case *ssa.MultiConvert:
		fr.regs[in.dst] = m.convert(x.Type(), x.X.Type(), m.get(fr, &in.ops[0]))
	case *ssa.Convert:
		fr.regs[in.dst] = m.convert(x.Type(), x.X.Type(), m.get(fr, &in.ops[0]))
	case *ssa.TypeAssert:
		fr.regs[in.dst] = m.typeAssert(x, m.get(fr, &in.ops[0]).(Iface))
	case *ssa.MakeClosure:
		free := make([]Val, len(in.ops)-1)
		for j := range free {
			free[j] = m.get(fr, &in.ops[j+1])
		}
		fr.regs[in.dst] = &Closure{fn: x.Fn.(*ssa.Function), free: free}
	case *ssa.MakeMap:
		fr.regs[in.dst] = m.newMap(x.Type())
	case *ssa.MakeSlice:
		n := m.sizeOf(m.get(fr, &in.ops[0]).(*Expr), "len", x.Len.Type())
		c := m.sizeOf(m.get(fr, &in.ops[1]).(*Expr), "cap", x.Cap.Type())
		if c < n {
			m.rtPanic("runtime error: makeslice: cap out of range")
		}
		et := x.Type().Underlying().(*types.Slice).Elem()
		fr.regs[in.dst] = m.mkSlice(et, n, c)
	case *ssa.Slice:
		fr.regs[in.dst] = m.doSlice(fr, in, x)
	case *ssa.SliceToArrayPointer:
		m.unsupported("slice to array pointer")
	case *ssa.Range:
		switch v := m.get(fr, &in.ops[0]).(type) {
		case *MapV:
			fr.regs[in.dst] = m.mapRange(v)
		case *Str:
			m.forceStr(v)
			fr.regs[in.dst] = &strIter{s: v}
		default:
			m.unsupported("range")
		}
	case *ssa.Next:
		fr.regs[in.dst] = m.next(fr, x, m.get(fr, &in.ops[0]))
	case *ssa.Defer:
		m.doDefer(fr, in, x)
	case *ssa.DebugRef:
	case *ssa.MakeChan:
		fr.regs[in.dst] = new(Val)
	case *ssa.Go, *ssa.Send, *ssa.Select:
		m.unsupported(fmt.Sprintf("concurrency instruction %v", i))
	default:
		m.unsupported(fmt.Sprintf("instruction %T", i))
	}
}

func (m *Machine) mkSlice(et types.Type, n, c int) Slice {
	m.allocs += int64(c)
	if c > 1<<20 || m.allocs > 1<<23 {
		panic(pathEnd{"budget", "allocation of a very large slice"})
	}
	a := make([]Val, c)
	z := m.zero(et)
	switch z.(type) {
	case Struct, Array:
		for i := range a {
			a[i] = m.zero(et)
		}
	default:
		for i := range a {
			a[i] = z
		}
	}
	return Slice{a: a[:n:c]}
}

// sizeOf concretises a make size, raising the run-time panic for negative or huge ones.
func (m *Machine) sizeOf(e *Expr, what string, t types.Type) int {
	e = m.toI64(e, t)
	lim := m.ctx.I64(1 << 40)
	if m.branch(m.ctx.Or(m.ctx.Bin(OSlt, e, m.ctx.I64(0)), m.ctx.Bin(OSle, lim, e))) {
		m.rtPanic("runtime error: makeslice: " + what + " out of range")
	}
	big := m.ctx.I64(1 << 16)
	if m.branch(m.ctx.Bin(OSlt, big, e)) {
		panic(pathEnd{"budget", "allocation size above 65536"})
	}
	return int(m.concretize(e))
}

func (m *Machine) toI64(e *Expr, t types.Type) *Expr {
	if e.sort == 64 {
		return e
	}
	if isSigned(t) {
		return m.ctx.Un(OSExt, 64, e)
	}
	return m.ctx.Un(OZExt, 64, e)
}

func (m *Machine) store(p Val, v Val) {
	switch a := p.(type) {
	case Ptr:
		if a == nil {
			m.rtPanic(nilDeref)
		}
		storeTo(a, v)
	case *SymPtr:
		i := m.concretize(a.idx)
		storeTo(&a.a[i], v)
	default:
		m.unsupported(fmt.Sprintf("store through %T", p))
	}
}

func (m *Machine) load(p Val) Val {
	switch a := p.(type) {
	case Ptr:
		if a == nil {
			m.rtPanic(nilDeref)
		}
		return copyVal(*a)
	case *SymPtr:
		return m.symSelect(a.a, a.idx)
	}
	m.unsupported(fmt.Sprintf("load through %T", p))
	return nil
}

// symSelect reads a[idx] (idx known in range).
func (m *Machine) symSelect(a []Val, idx *Expr) Val {
	scalar := true
	for _, v := range a {
		if _, ok := v.(*Expr); !ok {
			scalar = false
			break
		}
	}
	if !scalar || len(a) == 0 || len(a) > 70000 {
		return copyVal(a[m.concretize(idx)])
	}
	// run-length chain over the index
	r := a[len(a)-1].(*Expr)
	for i := len(a) - 2; i >= 0; i-- {
		e := a[i].(*Expr)
		if e == a[i+1].(*Expr) {
			continue
		}
		r = m.ctx.Ite(m.ctx.Bin(OUle, idx, m.ctx.Const(idx.sort, uint64(i))), e, r)
	}
	return r
}

func (m *Machine) boundsFail(i *Expr, n int) {
	if i.IsConst() {
		m.rtPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", i.Int(), n))
	}
	m.rtPanic(fmt.Sprintf("runtime error: index out of range with length %d", n))
}

// checkIdx returns (concrete index, true) or (-1, false) when symbolic but in range.
func (m *Machine) checkIdx(i *Expr, t types.Type, n int) (int, *Expr) {
	i = m.toI64(i, t)
	if i.IsConst() {
		if i.val >= uint64(n) {
			m.boundsFail(i, n)
		}
		return int(i.val), nil
	}
	if !m.branch(m.ctx.Bin(OUlt, i, m.ctx.Const(64, uint64(n)))) {
		m.boundsFail(i, n)
	}
	if v, ok := m.concr[i]; ok {
		return int(v), nil
	}
	return -1, i
}

func (m *Machine) indexAddr(v Val, i *Expr, it types.Type) Val {
	var a []Val
	switch x := v.(type) {
	case Slice:
		a = m.force(x).a
	case Ptr:
		if x == nil {
			m.rtPanic(nilDeref)
		}
		a = (*x).(Array)
	default:
		m.unsupported(fmt.Sprintf("IndexAddr on %T", v))
	}
	k, s := m.checkIdx(i, it, len(a))
	if s != nil {
		return &SymPtr{a: a, idx: s}
	}
	return &a[k]
}

func (m *Machine) index(v Val, i *Expr, it types.Type) Val {
	switch x := v.(type) {
	case Array:
		k, s := m.checkIdx(i, it, len(x))
		if s != nil {
			return m.symSelect(x, s)
		}
		return x[k]
	case *Str:
		return m.strIndex(x, i, it)
	}
	m.unsupported(fmt.Sprintf("Index on %T", v))
	return nil
}

func (m *Machine) strIndex(x *Str, i *Expr, it types.Type) Val {
	n := m.slen(x)
	k, s := m.checkIdx(i, it, n)
	if s == nil {
		if x.conc {
			return m.ctx.Const(8, uint64(x.s[k]))
		}
		return x.b[k]
	}
	b := m.sbytes(x)
	vs := make([]Val, len(b))
	for j, e := range b {
		vs[j] = e
	}
	return m.symSelect(vs, s)
}

func (m *Machine) lookup(fr *frame, in *inst, x *ssa.Lookup) Val {
	switch c := m.get(fr, &in.ops[0]).(type) {
	case *Str:
		return m.strIndex(c, m.get(fr, &in.ops[1]).(*Expr), x.Index.Type())
	case *MapV:
		e := m.mapFind(c, m.get(fr, &in.ops[1]))
		et := x.X.Type().Underlying().(*types.Map).Elem()
		var v Val
		if e != nil {
			v = copyVal(*e.v)
		} else {
			v = m.zero(et)
		}
		if x.CommaOk {
			return Tuple{v, m.ctx.Bool(e != nil)}
		}
		return v
	}
	m.unsupported("lookup")
	return nil
}

func (m *Machine) next(fr *frame, x *ssa.Next, it Val) Val {
	switch i := it.(type) {
	case *mapIter:
		for i.i < len(i.list) {
			e := i.list[i.i]
			i.i++
			if e.dead {
				continue
			}
			return Tuple{m.ctx.tru, e.k, copyVal(*e.v)}
		}
		return Tuple{m.ctx.fls, nil, nil}
	case *strIter:
		n := m.slen(i.s)
		if i.pos >= n {
			return Tuple{m.ctx.fls, m.ctx.I64(0), m.ctx.Const(32, 0)}
		}
		p := i.pos
		b := m.sbytes(i.s)[p]
		if m.branch(m.ctx.Bin(OUlt, b, m.ctx.Const(8, 0x80))) {
			i.pos++
			return Tuple{m.ctx.tru, m.ctx.I64(int64(p)), m.ctx.Un(OZExt, 32, b)}
		}
		r := m.call(m.ld.decodeRune, []Val{m.ssub(i.s, p, n)}, nil, fr).(Tuple)
		sz := int(m.concretize(r[1].(*Expr)))
		i.pos += sz
		return Tuple{m.ctx.tru, m.ctx.I64(int64(p)), r[0]}
	}
	m.unsupported("next")
	return nil
}

func (m *Machine) doSlice(fr *frame, in *inst, x *ssa.Slice) Val {
	v := m.get(fr, &in.ops[0])
	k := 1
	opn := func(present bool) (Val, bool) {
		if !present {
			return nil, false
		}
		r := m.get(fr, &in.ops[k])
		k++
		return r, true
	}
	// operands of Slice are X, Low, High, Max with nils kept by Operands()
	var lo, hi, mx *Expr
	_ = opn
	if o := &in.ops[1]; o.k != opNone {
		lo = m.toI64(m.get(fr, o).(*Expr), x.Low.Type())
	}
	if o := &in.ops[2]; o.k != opNone {
		hi = m.toI64(m.get(fr, o).(*Expr), x.High.Type())
	}
	if o := &in.ops[3]; o.k != opNone {
		mx = m.toI64(m.get(fr, o).(*Expr), x.Max.Type())
	}
	return m.sliceOp(v, lo, hi, mx)
}

func (m *Machine) sliceOp(v Val, lo, hi, mx *Expr) Val {
	var n, c int
	switch s := v.(type) {
	case *Str:
		if lo == nil && hi == nil {
			return s
		}
		n = m.slen(s)
		c = n
	case Slice:
		if s.lz != nil && lo == nil && hi == nil && mx == nil {
			return s
		}
		s = m.force(s)
		v = s
		n, c = len(s.a), cap(s.a)
	case Ptr:
		if s == nil {
			m.rtPanic(nilDeref)
		}
		n = len((*s).(Array))
		c = n
	default:
		m.unsupported(fmt.Sprintf("slice of %T", v))
	}
	fail := func(what string) { m.rtPanic("runtime error: slice bounds out of range " + what) }
	if lo == nil {
		lo = m.ctx.I64(0)
	}
	if hi == nil {
		hi = m.ctx.I64(int64(n))
	}
	if mx == nil {
		mx = m.ctx.I64(int64(c))
	}
	le := func(a, b *Expr) bool { return m.branch(m.ctx.Bin(OUle, a, b)) }
	if !le(mx, m.ctx.I64(int64(c))) {
		fail("max")
	}
	if _, ok := v.(*Str); ok {
		if !le(hi, m.ctx.I64(int64(n))) {
			fail("hi")
		}
	}
	if !le(hi, mx) {
		fail("hi")
	}
	if !le(lo, hi) {
		fail("lo")
	}
	h, l, x := int(m.concretize(hi)), int(m.concretize(lo)), int(m.concretize(mx))
	switch s := v.(type) {
	case *Str:
		return m.ssub(s, l, h)
	case Slice:
		if s.a == nil {
			return s
		}
		return Slice{a: s.a[l:h:x]}
	case Ptr:
		a := []Val((*s).(Array))
		return Slice{a: a[l:h:x]}
	}
	return nil
}

func (m *Machine) unop(fr *frame, in *inst, x *ssa.UnOp) Val {
	v := m.get(fr, &in.ops[0])
	switch x.Op {
	case token.MUL:
		return m.load(v)
	case token.NOT:
		return m.ctx.Not(v.(*Expr))
	case token.SUB:
		e := v.(*Expr)
		if e.sort == SFP {
			return m.ctx.Un(OFNeg, SFP, e)
		}
		return m.ctx.Un(ONeg, e.sort, e)
	case token.XOR:
		e := v.(*Expr)
		return m.ctx.Un(OBNot, e.sort, e)
	}
	m.unsupported("unop " + x.Op.String())
	return nil
}

func isFloat32(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Float32
}

func (m *Machine) binop(op token.Token, t, ty types.Type, x, y Val) Val {
	c := m.ctx
	switch op {
	case token.EQL:
		return m.eq(t, x, y)
	case token.NEQ:
		return c.Not(m.eq(t, x, y))
	}
	if a, ok := x.(*Str); ok {
		b := y.(*Str)
		switch op {
		case token.ADD:
			return m.sconcat(a, b)
		case token.LSS:
			return m.sless(a, b)
		case token.GTR:
			return m.sless(b, a)
		case token.LEQ:
			return c.Not(m.sless(b, a))
		case token.GEQ:
			return c.Not(m.sless(a, b))
		}
	}
	a, ok1 := x.(*Expr)
	b, ok2 := y.(*Expr)
	if !ok1 || !ok2 {
		m.unsupported(fmt.Sprintf("binop %v on %T,%T", op, x, y))
	}
	if a.sort == SFP {
		r := (*Expr)(nil)
		switch op {
		case token.ADD:
			r = c.fadd(a, b)
		case token.SUB:
			r = c.bin(OFSub, SFP, a, b)
		case token.MUL:
			r = c.fmul(a, b)
		case token.QUO:
			r = c.bin(OFDiv, SFP, a, b)
		case token.LSS:
			return c.Bin(OFLt, a, b)
		case token.LEQ:
			return c.Bin(OFLe, a, b)
		case token.GTR:
			return c.Bin(OFLt, b, a)
		case token.GEQ:
			return c.Bin(OFLe, b, a)
		}
		if r != nil {
			if isFloat32(t) {
				r = c.Un(OFToF32, SFP, r)
			}
			return r
		}
		m.unsupported("float op " + op.String())
	}
	if a.sort == SBool {
		switch op {
		case token.AND, token.LAND:
			return c.And(a, b)
		case token.OR, token.LOR:
			return c.Or(a, b)
		}
	}
	sg := isSigned(t)
	switch op {
	case token.ADD:
		return c.Bin(OAdd, a, b)
	case token.SUB:
		return c.Bin(OSub, a, b)
	case token.MUL:
		return c.Bin(OMul, a, b)
	case token.QUO, token.REM:
		if m.branch(c.Eq(b, c.Const(b.sort, 0))) {
			m.rtPanic("runtime error: integer divide by zero")
		}
		switch {
		case op == token.QUO && sg:
			return c.Bin(OSDiv, a, b)
		case op == token.QUO:
			return c.Bin(OUDiv, a, b)
		case sg:
			return c.Bin(OSRem, a, b)
		default:
			return c.Bin(OURem, a, b)
		}
	case token.AND:
		return c.Bin(OBAnd, a, b)
	case token.OR:
		return c.Bin(OBOr, a, b)
	case token.XOR:
		return c.Bin(OBXor, a, b)
	case token.AND_NOT:
		return c.Bin(OBAnd, a, c.Un(OBNot, b.sort, b))
	case token.SHL, token.SHR:
		if isSigned(ty) {
			if m.branch(c.Bin(OSlt, b, c.Const(b.sort, 0))) {
				m.rtPanic("runtime error: negative shift amount")
			}
		}
		// bring the shift count to the operand's width, saturating
		if b.sort != a.sort {
			if b.sort < a.sort {
				b = c.Un(OZExt, a.sort, b)
			} else {
				big := c.Bin(OUle, c.Const(b.sort, uint64(a.sort)), b)
				b = c.Ite(big, c.Const(a.sort, uint64(a.sort)), c.Un(OTrunc, a.sort, b))
			}
		}
		switch {
		case op == token.SHL:
			return c.Bin(OShl, a, b)
		case sg:
			return c.Bin(OAShr, a, b)
		default:
			return c.Bin(OLShr, a, b)
		}
	case token.LSS:
		if sg {
			return c.Bin(OSlt, a, b)
		}
		return c.Bin(OUlt, a, b)
	case token.LEQ:
		if sg {
			return c.Bin(OSle, a, b)
		}
		return c.Bin(OUle, a, b)
	case token.GTR:
		if sg {
			return c.Bin(OSlt, b, a)
		}
		return c.Bin(OUlt, b, a)
	case token.GEQ:
		if sg {
			return c.Bin(OSle, b, a)
		}
		return c.Bin(OUle, b, a)
	}
	m.unsupported("binop " + op.String())
	return nil
}

func (m *Machine) convert(dst, src types.Type, v Val) Val {
	c := m.ctx
	ud, us := dst.Underlying(), src.Underlying()
	if types.Identical(ud, us) {
		return v
	}
	ds, dok := sortOf(dst)
	_, sok := sortOf(src)
	if dok && sok {
		e := v.(*Expr)
		switch {
		case ds == SFP && e.sort == SFP:
			if isFloat32(dst) && !isFloat32(src) {
				return c.Un(OFToF32, SFP, e)
			}
			return e
		case ds == SFP:
			w := m.toI64(e, src)
			var r *Expr
			if isSigned(src) {
				r = c.Un(OFFromS, SFP, w)
			} else {
				r = c.Un(OFFromU, SFP, w)
			}
			if isFloat32(dst) {
				r = c.Un(OFToF32, SFP, r)
			}
			return r
		case e.sort == SFP:
			if !isSigned(dst) && ds == 64 {
				// uint64 conversion: fold when constant, otherwise model as the signed one when < 2^63
				if e.IsConst() {
					return c.Const(64, uint64(e.F()))
				}
				if !m.branch(c.Bin(OFLt, e, c.Float(9223372036854775808.0))) {
					m.unsupported("float to uint64 above 2^63")
				}
			}
			r := c.Un(OFToS, 64, e)
			if ds < 64 {
				r = c.Un(OTrunc, ds, r)
			}
			return r
		case ds <= e.sort:
			return c.Un(OTrunc, ds, e)
		case isSigned(src):
			return c.Un(OSExt, ds, e)
		default:
			return c.Un(OZExt, ds, e)
		}
	}
	if isString(dst) {
		switch s := v.(type) {
		case *Str:
			return s
		case Slice:
			et := us.(*types.Slice).Elem()
			if st, _ := sortOf(et); st == 8 {
				return m.sliceToStr(s)
			}
			return m.call(m.ld.model("RunesToString"), []Val{s}, nil, nil)
		case *Expr: // integer to string
			r := m.toI64(s, src)
			if r.IsConst() {
				x := r.Int()
				if x < 0 || x > 0x10ffff {
					x = 0xfffd
				}
				return cstr(string(rune(x)))
			}
			return m.call(m.ld.model("RuneToString"), []Val{r}, nil, nil)
		}
	}
	if sl, ok := ud.(*types.Slice); ok && isString(src) {
		if st, _ := sortOf(sl.Elem()); st == 8 {
			return m.strToSlice(v.(*Str))
		}
		return m.call(m.ld.model("StringToRunes"), []Val{v}, nil, nil)
	}
	switch ud.(type) {
	case *types.Pointer:
		return v // from unsafe.Pointer
	case *types.Basic:
		if ud.(*types.Basic).Kind() == types.UnsafePointer {
			return v
		}
	case *types.Slice, *types.Map, *types.Signature, *types.Struct, *types.Interface:
		return v
	}
	m.unsupported(fmt.Sprintf("convert %v to %v", src, dst))
	return nil
}

func (m *Machine) implements(t types.Type, it *types.Interface, key types.Type) bool {
	k := [2]types.Type{t, key}
	if r, ok := m.implC[k]; ok {
		return r
	}
	r := types.Implements(t, it)
	m.implC[k] = r
	return r
}

func (m *Machine) typeAssert(x *ssa.TypeAssert, v Iface) Val {
	ok := false
	var res Val
	if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		if v.t != nil && m.implements(v.t, it, x.AssertedType) {
			ok = true
			res = v
		} else {
			res = Iface{}
		}
	} else if v.t != nil && m.typeEq(v.t, x.AssertedType) {
		ok = true
		res = copyVal(v.v)
	} else {
		res = nil
	}
	if x.CommaOk {
		if !ok && res == nil {
			res = m.zero(x.AssertedType)
		}
		return Tuple{res, m.ctx.Bool(ok)}
	}
	if !ok {
		have := "nil"
		if v.t != nil {
			have = typeName(v.t)
		}
		m.rtPanic(fmt.Sprintf("interface conversion: interface {} is %s, not %s", have, typeName(x.AssertedType)))
	}
	return res
}

// ---- calls

func (m *Machine) callArgs(fr *frame, in *inst, c *ssa.CallCommon) (Val, []Val) {
	// operands of a call: Value, Args...
	if c.IsInvoke() {
		recv := m.get(fr, &in.ops[0]).(Iface)
		if recv.t == nil {
			m.rtPanic(nilDeref)
		}
		fn := m.method(recv.t, c.Method)
		args := make([]Val, 0, len(c.Args)+1)
		args = append(args, recv.v)
		for j := 1; j < len(in.ops); j++ {
			args = append(args, m.get(fr, &in.ops[j]))
		}
		return fn, args
	}
	f := m.get(fr, &in.ops[0])
	args := make([]Val, len(in.ops)-1)
	for j := range args {
		args[j] = m.get(fr, &in.ops[j+1])
	}
	return f, args
}

func (m *Machine) method(t types.Type, meth *types.Func) *ssa.Function {
	k := methKey{t, meth.Id()}
	if f, ok := m.methC[k]; ok {
		return f
	}
	f := m.ld.lookupMethod(t, meth.Pkg(), meth.Name())
	if f == nil {
		m.unsupported("method " + meth.FullName() + " of " + t.String())
	}
	m.methC[k] = f
	return f
}

func (m *Machine) doCall(fr *frame, in *inst, c *ssa.CallCommon) Val {
	f, args := m.callArgs(fr, in, c)
	if b, ok := f.(*ssa.Builtin); ok {
		return m.builtin(fr, b, args, c)
	}
	for i := range args {
		switch args[i].(type) {
		case Struct, Array:
			args[i] = copyVal(args[i])
		}
	}
	return m.callVal(f, args, fr)
}

func (m *Machine) doDefer(fr *frame, in *inst, x *ssa.Defer) {
	f, args := m.callArgs(fr, in, &x.Call)
	fr.defers = append(fr.defers, func() {
		if b, ok := f.(*ssa.Builtin); ok {
			m.builtin(fr, b, args, &x.Call)
			return
		}
		m.callVal(f, args, fr)
	})
}

func (m *Machine) builtin(fr *frame, b *ssa.Builtin, args []Val, c *ssa.CallCommon) Val {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case *Str:
			return m.ctx.I64(int64(m.slen(x)))
		case Slice:
			return m.ctx.I64(int64(len(m.force(x).a)))
		case *MapV:
			if x == nil {
				return m.ctx.I64(0)
			}
			return m.ctx.I64(int64(x.live))
		case Array:
			return m.ctx.I64(int64(len(x)))
		case Ptr:
			return m.ctx.I64(int64(len((*x).(Array))))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return m.ctx.I64(int64(cap(m.force(x).a)))
		case Array:
			return m.ctx.I64(int64(len(x)))
		case Ptr:
			return m.ctx.I64(int64(len((*x).(Array))))
		}
	case "append":
		var et types.Type
		if sg, ok := b.Type().(*types.Signature); ok {
			if sl, ok := sg.Params().At(0).Type().Underlying().(*types.Slice); ok {
				et = sl.Elem()
			}
		}
		return m.appendVals(args[0].(Slice), args[1], et)
	case "copy":
		d := m.force(args[0].(Slice))
		var src []Val
		switch s := args[1].(type) {
		case *Str:
			bs := m.sbytes(s)
			src = make([]Val, len(bs))
			for i, e := range bs {
				src[i] = e
			}
		case Slice:
			src = m.force(s).a
		}
		n := min(len(d.a), len(src))
		tmp := make([]Val, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		copy(d.a, tmp)
		return m.ctx.I64(int64(n))
	case "delete":
		mp := args[0].(*MapV)
		if mp != nil {
			m.mapDel(mp, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				for len(x.entries) > 0 {
					m.mapDelEntry(x, x.entries[0])
				}
			}
		case Slice:
			x = m.force(x)
			sg := b.Type().(*types.Signature)
			et := sg.Params().At(0).Type().Underlying().(*types.Slice).Elem()
			for i := range x.a {
				x.a[i] = m.zero(et)
			}
		}
		return nil
	case "recover":
		return m.doRecover(fr)
	case "panic":
		panic(targetPanic{v: args[0].(Iface)})
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		t := b.Type().(*types.Signature).Params().At(0).Type()
		for _, a := range args[1:] {
			if s, ok := r.(*Str); ok {
				lt := m.branch(m.sless(a.(*Str), s))
				if lt == (b.Name() == "min") {
					r = a
				}
				continue
			}
			x, y := r.(*Expr), a.(*Expr)
			if x.sort == SFP {
				r = m.fminmax(b.Name() == "min", x, y)
				continue
			}
			lt := m.binop(token.LSS, t, t, y, x).(*Expr)
			if b.Name() == "min" {
				r = m.ctx.Ite(lt, y, x)
			} else {
				r = m.ctx.Ite(lt, x, y)
			}
		}
		return r
	case "ssa:wrapnilchk":
		p, ok := args[0].(Ptr)
		if ok && p == nil {
			m.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "close":
		return nil
	}
	m.unsupported("builtin " + b.Name())
	return nil
}

// fminmax is math.Min/Max: NaN wins, -0 < +0.
func (m *Machine) fminmax(isMin bool, x, y *Expr) *Expr {
	c := m.ctx
	lt := c.Bin(OFLt, y, x)
	if !isMin {
		lt = c.Bin(OFLt, x, y)
	}
	r := c.Ite(lt, y, x)
	// equal zeros of different sign: pick by sign
	z := c.And(c.Bin(OFEq, x, c.Float(0)), c.Bin(OFEq, y, c.Float(0)))
	if !z.IsFalse() {
		negzero := c.Float(math.Copysign(0, -1))
		xneg := c.Eq(x, negzero)
		yneg := c.Eq(y, negzero)
		var zr *Expr
		if isMin {
			zr = c.Ite(c.Or(xneg, yneg), negzero, c.Float(0))
		} else {
			zr = c.Ite(c.And(xneg, yneg), negzero, c.Float(0))
		}
		r = c.Ite(z, zr, r)
	}
	nan := c.Or(c.Un(OFIsNaN, SBool, x), c.Un(OFIsNaN, SBool, y))
	return c.Ite(nan, c.Float(math.NaN()), r)
}

func (m *Machine) appendVals(s Slice, more Val, et types.Type) Slice {
	if s.lz != nil || isLazyArg(more) {
		if isLazyArg(more) && (len(s.a) == 0) || s.lz != nil {
			var ms *Str
			switch x := more.(type) {
			case *Str:
				ms = x
			case Slice:
				if isNilSlice(x) {
					return s
				}
				ms = m.sliceToStr(x)
			}
			if s.lz != nil && s.lz.done {
				// forced already: fall through to ordinary append
			} else {
				return Slice{lz: &LzBytes{str: m.sconcat(m.sliceToStr(s), ms)}}
			}
		}
	}
	s = m.force(s)
	var add []Val
	switch x := more.(type) {
	case *Str:
		for _, e := range m.sbytes(x) {
			add = append(add, e)
		}
	case Slice:
		add = m.force(x).a
	case nil:
		return s
	}
	if len(add) == 0 {
		return s
	}
	n := len(s.a) + len(add)
	m.allocs += int64(len(add))
	if m.allocs > 1<<23 {
		panic(pathEnd{"budget", "appended too much"})
	}
	if n <= cap(s.a) {
		r := s.a[:n]
		tmp := make([]Val, len(add))
		for i, v := range add {
			tmp[i] = copyVal(v)
		}
		copy(r[len(s.a):], tmp)
		return Slice{a: r}
	}
	nc := growCap(cap(s.a), n, m.sizeofType(et))
	r := make([]Val, n, nc)
	copy(r, s.a)
	for i, v := range add {
		r[len(s.a)+i] = copyVal(v)
	}
	if nc > n && et != nil {
		full := r[:nc]
		z := m.zero(et)
		for i := n; i < nc; i++ {
			full[i] = copyVal(z)
		}
	}
	return Slice{a: r}
}

func isLazyArg(v Val) bool {
	switch x := v.(type) {
	case *Str:
		return x.parts != nil
	case Slice:
		return x.lz != nil && !x.lz.done && x.lz.str.parts != nil
	}
	return false
}

var stdSizes = types.SizesFor("gc", "amd64")

func (m *Machine) sizeofType(t types.Type) int {
	if t == nil {
		return 16
	}
	defer func() { recover() }()
	return int(stdSizes.Sizeof(t))
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

// growCap follows runtime.growslice.
func growCap(oldCap, newLen, es int) int {
	nc := oldCap
	dbl := nc + nc
	if newLen > dbl {
		nc = newLen
	} else if oldCap < 256 {
		nc = dbl
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	if es == 0 {
		return newLen
	}
	mem := nc * es
	if mem <= 32768 {
		for _, c := range sizeClasses {
			if c >= mem {
				return c / es
			}
		}
	}
	page := 8192
	mem = (mem + page - 1) / page * page
	return mem / es
}
