package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val = any

type (
	Struct []Val
	Array  []Val
	Tuple  []Val
	Ptr    = *Val
)

// SymPtr is the address of an element chosen by a symbolic index.
type SymPtr struct {
	a   []Val
	idx *Expr
}

// Slice is a Go slice; lz is set while its bytes are not materialised.
type Slice struct {
	a  []Val
	lz *LzBytes
}

type LzBytes struct {
	str    *Str
	forced []Val
	done   bool
}

type Iface struct {
	t types.Type
	v Val
}

type Closure struct {
	fn   *ssa.Function
	free []Val
}

// nativeFn is a function value implemented by the engine.
type nativeFn struct {
	name string
	f    func(m *Machine, args []Val) Val
}

type mapEntry struct {
	k    Val
	v    *Val
	dead bool
}

type MapV struct {
	kt      types.Type
	entries []*mapEntry
	live    int
	conc    map[string]*mapEntry // concrete string keys
	symKeys int                  // live entries with symbolic keys
	rot     int                  // per-object rotation once chosen (-1: none)
}

type mapIter struct {
	m    *MapV
	list []*mapEntry
	i    int
}
type strIter struct {
	s   *Str
	pos int
}

// ---- strings

type Str struct {
	conc  bool
	s     string
	b     []*Expr
	parts []part // lazy
}

type part struct {
	str *Str // materialised string
	num *NumText
	js  *JNode
	opq string // opaque text that must not be inspected
	fx  *lazyText
}

// lazyText is a text that is only worked out when it is looked at.
type lazyText struct {
	f func() *Str
	s *Str
}

// NumText is the text of a symbolic number.
type NumText struct {
	kind byte // 'i' int64, 'u' uint64, 'f' float64 with %v rules, 'e' float64 JSON rules, '.' %.f
	e    *Expr
}

func cstr(s string) *Str { return &Str{conc: true, s: s} }

func (m *Machine) bstr(b []*Expr) *Str {
	for _, e := range b {
		if !e.IsConst() {
			return &Str{b: b}
		}
	}
	bs := make([]byte, len(b))
	for i, e := range b {
		bs[i] = byte(e.val)
	}
	return cstr(string(bs))
}

func (m *Machine) forceStr(s *Str) {
	if s.parts == nil {
		return
	}
	ps := s.parts
	var out []*Expr
	for _, p := range ps {
		switch {
		case p.str != nil:
			out = append(out, m.sbytes(p.str)...)
		case p.num != nil:
			out = append(out, m.sbytes(m.numText(p.num))...)
		case p.js != nil:
			out = append(out, m.sbytes(m.jsonText(p.js))...)
		case p.fx != nil:
			if p.fx.s == nil {
				p.fx.s = p.fx.f()
			}
			out = append(out, m.sbytes(p.fx.s)...)
		default:
			m.unsupported("inspection of opaque text: " + p.opq)
		}
	}
	r := m.bstr(out)
	s.conc, s.s, s.b = r.conc, r.s, r.b
	s.parts = nil
}

func (m *Machine) sbytes(s *Str) []*Expr {
	m.forceStr(s)
	if s.conc {
		if s.b == nil && len(s.s) > 0 {
			b := make([]*Expr, len(s.s))
			for i := 0; i < len(s.s); i++ {
				b[i] = m.ctx.Const(8, uint64(s.s[i]))
			}
			s.b = b
		}
		return s.b
	}
	return s.b
}

func (m *Machine) slen(s *Str) int {
	m.forceStr(s)
	if s.conc {
		return len(s.s)
	}
	return len(s.b)
}

func (m *Machine) ssub(s *Str, lo, hi int) *Str {
	m.forceStr(s)
	if s.conc {
		return cstr(s.s[lo:hi])
	}
	return m.bstr(s.b[lo:hi:hi])
}

func (m *Machine) sconcat(ss ...*Str) *Str {
	lazy := false
	conc := true
	n := 0
	for _, s := range ss {
		if s.parts != nil {
			lazy = true
		}
		if !s.conc || s.parts != nil {
			conc = false
		}
	}
	if lazy {
		r := &Str{}
		for _, s := range ss {
			if s.parts != nil {
				r.parts = append(r.parts, s.parts...)
			} else if !(s.conc && s.s == "") {
				r.parts = append(r.parts, part{str: s})
			}
		}
		return r
	}
	if conc {
		var sb strings.Builder
		for _, s := range ss {
			sb.WriteString(s.s)
		}
		return cstr(sb.String())
	}
	for _, s := range ss {
		n += m.slen(s)
	}
	b := make([]*Expr, 0, n)
	for _, s := range ss {
		b = append(b, m.sbytes(s)...)
	}
	return m.bstr(b)
}

func (m *Machine) seq(a, b *Str) *Expr {
	if a == b {
		return m.ctx.tru
	}
	if len(a.parts) == 1 && len(b.parts) == 1 && a.parts[0].num != nil && b.parts[0].num != nil &&
		a.parts[0].num.kind == b.parts[0].num.kind && a.parts[0].num.kind != '.' {
		x, y := a.parts[0].num.e, b.parts[0].num.e
		return m.ctx.Eq(x, y)
	}
	m.forceStr(a)
	m.forceStr(b)
	if a.conc && b.conc {
		return m.ctx.Bool(a.s == b.s)
	}
	if m.slen(a) != m.slen(b) {
		return m.ctx.fls
	}
	x, y := m.sbytes(a), m.sbytes(b)
	r := m.ctx.tru
	for i := range x {
		r = m.ctx.And(r, m.ctx.Eq(x[i], y[i]))
		if r.IsFalse() {
			return r
		}
	}
	return r
}

func (m *Machine) sless(a, b *Str) *Expr {
	m.forceStr(a)
	m.forceStr(b)
	if a.conc && b.conc {
		return m.ctx.Bool(a.s < b.s)
	}
	x, y := m.sbytes(a), m.sbytes(b)
	n := min(len(x), len(y))
	r := m.ctx.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = m.ctx.Or(m.ctx.Bin(OUlt, x[i], y[i]), m.ctx.And(m.ctx.Eq(x[i], y[i]), r))
	}
	return r
}

// ---- slices

func (m *Machine) force(s Slice) Slice {
	if s.lz == nil {
		return s
	}
	if !s.lz.done {
		b := m.sbytes(s.lz.str)
		v := make([]Val, len(b))
		for i, e := range b {
			v[i] = e
		}
		s.lz.forced = v
		s.lz.done = true
	}
	return Slice{a: s.lz.forced}
}

func (m *Machine) sliceToStr(s Slice) *Str {
	if s.lz != nil && !s.lz.done {
		return s.lz.str
	}
	s = m.force(s)
	b := make([]*Expr, len(s.a))
	for i, v := range s.a {
		b[i] = v.(*Expr)
	}
	return m.bstr(b)
}

func (m *Machine) strToSlice(s *Str) Slice {
	if s.parts != nil {
		return Slice{lz: &LzBytes{str: s}}
	}
	b := m.sbytes(s)
	v := make([]Val, len(b))
	for i, e := range b {
		v[i] = e
	}
	return Slice{a: v}
}

// ---- types

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func sortOf(t types.Type) (Sort, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return SBool, true
	case types.Int8, types.Uint8:
		return 8, true
	case types.Int16, types.Uint16:
		return 16, true
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32, true
	case types.Int, types.Int64, types.Uint, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64, true
	case types.Float32, types.Float64, types.UntypedFloat:
		return SFP, true
	}
	return 0, false
}

func (m *Machine) zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return emptyStr
		}
		if s, ok := sortOf(t); ok {
			return m.ctx.Const(s, 0)
		}
		if u.Kind() == types.UnsafePointer {
			return Ptr(nil)
		}
		if u.Kind() == types.UntypedNil {
			return Ptr(nil)
		}
	case *types.Pointer:
		return Ptr(nil)
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return (*MapV)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Chan:
		return nil
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = m.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, u.Len())
		for i := range a {
			a[i] = m.zero(u.Elem())
		}
		return a
	case *types.Tuple:
		if u.Len() == 1 {
			return m.zero(u.At(0).Type())
		}
		s := make(Tuple, u.Len())
		for i := range s {
			s[i] = m.zero(u.At(i).Type())
		}
		return s
	}
	m.unsupported(fmt.Sprintf("zero of %v", t))
	return nil
}

var emptyStr = cstr("")

func copyVal(v Val) Val {
	switch x := v.(type) {
	case Struct:
		r := make(Struct, len(x))
		for i, e := range x {
			r[i] = copyVal(e)
		}
		return r
	case Array:
		r := make(Array, len(x))
		for i, e := range x {
			r[i] = copyVal(e)
		}
		return r
	}
	return v
}

// storeTo assigns v to *p, in place for aggregates.
func storeTo(p Ptr, v Val) {
	switch x := v.(type) {
	case Struct:
		l, ok := (*p).(Struct)
		if !ok || len(l) != len(x) {
			*p = copyVal(v)
			return
		}
		for i := range x {
			storeTo(&l[i], x[i])
		}
	case Array:
		l, ok := (*p).(Array)
		if !ok || len(l) != len(x) {
			*p = copyVal(v)
			return
		}
		for i := range x {
			storeTo(&l[i], x[i])
		}
	default:
		*p = v
	}
}

// ---- equality

func (m *Machine) typeEq(a, b types.Type) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	return types.Identical(a, b)
}

// eq is Go's == at type t.
func (m *Machine) eq(t types.Type, x, y Val) *Expr {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return m.seq(x.(*Str), y.(*Str))
		}
		if u.Info()&types.IsFloat != 0 {
			return m.ctx.Bin(OFEq, x.(*Expr), y.(*Expr))
		}
		if xe, ok := x.(*Expr); ok {
			return m.ctx.Eq(xe, y.(*Expr))
		}
		return m.ctx.Bool(x == y)
	case *types.Pointer:
		return m.ctx.Bool(x == y)
	case *types.Interface:
		return m.ifaceEq(x, y)
	case *types.Struct:
		r := m.ctx.tru
		xs, ys := x.(Struct), y.(Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = m.ctx.And(r, m.eq(u.Field(i).Type(), xs[i], ys[i]))
		}
		return r
	case *types.Array:
		r := m.ctx.tru
		xs, ys := x.(Array), y.(Array)
		for i := range xs {
			r = m.ctx.And(r, m.eq(u.Elem(), xs[i], ys[i]))
		}
		return r
	case *types.Chan:
		return m.ctx.Bool(x == y)
	case *types.Slice:
		// only comparison with nil
		return m.ctx.Bool(isNilSlice(x.(Slice)) && isNilSlice(y.(Slice)))
	case *types.Map:
		return m.ctx.Bool(x.(*MapV) == y.(*MapV))
	case *types.Signature:
		return m.ctx.Bool(isNilFn(x) && isNilFn(y))
	}
	m.unsupported(fmt.Sprintf("eq at %v", t))
	return nil
}

func isNilSlice(s Slice) bool { return s.a == nil && s.lz == nil }
func isNilFn(v Val) bool {
	f, ok := v.(*ssa.Function)
	return ok && f == nil
}

func (m *Machine) ifaceEq(x, y Val) *Expr {
	a, ok1 := x.(Iface)
	b, ok2 := y.(Iface)
	if !ok1 || !ok2 {
		m.unsupported("ifaceEq on non-interfaces")
	}
	if a.t == nil || b.t == nil {
		return m.ctx.Bool(a.t == nil && b.t == nil)
	}
	if !m.typeEq(a.t, b.t) {
		return m.ctx.fls
	}
	if !types.Comparable(a.t) {
		m.rtPanic("runtime error: comparing uncomparable type " + typeName(a.t))
	}
	return m.eq(a.t, a.v, b.v)
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// ---- maps

func (m *Machine) newMap(t types.Type) *MapV {
	return &MapV{kt: t.Underlying().(*types.Map).Key(), conc: map[string]*mapEntry{}, rot: -1}
}

func concKey(k Val) (string, bool) {
	switch x := k.(type) {
	case *Str:
		if x.parts == nil && x.conc {
			return "s" + x.s, true
		}
	case *Expr:
		if x.IsConst() && x.sort != SFP {
			return fmt.Sprintf("i%d", x.val), true
		}
	case Iface:
		if x.t == nil {
			return "n", true
		}
		if c, ok := concKey(x.v); ok {
			return "f" + x.t.String() + ":" + c, true
		}
	}
	return "", false
}

func (m *Machine) mapFind(mp *MapV, k Val) *mapEntry {
	if mp == nil {
		return nil
	}
	if s, ok := k.(*Str); ok {
		m.forceStr(s)
	}
	if f, ok := k.(Iface); ok && f.t != nil {
		if s, ok := f.v.(*Str); ok {
			m.forceStr(s)
		}
		if !types.Comparable(f.t) {
			m.rtPanic("runtime error: hash of unhashable type " + typeName(f.t))
		}
	}
	if ck, ok := concKey(k); ok {
		if e := mp.conc[ck]; e != nil {
			return e
		}
		if mp.symKeys == 0 {
			return nil
		}
	}
	for _, e := range mp.entries {
		if e.dead {
			continue
		}
		c := m.eq(mp.kt, e.k, k)
		if m.branch(c) {
			return e
		}
	}
	return nil
}

func (m *Machine) mapSet(mp *MapV, k, v Val) {
	if mp == nil {
		m.rtPanic("assignment to entry in nil map")
	}
	if e := m.mapFind(mp, k); e != nil {
		*e.v = v
		return
	}
	e := &mapEntry{k: k, v: new(Val)}
	*e.v = v
	mp.entries = append(mp.entries, e)
	mp.live++
	if ck, ok := concKey(k); ok {
		mp.conc[ck] = e
	} else {
		mp.symKeys++
	}
}

func (m *Machine) mapDel(mp *MapV, k Val) {
	e := m.mapFind(mp, k)
	if e == nil {
		return
	}
	m.mapDelEntry(mp, e)
}

func (m *Machine) mapDelEntry(mp *MapV, e *mapEntry) {
	e.dead = true
	mp.live--
	if ck, ok := concKey(e.k); ok {
		delete(mp.conc, ck)
	} else {
		mp.symKeys--
	}
	n := mp.entries[:0:0]
	for _, x := range mp.entries {
		if x != e {
			n = append(n, x)
		}
	}
	mp.entries = n
}

func (m *Machine) mapRange(mp *MapV) *mapIter {
	it := &mapIter{m: mp}
	if mp == nil {
		return it
	}
	n := len(mp.entries)
	it.list = append(it.list, mp.entries...)
	if n > 1 && m.initDepth == 0 {
		m.ordered = true
		switch m.orderMode {
		case "rot":
			m.rotate(it, m.choose(n, "maporder"))
		case "obj":
			if mp.rot < 0 {
				mp.rot = m.choose(n, "maporder")
			}
			m.rotate(it, mp.rot%n)
		case "rev":
			if m.revMode < 0 {
				m.revMode = m.choose(2, "maporder")
			}
			if m.revMode == 1 {
				for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
					it.list[i], it.list[j] = it.list[j], it.list[i]
				}
			}
		case "perm":
			for i := 0; i < n-1; i++ {
				j := i + m.choose(n-i, "maporder")
				it.list[i], it.list[j] = it.list[j], it.list[i]
			}
		}
	}
	return it
}

func (m *Machine) rotate(it *mapIter, k int) {
	n := len(it.list)
	l := make([]*mapEntry, 0, n)
	l = append(l, it.list[k:]...)
	l = append(l, it.list[:k]...)
	it.list = l
}
