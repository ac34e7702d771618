package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// JNode is a JSON value. kind: n t f s d a o, b = symbolic boolean
type JNode struct {
	kind   byte
	str    *Str // string value or number literal
	num    *NumText
	b      *Expr
	arr    []*JNode
	keys   []*Str
	isMap  bool // keys still unsorted
	prefix string
	indent string
	pretty bool
	raw    bool
}

func jsonMarshalFloat(f float64) (string, error) {
	b, err := json.Marshal(f)
	return string(b), err
}

func (m *Machine) isASCII(s *Str) bool {
	m.forceStr(s)
	for _, b := range m.sbytes(s) {
		if _, hi := urange(b); hi >= 0x80 {
			return false
		}
	}
	return true
}

func (m *Machine) coerce(s *Str) *Str {
	for _, p := range s.parts {
		if p.num == nil && p.opq == "" {
			m.forceStr(s)
			break
		}
	}
	if s.parts != nil {
		return s
	}
	if m.isASCII(s) {
		return s
	}
	if s.conc {
		return cstr(toValidEach(s.s))
	}
	return m.call(m.ld.model("Coerce"), []Val{s}, nil, nil).(*Str)
}

type jsonErr struct{ msg string }

// toNode converts a Go value to a JSON tree.
func (m *Machine) toNode(t types.Type, v Val, depth int) *JNode {
	if depth > 2500 {
		panic(jsonErr{"json: unsupported value: encountered a cycle"})
	}
	if n, ok := m.marshalerNode(t, v); ok {
		return n
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		f := v.(Iface)
		if f.t == nil {
			return &JNode{kind: 'n'}
		}
		return m.toNode(f.t, f.v, depth+1)
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			if m.ld.numberT != nil && m.typeEq(t, m.ld.numberT) {
				s := v.(*Str)
				if n := m.numOf(s); n != nil {
					return &JNode{kind: 'd', num: n}
				}
				if s.conc && s.s == "" {
					return &JNode{kind: 'd', str: cstr("0")}
				}
				return &JNode{kind: 'd', str: s}
			}
			return &JNode{kind: 's', str: m.coerce(v.(*Str))}
		}
		e := v.(*Expr)
		switch {
		case e.sort == SBool:
			return &JNode{kind: 'b', b: e}
		case e.sort == SFP:
			bad := m.ctx.Or(m.ctx.Un(OFIsNaN, SBool, e), m.ctx.Un(OFIsInf, SBool, e))
			if m.branch(bad) {
				panic(jsonErr{"json: unsupported value: NaN or Inf"})
			}
			return &JNode{kind: 'd', num: &NumText{kind: 'e', e: e}}
		case isSigned(t):
			return &JNode{kind: 'd', num: &NumText{kind: 'i', e: m.toI64(e, t)}}
		default:
			return &JNode{kind: 'd', num: &NumText{kind: 'u', e: m.toI64(e, t)}}
		}
	case *types.Pointer:
		p := v.(Ptr)
		if p == nil {
			return &JNode{kind: 'n'}
		}
		return m.toNode(u.Elem(), *p, depth+1)
	case *types.Map:
		mp := v.(*MapV)
		if mp == nil {
			return &JNode{kind: 'n'}
		}
		n := &JNode{kind: 'o', isMap: true}
		for _, e := range mp.entries {
			var k *Str
			switch kk := e.k.(type) {
			case *Str:
				k = m.coerce(kk)
			case *Expr:
				if isSigned(u.Key()) {
					k = m.numStr('i', m.toI64(kk, u.Key()))
				} else {
					k = m.numStr('u', m.toI64(kk, u.Key()))
				}
			default:
				m.unsupported("json map key")
			}
			n.keys = append(n.keys, k)
			n.arr = append(n.arr, m.toNode(u.Elem(), *e.v, depth+1))
		}
		return n
	case *types.Slice:
		s := v.(Slice)
		if isNilSlice(s) {
			return &JNode{kind: 'n'}
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			m.unsupported("json of []byte")
		}
		n := &JNode{kind: 'a'}
		for _, e := range m.force(s).a {
			n.arr = append(n.arr, m.toNode(u.Elem(), e, depth+1))
		}
		return n
	case *types.Array:
		n := &JNode{kind: 'a'}
		for _, e := range v.(Array) {
			n.arr = append(n.arr, m.toNode(u.Elem(), e, depth+1))
		}
		return n
	case *types.Struct:
		n := &JNode{kind: 'o'}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			name, omit, str, skip := fieldTag(u, i)
			if skip {
				continue
			}
			if f.Embedded() && reflect.StructTag(u.Tag(i)).Get("json") == "" {
				m.unsupported("json of embedded struct")
			}
			fv := v.(Struct)[i]
			if omit && m.isEmptyJSON(f.Type(), fv) {
				continue
			}
			c := m.toNode(f.Type(), fv, depth+1)
			if str {
				m.unsupported("json ,string option")
			}
			n.keys = append(n.keys, cstr(name))
			n.arr = append(n.arr, c)
		}
		return n
	}
	panic(jsonErr{"json: unsupported type: " + typeName(t)})
}

func fieldTag(u *types.Struct, i int) (name string, omit, str, skip bool) {
	f := u.Field(i)
	if !f.Exported() {
		return "", false, false, true
	}
	tag := reflect.StructTag(u.Tag(i)).Get("json")
	if tag == "-" {
		return "", false, false, true
	}
	ps := strings.Split(tag, ",")
	name = ps[0]
	if name == "" {
		name = f.Name()
	}
	for _, o := range ps[1:] {
		if o == "omitempty" {
			omit = true
		}
		if o == "string" {
			str = true
		}
	}
	return
}

func (m *Machine) isEmptyJSON(t types.Type, v Val) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch x := v.(type) {
		case *Str:
			return m.slen(x) == 0
		case *Expr:
			if x.sort == SFP {
				return m.branch(m.ctx.Bin(OFEq, x, m.ctx.Float(0)))
			}
			return m.branch(m.ctx.Eq(x, m.ctx.Const(x.sort, 0)))
		}
	case *types.Interface:
		return v.(Iface).t == nil
	case *types.Pointer:
		return v.(Ptr) == nil
	case *types.Map:
		mp := v.(*MapV)
		return mp == nil || mp.live == 0
	case *types.Slice:
		return len(m.force(v.(Slice)).a) == 0
	case *types.Array:
		return u.Len() == 0
	}
	return false
}

func (m *Machine) marshalerNode(t types.Type, v Val) (*JNode, bool) {
	if _, ok := t.(*types.Named); !ok {
		if p, ok := t.(*types.Pointer); !ok {
			return nil, false
		} else if _, ok := p.Elem().(*types.Named); !ok {
			return nil, false
		}
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return nil, false
	}
	for _, name := range []string{"MarshalJSON", "MarshalText"} {
		f := m.ld.lookupMethod(t, nil, name)
		if f == nil || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 2 {
			continue
		}
		r, ok := m.call(f, []Val{v}, nil, nil).(Tuple)
		if !ok {
			continue
		}
		if e := r[1].(Iface); e.t != nil {
			panic(jsonErr{"json: error calling " + name})
		}
		s := m.sliceToStr(r[0].(Slice))
		if name == "MarshalText" {
			return &JNode{kind: 's', str: m.coerce(s)}, true
		}
		n, err := m.parseJSON(s)
		if err != "" {
			panic(jsonErr{"json: error calling MarshalJSON: " + err})
		}
		return n, true
	}
	return nil, false
}

// parseJSON parses a text to a tree.
func (m *Machine) parseJSON(s *Str) (*JNode, string) {
	if len(s.parts) == 1 && s.parts[0].js != nil {
		return s.parts[0].js, ""
	}
	r := m.call(m.ld.model("JSONParse"), []Val{s}, nil, nil).(Tuple)
	es := r[1].(*Str)
	if m.slen(es) > 0 {
		return nil, m.strDesc(es)
	}
	return m.fromJN(r[0].(Ptr)), ""
}

func (m *Machine) fromJN(p Ptr) *JNode {
	st := (*p).(Struct)
	n := &JNode{kind: byte(st[0].(*Expr).val)}
	switch n.kind {
	case 's':
		n.str = st[1].(*Str)
	case 'd':
		n.str = st[1].(*Str)
		if x := m.numOf(n.str); x != nil {
			n.num = x
		}
	case 't', 'f':
		n.b = m.ctx.Bool(n.kind == 't')
		n.kind = 'b'
	case 'a', 'o':
		for _, c := range m.force(st[2].(Slice)).a {
			n.arr = append(n.arr, m.fromJN(c.(Ptr)))
		}
		for _, k := range m.force(st[3].(Slice)).a {
			n.keys = append(n.keys, k.(*Str))
		}
	}
	return n
}

func (m *Machine) jsonText(n *JNode) *Str {
	return m.jtext(n, n.prefix, n.indent, n.pretty)
}

func (m *Machine) jtext(n *JNode, prefix, indent string, pretty bool) *Str {
	switch n.kind {
	case 'n':
		return cstr("null")
	case 'b':
		if m.branch(n.b) {
			return cstr("true")
		}
		return cstr("false")
	case 'd':
		if n.num != nil {
			return m.numText(n.num)
		}
		return n.str
	case 's':
		return m.jquote(n.str)
	}
	if n.isMap {
		m.sortKeys(n)
	}
	op, cl := "{", "}"
	if n.kind == 'a' {
		op, cl = "[", "]"
	}
	if len(n.arr) == 0 {
		return cstr(op + cl)
	}
	var ps []*Str
	ps = append(ps, cstr(op))
	for i, c := range n.arr {
		if i > 0 {
			ps = append(ps, cstr(","))
		}
		if pretty {
			ps = append(ps, cstr("\n"+prefix+indent))
		}
		if n.kind == 'o' {
			ps = append(ps, m.jquote(n.keys[i]))
			if pretty {
				ps = append(ps, cstr(": "))
			} else {
				ps = append(ps, cstr(":"))
			}
		}
		ps = append(ps, m.jtext(c, prefix+indent, indent, pretty))
	}
	if pretty {
		ps = append(ps, cstr("\n"+prefix))
	}
	ps = append(ps, cstr(cl))
	return m.sconcat(ps...)
}

func (m *Machine) sortKeys(n *JNode) {
	n.isMap = false
	ks := append([]*Str{}, n.keys...)
	as := append([]*JNode{}, n.arr...)
	for i := 1; i < len(ks); i++ {
		for j := i; j > 0 && m.branch(m.sless(ks[j], ks[j-1])); j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
			as[j], as[j-1] = as[j-1], as[j]
		}
	}
	n.keys, n.arr = ks, as
}

func (m *Machine) jquote(s *Str) *Str {
	m.forceStr(s)
	if s.conc {
		b, _ := json.Marshal(s.s)
		return cstr(string(b))
	}
	return m.call(m.ld.model("JSONQuote"), []Val{s}, nil, nil).(*Str)
}

// ---- decoding

// decode stores n into the variable of type t at p.
func (m *Machine) decode(n *JNode, t types.Type, p Ptr, useNumber bool) {
	if named, ok := t.(*types.Named); ok {
		if _, isI := named.Underlying().(*types.Interface); !isI {
			if f := m.ld.lookupMethod(types.NewPointer(t), nil, "UnmarshalJSON"); f != nil {
				s := &Str{parts: []part{{js: n}}}
				r := m.call(f, []Val{p, m.strToSlice(s)}, nil, nil)
				if e, ok := r.(Iface); ok && e.t != nil {
					panic(jsonErr{m.describe(e)})
				}
				return
			}
		}
	}
	fail := func(what string) {
		panic(jsonErr{"json: cannot unmarshal " + what + " into Go value of type " + typeName(t)})
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if u.NumMethods() != 0 {
			if n.kind == 'n' {
				*p = Iface{}
				return
			}
			fail(jkind(n))
		}
		if cur, ok := (*p).(Iface); ok && cur.t != nil {
			if pt, ok := cur.t.(*types.Pointer); ok && n.kind != 'n' {
				if pp, ok := cur.v.(Ptr); ok && pp != nil {
					m.decode(n, pt.Elem(), pp, useNumber)
					return
				}
			}
		}
		*p = m.toAny(n, useNumber)
		return
	case *types.Pointer:
		if n.kind == 'n' {
			*p = Ptr(nil)
			return
		}
		q, _ := (*p).(Ptr)
		if q == nil {
			q = new(Val)
			*q = m.zero(u.Elem())
			*p = q
		}
		m.decode(n, u.Elem(), q, useNumber)
		return
	}
	if n.kind == 'n' {
		switch t.Underlying().(type) {
		case *types.Map, *types.Slice:
			*p = m.zero(t)
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if m.ld.numberT != nil && m.typeEq(t, m.ld.numberT) && n.kind == 'd' {
				*p = m.litStr(n)
				return
			}
			if n.kind != 's' {
				fail(jkind(n))
			}
			*p = n.str
		case u.Info()&types.IsBoolean != 0:
			if n.kind != 'b' {
				fail(jkind(n))
			}
			*p = n.b
		case u.Info()&types.IsFloat != 0:
			if n.kind != 'd' {
				fail(jkind(n))
			}
			*p = m.nodeFloat(n, t)
		case u.Info()&types.IsInteger != 0:
			if n.kind != 'd' {
				fail(jkind(n))
			}
			*p = m.nodeInt(n, t)
		}
	case *types.Map:
		if n.kind != 'o' {
			fail(jkind(n))
		}
		mp, _ := (*p).(*MapV)
		if mp == nil {
			mp = m.newMap(t)
			*p = mp
		}
		if !isString(u.Key()) {
			m.unsupported("json decode into map with non-string keys")
		}
		for i, k := range n.keys {
			c := new(Val)
			*c = m.zero(u.Elem())
			m.decode(n.arr[i], u.Elem(), c, useNumber)
			m.mapSet(mp, k, *c)
		}
	case *types.Slice:
		if n.kind != 'a' {
			fail(jkind(n))
		}
		a := make([]Val, len(n.arr))
		for i := range a {
			c := new(Val)
			*c = m.zero(u.Elem())
			m.decode(n.arr[i], u.Elem(), c, useNumber)
			a[i] = *c
		}
		*p = Slice{a: a}
	case *types.Struct:
		if n.kind != 'o' {
			fail(jkind(n))
		}
		st := (*p).(Struct)
		for i, k := range n.keys {
			fi := -1
			for j := 0; j < u.NumFields(); j++ {
				name, _, _, skip := fieldTag(u, j)
				if !skip && m.branch(m.seq(k, cstr(name))) {
					fi = j
					break
				}
			}
			if fi < 0 && k.conc {
				for j := 0; j < u.NumFields(); j++ {
					name, _, _, skip := fieldTag(u, j)
					if !skip && strings.EqualFold(name, k.s) {
						fi = j
						break
					}
				}
			}
			if fi >= 0 {
				m.decode(n.arr[i], u.Field(fi).Type(), &st[fi], useNumber)
			}
		}
	default:
		m.unsupported("json decode into " + t.String())
	}
}

func jkind(n *JNode) string {
	switch n.kind {
	case 's':
		return "string"
	case 'd':
		return "number"
	case 'b':
		return "bool"
	case 'a':
		return "array"
	case 'o':
		return "object"
	}
	return "null"
}

func (m *Machine) litStr(n *JNode) *Str {
	if n.num != nil {
		if n.num.e.IsConst() {
			return cstr(constNum(n.num.kind, n.num.e.val))
		}
		return &Str{parts: []part{{num: n.num}}}
	}
	return n.str
}

func (m *Machine) nodeFloat(n *JNode, t types.Type) *Expr {
	v, ok, rng := m.parseFloat(m.litStr(n))
	if !ok || rng {
		panic(jsonErr{"json: cannot unmarshal number into Go value of type " + typeName(t)})
	}
	return v
}

func (m *Machine) nodeInt(n *JNode, t types.Type) *Expr {
	s, _ := sortOf(t)
	bad := func() {
		panic(jsonErr{"json: cannot unmarshal number into Go value of type " + typeName(t)})
	}
	if n.num != nil && s == 64 {
		switch n.num.kind {
		case 'i':
			if isSigned(t) {
				return n.num.e
			}
			if m.branch(m.ctx.Bin(OSlt, n.num.e, m.ctx.I64(0))) {
				bad()
			}
			return n.num.e
		case 'u':
			if !isSigned(t) {
				return n.num.e
			}
			if m.branch(m.ctx.Bin(OSlt, n.num.e, m.ctx.I64(0))) {
				bad()
			}
			return n.num.e
		case 'e', 'f':
			e := n.num.e
			c := m.ctx
			lim := 9223372036854775808.0
			isInt := c.And(c.Bin(OFEq, e, c.Un(OFTrunc, SFP, e)), c.And(c.Bin(OFLt, e, c.Float(lim)), c.Bin(OFLe, c.Float(-lim), e)))
			if n.num.kind == 'f' {
				isInt = c.And(isInt, c.And(c.Bin(OFLt, e, c.Float(1e6)), c.Bin(OFLt, c.Float(-1e6), e)))
			}
			if !m.branch(isInt) {
				bad()
			}
			if !isSigned(t) && m.branch(c.Bin(OFLt, e, c.Float(0))) {
				bad()
			}
			return c.Un(OFToS, 64, e)
		}
	}
	v, ok := m.parseInt(m.litStr(n), int(s), isSigned(t))
	if !ok {
		bad()
	}
	return v
}

func (m *Machine) toAny(n *JNode, useNumber bool) Val {
	switch n.kind {
	case 'n':
		return Iface{}
	case 'b':
		return Iface{t: m.ld.boolT, v: n.b}
	case 's':
		return Iface{t: m.ld.strT, v: n.str}
	case 'd':
		if useNumber {
			return Iface{t: m.ld.numberT, v: m.litStr(n)}
		}
		return Iface{t: m.ld.f64T, v: m.nodeFloat(n, m.ld.f64T)}
	case 'a':
		a := make([]Val, len(n.arr))
		for i, c := range n.arr {
			a[i] = m.toAny(c, useNumber)
		}
		return Iface{t: m.ld.sliceA, v: Slice{a: a}}
	case 'o':
		mp := m.newMap(m.ld.mapSA)
		for i, k := range n.keys {
			m.mapSet(mp, k, m.toAny(n.arr[i], useNumber))
		}
		return Iface{t: m.ld.mapSA, v: mp}
	}
	panic("toAny")
}

func (m *Machine) jsonGuard(f func()) (err Iface) {
	defer func() {
		if r := recover(); r != nil {
			if je, ok := r.(jsonErr); ok {
				err = m.mkErr(cstr(je.msg))
				return
			}
			panic(r)
		}
	}()
	f()
	return Iface{}
}

func jsonMarshal(m *Machine, fr *frame, fn *ssa.Function, args []Val) Val {
	var out Slice
	err := m.jsonGuard(func() {
		f := args[0].(Iface)
		n := m.toNode(m.ld.anyT, f, 0)
		out = m.nodeBytes(n)
	})
	if err.t != nil {
		return Tuple{Slice{}, err}
	}
	return Tuple{out, err}
}

func (m *Machine) nodeBytes(n *JNode) Slice {
	return Slice{lz: &LzBytes{str: &Str{parts: []part{{js: n}}}}}
}

func jsonMarshalIndent(m *Machine, fr *frame, fn *ssa.Function, args []Val) Val {
	var out Slice
	err := m.jsonGuard(func() {
		n := m.toNode(m.ld.anyT, args[0].(Iface), 0)
		p, i := args[1].(*Str), args[2].(*Str)
		if !p.conc || !i.conc {
			m.unsupported("symbolic indent")
		}
		c := *n
		c.prefix, c.indent, c.pretty = p.s, i.s, true
		out = m.nodeBytes(&c)
	})
	if err.t != nil {
		return Tuple{Slice{}, err}
	}
	return Tuple{out, err}
}

func jsonUnmarshal(m *Machine, fr *frame, fn *ssa.Function, args []Val) Val {
	s := m.sliceToStr(args[0].(Slice))
	return m.unmarshalStr(s, args[1].(Iface), false)
}

func (m *Machine) unmarshalStr(s *Str, dst Iface, useNumber bool) Val {
	return m.jsonGuard(func() {
		n, e := m.parseJSON(s)
		if e != "" {
			panic(jsonErr{e})
		}
		pt, ok := dst.t.(*types.Pointer)
		if !ok || dst.v.(Ptr) == nil {
			panic(jsonErr{"json: Unmarshal(non-pointer or nil)"})
		}
		m.decode(n, pt.Elem(), dst.v.(Ptr), useNumber)
	})
}

var _ = fmt.Sprint
var _ = math.Pi

func toValidEach(s string) string {
	var b strings.Builder
	for _, r := range s {
		b.WriteRune(r)
	}
	return b.String()
}
