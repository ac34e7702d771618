package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]intrinsic{}

// packages whose initialisers are not executed (tables and state the engine models itself)
var skipInit = map[string]bool{
	"runtime": true, "reflect": true, "fmt": true, "os": true, "sync": true, "encoding/json": true,
	"internal/poll": true, "syscall": true, "internal/godebug": true, "net": true, "net/http": true, "math/rand": true,
	"internal/cpu": true, "internal/bytealg": true, "log": true, "unsafe": true, "math/rand/v2": true,
	"github.com/davecgh/go-spew/spew": true, "github.com/schollz/progressbar/v3": true, "testing": true, "flag": true,
}

// packages that only show something to a person: their functions do nothing and return zero values
var quietPkgs = map[string]bool{"internal/godebug": true, "github.com/schollz/progressbar/v3": true}

func zz(name string) string { return zzPath + "." + name }

func (m *Machine) cstring(v Val, what string) string {
	s := v.(*Str)
	m.forceStr(s)
	if !s.conc {
		m.unsupported("symbolic " + what)
	}
	return s.s
}

func (m *Machine) mkErr(s *Str) Iface {
	p := new(Val)
	*p = Struct{s}
	return Iface{t: m.ld.errString, v: Ptr(p)}
}

func (m *Machine) record(name, kind string, e *Expr) *Expr {
	m.vec = append(m.vec, NondetRec{Name: name, Kind: kind, e: e})
	return e
}

func init() {
	reg := func(name string, f intrinsic) { intrinsics[name] = f }
	zzr := func(name string, f func(m *Machine, a []Val) Val) {
		intrinsics[zz(name)] = func(m *Machine, fr *frame, fn *ssa.Function, args []Val) Val { return f(m, args) }
	}
	zzr("Bool", func(m *Machine, a []Val) Val {
		n := m.cstring(a[0], "name")
		return m.record(n, "bool", m.newVar(SBool, n))
	})
	zzr("Byte", func(m *Machine, a []Val) Val {
		n := m.cstring(a[0], "name")
		return m.record(n, "u8", m.newVar(8, n))
	})
	zzr("Int64", func(m *Machine, a []Val) Val {
		n := m.cstring(a[0], "name")
		return m.record(n, "i64", m.newVar(64, n))
	})
	zzr("Uint64", func(m *Machine, a []Val) Val {
		n := m.cstring(a[0], "name")
		return m.record(n, "u64", m.newVar(64, n))
	})
	zzr("Int", func(m *Machine, a []Val) Val {
		n := m.cstring(a[0], "name")
		lo, hi := a[1].(*Expr), a[2].(*Expr)
		if lo.IsConst() && hi.IsConst() && lo.Int() >= 0 {
			return m.record(n, "i64", m.newVarRange(64, n, lo.val, hi.val))
		}
		if l, h := lo.Int(), hi.Int(); lo.IsConst() && hi.IsConst() && l < h && l > -1<<60 && h < 1<<60 {
			return m.record(n, "i64", m.ctx.Bin(OAdd, m.newVarRange(64, n, 0, uint64(h-l)), lo))
		}
		e := m.newVar(64, n)
		m.record(n, "i64", e)
		m.assume(m.ctx.And(m.ctx.Bin(OSle, lo, e), m.ctx.Bin(OSle, e, hi)))
		return e
	})
	zzr("Float64", func(m *Machine, a []Val) Val {
		n := m.cstring(a[0], "name")
		b := m.newVar(64, n)
		e := m.ctx.Un(OFFromBits, SFP, b)
		m.record(n, "f64", e)
		m.vec[len(m.vec)-1].e = b
		// finite: the exponent is not all ones
		ex := m.ctx.Bin(OBAnd, b, m.ctx.Const(64, 0x7ff0000000000000))
		m.assume(m.ctx.Not(m.ctx.Eq(ex, m.ctx.Const(64, 0x7ff0000000000000))))
		return e
	})
	zzr("Float64In", func(m *Machine, a []Val) Val {
		n := m.cstring(a[0], "name")
		e := m.newFloatRange(n, a[1].(*Expr).F(), a[2].(*Expr).F())
		m.record(n, "f64", e)
		m.vec[len(m.vec)-1].e = e.a
		return e
	})
	zzr("Choose", func(m *Machine, a []Val) Val {
		n := m.cstring(a[0], "name")
		k := int(a[1].(*Expr).Int())
		i := m.choose(k, n)
		m.vec = append(m.vec, NondetRec{Name: n, Kind: "choose", Int: int64(i)})
		return m.ctx.I64(int64(i))
	})
	zzr("Str", func(m *Machine, a []Val) Val {
		n := m.cstring(a[0], "name")
		k := int(a[1].(*Expr).Int())
		al := m.cstring(a[2], "alphabet")
		es := make([]*Expr, k)
		for i := range es {
			if al == "" {
				es[i] = m.newVar(8, n)
				continue
			}
			lo, hi := byte(255), byte(0)
			set := [256]bool{}
			for j := 0; j < len(al); j++ {
				lo, hi = min(lo, al[j]), max(hi, al[j])
				set[al[j]] = true
			}
			e := m.newVarRange(8, n, uint64(lo), uint64(hi))
			es[i] = e
			c := m.ctx.fls
			full := true
			for v := int(lo); v <= int(hi); v++ {
				if !set[v] {
					full = false
				}
			}
			if !full {
				for v := int(lo); v <= int(hi); {
					if !set[v] {
						v++
						continue
					}
					w := v
					for w < int(hi) && set[w+1] {
						w++
					}
					c = m.ctx.Or(c, m.ctx.And(m.ctx.Bin(OUle, m.ctx.Const(8, uint64(v)), e), m.ctx.Bin(OUle, e, m.ctx.Const(8, uint64(w)))))
					v = w + 1
				}
				m.assume(c)
			}
		}
		m.vec = append(m.vec, NondetRec{Name: n, Kind: "str", es: es})
		return m.bstr(es)
	})
	zzr("Assume", func(m *Machine, a []Val) Val { m.assume(a[0].(*Expr)); return nil })
	zzr("Assert", func(m *Machine, a []Val) Val {
		m.assert(a[0].(*Expr), m.strDesc(a[1].(*Str)))
		return nil
	})
	zzr("Reach", func(m *Machine, a []Val) Val { m.run.reach(m.strDesc(a[0].(*Str))); return nil })
	zzr("Cut", func(m *Machine, a []Val) Val { m.cut(m.strDesc(a[0].(*Str))); return nil })
	zzr("Param", func(m *Machine, a []Val) Val {
		return m.ctx.I64(int64(m.run.param(m.cstring(a[0], "name"), int(a[1].(*Expr).Int()), int(a[2].(*Expr).Int()))))
	})
	zzr("And", func(m *Machine, a []Val) Val { return m.ctx.And(a[0].(*Expr), a[1].(*Expr)) })
	zzr("Or", func(m *Machine, a []Val) Val { return m.ctx.Or(a[0].(*Expr), a[1].(*Expr)) })
	zzr("Not", func(m *Machine, a []Val) Val { return m.ctx.Not(a[0].(*Expr)) })
	zzr("Implies", func(m *Machine, a []Val) Val { return m.ctx.Implies(a[0].(*Expr), a[1].(*Expr)) })
	zzr("IteInt", func(m *Machine, a []Val) Val { return m.ctx.Ite(a[0].(*Expr), a[1].(*Expr), a[2].(*Expr)) })
	zzr("IsSym", func(m *Machine, a []Val) Val { return m.ctx.tru })
	zzr("OnReset", func(m *Machine, a []Val) Val { return nil })
	zzr("SetOrder", func(m *Machine, a []Val) Val {
		m.orderMode = m.cstring(a[0], "order")
		m.run.addBound("map iteration orders: " + m.orderMode)
		return nil
	})
	zzr("Observe", func(m *Machine, a []Val) Val {
		m.obs = append(m.obs, obsRec{m.cstring(a[0], "label"), a[1]})
		return nil
	})

	// ---- fmt
	reg("fmt.Sprintf", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
		return m.sprintf(a[0].(*Str), a[1].(Slice))
	})
	reg("fmt.Errorf", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
		s := m.sprintf(a[0].(*Str), a[1].(Slice))
		if f := a[0].(*Str); f.conc && strings.Contains(f.s, "%w") {
			for _, x := range m.force(a[1].(Slice)).a {
				if i := x.(Iface); i.t != nil && m.ld.lookupMethod(i.t, nil, "Error") != nil {
					p := new(Val)
					*p = Struct{s, i}
					return Iface{t: m.ld.wrapError, v: Ptr(p)}
				}
			}
		}
		return m.mkErr(s)
	})
	reg("time.runtimeNano", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val { return m.ctx.I64(1) })
	reg("time.initLocal", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val { return nil }) // the local time is UTC
	reg("fmt.Sprint", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val { return m.sprint(a[0].(Slice), false) })
	reg("fmt.Sprintln", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val { return m.sprint(a[0].(Slice), true) })
	nilPrint := func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val { return Tuple{m.ctx.I64(0), Iface{}} }
	for _, n := range []string{"fmt.Print", "fmt.Println", "fmt.Printf"} {
		reg(n, nilPrint)
	}
	fpr := func(txt func(m *Machine, a []Val) *Str) intrinsic {
		return func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
			w := a[0].(Iface)
			if w.t == nil {
				m.rtPanic(nilDeref)
			}
			s := txt(m, a)
			wf := m.ld.lookupMethod(w.t, nil, "Write")
			if wf == nil {
				m.unsupported("Fprintf to " + w.t.String())
			}
			if wf.String() == "(*os.File).Write" {
				return Tuple{m.ctx.I64(0), Iface{}}
			}
			return m.call(wf, []Val{w.v, m.strToSlice(s)}, nil, fr)
		}
	}
	reg("fmt.Fprintf", fpr(func(m *Machine, a []Val) *Str { return m.sprintf(a[1].(*Str), a[2].(Slice)) }))
	reg("fmt.Fprint", fpr(func(m *Machine, a []Val) *Str { return m.sprint(a[1].(Slice), false) }))
	reg("fmt.Fprintln", fpr(func(m *Machine, a []Val) *Str { return m.sprint(a[1].(Slice), true) }))

	// ---- log
	for _, n := range []string{"log.Print", "log.Println", "log.Printf"} {
		reg(n, func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val { return nil })
	}
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panicf", "log.Panic"} {
		reg(n, func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
			m.rtPanic("log.Fatal")
			return nil
		})
	}

	// ---- strconv
	reg("strconv.Itoa", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val { return m.numStr('i', a[0].(*Expr)) })
	reg("strconv.FormatInt", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
		b := a[1].(*Expr)
		if !b.IsConst() || b.val != 10 {
			if e := a[0].(*Expr); e.IsConst() && b.IsConst() {
				return cstr(strconv.FormatInt(e.Int(), int(b.val)))
			}
			m.unsupported("FormatInt base")
		}
		return m.numStr('i', a[0].(*Expr))
	})
	reg("strconv.FormatUint", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
		b := a[1].(*Expr)
		if !b.IsConst() || b.val != 10 {
			m.unsupported("FormatUint base")
		}
		return m.numStr('u', a[0].(*Expr))
	})
	reg("strconv.FormatFloat", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
		f, verb, prec, bs := a[0].(*Expr), a[1].(*Expr), a[2].(*Expr), a[3].(*Expr)
		if f.IsConst() && verb.IsConst() && prec.IsConst() && bs.IsConst() {
			return cstr(strconv.FormatFloat(f.F(), byte(verb.val), int(prec.Int()), int(bs.Int())))
		}
		if verb.IsConst() && prec.IsConst() && prec.Int() == -1 && verb.val == 'g' {
			return m.numStr('f', f)
		}
		return m.fixedFloat(f, byte(verb.val), int(prec.Int()))
	})
	reg("strconv.AppendInt", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
		return m.appendVals(a[0].(Slice), m.numStr('i', a[1].(*Expr)), types.Typ[types.Byte])
	})
	reg("strconv.FormatBool", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
		if m.branch(a[0].(*Expr)) {
			return cstr("true")
		}
		return cstr("false")
	})
	numErr := func(m *Machine, f string, rng bool) Iface {
		if rng {
			return m.mkErr(cstr("strconv." + f + ": value out of range"))
		}
		return m.mkErr(cstr("strconv." + f + ": invalid syntax"))
	}
	reg("strconv.ParseFloat", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
		v, ok, rng := m.parseFloat(a[0].(*Str))
		if !ok || rng {
			return Tuple{v, numErr(m, "ParseFloat", rng)}
		}
		return Tuple{v, Iface{}}
	})
	reg("strconv.ParseInt", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
		b, w := a[1].(*Expr), a[2].(*Expr)
		if !b.IsConst() || (b.val != 10 && b.val != 0) || !w.IsConst() {
			m.unsupported("ParseInt base")
		}
		bits := int(w.val)
		if bits == 0 {
			bits = 64
		}
		v, ok, rng := m.parseIntX(a[0].(*Str), bits, true)
		if !ok {
			return Tuple{v, numErr(m, "ParseInt", rng)}
		}
		return Tuple{v, Iface{}}
	})
	reg("strconv.ParseUint", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
		w := a[2].(*Expr)
		bits := int(w.val)
		if bits == 0 {
			bits = 64
		}
		v, ok, rng := m.parseIntX(a[0].(*Str), bits, false)
		if !ok {
			return Tuple{v, numErr(m, "ParseUint", rng)}
		}
		return Tuple{v, Iface{}}
	})
	reg("strconv.Atoi", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
		v, ok, rng := m.parseIntX(a[0].(*Str), 64, true)
		if !ok {
			return Tuple{v, numErr(m, "Atoi", rng)}
		}
		return Tuple{v, Iface{}}
	})
	reg("strconv.Quote", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val { return m.quote(fr, fn, a) })
	isPrint := func(f func(rune) bool, tab *[]rrange) intrinsic {
		return func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
			e := a[0].(*Expr)
			if e.IsConst() {
				return m.ctx.Bool(f(rune(int32(e.val))))
			}
			if *tab == nil {
				return m.unsupportedV("rune table")
			}
			return m.runeIn(e, *tab)
		}
	}
	reg("strconv.IsPrint", isPrint(strconv.IsPrint, &printRanges))
	reg("strconv.IsGraphic", isPrint(strconv.IsGraphic, &graphicRanges))
	reg("unicode.IsPrint", isPrint(unicode.IsPrint, &uprintRanges))
	reg("unicode.IsSpace", isPrint(unicode.IsSpace, &spaceRanges))
	reg("unicode.IsDigit", isPrint(unicode.IsDigit, &digitRanges))
	reg("unicode.IsLetter", isPrint(unicode.IsLetter, &letterRanges))

	// ---- encoding/json
	reg("encoding/json.Marshal", jsonMarshal)
	reg("encoding/json.MarshalIndent", jsonMarshalIndent)
	reg("encoding/json.Unmarshal", jsonUnmarshal)
	reg("encoding/json.Valid", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
		_, e := m.parseJSON(m.sliceToStr(a[0].(Slice)))
		return m.ctx.Bool(e == "")
	})
	reg("encoding/json.NewDecoder", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
		p := new(Val)
		*p = Struct{a[0], m.ctx.fls, emptyStr, m.ctx.fls}
		return Ptr(p)
	})
	reg("(*encoding/json.Decoder).UseNumber", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
		(*a[0].(Ptr)).(Struct)[1] = m.ctx.tru
		return nil
	})
	readAll := func(m *Machine, fr *frame, st Struct) {
		if st[3].(*Expr).IsTrue() {
			return
		}
		st[3] = m.ctx.tru
		st[2] = m.readerText(fr, st[0].(Iface))
	}
	reg("(*encoding/json.Decoder).Decode", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
		st := (*a[0].(Ptr)).(Struct)
		readAll(m, fr, st)
		s := st[2].(*Str)
		dst := a[1].(Iface)
		useNum := st[1].(*Expr).IsTrue()
		if len(s.parts) == 1 && s.parts[0].js != nil {
			st[2] = emptyStr
			return m.unmarshalStr(s, dst, useNum)
		}
		// skip white space; EOF
		b := m.sbytes(m.forced(s))
		i := 0
		for i < len(b) {
			c := m.ctx
			ws := c.Or(c.Or(c.Eq(b[i], c.Const(8, ' ')), c.Eq(b[i], c.Const(8, '\n'))), c.Or(c.Eq(b[i], c.Const(8, '\t')), c.Eq(b[i], c.Const(8, '\r'))))
			if !m.branch(ws) {
				break
			}
			i++
		}
		if i == len(b) {
			return m.ioEOF()
		}
		r := m.call(m.ld.model("JSONParsePrefix"), []Val{s}, nil, nil).(Tuple)
		if es := r[2].(*Str); m.slen(es) > 0 {
			return m.mkErr(es)
		}
		off := int(m.concretize(r[1].(*Expr)))
		n := m.fromJN(r[0].(Ptr))
		st[2] = m.ssub(s, off, m.slen(s))
		return m.jsonGuard(func() {
			m.decode(n, dst.t.(*types.Pointer).Elem(), dst.v.(Ptr), useNum)
		})
	})
	reg("(*encoding/json.Decoder).More", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
		st := (*a[0].(Ptr)).(Struct)
		readAll(m, fr, st)
		b := m.sbytes(m.forced(st[2].(*Str)))
		for _, x := range b {
			c := m.ctx
			ws := c.Or(c.Or(c.Eq(x, c.Const(8, ' ')), c.Eq(x, c.Const(8, '\n'))), c.Or(c.Eq(x, c.Const(8, '\t')), c.Eq(x, c.Const(8, '\r'))))
			if !m.branch(ws) {
				return c.Not(c.Or(c.Eq(x, c.Const(8, ']')), c.Eq(x, c.Const(8, '}'))))
			}
		}
		return m.ctx.fls
	})
	reg("encoding/json.NewEncoder", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
		p := new(Val)
		*p = Struct{a[0], emptyStr, emptyStr}
		return Ptr(p)
	})
	reg("(*encoding/json.Encoder).SetIndent", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
		st := (*a[0].(Ptr)).(Struct)
		st[1], st[2] = a[1], a[2]
		return nil
	})
	reg("(*encoding/json.Encoder).SetEscapeHTML", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val { return nil })
	reg("(*encoding/json.Encoder).Encode", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
		st := (*a[0].(Ptr)).(Struct)
		var out Slice
		err := m.jsonGuard(func() {
			n := m.toNode(m.ld.anyT, a[1].(Iface), 0)
			if p, i := st[1].(*Str), st[2].(*Str); p.s != "" || i.s != "" {
				c := *n
				c.prefix, c.indent, c.pretty = p.s, i.s, true
				n = &c
			}
			out = Slice{lz: &LzBytes{str: &Str{parts: []part{{js: n}, {str: cstr("\n")}}}}}
		})
		if err.t != nil {
			return err
		}
		w := st[0].(Iface)
		r := m.call(m.ld.lookupMethod(w.t, nil, "Write"), []Val{w.v, out}, nil, fr).(Tuple)
		return r[1]
	})
	reg("(encoding/json.Number).Int64", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
		v, ok, rng := m.parseIntX(a[0].(*Str), 64, true)
		if !ok {
			return Tuple{v, numErr(m, "ParseInt", rng)}
		}
		return Tuple{v, Iface{}}
	})
	reg("(encoding/json.Number).Float64", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
		v, ok, rng := m.parseFloat(a[0].(*Str))
		if !ok || rng {
			return Tuple{v, numErr(m, "ParseFloat", rng)}
		}
		return Tuple{v, Iface{}}
	})
	reg("(encoding/json.Number).String", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val { return a[0] })

	// ---- reflect
	reg("reflect.TypeOf", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
		f := a[0].(Iface)
		if f.t == nil {
			return Iface{}
		}
		return Iface{t: m.ld.rtype, v: m.rtypePtr(f.t)}
	})
	reg("reflect.DeepEqual", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
		x, y := a[0].(Iface), a[1].(Iface)
		if x.t == nil || y.t == nil {
			return m.ctx.Bool(x.t == nil && y.t == nil)
		}
		if !m.typeEq(x.t, y.t) {
			return m.ctx.fls
		}
		return m.deepEq(x.t, x.v, y.v)
	})
	rt := func(name string, f func(m *Machine, t types.Type) Val) {
		reg("(*reflect.rtype)."+name, func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
			return f(m, m.rtypeOf(a[0].(Ptr)))
		})
	}
	rt("String", func(m *Machine, t types.Type) Val { return cstr(typeName(t)) })
	rt("Name", func(m *Machine, t types.Type) Val {
		if n, ok := t.(*types.Named); ok {
			return cstr(n.Obj().Name())
		}
		if b, ok := t.(*types.Basic); ok {
			return cstr(b.Name())
		}
		return emptyStr
	})
	rt("Kind", func(m *Machine, t types.Type) Val { return m.ctx.Const(64, uint64(kindOf(t))) })

	// ---- maps
	reg("maps.clone", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
		f := a[0].(Iface)
		mp, _ := f.v.(*MapV)
		if mp == nil {
			return f
		}
		c := &MapV{kt: mp.kt, conc: map[string]*mapEntry{}, rot: -1}
		for _, e := range mp.entries {
			if e.dead {
				continue
			}
			n := &mapEntry{k: e.k, v: new(Val)}
			*n.v = copyVal(*e.v)
			c.entries = append(c.entries, n)
			c.live++
			if ck, ok := concKey(e.k); ok {
				c.conc[ck] = n
			} else {
				c.symKeys++
			}
		}
		return Iface{t: f.t, v: c}
	})

	// ---- sort
	reg("sort.Slice", sortSlice)
	reg("sort.SliceStable", sortSlice)

	// ---- strings / bytes builders
	bw := func(name string, f func(m *Machine, p Ptr, a []Val) Val) {
		reg("(*strings.Builder)."+name, func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
			p := a[0].(Ptr)
			if p == nil {
				m.rtPanic(nilDeref)
			}
			return f(m, p, a[1:])
		})
	}
	bt := types.Typ[types.Byte]
	bget := func(p Ptr, i int) Slice { return (*p).(Struct)[i].(Slice) }
	bset := func(p Ptr, i int, s Slice) { (*p).(Struct)[i] = s }
	bufStr := func(m *Machine, s Slice) *Str {
		if isNilSlice(s) {
			return emptyStr
		}
		return m.sliceToStr(s)
	}
	// the buffer is kept as a lazy slice so that number texts stay symbolic as long as possible
	wr := func(m *Machine, p Ptr, i int, s *Str) {
		cur := bget(p, i)
		bset(p, i, Slice{lz: &LzBytes{str: m.sconcat(bufStr(m, cur), s)}})
	}
	runeStr := func(m *Machine, e *Expr) *Str {
		if e.IsConst() {
			return cstr(string(rune(int32(e.val))))
		}
		return m.call(m.ld.model("RuneToString"), []Val{m.ctx.Un(OSExt, 64, e)}, nil, nil).(*Str)
	}
	bw("WriteString", func(m *Machine, p Ptr, a []Val) Val {
		wr(m, p, 1, a[0].(*Str))
		return Tuple{m.ctx.I64(0), Iface{}}
	})
	bw("Write", func(m *Machine, p Ptr, a []Val) Val {
		wr(m, p, 1, m.sliceToStr(a[0].(Slice)))
		return Tuple{m.ctx.I64(0), Iface{}}
	})
	bw("WriteByte", func(m *Machine, p Ptr, a []Val) Val {
		wr(m, p, 1, m.bstr([]*Expr{a[0].(*Expr)}))
		return Iface{}
	})
	bw("WriteRune", func(m *Machine, p Ptr, a []Val) Val {
		wr(m, p, 1, runeStr(m, a[0].(*Expr)))
		return Tuple{m.ctx.I64(0), Iface{}}
	})
	bw("String", func(m *Machine, p Ptr, a []Val) Val { return bufStr(m, bget(p, 1)) })
	bw("Len", func(m *Machine, p Ptr, a []Val) Val { return m.ctx.I64(int64(m.slen(m.forced(bufStr(m, bget(p, 1)))))) })
	bw("Cap", func(m *Machine, p Ptr, a []Val) Val { return m.ctx.I64(int64(m.slen(m.forced(bufStr(m, bget(p, 1)))))) })
	bw("Grow", func(m *Machine, p Ptr, a []Val) Val { return nil })
	bw("Reset", func(m *Machine, p Ptr, a []Val) Val { bset(p, 1, Slice{}); return nil })
	_ = bt
	bb := func(name string, f func(m *Machine, p Ptr, a []Val) Val) {
		reg("(*bytes.Buffer)."+name, func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
			p := a[0].(Ptr)
			if p == nil {
				m.rtPanic(nilDeref)
			}
			return f(m, p, a[1:])
		})
	}
	bb("WriteString", func(m *Machine, p Ptr, a []Val) Val {
		wr(m, p, 0, a[0].(*Str))
		return Tuple{m.ctx.I64(0), Iface{}}
	})
	bb("Write", func(m *Machine, p Ptr, a []Val) Val {
		wr(m, p, 0, m.sliceToStr(a[0].(Slice)))
		return Tuple{m.ctx.I64(0), Iface{}}
	})
	bb("WriteByte", func(m *Machine, p Ptr, a []Val) Val {
		wr(m, p, 0, m.bstr([]*Expr{a[0].(*Expr)}))
		return Iface{}
	})
	bb("WriteRune", func(m *Machine, p Ptr, a []Val) Val {
		wr(m, p, 0, runeStr(m, a[0].(*Expr)))
		return Tuple{m.ctx.I64(0), Iface{}}
	})
	bb("String", func(m *Machine, p Ptr, a []Val) Val { return bufStr(m, bget(p, 0)) })
	bb("Bytes", func(m *Machine, p Ptr, a []Val) Val { return bget(p, 0) })
	bb("Len", func(m *Machine, p Ptr, a []Val) Val { return m.ctx.I64(int64(m.slen(m.forced(bufStr(m, bget(p, 0)))))) })
	bb("Reset", func(m *Machine, p Ptr, a []Val) Val { bset(p, 0, Slice{}); return nil })
	bb("Truncate", func(m *Machine, p Ptr, a []Val) Val {
		s := m.forced(bufStr(m, bget(p, 0)))
		n := int(m.concretize(a[0].(*Expr)))
		if n < 0 || n > m.slen(s) {
			m.rtPanic("bytes.Buffer: truncation out of range")
		}
		bset(p, 0, m.strToSlice(m.ssub(s, 0, n)))
		return nil
	})

	// ---- strings
	reg("strings.NewReplacer", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
		p := new(Val)
		*p = Struct{a[0]}
		if len(m.force(a[0].(Slice)).a)%2 == 1 {
			m.rtPanic("strings.NewReplacer: odd argument count")
		}
		return Ptr(p)
	})
	reg("(*strings.Replacer).Replace", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
		p := a[0].(Ptr)
		if p == nil {
			m.rtPanic(nilDeref)
		}
		on := (*p).(Struct)[0].(Slice)
		s := a[1].(*Str)
		m.forceStr(s)
		if s.conc {
			var xs []string
			all := true
			for _, v := range m.force(on).a {
				c, ok := concKey(v)
				if !ok {
					all = false
					break
				}
				xs = append(xs, c[1:])
			}
			if all {
				return cstr(strings.NewReplacer(xs...).Replace(s.s))
			}
		}
		return m.call(m.ld.model("ReplacerReplace"), []Val{on, s}, nil, fr)
	})
	// fast concrete paths for common helpers
	conc2 := func(name string, f func(m *Machine, a, b string) Val) {
		reg(name, func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
			x, y := a[0].(*Str), a[1].(*Str)
			m.forceStr(x)
			m.forceStr(y)
			if x.conc && y.conc {
				return f(m, x.s, y.s)
			}
			return m.callBody(fn, a, fr)
		})
	}
	strSlice := func(m *Machine, xs []string) Val {
		if xs == nil {
			return Slice{}
		}
		r := make([]Val, len(xs))
		for i, s := range xs {
			r[i] = cstr(s)
		}
		return Slice{a: r}
	}
	conc2("strings.Split", func(m *Machine, a, b string) Val { return strSlice(m, strings.Split(a, b)) })
	conc2("strings.HasPrefix", func(m *Machine, a, b string) Val { return m.ctx.Bool(strings.HasPrefix(a, b)) })
	conc2("strings.HasSuffix", func(m *Machine, a, b string) Val { return m.ctx.Bool(strings.HasSuffix(a, b)) })
	conc2("strings.Contains", func(m *Machine, a, b string) Val { return m.ctx.Bool(strings.Contains(a, b)) })
	conc2("strings.Trim", func(m *Machine, a, b string) Val { return cstr(strings.Trim(a, b)) })
	conc2("strings.TrimLeft", func(m *Machine, a, b string) Val { return cstr(strings.TrimLeft(a, b)) })
	conc2("strings.TrimRight", func(m *Machine, a, b string) Val { return cstr(strings.TrimRight(a, b)) })
	conc1 := func(name string, f func(a string) Val) {
		reg(name, func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
			x := a[0].(*Str)
			m.forceStr(x)
			if x.conc {
				return f(x.s)
			}
			return m.callBody(fn, a, fr)
		})
	}
	conc1("strings.ToLower", func(a string) Val { return cstr(strings.ToLower(a)) })
	conc1("strings.ToUpper", func(a string) Val { return cstr(strings.ToUpper(a)) })
	conc1("strings.TrimSpace", func(a string) Val { return cstr(strings.TrimSpace(a)) })

	// ---- bytealg
	reg("internal/bytealg.Equal", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
		return m.seq(m.sliceToStr(a[0].(Slice)), m.sliceToStr(a[1].(Slice)))
	})
	reg("bytes.Equal", intrinsics["internal/bytealg.Equal"])
	reg("internal/bytealg.CountString", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
		return m.call(m.ld.model("StringsCount"), []Val{a[0], m.bstr([]*Expr{a[1].(*Expr)})}, nil, fr)
	})
	reg("internal/bytealg.MakeNoZero", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
		n := int(m.concretize(a[0].(*Expr)))
		return m.mkSlice(types.Typ[types.Byte], n, n)
	})
	reg("internal/stringslite.Clone", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val { return a[0] })
	reg("strings.Clone", intrinsics["internal/stringslite.Clone"])
	ident := func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val { return a[0] }
	reg("internal/abi.NoEscape", ident)
	reg("internal/abi.Escape", ident)
	reg("unsafe.String", ident)

	// ---- sync
	nop := func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val { return nil }
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock",
		"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait",
		"runtime.GC", "runtime.Gosched", "runtime.KeepAlive"} {
		reg(n, nop)
	}
	reg("(*sync.Mutex).TryLock", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val { return m.ctx.tru })
	reg("(*sync.Once).Do", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
		p := a[0].(Ptr)
		k := fmt.Sprintf("once%p", p)
		if m.hcache[k] != nil {
			return nil
		}
		m.hcache[k] = true
		m.callVal(a[1], nil, fr)
		return nil
	})

	// ---- errors
	reg("errors.New", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val { return m.mkErr(a[0].(*Str)) })

	// ---- math
	m1 := func(name string, op Op, f func(float64) float64) {
		reg("math."+name, func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
			return m.ctx.Un(op, SFP, a[0].(*Expr))
		})
	}
	m1("Floor", OFFloor, math.Floor)
	m1("Ceil", OFCeil, math.Ceil)
	m1("Trunc", OFTrunc, math.Trunc)
	m1("Round", OFRoundAway, math.Round)
	m1("RoundToEven", OFRoundEven, math.RoundToEven)
	m1("Sqrt", OFSqrt, math.Sqrt)
	m1("Abs", OFAbs, math.Abs)
	reg("math.IsNaN", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
		return m.ctx.Un(OFIsNaN, SBool, a[0].(*Expr))
	})
	reg("math.IsInf", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
		e, s := a[0].(*Expr), a[1].(*Expr)
		c := m.ctx
		pos, neg := c.Bin(OFEq, e, c.Float(math.Inf(1))), c.Bin(OFEq, e, c.Float(math.Inf(-1)))
		return c.Or(c.And(c.Bin(OSle, c.I64(0), s), pos), c.And(c.Bin(OSle, s, c.I64(0)), neg))
	})
	reg("math.Max", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
		return m.fminmax(false, a[0].(*Expr), a[1].(*Expr))
	})
	reg("math.Min", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
		return m.fminmax(true, a[0].(*Expr), a[1].(*Expr))
	})
	reg("math.Float64bits", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
		e := a[0].(*Expr)
		if e.IsConst() {
			return m.ctx.Const(64, e.val)
		}
		if e.op == OFFromBits {
			return e.a
		}
		return m.unsupportedV("Float64bits")
	})
	reg("math.Float64frombits", func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
		return m.ctx.Un(OFFromBits, SFP, a[0].(*Expr))
	})
	for n, f := range map[string]func(float64) float64{"Sin": math.Sin, "Cos": math.Cos, "Tan": math.Tan, "Exp": math.Exp, "Log": math.Log, "Log10": math.Log10, "Log2": math.Log2, "Atan": math.Atan, "Asin": math.Asin, "Acos": math.Acos} {
		n, f := n, f
		reg("math."+n, func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
			e := a[0].(*Expr)
			if e.IsConst() {
				return m.ctx.Float(f(e.F()))
			}
			if _, _, fin := frange(e, 0); fin && (n == "Sin" || n == "Cos") { // documented range
				m.run.addAssumption("math." + n + " of a finite symbolic argument returns an arbitrary value in [-1,1]")
				return m.newFloatRange("m"+n, -1, 1)
			}
			return m.unsupportedV("math." + n)
		})
	}
	for n, f := range map[string]func(a, b float64) float64{"Pow": math.Pow, "Mod": math.Mod, "Atan2": math.Atan2, "Hypot": math.Hypot} {
		n, f := n, f
		reg("math."+n, func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
			x, y := a[0].(*Expr), a[1].(*Expr)
			if x.IsConst() && y.IsConst() {
				return m.ctx.Float(f(x.F(), y.F()))
			}
			return m.unsupportedV("math." + n)
		})
	}
	// ---- spew
	for _, n := range []string{"github.com/davecgh/go-spew/spew.Sdump", "github.com/davecgh/go-spew/spew.Sprint"} {
		reg(n, func(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
			return &Str{parts: []part{{opq: "spew dump"}}}
		})
	}
}

func (m *Machine) unsupportedV(s string) Val { m.unsupported(s); return nil }

func (m *Machine) forced(s *Str) *Str { m.forceStr(s); return s }

func (m *Machine) ioEOF() Val {
	p := m.ld.prog.ImportedPackage("io")
	if p == nil {
		return m.mkErr(cstr("EOF"))
	}
	return *m.global(p.Var("EOF"))
}

// readerText drains an io.Reader known to the engine.
func (m *Machine) readerText(fr *frame, r Iface) *Str {
	if r.t == nil {
		m.rtPanic(nilDeref)
	}
	switch typeName(r.t) {
	case "*bytes.Reader":
		st := (*r.v.(Ptr)).(Struct)
		return m.sliceToStr(st[0].(Slice))
	case "*strings.Reader":
		return (*r.v.(Ptr)).(Struct)[0].(*Str)
	case "*bytes.Buffer":
		s := (*r.v.(Ptr)).(Struct)[0].(Slice)
		if isNilSlice(s) {
			return emptyStr
		}
		return m.sliceToStr(s)
	}
	if f := m.ld.lookupMethod(r.t, nil, "ZZText"); f != nil {
		return m.call(f, []Val{r.v}, nil, fr).(*Str)
	}
	m.unsupported("reader " + r.t.String())
	return nil
}

// callBody runs the real body of a function that has an intrinsic.
func (m *Machine) callBody(fn *ssa.Function, args []Val, caller *frame) Val {
	k := "body:" + fn.String()
	fi, _ := m.bodies[k]
	if fi == nil {
		saved := m.fns[fn]
		name := fn.String()
		f := intrinsics[name]
		_ = f
		delete(m.fns, fn)
		m.noIntr = true
		fi = m.info(fn)
		m.noIntr = false
		m.fns[fn] = saved
		m.bodies[k] = fi
	}
	return m.callInfo(fi, fn, args, nil, caller)
}

func sortSlice(m *Machine, fr *frame, fn *ssa.Function, a []Val) Val {
	f := a[0].(Iface)
	if f.t == nil {
		m.rtPanic("reflect: call of Swapper on zero Value")
	}
	s := m.force(f.v.(Slice)).a
	if len(s) > 12 && fn.Name() == "Slice" { // not stable: the real algorithm decides
		swap := &nativeFn{f: func(m *Machine, x []Val) Val {
			i, j := int(x[0].(*Expr).Int()), int(x[1].(*Expr).Int())
			s[i], s[j] = s[j], s[i]
			return nil
		}}
		n := len(s)
		m.call(fn.Pkg.Func("pdqsort_func"), []Val{Struct{a[1], swap}, m.ctx.I64(0), m.ctx.I64(int64(n)), m.ctx.I64(int64(bits.Len(uint(n))))}, nil, fr)
		return nil
	}
	less := func(i, j int) bool {
		return m.branch(m.callVal(a[1], []Val{m.ctx.I64(int64(i)), m.ctx.I64(int64(j))}, fr).(*Expr))
	}
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
	return nil
}

func kindOf(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.String:
			return 24
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func (m *Machine) rtypePtr(t types.Type) Ptr {
	for k, v := range m.rtypes {
		if k == t || types.Identical(k, t) {
			return v
		}
	}
	p := new(Val)
	*p = t
	m.rtypes[t] = p
	return p
}

func (m *Machine) rtypeOf(p Ptr) types.Type {
	if p == nil {
		m.rtPanic(nilDeref)
	}
	return (*p).(types.Type)
}

// deepEq is reflect.DeepEqual at type t.
func (m *Machine) deepEq(t types.Type, x, y Val) *Expr {
	c := m.ctx
	switch u := t.Underlying().(type) {
	case *types.Interface:
		a, b := x.(Iface), y.(Iface)
		if a.t == nil || b.t == nil {
			return c.Bool(a.t == nil && b.t == nil)
		}
		if !m.typeEq(a.t, b.t) {
			return c.fls
		}
		return m.deepEq(a.t, a.v, b.v)
	case *types.Pointer:
		p, q := x.(Ptr), y.(Ptr)
		if p == q {
			return c.tru
		}
		if p == nil || q == nil {
			return c.fls
		}
		return m.deepEq(u.Elem(), *p, *q)
	case *types.Slice:
		a, b := x.(Slice), y.(Slice)
		if isNilSlice(a) != isNilSlice(b) {
			return c.fls
		}
		if e, ok := u.Elem().Underlying().(*types.Basic); ok && e.Kind() == types.Uint8 {
			return m.seq(m.sliceToStr(a), m.sliceToStr(b))
		}
		a, b = m.force(a), m.force(b)
		if len(a.a) != len(b.a) {
			return c.fls
		}
		r := c.tru
		for i := range a.a {
			r = c.And(r, m.deepEq(u.Elem(), a.a[i], b.a[i]))
			if r.IsFalse() {
				break
			}
		}
		return r
	case *types.Array:
		r := c.tru
		a, b := x.(Array), y.(Array)
		for i := range a {
			r = c.And(r, m.deepEq(u.Elem(), a[i], b[i]))
		}
		return r
	case *types.Struct:
		r := c.tru
		a, b := x.(Struct), y.(Struct)
		for i := range a {
			r = c.And(r, m.deepEq(u.Field(i).Type(), a[i], b[i]))
		}
		return r
	case *types.Map:
		a, b := x.(*MapV), y.(*MapV)
		if (a == nil) != (b == nil) {
			return c.fls
		}
		if a == b {
			return c.tru
		}
		if a.live != b.live {
			return c.fls
		}
		r := c.tru
		for _, e := range a.entries {
			o := m.mapFind(b, e.k)
			if o == nil {
				return c.fls
			}
			r = c.And(r, m.deepEq(u.Elem(), *e.v, *o.v))
			if r.IsFalse() {
				break
			}
		}
		return r
	case *types.Signature:
		return c.Bool(isNilFn(x) && isNilFn(y))
	}
	return m.eq(t, x, y)
}

// ---- runes

type rrange struct{ lo, hi rune }

var printRanges, graphicRanges, uprintRanges, spaceRanges, digitRanges, letterRanges []rrange

func mkRanges(f func(rune) bool) []rrange {
	var r []rrange
	for c := rune(0); c <= 0x10ffff; c++ {
		if f(c) {
			if n := len(r); n > 0 && r[n-1].hi == c-1 {
				r[n-1].hi = c
			} else {
				r = append(r, rrange{c, c})
			}
		}
	}
	return r
}

func initRanges() {
	printRanges = mkRanges(strconv.IsPrint)
	graphicRanges = printRanges
	uprintRanges = mkRanges(unicode.IsPrint)
	spaceRanges = mkRanges(unicode.IsSpace)
	digitRanges = mkRanges(unicode.IsDigit)
	letterRanges = mkRanges(unicode.IsLetter)
}

func (m *Machine) runeIn(e *Expr, tab []rrange) *Expr {
	c := m.ctx
	lo, hi := urange(e)
	if e.op == OZExt {
		lo, hi = urange(e.a)
	}
	// exclude what the path condition already decides cheaply
	r := c.fls
	for _, x := range tab {
		if uint64(x.hi) < lo || uint64(x.lo) > hi {
			continue
		}
		r = c.Or(r, c.And(c.Bin(OUle, c.Const(e.sort, uint64(x.lo)), e), c.Bin(OUle, e, c.Const(e.sort, uint64(x.hi)))))
	}
	return r
}

// quote is strconv.Quote.
func (m *Machine) quote(fr *frame, fn *ssa.Function, a []Val) Val {
	s := a[0].(*Str)
	m.forceStr(s)
	if s.conc {
		return cstr(strconv.Quote(s.s))
	}
	return m.callBody(fn, a, fr)
}

func (m *Machine) quoteFn() *ssa.Function {
	return m.ld.prog.ImportedPackage("strconv").Func("Quote")
}

// ---- integers

func (m *Machine) parseInt(s *Str, bits int, signed bool) (*Expr, bool) {
	v, ok, _ := m.parseIntX(s, bits, signed)
	return v, ok
}

func (m *Machine) parseIntX(s *Str, bits int, signed bool) (v *Expr, ok, rng bool) {
	c := m.ctx
	if n := m.numOf(s); n != nil && bits == 64 {
		switch {
		case n.kind == 'i' && signed:
			return n.e, true, false
		case n.kind == 'u' && !signed:
			return n.e, true, false
		case n.kind == 'i' || n.kind == 'u':
			if m.branch(c.Bin(OSlt, n.e, c.I64(0))) {
				if n.kind == 'i' {
					return c.I64(0), false, false
				}
				return c.I64(math.MaxInt64), false, true
			}
			return n.e, true, false
		case n.kind == 'f' || n.kind == 'e':
			lim := 1e6
			if n.kind == 'e' {
				lim = 1e21
			}
			e := n.e
			isInt := c.And(c.Bin(OFEq, e, c.Un(OFTrunc, SFP, e)), c.And(c.Bin(OFLt, e, c.Float(lim)), c.Bin(OFLt, c.Float(-lim), e)))
			if !m.branch(isInt) {
				return c.I64(0), false, false
			}
			if m.branch(c.And(c.Bin(OFLt, e, c.Float(9223372036854775808.0)), c.Bin(OFLe, c.Float(-9223372036854775808.0), e))) {
				return c.Un(OFToS, 64, e), true, false
			}
			return c.I64(math.MaxInt64), false, true
		}
	}
	m.forceStr(s)
	if s.conc {
		if signed {
			x, err := strconv.ParseInt(s.s, 10, bits)
			if err != nil {
				return c.I64(x), false, err.(*strconv.NumError).Err == strconv.ErrRange
			}
			return c.Const(64, uint64(x)), true, false
		}
		x, err := strconv.ParseUint(s.s, 10, bits)
		if err != nil {
			return c.Const(64, x), false, err.(*strconv.NumError).Err == strconv.ErrRange
		}
		return c.Const(64, x), true, false
	}
	b := m.sbytes(s)
	neg := c.fls
	if signed && len(b) > 0 {
		mn := c.Eq(b[0], c.Const(8, '-'))
		pl := c.Eq(b[0], c.Const(8, '+'))
		if m.branch(c.Or(mn, pl)) {
			neg = mn
			b = b[1:]
		}
	}
	if len(b) == 0 {
		return c.I64(0), false, false
	}
	alld := c.tru
	for _, x := range b {
		alld = c.And(alld, c.And(c.Bin(OUle, c.Const(8, '0'), x), c.Bin(OUle, x, c.Const(8, '9'))))
	}
	if !m.branch(alld) {
		return c.I64(0), false, false
	}
	if len(b) > 19 {
		// leading zeros aside, decide the range on a wider sum is out of scope
		lead := c.tru
		for _, x := range b[:len(b)-19] {
			lead = c.And(lead, c.Eq(x, c.Const(8, '0')))
		}
		if !m.branch(lead) {
			if len(b) == 20 && !signed {
				m.cut("20-digit unsigned literals")
			}
			return c.I64(math.MaxInt64), false, true
		}
		b = b[len(b)-19:]
	}
	// 19 digits fit 64 unsigned bits
	sum := c.Const(64, 0)
	for _, x := range b {
		d := c.Bin(OSub, c.Un(OZExt, 64, x), c.Const(64, '0'))
		sum = c.Bin(OAdd, c.Bin(OMul, sum, c.Const(64, 10)), d)
	}
	if signed {
		lim := uint64(1) << (bits - 1)
		limE := c.Ite(neg, c.Const(64, lim), c.Const(64, lim-1))
		if len(b) == 19 || bits < 64 {
			if !m.branch(c.Bin(OUle, sum, limE)) {
				return c.Ite(neg, c.Const(64, -lim), c.Const(64, lim-1)), false, true
			}
		}
		return c.Ite(neg, c.Un(ONeg, 64, sum), sum), true, false
	}
	if bits < 64 && !m.branch(c.Bin(OUlt, sum, c.Const(64, 1<<bits))) {
		return c.Const(64, 1<<bits-1), false, true
	}
	return sum, true, false
}

// ---- Sprintf

func (m *Machine) sprintf(f *Str, args Slice) *Str {
	m.forceStr(f)
	if !f.conc {
		m.unsupported("symbolic format")
	}
	var ps []*Str
	as := m.force(args).a
	ai := 0
	lit := 0
	s := f.s
	i := 0
	for i < len(s) {
		if s[i] != '%' {
			i++
			continue
		}
		if i > lit {
			ps = append(ps, cstr(s[lit:i]))
		}
		j := i + 1
		for j < len(s) && strings.IndexByte("+-# 0123456789.", s[j]) >= 0 {
			j++
		}
		if j >= len(s) {
			ps = append(ps, cstr("%!(NOVERB)"))
			lit = len(s)
			i = len(s)
			break
		}
		flags, verb := s[i+1:j], s[j]
		if verb == '%' {
			ps = append(ps, cstr("%"))
		} else if ai >= len(as) {
			ps = append(ps, cstr("%!"+string(verb)+"(MISSING)"))
		} else {
			ps = append(ps, m.fmtArg(flags, verb, as[ai].(Iface)))
			ai++
		}
		i = j + 1
		lit = i
	}
	if lit < len(s) {
		ps = append(ps, cstr(s[lit:]))
	}
	if ai < len(as) {
		ps = append(ps, &Str{parts: []part{{opq: "%!(EXTRA)"}}})
	}
	return m.sconcat(ps...)
}

func (m *Machine) sprint(args Slice, ln bool) *Str {
	var ps []*Str
	prevStr := true
	for i, x := range m.force(args).a {
		f := x.(Iface)
		_, isS := f.v.(*Str)
		if i > 0 && (ln || (!prevStr && !isS)) {
			ps = append(ps, cstr(" "))
		}
		prevStr = isS
		ps = append(ps, m.fmtArg("", 'v', f))
	}
	if ln {
		ps = append(ps, cstr("\n"))
	}
	return m.sconcat(ps...)
}

// candidateText is the text of a symbolic scalar in a format that has no symbolic form: when it is looked at, the
// value is restricted to a few candidates and the real formatter is used.
func (m *Machine) candidateText(what string, e *Expr, t types.Type, f func(any) string) *Str {
	l := &lazyText{f: func() *Str {
		c := m.ctx
		m.bound(what + ": for candidate values of the number")
		if e.sort == SFP {
			k := floatCands[m.choose(len(floatCands), "floatcand")]
			m.assume(c.Eq(e, c.Float(k)))
			return cstr(f(k))
		}
		k := intCands[m.choose(len(intCands), "intcand")]
		v := c.Const(e.sort, uint64(k)&mask(e.sort))
		m.assume(c.Eq(e, v))
		cv, ok := concreteVal(Iface{t: t, v: v})
		if !ok {
			m.unsupported("candidate text")
		}
		return cstr(f(cv))
	}}
	return &Str{parts: []part{{opq: what, fx: l}}}
}

var f1, f2 = 0.1, 0.2
var floatCands = []float64{0, f1 + f2, 1.0 / 3, 1, -2.5, 0.005, 12.345, 99.995, 123456789.125, 1e6, 1e21 / 3, 5e-324, -1e-7, 1.7976931348623157e308, 9007199254740993, -20, 70, 100}
var intCands = []int64{0, 1, -1, 7, 10, 65, 127, 255, 256, 1000, 1 << 31, 1<<53 + 1, math.MaxInt64, math.MinInt64}

func opaque(s string) *Str { return &Str{parts: []part{{opq: s}}} }

func (m *Machine) fmtArg(flags string, verb byte, f Iface) *Str {
	if verb == 'T' {
		if f.t == nil {
			return cstr("<nil>")
		}
		return cstr(typeName(f.t))
	}
	if f.t == nil {
		if verb == 'v' {
			return cstr("<nil>")
		}
		return cstr("%!" + string(verb) + "(<nil>)")
	}
	// concrete basic values: the real formatter
	if cv, ok := concreteVal(f); ok && !hasFmtMethod(m, f.t) {
		return cstr(fmt.Sprintf("%"+flags+string(verb), cv))
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'w' {
		if flags != "#" {
			for _, name := range []string{"Error", "String"} {
				if fn := m.ld.lookupMethod(f.t, nil, name); fn != nil && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 1 && isString(fn.Signature.Results().At(0).Type()) {
					if p, ok := f.v.(Ptr); ok && p == nil {
						return cstr("<nil>")
					}
					s := m.call(fn, []Val{f.v}, nil, nil).(*Str)
					if verb == 'q' {
						return m.call(m.quoteFn(), []Val{s}, nil, nil).(*Str)
					}
					return s
				}
			}
		}
	}
	switch x := f.v.(type) {
	case *Str:
		switch {
		case verb == 'q' && flags == "" || verb == 'v' && flags == "#":
			return m.call(m.quoteFn(), []Val{x}, nil, nil).(*Str)
		case (verb == 's' || verb == 'v') && flags == "":
			return x
		}
	case Slice:
		if b, ok := f.t.Underlying().(*types.Slice); ok && verb == 's' {
			if e, ok := b.Elem().Underlying().(*types.Basic); ok && e.Kind() == types.Uint8 {
				return m.sliceToStr(x)
			}
		}
		return opaque("slice")
	case *Expr:
		switch {
		case x.sort == SBool && (verb == 'v' || verb == 't'):
			if m.branch(x) {
				return cstr("true")
			}
			return cstr("false")
		case x.sort == SFP:
			if verb == 'v' && (flags == "" || flags == "#") || verb == 'g' && flags == "" {
				return m.numStr('f', x)
			}
			if verb == 'f' && strings.HasPrefix(flags, ".") {
				p, err := strconv.Atoi("0" + flags[1:])
				if err == nil {
					return m.fixedFloat(x, 'f', p)
				}
			}
			return m.candidateText("%"+flags+string(verb), x, f.t, func(v any) string { return fmt.Sprintf("%"+flags+string(verb), v) })
		case x.sort != SBool && (verb == 'd' || verb == 'v') && (flags == "" || flags == "#"):
			if isSigned(f.t) {
				return m.numStr('i', m.toI64(x, f.t))
			}
			return m.numStr('u', m.toI64(x, f.t))
		case verb == 'c' && flags == "":
			if x.IsConst() {
				return cstr(fmt.Sprintf("%c", rune(x.val)))
			}
			return m.candidateText("%c", x, f.t, func(v any) string { return fmt.Sprintf("%c", v) })
		}
		if x.sort == SBool {
			return opaque("%" + flags + string(verb))
		}
		return m.candidateText("%"+flags+string(verb), x, f.t, func(v any) string { return fmt.Sprintf("%"+flags+string(verb), v) })
	}
	return opaque("%" + flags + string(verb) + " of " + typeName(f.t))
}

func hasFmtMethod(m *Machine, t types.Type) bool {
	if _, ok := t.(*types.Basic); ok {
		return false
	}
	return m.ld.lookupMethod(t, nil, "Error") != nil || m.ld.lookupMethod(t, nil, "String") != nil
}

func concreteVal(f Iface) (any, bool) {
	b, ok := f.t.Underlying().(*types.Basic)
	if !ok {
		return nil, false
	}
	switch x := f.v.(type) {
	case *Str:
		if x.parts == nil && x.conc {
			return x.s, true
		}
	case *Expr:
		if !x.IsConst() {
			return nil, false
		}
		switch b.Kind() {
		case types.Bool:
			return x.val == 1, true
		case types.Int:
			return int(x.Int()), true
		case types.Int64:
			return x.Int(), true
		case types.Int32:
			return int32(x.val), true
		case types.Int16:
			return int16(x.val), true
		case types.Int8:
			return int8(x.val), true
		case types.Uint8:
			return uint8(x.val), true
		case types.Uint16:
			return uint16(x.val), true
		case types.Uint32:
			return uint32(x.val), true
		case types.Uint64:
			return x.val, true
		case types.Uint:
			return uint(x.val), true
		case types.Float64:
			return x.F(), true
		case types.Float32:
			return float32(x.F()), true
		}
	}
	return nil, false
}

// fixedFloat is %.Nf.
func (m *Machine) fixedFloat(e *Expr, verb byte, prec int) *Str {
	c := m.ctx
	if e.IsConst() {
		return cstr(strconv.FormatFloat(e.F(), verb, prec, 64))
	}
	if verb == 'f' && prec == 0 {
		small := c.And(c.Bin(OFLt, e, c.Float(9e18)), c.Bin(OFLt, c.Float(-9e18), e))
		if !m.branch(small) {
			return m.candidateText("%.f of a large float", e, types.Typ[types.Float64], func(v any) string { return strconv.FormatFloat(v.(float64), verb, prec, 64) })
		}
		r := c.Un(OFRoundEven, SFP, e)
		if m.branch(c.Eq(r, c.Float(math.Copysign(0, -1)))) {
			return cstr("-0")
		}
		return m.numStr('i', c.Un(OFToS, 64, r))
	}
	return m.candidateText("float with fixed precision", e, types.Typ[types.Float64], func(v any) string { return strconv.FormatFloat(v.(float64), verb, prec, 64) })
}
