// Package zzgen builds symbolic TSON documents and holds the reference definitions
// that the harnesses compare the real code with.
package zzgen

import (
	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/zzvf"
)

// Leaf kinds.
const (
	KStr = iota
	KNum
	KBool
	KNull // no leaf: null
)

// Opt bounds a symbolic document.
type Opt struct {
	Depth    int      // nesting depth of containers
	Width    int      // entries per container
	Keys     []string // object keys, in order
	StrLen   int      // longest string value
	Alphabet string   // bytes of string values, "" = any byte
	Kinds    []int    // leaf kinds
	TSLo     int64
	TSHi     int64   // timestamps in [TSLo,TSHi]; TSLo==TSHi==0: every int64
	Empty    bool    // empty containers too
	Stamps   []int64 // if given, timestamps are one of these
}

func (o *Opt) TS(name string) int64 {
	if o.Stamps != nil {
		return o.Stamps[zzvf.Choose(name+".ts", len(o.Stamps))]
	}
	t := zzvf.Int64(name + ".ts")
	if o.TSLo != 0 || o.TSHi != 0 {
		zzvf.Assume(zzvf.And(t >= o.TSLo, t <= o.TSHi))
	}
	return t
}

// LeafKind makes a leaf of one kind.
func (o *Opt) LeafKind(name string, k int) tson.Value {
	switch k {
	case KStr:
		n := 0
		if o.StrLen > 0 {
			n = zzvf.Choose(name+".len", o.StrLen+1)
		}
		return tson.Leaf[string]{Value: zzvf.Str(name+".s", n, o.Alphabet), Timestamp: o.TS(name)}
	case KNum:
		return tson.Leaf[float64]{Value: zzvf.Float64(name + ".f"), Timestamp: o.TS(name)}
	case KNull:
		return nil
	}
	return tson.Leaf[bool]{Value: zzvf.Bool(name + ".b"), Timestamp: o.TS(name)}
}

func (o *Opt) Leaf(name string) tson.Value {
	ks := o.Kinds
	if ks == nil {
		ks = []int{KStr, KNum, KBool}
	}
	return o.LeafKind(name, ks[zzvf.Choose(name+".kind", len(ks))])
}

// Value makes a document of depth at most d.
func (o *Opt) Value(name string, d int) tson.Value {
	if d <= 0 {
		return o.Leaf(name)
	}
	switch zzvf.Choose(name+".shape", 3) {
	case 0:
		return o.Leaf(name)
	case 1:
		return o.Object(name, d)
	}
	return o.Array(name, d)
}

func (o *Opt) width(name string) int {
	if o.Empty {
		return zzvf.Choose(name+".width", o.Width+1)
	}
	return 1 + zzvf.Choose(name+".width", o.Width)
}

func (o *Opt) Object(name string, d int) tson.Value {
	n := o.width(name)
	obj := tson.Object{}
	for i := 0; i < n; i++ {
		obj[o.Keys[i]] = o.Value(name+"."+o.Keys[i], d-1)
	}
	return obj
}

func (o *Opt) Array(name string, d int) tson.Value {
	n := o.width(name)
	arr := tson.Array{}
	for i := 0; i < n; i++ {
		arr = append(arr, o.Value(name+"."+string(rune('0'+i)), d-1))
	}
	return arr
}

// Clone copies a document.
func Clone(v tson.Value) tson.Value {
	switch x := v.(type) {
	case tson.Object:
		r := tson.Object{}
		for k, c := range x {
			r[k] = Clone(c)
		}
		return r
	case tson.Array:
		r := make(tson.Array, len(x))
		for i, c := range x {
			r[i] = Clone(c)
		}
		return r
	}
	return v
}

// Same is structural equality without forking on leaf contents; withTS compares timestamps too.
func Same(a, b tson.Value, withTS bool) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case tson.Leaf[string]:
		y, ok := b.(tson.Leaf[string])
		if !ok || len(x.Value) != len(y.Value) {
			return false
		}
		return zzvf.And(x.Value == y.Value, zzvf.Or(!withTS, x.Timestamp == y.Timestamp))
	case tson.Leaf[float64]:
		y, ok := b.(tson.Leaf[float64])
		if !ok {
			return false
		}
		return zzvf.And(x.Value == y.Value, zzvf.Or(!withTS, x.Timestamp == y.Timestamp))
	case tson.Leaf[bool]:
		y, ok := b.(tson.Leaf[bool])
		if !ok {
			return false
		}
		return zzvf.And(x.Value == y.Value, zzvf.Or(!withTS, x.Timestamp == y.Timestamp))
	case tson.Object:
		y, ok := b.(tson.Object)
		if !ok || len(x) != len(y) {
			return false
		}
		r := true
		for k, c := range x {
			d, ok := y[k]
			if !ok {
				return false
			}
			r = zzvf.And(r, Same(c, d, withTS))
		}
		return r
	case tson.Array:
		y, ok := b.(tson.Array)
		if !ok || len(x) != len(y) {
			return false
		}
		r := true
		for i, c := range x {
			r = zzvf.And(r, Same(c, y[i], withTS))
		}
		return r
	}
	return false
}

// Stamp is the timestamp of a leaf.
func Stamp(v tson.Value) (int64, bool) {
	switch x := v.(type) {
	case tson.Leaf[string]:
		return x.Timestamp, true
	case tson.Leaf[float64]:
		return x.Timestamp, true
	case tson.Leaf[bool]:
		return x.Timestamp, true
	}
	return 0, false
}

// Leaves calls f for every leaf.
func Leaves(v tson.Value, f func(v tson.Value, ts int64)) {
	switch x := v.(type) {
	case tson.Object:
		for _, c := range x {
			Leaves(c, f)
		}
	case tson.Array:
		for _, c := range x {
			Leaves(c, f)
		}
	default:
		if ts, ok := Stamp(v); ok {
			f(v, ts)
		}
	}
}

// SameText is equality as kept by the text form: absent timestamps are all alike.
func SameText(a, b tson.Value) bool {
	ts := true
	if !sameShape(a, b, &ts) {
		return false
	}
	return zzvf.And(Same(a, b, false), ts)
}

func sameShape(a, b tson.Value, ok *bool) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case tson.Object:
		y, is := b.(tson.Object)
		if !is || len(x) != len(y) {
			return false
		}
		for k, c := range x {
			d, has := y[k]
			if !has || !sameShape(c, d, ok) {
				return false
			}
		}
		return true
	case tson.Array:
		y, is := b.(tson.Array)
		if !is || len(x) != len(y) {
			return false
		}
		for i, c := range x {
			if !sameShape(c, y[i], ok) {
				return false
			}
		}
		return true
	}
	s, isa := Stamp(a)
	t, isb := Stamp(b)
	if !isa || !isb {
		return false
	}
	*ok = zzvf.And(*ok, zzvf.Or(s == t, zzvf.And(s < 0, t < 0)))
	return true
}

// Segments splits an RFC 6901 pointer; ok is false if it is not one. An unpaired ~ stands for itself.
func Segments(path string) (parts []string, ok bool) {
	if len(path) == 0 {
		return nil, true
	}
	if path[0] != '/' {
		return nil, false
	}
	cur := []byte{}
	for i := 1; i < len(path); i++ {
		c := path[i]
		if c == '/' {
			parts = append(parts, string(cur))
			cur = []byte{}
			continue
		}
		if c == '~' && i+1 < len(path) && path[i+1] == '0' {
			i++
			cur = append(cur, '~')
			continue
		}
		if c == '~' && i+1 < len(path) && path[i+1] == '1' {
			i++
			cur = append(cur, '/')
			continue
		}
		cur = append(cur, c)
	}
	return append(parts, string(cur)), true
}

// Index reads an array index: no sign, no leading zero, in range.
func Index(s string, n int) (int, bool) {
	if len(s) == 0 || len(s) > 1 && s[0] == '0' {
		return 0, false
	}
	r := 0
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		r = r*10 + int(s[i]-'0')
		if r > 1<<20 {
			return 0, false
		}
	}
	return r, r < n
}

// Lookup is the reference definition of RFC 6901 evaluation.
func Lookup(doc tson.Value, path string) (tson.Value, bool) {
	parts, ok := Segments(path)
	if !ok {
		return nil, false
	}
	for _, p := range parts {
		switch x := doc.(type) {
		case tson.Object:
			c, has := x[p]
			if !has {
				return nil, false
			}
			doc = c
		case tson.Array:
			i, has := Index(p, len(x))
			if !has {
				return nil, false
			}
			doc = x[i]
		default:
			return nil, false
		}
	}
	return doc, true
}

// Escape encodes one key as a pointer segment.
func Escape(k string) string {
	b := []byte{}
	for i := 0; i < len(k); i++ {
		switch k[i] {
		case '~':
			b = append(b, '~', '0')
		case '/':
			b = append(b, '~', '1')
		default:
			b = append(b, k[i])
		}
	}
	return string(b)
}

// Pointer joins segments to an RFC 6901 pointer.
func Pointer(parts []string) string {
	p := ""
	for _, s := range parts {
		p += "/" + Escape(s)
	}
	return p
}

// Put is doc with the leaf v at the place; ok tells whether the place's parent exists and can hold it.
// grow: the place lies behind the end of an array or does not exist yet (replace) and doc was extended.
func Put(doc tson.Value, parts []string, v tson.Value) (r tson.Value, ok, fresh bool) {
	if len(parts) == 0 {
		return v, true, false
	}
	switch x := doc.(type) {
	case tson.Object:
		o := tson.Object{}
		for k, c := range x {
			o[k] = c
		}
		c, has := x[parts[0]]
		if len(parts) == 1 {
			o[parts[0]] = v
			return o, true, !has
		}
		if !has {
			return nil, false, false
		}
		if c, ok, fresh = Put(c, parts[1:], v); !ok {
			return nil, false, false
		}
		o[parts[0]] = c
		return o, true, fresh
	case tson.Array:
		a := append(tson.Array{}, x...)
		i, _ := Index(parts[0], 1<<20)
		if len(parts) == 1 && i == len(a) && isIndex(parts[0]) {
			return append(a, v), true, true
		}
		if i, has := Index(parts[0], len(a)); has {
			c, ok, fresh := Put(a[i], parts[1:], v)
			if !ok {
				return nil, false, false
			}
			a[i] = c
			return a, true, fresh
		}
	}
	return nil, false, false
}

func isIndex(s string) bool {
	_, ok := Index(s, 1<<20)
	return ok
}

// Cut is doc without the place; ok tells whether the place exists.
func Cut(doc tson.Value, parts []string) (r tson.Value, ok bool) {
	if len(parts) == 0 {
		return nil, false
	}
	switch x := doc.(type) {
	case tson.Object:
		c, has := x[parts[0]]
		if !has {
			return nil, false
		}
		o := tson.Object{}
		for k, d := range x {
			o[k] = d
		}
		if len(parts) == 1 {
			delete(o, parts[0])
			return o, true
		}
		if c, ok = Cut(c, parts[1:]); !ok {
			return nil, false
		}
		o[parts[0]] = c
		return o, true
	case tson.Array:
		i, has := Index(parts[0], len(x))
		if !has {
			return nil, false
		}
		if len(parts) == 1 {
			a := append(tson.Array{}, x[:i]...)
			return append(a, x[i+1:]...), true
		}
		c, ok := Cut(x[i], parts[1:])
		if !ok {
			return nil, false
		}
		a := append(tson.Array{}, x...)
		a[i] = c
		return a, true
	}
	return nil, false
}

// MakeLeaf is the leaf of a plain value.
func MakeLeaf(v any, ts int64) tson.Value {
	switch x := v.(type) {
	case string:
		return tson.Leaf[string]{Value: x, Timestamp: ts}
	case float64:
		return tson.Leaf[float64]{Value: x, Timestamp: ts}
	case int:
		return tson.Leaf[float64]{Value: float64(x), Timestamp: ts}
	case bool:
		return tson.Leaf[bool]{Value: x, Timestamp: ts}
	}
	return nil
}

// Plain is the value of a leaf.
func Plain(v tson.Value) any {
	switch x := v.(type) {
	case tson.Leaf[string]:
		return x.Value
	case tson.Leaf[float64]:
		return x.Value
	case tson.Leaf[bool]:
		return x.Value
	}
	return nil
}

// SameAny compares plain leaf values without forking on their contents.
func SameAny(a, b any) bool {
	if i, ok := a.(int); ok {
		a = float64(i)
	}
	if i, ok := b.(int); ok {
		b = float64(i)
	}
	switch x := a.(type) {
	case nil:
		return b == nil
	case string:
		y, ok := b.(string)
		return ok && len(x) == len(y) && x == y
	case float64:
		y, ok := b.(float64)
		return ok && x == y
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	}
	return false
}
