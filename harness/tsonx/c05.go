package tsonx

import (
	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/zzgen"
	vf "github.com/CAU-CPSS/logument/internal/zzvf"
)

// C05: equality.

func checkEqual(a, b tson.Value) {
	vf.SetOrder("ins")
	ca, cb := zzgen.Clone(a), zzgen.Clone(b)
	vf.SetOrder(vf.Pick("order", "ins", "rev"))
	e, err := tson.Equal(a, b)
	vf.Assert(err == nil, "comparing fails")
	e2, err := tson.Equal(b, a)
	vf.Assert(err == nil, "comparing fails")
	w, err := tson.EqualWithoutTimestamp(a, b)
	vf.Assert(err == nil, "comparing without timestamps fails")
	w2, err := tson.EqualWithoutTimestamp(b, a)
	vf.Assert(err == nil, "comparing without timestamps fails")
	vf.SetOrder("ins")
	se, sw := zzgen.Same(ca, cb, true), zzgen.Same(ca, cb, false)
	vf.Assert(e == se, "equality is wrong")
	vf.Assert(e2 == se, "equality is not symmetric")
	vf.Assert(w == sw, "equality without timestamps is wrong")
	vf.Assert(w2 == sw, "equality without timestamps is not symmetric")
	vf.Assert(vf.And(zzgen.Same(ca, a, true), zzgen.Same(cb, b, true)), "comparing changes a document")
	if e {
		vf.Reach("equal")
	} else if w {
		vf.Reach("equal but for timestamps")
	} else {
		vf.Reach("different")
	}
}

// two leaves of every type
func C05_leaves() {
	o := &zzgen.Opt{StrLen: vf.Param("C05 string length", 3, 6)}
	w := vf.Choose("in", 3)
	put := func(v tson.Value) tson.Value {
		switch w {
		case 1:
			return tson.Object{"k": v}
		case 2:
			return tson.Array{v}
		}
		return v
	}
	a := o.Leaf("a")
	b := o.Leaf("b")
	checkEqual(put(a), put(b))
}

// two independent documents
func C05_pairs() {
	o := &zzgen.Opt{Width: vf.Param("C05 width", 2, 3), Keys: []string{"a", "b", "c"}, Kinds: []int{zzgen.KBool, zzgen.KNum}, Empty: true}
	checkEqual(o.Value("p", 1), o.Value("q", 1))
}

// two nested documents
func C05_nested() {
	o := &zzgen.Opt{Width: 2, Keys: []string{"a", "b"}, Kinds: []int{zzgen.KBool}}
	a := o.Value("p", 2)
	p := &zzgen.Opt{Width: 2, Keys: []string{"b", "a"}, Kinds: []int{zzgen.KBool}}
	b := p.Value("q", vf.Param("C05 second depth", 1, 2))
	checkEqual(a, b)
}

// symbolic names
func C05_keys() {
	n := vf.Param("C05 key length", 1, 3)
	key := func(s string) string { return vf.Str(s, vf.Choose(s+".len", n+1), "") }
	leaf := func(s string) tson.Value { return tson.Leaf[bool]{Value: vf.Bool(s), Timestamp: vf.Int64(s + ".ts")} }
	a := tson.Object{key("k1"): leaf("v1"), "m": leaf("v2")}
	b := tson.Object{"m": leaf("w2"), key("k2"): leaf("w1")}
	checkEqual(a, b)
}

// a copy of a document with one difference somewhere
func C05_mutant() {
	o := &zzgen.Opt{Width: 2, Keys: []string{"a", "b"}}
	a := tson.Object{"x": tson.Array{o.Leaf("l1"), tson.Object{"y": o.Leaf("l2")}}, "z": tson.Object{}, "n": nil}
	b := zzgen.Clone(a).(tson.Object)
	arr := b["x"].(tson.Array)
	switch vf.Choose("change", 9) {
	case 0:
	case 1:
		arr[0] = o.Leaf("m")
	case 2:
		arr[1].(tson.Object)["y"] = o.Leaf("m")
	case 3:
		arr[0], arr[1] = arr[1], arr[0]
	case 4:
		b["x"] = arr[:1]
	case 5:
		b["z"] = tson.Array{}
	case 6:
		delete(b, "n")
	case 7:
		b["n"] = tson.Object{}
	case 8:
		arr[1].(tson.Object)["w"] = nil
	}
	checkEqual(a, b)
}

// member order never matters
func C05_order() {
	o := &zzgen.Opt{Width: 3, Keys: []string{"a", "b", "c"}, Kinds: []int{zzgen.KBool}}
	vf.SetOrder("perm")
	a := o.Object("p", 1)
	b := o.Object("q", 1)
	e, _ := tson.Equal(a, b)
	w, _ := tson.EqualWithoutTimestamp(a, b)
	vf.SetOrder("ins")
	vf.Assert(e == zzgen.Same(a, b, true), "equality is wrong")
	vf.Assert(w == zzgen.Same(a, b, false), "equality without timestamps is wrong")
}

// member sets of every kind, null and empty members too
func C05_members() {
	obj := func(s string) tson.Value {
		r := tson.Object{}
		for _, k := range []string{"a", "b", "c"}[:vf.Param("C05 members", 3, 3)] {
			switch vf.Choose(s+k, 5) {
			case 0:
			case 1:
				r[k] = nil
			case 2:
				r[k] = tson.Object{}
			case 3:
				r[k] = tson.Array{}
			case 4:
				r[k] = tson.Leaf[bool]{Value: vf.Bool(s + k + ".v"), Timestamp: vf.Int64(s + k + ".ts")}
			}
		}
		return r
	}
	checkEqual(obj("x"), obj("y"))
}

// arrays with nulls
func C05_elements() {
	o := &zzgen.Opt{Kinds: []int{zzgen.KBool, zzgen.KNull, zzgen.KStr}, StrLen: 1}
	arr := func(s string) tson.Value {
		r := tson.Array{}
		for i, n := 0, vf.Choose(s+".n", 3+vf.Param("C05 elements", 0, 1)); i < n; i++ {
			r = append(r, o.Leaf(s+string(rune('0'+i))))
		}
		return r
	}
	checkEqual(arr("x"), arr("y"))
}
