package tsonx

import (
	"encoding/json"
	"unicode/utf8"

	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/zzgen"
	vf "github.com/CAU-CPSS/logument/internal/zzvf"
)

// C06: JSON to TSON and back.

type jopt struct {
	keys   []string
	width  int
	strLen int
	prims  int // kinds of primitives
}

func (o *jopt) prim(name string) any {
	switch vf.Choose(name+".prim", o.prims) {
	case 0:
		s := vf.Str(name, vf.Choose(name+".len", o.strLen+1), "")
		vf.Assume(utf8.ValidString(s))
		return s
	case 1:
		return vf.Bool(name)
	case 2:
		return nil
	}
	return vf.Float64(name)
}

func (o *jopt) value(name string, d int) any {
	if d == 0 {
		return o.prim(name)
	}
	switch vf.Choose(name+".shape", 3) {
	case 0:
		return o.prim(name)
	case 1:
		m := map[string]any{}
		for i, n := 0, vf.Choose(name+".width", o.width+1); i < n; i++ {
			m[o.keys[i]] = o.value(name+"."+o.keys[i], d-1)
		}
		return m
	}
	a := []any{}
	for i, n := 0, vf.Choose(name+".width", o.width+1); i < n; i++ {
		a = append(a, o.value(name+"."+string(rune('0'+i)), d-1))
	}
	return a
}

func cloneAny(j any) any {
	switch x := j.(type) {
	case map[string]any:
		m := map[string]any{}
		for k, v := range x {
			m[k] = cloneAny(v)
		}
		return m
	case []any:
		a := make([]any, len(x))
		for i, v := range x {
			a[i] = cloneAny(v)
		}
		return a
	}
	return j
}

func sameAny(a, b any) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case string:
		y, ok := b.(string)
		return ok && x == y
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case float64:
		y, ok := b.(float64)
		return ok && x == y
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, has := y[k]
			if !has || !sameAny(v, w) {
				return false
			}
		}
		return true
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i, v := range x {
			if !sameAny(v, y[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func imported(j any, d tson.Value) bool {
	all := true
	zzgen.Leaves(d, func(_ tson.Value, ts int64) { all = all && ts == tson.DefaultTimestamp })
	return all && sameJson(d, j)
}

func jsonTrip(j any) {
	want := cloneAny(j)
	var d tson.Tson
	vf.Assert(tson.FromJson(j, &d) == nil, "a JSON value cannot be imported")
	vf.SetOrder("ins")
	vf.Assert(sameAny(want, j), "importing changes the JSON value")
	vf.Assert(imported(want, d), "the imported document has other values or timestamps")
	copied := zzgen.Clone(d)
	vf.SetOrder("")
	var out any
	vf.Assert(tson.ToJson(d, &out) == nil, "an imported document cannot be exported")
	vf.SetOrder("ins")
	vf.Assert(sameAny(want, out), "the JSON value changes on the way through TSON")
	vf.Assert(zzgen.Same(copied, d, true), "exporting changes the document")
	vf.Reach("round trip")
}

func C06_shapes() {
	o := &jopt{keys: []string{"a", "b"}, width: 2, prims: 1}
	jsonTrip(o.value("j", vf.Param("C06 depth", 2, 2)))
}

func C06_prims() {
	o := &jopt{keys: []string{"value", "timestamp", "x"}, width: vf.Param("C06 width", 2, 3), prims: 3}
	jsonTrip(o.value("j", 1))
}

// names that look like the encoding of a leaf, nested
func C06_leaflike() {
	part := func(n string) any {
		switch vf.Choose(n, 5) {
		case 0:
			return 3.0
		case 1:
			return "x"
		case 2:
			return nil
		case 3:
			return map[string]any{"value": true, "timestamp": 6.0}
		}
		return []any{map[string]any{"timestamp": 1.0, "value": "y"}}
	}
	var j any = map[string]any{"value": part("v"), "timestamp": part("t")}
	switch vf.Choose("in", 4) {
	case 1:
		j = []any{j}
	case 2:
		j = map[string]any{"k": j}
	case 3:
		j = map[string]any{"value": j, "timestamp": 5.0}
	}
	jsonTrip(j)
}

func placed(p any) any {
	switch vf.Choose("in", 4) {
	case 1:
		return []any{p}
	case 2:
		return map[string]any{"k": p}
	case 3:
		return map[string]any{"k": []any{map[string]any{"value": p}}}
	}
	return p
}

func C06_strings() {
	o := &jopt{prims: 1, strLen: vf.Param("C06 string length", 2, 4)}
	jsonTrip(placed(o.prim("s")))
}

func C06_numbers() {
	f := vf.Float64("f")
	jsonTrip(placed(f))
}

func C06_keys() {
	k := vf.Str("k", vf.Choose("len", vf.Param("C06 key length", 2, 3)+1), "")
	vf.Assume(utf8.ValidString(k))
	jsonTrip(map[string]any{k: true, "a": map[string]any{k: "x"}})
}

func C06_order() {
	vf.SetOrder("perm")
	j := map[string]any{"a": true, "b": "x", "c": map[string]any{"d": 1.0, "e": nil}}
	var d tson.Tson
	vf.Assert(tson.FromJson(j, &d) == nil, "a JSON value cannot be imported")
	var out any
	vf.Assert(tson.ToJson(d, &out) == nil, "an imported document cannot be exported")
	vf.SetOrder("ins")
	vf.Assert(sameAny(out, map[string]any{"a": true, "b": "x", "c": map[string]any{"d": 1.0, "e": nil}}), "the JSON value changes on the way through TSON")
}

// exporting drops the timestamps and nothing else
func stripped(d tson.Value, j any) bool {
	switch x := d.(type) {
	case nil:
		return j == nil
	case tson.Leaf[string]:
		s, ok := j.(string)
		return ok && s == x.Value
	case tson.Leaf[float64]:
		f, ok := j.(float64)
		return ok && f == x.Value
	case tson.Leaf[bool]:
		b, ok := j.(bool)
		return ok && b == x.Value
	case tson.Object:
		m, ok := j.(map[string]any)
		if !ok || len(m) != len(x) {
			return false
		}
		for k, c := range x {
			v, has := m[k]
			if !has || !stripped(c, v) {
				return false
			}
		}
		return true
	case tson.Array:
		a, ok := j.([]any)
		if !ok || len(a) != len(x) {
			return false
		}
		for i, c := range x {
			if !stripped(c, a[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func export(d tson.Value) {
	want := zzgen.Clone(d)
	var out any
	if vf.Choose("bytes", 2) == 0 {
		vf.Assert(tson.ToJson(d, &out) == nil, "a document cannot be exported")
	} else {
		b, err := tson.ToJsonBytes(d)
		vf.Assert(err == nil, "a document cannot be exported")
		vf.Assert(json.Unmarshal(b, &out) == nil, "the export is not JSON")
	}
	vf.SetOrder("ins")
	vf.Assert(stripped(want, out), "exporting changes more than timestamps")
	vf.Assert(zzgen.Same(want, d, true), "exporting changes the document")
	vf.Reach("export")
}

func C06_export() {
	o := &zzgen.Opt{Width: 2, Keys: []string{"value", "timestamp"}, Kinds: []int{zzgen.KStr, zzgen.KBool}, Stamps: []int64{-1, 1<<63 - 1}, Empty: true}
	export(o.Value("d", 1))
}

func C06_exportdeep() {
	o := &zzgen.Opt{Width: 2, Keys: []string{"value", "timestamp"}, Kinds: []int{zzgen.KStr}, Stamps: []int64{5}, Empty: true}
	export(o.Value("d", 2))
}

func C06_exportnum() {
	l := tson.Leaf[float64]{Value: vf.Float64("f"), Timestamp: 3}
	export(within("w", l))
}

// the byte forms agree with the value forms
func C06_bytes() {
	o := &jopt{keys: []string{"a", "b"}, width: 2, prims: 3, strLen: 1}
	j := o.value("j", 1)
	text, err := json.Marshal(j)
	vf.Assume(err == nil)
	var d tson.Tson
	vf.Assert(tson.FromJsonBytes(text, &d) == nil, "JSON text cannot be imported")
	out, err := tson.ToJsonBytes(d)
	vf.Assert(err == nil, "an imported document cannot be exported")
	var back any
	vf.Assert(json.Unmarshal(out, &back) == nil, "the export is not JSON")
	vf.SetOrder("ins")
	vf.Assert(imported(j, d), "the imported document has other values or timestamps")
	vf.Assert(sameAny(j, back), "JSON text changes on the way through TSON")
}

// An array of leaves as a Go slice has their values in order; anything else in it is an error.
func C06_array() {
	n := vf.Choose("n", vf.Param("C06 array", 3, 5)+1)
	a, want, plain := tson.Array{}, []any{}, true
	for i := 0; i < n; i++ {
		switch vf.Choose("kind", 5) {
		case 0:
			s := vf.Str("s", 1, "")
			a, want = append(a, tson.Leaf[string]{Value: s, Timestamp: vf.Int64("ts")}), append(want, s)
		case 1:
			f := vf.Float64("f")
			a, want = append(a, tson.Leaf[float64]{Value: f, Timestamp: vf.Int64("ts")}), append(want, f)
		case 2:
			b := vf.Bool("b")
			a, want = append(a, tson.Leaf[bool]{Value: b, Timestamp: vf.Int64("ts")}), append(want, b)
		case 3:
			a, plain = append(a, tson.Array{}), false
		case 4:
			a, plain = append(a, tson.Object{"value": tson.Leaf[bool]{Value: true}}), false
		}
	}
	before := zzgen.Clone(a)
	got, err := tson.ToArray(a)
	vf.Assert((err == nil) == plain, "an array converts to a slice exactly if all its elements are leaves")
	if plain {
		vf.Assert(sameAny(any(want), any(got)), "the slice has the values in order")
		vf.Reach("a slice")
	}
	vf.Assert(zzgen.Same(before, a, true), "converting leaves the array alone")
	vf.Reach("array")
}
