package tsonx

import (
	"bytes"
	"encoding/json"
	"strconv"
	"unicode/utf8"

	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/zzgen"
	vf "github.com/CAU-CPSS/logument/internal/zzvf"
)

// C04: the JSON-compatible form.

func compatTrip(d tson.Value) {
	want := zzgen.Clone(d)
	var text []byte
	var err error
	switch vf.Choose("form", 3) {
	case 0:
		text, err = tson.ToCompatibleTsonBytes(d)
	case 1:
		text, err = tson.ToCompatibleTsonBytesSorted(d)
	case 2:
		text = []byte(tson.ToCompatibleTsonString(d))
	}
	vf.Assert(err == nil, "a document has no JSON form")
	var back tson.Tson
	vf.Assert(tson.FromCompatibleTsonBytes(text, &back) == nil, "the JSON form cannot be read back")
	vf.SetOrder("ins")
	vf.Assert(zzgen.Same(want, back, true), "the JSON round trip changes the document")
	vf.Assert(zzgen.Same(want, d, true), "converting changes the document")
	vf.Reach("round trip")
}

// every shape, every timestamp
func C04_shapes() {
	o := &zzgen.Opt{Width: 2, Keys: []string{"a", "b"}, Kinds: []int{zzgen.KStr}, Empty: true, TSLo: -9, TSHi: 9}
	compatTrip(o.Value("d", 2))
}

func C04_mixed() {
	o := &zzgen.Opt{Width: 2, Keys: []string{"value", "timestamp"}, TSLo: 1 << 60, TSHi: 1<<60 + 9}
	compatTrip(o.Value("d", 1))
}

func C04_order() {
	o := &zzgen.Opt{Width: 3, Keys: []string{"c", "a", "b"}, Kinds: []int{zzgen.KBool}, TSLo: -1, TSHi: 9}
	vf.SetOrder("perm")
	compatTrip(o.Object("d", 1))
}

func C04_timestamps() {
	compatTrip(within("w", tson.Leaf[bool]{Value: vf.Bool("b"), Timestamp: vf.Int64("ts")}))
}

func C04_numbers() {
	compatTrip(within("w", tson.Leaf[float64]{Value: vf.Float64("f"), Timestamp: 7}))
}

func C04_strings() {
	n := vf.Choose("len", vf.Param("C04 string length", 2, 4)+1)
	s := vf.Str("s", n, "")
	vf.Assume(utf8.ValidString(s))
	compatTrip(within("w", tson.Leaf[string]{Value: s, Timestamp: 7}))
}

func C04_keys() {
	n := vf.Choose("len", vf.Param("C04 key length", 2, 3)+1)
	k := vf.Str("k", n, "")
	vf.Assume(utf8.ValidString(k))
	var v tson.Value
	switch vf.Choose("v", 3) {
	case 0:
		v = tson.Leaf[bool]{Value: true, Timestamp: 1}
	case 1:
		v = tson.Object{k: tson.Leaf[float64]{Value: 2, Timestamp: -1}}
	case 2:
		v = tson.Array{}
	}
	compatTrip(tson.Object{k: v, "other": tson.Leaf[bool]{Value: false, Timestamp: 2}})
}

// names that look like the encoding of a leaf
func C04_leaflike() {
	names := []string{"value", "timestamp", "v", "Value"}
	part := func(n string) tson.Value {
		switch vf.Choose(n, 5) {
		case 0:
			return nil
		case 1:
			return tson.Leaf[float64]{Value: 3, Timestamp: vf.Int64(n + ".ts")}
		case 2:
			return tson.Leaf[string]{Value: "x", Timestamp: 4}
		case 3:
			return tson.Object{}
		}
		return tson.Object{"value": tson.Leaf[bool]{Value: true, Timestamp: 5}, "timestamp": tson.Leaf[float64]{Value: 6, Timestamp: 7}}
	}
	d := tson.Object{names[vf.Choose("k1", 4)]: part("p1"), names[vf.Choose("k2", 4)]: part("p2")}
	switch vf.Choose("in", 3) {
	case 0:
		compatTrip(d)
	case 1:
		compatTrip(tson.Array{d})
	case 2:
		compatTrip(tson.Object{"value": d})
	}
}

// pairs checks that j is the form with value/timestamp pairs.
func pairs(d tson.Value, j any) bool {
	switch x := d.(type) {
	case nil:
		return j == nil
	case tson.Object:
		m, ok := j.(map[string]any)
		if !ok || len(m) != len(x) {
			return false
		}
		for k, c := range x {
			v, has := m[k]
			if !has || !pairs(c, v) {
				return false
			}
		}
		return true
	case tson.Array:
		a, ok := j.([]any)
		if !ok || len(a) != len(x) {
			return false
		}
		for i, c := range x {
			if !pairs(c, a[i]) {
				return false
			}
		}
		return true
	}
	m, ok := j.(map[string]any)
	if !ok || len(m) != 2 {
		return false
	}
	ts, _ := zzgen.Stamp(d)
	n, ok := m["timestamp"].(json.Number)
	if !ok || string(n) != strconv.FormatInt(ts, 10) {
		return false
	}
	switch x := d.(type) {
	case tson.Leaf[string]:
		s, ok := m["value"].(string)
		return ok && s == x.Value
	case tson.Leaf[bool]:
		b, ok := m["value"].(bool)
		return ok && b == x.Value
	case tson.Leaf[float64]:
		n, ok := m["value"].(json.Number)
		if !ok {
			return false
		}
		f, err := n.Float64()
		return err == nil && f == x.Value
	}
	return false
}

// leaves are written as value/timestamp pairs
func C04_pairs() {
	o := &zzgen.Opt{Width: 2, Keys: []string{"a", "value"}, Stamps: []int64{-1, 0, 1<<63 - 1}, StrLen: 1, Alphabet: "x\""}
	d := o.Value("d", 1)
	if vf.Choose("nest", 2) == 1 {
		d = tson.Array{nil, tson.Object{"x": d}}
	}
	var text []byte
	var err error
	switch vf.Choose("form", 3) {
	case 0:
		text, err = tson.ToCompatibleTsonBytes(d)
	case 1:
		text, err = tson.ToCompatibleTsonBytesSorted(d)
	case 2:
		text = []byte(tson.ToCompatibleTsonString(d))
	}
	vf.Assert(err == nil, "a document has no JSON form")
	dec := json.NewDecoder(bytes.NewReader(text))
	dec.UseNumber()
	var j any
	vf.Assert(dec.Decode(&j) == nil, "the JSON form is not JSON")
	vf.SetOrder("ins")
	vf.Assert(pairs(d, j), "the JSON form does not hold value/timestamp pairs")
}

// reading rejects what is no compatible form, without crashing
func C04_reader() {
	text := vf.Str("s", 1+vf.Choose("len", vf.Param("C04 token length", 4, 6)), "{}[],:\"-.e01 ")
	var d tson.Tson
	if tson.FromCompatibleTsonBytes([]byte(text), &d) != nil {
		vf.Reach("rejected")
		return
	}
	vf.Reach("accepted")
	var j any
	vf.Assert(json.Unmarshal([]byte(text), &j) == nil, "no JSON is accepted")
}

var compatSeeds = []string{
	`{"a":{"value":1,"timestamp":12}}`,
	`[{"value":"x","timestamp":-1},{"value":true,"timestamp":3}]`,
	`{"value":"x","timestamp":9223372036854775807}`,
}

// one byte replaced: accepted text means what its JSON means
func C04_replace() {
	b := []byte(compatSeeds[vf.Choose("seed", len(compatSeeds))])
	b[vf.Choose("pos", len(b))] = vf.Byte("x")
	var d tson.Tson
	if tson.FromCompatibleTsonBytes(b, &d) != nil {
		vf.Reach("rejected")
		return
	}
	vf.Reach("accepted")
	var j any
	vf.Assert(json.Unmarshal(b, &j) == nil, "no JSON is accepted")
	tson.GetLatestTimestamp(d)
	_, err := tson.ToCompatibleTsonBytes(d)
	vf.Assert(err == nil, "an accepted document cannot be written")
}
