package tsonx

import (
	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/zzgen"
	vf "github.com/CAU-CPSS/logument/internal/zzvf"
)

// C01: TSON text round trip.

func textTrip(d tson.Value) {
	want := zzgen.Clone(d)
	var text []byte
	var err error
	if vf.Choose("indented", 2) == 0 {
		text, err = tson.Marshal(d)
	} else {
		text, err = tson.MarshalIndent(d, "", "  ")
	}
	vf.Assert(err == nil, "a document cannot be serialised")
	var back tson.Tson
	err = tson.Unmarshal(text, &back)
	vf.Assert(err == nil, "serialised text cannot be parsed")
	vf.SetOrder("ins")
	vf.Assert(zzgen.SameText(want, back), "the text round trip changes the document")
	vf.Assert(zzgen.Same(want, d, true), "serialising changes the document")
	vf.Reach("round trip")
}

// every shape of document
func C01_shapes() {
	o := &zzgen.Opt{Width: vf.Param("C01 width", 2, 3), Keys: []string{"a", "b", "c"}, Kinds: []int{zzgen.KStr}, TSLo: -2, TSHi: 9, Empty: true}
	textTrip(o.Value("d", 2))
}

// every mix of leaves
func C01_mixed() {
	o := &zzgen.Opt{Width: 2, Keys: []string{"a", "b"}, TSLo: 1700000000, TSHi: 1700000009}
	textTrip(o.Value("d", 1))
}

// nesting
func C01_deep() {
	var d tson.Value = tson.Leaf[string]{Value: "x", Timestamp: int64(vf.Int("ts", -1, 3))}
	n := vf.Param("C01 levels", 5, 8)
	for i := 0; i < n; i++ {
		if vf.Choose("arr", 2) == 0 {
			d = tson.Object{"x": d}
		} else {
			d = tson.Array{d}
		}
	}
	textTrip(d)
}

// member order is whatever the map gives
func C01_order() {
	o := &zzgen.Opt{Width: 3, Keys: []string{"a", "b", "c"}, Kinds: []int{zzgen.KBool}, TSLo: -1, TSHi: 9}
	vf.SetOrder("perm")
	textTrip(o.Object("d", 1))
}

func within(name string, l tson.Value) tson.Value {
	switch vf.Choose(name+".in", 4) {
	case 0:
		return l
	case 1:
		return tson.Object{"k": l}
	case 2:
		return tson.Array{l}
	}
	return tson.Object{"o": tson.Array{tson.Object{"k": l}}}
}

// every timestamp and boolean in every position
func C01_timestamps() {
	textTrip(within("w", tson.Leaf[bool]{Value: vf.Bool("b"), Timestamp: vf.Int64("ts")}))
}

// every finite number in every position
func C01_numbers() {
	textTrip(within("w", tson.Leaf[float64]{Value: vf.Float64("f"), Timestamp: int64(vf.Int("ts", -1, 3))}))
}

// every string value up to the length, any bytes
func C01_strings() {
	n := vf.Choose("len", vf.Param("C01 string length", 2, 3)+1)
	textTrip(within("w", tson.Leaf[string]{Value: vf.Str("s", n, ""), Timestamp: int64(vf.Int("ts", -1, 3))}))
}

// longer strings, in one position
func C01_long() {
	n := vf.Param("C01 long string length", 0, 4)
	if n > 0 {
		textTrip(tson.Array{tson.Leaf[string]{Value: vf.Str("s", n, ""), Timestamp: 1}})
	}
}

// every member name up to the length, any bytes
func C01_keys() {
	n := vf.Choose("len", vf.Param("C01 key length", 2, 3)+1)
	k := vf.Str("k", n, "")
	var v tson.Value
	switch vf.Choose("v", 3) {
	case 0:
		v = tson.Leaf[bool]{Value: true, Timestamp: 1}
	case 1:
		v = tson.Object{"x": tson.Leaf[float64]{Value: 2, Timestamp: -1}}
	case 2:
		v = tson.Array{}
	}
	textTrip(tson.Object{k: v})
}

// two symbolic names side by side
func C01_twokeys() {
	n := vf.Param("C01 two names", 1, 2)
	k1, k2 := vf.Str("k1", vf.Choose("n1", n+1), ""), vf.Str("k2", vf.Choose("n2", n+1), "")
	textTrip(tson.Object{k1: tson.Leaf[float64]{Value: 1, Timestamp: 5}, k2: tson.Leaf[float64]{Value: 2, Timestamp: 6}})
}

// null members
func C01_null() {
	switch vf.Choose("doc", 5) {
	case 0:
		textTrip(nil)
	case 1:
		textTrip(tson.Array{nil, tson.Leaf[bool]{Value: true, Timestamp: 3}})
	case 2:
		textTrip(tson.Object{"a": nil})
	case 3:
		textTrip(tson.Object{"a": tson.Array{nil, nil}, "b": tson.Leaf[string]{Value: "null", Timestamp: -1}})
	case 4:
		textTrip(tson.Array{tson.Object{"": nil}})
	}
}

// white-space prefix and indent
func C01_indent() {
	d := tson.Object{"a": tson.Array{tson.Leaf[bool]{Value: true, Timestamp: 3}, tson.Object{}}, "b": tson.Leaf[float64]{Value: 1.5, Timestamp: -1}}
	text, err := tson.MarshalIndent(d, vf.Str("prefix", vf.Choose("np", 3), " \t"), vf.Str("indent", vf.Choose("ni", 3), " \t"))
	vf.Assert(err == nil, "a document cannot be serialised")
	var back tson.Tson
	vf.Assert(tson.Unmarshal(text, &back) == nil, "indented text cannot be parsed")
	vf.SetOrder("ins")
	vf.Assert(zzgen.SameText(d, back), "the indented text round trip changes the document")
}

// the indented form of the JSON-compatible form denotes the same document
func C01_compatible() {
	// timestamps go through float64 in this form, concrete ones keep the queries small
	o := &zzgen.Opt{Width: 2, Keys: []string{"a", "b"}, StrLen: 1, Alphabet: "x\"\\", Stamps: []int64{-1, 1<<53 - 1}}
	d := o.Value("d", 1)
	if vf.Choose("nest", 2) == 1 {
		d = tson.Array{tson.Object{"x": d}}
	}
	var c any
	vf.Assert(tson.ToCompatibleTson(d, &c) == nil, "no compatible form")
	text, err := tson.MarshalIndent(c, "", "  ")
	vf.Assert(err == nil, "the compatible form cannot be serialised")
	var back tson.Tson
	vf.Assert(tson.Unmarshal(text, &back) == nil, "the compatible form's text cannot be parsed")
	vf.SetOrder("ins")
	vf.Assert(zzgen.SameText(d, back), "the compatible form's text denotes another document")
}
