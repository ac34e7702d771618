package tsonx

import (
	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/zzgen"
	vf "github.com/CAU-CPSS/logument/internal/zzvf"
)

// C07: path lookup.

// badTilde tells whether the pointer holds a ~ that escapes nothing (no legal pointer).
func badTilde(p string) bool {
	for i := 0; i < len(p); i++ {
		if p[i] == '~' && (i+1 == len(p) || p[i+1] != '0' && p[i+1] != '1') {
			return true
		}
	}
	return false
}

func lookup(d tson.Value, path string) {
	keep := zzgen.Clone(d)
	got, err := tson.GetValue(d, path)
	vf.SetOrder("ins")
	vf.Assert(zzgen.Same(keep, d, true), "a lookup changes the document")
	if badTilde(path) {
		vf.Reach("illegal escape")
		return
	}
	want, ok := zzgen.Lookup(d, path)
	if !ok {
		vf.Assert(err != nil, "a path that denotes nothing gives a value")
		vf.Reach("nothing")
		return
	}
	vf.Assert(err == nil, "a path that denotes a value gives an error")
	vf.Assert(zzgen.Same(want, got, true), "a path gives another value")
	vf.Reach("value")
}

func leaf(i int64) tson.Value { return tson.Leaf[float64]{Value: float64(i), Timestamp: i} }

var docs = []tson.Value{
	tson.Object{"": leaf(1), "a": leaf(2), "a/b": leaf(3), "~": leaf(4), "~1": leaf(5), "0": leaf(6), "/": leaf(7), "~0": leaf(8), "-": leaf(10), "01": leaf(11)},
	tson.Object{"a": tson.Object{"": leaf(1), "b": leaf(2), "~": leaf(3), "/": leaf(4)}, "": tson.Object{"": leaf(5), "a": leaf(6)}},
	tson.Array{leaf(1), tson.Array{leaf(2)}, tson.Object{"": leaf(3), "0": leaf(4)}, nil, leaf(5), leaf(6), leaf(7), leaf(8), leaf(9), leaf(10), leaf(11), leaf(12)},
	tson.Object{"a": tson.Array{leaf(1), tson.Object{"0": leaf(2)}}, "b": nil},
	tson.Leaf[string]{Value: "x", Timestamp: 1},
	tson.Array{},
	nil,
}

// any path over the characters that matter
func C07_paths() {
	d := docs[vf.Choose("doc", len(docs))]
	n := vf.Choose("len", vf.Param("C07 path length", 5, 7)+1)
	lookup(d, vf.Str("p", n, "/~01a-b"))
}

// any bytes
func C07_bytes() {
	d := docs[vf.Choose("doc", len(docs))]
	n := vf.Choose("len", vf.Param("C07 byte path length", 3, 4)+1)
	lookup(d, vf.Str("p", n, ""))
}

// a symbolic name is found through its escaped form and nothing else is
func C07_keys() {
	n := vf.Param("C07 key length", 2, 3)
	k := vf.Str("k", vf.Choose("len", n+1), "")
	l := vf.Str("l", vf.Choose("len2", n+1), "/~01a")
	vf.Assume(k != "y" && l != "x")
	d := tson.Object{k: tson.Object{l: leaf(1), "x": leaf(2)}, "y": leaf(3)}
	switch vf.Choose("path", 4) {
	case 0:
		got, err := tson.GetValue(d, "/"+zzgen.Escape(k)+"/"+zzgen.Escape(l))
		vf.Assert(err == nil, "an escaped path gives an error")
		vf.Assert(zzgen.Same(got, leaf(1), true), "an escaped path gives another value")
	case 1:
		lookup(d, "/"+k)
	case 2:
		lookup(d, "/"+zzgen.Escape(k)+"/"+l)
	case 3:
		lookup(d, "/"+zzgen.Escape(l))
	}
}

// every index text
func C07_indices() {
	var a tson.Array
	n := vf.Choose("n", 13)
	for i := 0; i < n; i++ {
		a = append(a, leaf(int64(i)))
	}
	p := "/" + vf.Str("i", 1+vf.Choose("len", vf.Param("C07 index length", 3, 4)), "")
	var d tson.Value = a
	if vf.Choose("in", 2) == 1 {
		d = tson.Object{"k": a}
		p = "/k" + p
	}
	lookup(d, p)
}

// long index texts do not wrap around
func C07_bigindex() {
	p := vf.Pick("p", "/18446744073709551616", "/4294967296", "/9223372036854775808", "/-9223372036854775808", "/-1", "/+0", "/00", "/1e0", "/0x0", "/_0", "/0_0", "/ 0")
	lookup(tson.Array{leaf(1), leaf(2)}, p)
}

// documents of every shape, paths of every segment
func C07_shapes() {
	o := &zzgen.Opt{Width: 2, Keys: []string{"a", "1"}, Kinds: []int{zzgen.KBool}, Empty: true, TSLo: 0, TSHi: 5}
	d := o.Value("d", 2)
	p := ""
	for i, n := 0, vf.Choose("segs", vf.Param("C07 segments", 3, 4)+1); i < n; i++ {
		p += "/" + vf.Pick("seg", "a", "1", "0", "2", "")
	}
	lookup(d, p)
}
