package patchx

import (
	"strconv"

	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
	"github.com/CAU-CPSS/logument/internal/zzgen"
	vf "github.com/CAU-CPSS/logument/internal/zzvf"
)

// C09: one operation.

func badTilde(p string) bool {
	for i := 0; i < len(p); i++ {
		if p[i] == '~' && (i+1 == len(p) || p[i+1] != '0' && p[i+1] != '1') {
			return true
		}
	}
	return false
}

func value(name string) any {
	switch vf.Choose(name+".val", 4) {
	case 0:
		return vf.Str(name+".s", vf.Choose(name+".len", 2), "")
	case 1:
		return vf.Float64(name + ".f")
	case 2:
		return vf.Int(name+".i", -3, 3)
	}
	return vf.Bool(name + ".b")
}

// apply runs one operation on one document through either entry point.
func apply(d tson.Value, op tsonpatch.Operation) (tson.Value, error) {
	if vf.Choose("entry", 2) == 0 {
		return tsonpatch.ApplyOperation(d, op)
	}
	return tsonpatch.ApplyPatch(d, tsonpatch.Patch{op})
}

func checkOp(d tson.Value, op tsonpatch.Operation) {
	vf.SetOrder("ins")
	before := zzgen.Clone(d)
	vf.SetOrder("rev")
	got, err := apply(d, op)
	vf.SetOrder("ins")
	vf.Assert(zzgen.Same(before, d, true), "an operation changes the document it is given")
	parts, pointer := zzgen.Segments(op.Path)
	if !pointer || badTilde(op.Path) {
		vf.Reach("no pointer")
		return
	}
	switch op.Op {
	case tsonpatch.OpAdd, tsonpatch.OpReplace:
		leaf := zzgen.MakeLeaf(op.Value, op.Timestamp)
		want, ok, fresh := zzgen.Put(before, parts, leaf)
		if ok && (!fresh || op.Op == tsonpatch.OpAdd) {
			vf.Assert(err == nil, "an applicable operation gives an error")
			vf.Assert(zzgen.Same(want, got, true), "an operation changes something else than its target")
			vf.Reach("put")
			return
		}
		if err != nil {
			vf.Reach("error")
			return
		}
		if ok {
			vf.Assert(zzgen.Same(want, got, true), "an operation changes something else than its target")
			vf.Reach("created")
			return
		}
		// the parent was missing and has been created: the rest has to be as before
		n := 0
		for n < len(parts) {
			if _, has := zzgen.Lookup(before, zzgen.Pointer(parts[:n+1])); !has {
				break
			}
			n++
		}
		vf.Assert(n < len(parts), "an operation below a leaf is accepted")
		v, has := zzgen.Lookup(got, op.Path)
		vf.Assert(has && zzgen.Same(v, leaf, true), "an accepted operation did not put its value")
		for k := n + 1; k < len(parts); k++ { // what has been created on the way holds nothing else
			c, _ := zzgen.Lookup(got, zzgen.Pointer(parts[:k]))
			switch c := c.(type) {
			case tson.Object:
				vf.Assert(len(c) == 1, "an operation adds something else than its target")
			case tson.Array:
				for i, e := range c {
					vf.Assert(e == nil || strconv.Itoa(i) == parts[k], "an operation adds something else than its target")
				}
			}
		}
		if c, _ := zzgen.Lookup(before, zzgen.Pointer(parts[:n])); c != nil {
			if a, is := c.(tson.Array); is {
				b, _ := zzgen.Lookup(got, zzgen.Pointer(parts[:n]))
				g, is := b.(tson.Array)
				vf.Assert(is && len(g) >= len(a), "an operation removes elements")
				vf.Assert(zzgen.Same(a, g[:len(a)], true), "an operation changes something else than its target")
				for i := len(a); i < len(g); i++ {
					vf.Assert(g[i] == nil || strconv.Itoa(i) == parts[n], "an operation adds something else than its target")
				}
				vf.Reach("array extended")
				return
			}
			rest, has := zzgen.Cut(got, parts[:n+1])
			vf.Assert(has && zzgen.Same(rest, before, true), "an operation changes something else than its target")
			vf.Reach("path created")
		}
	case tsonpatch.OpRemove:
		if len(parts) == 0 {
			return
		}
		want, ok := zzgen.Cut(before, parts)
		if !ok {
			vf.Assert(err != nil || zzgen.Same(before, got, true), "removing nothing changes the document")
			vf.Reach("nothing to remove")
			return
		}
		vf.Assert(err == nil, "an applicable remove gives an error")
		vf.Assert(zzgen.Same(want, got, true), "a remove deletes something else")
		vf.Reach("removed")
	default:
		vf.Assert(err != nil, "an operation that is not implemented is not reported")
		vf.Reach("not implemented")
	}
}

func kind() tsonpatch.OpType {
	return tsonpatch.OpType(vf.Pick("op", "add", "replace", "remove"))
}

func leaf(i int64) tson.Value { return tson.Leaf[float64]{Value: float64(i), Timestamp: i} }

var docs = []func() tson.Value{
	func() tson.Value {
		return tson.Object{"": leaf(1), "a": leaf(2), "a/b": leaf(3), "~": leaf(4), "~1": leaf(5), "0": leaf(6), "/": leaf(7), "a.b": leaf(8), ".": leaf(9)}
	},
	func() tson.Value {
		return tson.Object{"a": tson.Object{"": leaf(1), "b": leaf(2), "~": leaf(3), "/": leaf(4), "1": tson.Object{"a": leaf(9)}}, "": tson.Object{"": leaf(5), "a": leaf(6)}}
	},
	func() tson.Value {
		return tson.Array{leaf(1), tson.Array{leaf(2), leaf(3)}, tson.Object{"": leaf(3), "0": leaf(4)}}
	},
	func() tson.Value {
		return tson.Object{"a": tson.Array{leaf(1), tson.Object{"0": leaf(2), "a": tson.Array{leaf(3)}}, tson.Array{leaf(4), tson.Object{"a": leaf(5)}}}, "b": nil}
	},
	func() tson.Value { return tson.Leaf[string]{Value: "x", Timestamp: 1} },
	func() tson.Value { return tson.Array{} },
	func() tson.Value { return tson.Object{} },
}

// any path over the characters that matter, fixed documents
func C09_paths() {
	d := docs[vf.Choose("doc", len(docs))]()
	n := vf.Choose("len", vf.Param("C09 path length", 5, 6)+1)
	p := vf.Str("p", n, "/~01a.-")
	if n > 0 {
		vf.Assume(p[0] == '/')
	}
	k := kind()
	vf.SetOrder("ins")
	checkOp(d, tsonpatch.Operation{Op: k, Path: p, Value: true, Timestamp: vf.Int64("ts")})
}

// every value and timestamp
func C09_values() {
	d := docs[vf.Choose("doc", 4)]()
	p := vf.Pick("p", "/a", "/0", "/a/0", "/a/1/a", "/new", "", "/a/1/a/0", "/a/2/1/a", "/1/2", "/a~1b", "/a.b")
	checkOp(d, tsonpatch.Operation{Op: tsonpatch.OpType(vf.Pick("op", "add", "replace")), Path: p, Value: value("v"), Timestamp: vf.Int64("ts")})
}

// symbolic member names, reached through their escaped form
func C09_keys() {
	n := vf.Param("C09 key length", 2, 3)
	k := vf.Str("k", vf.Choose("len", n+1), "")
	l := vf.Str("l", vf.Choose("len2", n), "")
	d := tson.Object{"x": leaf(1), k: tson.Object{l: leaf(2), "y": tson.Array{leaf(3)}}}
	vf.Assume(k != "x" && l != "y")
	p := zzgen.Pointer([]string{k})
	if vf.Choose("deep", 2) == 1 {
		p = zzgen.Pointer([]string{k, l})
	}
	checkOp(d, tsonpatch.Operation{Op: kind(), Path: p, Value: "v", Timestamp: 7})
}

// documents of every shape
func C09_shapes() {
	o := &zzgen.Opt{Width: 2, Keys: []string{"a", "1"}, Kinds: []int{zzgen.KBool}, Empty: true, TSLo: 0, TSHi: 5}
	d := o.Value("d", 2)
	p := ""
	for i, n := 0, vf.Choose("segs", vf.Param("C09 segments", 3, 4)+1); i < n; i++ {
		p += "/" + vf.Pick("seg", "a", "1", "0", "2", "")
	}
	checkOp(d, tsonpatch.Operation{Op: kind(), Path: p, Value: true, Timestamp: 9})
}

// operations that are not implemented, odd values and odd indices are errors, never crashes
func C09_odd() {
	d := docs[vf.Choose("doc", len(docs))]()
	p := vf.Pick("p", "/a", "/a/0", "", "/a/1/a", "/-1", "/a/-1", "/99999999999999999999", "/a/9223372036854775807", "/a/-9223372036854775808", "/a/+1", "/a/00", "/1000000000000", "/a/1000000000000", "/a/3000000000", "/b/3000000000", "/b/1/2", "/a/b/c/d", "a.b", "..", "a")
	op := tsonpatch.OpType(vf.Pick("op", "add", "replace", "remove", "move", "copy", "test", "", "ADD"))
	var v any
	switch vf.Choose("v", 5) {
	case 0:
		v = 1.5
	case 1:
		v = nil
	case 2:
		v = map[string]any{"x": 1.0}
	case 3:
		v = []any{1.0}
	case 4:
		v = 3
	}
	if _, is := v.(float64); is || op == "move" || op == "copy" || op == "test" {
		checkOp(d, tsonpatch.Operation{Op: op, Path: p, Value: v, Timestamp: 9})
		return
	}
	apply(d, tsonpatch.Operation{Op: op, Path: p, Value: v, Timestamp: 9})
	vf.Reach("no crash")
}

// a whole patch is its operations one after the other
func C09_sequence() {
	d := docs[vf.Choose("doc", 4)]()
	var patch tsonpatch.Patch
	n := vf.Choose("n", vf.Param("C09 operations", 2, 3)+1)
	ps := []string{"/a", "/a/0", "/a/1", "/0", "/1/0", "/n"}
	for i := 0; i < n; i++ {
		patch = append(patch, tsonpatch.Operation{Op: kind(), Path: ps[vf.Choose("p", len(ps))], Value: vf.Bool("b"), Timestamp: vf.Int64("ts")})
	}
	vf.SetOrder("ins")
	want := zzgen.Clone(d)
	known := true
	for _, op := range patch {
		parts, _ := zzgen.Segments(op.Path)
		ok, fresh := false, false
		var w tson.Value
		if op.Op == tsonpatch.OpRemove {
			w, ok = zzgen.Cut(want, parts)
		} else {
			w, ok, fresh = zzgen.Put(want, parts, zzgen.MakeLeaf(op.Value, op.Timestamp))
		}
		if !ok || fresh && op.Op == tsonpatch.OpReplace {
			known = false
			break
		}
		want = w
	}
	before := zzgen.Clone(d)
	vf.SetOrder("rev")
	got, err := tsonpatch.ApplyPatch(d, patch)
	vf.SetOrder("ins")
	vf.Assert(zzgen.Same(before, d, true), "a patch changes the document it is given")
	if known {
		vf.Assert(err == nil, "an applicable patch gives an error")
		vf.Assert(zzgen.Same(want, got, true), "a patch is not its operations in order")
		vf.Reach("applied")
	}
}

// long arrays and wide objects; indices of two digits; patches of many operations
func C09_long() {
	vf.SetOrder("ins")
	arr := tson.Array{}
	obj := tson.Object{}
	n := vf.Param("C09 long", 14, 30)
	for i := 0; i < n; i++ {
		arr = append(arr, tson.Array{leaf(int64(i)), leaf(7)})
		obj["k"+strconv.Itoa(i)] = leaf(int64(i))
	}
	d := tson.Object{"a": arr, "o": obj}
	p := "/a/" + vf.Str("i", 1+vf.Choose("len", 2), "0123456789")
	if vf.Choose("below", 2) == 1 {
		p += "/" + vf.Pick("j", "0", "1", "2")
	}
	if vf.Choose("in", 2) == 1 {
		p = "/o/k" + vf.Str("k", 1+vf.Choose("len", 2), "0123456789")
	}
	checkOp(d, tsonpatch.Operation{Op: kind(), Path: p, Value: vf.Bool("v"), Timestamp: vf.Int64("ts")})
}

func C09_many() {
	vf.SetOrder("ins")
	d := docs[vf.Choose("doc", 4)]()
	want := zzgen.Clone(d)
	var patch tsonpatch.Patch
	at := vf.Choose("at", 5)
	ps := []string{"/n0", "/n1", "/n2", "/n0", "/n1"}
	if _, is := d.(tson.Array); is {
		ps = []string{"/0", "/1", "/2", "/0", "/2"}
	}
	for i, n := 0, vf.Param("C09 many", 15, 40); i < n; i++ {
		o := tsonpatch.Operation{Op: "add", Path: ps[i%len(ps)], Value: float64(i), Timestamp: int64(100 - i)}
		if i%len(ps) == at {
			o.Value, o.Timestamp = vf.Bool("v"), vf.Int64("ts")
		}
		if i%7 == 6 {
			o.Op = "replace"
		}
		if i == 12 {
			o.Op = "remove"
			o.Path = ps[0]
		}
		parts, _ := zzgen.Segments(o.Path)
		var w tson.Value
		var ok bool
		if o.Op == "remove" {
			w, ok = zzgen.Cut(want, parts)
		} else {
			w, ok, _ = zzgen.Put(want, parts, zzgen.MakeLeaf(o.Value, o.Timestamp))
		}
		vf.Assume(ok)
		want = w
		patch = append(patch, o)
	}
	got, err := tsonpatch.ApplyPatch(d, patch)
	vf.Assert(err == nil, "an applicable patch gives an error")
	vf.Assert(zzgen.Same(want, got, true), "a patch is not its operations in order")
	vf.Reach("many")
}
