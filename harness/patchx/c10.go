package patchx

import (
	"strconv"

	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
	"github.com/CAU-CPSS/logument/internal/zzgen"
	vf "github.com/CAU-CPSS/logument/internal/zzvf"
)

// C10, C11, C12: generated patches.

func isLeaf(v tson.Value) bool {
	_, ok := zzgen.Stamp(v)
	return ok
}

// addsContainer tells whether going from a to b needs a value that no operation can carry.
func addsContainer(a, b tson.Value) bool {
	switch y := b.(type) {
	case tson.Object:
		x, ok := a.(tson.Object)
		if !ok {
			return true
		}
		for k, c := range y {
			old, has := x[k]
			if !has {
				if !isLeaf(c) {
					return true
				}
				continue
			}
			if addsContainer(old, c) {
				return true
			}
		}
	case tson.Array:
		x, ok := a.(tson.Array)
		if !ok {
			return true
		}
		for i, c := range y {
			if i >= len(x) {
				if !isLeaf(c) {
					return true
				}
				continue
			}
			if addsContainer(x[i], c) {
				return true
			}
		}
	case nil:
		return a != nil
	}
	return false
}

const (
	values = iota
	stamps
	minimal
)

// order is the member order during generation ("" is the default choice).
var order string

func checkDiff(a, b tson.Value, what int) {
	ca, cb := zzgen.Clone(a), zzgen.Clone(b)
	if what == values || what == minimal {
		p, err := tsonpatch.GeneratePatch(a, b)
		vf.SetOrder("ins")
		unchanged(a, b, ca, cb)
		if err != nil {
			vf.Assert(addsContainer(ca, cb), "a patch cannot be generated although every added value is a leaf")
			vf.Reach("container added")
		} else if what == values {
			got, err := tsonpatch.ApplyPatch(a, p)
			vf.Assert(err == nil, "a generated patch cannot be applied")
			vf.Assert(zzgen.Same(cb, got, false), "applying the generated patch does not give the modified document")
			vf.Reach("reproduced")
		} else {
			checkMinimal(ca, cb, p, false)
		}
	}
	if what == stamps || what == minimal {
		vf.SetOrder(order)
		p, err := tsonpatch.GeneratePatchWithTimestamp(a, b)
		vf.SetOrder("ins")
		unchanged(a, b, ca, cb)
		if err != nil {
			vf.Assert(addsContainer(ca, cb), "a patch cannot be generated although every added value is a leaf")
			vf.Reach("container added")
		} else if what == stamps {
			carried(ca, cb, "", p)
			got, err := tsonpatch.ApplyPatch(a, p)
			vf.Assert(err == nil, "a generated patch cannot be applied")
			vf.Assert(zzgen.Same(cb, got, true), "applying the generated patch does not give the modified document and timestamps")
			vf.Reach("reproduced")
		} else {
			checkMinimal(ca, cb, p, true)
		}
	}
}

func unchanged(a, b, ca, cb tson.Value) {
	vf.Assert(vf.And(zzgen.Same(ca, a, true), zzgen.Same(cb, b, true)), "generating a patch changes a document")
}

// carried: every leaf with another timestamp has an operation.
func carried(a, b tson.Value, path string, p tsonpatch.Patch) {
	switch y := b.(type) {
	case tson.Object:
		x, ok := a.(tson.Object)
		if !ok {
			return
		}
		for k, c := range y {
			if old, has := x[k]; has {
				carried(old, c, path+"/"+zzgen.Escape(k), p)
			}
		}
		return
	case tson.Array:
		x, ok := a.(tson.Array)
		if !ok {
			return
		}
		for i, c := range y {
			if i < len(x) {
				carried(x[i], c, path+"/"+strconv.Itoa(i), p)
			}
		}
		return
	}
	s, ok := zzgen.Stamp(a)
	t, ok2 := zzgen.Stamp(b)
	if !ok || !ok2 {
		return
	}
	for _, op := range p {
		if op.Path == path && op.Op != tsonpatch.OpRemove {
			vf.Assert(op.Timestamp == t, "an operation carries another timestamp")
			return
		}
	}
	vf.Assert(s == t, "a changed timestamp is not carried by the patch")
}

func checkMinimal(a, b tson.Value, p tsonpatch.Patch, withTS bool) {
	if len(p) == 0 {
		vf.Reach("empty patch")
	}
	seen := map[string]bool{}
	for _, op := range p {
		vf.Assert(!seen[op.Path], "two operations for one location")
		seen[op.Path] = true
		x, hasX := zzgen.Lookup(a, op.Path)
		y, hasY := zzgen.Lookup(b, op.Path)
		if op.Op == tsonpatch.OpRemove {
			vf.Assert(hasX && !hasY, "a location that stays is removed")
			vf.Reach("remove")
			continue
		}
		vf.Assert(op.Op == tsonpatch.OpAdd || op.Op == tsonpatch.OpReplace, "unknown operation")
		vf.Assert(hasY, "an operation for a location that the modified document does not have")
		ts, isLeaf := zzgen.Stamp(y)
		vf.Assert(isLeaf, "an operation puts a leaf where the modified document has none")
		vf.Assert(zzgen.SameAny(op.Value, zzgen.Plain(y)), "an operation carries another value than the modified document")
		vf.Assert(op.Timestamp == ts, "an operation carries another timestamp than the modified document")
		if hasX {
			vf.Assert(vf.Not(zzgen.Same(x, y, withTS)), "an operation without a change")
			vf.Reach("replace")
		} else {
			vf.Reach("add")
		}
	}
}

func genLeaves(what int) {
	o := &zzgen.Opt{StrLen: 1}
	w := vf.Choose("in", 4)
	put := func(v tson.Value) tson.Value {
		switch w {
		case 1:
			return tson.Object{"k": v}
		case 2:
			return tson.Array{v}
		case 3:
			return tson.Object{"k": tson.Array{leaf(1), v, tson.Object{"x": v}}}
		}
		return v
	}
	checkDiff(put(o.Leaf("a")), put(o.Leaf("b")), what)
}

// two independent flat documents
func genPairs(what int) {
	o := &zzgen.Opt{Width: vf.Param("diff width", 2, 3), Keys: []string{"a", "b", "c"}, Kinds: []int{zzgen.KBool, zzgen.KNum}, Empty: true}
	checkDiff(o.Value("p", 1), o.Value("q", 1), what)
}

// two arrays of any lengths
func genArrays(what int) {
	o := &zzgen.Opt{Width: vf.Param("diff array length", 3, 4), Kinds: []int{zzgen.KBool}, Empty: true}
	a, b := o.Array("p", 1), o.Array("q", 1)
	if vf.Choose("in", 2) == 1 {
		a, b = tson.Object{"k": a, "l": leaf(1)}, tson.Object{"k": b, "l": leaf(1)}
	}
	checkDiff(a, b, what)
}

// nested documents
func genNested(what int) {
	o := &zzgen.Opt{Width: 2, Keys: []string{"a", "b"}, Kinds: []int{zzgen.KBool}, Stamps: []int64{1, 2}}
	p := &zzgen.Opt{Width: 1, Keys: []string{"b"}, Kinds: []int{zzgen.KBool}, Stamps: []int64{2}, Empty: true}
	x, y := o, p
	if vf.Choose("swap", 2) == 1 {
		x, y = p, o
	}
	checkDiff(x.Value("p", 2), y.Value("q", 2), what)
}

// symbolic names
func genKeys(what int) {
	n := vf.Param("diff key length", 2, 3)
	k := vf.Str("k", vf.Choose("len", n+1), "")
	vf.Assume(k != "m")
	l1 := tson.Leaf[bool]{Value: vf.Bool("v1"), Timestamp: vf.Int64("t1")}
	l2 := tson.Leaf[bool]{Value: vf.Bool("v2"), Timestamp: vf.Int64("t2")}
	var a, b tson.Value
	switch vf.Choose("form", 6) {
	case 0: // changed
		a, b = tson.Object{k: l1, "m": leaf(1)}, tson.Object{k: l2, "m": leaf(1)}
	case 1: // added
		a, b = tson.Object{"m": l1}, tson.Object{k: l2, "m": l1}
	case 2: // removed
		a, b = tson.Object{k: l1, "m": l2}, tson.Object{"m": l2}
	case 3: // below the name
		a, b = tson.Object{k: tson.Object{"x": l1}}, tson.Object{k: tson.Object{"x": l2, "y": l1}}
	case 4: // below the name, twice
		a, b = tson.Object{k: tson.Object{k: tson.Array{l1, l2}}}, tson.Object{k: tson.Object{k: tson.Array{l2}}}
	case 5: // renamed
		a, b = tson.Object{k: l1}, tson.Object{"m": l1}
	}
	checkDiff(a, b, what)
}

// one change somewhere in a larger document
func genMutant(what int) {
	o := &zzgen.Opt{Kinds: []int{zzgen.KBool, zzgen.KNum}}
	l1 := tson.Leaf[bool]{Value: vf.Bool("l1"), Timestamp: vf.Int64("l1.ts")}
	order = "rev"
	vf.SetOrder(order)
	a := tson.Object{"x": tson.Array{l1, tson.Object{"y": leaf(2), "w": leaf(3)}, leaf(4)}, "z": tson.Object{}, "e": tson.Array{}}
	b := zzgen.Clone(a).(tson.Object)
	arr := b["x"].(tson.Array)
	switch vf.Choose("change", 12) {
	case 0:
	case 1:
		arr[0] = o.Leaf("m")
	case 2:
		arr[1].(tson.Object)["y"] = o.Leaf("m")
	case 3:
		arr[0], arr[2] = arr[2], arr[0]
	case 4:
		b["x"] = arr[:1]
	case 5:
		b["z"] = o.Leaf("m")
	case 6:
		delete(b, "x")
	case 7:
		arr[1] = o.Leaf("m")
	case 8:
		b["x"] = append(arr, o.Leaf("m"))
	case 9:
		b["e"] = tson.Array{o.Leaf("m")}
	case 10:
		b["x"] = tson.Array{arr[1], arr[2]}
	case 11:
		delete(arr[1].(tson.Object), "y")
		b["x"] = arr[:2]
	}
	checkDiff(a, b, what)
}

// member order
func genOrder(what int) {
	o := &zzgen.Opt{Width: 2, Keys: []string{"a", "b"}, Kinds: []int{zzgen.KBool}, TSLo: 1, TSHi: 3}
	p := &zzgen.Opt{Width: 3, Keys: []string{"c", "b", "a"}, Kinds: []int{zzgen.KBool}, TSLo: 1, TSHi: 3}
	a, b := o.Object("p", 1), p.Object("q", 1)
	order = "perm"
	vf.SetOrder(order)
	checkDiff(a, b, what)
}

func C10_leaves() { genLeaves(values) }
func C10_pairs()  { genPairs(values) }
func C10_arrays() { genArrays(values) }
func C10_nested() { genNested(values) }
func C10_keys()   { genKeys(values) }
func C10_mutant() { genMutant(values) }
func C10_order()  { genOrder(values) }
func C11_leaves() { genLeaves(stamps) }
func C11_pairs()  { genPairs(stamps) }
func C11_arrays() { genArrays(stamps) }
func C11_nested() { genNested(stamps) }
func C11_keys()   { genKeys(stamps) }
func C11_mutant() { genMutant(stamps) }
func C11_order()  { genOrder(stamps) }
func C12_leaves() { genLeaves(minimal) }
func C12_pairs()  { genPairs(minimal) }
func C12_arrays() { genArrays(minimal) }
func C12_nested() { genNested(minimal) }
func C12_keys()   { genKeys(minimal) }
func C12_mutant() { genMutant(minimal) }
func C12_order()  { genOrder(minimal) }

// documents that differ in timestamps only, identical documents
func C12_empty() {
	vf.SetOrder("ins")
	o := &zzgen.Opt{Width: 2, Keys: []string{"a", "b"}, Empty: true, Kinds: []int{zzgen.KStr, zzgen.KNum}}
	a := o.Value("d", 1)
	if vf.Choose("nest", 2) == 1 {
		a = tson.Object{"o": tson.Array{a, tson.Object{"k": a}}}
	}
	p, err := tsonpatch.GeneratePatch(a, zzgen.Clone(a))
	vf.Assert(err == nil && len(p) == 0, "identical documents have a patch")
	p, err = tsonpatch.GeneratePatchWithTimestamp(a, zzgen.Clone(a))
	vf.Assert(err == nil && len(p) == 0, "identical documents have a timestamp patch")
	p, err = tsonpatch.GeneratePatch(a, restamp(a))
	vf.Assert(err == nil && len(p) == 0, "documents that differ in timestamps only have a patch")
}

func restamp(v tson.Value) tson.Value {
	switch x := v.(type) {
	case tson.Object:
		r := tson.Object{}
		for k, c := range x {
			r[k] = restamp(c)
		}
		return r
	case tson.Array:
		r := tson.Array{}
		for _, c := range x {
			r = append(r, restamp(c))
		}
		return r
	case tson.Leaf[string]:
		x.Timestamp = vf.Int64("r")
		return x
	case tson.Leaf[float64]:
		x.Timestamp = vf.Int64("r")
		return x
	case tson.Leaf[bool]:
		x.Timestamp = vf.Int64("r")
		return x
	}
	return v
}

// long arrays: indices of two digits
func genLong(what int) {
	vf.SetOrder("ins")
	lens := []int{0, 2, 9, 10, 11, 12, 14, 23}
	mk := func(s string, n int) tson.Array {
		r := tson.Array{}
		at := n - 3 + vf.Choose(s+".at", 3)
		for i := 0; i < n; i++ {
			if i == at {
				r = append(r, tson.Leaf[bool]{Value: vf.Bool(s + ".v"), Timestamp: vf.Int64(s + ".t")})
			} else {
				r = append(r, leaf(int64(i)))
			}
		}
		return r
	}
	var a, b tson.Value = mk("a", lens[vf.Choose("a.n", len(lens))]), mk("b", lens[vf.Choose("b.n", len(lens))])
	switch vf.Choose("in", 3) {
	case 1:
		a, b = tson.Object{"k": a, "l": leaf(1)}, tson.Object{"k": b, "l": leaf(1)}
	case 2:
		a, b = tson.Array{leaf(1), a, leaf(2), tson.Object{"x": a}}, tson.Array{leaf(1), b, leaf(3), tson.Object{"x": b}}
	}
	checkDiff(a, b, what)
}

// objects of many members, with members that come, go and change
func genWide(what int) {
	order = "rev"
	vf.SetOrder("ins")
	a, b := tson.Object{}, tson.Object{}
	n := vf.Param("diff wide", 16, 40)
	from := vf.Choose("from", n)
	for i := 0; i < n; i++ {
		k := string(rune('a'+i%26)) + strconv.Itoa(i)
		l := tson.Leaf[bool]{Value: i%2 == 0, Timestamp: int64(i)}
		m := l
		if i >= from && i < from+2 {
			m = tson.Leaf[bool]{Value: vf.Bool("v"), Timestamp: vf.Int64("t")}
		}
		if i%5 != 4 {
			a[k] = l
		}
		if i%7 != 3 {
			b[k] = m
		}
	}
	var x, y tson.Value = a, b
	if vf.Choose("in", 2) == 1 {
		x, y = tson.Array{tson.Object{"x": a}}, tson.Array{tson.Object{"x": b}}
	}
	vf.SetOrder(order)
	checkDiff(x, y, what)
}

// changes far down
func genDeep(what int) {
	vf.SetOrder("ins")
	n := vf.Param("diff levels", 6, 9)
	var a, b tson.Value = tson.Leaf[bool]{Value: vf.Bool("v1"), Timestamp: vf.Int64("t1")}, tson.Leaf[bool]{Value: vf.Bool("v2"), Timestamp: vf.Int64("t2")}
	if vf.Choose("bottom", 2) == 1 {
		a, b = tson.Object{"x": a, "z": leaf(2)}, tson.Object{"x": b, "y": leaf(1)}
	}
	for i := 0; i < n; i++ {
		switch vf.Choose("level", 2) {
		case 0:
			a, b = tson.Object{"k": a, "l": leaf(1)}, tson.Object{"k": b, "l": leaf(1)}
		case 1:
			a, b = tson.Array{leaf(1), a}, tson.Array{leaf(1), b}
		}
	}
	checkDiff(a, b, what)
}

// null members and elements, as parsed documents have them
func genNulls(what int) {
	vf.SetOrder("ins")
	elem := func(s string, opt int) (tson.Value, bool) {
		switch vf.Choose(s, opt) {
		case 0:
			return nil, true
		case 1:
			return tson.Leaf[bool]{Value: vf.Bool(s + ".v"), Timestamp: vf.Int64(s + ".t")}, true
		case 2:
			return tson.Object{}, true
		}
		return nil, false
	}
	mk := func(s string, kind int) tson.Value {
		if kind == 0 {
			r := tson.Object{}
			for _, k := range []string{"a", "b"} {
				if v, has := elem(s+k, 4); has {
					r[k] = v
				}
			}
			return r
		}
		r := tson.Array{}
		for i, n := 0, vf.Choose(s+".n", 3); i < n; i++ {
			v, _ := elem(s+strconv.Itoa(i), 3)
			r = append(r, v)
		}
		return r
	}
	kind := vf.Choose("kind", 2)
	a, b := mk("x", kind), mk("y", kind)
	if vf.Choose("in", 2) == 1 {
		a, b = tson.Object{"k": tson.Array{a}}, tson.Object{"k": tson.Array{b}}
	}
	checkDiff(a, b, what)
}

func C10_long()  { genLong(values) }
func C10_wide()  { genWide(values) }
func C10_deep()  { genDeep(values) }
func C10_nulls() { genNulls(values) }
func C11_long()  { genLong(stamps) }
func C11_wide()  { genWide(stamps) }
func C11_deep()  { genDeep(stamps) }
func C11_nulls() { genNulls(stamps) }
func C12_long()  { genLong(minimal) }
func C12_wide()  { genWide(minimal) }
func C12_deep()  { genDeep(minimal) }
func C12_nulls() { genNulls(minimal) }
