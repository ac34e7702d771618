package tsonx

import (
	"strconv"

	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/zzgen"
	vf "github.com/CAU-CPSS/logument/internal/zzvf"
)

// Wide documents: more members and elements than any threshold for small containers, one of them symbolic.

func wideSize() int { return vf.Param("wide containers", 16, 40) }

// wideDoc puts a leaf at position at of a wide container.
func wideDoc(l tson.Value, at, n int) tson.Value {
	obj, arr := tson.Object{}, tson.Array{}
	for i := 0; i < n; i++ {
		var c tson.Value
		switch {
		case i == at:
			c = l
		case i%6 == 5:
			c = tson.Object{"n": nil, "s": tson.Leaf[string]{Value: "v" + strconv.Itoa(i), Timestamp: int64(i)}}
		case i%6 == 4:
			c = tson.Array{leaf(int64(i)), tson.Array{}}
		case i%6 == 3:
			c = tson.Leaf[bool]{Value: i%4 == 3, Timestamp: -1}
		case i%6 == 2:
			c = tson.Leaf[string]{Value: "s" + strconv.Itoa(i), Timestamp: int64(1e9) + int64(i)}
		default:
			c = leaf(int64(i))
		}
		obj["k"+strconv.Itoa(i)] = c
		arr = append(arr, c)
	}
	switch vf.Choose("in", 3) {
	case 0:
		return obj
	case 1:
		return arr
	}
	return tson.Object{"a": arr, "o": tson.Array{obj, tson.Object{}}}
}

func wideLeaf(name string) tson.Value {
	switch vf.Choose(name+".kind", 3) {
	case 0:
		return tson.Leaf[bool]{Value: vf.Bool(name + ".b"), Timestamp: vf.Int64(name + ".ts")}
	case 1:
		return tson.Leaf[string]{Value: vf.Str(name+".s", 1, "ab\"\n"), Timestamp: 1<<62 + 1}
	}
	return nil
}

func spots(n int) int { return []int{0, 1, 9, 10, 11, 12, 13, n - 1}[vf.Choose("at", 8)] }

func C01_wide() {
	vf.SetOrder("ins")
	n := wideSize()
	d := wideDoc(wideLeaf("l"), spots(n), n)
	vf.SetOrder("rev")
	textTrip(d)
}

func C04_wide() {
	vf.SetOrder("ins")
	n := wideSize()
	d := wideDoc(wideLeaf("l"), spots(n), n)
	vf.SetOrder("rev")
	compatTrip(d)
}

func C05_wide() {
	vf.SetOrder("ins")
	n := wideSize()
	at := spots(n)
	a, b := wideDoc(wideLeaf("l"), at, n), wideDoc(wideLeaf("m"), at, n)
	checkEqual(a, b)
}

func C06_wide() {
	vf.SetOrder("ins")
	n := wideSize()
	export(wideDoc(wideLeaf("l"), spots(n), n))
}

func C06_wideimport() {
	vf.SetOrder("ins")
	n := wideSize()
	at := spots(n)
	obj, arr := map[string]any{}, []any{}
	for i := 0; i < n; i++ {
		var c any = float64(i)
		switch {
		case i == at:
			c = vf.Str("s", 1, "")
			vf.Assume(c.(string)[0] < 0x80)
		case i%4 == 1:
			c = map[string]any{"x": nil, "value": "v", "timestamp": 5.0}
		case i%4 == 2:
			c = []any{true, []any{}}
		}
		obj["k"+strconv.Itoa(i)] = c
		arr = append(arr, c)
	}
	if vf.Choose("in", 2) == 0 {
		jsonTrip(obj)
	} else {
		jsonTrip(map[string]any{"a": arr, "o": []any{obj}})
	}
}

func C07_wide() {
	vf.SetOrder("ins")
	n := wideSize()
	d := wideDoc(leaf(-7), spots(n), n)
	lookup(d, vf.Pick("prefix", "", "/a", "/o/0")+"/"+vf.Pick("seg", "k", "")+vf.Str("i", 1+vf.Choose("len", 3), "0129"))
}

func C08_members() {
	vf.SetOrder("ins")
	n := wideSize()
	l := wideLeaf("l")
	vf.Assume(l != nil)
	d := wideDoc(l, spots(n), n)
	if vf.Choose("more", 2) == 1 {
		d = tson.Object{"first": d, "second": zzgen.Clone(d), "third": tson.Leaf[bool]{Timestamp: vf.Int64("t3")}}
	}
	vf.SetOrder("rev")
	checkLatest(d)
}
