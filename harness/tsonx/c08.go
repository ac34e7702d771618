package tsonx

import (
	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/zzgen"
	vf "github.com/CAU-CPSS/logument/internal/zzvf"
)

// C08: GetLatestTimestamp is the maximum leaf timestamp.
func C08_latest() {
	o := &zzgen.Opt{Depth: 2, Width: 2, Keys: []string{"a", "b", "c"}, Empty: true}
	checkLatest(o.Value("d", vf.Param("C08 depth", 2, 3)))
}

// wide containers
func C08_wide() {
	o := &zzgen.Opt{Width: 4, Keys: []string{"a", "b", "c", "d"}, Kinds: []int{zzgen.KBool, zzgen.KStr}, Empty: true}
	checkLatest(o.Value("d", 1))
}

// deep nesting, one leaf per level
func C08_deep() {
	var d tson.Value = tson.Leaf[bool]{Value: true, Timestamp: vf.Int64("t0")}
	n := vf.Param("C08 levels", 5, 8)
	for i := 0; i < n; i++ {
		l := tson.Leaf[float64]{Value: 1, Timestamp: vf.Int64("t")}
		if vf.Choose("arr", 2) == 0 {
			d = tson.Object{"x": d, "y": l}
		} else {
			d = tson.Array{l, d}
		}
	}
	checkLatest(d)
}

// documents as the parser hands them out, with null members
func C08_parsed() {
	texts := []string{`null`, `[]`, `{}`, `{"a": null}`, `[null, <7> 1]`, `{"a" <5>: "x", "b": null}`, `{"a": [null, {"b": null}]}`, `"x" <9>`, `<3> 1`, `true <>`}
	want := []int64{0, 0, 0, 0, 7, 5, 0, 9, 3, -1}
	i := vf.Choose("text", len(texts))
	var d tson.Tson
	if err := tson.Unmarshal([]byte(texts[i]), &d); err != nil {
		vf.Assert(false, "a document with null is rejected")
	}
	got := tson.GetLatestTimestamp(d)
	if want[i] < 0 {
		vf.Assert(got < 0, "a leaf without timestamp has one")
	} else {
		vf.Assert(got == want[i], "wrong latest timestamp of a parsed document")
	}
	vf.Reach("parsed")
}

func checkLatest(d tson.Value) {
	got := tson.GetLatestTimestamp(d)
	vf.Observe("latest", got)
	if ts, ok := zzgen.Stamp(d); ok {
		vf.Assert(ts == got, "the latest timestamp of a leaf is not its own")
		vf.Reach("leaf")
		return
	}
	upper, hit, neg := got >= 0, false, true
	n := 0
	vf.SetOrder("ins")
	zzgen.Leaves(d, func(_ tson.Value, ts int64) {
		n++
		upper = vf.And(upper, ts <= got)
		hit = vf.Or(hit, ts == got)
		neg = vf.And(neg, ts < 0)
	})
	if n == 0 {
		vf.Reach("no leaf")
	} else {
		vf.Reach("leaves")
	}
	vf.Assert(upper, "a leaf is newer than the latest timestamp")
	vf.Assert(vf.Or(hit, vf.And(neg, got == 0)), "the latest timestamp belongs to no leaf")
}
