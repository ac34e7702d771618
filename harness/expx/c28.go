package exp

import (
	"strings"

	vf "github.com/CAU-CPSS/logument/internal/zzvf"
)

type zzItem struct {
	path       string
	start, end int64
	value      any
}

// zzTime is an instant of a store.
func zzTime(name string) int64 {
	return zzBase + int64(vf.Int(name, vf.Param("from", -2, -12), vf.Param("to", 11, 101)))
}

// zzBase is the era of a store: small numbers, or nanoseconds of our days.
var zzBase int64

func zzEra() { zzBase = []int64{0, 1763596800000000000}[vf.Choose("era", 2)] }

// zzStore makes a store of up to n versions of leaf paths; the intervals of one path do not overlap.
func zzStore(n int, paths []string) (*TJSONDocument, []zzItem) {
	doc := NewTJSONDocument()
	var items []zzItem
	k := vf.Choose("n", n+1)
	for i := 0; i < k; i++ {
		it := zzItem{path: paths[vf.Choose("path", len(paths))], start: zzTime("start"), end: zzTime("end"), value: zzValue("value")}
		for _, o := range items {
			if o.path == it.path {
				vf.Assume(vf.Or(o.end < it.start, it.end < o.start))
			}
		}
		items = append(items, it)
		vf.Assert(doc.AddItem(it.path, it.start, it.end, it.value) == nil, "a version is stored")
	}
	return doc, items
}

var zzPaths = []string{"b", "a.x", "a.y.z"}

// A snapshot has exactly the values whose interval covers the instant.
func C28_snapshot() {
	zzEra()
	doc, items := zzStore(vf.Param("items", 2, 3), zzPaths)
	t := zzTime("t")
	want := zzMap{}
	for _, it := range items {
		if it.start <= t && t <= it.end {
			zzPut(want, strings.Split(it.path, "."), it.value)
		}
	}
	zzOrder()
	got, err := doc.TemporalSnapshot(t)
	vf.SetOrder("ins")
	vf.Assert(err == nil, "a snapshot is made")
	vf.Assert(zzSame(any(got), any(want)), "the snapshot has exactly the values whose interval covers the instant")
	vf.Reach("snapshot")
}

// A track has exactly the versions whose interval overlaps the range, in start order.
func C28_track() {
	zzEra()
	doc, items := zzStore(vf.Param("items", 2, 3), []string{"b", "a.x"})
	path := vf.Pick("query", "b", "a.x")
	from, to := zzTime("from"), zzTime("to")
	known := false
	var want []zzItem
	for _, it := range items {
		if it.path != path {
			continue
		}
		known = true
		if it.start <= to && it.end >= from {
			at := len(want)
			for at > 0 && want[at-1].start > it.start {
				at--
			}
			want = append(want[:at:at], append([]zzItem{it}, want[at:]...)...)
		}
	}
	got, err := doc.TemporalTrack(path, from, to)
	vf.Assert((err == nil) == known, "an unknown path is an error")
	if err != nil {
		vf.Reach("unknown path")
		return
	}
	vf.Assert(len(got) == len(want), "the track has exactly the versions that overlap the range")
	for i, w := range want {
		vf.Assert(zzSame(got[i]["data"], w.value), "versions come in start order")
	}
	limit := vf.Float64("limit")
	big := func(v any) bool { f, ok := v.(float64); return ok && f > limit }
	times, err := doc.FindEvents(path, from, to, big)
	vf.Assert(err == nil, "events are found")
	var at []int64
	for _, w := range want {
		if big(w.value) {
			at = append(at, w.start)
		}
	}
	vf.Assert(len(times) == len(at), "events are exactly the versions that satisfy the predicate")
	for i, w := range at {
		vf.Assert(times[i] == w, "an event is the start of its version")
	}
	vf.Reach("tracked")
}

// A store built from patches answers with the state the patches made.
func C28_patches() {
	zzEra()
	n := vf.Choose("n", vf.Param("patches", 3, 4)+1)
	var ps []TsonPatch
	paths := []string{"b", "/a/x"}
	var last int64
	for i := 0; i < n; i++ {
		p := TsonPatch{Op: vf.Pick("op", "add", "replace", "remove"), Path: paths[vf.Choose("path", len(paths))], Timestamp: zzBase + int64(vf.Int("ts", 0, 11))}
		if vf.Param("sorted", 1, 0) == 1 && i > 0 {
			vf.Assume(p.Timestamp >= last)
		}
		last = p.Timestamp
		if p.Op != "remove" {
			p.Value = vf.Float64("value")
		}
		ps = append(ps, p)
	}
	// the state at t: patches up to t in time order, those of one time in their order
	t := zzBase + int64(vf.Int("t", 0, 12))
	want := zzMap{}
	var seq []TsonPatch
	for _, p := range ps {
		if p.Timestamp > t {
			continue
		}
		at := len(seq)
		for at > 0 && seq[at-1].Timestamp > p.Timestamp {
			at--
		}
		seq = append(seq[:at:at], append([]TsonPatch{p}, seq[at:]...)...)
	}
	for _, p := range seq {
		parts := strings.Split(strings.TrimPrefix(p.Path, "/"), "/")
		if p.Op == "remove" {
			zzDrop(want, parts)
		} else {
			zzPut(want, parts, p.Value)
		}
	}
	zzOrder()
	doc, err := FromTSONPatches(ps)
	vf.Assert(err == nil, "patches are converted")
	got, err := doc.TemporalSnapshot(t)
	vf.SetOrder("ins")
	vf.Assert(err == nil, "a snapshot is made")
	vf.Assert(zzSame(any(got), any(want)), "the snapshot is the state the patches made")
	vf.Reach("state")
}

// Long lists of patches, few times: those of one time keep their order.
func C28_many() {
	n := vf.Param("n", 14, 30)
	k, m := 1+vf.Choose("k", 4), 2+vf.Choose("m", 3)
	var ps []TsonPatch
	for i := 0; i < n; i++ {
		ps = append(ps, TsonPatch{Op: "replace", Path: []string{"b", "a.x"}[i%2], Value: float64(i), Timestamp: int64(i * k % m)})
	}
	if vf.Bool("value") {
		ps[vf.Choose("at", n)].Value = vf.Float64("v")
	}
	t := int64(vf.Int("t", 0, 4))
	want := zzMap{}
	for ts := int64(0); ts < int64(m); ts++ {
		for _, p := range ps {
			if p.Timestamp == ts && ts <= t {
				zzPut(want, strings.Split(p.Path, "."), p.Value)
			}
		}
	}
	doc, err := FromTSONPatches(ps)
	vf.Assert(err == nil, "patches are converted")
	got, err := doc.TemporalSnapshot(t)
	vf.Assert(err == nil, "a snapshot is made")
	vf.Assert(zzSame(any(got), any(want)), "of the patches of one time the last one holds")
	// tracks of many versions come in start order
	doc = NewTJSONDocument()
	for i := 0; i < n; i++ {
		s := int64(i * (2*k + 1) % (n + 1))
		doc.AddItem("b", s, s, float64(s))
	}
	track, err := doc.TemporalTrack("b", 0, int64(n))
	vf.Assert(err == nil && len(track) == n, "every version is tracked")
	for i := 1; i < len(track); i++ {
		vf.Assert(track[i-1]["data"].(float64) <= track[i]["data"].(float64), "versions come in start order")
	}
	vf.Reach("many")
}
