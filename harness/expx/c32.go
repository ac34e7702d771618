package exp

import (
	"sort"
	"strings"

	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/zzos"
	"github.com/CAU-CPSS/logument/internal/zztime"
	vf "github.com/CAU-CPSS/logument/internal/zzvf"
)

// zzExperiment makes a temporal experiment of a vehicle and its patches, as the scenario experiment leaves them.
func zzExperiment(n int) (e *TemporalQueryExperiment, initial zzMap, ps []TsonPatch) {
	paths := []string{"Vehicle.Speed", "Vehicle.Cabin.Door.IsOpen", "Vehicle.Cabin.Light"}
	initial = zzMap{}
	doc := zzMap{}
	var used []string
	for i, p := range paths {
		if i > 0 && vf.Choose("absent", 2) == 1 {
			continue
		}
		v := zzSignal("initial", i)
		used = append(used, p)
		zzPut(initial, strings.Split(p, "."), v)
		updateJsonDoc(doc, p, v, vf.Int64("ts0"))
	}
	zztime.Clock = func() (int64, int64) { return 1700000000, 0 }
	storage := NewDataStorage("results", "urban_traffic")
	vf.Assert(storage.SaveInitialJSON(doc) == nil, "the initial document is saved")
	last := 0
	for k := vf.Choose("patches", n+1); k > 0; k-- {
		i := vf.Choose("path", len(used))
		ts := vf.Int("ts", 0, vf.Param("horizon", 12, 101))
		vf.Assume(ts >= last)
		last = ts
		kind := 0
		for j, p := range paths {
			if p == used[i] {
				kind = j
			}
		}
		ps = append(ps, TsonPatch{Op: "replace", Path: used[i], Value: zzSignal("new", kind), Timestamp: int64(ts)})
	}
	zzOrder()
	e, err := NewTemporalQueryExperiment(storage.OutputDir, "out", "urban_traffic", append([]TsonPatch(nil), ps...))
	vf.SetOrder("ins")
	vf.Assert(err == nil, "the experiment is set up")
	return
}

// zzSignal is a value of the i-th signal.
func zzSignal(name string, i int) any {
	switch i {
	case 0:
		return vf.Float64(name + ".speed")
	case 1:
		return vf.Bool(name + ".open")
	}
	return vf.Str(name+".light", 1, "ab")
}

// zzState is the document after the patches up to t.
func zzState(initial zzMap, ps []TsonPatch, t int64) zzMap {
	d := zzCopy(initial).(zzMap)
	for _, p := range ps {
		if p.Timestamp <= t {
			zzPut(d, strings.Split(p.Path, "."), p.Value)
		}
	}
	return d
}

// At every instant both stores answer with the state the patches had made by then.
func C32_snapshots() {
	vf.SetOrder("ins")
	zzos.Put("results/.keep", nil)
	e, initial, ps := zzExperiment(vf.Param("patches", 2, 3))
	t := int64(vf.Int("t", 0, 102))
	want := zzState(initial, ps, t)
	zzOrder()
	lgm := e.LogumentDoc.TemporalSnapshot(t)
	doc, err := e.TJSONDocument.TemporalSnapshot(t)
	vf.SetOrder("ins")
	vf.Assert(err == nil, "the temporal JSON store answers")
	vf.Assert(zzSame(any(doc), any(want)), "the temporal JSON snapshot is the state at that instant")
	v, ok := lgm.(tson.Value)
	vf.Assert(ok, "the log answers with a document")
	vf.Assert(zzSame(zzPlain(v), any(want)), "the log's snapshot is the state at that instant")
	vf.Reach("snapshot")
}

// The events found in the log are the changes of the range above the threshold, in time order.
func C32_events() {
	vf.SetOrder("ins")
	zzos.Put("results/.keep", nil)
	e, _, ps := zzExperiment(vf.Param("patches", 2, 3))
	from, to := int64(vf.Int("from", 0, 12)), int64(vf.Int("to", 0, 12))
	vf.Assume(from <= to)
	limit := vf.Float64("limit")
	var want []int64
	var prev any
	for _, p := range ps {
		if p.Path != "Vehicle.Speed" || p.Timestamp < from || p.Timestamp > to {
			continue
		}
		if f := p.Value.(float64); prev == nil || prev.(float64) != f {
			if f > limit {
				want = append(want, p.Timestamp)
			}
		}
		prev = p.Value
	}
	e.LogumentDoc.Append()
	zzOrder()
	got := findEventsInLogument(e.LogumentDoc, "Vehicle.Speed", from, to, limit)
	vf.SetOrder("ins")
	vf.Assert(len(got) == len(want), "events are exactly the changes above the threshold")
	for i := range want {
		vf.Assert(got[i] == want[i], "events come in time order")
	}
	vf.Reach("events")
}

// The sampled instants and the time range cover the patches.
func C32_range() {
	n := vf.Choose("n", vf.Param("range", 4, 6)) + 1
	var ps []TsonPatch
	var at []int64
	for i := 0; i < n; i++ {
		ts := int64(vf.Int("ts", 0, 1<<41))
		ps = append(ps, TsonPatch{Timestamp: ts})
		at = append(at, ts)
	}
	lo, hi := getTimeRange(ps)
	for _, ts := range at {
		vf.Assert(lo <= ts && ts <= hi, "the range covers every patch")
	}
	sort.Slice(at, func(i, j int) bool { return at[i] < at[j] })
	vf.Assert(vf.And(lo == at[0], hi == at[n-1]), "the range is that of the patches")
	vf.Reach("range")
}

// Patches of one instant are applied in the order of the stream, however many there are and though later ones come first.
func C32_many() {
	vf.SetOrder("ins")
	zzos.Put("results/.keep", nil)
	doc := zzMap{}
	x := zzSignal("initial", 0)
	updateJsonDoc(doc, "Vehicle.Speed", x, vf.Int64("ts0"))
	zztime.Clock = func() (int64, int64) { return 1700000000, 0 }
	storage := NewDataStorage("results", "urban_traffic")
	vf.Assert(storage.SaveInitialJSON(doc) == nil, "the initial document is saved")
	n := vf.Param("long", 16, 40)
	at := vf.Choose("symbolic", n)
	var ps []TsonPatch
	for i := 0; i < n; i++ {
		v := float64(i) + 0.5
		if i == at {
			v = vf.Float64("speed")
		}
		ps = append(ps, TsonPatch{Op: "replace", Path: "Vehicle.Speed", Value: v, Timestamp: int64(i * i / 3 % 2 * 5)})
	}
	e, err := NewTemporalQueryExperiment(storage.OutputDir, "out", "urban_traffic", append([]TsonPatch(nil), ps...))
	vf.Assert(err == nil, "the experiment is set up")
	t := int64(vf.Choose("t", 2) * 5)
	want := zzState(zzMap{"Vehicle": zzMap{"Speed": x}}, ps, t)
	lgm, ok := e.LogumentDoc.TemporalSnapshot(t).(tson.Value)
	vf.Assert(ok, "the log answers with a document")
	vf.Assert(zzSame(zzPlain(lgm), any(want)), "the log's snapshot is the state at that instant")
	got, err := e.TJSONDocument.TemporalSnapshot(t)
	vf.Assert(err == nil, "the temporal JSON store answers")
	vf.Assert(zzSame(any(got), any(want)), "the temporal JSON snapshot is the state at that instant")
	vf.Reach("many")
}

// A series of snapshots has the initial state and the state after every patch, one file each.
func C32_series() {
	vf.SetOrder("ins")
	zzos.Put("results/.keep", nil)
	_, initial, ps := zzExperiment(vf.Param("series patches", 2, 3))
	zzOrder()
	CreateSnapshot("results/urban_traffic/20231114_221320/initial_json.json", ps)
	vf.SetOrder("ins")
	files, err := zzos.ReadDir("results/snapshots")
	vf.Assert(err == nil && len(files) == len(ps)+1, "there is a snapshot at first and one for every patch")
	state := zzCopy(initial).(zzMap)
	for i := 0; i <= len(ps); i++ {
		if i > 0 {
			zzPut(state, strings.Split(ps[i-1].Path, "."), ps[i-1].Value)
		}
		b, err := zzos.ReadFile("results/snapshots/snapshot_" + string(rune('0'+i)) + ".json")
		vf.Assert(err == nil, "every snapshot has its file")
		var d tson.Tson
		vf.Assert(tson.FromCompatibleTsonBytes(b, &d) == nil, "a snapshot is read back")
		vf.Assert(zzSame(zzPlain(d), any(state)), "a snapshot is the state after its patch")
		if i > 0 {
			leaf, err := tson.GetValue(d, "/"+strings.ReplaceAll(ps[i-1].Path, ".", "/"))
			vf.Assert(err == nil && tson.GetLatestTimestamp(leaf) == ps[i-1].Timestamp, "a patched reading has the patch's time")
		}
	}
	vf.Reach("series")
}
