package exp

import (
	"math"
	"strings"

	vf "github.com/CAU-CPSS/logument/internal/zzvf"
)

// zzLeaf is a signal of a document.
func zzLeaf(stamp string, v any, ts int64) zzMap { return zzMap{"value": v, stamp: ts} }

func zzCopy(a any) any {
	if x, ok := a.(zzMap); ok {
		r := zzMap{}
		for k, v := range x {
			r[k] = zzCopy(v)
		}
		return r
	}
	return a
}

// zzSignals makes a document with some of the signals and tells its paths.
func zzSignals(stamp string, keys []string, used []bool) zzMap {
	d := zzMap{}
	for i, k := range keys {
		if used[i] {
			zzPut(d, strings.Split(k, "."), zzLeaf(stamp, vf.Float64("old"), vf.Int64("oldts")))
		}
	}
	return d
}

// Updating a field sets exactly that field, in both representations alike.
func C29_update() {
	vf.SetOrder("ins")
	seg := vf.Str("seg", vf.Param("seg", 1, 2), "")
	for i := 0; i < len(seg); i++ {
		vf.Assume(seg[i] != '.')
	}
	keys := []string{"a.b." + seg, "a.s", "c", "a." + seg + ".k", seg + ".q"}
	used := make([]bool, len(keys))
	for i := range used {
		used[i] = vf.Bool("has")
	}
	// a signal is not also an object
	vf.Assume(seg != "s" && seg != "b" && seg != "z" && seg != "c")
	vj, tj := zzSignals("timestamp", keys, used), zzSignals("_ts", keys, used)
	path := vf.Pick("path", append([]string{"z", "a.z", "y.z.w", "c2." + seg}, keys...)...)
	v, ts := zzValue("value"), vf.Int64("ts")
	wantJ, wantT := zzCopy(vj).(zzMap), zzCopy(tj).(zzMap)
	zzPut(wantJ, strings.Split(path, "."), zzLeaf("timestamp", v, ts))
	zzPut(wantT, strings.Split(path, "."), zzLeaf("_ts", v, ts))
	updateJsonDoc(vj, path, v, ts)
	updateTsonDoc(tj, path, v, ts)
	vf.Assert(zzSame(any(vj), any(wantJ)), "the JSON document has the new value and is otherwise unchanged")
	vf.Assert(zzSame(any(tj), any(wantT)), "the TSON document has the new value and is otherwise unchanged")
	vf.Reach("updated")
}

// An object at the path gets the value and the timestamp, whatever it had, and keeps the rest.
func C29_part() {
	vf.SetOrder("ins")
	old, want := zzMap{}, zzMap{}
	for _, k := range []string{"value", "timestamp", "_ts", "unit"} {
		if vf.Bool("has") {
			x := zzValue("had")
			old[k], want[k] = x, x
		}
	}
	path := vf.Pick("path", "a", "a.b")
	nest := func(m zzMap) zzMap {
		d := zzMap{"z": zzLeaf("timestamp", 1.0, 1)}
		zzPut(d, strings.Split(path, "."), m)
		return d
	}
	v, ts := zzValue("value"), vf.Int64("ts")
	vj, tj := nest(old), nest(zzCopy(old).(zzMap))
	want["value"], want["timestamp"] = v, ts
	updateJsonDoc(vj, path, v, ts)
	updateTsonDoc(tj, path, v, ts)
	vf.Assert(zzSame(any(vj), any(nest(want))), "the object has the value and the timestamp")
	vf.Assert(zzSame(any(tj), any(nest(zzLeaf("_ts", v, ts)))), "the field has the value and the timestamp")
	vf.Reach("updated")
}

// The two documents of a vehicle have exactly its signals.
func C29_vehicle() {
	vf.SetOrder("ins")
	group := func() map[string]*SensorData { return map[string]*SensorData{} }
	v := &VehicleData{SensorsHighFreq: group(), SensorsMedFreq: group(), SensorsLowFreq: group(), ActuatorsHighVar: group(), ActuatorsLowVar: group(), Attributes: group()}
	groups := []map[string]*SensorData{v.SensorsHighFreq, v.SensorsMedFreq, v.SensorsLowFreq, v.ActuatorsHighVar, v.ActuatorsLowVar, v.Attributes}
	wantJ, wantT := zzMap{}, zzMap{}
	for _, p := range []string{"Vehicle.Speed", "Vehicle.Body.Lights.IsOn", "Vehicle.Body.Id"} {
		if vf.Bool("absent") {
			continue
		}
		val, ts := zzValue("value"), vf.Int64("ts")
		groups[vf.Choose("group", len(groups))][p] = &SensorData{Path: p, Value: val, Timestamp: ts}
		zzPut(wantJ, strings.Split(p, "."), zzLeaf("timestamp", val, ts))
		zzPut(wantT, strings.Split(p, "."), zzLeaf("_ts", val, ts))
	}
	zzOrder()
	j, t := vehicleDataToJsonDoc(v), vehicleDataToTsonDoc(v)
	vf.SetOrder("ins")
	vf.Assert(zzSame(any(j), any(wantJ)), "the JSON document has exactly the vehicle's signals")
	vf.Assert(zzSame(any(t), any(wantT)), "the TSON document has exactly the vehicle's signals")
	vf.Reach("converted")
}

// zzAnyValue is a value of any type a signal may have.
func zzAnyValue(name string) any {
	switch vf.Choose(name+".kind", 7) {
	case 0:
		return vf.Float64(name + ".num")
	case 1:
		return vf.Bool(name + ".bool")
	case 2:
		return vf.Str(name+".str", vf.Choose(name+".len", 3), "")
	case 3:
		return vf.Int(name+".int", -5, 1<<40)
	case 4:
		return vf.Int64(name + ".int64")
	case 5:
		return nil
	}
	return zzMap{"k": vf.Float64(name + ".elem")}
}

// Values of one type are equal exactly when they are the same, floats within half a hundredth;
// values of different types never are.
func C29_equal() {
	vf.SetOrder("ins")
	a, b := zzAnyValue("a"), zzAnyValue("b")
	want := false
	switch x := a.(type) {
	case float64:
		y, ok := b.(float64)
		want = ok && math.Abs(x-y) < 0.005
	default:
		want = zzSame(a, b)
	}
	got := isEqual(a, b)
	vf.Assert(got == want, "equal values are equal, others are not")
	vf.Assert(isEqual(b, a) == got, "the comparison is symmetric")
	vf.Reach("compared")
}
