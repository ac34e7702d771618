package exp

import (
	"bytes"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"math"
	"strings"

	"github.com/CAU-CPSS/logument/internal/zzos"
	"github.com/CAU-CPSS/logument/internal/zzrand"
	"github.com/CAU-CPSS/logument/internal/zztime"
	vf "github.com/CAU-CPSS/logument/internal/zzvf"
)

// The simulation reads the table of sensors; a run gets a small one.
var zzAllSensors = VSSSensors

func init() { vf.OnReset(func() { VSSSensors = zzAllSensors }) }

var zzCategories = []string{SensorTypeHigh, SensorTypeMedium, SensorTypeLow, ActuatorTypeHigh, ActuatorTypeLow, AttributeType}

// zzSensor is a sensor of some kind.
func zzSensor(path, kind string, interval int) *VSSSensor {
	s := &VSSSensor{Path: path, UpdateInterval: interval, Category: SensorTypeMedium, Max: 100, ChangePatterns: map[string]string{}}
	pattern := "constant"
	switch kind {
	case "walk":
		s.Type, s.DefaultValue, pattern = "number", 50.25, "random_walk"
	case "line":
		s.Type, s.DefaultValue, pattern = "number", []float64{50, 0, 0.002}[vf.Choose("from", 3)], "linear"
	case "noise":
		s.Type, s.DefaultValue, pattern = "number", 50.0, "constant_with_noise"
	case "switch":
		s.Type, s.DefaultValue, pattern = "boolean", vf.Bool("on"), "toggle"
	case "text":
		s.Type, s.DefaultValue = "string", vf.Str("text", vf.Param("text", 1, 2), "")
	}
	s.ChangePatterns["urban_traffic"] = pattern
	return s
}

// zzRun is what a run of the scenario experiment leaves.
type zzRun struct {
	result                       ExperimentResult
	records                      []TimingRecord
	firstJ, firstT, lastJ, lastT zzMap
	jsonPatches                  []JsonPatch
	tsonPatches                  []TsonPatch
	timing                       [][]string
}

func zzLoad(file string, v any) []byte {
	b, err := zzos.ReadFile(file)
	vf.Assert(err == nil, "the file is saved")
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	vf.Assert(d.Decode(v) == nil, "the file is JSON")
	return b
}

func zzSimulate(specs ...*VSSSensor) *zzRun {
	zzos.MkdirAll("results", 0o755)
	tick := int64(1700000000123456789)
	zztime.Clock = func() (int64, int64) {
		tick += 1001
		return tick / 1000000000, tick % 1000000000
	}
	VSSSensors = map[string]*VSSSensor{}
	for _, s := range specs {
		VSSSensors[s.Path] = s
	}
	r := &zzRun{}
	var buf bytes.Buffer
	w := csv.NewWriter(&buf)
	r.result, r.records = runRealisticExperiment("urban_traffic", w)
	w.Flush()
	rows, err := csv.NewReader(&buf).ReadAll()
	vf.Assert(err == nil, "the timing data are rows")
	r.timing = rows
	dirs, err := zzos.ReadDir(outputDir + "/urban_traffic")
	vf.Assert(err == nil, "the results are saved")
	dir := ""
	for _, d := range dirs {
		if d.Name() != "sensor_data" {
			vf.Assert(dir == "", "a run saves one set of results")
			dir = outputDir + "/urban_traffic/" + d.Name()
		}
	}
	zzLoad(dir+"/initial_json.json", &r.firstJ)
	zzLoad(dir+"/initial_tson.json", &r.firstT)
	zzLoad(dir+"/final_json.json", &r.lastJ)
	zzLoad(dir+"/final_tson.json", &r.lastT)
	zzLoad(dir+"/all_json_patches.json", &r.jsonPatches)
	zzLoad(dir+"/all_tson_patches.json", &r.tsonPatches)
	return r
}

// zzAt is the object at a dotted path.
func zzAt(d zzMap, path string) zzMap {
	for _, p := range strings.Split(path, ".") {
		m, ok := d[p].(zzMap)
		vf.Assert(ok, "every sensor is in the documents")
		d = m
	}
	return d
}

// zzTold is a value as the files tell it.
func zzTold(v any) any {
	b, err := json.Marshal(v)
	vf.Assert(err == nil, "a reading is a JSON value")
	var r any
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	vf.Assert(d.Decode(&r) == nil, "a reading is a JSON value")
	return r
}

// zzSameTold compares what is read from files.
func zzSameTold(a, b any) bool {
	switch x := a.(type) {
	case zzMap:
		y, ok := b.(zzMap)
		if !ok || len(x) != len(y) {
			return false
		}
		all := true
		for k, v := range x {
			w, has := y[k]
			all = vf.And(all, has && zzSameTold(v, w))
		}
		return all
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		all := true
		for i := range x {
			all = vf.And(all, zzSameTold(x[i], y[i]))
		}
		return all
	case json.Number:
		y, ok := b.(json.Number)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	}
	return a == nil && b == nil
}

// zzAgree compares everything a run leaves.
func zzAgree(r *zzRun, specs ...*VSSSensor) {
	updates := 0
	for _, s := range specs {
		n := 0
		for ms := 0; ms < simulationDurationSec*1000; ms += simulationTimeStepMs {
			if ms%s.UpdateInterval == 0 {
				n++
			}
		}
		updates += n
		at := 0
		for _, rec := range r.records {
			if rec.SensorPath == s.Path {
				vf.Assert(rec.TimeMs >= int64(at*s.UpdateInterval) && rec.TimeMs%int64(s.UpdateInterval) == 0, "a sensor is updated at its interval")
				at++
			}
		}
		vf.Assert(at == n, "a sensor is updated as often as its interval has it")
	}
	res := r.result
	changes := 0
	for i, rec := range r.records {
		if rec.ValueChanged {
			changes++
		}
		vf.Assert(rec.UpdateIndex == i+1 && (i == 0 || r.records[i-1].TimeMs <= rec.TimeMs), "the updates are recorded in order")
		vf.Assert(i < len(r.timing) && r.timing[i][2] == rec.SensorPath && r.timing[i][1] == fmt.Sprint(rec.TimeMs) && r.timing[i][5] == fmt.Sprint(rec.ValueChanged), "the timing rows are the updates")
	}
	vf.Assert(len(r.records) == updates && len(r.timing) == updates && res.TotalUpdates == updates, "every update is counted")
	vf.Assert(res.ValueChanges == changes && res.TimestampOnlyChanges == updates-changes, "changes and repetitions are counted")
	vf.Assert(res.JsonPatchCount == updates+changes && len(r.jsonPatches) == updates+changes, "an update makes a JSON patch for its time and one for its value if that changed")
	vf.Assert(res.TsonPatchCount == changes && len(r.tsonPatches) == changes, "a change makes a TSON patch")
	vf.Assert(res.SetTsonPatchCount == updates, "setting makes a TSON patch for every update")

	// the first documents
	lastPatch := map[string]TsonPatch{}
	for _, s := range specs {
		j, t := zzAt(r.firstJ, s.Path), zzAt(r.firstT, s.Path)
		vf.Assert(zzSameTold(j["value"], t["value"]) && zzSameTold(j["timestamp"], t["_ts"]), "the first documents agree")
		vf.Assert(zzSameTold(j["value"], zzTold(s.DefaultValue)), "the first document has the first readings")
	}
	// the patches in order
	want := r.firstJ
	for i, p := range r.jsonPatches {
		cut := strings.LastIndex(p.Path, "/")
		vf.Assert(p.Op == "replace" && cut > 0, "a JSON patch replaces")
		field := p.Path[cut+1:]
		at := zzAt(want, p.Path[:cut])
		vf.Assert(field == "timestamp" || field == "value" && i > 0 && r.jsonPatches[i-1].Path == p.Path[:cut]+"/timestamp", "a JSON patch replaces the time, and the value after it")
		at[field] = p.Value
	}
	vf.Assert(zzSameTold(want, r.lastJ), "the last JSON document is the first one with the JSON patches")
	k := 0
	for _, rec := range r.records {
		if !rec.ValueChanged {
			continue
		}
		p := r.tsonPatches[k]
		k++
		vf.Assert(p.Op == "replace" && p.Path == rec.SensorPath && p.Timestamp == rec.TimeMs, "the TSON patches are the changes in order")
		before := zzAt(r.firstT, p.Path)["value"]
		if q, ok := lastPatch[p.Path]; ok {
			before = q.Value
		}
		vf.Assert(!zzSameTold(before, p.Value), "a TSON patch changes the value")
		lastPatch[p.Path] = p
	}
	wantT := r.firstT
	for _, p := range r.tsonPatches {
		at := zzAt(wantT, p.Path)
		at["value"], at["_ts"] = p.Value, json.Number(fmt.Sprint(p.Timestamp))
	}
	vf.Assert(zzSameTold(wantT, r.lastT), "the last TSON document is the first one with the TSON patches")
	for _, s := range specs {
		vf.Assert(zzSameTold(zzAt(r.lastJ, s.Path)["value"], zzAt(r.lastT, s.Path)["value"]), "the last documents have the same values")
	}
	// the growth of the patches
	for i, at := range res.CumulativeTimeVec {
		js, ts := 0, 0
		for _, rec := range r.records {
			if rec.TimeMs < at {
				js++
				if rec.ValueChanged {
					js++
					ts++
				}
			}
		}
		vf.Assert(res.CumulativeJsonVec[i] == js && res.CumulativeTsonVec[i] == ts, "the growth is that of the patches made before")
	}
	vf.Assert(len(res.CumulativeTimeVec) == 30 && len(res.CumulativeJsonVec) == 30 && len(res.CumulativeTsonVec) == 30, "the growth is told every ten seconds")
}

// One sensor of each kind.
func C34_sensor() {
	vf.SetOrder("ins")
	kind := vf.Pick("kind", "switch", "text", "walk", "line", "noise")
	interval := []int{150000, 100000, 300000}[vf.Choose("interval", vf.Param("intervals", 2, 3))]
	path := "Vehicle.A.X"
	if kind == "walk" {
		path = vf.Pick("path", "Vehicle.A.X", "Speed")
	}
	s := zzSensor(path, kind, interval)
	if kind == "switch" {
		s.Category = zzCategories[vf.Choose("category", len(zzCategories))]
	}
	var draws []float64
	zzrand.DrawFloat = func() float64 {
		d := 0.0
		if kind == "switch" { // any draw
			d = float64(vf.Int("draw", 0, 1<<53-1)) / (1 << 53)
		} else {
			d = []float64{0.5, 0.01, 0.501, 0.999}[vf.Choose("draw", 4)]
		}
		draws = append(draws, d)
		return d
	}
	r := zzSimulate(s)
	zzAgree(r, s)
	// what changed is what the draws have changed
	changes, last := 0, 50.25
	for i := range r.records {
		switch kind {
		case "switch":
			if draws[i] < 0.05 {
				changes++
			}
		case "walk":
			if next := last + (draws[i]*2-1)*(s.Max*0.01); math.Abs(next-last) >= 0.005 {
				changes++
				last = next
			}
		case "line", "noise":
			changes = r.result.ValueChanges
		}
	}
	vf.Assert(changes == r.result.ValueChanges, "an update is a change exactly if the value is another one")
	vf.Reach(kind)
}

// Two sensors.
func C34_two() {
	vf.SetOrder("ins")
	a := zzSensor("Vehicle.A.X", vf.Pick("a", "switch", "walk"), 150000)
	b := zzSensor("Vehicle.A.Y", vf.Pick("b", "switch", "noise"), []int{150000, 200000}[vf.Choose("interval", 2)])
	if vf.Choose("apart", 2) == 1 {
		b.Path, b.Category = "Vehicle.B", SensorTypeHigh
	}
	zzrand.DrawFloat = func() float64 { return []float64{0.5, 0.01}[vf.Choose("draw", 2)] }
	zzOrder()
	r := zzSimulate(a, b)
	vf.SetOrder("ins")
	zzAgree(r, a, b)
	vf.Reach("run")
}

var zzScenarioList = scenarios

func init() { vf.OnReset(func() { scenarios = zzScenarioList }) }

// The files of a whole experiment tell what the saved patches are.
func C34_report() {
	vf.SetOrder("ins")
	zzos.MkdirAll("results", 0o755)
	tick := int64(1700000000123456789)
	zztime.Clock = func() (int64, int64) {
		tick += 1001
		return tick / 1000000000, tick % 1000000000
	}
	mixed := vf.Choose("mixed", 2) == 1
	if mixed {
		scenarios = []string{"mixed_scenario"}
	}
	s := zzSensor("Vehicle.A.X", "switch", 100000)
	for _, name := range scenarios {
		s.ChangePatterns[name] = "toggle"
	}
	VSSSensors = map[string]*VSSSensor{s.Path: s}
	n := 0
	zzrand.DrawFloat = func() float64 {
		n++
		if n > vf.Param("draws", 4, 6) {
			return []float64{0.01, 0.5}[n%2]
		}
		return []float64{0.5, 0.01}[vf.Choose("draw", 2)]
	}
	if vf.Choose("before", 2) == 1 { // an earlier experiment's results
		for _, name := range scenarios {
			for _, f := range []string{"results", "cumulative", "timing", "transitions"} {
				zzos.Put("results/patch_experiment/"+name+"/"+f+".csv", []byte(strings.Repeat("1,2,3,4,5,6,7,8\n", 500)))
			}
		}
	}
	RealworldScenario()
	for _, name := range scenarios {
		base := outputDir + "/" + name
		dir, err := findLatestTimestampDir(base)
		vf.Assert(err == nil, "the results are saved")
		var js []JsonPatch
		var ts []TsonPatch
		zzLoad(dir+"/all_json_patches.json", &js)
		zzLoad(dir+"/all_tson_patches.json", &ts)
		rows := func(file string, width int) [][]string {
			b, err := zzos.ReadFile(base + "/" + file)
			vf.Assert(err == nil, "the results are saved")
			r, err := csv.NewReader(bytes.NewReader(b)).ReadAll()
			vf.Assert(err == nil && len(r) > 0 && len(r[0]) == width, "the results are rows under a heading")
			return r[1:]
		}
		width := 7
		if mixed {
			width++
		}
		timing := rows("timing.csv", width)
		changes := 0
		for _, t := range timing {
			if t[5] == "true" {
				changes++
			}
			vf.Assert(!mixed || t[7] == "urban_traffic", "the timing tells the scenario")
		}
		vf.Assert(len(timing) == 3 && len(js) == 3+changes && len(ts) == changes, "every update has a timing row")
		sum := rows("results.csv", 16)
		vf.Assert(len(sum) == 1, "a scenario has one row of results")
		bj, _ := json.Marshal(js)
		bt, _ := json.Marshal(ts)
		for i, n := range []int{simulationDurationSec * 1000, 3, changes, 3 - changes, len(js), changes, 3, len(bj), len(bt)} {
			vf.Assert(sum[0][i+1] == fmt.Sprint(n), "the results are those of the patches")
		}
		vf.Assert(sum[0][15] == fmt.Sprintf("%.2f", (1-float64(changes)/float64(len(js)))*100), "the reduction is that of the patches")
		growth := rows("cumulative.csv", 3)
		vf.Assert(len(growth) == 30, "the growth is told every ten seconds")
		for i, g := range growth {
			j, t := 0, 0
			for _, u := range timing {
				if len(u[1]) < len(g[0]) || len(u[1]) == len(g[0]) && u[1] < g[0] {
					j++
					if u[5] == "true" {
						j++
						t++
					}
				}
			}
			vf.Assert(g[0] == fmt.Sprint(i*10000) && g[1] == fmt.Sprint(j) && g[2] == fmt.Sprint(t), "the growth is that of the patches made before")
		}
	}
	vf.Reach("report")
}
