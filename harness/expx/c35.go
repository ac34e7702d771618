package exp

import (
	"bytes"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	"github.com/CAU-CPSS/logument/internal/zzos"
	"github.com/CAU-CPSS/logument/internal/zztime"
	vf "github.com/CAU-CPSS/logument/internal/zzvf"
)

// zzAnyPatch is a patch of a run with any value and time.
func zzAnyPatch(name string) TsonPatch {
	p := TsonPatch{Op: vf.Pick(name+".op", "replace", "add"), Path: vf.Pick(name+".path", "Vehicle.Speed", "Vehicle.Cabin/x<y"), Timestamp: vf.Int64(name + ".ts")}
	switch vf.Choose(name+".kind", 4) {
	case 0:
		p.Value = vf.Float64(name + ".num")
	case 1:
		p.Value = vf.Bool(name + ".bool")
	case 2:
		p.Value = vf.Str(name+".str", vf.Param("str", 1, 2), "")
		b, _ := json.Marshal(p.Value)
		var s string // what JSON can tell of it
		json.Unmarshal(b, &s)
		p.Value = s
	}
	return p
}

func zzSamePatches(a, b []TsonPatch) bool {
	if len(a) != len(b) {
		return false
	}
	all := true
	for i := range a {
		all = vf.And(all, a[i].Op == b[i].Op && a[i].Path == b[i].Path)
		all = vf.And(all, a[i].Timestamp == b[i].Timestamp)
		all = vf.And(all, zzSame(a[i].Value, b[i].Value))
	}
	return all
}

func zzAtSecond(s int64) {
	zztime.Clock = func() (int64, int64) { return s, 5 }
}

// What a run saves is what the temporal experiment finds: the patches of the latest run, and nothing else.
func C35_runs() {
	vf.SetOrder("ins")
	zzos.MkdirAll("results", 0o755)
	// directories and files that are no results of a run
	if vf.Choose("others", 2) == 1 {
		for _, other := range []string{"sensor_data/Speed.csv", "results.csv", "x20990101_000000/all_tson_patches.json", "99999999_99999/a", "29991231_235959"} {
			zzos.Put("results/urban_traffic/"+other, []byte("[]"))
		}
	}
	n := vf.Param("runs", 2, 3)
	var last []TsonPatch
	latest, lastDir := int64(0), ""
	seconds := []int64{1700000000, 1699999999, 1731999999, 1700100000}
	first, step := vf.Choose("first", len(seconds)), 1+2*vf.Choose("step", 2)
	for i := 0; i < n; i++ {
		at := seconds[(first+i*step)%len(seconds)]
		zzAtSecond(at)
		ds := NewDataStorage("results", "urban_traffic")
		ps := []TsonPatch{{Op: "replace", Path: "Vehicle.Speed", Value: float64(i), Timestamp: int64(i)}}
		if at > latest {
			if i == n-1 || vf.Choose("any", 2) == 1 {
				ps = append(ps, zzAnyPatch("patch"))
			}
			last, latest, lastDir = ps, at, ds.OutputDir
		}
		vf.Assert(ds.SaveAllTSONPatches(ps) == nil && ds.SaveInitialJSON(zzMap{"a": 1}) == nil && ds.SaveAllJSONPatches([]JsonPatch{{Op: "replace", Path: "a/value", Value: 1}}) == nil, "a run's data are saved")
	}
	dir, err := findLatestTimestampDir("results/urban_traffic")
	vf.Assert(err == nil && dir == lastDir, "the latest run is found")
	got, err := loadTSONPatches(dir)
	vf.Assert(err == nil, "the patches of a run are read back")
	vf.Assert(zzSamePatches(got, last), "the patches read back are those saved")
	vf.Reach("found")
}

// Without a run there is an error.
func C35_none() {
	vf.SetOrder("ins")
	if vf.Choose("there", 2) == 1 {
		zzos.MkdirAll("results/urban_traffic/sensor_data", 0o755)
		zzos.MkdirAll("results/urban_traffic/20240101-000000", 0o755)
		zzos.Put("results/urban_traffic/20240101_000000", []byte("a file"))
	}
	_, err := findLatestTimestampDir("results/urban_traffic")
	vf.Assert(err != nil, "without a run there is an error")
	_, err = loadTSONPatches("results/urban_traffic/20230101_000000")
	vf.Assert(err != nil, "without a run there is an error")
	zzos.Put("results/urban_traffic/20230101_000000/all_tson_patches.json", []byte(vf.Pick("bad", "", "[", "{}", `[{"op":1}]`)))
	_, err = loadTSONPatches("results/urban_traffic/20230101_000000")
	vf.Assert(err != nil, "broken patches are an error")
	vf.Reach("none")
}

// Every document and patch goes into its own file, as JSON of what it is.
func C35_files() {
	vf.SetOrder("ins")
	zzos.MkdirAll("results", 0o755)
	zzAtSecond(1700000000)
	ds := NewDataStorage("results", vf.Pick("scenario", "urban_traffic", "highway_cruising"))
	doc := func(i int) zzMap {
		return zzMap{"Vehicle": zzMap{"Speed": zzMap{"value": vf.Bool("v"), "timestamp": vf.Int64("ts")}, "n": i}}
	}
	k, ms := []int{0, 7, 12345}[vf.Choose("index", 3)], []int64{0, 100, 300000, 4294967296}[vf.Choose("ms", 4)]
	saves := []func(any) error{ds.SaveInitialJSON, ds.SaveInitialTSON, ds.SaveFinalJSON, ds.SaveFinalTSON, ds.SaveAllJSONPatches, ds.SaveAllTSONPatches,
		func(v any) error { return ds.SaveJSONPatch(k, v) }, func(v any) error { return ds.SaveTSONPatch(k, v) },
		func(v any) error { return ds.SaveJSONSnapshot(ms, v) }, func(v any) error { return ds.SaveTSONSnapshot(ms, v) }}
	names := []string{"initial_json", "initial_tson", "final_json", "final_tson", "all_json_patches", "all_tson_patches",
		fmt.Sprintf("json_patch_%04d", k), fmt.Sprintf("tson_patch_%04d", k), fmt.Sprintf("json_snapshot_%09d", ms), fmt.Sprintf("tson_snapshot_%09d", ms)}
	from := vf.Choose("from", len(saves))
	var docs [3]zzMap
	for i := range docs {
		docs[i] = doc(i)
		vf.Assert(saves[(from+i)%len(saves)](docs[i]) == nil, "a document is saved")
	}
	for i := range docs {
		var got zzMap
		zzLoad(ds.OutputDir+"/"+names[(from+i)%len(saves)]+".json", &got)
		vf.Assert(zzSameTold(got, zzTold(docs[i])), "a saved document is the document")
	}
	vf.Reach("files")
}

// The recorder writes one row for every reading of a key sensor.
func C35_recorder() {
	vf.SetOrder("ins")
	zzos.MkdirAll("results", 0o755)
	zzAtSecond(1700000000)
	if vf.Choose("before", 2) == 1 { // an earlier run's recordings
		for _, p := range KeySensorPaths {
			zzos.Put("results/urban_traffic/sensor_data/"+p+".csv", []byte(strings.Repeat("1,2,3\n", 50)))
		}
	}
	r, err := NewSensorDataRecorder("results", "urban_traffic")
	vf.Assert(err == nil, "the recorder starts")
	v := &VehicleData{SensorsHighFreq: map[string]*SensorData{}, SensorsMedFreq: map[string]*SensorData{}, SensorsLowFreq: map[string]*SensorData{},
		ActuatorsHighVar: map[string]*SensorData{}, ActuatorsLowVar: map[string]*SensorData{}, Attributes: map[string]*SensorData{}}
	groups := []map[string]*SensorData{v.SensorsHighFreq, v.SensorsMedFreq, v.SensorsLowFreq, v.ActuatorsHighVar, v.ActuatorsLowVar, v.Attributes}
	which := vf.Choose("which", len(KeySensorPaths))
	key := KeySensorPaths[which]
	s := &SensorData{Path: key}
	groups[which%len(groups)][key] = s
	groups[0]["Vehicle.Other"] = &SensorData{Path: "Vehicle.Other", Value: 1.0}
	n := vf.Param("rows", 2, 3)
	var want [][]string
	for i := 0; i < n; i++ {
		ms := int64(i*700 + 100*(which%4))
		text := ""
		switch vf.Choose("kind", 3) {
		case 0:
			f := []float64{12.34567, -0.5, 1e6, 0}[vf.Choose("num", 4)]
			s.Value, text = f, fmt.Sprintf("%.4f", f)
		case 1:
			b := vf.Bool("on")
			s.Value, text = b, "false"
			if b {
				text = "true"
			}
		case 2:
			s.Value, text = "a,b", "a,b"
		}
		vf.Assert(r.RecordSensorData(ms, v) == nil, "a reading is recorded")
		want = append(want, []string{fmt.Sprint(ms), text})
	}
	r.Close()
	for i, p := range KeySensorPaths {
		name := p[strings.LastIndex(p, ".")+1:]
		_ = name
		b := zzRecorded(p)
		rows, err := csv.NewReader(bytes.NewReader(b)).ReadAll()
		vf.Assert(err == nil && len(rows) > 0 && len(rows[0]) == 3, "the recordings are rows under a heading")
		if i != which {
			vf.Assert(len(rows) == 1, "only what there is is recorded")
			continue
		}
		vf.Assert(len(rows) == n+1, "every reading is recorded once")
		for k, w := range want {
			vf.Assert(rows[k+1][1] == w[0] && rows[k+1][2] == w[1], "a recording has the time and the reading")
		}
	}
	vf.Reach("rows")
}

// zzRecorded is the file of a key sensor.
func zzRecorded(path string) []byte {
	b, err := zzos.ReadFile("results/urban_traffic/sensor_data/" + path + ".csv")
	vf.Assert(err == nil, "every key sensor has a file")
	return b
}

// What the queries of the temporal experiment answer is what its files tell, each answer in its own file and a row for each.
func C35_results() {
	vf.SetOrder("ins")
	zzos.MkdirAll("results", 0o755)
	tick := int64(1700000000123456789)
	zztime.Clock = func() (int64, int64) {
		tick += 1001
		return tick / 1000000000, tick % 1000000000
	}
	ds := NewDataStorage("results", "urban_traffic")
	doc := zzMap{}
	updateJsonDoc(doc, "Vehicle.Speed", 12.5, 3)
	updateJsonDoc(doc, "Vehicle.Cabin.Door", true, 3)
	vf.Assert(ds.SaveInitialJSON(doc) == nil, "a run's data are saved")
	var ps []TsonPatch
	for i, n := 0, vf.Param("patches", 2, 3); i < n; i++ {
		p := TsonPatch{Op: "replace", Path: "Vehicle.Speed", Value: []float64{12.5, 33.25, 1e9}[vf.Choose("speed", 3)], Timestamp: int64(100 * (i + vf.Choose("later", 2)))}
		if vf.Choose("door", 2) == 1 {
			p.Path, p.Value = "Vehicle.Cabin.Door", vf.Bool("open")
		}
		ps = append(ps, p)
	}
	e, err := NewTemporalQueryExperiment(ds.OutputDir, "out", "urban_traffic", append([]TsonPatch(nil), ps...))
	vf.Assert(err == nil, "the experiment is set up")
	if vf.Choose("before", 2) == 1 { // an earlier experiment's results
		zzos.Put(e.OutputDir+"/results.csv", []byte(strings.Repeat("1,2,3,4,5,6,7,8\n", 100)))
	}
	at := []int64{0, 100, 150, 100}
	paths := []string{"Vehicle.Speed", "Vehicle.Cabin.Door"}
	limits := []float64{10, 12.54, 50}
	from, to := int64(0), int64(100*vf.Choose("to", 4))
	var got []TemporalQueryResult
	var want, wantJ []any
	switch vf.Choose("query", 3) {
	case 0:
		got, err = e.RunTemporalSnapshotExperiment(at)
		for _, t := range at {
			s, _ := e.TJSONDocument.TemporalSnapshot(t)
			want, wantJ = append(want, e.LogumentDoc.TemporalSnapshot(t)), append(wantJ, s)
		}
	case 1:
		got, err = e.RunTemporalTrackExperiment(paths, from, to)
		for _, p := range paths {
			s, _ := e.TJSONDocument.TemporalTrack(p, from, to)
			want, wantJ = append(want, filterTrackByPath(e.LogumentDoc.TemporalTrack(from, to), p)), append(wantJ, s)
		}
	case 2:
		got, err = e.RunEventSearchExperiment(paths, from, to, limits)
		for _, p := range paths {
			for _, l := range limits {
				s, _ := e.TJSONDocument.FindEvents(p, from, to, func(v any) bool {
					f, ok := v.(float64)
					return ok && f > l
				})
				want, wantJ = append(want, findEventsInLogument(e.LogumentDoc, p, from, to, l)), append(wantJ, s)
			}
		}
	}
	vf.Assert(err == nil && len(got) == len(want), "every query is answered")
	vf.Assert(e.SaveResults(got, "results.csv") == nil, "the results are saved")
	b, err := zzos.ReadFile(e.OutputDir + "/results.csv")
	vf.Assert(err == nil, "the results are saved")
	rows, err := csv.NewReader(bytes.NewReader(b)).ReadAll()
	vf.Assert(err == nil && len(rows) == len(got)+1, "there is a row for every query")
	for i, r := range got {
		for k, file := range []string{r.LogumentResultFile, r.TJSONResultFile} {
			answer := want[i]
			if k == 1 {
				answer = wantJ[i]
			}
			var a any
			zzLoad(file, &a)
			vf.Assert(zzSameTold(a, zzTold(answer)), "the file of a query has its answer")
			text, _ := json.Marshal(answer)
			vf.Assert(rows[i+1][6+k] == fmt.Sprint(len(text)), "the row of a query has the size of its answer")
		}
		vf.Assert(rows[i+1][0] == "urban_traffic" && rows[i+1][1] == r.QueryType && rows[i+1][2] == r.Parameter, "the row of a query tells the query")
	}
	vf.Reach("results")
}

// From the files of a run to those of the queries: sixty-one snapshots from the first patch to the last, the last one with all patches.
func C35_pipeline() {
	vf.SetOrder("ins")
	zzos.MkdirAll("results", 0o755)
	tick := int64(1700000000123456789)
	zztime.Clock = func() (int64, int64) {
		tick += 1001
		return tick / 1000000000, tick % 1000000000
	}
	ds := NewDataStorage(outputDir, "urban_traffic")
	doc, state := zzMap{}, zzMap{}
	set := func(path string, v any) {
		zzPut(state, strings.Split(path, "."), v)
	}
	for i, p := range []string{"Vehicle.Speed", "Vehicle.CurrentLocation.Latitude", "Vehicle.CurrentLocation.Longitude", "Vehicle.Powertrain.TractionBattery.StateOfCharge.Current"} {
		updateJsonDoc(doc, p, 12.5*float64(i), 0)
		set(p, 12.5*float64(i))
	}
	if vf.Choose("door", 2) == 1 {
		updateJsonDoc(doc, "Vehicle.Cabin.Door", true, 0)
		set("Vehicle.Cabin.Door", true)
	}
	vf.Assert(ds.SaveInitialJSON(doc) == nil, "a run's data are saved")
	end := []int64{10000, 12345, 299900}[vf.Choose("end", 3)]
	ps := []TsonPatch{{Op: "replace", Path: "Vehicle.Speed", Value: []float64{20, 60}[vf.Choose("speed", 2)], Timestamp: 0},
		{Op: "replace", Path: "Vehicle.Speed", Value: 0.25, Timestamp: []int64{0, 166, 7000, end}[vf.Choose("mid", 4)]},
		{Op: "replace", Path: "Vehicle.Speed", Value: 54321.5, Timestamp: end}}
	vf.Assert(ds.SaveAllTSONPatches(ps) == nil, "a run's data are saved")
	RunTemporalQueryExperiments()
	dir := "results/temporal_query_experiment/urban_traffic/temporal_query/"
	var times []string
	for file, n := range map[string]int{"snapshot_results.csv": 61, "track_results.csv": 4, "event_search_results.csv": 3} {
		b, err := zzos.ReadFile(dir + file)
		vf.Assert(err == nil, "the results are saved")
		rows, err := csv.NewReader(bytes.NewReader(b)).ReadAll()
		vf.Assert(err == nil && len(rows) == n+1, "there is a row for every query")
		if n == 61 {
			for _, row := range rows[1:] {
				times = append(times, row[2])
			}
		}
	}
	vf.Assert(times[0] == "0" && times[60] == fmt.Sprint(end), "the instants go from the first patch to the last")
	for _, i := range []int{0, 30, 60} {
		t, err := strconv.ParseInt(times[i], 10, 64)
		vf.Assert(err == nil && t == end*int64(i)/60, "the instants are spread evenly")
		want := zzCopy(state).(zzMap)
		for _, p := range ps {
			if p.Timestamp <= t {
				zzPut(want, strings.Split(p.Path, "."), p.Value)
			}
		}
		var a any
		zzLoad(fmt.Sprintf("%stjson/snapshot_tjson_%d_%d.json", dir, i, t), &a)
		vf.Assert(zzSameTold(a, zzTold(want)), "a saved snapshot is the state at its instant")
		var l any
		zzLoad(fmt.Sprintf("%slogument/snapshot_logument_%d_%d.json", dir, i, t), &l)
		vf.Assert(zzSameTold(zzValues(l), zzTold(want)), "a saved snapshot is the state at its instant")
	}
	vf.Reach("pipeline")
}

// zzValues is a saved log snapshot without its timestamps.
func zzValues(v any) any {
	m, ok := v.(zzMap)
	if !ok {
		return v
	}
	if _, has := m["timestamp"]; has {
		return m["value"]
	}
	r := zzMap{}
	for k, e := range m {
		r[k] = zzValues(e)
	}
	return r
}
