package exp

import (
	"sort"

	"github.com/CAU-CPSS/logument/internal/zzrand"
	vf "github.com/CAU-CPSS/logument/internal/zzvf"
)

// zzGroups are the sensors of a vehicle by path.
func zzSensors(v *VehicleData) map[string]*SensorData {
	all := map[string]*SensorData{}
	for _, g := range []map[string]*SensorData{v.SensorsHighFreq, v.SensorsMedFreq, v.SensorsLowFreq, v.ActuatorsHighVar, v.ActuatorsLowVar, v.Attributes} {
		for p, s := range g {
			all[p] = s
		}
	}
	return all
}

func zzPathsOf(v map[string]*SensorData) []string {
	var ps []string
	for p := range v {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	return ps
}

// zzBounded: a reading has its sensor's type and lies within its bounds.
func zzBounded(s *SensorData) bool {
	spec := VSSSensors[s.Path]
	switch spec.Type {
	case "number":
		f, ok := s.Value.(float64)
		return ok && spec.Min <= f && f <= spec.Max
	case "boolean":
		_, ok := s.Value.(bool)
		return ok
	}
	_, ok := s.Value.(string)
	return ok
}

var zzScenarios = []string{"urban_traffic", "highway_cruising", "battery_charging", "mixed_scenario"}

// zzAnyReading gives a sensor any reading within its bounds.
func zzAnyReading(s *SensorData) {
	spec := VSSSensors[s.Path]
	switch spec.Type {
	case "number":
		s.Value = vf.Float64In("reading", spec.Min, spec.Max)
	case "boolean":
		s.Value = vf.Bool("reading")
	}
}

// The first readings lie within the bounds, and so does every next one, whatever the reading before.
func C30_reading() {
	vf.SetOrder("ins")
	scenario := vf.Pick("scenario", zzScenarios...)
	v := InitializeVehicleData(scenario)
	all := zzSensors(v)
	vf.Assert(len(all) == len(VSSSensors), "every sensor is simulated")
	for _, s := range all {
		vf.Assert(zzBounded(s), "the first reading lies within the bounds")
		vf.Assert(s.UpdateInterval > 0, "every sensor is updated at intervals")
	}
	paths := zzPathsOf(all)
	s := all[paths[vf.Choose("sensor", len(paths))]]
	if vf.Bool("later") {
		zzAnyReading(s)
	}
	s.ChangeCounter = vf.Int("counter", 0, 1<<20)
	now := int64(vf.Int("now", 0, 1<<40))
	for i := 0; i < vf.Param("updates", 2, 3); i++ {
		s.Value = calculateNewValue(s, now+int64(i*s.UpdateInterval), scenario)
		vf.Assert(zzBounded(s), "a reading lies within the bounds")
	}
	vf.Reach("read")
}

// A sensor stays within its bounds whatever its pattern, its steps and its intervals are.
func C30_config() {
	vf.SetOrder("ins")
	bounds := [][2]float64{{0, 10}, {-90, 90}, {-5, -5}, {0, 0}, {-1e6, 0.25}}[vf.Choose("bounds", 5)]
	lo, hi := bounds[0], bounds[1]
	big := func(name string) float64 { return vf.Float64In(name, -1e9, 1e9) }
	s := &SensorData{Path: "Vehicle.Speed", Type: "number", UpdateInterval: vf.Int("interval", 1, 1<<20), ChangeCounter: vf.Int("counter", 0, 1<<20)}
	s.ChangePattern = vf.Pick("pattern", "constant", "constant_with_noise", "linear", "random_walk", "stepped", "triggered", "none")
	s.ChangeParams = map[string]float64{
		"min": lo, "max": hi, "min_value": lo, "max_value": hi,
		"slope": big("slope"), "step_size": big("step"), "step_interval": big("every"),
		"reset_interval": big("reset"), "threshold": vf.Float64In("threshold", 0, 1),
		"baseline": vf.Float64In("baseline", lo, hi), "noise": vf.Float64In("noise", 0, 1e9),
	}
	s.Value = vf.Float64In("reading", lo, hi)
	for i := 0; i < vf.Param("updates", 1, 2); i++ {
		v, ok := calculateNewValue(s, int64(vf.Int("now", 0, 1<<40)), vf.Pick("scenario", "urban_traffic", "battery_charging")).(float64)
		vf.Assert(ok && lo <= v && v <= hi, "a reading lies within the bounds")
		s.Value = v
	}
	vf.Reach("read")
}

// Readings stay within the bounds when the scenario changes, whatever they are at that time.
func C30_change() {
	vf.SetOrder("ins")
	v := InitializeVehicleData(vf.Pick("scenario", zzScenarios...))
	all := zzSensors(v)
	paths := zzPathsOf(all)
	s := all[paths[vf.Choose("sensor", len(paths))]]
	zzAnyReading(s)
	for i := 0; i < vf.Param("changes", 2, 3); i++ {
		applyScenarioSettingsForMixed(v, vf.Pick("next", "urban_traffic", "highway_cruising", "battery_charging"))
		vf.Assert(zzBounded(s), "a reading lies within the bounds when the scenario changes")
		s.Value = calculateNewValue(s, int64(vf.Int("now", 0, 1<<40)), "mixed_scenario")
		vf.Assert(zzBounded(s), "a reading lies within the bounds after the scenario changed")
	}
	vf.Reach("changed")
}

// A scenario is not left before its minimum dwell time.
func C30_dwell() {
	vf.SetOrder("ins")
	zzrand.DrawFloat = func() float64 { return 0.5 }
	v := InitializeVehicleData("mixed_scenario")
	level := v.SensorsMedFreq["Vehicle.Powertrain.TractionBattery.StateOfCharge.Current"]
	st := NewScenarioState(vf.Pick("first", "urban_traffic", "battery_charging", "highway_cruising"), vf.Float64In("level0", 0, 100))
	last, now := int64(0), int64(0)
	cur, dwell := st.CurrentScenario, st.SwitchCooldown
	vf.Assert(dwell >= 30000, "the minimum dwell time is at least half a minute")
	for i := 0; i < vf.Param("steps", 4, 6); i++ {
		now += int64(vf.Int("step", 0, 1<<40))
		l := vf.Float64In("level", 0, 100)
		level.Value = l
		switched := st.UpdateScenarioState(v, now)
		vf.Assert(switched == (st.CurrentScenario != cur), "a switch is reported")
		vf.Assert(vf.Implies(switched, now-last >= dwell), "a scenario is not left before its minimum dwell time")
		vf.Assert(st.BatteryLevel == l, "the battery level is that of the vehicle")
		if switched {
			last, cur = now, st.CurrentScenario
			vf.Reach("switched")
		}
	}
	vf.Reach("simulated")
}
