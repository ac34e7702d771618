package vssgen

import (
	"encoding/json"

	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
	"github.com/CAU-CPSS/logument/internal/zzgen"
	"github.com/CAU-CPSS/logument/internal/zzrand"
	"github.com/CAU-CPSS/logument/internal/zztime"
	vf "github.com/CAU-CPSS/logument/internal/zzvf"
)

// zzSignal is a leaf as the generator makes them.
func zzSignal(name string) any {
	ts := int64(vf.Int(name+".ts", 0, 1<<63-1))
	switch vf.Choose(name+".type", 4) {
	case 0:
		return zzLeaf(vf.Bool(name+".v"), ts)
	case 1:
		return zzLeaf(vf.Int(name+".v", -100, 100), ts)
	case 2:
		return zzLeaf(vf.Float64(name+".v"), ts)
	}
	return zzLeaf(vf.Str(name+".v", vf.Choose(name+".len", 2), zzASCII), ts)
}

// zzASCII is every ASCII character.
var zzASCII = func() string {
	b := make([]byte, 128)
	for i := range b {
		b[i] = byte(i)
	}
	return string(b)
}()

func zzList(name string, max int) []any {
	r := []any{}
	for i, n := 0, vf.Choose(name+".n", max+1); i < n; i++ {
		r = append(r, zzSignal(name))
	}
	return r
}

// zzClock fixes the clock and returns the nanoseconds it shows.
func zzClock() int64 {
	s := int64(vf.Int("clock.s", 0, 1<<33))
	n := int64(vf.Int("clock.n", 0, 999999999))
	zztime.Clock = func() (int64, int64) { return s, n }
	return s*1000000000 + n
}

// zzRate is a rate from 0 to 1 in steps of 2^-20.
func zzRate(name string) float64 { return float64(vf.Int(name, 0, 1<<20)) / (1 << 20) }

// zzFollows checks the next state of a signal against the last one.
func zzFollows(old, new any, now int64) {
	o, ok1 := old.(zzMap)
	n, ok2 := new.(zzMap)
	vf.Assert(ok1 && ok2 && len(n) == 2, "a signal stays a signal with a value and a timestamp")
	ov, nv := o["value"], n["value"]
	ot, _ := o["timestamp"].(int64)
	nt, isInt := n["timestamp"].(int64)
	vf.Assert(isInt, "a signal has an integer timestamp")
	vf.Assert(vf.Or(nt == now, nt == ot), "a signal is stamped with the clock or not at all")
	typed := false
	same := false
	switch x := nv.(type) {
	case bool:
		y, ok := ov.(bool)
		typed, same = ok, ok && x == y
	case int:
		y, ok := ov.(int)
		typed, same = ok, ok && x == y
	case float64:
		y, ok := ov.(float64)
		typed, same = ok, ok && x == y
	case string:
		y, ok := ov.(string)
		typed, same = ok, ok && x == y
	case nil:
		typed, same = ov == nil, ov == nil
	}
	vf.Assert(typed, "a value is replaced by one of its type")
	vf.Assert(vf.Implies(nt != now, same), "a value is replaced only with a new timestamp")
}

func zzAllFollow(old, new zzMap, now int64) {
	vf.Assert(len(old) == len(new), "no signal appears or disappears")
	for k, v := range old {
		w, has := new[k]
		vf.Assert(has, "every signal is still there")
		switch x := v.(type) {
		case []any:
			y, ok := w.([]any)
			vf.Assert(ok && len(x) == len(y), "an array keeps its length")
			for i := range x {
				zzFollows(x[i], y[i], now)
			}
		case zzMap:
			if _, leaf := x["timestamp"]; leaf {
				zzFollows(x, w, now)
				continue
			}
			y, ok := w.(zzMap)
			vf.Assert(ok, "a branch stays a branch")
			zzAllFollow(x, y, now)
		}
	}
}

// zzPatch reads the patch the generator returned.
func zzPatch(p *VssJson) tsonpatch.Patch {
	b, err := json.Marshal(p.GetData())
	vf.Assert(err == nil, "a generated patch has a JSON form")
	var ops tsonpatch.Patch
	vf.Assert(json.Unmarshal(b, &ops) == nil, "a generated patch is a patch")
	return ops
}

func zzNext(d zzMap) {
	zzFewDraws()
	now := zzClock()
	before := zzCopy(d).(zzMap)
	cr, mr := zzRate("change"), zzRate("maintain")
	vss := VssJson{initialized: true, data: d}
	zzOrder()
	next, patch := vss.GenerateNext(cr, mr, 1, 2)
	vf.SetOrder("ins")
	vf.Assert(zzSame(any(before), vss.data), "the previous state is left as it was")
	nd, ok := next.GetData().(zzMap)
	vf.Assert(ok, "the next state is a document")
	zzAllFollow(before, nd, now)
	ops := zzPatch(patch)
	if cr <= 0 && mr <= 0 {
		vf.Assert(zzSame(any(before), any(nd)), "with rates 0 nothing changes")
		vf.Assert(len(ops) == 0, "with rates 0 the patch is empty")
		vf.Reach("rates0")
	}
	from, to := zzParse(before), zzParse(nd)
	got, err := tsonpatch.ApplyPatch(from, ops)
	vf.Assert(err == nil, "the patch applies to the previous state")
	vf.Assert(zzgen.Same(got, to, true), "the previous state with the patch is the next state, timestamps included")
	vf.Reach("followed")
}

// Every kind of signal, at the top and inside a branch.
func C25_signals() {
	if vf.Choose("deep", 2) == 1 {
		zzNext(zzMap{"B": zzMap{"c": zzSignal("c")}})
		return
	}
	zzNext(zzMap{"A": zzSignal("A")})
}

// Several signals.
func C25_several() {
	zzNext(zzMap{"A": zzSignal("A"), "B": zzMap{"c": zzLeaf(vf.Bool("v"), vf.Int64("ts"))}})
}

// Arrays of signals.
func C25_arrays() {
	zzNext(zzMap{"A": zzMap{"r": zzList("r", vf.Param("items", 2, 3))}})
}

// A signal without a value.
func C25_null() {
	zzNext(zzMap{"A": zzLeaf(nil, vf.Int64("ts")), "B": zzLeaf(true, 5)})
}

// Two steps: the state that was generated is a state to go on from.
func C25_twice() {
	zzFewDraws()
	zzClock()
	d := zzMap{"B": zzMap{"c": zzLeaf(vf.Bool("v"), vf.Int64("ts"))}}
	if vf.Param("signals", 1, 2) > 1 {
		d["A"] = zzLeaf(vf.Bool("f"), 7)
	}
	vss := VssJson{initialized: true, data: d}
	mid, p1 := vss.GenerateNext(zzRate("c1"), zzRate("m1"), 1, 2)
	end, p2 := mid.GenerateNext(zzRate("c2"), zzRate("m2"), 1, 3)
	var s tson.Tson = zzParse(d)
	s, err := tsonpatch.ApplyPatch(s, zzPatch(p1))
	vf.Assert(err == nil, "the first patch applies")
	s, err = tsonpatch.ApplyPatch(s, zzPatch(p2))
	vf.Assert(err == nil, "the second patch applies")
	vf.Assert(zzgen.Same(s, zzParse(end.GetData()), true), "the patches in turn give the last state")
	vf.Reach("chained")
}

// Many signals, and an array of more elements than a digit counts; the readings of one signal are symbolic.
func C25_many() {
	vf.SetOrder("ins")
	ticks := int64(1700000000)
	zztime.Clock = func() (int64, int64) { return ticks, 5 }
	ni, nf := 0, 0
	free := 7 * vf.Choose("free", 4)
	zzrand.Draw = func(n int) int { ni++; return ni * 7 % n }
	zzrand.DrawFloat = func() float64 {
		nf++
		if nf == free || nf == free+1 {
			return []float64{0, 0.25, 0.987654321}[vf.Choose("float", 3)]
		}
		return []float64{0, 0.05, 0.3, 0.9}[nf*nf%4]
	}
	d := zzMap{}
	val := func(i int) any {
		return []any{i%3 == 0, i, float64(i) / 4, "x" + string(rune('a'+i%26))}[i%4]
	}
	for i := 0; i < 4; i++ {
		b := zzMap{}
		for j := 0; j < 9; j++ {
			b["S"+string(rune('0'+j))] = zzLeaf(val(i+j), int64(10*i+j))
		}
		d["B"+string(rune('0'+i))] = b
	}
	var items []any
	for j := 0; j < 12; j++ {
		items = append(items, zzLeaf(val(4*j), int64(j)))
	}
	items[vf.Choose("item", 3)*5] = zzLeaf(vf.Bool("v"), vf.Int64("ts"))
	d["R"] = zzMap{"r": items}
	vss := VssJson{initialized: true, data: zzCopy(d)}
	state := zzParse(d)
	at := &vss
	rates := [][2]float64{{0.5, 0.5}, {1, 0}, {0.1, 1}}[vf.Choose("rates", 3)]
	for k := 2; k < 4; k++ {
		ticks++
		before := zzCopy(at.data).(zzMap)
		next, p := at.GenerateNext(rates[0], rates[1], 1, k)
		zzAllFollow(before, next.GetData().(zzMap), ticks*1000000000+5)
		var err error
		state, err = tsonpatch.ApplyPatch(state, zzPatch(p))
		vf.Assert(err == nil, "the patch applies to the previous state")
		vf.Assert(zzgen.Same(state, zzParse(next.GetData()), true), "the previous state with the patch is the next state, timestamps included")
		at = next
	}
	vf.Reach("many")
}
