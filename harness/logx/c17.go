package logx

import (
	"github.com/CAU-CPSS/logument/internal/logument"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
	"github.com/CAU-CPSS/logument/internal/zzgen"
	vf "github.com/CAU-CPSS/logument/internal/zzvf"
)

// C17: tracking a range of versions; C18: a range of time.

// stamped numbers the operations by their timestamps, in an order that is not that of recording.
func stamped(i int) int64 { return []int64{50, 10, 40, 20, 30, 60, 15, 55}[i%8] }

// checkKept compares what was tracked of a series of operations.
func checkKept(in []op, in2 []bool, removals bool, what string) {
	for i := range in {
		if !in2[i] {
			vf.Assert(repeats(in, i), what+": a change is missing")
		} else if !removals {
			vf.Assert(vf.Not(repeats(in, i)), what+": a repeated value is not left out")
		}
	}
}

func checkTrack(l *logument.Logument, h *hist, i, j int) {
	got := l.Track(h.base+uint64(i), h.base+uint64(j))
	vf.SetOrder("ins")
	var all []op
	var there []bool
	n := 0
	for v := i; v <= j; v++ {
		p, has := got[h.base+uint64(v)]
		if has {
			n++
		}
		there = append(there, kept(h.ops[v], p, "track")...)
		all = append(all, h.ops[v]...)
	}
	vf.Assert(n == len(got), "track: a version outside of the range")
	removals := false
	for _, o := range all {
		removals = removals || !isPut(o)
	}
	checkKept(all, there, removals, "track")
	if i > 0 {
		d := zzgen.Clone(h.states[i-1])
		for v := i; v <= j; v++ {
			r, err := tsonpatch.ApplyPatch(d, got[h.base+uint64(v)])
			vf.Assert(err == nil, "tracked changes are not applicable to the version before")
			d = r
		}
		vf.Assert(zzgen.Same(h.states[j], d, false), "tracked changes do not lead to the values of the last version")
		vf.Reach("replayed")
	}
	vf.Reach("tracked")
}

func rangeOf(n int) (i, j int) {
	i = vf.Choose("i", n)
	return i, i + vf.Choose("j", n-i)
}

// every history over a few paths, every range
func C17_histories() {
	l, h := build(initial(), vf.Param("C17 versions", 3, 4), 1, func(h *hist, i int) op {
		return h.op("op", []string{"/a", "/b/c", "/ab"}, vf.Bool("v"), stamped(i))
	})
	i, j := rangeOf(len(h.states))
	checkTrack(l, h, i, j)
}

// more than one operation per version; removals, containers and moving elements
func C17_removals() {
	l, h := build(initial(), 2, vf.Param("C17 operations per version", 2, 2), func(h *hist, i int) op {
		return h.op("op", []string{"/b/c", "/b", "/r/0", "/r/1"}, vf.Bool("v"), stamped(i))
	})
	checkTrack(l, h, 1+vf.Choose("i", 2), 2)
}

// values of every type
func C17_values() {
	l, h := build(initial(), 3, 1, func(h *hist, i int) op {
		var v any
		switch vf.Choose("kind", 4) {
		case 0:
			v = vf.Float64("f")
		case 1:
			v = vf.Str("s", vf.Choose("len", 2), "")
		case 2:
			v = vf.Bool("b")
		case 3:
			v = vf.Pick("text", "1", "true", "x", "")
		}
		o := op{Op: "replace", Path: "/a", Value: v, Timestamp: stamped(i)}
		h.do(o)
		return o
	})
	checkTrack(l, h, 1, 3)
}

// symbolic member names
func C17_paths() {
	n := vf.Param("C17 path length", 3, 4)
	l, h := build(initial(), 3, 1, func(h *hist, i int) op {
		p := "/" + vf.Str("p", vf.Choose("len", n), "a~01/")
		vf.Assume(!badTilde(p))
		o := op{Op: "add", Path: p, Value: true, Timestamp: stamped(i)}
		vf.Assume(h.do(o))
		return o
	})
	checkTrack(l, h, 1, 3)
}

func badTilde(p string) bool {
	for i := 0; i < len(p); i++ {
		if p[i] == '~' && (i+1 == len(p) || p[i+1] != '0' && p[i+1] != '1') {
			return true
		}
	}
	return false
}

// tracking twice, and after a snapshot, gives the same
func C17_twice() {
	l, h := build(initial(), 2, 2, func(h *hist, i int) op {
		return h.op("op", []string{"/a", "/ab"}, vf.Bool("v"), stamped(i))
	})
	if vf.Choose("first", 2) == 1 {
		l.Track(1, 2)
	} else {
		l.Track(1, 1)
		l.Snapshot(2)
	}
	checkTrack(l, h, 1+vf.Choose("i", 2), 2)
	recorded(l, h, "track")
}

func checkTemporalTrack(l *logument.Logument, h *hist, a, b int64, distinct bool) {
	got := l.TemporalTrack(a, b)
	vf.SetOrder("ins")
	var all []op
	var there []bool
	n := 0
	removals := false
	for v := range h.ops {
		var in []op
		for _, o := range h.ops[v] {
			if o.Timestamp >= a && o.Timestamp <= b {
				in = append(in, o)
				removals = removals || !isPut(o)
			}
		}
		p, has := got[h.base+uint64(v)]
		if has {
			n++
		}
		if distinct {
			vf.Assert(sameOps(in, p), "temporal track: not exactly the operations of the range")
			continue
		}
		there = append(there, kept(in, p, "temporal track")...)
		all = append(all, in...)
	}
	vf.Assert(n == len(got), "temporal track: a version that was not recorded")
	if !distinct {
		checkKept(all, there, removals, "temporal track")
	}
	vf.Reach("tracked in time")
}

// every timestamp and range; all values differ
func C18_range() {
	k := 0
	l, h := build(initial(), vf.Param("C18 versions", 2, 3), 2, func(h *hist, i int) op {
		k++
		return h.op("op", []string{"/ab"}, float64(k), vf.Int64("ts"))
	})
	a, b := vf.Int64("tsi"), vf.Int64("tsj")
	vf.Assume(a <= b)
	checkTemporalTrack(l, h, a, b, true)
}

// every history, ranges between all timestamps
func C18_histories() {
	l, h := build(initial(), vf.Param("C18 history versions", 2, 3), 2, func(h *hist, i int) op {
		return h.op("op", []string{"/a", "/b/c"}, vf.Bool("v"), stamped(i))
	})
	ts := []int64{-5, 10, 15, 20, 40, 50, 70}
	i := vf.Choose("i", len(ts))
	a, b := ts[i], ts[i+vf.Choose("j", len(ts)-i)]
	checkTemporalTrack(l, h, a, b, false)
}

// removals, containers and moving elements
func C18_removals() {
	l, h := build(initial(), 2, 2, func(h *hist, i int) op {
		return h.op("op", []string{"/b/c", "/b", "/r/0"}, vf.Bool("v"), int64(10*i+10))
	})
	ts := []int64{10, 20}
	checkTemporalTrack(l, h, ts[vf.Choose("i", 2)], 100, false)
	recorded(l, h, "temporal track")
}
