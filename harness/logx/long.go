package logx

import (
	"github.com/CAU-CPSS/logument/internal/logument"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
	vf "github.com/CAU-CPSS/logument/internal/zzvf"
)

// Logs of many versions, some of them with many operations: paths and most values are fixed, a few values are symbolic.

// long makes a log of n versions; removals says whether members come and go.
func long(n int, removals bool, stamp func(i int) int64) (*logument.Logument, *hist) {
	vf.SetOrder("ins")
	init := initial()
	h := start(init)
	l := logument.NewLogument(init, nil)
	at := 3 * vf.Choose("symbolic at", n/2)
	i := 0
	for v := 1; v <= n; v++ {
		per := 1 + v%2
		if v == 3 || v == 10 {
			per = 5
		}
		var ops []op
		for k := 0; k < per; k++ {
			p := []string{"/a", "/b/c", "/a", "/ab", "/a", "/r/1"}[i%6]
			if v == 10 {
				p = "/b/c"
			}
			if removals && i%4 == 3 {
				p = "/n"
			}
			var val any = i%5 < 3
			if i >= at && i < at+3 {
				val = vf.Bool("v")
			}
			o := op{Op: tsonpatch.OpAdd, Path: p, Value: val, Timestamp: stamp(i)}
			if removals && i%8 == 7 {
				o = op{Op: tsonpatch.OpRemove, Path: p, Timestamp: o.Timestamp}
			}
			if p != "/n" {
				o.Op = tsonpatch.OpReplace
			}
			vf.Assume(h.do(o))
			ops = append(ops, o)
			i++
		}
		l.Store(patch(ops))
		vf.Assert(l.Append() == nil, "appending gives an error")
		h.version(append([]op{}, ops...))
	}
	vf.SetOrder("rev")
	return l, h
}

func rising(i int) int64 { return int64(10*i + 10) }

// mixed is no two alike and not in the order of recording.
func mixed(i int) int64 { return int64((i*7)%97*10 + 5) }

func longSize() int { return vf.Param("versions of a long log", 12, 24) }

func C15_long() {
	l, h := long(longSize(), vf.Choose("removals", 2) == 1, rising)
	n := len(h.states)
	h.isSnapshot(l, vf.Choose("version", n))
	for i := n - 1; i >= 0; i -= 4 {
		h.isSnapshot(l, i)
	}
	for i := range h.states {
		h.isSnapshot(l, i)
	}
	recorded(l, h, "snapshot")
	vf.Reach("long")
}

func C17_long() {
	l, h := long(longSize(), vf.Choose("removals", 2) == 1, mixed)
	i, j := rangeOf(len(h.states))
	checkTrack(l, h, i, j)
	recorded(l, h, "track")
}

func C18_long() {
	l, h := long(longSize(), vf.Choose("removals", 2) == 1, mixed)
	a := []int64{-1 << 63, 0, 45, 95}[vf.Choose("from", 4)]
	b := []int64{95, 185, 355, 1<<63 - 1}[vf.Choose("to", 4)]
	checkTemporalTrack(l, h, a, b, false)
}

func C19_long() {
	l, h := long(longSize(), vf.Choose("removals", 2) == 1, mixed)
	if vf.Choose("cached", 2) == 1 {
		l.Snapshot(7)
	}
	checkCompact(l, h, vf.Pick("target", "", "/a", "/b", "/b/c", "/n", "/ab"))
}

func C20_long() {
	l, h := long(longSize(), vf.Choose("removals", 2) == 1, mixed)
	if vf.Choose("sliced", 2) == 1 {
		s := l.Slice(4, 11)
		h.ops = append([][]op{nil}, h.ops[4:12]...)
		checkHistory(s, h, vf.Pick("target", "", "/a", "/b", "/n"), true)
		return
	}
	checkHistory(l, h, vf.Pick("target", "", "/a", "/b", "/b/c", "/n", "/ab"), false)
}

func C21_long() {
	l, h := long(longSize(), vf.Choose("removals", 2) == 1, rising)
	if vf.Choose("cached", 2) == 1 {
		l.Snapshot(9)
		l.Snapshot(2)
	}
	n := len(h.states)
	i := vf.Choose("i", n)
	j := []int{i, i + 1, i + 7, n - 1}[vf.Choose("j", 4)]
	vf.Assume(j < n && (j == n-1 || j < i+8))
	checkSlice(l, h, i, j)
}

func C22_long() {
	l, h := long(longSize(), false, mixed)
	if vf.Choose("cached", 2) == 1 {
		l.Snapshot(9)
		l.TemporalSnapshot(100)
	}
	t := []int64{-1 << 63, 4, 5, 95, 96, 185, 300, 1<<63 - 1}[vf.Choose("t", 8)]
	want, ok := inTime(h.init, h.flat, func(ts int64) bool { return ts <= t })
	vf.Assume(ok)
	checkTemporal(l, h, t, want)
}

func C23_long() {
	l, h := long(longSize(), false, mixed)
	if vf.Choose("cached", 2) == 1 {
		l.Snapshot(9)
	}
	a := []int64{-1 << 63, 0, 45, 95}[vf.Choose("from", 4)]
	b := []int64{95, 185, 355, 1<<63 - 1}[vf.Choose("to", 4)]
	before, ok := inTime(h.init, h.flat, func(ts int64) bool { return ts < a })
	vf.Assume(ok)
	checkTemporalSlice(l, h, a, b, before)
}

func anyValue(name string) any {
	switch vf.Choose(name+".kind", 4) {
	case 0:
		return vf.Float64(name + ".f")
	case 1:
		return vf.Str(name+".s", vf.Choose(name+".len", 2), "")
	case 2:
		return vf.Bool(name + ".b")
	}
	return vf.Pick(name+".text", "1", "true", "x", "")
}

// values of every type
func C18_values() {
	l, h := build(initial(), 3, 1, func(h *hist, i int) op {
		o := op{Op: "replace", Path: "/a", Value: anyValue("v"), Timestamp: stamped(i)}
		h.do(o)
		return o
	})
	checkTemporalTrack(l, h, 0, 100, false)
}

func C20_values() {
	l, h := build(initial(), 3, 1, func(h *hist, i int) op {
		o := op{Op: "replace", Path: "/a", Value: anyValue("v"), Timestamp: stamped(i)}
		h.do(o)
		return o
	})
	checkHistory(l, h, vf.Pick("target", "", "/a"), false)
}

func C21_values() {
	l, h := build(initial(), 2, 1, func(h *hist, i int) op {
		o := op{Op: "replace", Path: "/a", Value: anyValue("v"), Timestamp: stamped(i)}
		h.do(o)
		return o
	})
	i, j := rangeOf(len(h.states))
	checkSlice(l, h, i, j)
}

func C22_values() {
	l, h := build(initial(), 2, 1, func(h *hist, i int) op {
		o := op{Op: "replace", Path: vf.Pick("path", "/a", "/b/c"), Value: anyValue("v"), Timestamp: stamped(i)}
		h.do(o)
		return o
	})
	t := []int64{0, 10, 50}[vf.Choose("t", 3)]
	want, ok := inTime(h.init, h.flat, func(ts int64) bool { return ts <= t })
	vf.Assume(ok)
	checkTemporal(l, h, t, want)
}

func C23_values() {
	l, h := build(initial(), 2, 1, func(h *hist, i int) op {
		o := op{Op: "replace", Path: vf.Pick("path", "/a", "/b/c"), Value: anyValue("v"), Timestamp: stamped(i)}
		h.do(o)
		return o
	})
	a := []int64{0, 10, 20}[vf.Choose("from", 3)]
	b := []int64{20, 50}[vf.Choose("to", 2)]
	before, ok := inTime(h.init, h.flat, func(ts int64) bool { return ts < a })
	vf.Assume(ok)
	checkTemporalSlice(l, h, a, b, before)
}
