package logx

import (
	"github.com/CAU-CPSS/logument/internal/logument"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
	vf "github.com/CAU-CPSS/logument/internal/zzvf"
)

// Logs of hundreds of versions, and a version of hundreds of operations: one operation, at one of a few places, has a
// symbolic value; everything else is fixed.

const hugeVersions = 270

// huge makes the log; version 5 has 300 operations when wide.
func huge(n int, wide bool, at int, stamp func(i int) int64) (*logument.Logument, *hist) {
	vf.SetOrder("ins")
	init := initial()
	h := start(init)
	l := logument.NewLogument(init, nil)
	i := 0
	for v := 1; v <= n; v++ {
		per := 1
		if wide && v == 5 {
			per = 300
		}
		var ops []op
		for k := 0; k < per; k++ {
			p := []string{"/a", "/b/c", "/r/1"}[i%3]
			var val any = i%5 < 3
			if i == at {
				val = vf.Bool("v")
			}
			o := op{Op: tsonpatch.OpReplace, Path: p, Value: val, Timestamp: stamp(i)}
			vf.Assume(h.do(o))
			ops = append(ops, o)
			i++
		}
		l.Store(patch(ops))
		vf.Assert(l.Append() == nil, "appending gives an error")
		h.version(append([]op{}, ops...))
	}
	vf.SetOrder("rev")
	return l, h
}

func hugeLog(stamp func(i int) int64) (*logument.Logument, *hist) {
	at := []int{2, 150, 265}[vf.Choose("symbolic at", 3)]
	if vf.Choose("wide", 2) == 1 {
		return huge(8, true, at, stamp)
	}
	return huge(hugeVersions, false, at, stamp)
}

// mixedHuge is no two alike and not in the order of recording.
func mixedHuge(i int) int64 { return int64((i*7)%997*10 + 5) }

func C14_huge() {
	l, h := hugeLog(mixedHuge)
	recorded(l, h, "appending")
	vf.Reach("huge")
}

func C15_huge() {
	l, h := hugeLog(rising)
	n := len(h.states)
	h.isSnapshot(l, n-1)
	h.isSnapshot(l, n/2)
	h.isSnapshot(l, n-2)
	h.isSnapshot(l, 3)
	recorded(l, h, "snapshot")
}

func C17_huge() {
	l, h := hugeLog(mixedHuge)
	n := len(h.states)
	i := []int{0, 1, n - 3}[vf.Choose("i", 3)]
	checkTrack(l, h, i, n-1)
}

func C18_huge() {
	l, h := hugeLog(mixedHuge)
	checkTemporalTrack(l, h, []int64{-1 << 63, 1500}[vf.Choose("from", 2)], []int64{2905, 1<<63 - 1}[vf.Choose("to", 2)], false)
}

func C19_huge() {
	l, h := hugeLog(mixedHuge)
	checkCompact(l, h, vf.Pick("target", "", "/a"))
}

func C20_huge() {
	l, h := hugeLog(mixedHuge)
	checkHistory(l, h, vf.Pick("target", "", "/b/c"), false)
}

func C21_huge() {
	l, h := huge(hugeVersions, false, 150, rising)
	n := len(h.states)
	i := []int{1, n - 4}[vf.Choose("i", 2)]
	checkSlice(l, h, i, n-2)
}

func C22_huge() {
	l, h := hugeLog(mixedHuge)
	t := []int64{5, 1500, 1<<63 - 1}[vf.Choose("t", 3)]
	want, ok := inTime(h.init, h.flat, func(ts int64) bool { return ts <= t })
	vf.Assume(ok)
	checkTemporal(l, h, t, want)
}

func C23_huge() {
	l, h := hugeLog(mixedHuge)
	a := []int64{-1 << 63, 1500}[vf.Choose("from", 2)]
	before, ok := inTime(h.init, h.flat, func(ts int64) bool { return ts < a })
	vf.Assume(ok)
	checkTemporalSlice(l, h, a, 1<<63-1, before)
}
