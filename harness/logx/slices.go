package logx

import (
	"github.com/CAU-CPSS/logument/internal/logument"
	vf "github.com/CAU-CPSS/logument/internal/zzvf"
)

// Questions to a slice, answered for its range.

func aSlice(removals bool) (s, l *logument.Logument, r, h *hist) {
	l, h = build(initial(), vf.Param("versions of a sliced log", 3, 4), 1, func(h *hist, i int) op {
		menu := []string{"/a", "/b/c"}
		if removals {
			return h.op("op", menu, vf.Bool("v"), vf.Int64("ts"))
		}
		o := op{Op: "replace", Path: menu[vf.Choose("path", 2)], Value: vf.Bool("v"), Timestamp: vf.Int64("ts")}
		vf.Assume(h.do(o))
		return o
	})
	i, j := rangeOf(len(h.states))
	if vf.Choose("cached", 2) == 1 {
		l.Snapshot(uint64(j))
	}
	return l.Slice(uint64(i), uint64(j)), l, h.part(i, j), h
}

func C17_slice() {
	s, l, r, h := aSlice(true)
	i, j := rangeOf(len(r.states))
	checkTrack(s, r, i, j)
	recorded(l, h, "tracking a slice")
}

func C18_slice() {
	s, l, r, h := aSlice(true)
	from, to := vf.Int64("from"), vf.Int64("to")
	vf.Assume(from <= to)
	checkTemporalTrack(s, r, from, to, false)
	recorded(l, h, "tracking a slice in time")
}

func C19_slice() {
	s, l, r, h := aSlice(false)
	checkCompact(s, r, vf.Pick("target", "", "/a", "/b"))
	recorded(l, h, "compacting a slice")
}
