package logx

import (
	"github.com/CAU-CPSS/logument/internal/logument"
	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
	"github.com/CAU-CPSS/logument/internal/zzgen"
	vf "github.com/CAU-CPSS/logument/internal/zzvf"
)

// C19: compaction.

func checkCompact(l *logument.Logument, h *hist, target string) {
	l.Compact(target)
	vf.SetOrder("ins")
	vf.Assert(len(l.Version) == len(h.states), "compact: the versions changed")
	d := h.init
	var all, flat []op
	var there []bool
	var at []tson.Value
	removals := false
	for v := range h.ops {
		there = append(there, kept(h.ops[v], l.Patches[h.base+uint64(v)], "compact")...)
		for _, o := range h.ops[v] {
			at = append(at, d)
			parts, _ := zzgen.Segments(o.Path)
			if isPut(o) {
				d, _, _ = zzgen.Put(d, parts, zzgen.MakeLeaf(o.Value, o.Timestamp))
			} else {
				d, _ = zzgen.Cut(d, parts)
				removals = true
			}
			all = append(all, o)
		}
	}
	for i, o := range all {
		if there[i] {
			if !removals && below(o.Path, target) {
				vf.Assert(vf.Not(repeats(all, i)), "compact: a repeated value is not dropped")
			}
			flat = append(flat, o)
			continue
		}
		vf.Assert(below(o.Path, target), "compact: an operation elsewhere was dropped")
		vf.Assert(isPut(o), "compact: a removal was dropped")
		old, has := zzgen.Lookup(at[i], o.Path)
		vf.Assert(has && zzgen.Same(zzgen.MakeLeaf(o.Value, 0), old, false), "compact: a change was dropped")
	}
	for v := range h.states {
		vf.Assert(zzgen.Same(h.states[v], l.Snapshot(h.base+uint64(v)), false), "compact: a version looks different")
	}
	l.Compact(target)
	n := 0
	for v := range h.ops {
		for _, o := range l.Patches[h.base+uint64(v)] {
			vf.Assert(n < len(flat) && sameOp(flat[n], o), "compacting twice is not the same as compacting once")
			n++
		}
	}
	vf.Assert(n == len(flat), "compacting twice is not the same as compacting once")
	vf.Reach("compacted")
}

func C19_histories() {
	l, h := build(initial(), vf.Param("C19 versions", 3, 4), 1, func(h *hist, i int) op {
		return h.op("op", []string{"/a", "/ab", "/b/c"}, vf.Bool("v"), stamped(i))
	})
	if vf.Choose("cached", 2) == 1 {
		l.Snapshot(2)
	}
	checkCompact(l, h, vf.Pick("target", "", "/a", "/b", "/b/c"))
}

func C19_removals() {
	l, h := build(initial(), 2, vf.Param("C19 operations per version", 2, 2), func(h *hist, i int) op {
		return h.op("op", []string{"/b/c", "/b", "/r/0", "/r/1"}, vf.Bool("v"), stamped(i))
	})
	checkCompact(l, h, vf.Pick("target", "", "/b/c", "/r", "/r/1"))
}

func C19_values() {
	l, h := build(initial(), 3, 1, func(h *hist, i int) op {
		var v any
		switch vf.Choose("kind", 3) {
		case 0:
			v = vf.Float64("f")
		case 1:
			v = vf.Str("s", vf.Choose("len", 2), "")
		case 2:
			v = vf.Bool("b")
		}
		o := op{Op: "replace", Path: "/a", Value: v, Timestamp: stamped(i)}
		h.do(o)
		return o
	})
	checkCompact(l, h, vf.Pick("target", "", "/a"))
}

// symbolic member names and target
func C19_paths() {
	n := vf.Param("C19 path length", 3, 4)
	l, h := build(initial(), 2, 1, func(h *hist, i int) op {
		p := "/" + vf.Str("p", vf.Choose("len", n), "a~01/")
		vf.Assume(!badTilde(p))
		o := op{Op: "add", Path: p, Value: true, Timestamp: stamped(i)}
		vf.Assume(h.do(o))
		return o
	})
	t := vf.Str("t", vf.Choose("tlen", n), "a~01/")
	vf.Assume((len(t) == 0 || t[0] == '/') && !badTilde(t))
	checkCompact(l, h, t)
}

// C20: histories.

func checkHistory(l *logument.Logument, h *hist, target string, sliced bool) {
	got := l.History(target)
	vf.SetOrder("ins")
	places := []string{}
	byPlace := map[string][]op{}
	removals := false
	for _, ops := range h.ops {
		for _, o := range ops {
			removals = removals || !isPut(o)
			if !below(o.Path, target) {
				continue
			}
			if byPlace[o.Path] == nil {
				places = append(places, o.Path)
			}
			byPlace[o.Path] = append(byPlace[o.Path], o)
		}
	}
	vf.Assert(len(got) == len(places), "history: not exactly the places with changes")
	for _, p := range places {
		list, has := got[p]
		vf.Assert(has, "history: a place is missing")
		first, there := zzgen.Lookup(h.init, p)
		if there && !sliced || sliced && len(list) > 0 && list[0].Timestamp == 0 {
			vf.Assert(len(list) > 0 && list[0].Path == p && list[0].Op == tsonpatch.OpAdd, "history: the initial value is missing")
			v, is := list[0].Value.(tson.Value)
			if !is {
				vf.Assert(!sliced && zzgen.SameAny(list[0].Value, zzgen.Plain(first)), "history: the initial value is another")
			} else if !sliced {
				vf.Assert(zzgen.Same(v, first, false), "history: the initial value is another")
			}
			list = list[1:]
		}
		in := kept(byPlace[p], list, "history")
		for i := range in {
			if !in[i] {
				vf.Assert(repeats(byPlace[p], i), "history: a change is missing")
			}
		}
	}
	vf.Reach("history")
}

func C20_histories() {
	l, h := build(initial(), vf.Param("C20 versions", 3, 4), 1, func(h *hist, i int) op {
		return h.op("op", []string{"/a", "/ab", "/b/c", "/n"}, vf.Bool("v"), stamped(i))
	})
	if vf.Choose("cached", 2) == 1 {
		l.Snapshot(2)
	}
	checkHistory(l, h, vf.Pick("target", "", "/a", "/b", "/n", "/none"), false)
	recorded(l, h, "history")
}

func C20_operations() {
	l, h := build(initial(), 2, vf.Param("C20 operations per version", 2, 2), func(h *hist, i int) op {
		return h.op("op", []string{"/b/c", "/b", "/r/0", "/r/2"}, vf.Bool("v"), stamped(i))
	})
	checkHistory(l, h, vf.Pick("target", "", "/b/c", "/b", "/r"), false)
}

// sliced logs
func C20_slices() {
	l, h := build(initial(), 3, 1, func(h *hist, i int) op {
		return h.op("op", []string{"/a", "/b/c", "/n"}, vf.Bool("v"), stamped(i))
	})
	i, j := rangeOf(len(h.states))
	target := vf.Pick("target", "", "/a", "/b")
	if vf.Choose("how", 2) == 0 {
		s := l.Slice(uint64(i), uint64(j))
		s.History(target)
		h.ops = append([][]op{nil}, h.ops[i:j+1]...)
		checkHistory(s, h, target, true)
		return
	}
	ts := []int64{10, 40, 50}
	k := vf.Choose("from", 3)
	a, b := ts[k], ts[k+vf.Choose("to", 3-k)]
	s := l.TemporalSlice(a, b)
	for v := range h.ops {
		var in []op
		for _, o := range h.ops[v] {
			if o.Timestamp >= a && o.Timestamp <= b {
				in = append(in, o)
			}
		}
		h.ops[v] = in
	}
	checkHistory(s, h, target, true)
}

// symbolic member names and target
func C20_paths() {
	n := vf.Param("C20 path length", 3, 4)
	l, h := build(initial(), 2, 1, func(h *hist, i int) op {
		p := "/" + vf.Str("p", vf.Choose("len", n), "a~01/")
		vf.Assume(!badTilde(p))
		o := op{Op: "add", Path: p, Value: float64(i), Timestamp: stamped(i)}
		vf.Assume(h.do(o))
		return o
	})
	t := vf.Str("t", vf.Choose("tlen", n), "a~01/")
	vf.Assume((len(t) == 0 || t[0] == '/') && !badTilde(t))
	checkHistory(l, h, t, false)
}

// based makes a log whose first version is any number (as slices have).
func based(n int, mk func(h *hist, i int) op) (*logument.Logument, *hist) {
	base := []uint64{0, 7, 8, 97, 254, 1<<31 - 3, 1<<32 - 3, 1<<63 - 3, 1<<64 - 9}[vf.Choose("base", 9)]
	order()
	h := start(initial())
	h.base = base
	l := &logument.Logument{Version: []uint64{base}, CurrentState: zzgen.Clone(h.init), Snapshots: map[uint64]tson.Value{base: zzgen.Clone(h.init)}, Patches: map[uint64]patch{}}
	for v := 1; v <= n; v++ {
		o := mk(h, v-1)
		l.Version = append(l.Version, base+uint64(v))
		l.Patches[base+uint64(v)] = patch{o}
		h.version([]op{o})
	}
	return l, h
}

func onA(h *hist, i int) op {
	o := op{Op: "replace", Path: "/a", Value: vf.Bool("v"), Timestamp: stamped(i)}
	h.do(o)
	return o
}

func C19_base() {
	l, h := based(3, onA)
	checkCompact(l, h, "/a")
}

func C20_base() {
	l, h := based(3, onA)
	checkHistory(l, h, "/a", false)
}

func C17_base() {
	l, h := based(3, onA)
	checkTrack(l, h, 1, 3)
}

func C22_base() {
	l, h := based(3, func(h *hist, i int) op {
		o := op{Op: "replace", Path: "/a", Value: vf.Bool("v"), Timestamp: 5}
		h.do(o)
		return o
	})
	checkTemporal(l, h, 5, h.cur)
}
