package logx

import (
	"github.com/CAU-CPSS/logument/internal/logument"
	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
	"github.com/CAU-CPSS/logument/internal/zzgen"
	vf "github.com/CAU-CPSS/logument/internal/zzvf"
)

// C21: slices by version; C23: slices by time.

// part is the reference of a slice.
func (h *hist) part(i, j int) *hist {
	r := &hist{base: h.base + uint64(i), init: h.states[i], cur: h.states[j]}
	r.states = append([]tson.Value{}, h.states[i:j+1]...)
	r.ops = append([][]op{}, h.ops[i:j+1]...)
	return r
}

// grows checks that a log accepts further changes.
func grows(l *logument.Logument, h *hist, what string) {
	o := op{Op: "add", Path: vf.Pick("later", "/n", "/m"), Value: vf.Bool("later.v"), Timestamp: vf.Int64("later.ts")}
	_, has := zzgen.Lookup(h.cur, o.Path)
	if has {
		o.Op = "replace"
	}
	vf.Assume(h.do(o))
	if vf.Choose("later.how", 2) == 0 {
		l.Store(o)
	} else {
		l.Set(0, o)
		v, err := tson.GetValue(l.CurrentState, o.Path)
		vf.Assert(err == nil && zzgen.Same(v, zzgen.MakeLeaf(o.Value, o.Timestamp), true), what+": setting has no effect")
	}
	vf.Assert(l.Append() == nil, what+": appending gives an error")
	h.version([]op{o})
	recorded(l, h, what)
	h.isSnapshot(l, len(h.states)-1)
	vf.Assert(zzgen.Same(h.cur, l.CurrentState, true), what+": the current state is not that of the latest version")
}

func checkSlice(l *logument.Logument, h *hist, i, j int) {
	s := l.Slice(h.base+uint64(i), h.base+uint64(j))
	r := h.part(i, j)
	vf.Assert(len(s.PatchPool) == 0, "slice: something is queued")
	vf.Assert(zzgen.Same(r.cur, s.CurrentState, true), "slice: the current state is not that of its last version")
	recorded(s, r, "slice")
	for k := j - i; k >= 0; k-- {
		r.isSnapshot(s, k)
	}
	recorded(l, h, "slice")
	grows(s, r, "slice")
	recorded(l, h, "changing a slice")
	vf.Reach("sliced")
}

func C21_slices() {
	l, h := build(initial(), vf.Param("C21 versions", 3, 4), 1, func(h *hist, i int) op {
		return h.op("op", []string{"/a", "/b/c"}, vf.Bool("v"), vf.Int64("ts"))
	})
	for k := range h.states {
		if k > 0 && vf.Choose("cached", 2) == 1 {
			l.Snapshot(uint64(k))
		}
	}
	i, j := rangeOf(len(h.states))
	checkSlice(l, h, i, j)
}

// several operations per version, and a queue
func C21_operations() {
	l, h := build(initial(), 2, vf.Param("C21 operations per version", 2, 3), genOp([]string{"/n", "/b"}))
	if vf.Choose("queued", 2) == 1 {
		l.Store(op{Op: "add", Path: "/q", Value: true, Timestamp: 1})
	}
	i, j := rangeOf(len(h.states))
	checkSlice(l, h, i, j)
}

// slices of slices
func C21_nested() {
	l, h := build(initial(), 4, 1, func(h *hist, i int) op {
		o := op{Op: "replace", Path: vf.Pick("path", "/a", "/b/c"), Value: vf.Bool("v"), Timestamp: vf.Int64("ts")}
		vf.Assume(h.do(o))
		return o
	})
	i, j := rangeOf(len(h.states))
	s := l.Slice(uint64(i), uint64(j))
	r := h.part(i, j)
	a, b := rangeOf(j - i + 1)
	checkSlice(s, r, a, b)
	recorded(l, h, "slice of a slice")
}

// logs whose first version is any number
func C21_base() {
	base := []uint64{1, 9, 255, 1<<32 - 2, 1<<63 - 2, 1<<64 - 9}[vf.Choose("base", 6)]
	order()
	h := start(initial())
	h.base = base
	l := &logument.Logument{Version: []uint64{base}, CurrentState: zzgen.Clone(h.init), Snapshots: map[uint64]tson.Value{base: zzgen.Clone(h.init)}, Patches: map[uint64]patch{}}
	for v := uint64(1); v <= 2; v++ {
		o := h.op("op", []string{"/a", "/n"}, vf.Bool("v"), vf.Int64("ts"))
		l.Version = append(l.Version, base+v)
		l.Patches[base+v] = patch{o}
		h.version([]op{o})
	}
	i, j := rangeOf(len(h.states))
	checkSlice(l, h, i, j)
}

func checkTemporalSlice(l *logument.Logument, h *hist, a, b int64, before tson.Value) {
	pool := append([]op{}, l.PatchPool...)
	s := l.TemporalSlice(a, b)
	vf.SetOrder("ins")
	n := 0
	first, last := -1, -1
	for v := range h.ops {
		var in []op
		for _, o := range h.ops[v] {
			if o.Timestamp >= a && o.Timestamp <= b {
				in = append(in, o)
			}
		}
		vf.Assert(sameOps(in, s.Patches[uint64(v)]), "temporal slice: not exactly the operations of the range")
		if in != nil {
			n++
			last = v
			if first < 0 {
				first = v
			}
		}
	}
	m := 0
	for _, p := range s.Patches {
		if len(p) > 0 {
			m++
		}
	}
	vf.Assert(n == m, "temporal slice: patches of unknown versions")
	vf.Assert(len(s.Version) > 0, "temporal slice: no version")
	has := first < 0
	for i, v := range s.Version {
		vf.Assert(v == s.Version[0]+uint64(i), "temporal slice: the versions are not consecutive")
		has = has || v == uint64(last)
	}
	vf.Assert(first < 0 || s.Version[0] <= uint64(first), "temporal slice: the first version is missing")
	vf.Assert(has, "temporal slice: the last version is missing")
	d, there := s.Snapshots[s.Version[0]]
	vf.Assert(there, "temporal slice: no starting snapshot")
	vf.Assert(zzgen.Same(before, d, true), "temporal slice: the starting snapshot is not the state before the range")
	vf.Assert(len(s.PatchPool) == 0, "temporal slice: something is queued")
	recorded(l, h, "temporal slice")
	vf.Assert(sameOps(pool, l.PatchPool), "temporal slice: the queue changed")
	if first < 0 {
		vf.Reach("empty range")
	}
	vf.Reach("sliced in time")
}

// inTime is the reference state at an instant: the operations up to it in the order of time, those of one time as recorded.
func inTime(init tson.Value, flat []op, in func(ts int64) bool) (tson.Value, bool) {
	var sorted []op
	for _, o := range flat {
		if !in(o.Timestamp) {
			continue
		}
		k := len(sorted)
		sorted = append(sorted, o)
		for k > 0 && sorted[k-1].Timestamp > o.Timestamp {
			sorted[k] = sorted[k-1]
			k--
			sorted[k] = o
		}
	}
	h := start(init)
	for _, o := range sorted {
		if !h.do(o) {
			return nil, false
		}
	}
	return h.cur, true
}

// every timestamp and range
func C23_range() {
	k := 0
	l, h := build(initial(), vf.Param("C23 versions", 2, 3), vf.Param("C23 operations per version", 2, 1), func(h *hist, i int) op {
		k++
		o := op{Op: "replace", Path: vf.Pick("path", "/ab", "/b/c"), Value: float64(k), Timestamp: vf.Int64("ts")}
		vf.Assume(h.do(o))
		return o
	})
	a, b := vf.Int64("tsi"), vf.Int64("tsj")
	vf.Assume(a <= b)
	mode := vf.Pick("", "ins")
	vf.SetOrder(mode)
	before, ok := inTime(h.init, h.flat, func(ts int64) bool { return ts < a })
	vf.Assume(ok)
	checkTemporalSlice(l, h, a, b, before)
}

// every history, ranges between all timestamps, with snapshots taken and a queue
func C23_histories() {
	l, h := build(initial(), 3, 1, func(h *hist, i int) op {
		return h.op("op", []string{"/a", "/n"}, vf.Bool("v"), []int64{10, 20, 15, 20}[i])
	})
	if vf.Choose("cached", 2) == 1 {
		l.Snapshot(2)
	}
	if vf.Choose("queued", 2) == 1 {
		l.Store(op{Op: "add", Path: "/q", Value: true, Timestamp: 17})
	}
	ts := []int64{-1 << 63, 10, 15, 16, 20, 1<<63 - 1}
	i := vf.Choose("i", len(ts))
	a, b := ts[i], ts[i+vf.Choose("j", len(ts)-i)]
	before, ok := inTime(h.init, h.flat, func(ts int64) bool { return ts < a })
	vf.Assume(ok)
	checkTemporalSlice(l, h, a, b, before)
}

// C22: snapshots by time.

func checkTemporal(l *logument.Logument, h *hist, t int64, want tson.Value) {
	got := l.TemporalSnapshot(t)
	vf.SetOrder("ins")
	vf.Assert(zzgen.Same(want, got, true), "a temporal snapshot is not the state at that time")
	vf.Reach("snapshot in time")
}

// every timestamp and instant
func C22_times() {
	l, h := build(initial(), vf.Param("C22 versions", 2, 3), vf.Param("C22 operations per version", 2, 1), func(h *hist, i int) op {
		o := op{Op: "replace", Path: vf.Pick("path", "/ab", "/a"), Value: float64(i), Timestamp: vf.Int64("ts")}
		vf.Assume(h.do(o))
		return o
	})
	t := vf.Int64("tsk")
	want, ok := inTime(h.init, h.flat, func(ts int64) bool { return ts <= t })
	vf.Assume(ok)
	checkTemporal(l, h, t, want)
}

// every kind of operation; snapshots taken before; operations in the queue
func C22_histories() {
	init := initial()
	order()
	h := start(init)
	l := logument.NewLogument(init, nil)
	n := vf.Param("C22 operations", 3, 4)
	stamps := []int64{10, 20, 10, 15}
	for i := 0; i < n; i++ {
		o := h.op("op", []string{"/a", "/n", "/b/c", "/r/1"}, vf.Bool("v"), stamps[i])
		l.Store(o)
		switch vf.Choose("then", 4) {
		case 0:
			l.Append()
		case 1:
			l.Append()
			l.Snapshot(l.Version[len(l.Version)-1])
		case 2:
			_, ok := inTime(h.init, h.flat, func(ts int64) bool { return ts <= 12 })
			vf.Assume(ok)
			l.TemporalSnapshot(12)
		case 3: // left in the queue
		}
	}
	t := []int64{0, 10, 15, 20}[vf.Choose("t", 4)]
	want, ok := inTime(h.init, h.flat, func(ts int64) bool { return ts <= t })
	vf.Assume(ok)
	checkTemporal(l, h, t, want)
}

// more operations of one time than a sort by insertion handles
func C22_many() {
	init := initial()
	order()
	h := start(init)
	l := logument.NewLogument(init, nil)
	split := vf.Choose("split", 3)
	n := vf.Param("C22 many", 14, 30)
	late := vf.Choose("late", n)
	for i := 0; i < n; i++ {
		o := op{Op: "replace", Path: []string{"/a", "/ab", "/b/c"}[i%3], Value: vf.Bool("v"), Timestamp: 5}
		if i == late {
			o.Timestamp = vf.Int64("ts")
		}
		vf.Assume(h.do(o))
		l.Store(o)
		if split == 1 && i%5 == 0 || split == 2 && i == 7 {
			l.Append()
		}
	}
	t := vf.Int64("tsk")
	want, ok := inTime(h.init, h.flat, func(ts int64) bool { return ts <= t })
	vf.Assume(ok)
	checkTemporal(l, h, t, want)
}

// C24: set and test-and-set.

func stateOf(name string) tson.Value {
	switch vf.Choose(name, 3) {
	case 0:
		return tson.Leaf[bool]{Value: vf.Bool(name + ".b"), Timestamp: vf.Int64(name + ".ts")}
	case 1:
		return tson.Leaf[float64]{Value: vf.Float64(name + ".f"), Timestamp: vf.Int64(name + ".ts")}
	}
	return tson.Leaf[string]{Value: vf.Str(name+".s", vf.Choose(name+".len", 2), ""), Timestamp: vf.Int64(name + ".ts")}
}

func plainOf(name string) any { return zzgen.Plain(stateOf(name)) }

// one call on every leaf and value
func C24_values() {
	order()
	init := tson.Object{"a": stateOf("a"), "b": tson.Object{"c": tson.Leaf[bool]{Value: vf.Bool("c"), Timestamp: 4}}}
	h := start(init)
	l := logument.NewLogument(init, nil)
	o := op{Op: tsonpatch.OpType(vf.Pick("op", "add", "replace", "remove", "move", "copy", "test")), Path: vf.Pick("path", "/a", "/b/c", "/b", "/n", "/b/n"), Timestamp: vf.Int64("ts")}
	o.Value = plainOf("v")
	setOne(l, h, nil, o, vf.Choose("test", 2) == 1)
	vf.Reach("set")
}

// whole numbers given as such
func C24_ints() {
	order()
	x := vf.Float64("x")
	init := tson.Object{"a": tson.Leaf[float64]{Value: x, Timestamp: vf.Int64("ts0")}, "b": tson.Leaf[bool]{Value: true, Timestamp: 4}}
	h := start(init)
	l := logument.NewLogument(init, nil)
	v := []int{0, 2, -3, 1 << 40}[vf.Choose("v", 4)]
	o := op{Op: tsonpatch.OpType(vf.Pick("op", "add", "replace")), Path: vf.Pick("path", "/a", "/b", "/n"), Value: v, Timestamp: vf.Int64("ts")}
	if o.Path != "/a" {
		o.Value = vf.Int("any", -1<<50, 1<<50)
	}
	setOne(l, h, nil, o, vf.Choose("test", 2) == 1)
	vf.Reach("ints")
}

// setOne makes one call and compares the state and the queue; it returns the queue.
func setOne(l *logument.Logument, h *hist, queue []op, o op, test bool) []op {
	before := h.cur
	if test {
		l.TestSet(uint64(vf.Choose("vk", 2)), o)
	} else {
		l.Set(uint64(vf.Choose("vk", 2)), o)
	}
	vf.SetOrder("ins")
	old, has := zzgen.Lookup(before, o.Path)
	put := o.Op == tsonpatch.OpAdd || o.Op == tsonpatch.OpReplace
	switch {
	case !put:
		vf.Assert(sameOps(queue, l.PatchPool), "an operation of another kind is queued")
	case test && has && zzgen.Same(zzgen.MakeLeaf(o.Value, 0), old, false):
		vf.Assert(sameOps(queue, l.PatchPool), "test-and-set queues an operation though the value is the same")
		vf.Reach("same")
	default:
		vf.Assert(h.do(o), "set: not applicable")
		if test && !has {
			o.Op = tsonpatch.OpAdd
		}
		vf.Assert(len(l.PatchPool) == len(queue)+1, "setting does not queue one operation")
		got := l.PatchPool[len(queue)]
		if test && got.Op != o.Op && has { // adding and replacing an existing value are the same
			got.Op = o.Op
		}
		vf.Assert(sameOp(o, got), "setting queues another operation")
		queue = append(queue, o)
		vf.Assert(sameOps(queue[:len(queue)-1], l.PatchPool[:len(queue)-1]), "setting changes the queue")
		vf.Reach("changed")
	}
	vf.Assert(zzgen.Same(h.cur, l.CurrentState, true), "the current state is not what was set")
	return queue
}

// sequences of calls, with storing and appending in between
func C24_sequences() {
	order()
	init := initial()
	h := start(init)
	l := logument.NewLogument(init, nil)
	mode := "ins"
	var queue []op
	for i, n := 0, vf.Param("C24 calls", 3, 4); i < n; i++ {
		vf.SetOrder(mode)
		o := op{Op: tsonpatch.OpType(vf.Pick("op", "add", "replace")), Path: vf.Pick("path", "/a", "/n"), Value: vf.Bool("v"), Timestamp: vf.Int64("ts")}
		switch vf.Choose("call", 4) {
		case 0:
			queue = setOne(l, h, queue, o, false)
		case 1:
			queue = setOne(l, h, queue, o, true)
		case 2:
			vf.Assert(l.Append() == nil, "appending gives an error")
			if queue != nil {
				h.version(queue)
				queue = nil
			}
		case 3: // a version recorded without setting
			if queue != nil {
				continue
			}
			vf.Assume(h.do(o))
			l.Store(o)
			vf.Assert(l.Append() == nil, "appending gives an error")
			h.version([]op{o})
		}
		vf.Assert(zzgen.Same(h.cur, l.CurrentState, true), "the current state is not what was set")
	}
	vf.SetOrder("ins")
	recorded(l, h, "setting")
	vf.Reach("sequence")
}

// symbolic member names
func C24_paths() {
	n := vf.Param("C24 path length", 3, 4)
	order()
	k := vf.Str("k", vf.Choose("klen", n), "a~/1")
	init := tson.Object{k: tson.Leaf[bool]{Value: true, Timestamp: 1}, "z": tson.Leaf[bool]{Value: true, Timestamp: 1}}
	h := start(init)
	l := logument.NewLogument(init, nil)
	p := "/" + vf.Str("p", vf.Choose("len", n), "a~01/z")
	vf.Assume(!badTilde(p))
	parts, _ := zzgen.Segments(p)
	_, ok, _ := zzgen.Put(h.cur, parts, zzgen.MakeLeaf(true, 0))
	vf.Assume(ok)
	o := op{Op: "replace", Path: p, Value: vf.Bool("v"), Timestamp: vf.Int64("ts")}
	setOne(l, h, nil, o, vf.Choose("test", 2) == 1)
	vf.Reach("paths")
}

// setting while stored operations wait: appending integrates the queue in its order
func C24_waiting() {
	order()
	init := initial()
	h := start(init)
	l := logument.NewLogument(init, nil)
	set := start(init) // the current state, which does not have what is only stored
	var queue []op
	stored := false
	for i, n := 0, vf.Param("C24 waiting", 3, 4); i < n; i++ {
		if vf.Choose("store", 2) == 1 {
			o := op{Op: tsonpatch.OpReplace, Path: vf.Pick("stored", "/a", "/r/0"), Value: vf.Bool("v"), Timestamp: vf.Int64("ts")}
			if vf.Choose("remove", 2) == 1 {
				o = op{Op: tsonpatch.OpRemove, Path: o.Path, Timestamp: o.Timestamp}
			}
			vf.Assume(h.do(o))
			l.Store(o)
			queue = append(queue, o)
			stored = true
		} else {
			o := op{Op: tsonpatch.OpAdd, Path: vf.Pick("set", "/a", "/r/0", "/r/1", "/r/2"), Value: vf.Bool("v"), Timestamp: vf.Int64("ts")}
			vf.Assume(h.do(o) && set.do(o))
			l.Set(0, o)
			queue = append(queue, o)
		}
	}
	vf.Assume(stored)
	vf.SetOrder("ins")
	vf.Assert(sameOps(queue, l.PatchPool), "the queue does not hold what was stored and set")
	vf.Assert(zzgen.Same(set.cur, l.CurrentState, true), "the current state is not what was set")
	order()
	vf.Assert(l.Append() == nil, "appending gives an error")
	vf.SetOrder("ins")
	vf.Assert(zzgen.Same(h.cur, l.CurrentState, true), "appending does not make the queued operations part of the current state")
	h.version(queue)
	h.isSnapshot(l, 1)
	vf.Reach("waiting")
}

// slices in time of recording: a later instant of a slice is that of the log
func sliced(what func(s *logument.Logument, h *hist, first, last int, ends []int)) {
	var ends []int // the number of operations up to a version
	l, h := build(initial(), 3, vf.Param("operations per version of a slice", 1, 2), func(h *hist, i int) op {
		return h.op("op", []string{"/a", "/n", "/r/0"}, vf.Bool("v"), rising(i))
	})
	n := 0
	for _, ops := range h.ops {
		n += len(ops)
		ends = append(ends, n)
	}
	i := vf.Choose("i", 4)
	j := i + vf.Choose("j", 4-i)
	if vf.Choose("cached", 2) == 1 {
		l.Snapshot(uint64(i))
	}
	what(l.Slice(uint64(i), uint64(j)), h, i, j, ends)
}

func C22_slice() {
	sliced(func(s *logument.Logument, h *hist, i, j int, ends []int) {
		k := ends[i] + vf.Choose("k", ends[j]-ends[i]+1) // operations up to the instant
		want, ok := inTime(h.init, h.flat[:k], func(int64) bool { return true })
		vf.Assert(ok, "reference")
		t := int64(10*k + vf.Int("t", 0, 9))
		if k == ends[j] {
			t = int64(vf.Int("late", 10*k, 1<<40))
		}
		checkTemporal(s, h, t, want)
	})
}

func C23_slice() {
	sliced(func(s *logument.Logument, h *hist, i, j int, ends []int) {
		k := ends[i] + vf.Choose("k", ends[j]-ends[i]+1)
		before, ok := inTime(h.init, h.flat[:k], func(int64) bool { return true })
		vf.Assert(ok, "reference")
		got := s.TemporalSlice(int64(10*k+vf.Int("t", 1, 10)), 1<<40)
		vf.SetOrder("ins")
		vf.Assert(zzgen.Same(before, got.Snapshots[got.Version[0]], true), "a temporal slice does not start with the state before it")
		vf.Assert(zzgen.Same(h.states[j], got.CurrentState, true), "a temporal slice does not end with the state of its last change")
		var all []op
		for _, v := range got.Version {
			all = append(all, got.Patches[v]...)
		}
		vf.Assert(sameOps(h.flat[k:ends[j]], all), "a temporal slice does not hold the changes of the range")
		vf.Reach("slice of a slice")
	})
}
