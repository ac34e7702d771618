package logx

import (
	"github.com/CAU-CPSS/logument/internal/logument"
	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
	"github.com/CAU-CPSS/logument/internal/zzgen"
	vf "github.com/CAU-CPSS/logument/internal/zzvf"
)

// C14: versions, queue and append.

func anyOp(name string) op {
	o := op{Op: tsonpatch.OpType(vf.Pick(name+".op", "replace", "add")), Path: vf.Pick(name+".path", "/a", "/n"), Timestamp: vf.Int64(name + ".ts")}
	if vf.Choose(name+".val", 2) == 0 {
		o.Value = vf.Bool(name + ".b")
	} else {
		o.Value = vf.Float64(name + ".f")
	}
	return o
}

// any sequence of storing, in every form, appending and setting
func C14_steps() {
	order()
	init := initial()
	h := start(init)
	l := logument.NewLogument(init, nil)
	var queue []op
	for i, n := 0, vf.Param("C14 steps", 4, 5); i < n; i++ {
		switch vf.Choose("step", 6) {
		case 0:
			o := op{Op: "replace", Path: "/a", Value: vf.Bool("v"), Timestamp: vf.Int64("ts")}
			l.Store(o)
			queue = append(queue, o)
		case 1:
			o := op{Op: "add", Path: "/n", Value: vf.Float64("v"), Timestamp: vf.Int64("ts")}
			p := op{Op: "remove", Path: "/b", Timestamp: vf.Int64("ts")}
			l.Store(patch{o, p})
			queue = append(queue, o, p)
		case 2:
			l.Store(`[{"op":"replace","path":"/b/c","value":true,"timestamp":5}]`)
			queue = append(queue, op{Op: "replace", Path: "/b/c", Value: true, Timestamp: 5})
		case 3, 4:
			vf.Assert(l.Append() == nil, "appending gives an error")
			if queue != nil {
				h.ops = append(h.ops, queue)
				h.states = append(h.states, nil)
				queue = nil
				vf.Reach("appended")
			}
		case 5:
			o := op{Op: "replace", Path: "/a", Value: vf.Bool("v"), Timestamp: vf.Int64("ts")}
			l.Set(0, o)
			queue = append(queue, o)
		}
		check(l, h, queue)
	}
}

func check(l *logument.Logument, h *hist, queue []op) {
	vf.Assert(len(l.Version) == len(h.ops), "the versions are not one per append")
	for i, v := range l.Version {
		vf.Assert(v == uint64(i), "the versions are not consecutive")
	}
	vf.Assert(len(l.Patches) == len(h.ops)-1, "the patches are not one per append")
	for i := 1; i < len(h.ops); i++ {
		vf.Assert(sameOps(h.ops[i], l.Patches[uint64(i)]), "a version does not hold exactly what was queued")
	}
	vf.Assert(sameOps(queue, l.PatchPool), "the queue is not exactly what was stored")
	vf.Assert(len(l.Snapshots) == 1 && zzgen.Same(h.init, l.Snapshots[0], true), "a snapshot changed")
}

// every form of patch, with every content
func C14_forms() {
	order()
	init := initial()
	h := start(init)
	n := vf.Choose("n", vf.Param("C14 operations", 3, 4)+1)
	var ops []op
	for i := 0; i < n; i++ {
		ops = append(ops, anyOp("op"))
	}
	var in any
	switch vf.Choose("form", 4) {
	case 0:
		vf.Assume(n == 1)
		in = ops[0]
	case 1:
		vf.Assume(n > 0)
		in = ops
	case 2:
		vf.Assume(n > 0)
		in = patch(ops)
	case 3:
		k := vf.Choose("split", n+1)
		in = []patch{patch(ops[:k]), patch(ops[k:])}
		vf.Assume(n > 0)
	}
	want := append([]op{}, ops...)
	var l *logument.Logument
	if vf.Choose("new", 2) == 1 {
		l = logument.NewLogument(init, in)
	} else {
		l = logument.NewLogument(init, nil)
		l.Store(in)
	}
	check(l, h, want)
	vf.Assert(l.Append() == nil, "appending gives an error")
	h.ops = append(h.ops, want)
	check(l, h, nil)
	vf.Assert(l.Append() == nil, "appending gives an error")
	check(l, h, nil)
	vf.Reach("stored")
}

// initial documents in every form
func C14_create() {
	order()
	var l *logument.Logument
	text := `{"a": true <5>, "b": [1, "x"]}`
	switch vf.Choose("form", 2) {
	case 0:
		l = logument.NewLogument(text, nil)
	case 1:
		l = logument.NewLogument([]byte(text), nil)
	}
	want := tson.Object{"a": tson.Leaf[bool]{Value: true, Timestamp: 5}, "b": tson.Array{tson.Leaf[float64]{Value: 1, Timestamp: -1}, tson.Leaf[string]{Value: "x", Timestamp: -1}}}
	check(l, start(want), nil)
	vf.Assert(zzgen.Same(want, l.CurrentState, true), "the current state of a new log is not its document")
	vf.Reach("created")
}

// the slice handed to Store stays the caller's: changed, extended and shared between logs
func C14_sharing() {
	order()
	init := initial()
	h := start(init)
	s := make(patch, 0, 4)
	mk := func(name string) op {
		return op{Op: "replace", Path: "/a", Value: vf.Bool(name + ".b"), Timestamp: vf.Int64(name + ".ts")}
	}
	s = append(s, mk("op"))
	x, y, z := mk("x"), mk("y"), mk("z")
	first := s[0]
	l, m := logument.NewLogument(init, nil), logument.NewLogument(init, nil)
	if vf.Choose("first", 2) == 1 {
		l.Store(z)
		m.Store(z)
	}
	pre := append([]op{}, l.PatchPool...)
	switch vf.Choose("form", 3) {
	case 0:
		l.Store(s)
		m.Store(s)
	case 1:
		l.Store([]op(s))
		m.Store([]op(s))
	case 2:
		l.Store([]patch{s})
		m.Store([]patch{s})
	}
	appended := vf.Choose("append first", 2) == 1
	if appended {
		l.Append()
		m.Append()
	}
	l.Store(x)
	m.Store(y)
	s[0] = z
	_ = append(s, z)
	hm := start(init)
	ql, qm := append(append([]op{}, pre...), first, x), append(append([]op{}, pre...), first, y)
	if appended {
		h.ops = append(h.ops, ql[:len(ql)-1])
		hm.ops = append(hm.ops, qm[:len(qm)-1])
		ql, qm = ql[len(ql)-1:], qm[len(qm)-1:]
	}
	check(l, h, ql)
	check(m, hm, qm)
	vf.Reach("shared")
}

// kept copies what a log has recorded.
type image struct {
	versions  []uint64
	patches   map[uint64][]op
	snapshots map[uint64]tson.Value
	pool      []op
}

func take(l *logument.Logument) image {
	m := image{patches: map[uint64][]op{}, snapshots: map[uint64]tson.Value{}}
	m.versions = append(m.versions, l.Version...)
	for v, p := range l.Patches {
		m.patches[v] = append([]op{}, p...)
	}
	for v, s := range l.Snapshots {
		m.snapshots[v] = zzgen.Clone(s)
	}
	m.pool = append([]op{}, l.PatchPool...)
	return m
}

// checkAppend appends and compares the log with what it was before.
func checkAppend(l *logument.Logument) {
	m := take(l)
	last := m.versions[len(m.versions)-1]
	vf.Assert(l.Append() == nil, "appending gives an error")
	n := len(m.versions)
	if len(m.pool) > 0 {
		vf.Assert(len(l.Version) == n+1 && l.Version[n] == last+1, "appending does not add the next version")
		vf.Assert(len(l.Patches) == len(m.patches)+1 && sameOps(m.pool, l.Patches[last+1]), "a version does not hold exactly what was queued")
		vf.Reach("appended")
	} else {
		vf.Assert(len(l.Version) == n && len(l.Patches) == len(m.patches), "appending nothing changes the log")
		vf.Reach("nothing queued")
	}
	for i, v := range m.versions {
		vf.Assert(l.Version[i] == v, "appending changes the earlier versions")
	}
	for v, p := range m.patches {
		vf.Assert(sameOps(p, l.Patches[v]), "appending changes recorded patches")
	}
	vf.Assert(len(l.Snapshots) == len(m.snapshots), "appending changes the snapshots")
	for v, s := range m.snapshots {
		vf.Assert(zzgen.Same(s, l.Snapshots[v], true), "appending changes a snapshot")
	}
	vf.Assert(len(l.PatchPool) == 0, "the queue is not empty after appending")
}

// appending to a log that has been read, sliced and compacted before
func C14_after() {
	vf.SetOrder("ins")
	init := initial()
	l := logument.NewLogument(init, nil)
	n := vf.Param("C14 earlier versions", 3, 12)
	mk := func(name string, ts int64) op {
		return op{Op: "replace", Path: "/a", Value: vf.Bool(name), Timestamp: ts}
	}
	for i := 1; i <= n; i++ {
		l.Store(mk("old", int64(10*i)))
		checkAppend(l)
	}
	queued := vf.Choose("queued before", 2) == 1
	if queued {
		l.Store(mk("queued", 1000))
	}
	for i, k := 0, vf.Param("C14 steps between", 2, 3); i < k; i++ {
		v := l.Version[vf.Choose("v", len(l.Version))]
		switch vf.Choose("step", 9) {
		case 0:
			l.Snapshot(v)
		case 1:
			l.TemporalSnapshot(25)
		case 2:
			w := l.Version[vf.Choose("w", len(l.Version))]
			vf.Assume(v <= w)
			l = l.Slice(v, w)
		case 3:
			from, to := vf.Int64("from"), vf.Int64("to")
			vf.Assume(from <= to)
			l = l.TemporalSlice(from, to)
		case 4:
			l.Compact("/a")
		case 5:
			l.History("/a")
			l.Track(v, v)
			l.TemporalTrack(0, 20)
		case 6:
			l.Set(0, mk("set", 2000))
		case 7:
			l.TestSet(0, mk("tested", 3000))
		case 8:
			l.Store(mk("more", 4000))
		}
		vf.Assert(len(l.Version) > 0, "a log without versions")
		for j, u := range l.Version {
			vf.Assert(u == l.Version[0]+uint64(j), "the versions are not consecutive")
		}
	}
	vf.SetOrder("rev")
	checkAppend(l)
	l.Store(patch{mk("x", 5000), mk("y", 6000)})
	checkAppend(l)
	checkAppend(l)
}

// an empty patch, stored in any form, makes at most an empty version
func C14_empty() {
	order()
	init := initial()
	l := logument.NewLogument(init, nil)
	o := op{Op: "replace", Path: "/a", Value: vf.Bool("v"), Timestamp: vf.Int64("ts")}
	var queue []op
	states := []tson.Value{zzgen.Clone(init)}
	for i, n := 0, vf.Param("C14 empty steps", 3, 4); i < n; i++ {
		switch vf.Choose("step", 6) {
		case 0:
			l.Store(patch{})
		case 1:
			l.Store([]op{})
		case 2:
			l.Store(`[]`)
		case 3:
			l.Store([]patch{{}, {}})
		case 4:
			l.Store(o)
			queue = append(queue, o)
		case 5:
			m := take(l)
			vf.Assert(l.Append() == nil, "appending gives an error")
			if n := len(m.versions); len(l.Version) == n+1 {
				vf.Assert(sameOps(queue, l.Patches[l.Version[n]]), "a version does not hold exactly what was queued")
				s := states[n-1]
				for _, o := range queue {
					s, _, _ = zzgen.Put(s, []string{"a"}, zzgen.MakeLeaf(o.Value, o.Timestamp))
				}
				states = append(states, s)
			} else {
				vf.Assert(len(queue) == 0 && len(l.Version) == n, "appending does not add a version")
			}
			queue = nil
		}
		vf.Assert(sameOps(queue, l.PatchPool), "the queue is not exactly what was stored")
		for j, v := range l.Version {
			vf.Assert(v == uint64(j), "the versions are not consecutive")
			vf.Assert(zzgen.Same(states[j], l.Snapshot(v), true), "a version has the wrong snapshot")
		}
	}
	vf.Reach("stored")
}
