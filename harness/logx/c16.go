package logx

import (
	"github.com/CAU-CPSS/logument/internal/logument"
	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/zzgen"
	vf "github.com/CAU-CPSS/logument/internal/zzvf"
)

// C16: reading never rewrites history.

// read makes one query with any arguments; it returns the documents and the logs that were handed out.
func read(l *logument.Logument, h *hist) (docs []tson.Value, log *logument.Logument) {
	n := len(h.states)
	switch vf.Choose("query", 8) {
	case 0:
		docs = append(docs, l.Snapshot(h.base+uint64(vf.Choose("k", n))))
	case 1:
		docs = append(docs, l.TemporalSnapshot(vf.Int64("tsk")))
	case 2:
		i := vf.Choose("i", n)
		log = l.Slice(h.base+uint64(i), h.base+uint64(i+vf.Choose("j", n-i)))
	case 3:
		a, b := vf.Int64("tsi"), vf.Int64("tsj")
		vf.Assume(a <= b)
		log = l.TemporalSlice(a, b)
	case 4:
		i := vf.Choose("i", n)
		for _, p := range l.Track(h.base+uint64(i), h.base+uint64(i+vf.Choose("j", n-i))) {
			vf.Assert(p != nil, "tracking gives nothing for a version")
		}
	case 5:
		a, b := vf.Int64("tsi"), vf.Int64("tsj")
		vf.Assume(a <= b)
		l.TemporalTrack(a, b)
	case 6:
		l.History(vf.Pick("target", "", "/b"))
	case 7:
		l.Print()
	}
	return docs, log
}

// appended moves what was queued to a version, as a temporal snapshot may do.
func (h *hist) appended(l *logument.Logument, queue []op, after tson.Value) []op {
	if queue != nil && len(l.Version) > len(h.states) {
		h.ops = append(h.ops, queue)
		h.states = append(h.states, after)
		queue = nil
	}
	vf.Assert(sameOps(queue, l.PatchPool), "a query changed the queue")
	return queue
}

func small(h *hist, i int) op {
	o := op{Op: "replace", Path: []string{"/a", "/b/c"}[i%2], Value: true, Timestamp: int64(35 - 10*i)}
	if i == 1 {
		o.Path = vf.Pick("path", "/a", "/b/c")
	}
	vf.Assume(h.do(o))
	return o
}

// two queries in a row on any history
func C16_queries() {
	l, h := build(initial(), vf.Param("C16 versions", 2, 3), vf.Param("C16 operations per version", 2, 2), small)
	var queue []op
	if vf.Choose("queued", 2) == 1 {
		queue = []op{{Op: "add", Path: "/n", Value: vf.Bool("q"), Timestamp: 100}}
		l.Store(queue[0])
		vf.Assume(h.do(queue[0]))
	}
	for i := 0; i < 2; i++ {
		read(l, h)
		queue = h.appended(l, queue, h.cur)
		recorded(l, h, "query")
	}
	vf.Reach("queried")
}

// documents handed in and out are not those of the log
func C16_documents() {
	init := initial()
	l, h := build(init, vf.Param("C16 document versions", 2, 3), 1, func(h *hist, i int) op {
		return h.op("op", []string{"/a", "/n", "/b/c"}, vf.Bool("v"), int64(10*i+5))
	})
	if vf.Choose("in", 2) == 1 {
		deface(init)
		recorded(l, h, "changing the document handed in")
	}
	var docs []tson.Value
	var logs []*logument.Logument
	for i, n := 0, vf.Param("C16 documents", 2, 2); i < n; i++ {
		switch vf.Choose("out", 4) {
		case 0:
			docs = append(docs, l.Snapshot(uint64(vf.Choose("k", len(h.states)))))
		case 1:
			docs = append(docs, l.TemporalSnapshot([]int64{0, 5, 100}[vf.Choose("t", 3)]))
		case 2:
			i := vf.Choose("i", len(h.states))
			logs = append(logs, l.Slice(uint64(i), uint64(len(h.states)-1)))
		case 3:
			logs = append(logs, l.TemporalSlice([]int64{0, 6}[vf.Choose("t", 2)], 100))
		}
		if vf.Choose("early", 2) == 1 {
			for _, d := range docs {
				deface(d)
			}
		}
	}
	for _, d := range docs {
		deface(d)
	}
	for _, m := range logs {
		for _, s := range m.Snapshots {
			deface(s)
		}
		for _, p := range m.Patches {
			for i := range p {
				p[i].Value = "defaced"
			}
		}
		m.Store(op{Op: "add", Path: "/a", Value: "later", Timestamp: 1})
		m.Append()
		m.Compact("")
	}
	recorded(l, h, "changing what was handed out")
	for i := range h.states {
		h.isSnapshot(l, i)
	}
	vf.Reach("documents")
}

// later edits of the log leave the earlier snapshots and versions alone
func C16_edits() {
	l, h := build(initial(), 2, 1, func(h *hist, i int) op {
		return h.op("op", []string{"/a", "/b/c", "/r/2"}, vf.Bool("v"), vf.Int64("ts"))
	})
	var taken []tson.Value
	for i := range h.states {
		if vf.Choose("take", 2) == 1 {
			taken = append(taken, l.Snapshot(uint64(i)))
		} else {
			taken = append(taken, nil)
		}
	}
	for i, n := 0, vf.Param("C16 edits", 2, 3); i < n; i++ {
		o := op{Op: "replace", Path: vf.Pick("path", "/a", "/b/c", "/r/0"), Value: vf.Bool("w"), Timestamp: vf.Int64("tw")}
		_, has := zzgen.Lookup(h.cur, o.Path)
		vf.Assume(has)
		vf.Assume(h.do(o))
		if vf.Choose("edit", 2) == 0 {
			l.Set(0, o)
		} else {
			l.Store(o)
		}
		l.Append()
		h.version([]op{o})
	}
	recorded(l, h, "editing")
	for i, t := range taken {
		if t != nil {
			vf.Assert(zzgen.Same(h.states[i], t, true), "editing changed a snapshot that was taken")
		}
	}
	for i := range h.states {
		h.isSnapshot(l, i)
	}
	vf.Reach("edited")
}

// rich has containers in containers of every kind.
func rich(b bool) tson.Value {
	lf := func(i int64) tson.Value { return tson.Leaf[bool]{Value: b, Timestamp: i} }
	return tson.Object{
		"oo": tson.Object{"x": tson.Object{"y": lf(1)}, "n": nil},
		"oa": tson.Object{"x": tson.Array{lf(2), tson.Object{"y": lf(3)}}},
		"ao": tson.Array{tson.Object{"x": lf(4), "y": tson.Array{lf(5)}}, tson.Object{}},
		"aa": tson.Array{tson.Array{lf(6), tson.Array{lf(7)}}, tson.Array{}, tson.Array{tson.Object{"x": lf(8)}}},
		"l":  lf(9),
	}
}

func defaceOps(m map[uint64]patch) {
	for _, p := range m {
		for i := range p {
			p[i] = op{Op: "remove", Path: "/defaced", Timestamp: -7}
		}
		_ = append(p[:0], op{Op: "remove", Path: "/defaced", Timestamp: -7})
	}
}

// everything that is handed in or out of a log with nested documents is changed at every level
func C16_nested() {
	order()
	b := vf.Bool("b")
	init := rich(b)
	h := start(init)
	l := logument.NewLogument(init, nil)
	ps := []string{"/aa/0/1/0", "/oa/x/1/y", "/ao/0/y/0", "/oo/x/y", "/aa/2/0/x", "/aa/0/0", "/l"}
	for i, n := 0, vf.Param("C16 nested versions", 2, 3); i < n; i++ {
		o := op{Op: "replace", Path: ps[vf.Choose("path", len(ps))], Value: vf.Bool("v"), Timestamp: int64(10*i + 5)}
		vf.Assume(h.do(o))
		l.Store(o)
		vf.Assert(l.Append() == nil, "appending gives an error")
		h.version([]op{o})
	}
	if vf.Choose("kept", 2) == 1 {
		l.Snapshot(1)
		l.TemporalSnapshot(7)
	}
	var m *logument.Logument
	switch vf.Choose("out", 8) {
	case 0:
		deface(init)
	case 1:
		deface(l.Snapshot(uint64(vf.Choose("k", len(h.states)))))
	case 2:
		deface(l.TemporalSnapshot([]int64{0, 5, 100}[vf.Choose("t", 3)]))
	case 3:
		i := vf.Choose("i", len(h.states))
		m = l.Slice(uint64(i), uint64(len(h.states)-1))
	case 4:
		m = l.TemporalSlice([]int64{0, 6}[vf.Choose("t", 2)], 100)
	case 5:
		deface(l.CurrentState)
	case 6:
		defaceOps(l.Track(1, uint64(len(h.states)-1)))
		defaceOps(l.TemporalTrack(0, 100))
	case 7:
		for _, p := range l.History(vf.Pick("target", "", "/aa", "/l")) {
			for i := range p {
				p[i] = op{Op: "remove", Path: "/defaced", Timestamp: -7}
			}
		}
	}
	if m != nil {
		for _, v := range m.Version {
			deface(m.Snapshot(v))
		}
		for _, s := range m.Snapshots {
			deface(s)
		}
		deface(m.CurrentState)
		for _, p := range m.Patches {
			for i := range p {
				p[i].Value = "defaced"
			}
		}
	}
	recorded(l, h, "changing what was handed out")
	for i := range h.states {
		h.isSnapshot(l, i)
	}
	vf.Reach("nested")
}
