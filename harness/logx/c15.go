package logx

import (
	"github.com/CAU-CPSS/logument/internal/logument"
	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/zzgen"
	vf "github.com/CAU-CPSS/logument/internal/zzvf"
)

// C15: snapshots by version.

var menu = []string{"/a", "/n", "/b/c", "/b", "/r/0", "/r/2"}

func genOp(ms []string) func(h *hist, i int) op {
	return func(h *hist, i int) op { return h.op("op", ms, vf.Bool("v"), vf.Int64("ts")) }
}

func (h *hist) isSnapshot(l *logument.Logument, i int) {
	got := l.Snapshot(h.base + uint64(i))
	vf.Assert(zzgen.Same(h.states[i], got, true), "a snapshot is not the initial document with the patches of the versions up to it")
}

// every history and every order of requests
func C15_requests() {
	l, h := build(initial(), vf.Param("C15 versions", 3, 4), 1, genOp([]string{"/a", "/n", "/b/c"}))
	for i, n := 0, vf.Param("C15 requests", 3, 3); i < n; i++ {
		h.isSnapshot(l, vf.Choose("version", len(h.states)))
	}
	vf.Reach("requested")
}

// every kind of operation, more than one per version
func C15_operations() {
	l, h := build(initial(), 2, vf.Param("C15 operations per version", 2, 2), genOp(menu))
	first := vf.Choose("first", 3)
	h.isSnapshot(l, first)
	h.isSnapshot(l, 2)
	h.isSnapshot(l, first)
	vf.Reach("requested")
}

// snapshots taken while the log grows, with operations waiting in the queue
func C15_growing() {
	order()
	init := initial()
	h := start(init)
	l := logument.NewLogument(init, nil)
	for v, n := 0, vf.Param("C15 growing versions", 3, 4); v < n; v++ {
		o := h.op("op", []string{"/a", "/n"}, vf.Bool("v"), vf.Int64("ts"))
		l.Store(o)
		h.isSnapshot(l, vf.Choose("before", len(h.states)))
		l.Append()
		h.version([]op{o})
		h.isSnapshot(l, vf.Choose("after", len(h.states)))
	}
	for i := range h.states {
		h.isSnapshot(l, i)
	}
	vf.Reach("grown")
}

// logs whose first version is any number (as slices have)
func C15_base() {
	order()
	base := []uint64{1, 9, 10, 99, 255, 256, 1<<31 - 2, 1<<32 - 2, 1<<63 - 2, 1<<64 - 9}[vf.Choose("base", 10)]
	h := start(initial())
	h.base = base
	l := &logument.Logument{Version: []uint64{base}, CurrentState: zzgen.Clone(h.init), Snapshots: map[uint64]tson.Value{base: zzgen.Clone(h.init)}, Patches: map[uint64]patch{}}
	for v := uint64(1); v <= 3; v++ {
		o := h.op("op", []string{"/a", "/n"}, vf.Bool("v"), vf.Int64("ts"))
		l.Version = append(l.Version, base+v)
		l.Patches[base+v] = patch{o}
		h.version([]op{o})
	}
	for i := 0; i < 3; i++ {
		h.isSnapshot(l, vf.Choose("version", 4))
	}
	recorded(l, h, "snapshot")
	vf.Reach("based")
}

// values of every type and size
func C15_values() {
	l, h := build(initial(), 2, 1, func(h *hist, i int) op {
		var v any
		switch vf.Choose("kind", 3) {
		case 0:
			v = vf.Float64("f")
		case 1:
			v = vf.Str("s", vf.Choose("len", 3), "")
		case 2:
			v = vf.Bool("b")
		}
		return h.op("op", []string{"/a", "/r/1"}, v, vf.Int64("ts"))
	})
	h.isSnapshot(l, vf.Choose("first", 3))
	h.isSnapshot(l, 2)
	vf.Reach("values")
}
