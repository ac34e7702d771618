// Package logx holds the harnesses of the log properties.
package logx

import (
	"github.com/CAU-CPSS/logument/internal/logument"
	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
	"github.com/CAU-CPSS/logument/internal/zzgen"
	vf "github.com/CAU-CPSS/logument/internal/zzvf"
)

type (
	op    = tsonpatch.Operation
	patch = tsonpatch.Patch
)

// hist is what was recorded, kept apart from the log under test.
type hist struct {
	base   uint64
	init   tson.Value
	states []tson.Value // by version
	ops    [][]op       // by version
	cur    tson.Value
	flat   []op
	cuts   int // removals
}

func initial() tson.Value {
	return tson.Object{
		"a":  tson.Leaf[bool]{Value: vf.Bool("init.a"), Timestamp: 1},
		"ab": tson.Leaf[string]{Value: "x", Timestamp: vf.Int64("init.ts")},
		"b":  tson.Object{"c": tson.Leaf[bool]{Value: vf.Bool("init.c"), Timestamp: 2}},
		"r":  tson.Array{tson.Leaf[bool]{Value: true, Timestamp: 3}, tson.Leaf[bool]{Value: vf.Bool("init.r"), Timestamp: 3}},
	}
}

func start(init tson.Value) *hist {
	c := zzgen.Clone(init)
	return &hist{init: c, states: []tson.Value{c}, ops: [][]op{nil}, cur: c}
}

// do applies an operation to the reference state.
func (h *hist) do(o op) bool {
	parts, _ := zzgen.Segments(o.Path)
	var r tson.Value
	var ok bool
	if o.Op == tsonpatch.OpRemove {
		r, ok = zzgen.Cut(h.cur, parts)
	} else {
		r, ok, _ = zzgen.Put(h.cur, parts, zzgen.MakeLeaf(o.Value, o.Timestamp))
	}
	if ok {
		h.cur = r
		h.flat = append(h.flat, o)
		if o.Op == tsonpatch.OpRemove {
			h.cuts++
		}
	}
	return ok
}

// op makes an operation that is applicable to the current reference state, at a path of the menu.
func (h *hist) op(name string, menu []string, v any, ts int64) op {
	p := menu[vf.Choose(name+".path", len(menu))]
	o := op{Op: tsonpatch.OpAdd, Path: p, Value: v, Timestamp: ts}
	if _, has := zzgen.Lookup(h.cur, p); has {
		o.Op = tsonpatch.OpReplace
		if vf.Choose(name+".remove", 2) == 1 {
			o = op{Op: tsonpatch.OpRemove, Path: p, Timestamp: ts}
		}
	}
	vf.Assume(h.do(o))
	return o
}

// version closes a version of the reference.
func (h *hist) version(ops []op) {
	h.ops = append(h.ops, ops)
	h.states = append(h.states, h.cur)
}

// build makes a log of n versions with up to per operations each, and what it should be.
func build(init tson.Value, n, per int, mk func(h *hist, i int) op) (*logument.Logument, *hist) {
	order()
	h := start(init)
	l := logument.NewLogument(init, nil)
	i := 0
	for v := 0; v < n; v++ {
		ops := []op{}
		for k, m := 0, 1+vf.Choose("ops", per); k < m; k++ {
			ops = append(ops, mk(h, i))
			i++
		}
		l.Store(patch(ops))
		vf.Assert(l.Append() == nil, "appending gives an error")
		h.version(append([]op{}, ops...))
	}
	return l, h
}

func sameOp(a, b op) bool {
	if a.Op != b.Op || a.Path != b.Path {
		return false
	}
	return vf.And(a.Timestamp == b.Timestamp, zzgen.SameAny(a.Value, b.Value))
}

func sameOps(a, b []op) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		if a[i].Op != b[i].Op || a[i].Path != b[i].Path {
			return false
		}
		r = vf.And(r, sameOp(a[i], b[i]))
	}
	return r
}

// recorded checks that the log still holds what was recorded, and nothing but right snapshots.
func recorded(l *logument.Logument, h *hist, what string) {
	vf.Assert(len(l.Version) == len(h.states), what+": the versions changed")
	for i, v := range l.Version {
		vf.Assert(v == h.base+uint64(i), what+": the versions changed")
	}
	n := 0
	for i := range h.ops {
		p, has := l.Patches[h.base+uint64(i)]
		if has {
			n++
		}
		vf.Assert(sameOps(h.ops[i], p), what+": the recorded patches changed")
	}
	vf.Assert(n == len(l.Patches), what+": patches of unknown versions")
	s, has := l.Snapshots[h.base]
	vf.Assert(has && zzgen.Same(s, h.states[0], true), what+": the first snapshot changed")
	n = 0
	for i := range h.states {
		if s, has := l.Snapshots[h.base+uint64(i)]; has {
			n++
			vf.Assert(zzgen.Same(s, h.states[i], true), what+": a recorded snapshot changed")
		}
	}
	vf.Assert(n == len(l.Snapshots), what+": snapshots of unknown versions")
}

func order() { vf.SetOrder(vf.Pick("order", "ins", "rev")) }

// deface changes a document that was handed out or in, at every level.
func deface(d tson.Value) {
	switch x := d.(type) {
	case tson.Object:
		for k, c := range x {
			deface(c)
			if _, is := zzgen.Stamp(c); is {
				x[k] = tson.Leaf[string]{Value: "defaced", Timestamp: -7}
			}
		}
		x["defaced"] = tson.Leaf[bool]{Value: true, Timestamp: -7}
	case tson.Array:
		for i, c := range x {
			deface(c)
			if _, is := zzgen.Stamp(c); is {
				x[i] = tson.Leaf[string]{Value: "defaced", Timestamp: -7}
			}
		}
	}
}

// kept checks that got holds operations of want in their order and tells, per operation of want, whether it is there.
// The timestamps of want are distinct constants.
func kept(want, got []op, what string) []bool {
	r := make([]bool, len(want))
	j := 0
	for i, o := range want {
		if j < len(got) && got[j].Timestamp == o.Timestamp {
			vf.Assert(sameOp(o, got[j]), what+": an operation was changed")
			r[i] = true
			j++
		}
	}
	vf.Assert(j == len(got), what+": an operation that was not recorded there, or not in that order")
	return r
}

func isPut(o op) bool { return o.Op != tsonpatch.OpRemove }

// repeats tells whether operation i puts the value that the last one before it at the same path put.
func repeats(ops []op, i int) bool {
	if !isPut(ops[i]) {
		return false
	}
	for j := i - 1; j >= 0; j-- {
		if ops[j].Path == ops[i].Path {
			return isPut(ops[j]) && zzgen.SameAny(ops[j].Value, ops[i].Value)
		}
	}
	return false
}

func below(p, target string) bool {
	return p == target || len(p) > len(target) && p[:len(target)] == target && p[len(target)] == '/'
}
