package exp

// Harnesses of the experiments, compiled into their package.

import (
	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/zzgen"
	vf "github.com/CAU-CPSS/logument/internal/zzvf"
)

type zzMap = map[string]any

// zzSame compares JSON-like values without regard to iteration order.
func zzSame(a, b any) bool {
	switch x := a.(type) {
	case zzMap:
		y, ok := b.(zzMap)
		if !ok || len(x) != len(y) {
			return false
		}
		all := true
		for k, v := range x {
			w, has := y[k]
			if !has || !zzSame(v, w) {
				all = false
			}
		}
		return all
	case int:
		y, ok := b.(int)
		return ok && x == y
	case int64:
		y, ok := b.(int64)
		return ok && x == y
	default:
		return zzgen.SameAny(a, b)
	}
}

func zzOrder() { vf.SetOrder(vf.Pick("order", "ins", "rev")) }

// zzValue is a value of a signal.
func zzValue(name string) any {
	switch vf.Choose(name+".kind", 3) {
	case 0:
		return vf.Float64(name + ".num")
	case 1:
		return vf.Bool(name + ".bool")
	}
	return vf.Str(name+".str", 1, "")
}

// zzPut sets the value at a path of a plain document.
func zzPut(d zzMap, parts []string, v any) {
	for _, p := range parts[:len(parts)-1] {
		next, ok := d[p].(zzMap)
		if !ok {
			next = zzMap{}
			d[p] = next
		}
		d = next
	}
	d[parts[len(parts)-1]] = v
}

// zzDrop removes the value at a path and the objects that become empty.
func zzDrop(d zzMap, parts []string) {
	if len(parts) == 1 {
		delete(d, parts[0])
		return
	}
	next, ok := d[parts[0]].(zzMap)
	if !ok {
		return
	}
	zzDrop(next, parts[1:])
	if len(next) == 0 {
		delete(d, parts[0])
	}
}

// zzPlain is a TSON document without its timestamps.
func zzPlain(v tson.Value) any {
	switch x := v.(type) {
	case tson.Object:
		m := zzMap{}
		for k, e := range x {
			m[k] = zzPlain(e)
		}
		return m
	case tson.Array:
		a := make([]any, 0, len(x))
		for _, e := range x {
			a = append(a, zzPlain(e))
		}
		return a
	}
	return zzgen.Plain(v)
}
