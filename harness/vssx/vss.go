package vssgen

// Harnesses of the vehicle data generator, compiled into its package.

import (
	"encoding/json"
	"strings"

	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/zzgen"
	"github.com/CAU-CPSS/logument/internal/zzrand"
	vf "github.com/CAU-CPSS/logument/internal/zzvf"
)

type zzMap = map[string]any

// zzSame compares JSON-like values without regard to iteration order.
func zzSame(a, b any) bool {
	switch x := a.(type) {
	case zzMap:
		y, ok := b.(zzMap)
		if !ok || len(x) != len(y) {
			return false
		}
		all := true
		for k, v := range x {
			w, has := y[k]
			if !has || !zzSame(v, w) {
				all = false
			}
		}
		return all
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		all := true
		for i := range x {
			if !zzSame(x[i], y[i]) {
				all = false
			}
		}
		return all
	case int:
		y, ok := b.(int)
		return ok && x == y
	case int64:
		y, ok := b.(int64)
		return ok && x == y
	default:
		return zzgen.SameAny(a, b)
	}
}

func zzCopy(a any) any {
	switch x := a.(type) {
	case zzMap:
		r := zzMap{}
		for k, v := range x {
			r[k] = zzCopy(v)
		}
		return r
	case []any:
		r := make([]any, len(x))
		for i, v := range x {
			r[i] = zzCopy(v)
		}
		return r
	}
	return a
}

// zzParse reads a document of the generator as TSON.
func zzParse(d any) tson.Tson {
	b, err := json.Marshal(d)
	vf.Assert(err == nil, "a generated document has a JSON form")
	var t tson.Tson
	vf.Assert(tson.FromCompatibleTsonBytes(b, &t) == nil, "a generated document is a compatible TSON document")
	return t
}

func zzOrder() { vf.SetOrder(vf.Pick("order", "ins", "rev")) }

// zzFewDraws makes integer draws from a representative few.
func zzFewDraws() {
	zzrand.Draw = func(n int) int {
		if n <= 2 {
			return vf.Choose("draw", n)
		}
		return []int{0, n / 2, n - 1}[vf.Choose("draw", 3)]
	}
}

func zzJoin(parts ...string) string { return strings.Join(parts, ".") }
