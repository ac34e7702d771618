package vssgen

import (
	"strings"

	vf "github.com/CAU-CPSS/logument/internal/zzvf"
)

// zzSpec makes a specification: nested maps, scalars and lists, keys of the menu.
func zzSpec(name string, keys []string, depth, width int) zzMap {
	m := zzMap{}
	n := vf.Choose(name+".n", width+1)
	from := 0
	for i := 0; i < n; i++ {
		left := len(keys) - from
		if left == 0 {
			break
		}
		j := from + vf.Choose(name+".k", left)
		from = j + 1
		m[keys[j]] = zzSpecVal(name+"."+keys[j], keys, depth-1, width)
	}
	return m
}

func zzSpecVal(name string, keys []string, depth, width int) any {
	k := 2
	if depth > 0 {
		k = 4
	}
	switch vf.Choose(name+".kind", k) {
	case 0:
		return vf.Float64(name + ".num")
	case 1:
		return nil
	case 2:
		return []any{"x", true}
	}
	return zzSpec(name, keys, depth, width)
}

// zzWithout is the document without the listed keys, at every level.
func zzWithout(d zzMap, drop map[string]bool) zzMap {
	r := zzMap{}
	for k, v := range d {
		if drop[k] {
			continue
		}
		if m, ok := v.(zzMap); ok {
			v = zzWithout(m, drop)
		}
		r[k] = v
	}
	return r
}

// Removing keys removes exactly the listed ones, at every level.
func C27_remove() {
	zzOrder()
	keys := [][]string{{"type", "children", "uuid", "Speed"}, {"children", "datatype", "type", "A"}}[vf.Choose("keys", 2)]
	d := zzSpec("d", keys, vf.Param("depth", 2, 2), vf.Param("width", 2, 4))
	vf.SetOrder("ins")
	want := zzWithout(d, map[string]bool{"type": true, "uuid": true})
	vss := &VssJson{data: d}
	zzOrder()
	vss.removeKeys("type", "uuid")
	vf.SetOrder("ins")
	vf.Assert(zzSame(vss.data, any(want)), "removing keys leaves exactly the document without them")
	vf.Reach("removed")
}

// A generated document is not a specification: nothing is removed from it.
func C27_remove_symbolic() {
	k1, k2 := vf.Str("k1", 2, ""), vf.Str("k2", 2, "")
	drop := vf.Str("drop", 2, "")
	d := zzMap{"a": zzMap{k1: 1.0, "deep": zzMap{k2: zzMap{"x": true}}}}
	if k1 == "deep" {
		return
	}
	vss := &VssJson{data: d}
	vss.removeKeys(drop)
	a := vss.data.(zzMap)["a"].(zzMap)
	_, has1 := a[k1]
	_, has2 := a["deep"].(zzMap)[k2]
	vf.Assert(has1 == (k1 != drop), "a scalar is removed exactly if its key is listed")
	vf.Assert(has2 == (k2 != drop), "an object is removed exactly if its key is listed")
	vf.Reach("removed")
}

// zzDoc makes a generated document: objects, leaves with value and timestamp, arrays of leaves.
func zzDoc(name string, keys []string, depth, width int) zzMap {
	m := zzMap{}
	n := 1 + vf.Choose(name+".n", width)
	from := 0
	for i := 0; i < n && from < len(keys); i++ {
		j := from + vf.Choose(name+".k", len(keys)-from)
		from = j + 1
		nm := name + "." + keys[j]
		kind := 3
		if depth > 1 {
			kind = 4
		}
		switch vf.Choose(nm+".kind", kind) {
		case 0:
			m[keys[j]] = zzLeaf(vf.Float64(nm+".v"), vf.Int64(nm+".ts"))
		case 1:
			m[keys[j]] = []any{zzLeaf(vf.Bool(nm+".v"), vf.Int64(nm+".ts"))}
		case 2:
			m[keys[j]] = "plain"
		case 3:
			m[keys[j]] = zzDoc(nm, keys, depth-1, width)
		}
	}
	return m
}

func zzLeaf(v any, ts int64) zzMap { return zzMap{"value": v, "timestamp": ts} }

// zzLeaves lists the leaves by dotted path.
func zzLeaves(d zzMap, at []string, out *[]zzEntry) {
	for k, v := range d {
		p := append(append([]string{}, at...), k)
		if m, ok := v.(zzMap); ok {
			if _, leaf := m["timestamp"]; !leaf {
				zzLeaves(m, p, out)
				continue
			}
		}
		*out = append(*out, zzEntry{zzJoin(p...), v})
	}
}

type zzEntry struct {
	path string
	v    any
}

// Listing the leaves reports every leaf once under its path; rebuilding gives the document back.
func C27_leaves() {
	zzOrder()
	keys := [][]string{{"A", "B", "Ba"}, {"A", "childrenLock", "Children"}}[vf.Choose("keys", 2)]
	zzListed(zzDoc("d", keys, vf.Param("depth", 2, 3), 2))
}

// The same with deep documents.
func C27_deep() {
	vf.SetOrder("ins")
	d := zzMap{}
	for _, p := range []string{"A.B.C.D", "A.B.C.E.F", "A.B.C.E.G", "A.B.H", "A.I", "J.B.C.D", "K"} {
		if vf.Choose("has", 2) == 1 {
			zzPut(d, strings.Split(p, "."), zzLeaf(vf.Float64("v"), vf.Int64("ts")))
		}
	}
	zzOrder()
	zzListed(d)
}

func zzPut(d zzMap, path []string, v any) {
	for _, k := range path[:len(path)-1] {
		if d[k] == nil {
			d[k] = zzMap{}
		}
		d = d[k].(zzMap)
	}
	d[path[len(path)-1]] = v
}

func zzListed(d zzMap) {
	want := zzCopy(d)
	var es []zzEntry
	zzLeaves(d, nil, &es)
	vss := VssJson{initialized: true, data: d}
	got := vss.LeafNodes()
	n := 0
	for _, g := range got {
		n += len(g)
	}
	vf.Assert(n == len(es), "as many leaves are listed as there are")
	for _, e := range es {
		hits := 0
		for _, g := range got {
			if v, ok := g[e.path]; ok {
				hits++
				vf.Assert(zzSame(v, e.v), "a listed leaf has its value")
			}
		}
		vf.Assert(hits == 1, "every leaf is listed once under its path")
	}
	back, err := vss.BuildFromLeafNodes()
	vf.Assert(err == nil, "rebuilding succeeds")
	vf.Assert(zzSame(any(back), want), "rebuilding from the listed leaves gives the document")
	vf.Assert(zzSame(vss.data, want), "listing leaves changes nothing")
	vf.Reach("listed")
}

// The nodes of a specification are listed without its "children" levels.
func C27_spec_leaves() {
	zzOrder()
	a, b := vf.Str("a", 2, "ABab"), vf.Str("b", 2, "ABab")
	vf.Assume(a != b)
	d := zzMap{"V": zzMap{"children": zzMap{
		a: zzMap{"datatype": "float", "unit": "percent"},
		b: zzMap{"children": zzMap{"X": zzMap{"datatype": "string", "allowed": []any{"p", "q"}}}},
	}}}
	vss := VssJson{data: d}
	got := zzMap{}
	for _, g := range vss.LeafNodes() {
		for k, v := range g {
			_, dup := got[k]
			vf.Assert(!dup, "no path is listed twice")
			got[k] = v
		}
	}
	want := zzMap{
		"V." + a + ".datatype": "float", "V." + a + ".unit": "percent",
		"V." + b + ".X.datatype": "string", "V." + b + ".X.allowed": []any{"p", "q"},
	}
	vf.Assert(zzSame(any(got), any(want)), "specification nodes are listed under their path without the children levels")
	for k := range got {
		vf.Assert(!strings.Contains(k, "children"), "no children level in a path")
	}
	vf.Reach("listed")
}

// As a Go map a document is what it is, and a copy.
func C27_map() {
	zzOrder()
	d := zzDoc("d", []string{"A", "B"}, vf.Param("map depth", 2, 3), 2)
	want := zzCopy(d)
	vss := &VssJson{initialized: vf.Choose("generated", 2) == 1, data: d}
	got, err := vss.ToMapStringInterface()
	vf.SetOrder("ins")
	vf.Assert(err == nil, "a document converts to a map")
	vf.Assert(zzSame(any(got), want), "the map is the document")
	got["new"] = 1.0
	for k, v := range got {
		switch v := v.(type) {
		case zzMap:
			v["value"] = "other"
		case []any:
			v[0] = "other"
		}
		got[k] = nil
	}
	vf.Assert(zzSame(vss.data, want), "a change to the map leaves the document alone")
	vf.Reach("a map")
}
