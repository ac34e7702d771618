package vssgen

import (
	"fmt"
	"strings"

	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/zzos"
	"github.com/CAU-CPSS/logument/internal/zzrand"
	"github.com/CAU-CPSS/logument/internal/zztime"
	vf "github.com/CAU-CPSS/logument/internal/zzvf"
)

// zzDecl declares a signal of a specification.
type zzDecl struct {
	path, datatype, more string
}

// zzAsSpec is the text of the specification with some signals.
func zzAsSpec(decls []zzDecl) []byte {
	type node struct {
		text string
		kids map[string]*node
		keys []string
	}
	root := &node{kids: map[string]*node{}}
	for _, d := range decls {
		at := root
		parts := strings.Split(d.path, ".")
		for i, p := range parts {
			next := at.kids[p]
			if next == nil {
				next = &node{kids: map[string]*node{}}
				at.kids[p] = next
				at.keys = append(at.keys, p)
			}
			at = next
			if i == len(parts)-1 {
				at.text = `{"type":"sensor","datatype":"` + d.datatype + `","description":"what it is"` + d.more + `}`
			}
		}
	}
	var write func(n *node) string
	write = func(n *node) string {
		var ms []string
		for _, k := range n.keys {
			kid := n.kids[k]
			t := kid.text
			if t == "" {
				t = `{"type":"branch","uuid":"0","description":"a branch","children":` + write(kid) + `}`
			}
			ms = append(ms, `"`+k+`":`+t)
		}
		return "{" + strings.Join(ms, ",") + "}"
	}
	return []byte(write(root))
}

// zzFits: a value fits the datatype of its signal.
func zzFits(v any, datatype string, d zzDecl) bool {
	switch datatype {
	case "boolean":
		_, ok := v.(bool)
		return ok
	case "string":
		s, ok := v.(string)
		if _, list, has := strings.Cut(d.more, `"allowed":[`); has {
			list, _, _ = strings.Cut(list, "]")
			any := false
			for _, a := range strings.Split(list, ",") {
				any = vf.Or(any, `"`+s+`"` == a)
			}
			return ok && any
		}
		return ok && s != ""
	case "float", "double":
		f, ok := v.(float64)
		return ok && vf.And(f >= 0, f <= 100)
	case "uint8", "uint16", "uint32":
		i, ok := v.(int)
		return ok && vf.And(i >= 0, i <= 100)
	case "int8", "int16", "int32":
		i, ok := v.(int)
		return ok && vf.And(i >= -100, i <= 100)
	}
	return false
}

// zzSignalFits: what is generated for a signal is a reading of its datatype, or an array of some.
func zzSignalFits(v any, d zzDecl, ts int64) bool {
	if of, isArray := strings.CutSuffix(d.datatype, "[]"); isArray {
		a, ok := v.([]any)
		if !ok || len(a) == 0 || len(a) > 5 {
			return false
		}
		all := true
		for _, e := range a {
			m, ok := e.(zzMap)
			all = vf.And(all, ok && len(m) == 2 && m["timestamp"] == ts && zzFits(m["value"], of, d))
		}
		return all
	}
	m, ok := v.(zzMap)
	return ok && len(m) == 2 && m["timestamp"] == ts && zzFits(m["value"], d.datatype, d)
}

// zzFind is the entry at a dotted path.
func zzFind(d any, path string) (any, bool) {
	for _, p := range strings.Split(path, ".") {
		m, ok := d.(zzMap)
		if !ok {
			return nil, false
		}
		if d, ok = m[p]; !ok {
			return nil, false
		}
	}
	return d, true
}

// zzCount counts the signals of a generated document.
func zzCount(d any) int {
	m, ok := d.(zzMap)
	if !ok {
		return 1
	}
	if _, leaf := m["timestamp"]; leaf {
		return 1
	}
	n := 0
	for _, v := range m {
		n += zzCount(v)
	}
	return n
}

func zzFirst(decls []zzDecl, size float64) {
	zzos.Put("spec/vss.json", zzAsSpec(decls))
	s, ns := int64(1700000000), int64(vf.Int("clock", 0, 999999999))
	zztime.Clock = func() (int64, int64) { return s, ns }
	zzOrder()
	vss := NewVssJson("spec/vss.json")
	first := vss.Generate(size, 1)
	vf.SetOrder("ins")
	doc, ok := first.GetData().(zzMap)
	vf.Assert(ok, "a document is generated")
	there := 0
	for _, d := range decls {
		v, has := zzFind(doc, d.path)
		if !has {
			vf.Assert(size < 1, "every signal is generated for the whole dataset")
			continue
		}
		there++
		vf.Assert(zzSignalFits(v, d, s*1000000000+ns), "a signal has a fitting reading of the time of the generation")
	}
	vf.Assert(zzCount(doc) == there, "nothing but the signals is generated")
	var t tson.Tson
	vf.Assert(tson.FromCompatibleTsonBytes(mapToJson(doc), &t) == nil, "what is generated is a document")
	vf.Reach(fmt.Sprintf("first %d", there))
}

var zzMore = []string{"", `,"unit":"percent"`, `,"allowed":["LOW","HIGH"]`, `,"allowed":["ONLY"]`, `,"allowed":["A","B","C","D"]`, `,"unit":"km/h","min":0,"max":250,"deprecation":"v4"`}

// A signal of every datatype.
func C33_signal() {
	vf.SetOrder("ins")
	d := zzDecl{vf.Pick("path", "Vehicle.Speed", "Vehicle.Cabin.Door.IsOpen"), zzTypes[vf.Choose("datatype", len(zzTypes))], zzMore[vf.Choose("more", len(zzMore))]}
	if strings.Contains(d.more, "allowed") {
		d.datatype = vf.Pick("of", "string", "string[]")
	}
	n := 0
	zzrand.Draw = func(m int) int { // the first draws are free
		n++
		if n <= vf.Param("draws", 3, 4) {
			return vf.Int("randn", 0, m-1)
		}
		return 0
	}
	zzFirst([]zzDecl{d}, 1)
}

// Several signals in branches; a part of the dataset.
func C33_several() {
	vf.SetOrder("ins")
	paths := []string{"Vehicle.Speed", "Vehicle.Cabin.Door.IsOpen", "Vehicle.Cabin.Light", "Vehicle.Speedy", "Trailer.Cabin.Light"}
	var ds []zzDecl
	for i, p := range paths {
		if vf.Choose("has", 2) == 1 {
			ds = append(ds, zzDecl{p, []string{"boolean", "uint8", "float", "string", "int16"}[i], ""})
		}
	}
	zzrand.Draw = func(m int) int { return 0 }
	size := []float64{1, 0.5, 0}[vf.Choose("size", 3)]
	zzFirst(ds, size)
}

// Many signals in deep branches.
func C33_many() {
	vf.SetOrder("ins")
	n := 0
	free := 11 * vf.Choose("free", 5)
	zzrand.Draw = func(m int) int {
		n++
		if n == free || n == free+1 {
			return vf.Int("randn", 0, m-1)
		}
		return n * 7 % m
	}
	var ds []zzDecl
	for i := 0; i < 45; i++ {
		p := "Vehicle"
		for j := 0; j < i%7; j++ {
			p += fmt.Sprintf(".B%d", (i+j)%3)
		}
		ds = append(ds, zzDecl{fmt.Sprintf("%s.S%d", p, i), zzTypes[i%len(zzTypes)], ""})
	}
	nf := 0
	zzrand.DrawFloat = func() float64 { nf++; return []float64{0, 0.05, 0.3, 0.9}[nf*nf%4] }
	zzFirst(ds, []float64{1, 0.5}[vf.Choose("size", 2)])
}
