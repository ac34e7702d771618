package vssgen

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
	"github.com/CAU-CPSS/logument/internal/zzgen"
	"github.com/CAU-CPSS/logument/internal/zzos"
	"github.com/CAU-CPSS/logument/internal/zzrand"
	"github.com/CAU-CPSS/logument/internal/zztime"
	vf "github.com/CAU-CPSS/logument/internal/zzvf"
)

// zzReadDoc reads a saved document.
func zzReadDoc(file string) tson.Tson {
	b, err := zzos.ReadFile(file)
	vf.Assert(err == nil, "the document file is there")
	var t tson.Tson
	vf.Assert(tson.Unmarshal(b, &t) == nil, "the document file is TSON")
	return t
}

// zzReadPatch reads a saved patch.
func zzReadPatch(file string) tsonpatch.Patch {
	b, err := zzos.ReadFile(file)
	vf.Assert(err == nil, "the patch file is there")
	var p tsonpatch.Patch
	vf.Assert(json.Unmarshal(b, &p) == nil, "the patch file is a patch")
	return p
}

func zzSamePatch(a, b tsonpatch.Patch) bool {
	if len(a) != len(b) {
		return false
	}
	all := true
	for i := range a {
		all = vf.And(all, a[i].Op == b[i].Op && a[i].Path == b[i].Path)
		all = vf.And(all, a[i].Timestamp == b[i].Timestamp)
		all = vf.And(all, zzSame(a[i].Value, b[i].Value))
	}
	return all
}

func zzName() string { return vf.Pick("key", "A", "a/b", `q"t`, "x y", "é") }

func zzSaved(d zzMap) {
	zzos.MkdirAll("d", 0o755)
	vss := VssJson{initialized: true, data: d}
	vss.Save("d/1.tson")
	if vf.Choose("again", 2) == 1 { // saving over another document of the same size, or a longer one
		b, _ := zzos.ReadFile("d/1.tson")
		_, same := d["A"]
		old := make([]byte, len(b)+9)
		if same {
			old = old[:len(b)]
		}
		for i := range old {
			old[i] = '}'
		}
		zzos.Put("d/1.tson", old)
		vss.Save("d/1.tson")
	}
	vf.Assert(zzgen.Same(zzReadDoc("d/1.tson"), zzParse(d), true), "the saved document is the document")
	vf.Reach("saved")
}

// A saved document is the document: every kind of signal, at the top, in a branch and in an array.
func C26_doc() {
	switch vf.Choose("where", 3) {
	case 0:
		zzSaved(zzMap{"A": zzSignal("s")})
	case 1:
		zzSaved(zzMap{"B": zzMap{"c": zzSignal("s"), "d": zzLeaf(true, 4)}})
	case 2:
		zzSaved(zzMap{"R": []any{zzLeaf("x", 1), zzSignal("s")}})
	}
}

// Documents of every shape.
func C26_shape() {
	ts := int64(vf.Int("ts", 0, 1<<63-1))
	d := zzMap{}
	for i, n := 0, vf.Choose("n", vf.Param("n", 2, 3)); i < n; i++ {
		k := zzName()
		switch vf.Choose("kind", 5) {
		case 0:
			d[k] = zzLeaf(nil, ts)
		case 1:
			d[k] = zzMap{}
		case 2:
			d[k] = []any{}
		case 3:
			d[k] = []any{zzLeaf(1.5, ts), zzLeaf(false, 0)}
		case 4:
			d[k] = zzMap{zzName(): zzLeaf(vf.Bool("v"), ts)}
		}
	}
	zzSaved(d)
}

// A saved patch is the patch.
func C26_patch() {
	zzFewDraws()
	zzTicks()
	zzos.MkdirAll("d", 0o755)
	d := zzMap{}
	switch vf.Choose("what", 3) {
	case 0:
		d["A"] = zzSignal("s")
	case 1:
		name := zzName()
		d[name] = zzMap{zzName(): zzLeaf(vf.Bool("v"), 5)}
	case 2:
		d["A"] = zzLeaf(vf.Int("v", 0, 9), 7)
		d["R"] = zzMap{"r": []any{zzLeaf("x", 1), zzLeaf(true, 3)}}
	}
	vss := VssJson{initialized: true, data: d}
	next, patch := vss.GenerateNext(zzRate("c"), zzRate("m"), 1, 2)
	if _, deep := d["R"]; deep {
		zzos.Put("d/2.json", []byte(strings.Repeat("]", 500)))
	}
	patch.Save("d/2.json")
	p := zzReadPatch("d/2.json")
	vf.Assert(zzSamePatch(p, zzPatch(patch)), "the saved patch is the patch")
	if len(p) == 0 {
		vf.Reach("empty")
	} else {
		vf.Reach("ops")
	}
	got, err := tsonpatch.ApplyPatch(zzParse(d), p)
	vf.Assert(err == nil, "the saved patch applies")
	vf.Assert(zzgen.Same(got, zzParse(next.GetData()), true), "the document with the saved patch is the next document")
}

var zzTypes = []string{"boolean", "int8", "uint8", "int16", "int32", "uint16", "uint32", "float", "double", "string", "float[]", "string[]", "uint8[]"}

// zzSpecFile puts a specification with n signals of the types of the menu.
func zzSpecFile(n int, types []string) string {
	var sig []string
	names := []string{"Speed", "IsOpen", "Level"}
	for i := 0; i < n; i++ {
		extra := 0
		if i == 0 {
			extra = vf.Choose("extra", 3)
		}
		body := `"type":"attribute","datatype":"string","allowed":["LOW","HIGH"]`
		if extra != 2 {
			body = fmt.Sprintf(`"type":"sensor","uuid":"u%d","datatype":"%s"`, i, types[vf.Choose("datatype", len(types))])
		}
		if extra == 1 {
			body += `,"unit":"percent"`
		}
		s := fmt.Sprintf(`"%s":{%s}`, names[i], body)
		if i == 1 {
			s = fmt.Sprintf(`"Door":{"type":"branch","children":{%s}}`, s)
		}
		sig = append(sig, s)
	}
	zzos.Put("spec/vss.json", []byte(`{"Vehicle":{"type":"branch","description":"d","children":{`+strings.Join(sig, ",")+`}}}`))
	return "spec/vss.json"
}

// zzTicks is a clock that shows some nanosecond of a given second, later ones later.
func zzTicks() {
	s := int64(1700000000)
	zztime.Clock = func() (int64, int64) {
		s++
		return s, int64(vf.Int("clock", 0, 999999999))
	}
}

// zzFewFloats makes the draws from a few values; after the first ones they go round.
func zzFewFloats(ints, floats int) {
	vals := []float64{0.25, 0.987654321, 0}
	ni, nf := 0, 0
	zzrand.Draw = func(n int) int {
		ni++
		if ni <= ints {
			return []int{0, n - 1}[vf.Choose("draw", 2)]
		}
		return ni * 7 % n
	}
	zzrand.DrawFloat = func() float64 {
		nf++
		if nf <= floats {
			return vals[vf.Choose("float", vf.Param("floats", 2, 3))]
		}
		return vals[nf%3]
	}
}

func zzDataset(option zzMap, cars, files int) {
	PrepareOutputDir("out")
	SaveMetadata(option, "out")
	Generate(option, "out")

	b, err := zzos.ReadFile("out/metadata.json")
	vf.Assert(err == nil && json.Valid(b), "the options are saved as JSON")
	for c := 1; c <= cars; c++ {
		doc := zzReadDoc(fmt.Sprintf("out/car_%d/tson/%d_1.tson", c, c))
		vf.Assert(zzgen.Same(doc, zzReadDoc(fmt.Sprintf("out/car_%d/patches/%d_1.json", c, c)), true), "the first of the patches is the first document")
		for f := 2; f <= files; f++ {
			next := zzReadDoc(fmt.Sprintf("out/car_%d/tson/%d_%d.tson", c, c, f))
			p := zzReadPatch(fmt.Sprintf("out/car_%d/patches/%d_%d.json", c, c, f))
			got, err := tsonpatch.ApplyPatch(doc, p)
			vf.Assert(err == nil, "every patch of a car applies to the document before it")
			vf.Assert(zzgen.Same(got, next, true), "file n is file n-1 with patch n")
			doc = next
		}
	}
	vf.Reach("dataset")
}

func zzOptions(cars, files int) zzMap {
	o := zzMap{"dataset": zzSpecFile(vf.Param("signals", 1, 2), zzTypes), "cars": cars, "files": files, "change_rate": []float64{0.5, 0, 1}[vf.Choose("change", 3)], "size": 1.0}
	if vf.Choose("maintain", 2) == 1 {
		o["maintain_rate"] = 0.5
	}
	return o
}

// A dataset of one car: every file follows the one before it.
func C26_chain() {
	zzTicks()
	zzFewFloats(2, vf.Param("draws", 5, 7))
	files := vf.Param("chain", 3, 4)
	zzDataset(zzOptions(1, files), 1, files)
}

// Several cars; a dataset may hold what it held before.
func C26_cars() {
	zzTicks()
	zzFewFloats(2, vf.Param("car draws", 4, 6))
	if vf.Choose("again", 2) == 1 {
		zzos.Put("out/car_1/tson/1_1.tson", []byte("old"))
	}
	files := vf.Choose("files", vf.Param("files", 2, 3)+1)
	types := zzTypes
	if files > 1 {
		types = []string{"boolean", "uint8", "double", "string[]"}
	}
	o := zzMap{"dataset": zzSpecFile(1, types), "cars": 2, "files": files, "change_rate": []float64{1, 0}[vf.Choose("change", 2)], "size": 1.0}
	if files == 0 {
		files = 1
	}
	zzDataset(o, 2, files)
}

// More files, or more cars, than a digit counts.
func C26_many() {
	vf.SetOrder("ins")
	ticks := int64(1700000000)
	zztime.Clock = func() (int64, int64) {
		if ticks++; ticks%5 == 0 {
			return ticks, int64(vf.Int("clock", 0, 999999999))
		}
		return ticks, ticks * 7919 % 1000000000
	}
	zzFewFloats(0, 0)
	cars, files := 1, 12
	if vf.Choose("many cars", 2) == 1 {
		cars, files = 11, 2
	}
	zzos.Put("spec/vss.json", []byte(`{"Vehicle":{"type":"branch","children":{"Level":{"type":"sensor","datatype":"uint8"},"Open":{"type":"sensor","datatype":"boolean"},"Speed":{"type":"sensor","datatype":"double"},"Text":{"type":"attribute","datatype":"string[]"}}}}`))
	o := zzMap{"dataset": "spec/vss.json", "cars": cars, "files": files, "change_rate": []float64{1, 0.5}[vf.Choose("change", 2)], "size": 1.0}
	zzDataset(o, cars, files)
}
