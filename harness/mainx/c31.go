package main

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"strings"

	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
	"github.com/CAU-CPSS/logument/internal/zzgen"
	"github.com/CAU-CPSS/logument/internal/zzos"
	"github.com/CAU-CPSS/logument/internal/zzrand"
	"github.com/CAU-CPSS/logument/internal/zztime"
	vf "github.com/CAU-CPSS/logument/internal/zzvf"
)

// zzWriter keeps an answer.
type zzWriter struct {
	head http.Header
	code int
	body []byte
}

func (w *zzWriter) Header() http.Header { return w.head }
func (w *zzWriter) WriteHeader(c int) {
	if w.code == 0 {
		w.code = c
	}
}
func (w *zzWriter) Write(b []byte) (int, error) {
	if w.code == 0 {
		w.code = 200
	}
	w.body = append(w.body, b...)
	return len(b), nil
}

// zzAsk is a request of the page.
func zzAsk(h http.HandlerFunc, path, query string) *zzWriter {
	w := &zzWriter{head: http.Header{}}
	h(w, &http.Request{Method: "GET", URL: &url.URL{Path: path, RawQuery: query}})
	return w
}

var zzFiles = []string{
	"dataset/car_1/tson/1_1.tson", "dataset/car_1/tson/1_2.tson", "dataset/car_2/tson/2_1.tson",
	"dataset/car_1/patches/1_1.json", "dataset/car_1/patches/1_2.json", "dataset/car_2/patches/2_12.json", "dataset/car_2/patches/2_2.json",
}

var zzOthers = []string{"1.tson", "1.json", "_1.tson", "secret_1.tson", "secret.json", "dataset/secret.json", "dataset/secret_1.tson",
	"dataset/car_1/secret.json", "dataset/car_1/tson/secret_1.tson", "dataset/1.json", "dataset/car_1/1.json", "dataset/car_1/patches/1.json", "dataset/metadata.json", "dataset/1_1.tson"}

func zzTree() {
	for _, f := range zzFiles {
		zzos.Put(f, []byte("sent "+f))
	}
	for _, f := range zzOthers {
		zzos.Put(f, []byte("secret"))
	}
}

// zzWant is the answer to an update of a car's document or, if patch is not empty, one of its patches.
func zzWant(car, patch string) string {
	for _, f := range zzFiles {
		parts := strings.Split(f, "/")
		c := parts[1][4:]
		n := parts[3][2:]
		n = n[:strings.Index(n, ".")]
		if c != car {
			continue
		}
		if patch == "" && parts[2] == "tson" && n == "1" || patch != "" && parts[2] == "patches" && n == patch {
			return "sent " + f
		}
	}
	return ""
}

func zzUpdate(query, car, patch string) {
	w := zzAsk(updateHandler, "/update", query)
	want := zzWant(car, patch)
	if want == "" {
		vf.Assert(!strings.Contains(string(w.body), "sent") && !strings.Contains(string(w.body), "secret"), "no file is sent for a car or patch there is not")
		vf.Reach("nothing")
		return
	}
	vf.Assert(w.code == 200 && string(w.body) == want, "the file of the car is sent as it is")
	if patch == "" {
		vf.Reach("document")
	} else {
		vf.Reach("patch")
	}
}

// Every short car and patch, as they stand in a query.
func C31_update() {
	vf.SetOrder("ins")
	zzTree()
	letters := "012/.-x_ "
	car := vf.Str("car", vf.Choose("car.len", vf.Param("car", 3, 4)), letters)
	query := "car=" + strings.ReplaceAll(car, " ", "+")
	patch := ""
	if vf.Choose("haspatch", 2) == 1 {
		patch = vf.Str("patch", vf.Choose("patch.len", vf.Param("patch", 3, 4)), letters)
		p := "patch=" + strings.ReplaceAll(patch, " ", "%20")
		if vf.Choose("first", 2) == 1 {
			query = p + "&" + query
		} else {
			query += "&" + p
		}
	}
	zzUpdate(query, car, patch)
}

// Ways out of the dataset.
func C31_ways() {
	vf.SetOrder("ins")
	zzTree()
	s := vf.Str("way", vf.Choose("len", vf.Param("way", 8, 11)+1), "/.1")
	v := strings.ReplaceAll(s, "/", vf.Pick("slash", "/", "%2f"))
	if vf.Choose("what", 2) == 0 {
		zzUpdate("car="+v, s, "")
	} else {
		zzUpdate("car=1&patch="+v, "1", s)
	}
}

// Any query at all sends one file of the dataset or none.
func C31_query() {
	vf.SetOrder("ins")
	zzTree()
	q := vf.Pick("start", "", "car=", "car=1&patch=", "patch=2&car=") + vf.Str("q", vf.Choose("len", vf.Param("query", 4, 5)), "")
	w := zzAsk(updateHandler, "/update", q)
	body := string(w.body)
	one := true
	if strings.Contains(body, "secret") {
		one = false
	}
	if strings.Contains(body, "sent") {
		vf.Reach("sent")
		one = false
		for _, f := range zzFiles {
			if body == "sent "+f {
				one = true
			}
		}
	}
	vf.Assert(one, "only a file of the dataset is sent")
}

// zzCar puts a car of a document and patches, and returns its states.
func zzCar(car, n int) (states []tson.Value) {
	doc := tson.Value(tson.Object{
		"a": tson.Leaf[bool]{Value: vf.Bool("init.a"), Timestamp: int64(vf.Int("init.ts", 0, 9))},
		"b": tson.Object{"c": tson.Leaf[string]{Value: "x", Timestamp: 2}},
		"r": tson.Array{tson.Leaf[float64]{Value: 1.5, Timestamp: 3}},
	})
	text, err := tson.Marshal(doc)
	vf.Assert(err == nil, "the document has a text")
	zzos.Put(fmt.Sprintf("dataset/car_%d/tson/%d_1.tson", car, car), text)
	states = []tson.Value{doc}
	for k := 2; k < n+2; k++ {
		p := tsonpatch.Patch{}
		max := 2
		if k == 2 {
			max = 3
		}
		for i := vf.Choose("ops", max); i > 0; i-- {
			var v any = vf.Bool("v")
			path := vf.Pick("path", "/a", "/b/c", "/r/0", "/n")
			op := tsonpatch.OpType("replace")
			if _, has := zzgen.Lookup(doc, path); !has {
				op = "add"
			}
			if path == "/b/c" {
				v = "z"
			}
			o := tsonpatch.Operation{Op: op, Path: path, Value: v, Timestamp: int64(vf.Int("ts", 0, vf.Param("ts", 9, 99)))}
			parts, _ := zzgen.Segments(path)
			doc, _, _ = zzgen.Put(doc, parts, zzgen.MakeLeaf(v, o.Timestamp))
			p = append(p, o)
		}
		b, err := json.Marshal(p)
		vf.Assert(err == nil, "the patch has a text")
		zzos.Put(fmt.Sprintf("dataset/car_%d/patches/%d_%d.json", car, car, k), b)
		states = append(states, doc)
	}
	return
}

// zzApplied asks for the document after the patches up to the k-th file.
func zzApplied(query string, want tson.Value) {
	w := zzAsk(patchHandler, "/patch", query)
	vf.Assert(w.code == 200, "the document is sent")
	var got tson.Tson
	vf.Assert(tson.Unmarshal(w.body, &got) == nil, "a TSON document is sent")
	vf.Assert(zzgen.Same(got, want, true), "the document with the patches up to the one asked for is sent")
}

// The patched document is the first one with the patches up to the one asked for; with none it is the first one.
func C31_patch() {
	vf.SetOrder("ins")
	car := 1 + vf.Choose("car", 2)*11
	n := vf.Choose("files", vf.Param("files", 2, 3)+1)
	states := zzCar(car, n)
	k := vf.Choose("asked", n+2)
	want := states[0]
	if k > 1 {
		want = states[k-1]
		vf.Reach("patched")
	} else {
		vf.Reach("first")
	}
	q := fmt.Sprintf("car=%d&patch=%d", car, k)
	if k == 0 && vf.Choose("none", 2) == 1 {
		q = fmt.Sprintf("car=%d", car)
	}
	zzApplied(q, want)
	vf.SetOrder("rev")
	zzApplied(q, want)
}

// A car or patch there is not is answered, and not with a document.
func C31_missing() {
	vf.SetOrder("ins")
	zzos.Put("dataset/car_1/tson/1_1.tson", []byte(`{"a" <1>: true}`))
	zzos.Put("dataset/car_1/patches/1_2.json", []byte(`[]`))
	zzos.Put("dataset/car_1/patches/1_3.json", []byte(`[{"op":"replace","path":"/a","value":false,"timestamp":2}]`))
	q := vf.Pick("query", "", "car=2&patch=2", "car=1&patch=4", "car=1&patch=99", "patch=2", "car=x&patch=2", "car=-1&patch=1", "car=1/../car_1&patch=2", "car=2&patch=", "%")
	w := zzAsk(patchHandler, "/patch", q)
	vf.Assert(w.code >= 400, "a car or patch there is not is an error")
	vf.Reach("error")
}

// The demo's dataset is one its handlers serve: file n of a car is what the patches up to n make of file 1.
func C31_demo() {
	vf.SetOrder("ins")
	s := int64(1700000000)
	zztime.Clock = func() (int64, int64) { s++; return s, s * 7919 % 1000000000 }
	ni, nf := 0, 0
	zzrand.Draw = func(n int) int {
		ni++
		if ni <= 2 {
			return []int{0, n - 1}[vf.Choose("draw", 2)]
		}
		return ni * 7 % n
	}
	zzrand.DrawFloat = func() float64 {
		nf++
		if nf <= vf.Param("draws", 3, 5) {
			return []float64{0.25, 0, 0.987654321}[vf.Choose("float", 3)]
		}
		return []float64{0, 0.05, 0.3, 0.9}[nf*nf%4]
	}
	types := []string{"boolean", "uint8", "float", "string"}
	var sig []string
	for i := 0; i < 12; i++ {
		sig = append(sig, fmt.Sprintf(`"S%d":{"type":"sensor","uuid":"u%d","datatype":"%s"}`, i, i, types[i%len(types)]))
	}
	zzos.Put(defaultDataset, []byte(`{"Vehicle":{"type":"branch","description":"d","children":{`+strings.Join(sig, ",")+`}}}`))
	generateVss(false)
	for c := 1; c <= defaultCarCount; c++ {
		for k := 1; k <= defaultFileCount; k++ {
			w := zzAsk(updateHandler, "/update", fmt.Sprintf("car=%d&patch=%d", c, k))
			b, err := zzos.ReadFile(fmt.Sprintf("dataset/car_%d/patches/%d_%d.json", c, c, k))
			vf.Assert(err == nil && string(w.body) == string(b), "every patch of the dataset is served")
			var want tson.Tson
			b, err = zzos.ReadFile(fmt.Sprintf("dataset/car_%d/tson/%d_%d.tson", c, c, k))
			vf.Assert(err == nil && tson.Unmarshal(b, &want) == nil, "the dataset holds every state")
			if c == 1 || k >= defaultFileCount-1 {
				zzApplied(fmt.Sprintf("car=%d&patch=%d", c, k), want)
			}
		}
	}
	vf.Reach("demo")
}

// The page is served as it is.
func C31_page() {
	vf.SetOrder("ins")
	zzos.Put("index.html", []byte("<html>"))
	w := zzAsk(homeHandler, "/", "")
	vf.Assert(w.code == 200 && string(w.body) == "<html>" && w.head.Get("Content-Type") == "text/html", "the page is served")
	vf.Reach("page")
}

// More patches than a digit, or two, count.
func C31_many() {
	vf.SetOrder("ins")
	n := []int{12, 102}[vf.Choose("files", 2)]
	at := []int{5, n - 3, n - 1}[vf.Choose("symbolic at", 3)]
	doc := tson.Value(tson.Object{"a": tson.Leaf[bool]{Value: vf.Bool("a"), Timestamp: 1}, "r": tson.Array{tson.Leaf[float64]{Value: 1.5, Timestamp: 3}}})
	text, err := tson.Marshal(doc)
	vf.Assert(err == nil, "the document has a text")
	zzos.Put("dataset/car_3/tson/3_1.tson", text)
	states := []tson.Value{nil, doc}
	for k := 2; k <= n; k++ {
		var v any = float64(k)
		if k == at {
			v = vf.Bool("v")
		}
		o := tsonpatch.Operation{Op: "replace", Path: []string{"/a", "/r/0", "/a"}[k%3], Value: v, Timestamp: int64(1000 - k)}
		parts, _ := zzgen.Segments(o.Path)
		doc, _, _ = zzgen.Put(doc, parts, zzgen.MakeLeaf(v, o.Timestamp))
		b, err := json.Marshal(tsonpatch.Patch{o})
		vf.Assert(err == nil, "the patch has a text")
		zzos.Put(fmt.Sprintf("dataset/car_3/patches/3_%d.json", k), b)
		states = append(states, doc)
	}
	for _, k := range []int{1, 2, 9, 10, 11, n - 2, n - 1, n} {
		zzApplied(fmt.Sprintf("car=3&patch=%d", k), states[k])
	}
	vf.Reach("many")
}
