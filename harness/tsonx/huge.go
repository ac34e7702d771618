package tsonx

import (
	"strconv"
	"strings"

	"github.com/CAU-CPSS/logument/internal/tson"
	vf "github.com/CAU-CPSS/logument/internal/zzvf"
)

// Huge documents: longer, wider and deeper than any limit or index type of small size, with one symbolic leaf at the far end.

func hugeLeaf() tson.Value {
	return tson.Leaf[bool]{Value: vf.Bool("far"), Timestamp: int64(vf.Int("far.ts", -1, 99))}
}

// hugeDoc chooses a document; the function makes it, with l in it, and tells where.
func hugeDoc() func(l tson.Value) (d tson.Value, path string) {
	n := vf.Param("huge", 300, 1100)
	k, at, end := vf.Choose("huge.what", 6), 0, ""
	switch k {
	case 0:
		at = []int{0, 127, 128, 255, 256, n - 1}[vf.Choose("huge.at", 6)]
	case 3:
		end = vf.Str("huge.end", 1, "ab\"\\")
	}
	return func(l tson.Value) (d tson.Value, path string) {
		switch k {
		case 0: // many elements
			arr := make(tson.Array, n)
			for i := range arr {
				arr[i] = tson.Leaf[bool]{Timestamp: int64(i & 1)}
			}
			arr[at] = l
			return arr, "/" + strconv.Itoa(at)
		case 1: // many members
			obj := tson.Object{}
			for i := 0; i < n; i++ {
				obj["m"+strconv.Itoa(i)] = tson.Leaf[bool]{Timestamp: int64(i & 1)}
			}
			obj["m"+strconv.Itoa(n/2)] = l
			return obj, "/m" + strconv.Itoa(n/2)
		case 2: // a long name
			name := strings.Repeat("n", n)
			return tson.Object{name: l, name[1:]: tson.Leaf[bool]{}}, "/" + name
		case 3: // a long string
			s := strings.Repeat("lo\n", n/2) + end
			return tson.Array{tson.Leaf[string]{Value: s, Timestamp: 5}, l}, "/1"
		}
		for i := 0; i < n/3; i++ { // deep
			if k == 4 {
				d, path = tson.Object{"d": l}, "/d"+path
			} else {
				d, path = tson.Array{l}, "/0"+path
			}
			l = d
		}
		return d, path
	}
}

func C01_huge() {
	vf.SetOrder("ins")
	d, _ := hugeDoc()(hugeLeaf())
	textTrip(d)
}

func C04_huge() {
	vf.SetOrder("ins")
	d, _ := hugeDoc()(hugeLeaf())
	compatTrip(d)
}

func C05_huge() {
	vf.SetOrder("ins")
	mk := hugeDoc()
	a, _ := mk(hugeLeaf())
	b, _ := mk(tson.Leaf[bool]{Value: vf.Bool("other"), Timestamp: vf.Int64("other.ts")})
	checkEqual(a, b)
}

func C06_huge() {
	vf.SetOrder("ins")
	d, _ := hugeDoc()(hugeLeaf())
	export(d)
}

func C07_huge() {
	vf.SetOrder("ins")
	d, p := hugeDoc()(hugeLeaf())
	lookup(d, p)
}

func C08_huge() {
	vf.SetOrder("ins")
	d, _ := hugeDoc()(hugeLeaf())
	checkLatest(d)
}
