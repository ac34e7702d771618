package patchx

import (
	"strconv"
	"strings"

	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
	vf "github.com/CAU-CPSS/logument/internal/zzvf"
)

// Huge documents: longer, wider and deeper than any limit or index type of small size.

func hugeArray(n int) tson.Array {
	arr := make(tson.Array, n)
	for i := range arr {
		arr[i] = tson.Leaf[bool]{Timestamp: int64(i & 1)}
	}
	return arr
}

func C09_huge() {
	vf.SetOrder("ins")
	n := vf.Param("huge", 300, 1100)
	var d tson.Value
	var p string
	switch vf.Choose("what", 3) {
	case 0:
		d = tson.Object{"a": hugeArray(n)}
		p = "/a/" + strconv.Itoa([]int{127, 128, 255, 256, n - 1, n, n + 1, n + 500}[vf.Choose("at", 8)])
	case 1:
		d = tson.Object{strings.Repeat("n", n): leaf(1), "m": leaf(2)}
		p = "/" + strings.Repeat("n", n)
	case 2:
		d = tson.Object{"x": leaf(3), "y": tson.Array{leaf(4)}}
		for i := 0; i < n/3; i++ {
			if i%2 == 0 {
				d, p = tson.Object{"d": d}, "/d"+p
			} else {
				d, p = tson.Array{d}, "/0"+p
			}
		}
		p += vf.Pick("leaf", "/x", "/y/0", "/z", "/y/1", "/x/x")
	}
	checkOp(d, tsonpatch.Operation{Op: kind(), Path: p, Value: vf.Bool("v"), Timestamp: vf.Int64("ts")})
}

func genHuge(what int) {
	vf.SetOrder("ins")
	n := vf.Param("diff huge", 300, 600)
	var a, b tson.Value
	switch vf.Choose("what", 3) {
	case 0: // arrays that differ in one element, and maybe in length
		x := hugeArray(n)
		m := []int{n, n - 1, n - 40, 1}[vf.Choose("length", 4)]
		y := hugeArray(m)
		if m > 1 {
			y[[]int{127, 128, 255, m - 1}[vf.Choose("at", 4)]] = tson.Leaf[bool]{Value: vf.Bool("v"), Timestamp: vf.Int64("ts")}
		}
		a, b = x, y
		if vf.Choose("swap", 2) == 1 {
			a, b = y, x
		}
	case 1: // objects
		x, y := tson.Object{}, tson.Object{}
		at := vf.Choose("at", 3) * n / 3
		for i := 0; i < n; i++ {
			l := tson.Leaf[bool]{Timestamp: int64(i & 1)}
			k := "m" + strconv.Itoa(i)
			x[k], y[k] = l, l
			if i == at {
				y[k] = tson.Leaf[bool]{Value: vf.Bool("v"), Timestamp: vf.Int64("ts")}
			}
			if i == at+1 {
				delete(y, k)
			}
		}
		a, b = x, y
	case 2: // deep, under a long name
		name := strings.Repeat("n", n)
		a, b = tson.Object{name: leaf(1)}, tson.Object{name: tson.Leaf[bool]{Value: vf.Bool("v"), Timestamp: vf.Int64("ts")}, name + "n": leaf(2)}
		for i := 0; i < n/3; i++ {
			if i%2 == 0 {
				a, b = tson.Object{"d": a}, tson.Object{"d": b}
			} else {
				a, b = tson.Array{a}, tson.Array{b}
			}
		}
	}
	checkDiff(a, b, what)
}

func C10_huge() { genHuge(values) }
func C11_huge() { genHuge(stamps) }
func C12_huge() { genHuge(minimal) }
