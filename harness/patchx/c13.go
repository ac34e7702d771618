package patchx

import (
	"encoding/json"
	"unicode/utf8"

	"github.com/CAU-CPSS/logument/internal/tsonpatch"
	"github.com/CAU-CPSS/logument/internal/zzgen"
	vf "github.com/CAU-CPSS/logument/internal/zzvf"
)

// C13: the wire form.

func sameOp(a, b tsonpatch.Operation) bool {
	if a.Op != b.Op || len(a.Path) != len(b.Path) {
		return false
	}
	return vf.And(a.Path == b.Path, vf.And(a.Timestamp == b.Timestamp, zzgen.SameAny(a.Value, b.Value)))
}

func wire(p tsonpatch.Patch) {
	var text []byte
	var err error
	switch vf.Choose("form", 5) {
	case 0: // each operation by hand
		text = []byte("[")
		for i := range p {
			if i > 0 {
				text = append(text, ',')
			}
			b, err := p[i].Marshal()
			vf.Assert(err == nil, "an operation cannot be serialised")
			text = append(text, b...)
		}
		text = append(text, ']')
	case 1:
		text = []byte("[")
		for i := range p {
			if i > 0 {
				text = append(text, ',')
			}
			text = append(text, p[i].String()...)
		}
		text = append(text, ']')
	case 2:
		text = []byte(p.String())
	case 3:
		text, err = json.Marshal(p)
	case 4:
		text, err = json.MarshalIndent(p, "", "  ")
	}
	vf.Assert(err == nil, "a patch cannot be serialised")
	q, err := tsonpatch.Unmarshal(text)
	vf.Assert(err == nil, "a serialised patch cannot be read")
	vf.Assert(len(q) == len(p), "a serialised patch has another length")
	for i := range p {
		vf.Assert(sameOp(p[i], q[i]), "an operation changes on the wire")
	}
	vf.Reach("round trip")
}

func anyKind() tsonpatch.OpType {
	return tsonpatch.OpType(vf.Pick("op", "add", "remove", "replace", "move", "copy", "test"))
}

func str(name string, n int) string {
	s := vf.Str(name, vf.Choose(name+".len", n+1), "")
	vf.Assume(utf8.ValidString(s))
	return s
}

func C13_paths() {
	wire(tsonpatch.Patch{{Op: tsonpatch.OpReplace, Path: "/" + str("p", vf.Param("C13 path length", 2, 3)), Value: true, Timestamp: 3}})
}

func C13_strings() {
	wire(tsonpatch.Patch{{Op: tsonpatch.OpAdd, Path: "/a", Value: str("v", vf.Param("C13 string length", 2, 3)), Timestamp: 3}})
}

func C13_numbers() {
	f := vf.Float64("f")
	wire(tsonpatch.Patch{{Op: tsonpatch.OpAdd, Path: "/a", Value: f, Timestamp: 3}})
}

func C13_timestamps() {
	op := tsonpatch.Operation{Op: anyKind(), Path: "/a", Timestamp: vf.Int64("ts")}
	if op.Op != tsonpatch.OpRemove {
		op.Value = vf.Bool("b")
	}
	wire(tsonpatch.Patch{op})
}

func C13_patches() {
	var p tsonpatch.Patch
	for i, n := 0, vf.Choose("n", vf.Param("C13 operations", 3, 4)+1); i < n; i++ {
		op := tsonpatch.NewOperation(tsonpatch.OpType(vf.Pick("op", "add", "remove", "replace")), "/a~1b\"\\", nil, int64(1000-i))
		switch vf.Choose("v", 3) {
		case 0:
			op.Value = vf.Bool("b")
		case 1:
			op.Value = "\n<x>"
		}
		p = append(p, op)
	}
	if p == nil {
		p = tsonpatch.Patch{}
	}
	wire(p)
}

// FromJson reads the decoded form
func C13_fromjson() {
	p := tsonpatch.Patch{{Op: anyKind(), Path: "/" + str("p", 1), Value: str("v", 1), Timestamp: vf.Int64("ts")}}
	q, err := tsonpatch.FromJson(p)
	vf.Assert(err == nil && len(q) == 1, "a patch cannot be read from its JSON value")
	vf.Assert(sameOp(p[0], q[0]), "an operation changes on the wire")
}

// malformed texts are errors
func C13_malformed() {
	text := vf.Str("s", 1+vf.Choose("len", vf.Param("C13 token length", 4, 5)), "[]{},:\"o1 ")
	q, err := tsonpatch.Unmarshal([]byte(text))
	if err == nil {
		vf.Reach("accepted")
		var j any
		vf.Assert(json.Unmarshal([]byte(text), &j) == nil, "a malformed patch is accepted")
	}
	_ = q
}

// patches of many operations
func C13_many() {
	vf.SetOrder("ins")
	var p tsonpatch.Patch
	n := vf.Param("C13 many", 15, 40)
	at := vf.Choose("at", n)
	for i := 0; i < n; i++ {
		op := tsonpatch.Operation{Op: tsonpatch.OpAdd, Path: "/a/" + string(rune('0'+i%10)), Value: float64(i), Timestamp: int64(1000 - i)}
		switch i % 4 {
		case 1:
			op.Value = "<x>\n"
		case 2:
			op.Op, op.Value = tsonpatch.OpRemove, nil
		case 3:
			op.Op, op.Value = tsonpatch.OpReplace, i%8 == 3
		}
		if i == at {
			op.Timestamp = vf.Int64("ts")
		}
		p = append(p, op)
	}
	wire(p)
}
