package tsonx

import (
	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/zzgen"
	vf "github.com/CAU-CPSS/logument/internal/zzvf"
)

// C02: the parser never crashes, and what it accepts survives another round.

func parseAny(text []byte) bool {
	var d tson.Tson
	if tson.Unmarshal(text, &d) != nil {
		vf.Reach("rejected")
		return false
	}
	vf.Reach("accepted")
	again, err := tson.Marshal(d)
	vf.Assert(err == nil, "a parsed document cannot be serialised")
	var e tson.Tson
	vf.Assert(tson.Unmarshal(again, &e) == nil, "a parsed document's text is rejected")
	vf.SetOrder("ins")
	vf.Assert(zzgen.SameText(d, e), "a parsed document changes when written and read again")
	return true
}

// any byte sequence
func C02_bytes() {
	n := vf.Choose("len", vf.Param("C02 length", 4, 5)+1)
	parseAny([]byte(vf.Str("s", n, "")))
}

// longer sequences over the characters that matter to the grammar
func C02_tokens() {
	n := 1 + vf.Choose("len", vf.Param("C02 token length", 6, 8))
	parseAny([]byte(vf.Str("s", n, "{}[],:<>\"\\-.e01 tn")))
}

var seeds = []string{
	`{"a" <12>: "x"}`,
	`{"a": [<1> 2, <> "b"], "c" <>: true}`,
	`[<3> -1.5e2, {"k": null}]`,
	`"a\u00e9\n" <7>`,
	`<5> false`,
	`{"o": {"p" <0>: 0}}`,
	`12.75 <9223372036854775807>`,
	`["\ud83d\ude00", "\x80\U0001f600"]`,
}

// valid documents with one byte replaced, in every position
func C02_replace() {
	i := vf.Choose("seed", len(seeds))
	b := []byte(seeds[i])
	b[vf.Choose("pos", len(b))] = vf.Byte("x")
	parseAny(b)
}

// two neighbouring bytes replaced
func C02_replace2() {
	if vf.Param("C02 replaced bytes", 1, 2) < 2 {
		return
	}
	i := vf.Choose("seed", len(seeds))
	b := []byte(seeds[i])
	p := vf.Choose("pos", len(b)-1)
	b[p], b[p+1] = vf.Byte("x"), vf.Byte("y")
	parseAny(b)
}

// one byte inserted, one removed, the text cut short
func C02_edit() {
	s := seeds[vf.Choose("seed", len(seeds))]
	p := vf.Choose("pos", len(s)+1)
	switch vf.Choose("edit", 3) {
	case 0:
		parseAny([]byte(s[:p] + vf.Str("x", 1, "") + s[p:]))
	case 1:
		if p < len(s) {
			parseAny([]byte(s[:p] + s[p+1:]))
		}
	case 2:
		parseAny([]byte(s[:p]))
	}
}

// nothing but white space may follow a document
func C02_trailing() {
	s := seeds[vf.Choose("seed", len(seeds))]
	n := vf.Choose("space", 3)
	tail := vf.Str("ws", n, " \t\r\n") + vf.Str("x", 1, "") + vf.Str("rest", vf.Choose("rest", 2), "")
	var d tson.Tson
	err := tson.Unmarshal([]byte(s+tail), &d)
	c := tail[n]
	blank := c == ' ' || c == '\t' || c == '\r' || c == '\n'
	if !blank && c != '<' && !(c >= '0' && c <= '9') && c != '.' && c != 'e' && c != 'E' {
		vf.Assert(err != nil, "text after the document is accepted")
		vf.Reach("trailing")
	}
	if blank && len(tail) == n+1 {
		vf.Assert(err == nil, "white space after the document is rejected")
		vf.Reach("space")
	}
}
