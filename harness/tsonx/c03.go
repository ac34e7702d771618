package tsonx

import (
	"encoding/json"
	"math"
	"strconv"
	"unicode/utf8"

	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/zzgen"
	vf "github.com/CAU-CPSS/logument/internal/zzvf"
)

// C03: what a text means.

func hexValue(c byte) uint32 {
	switch {
	case c <= '9':
		return uint32(c - '0')
	case c <= 'F':
		return uint32(c-'A') + 10
	}
	return uint32(c-'a') + 10
}

func hex4(h string) uint32 {
	return hexValue(h[0])<<12 | hexValue(h[1])<<8 | hexValue(h[2])<<4 | hexValue(h[3])
}

// piece is one unit of a JSON string: its text and the bytes it denotes.
func piece(name string, hex string) (text string, val []byte) {
	switch vf.Choose(name+".piece", 3) {
	case 0:
		c := vf.Str(name, 1, "")
		vf.Assume(vf.And(c[0] >= 0x20, vf.And(c[0] != '"', c[0] != '\\')))
		return c, []byte(c)
	case 1:
		c := vf.Str(name, 1, "\"\\/bfnrt")
		switch c[0] {
		case 'b':
			return "\\b", []byte{8}
		case 'f':
			return "\\f", []byte{12}
		case 'n':
			return "\\n", []byte{10}
		case 'r':
			return "\\r", []byte{13}
		case 't':
			return "\\t", []byte{9}
		}
		return "\\" + c, []byte(c)
	}
	h := vf.Str(name, 4, hex)
	r := hex4(h)
	vf.Assume(r < 0xd800 || r > 0xdfff)
	return "\\u" + h, encodeRune(r)
}

func encodeRune(r uint32) []byte {
	switch {
	case r < 0x80:
		return []byte{byte(r)}
	case r < 0x800:
		return []byte{byte(0xc0 | r>>6), byte(0x80 | r&63)}
	case r < 0x10000:
		return []byte{byte(0xe0 | r>>12), byte(0x80 | r>>6&63), byte(0x80 | r&63)}
	}
	return []byte{byte(0xf0 | r>>18), byte(0x80 | r>>12&63), byte(0x80 | r>>6&63), byte(0x80 | r&63)}
}

func parseLeaf(text string) (string, int64) {
	var d tson.Tson
	err := tson.Unmarshal([]byte(text), &d)
	vf.Assert(err == nil, "a legal text is rejected")
	l, ok := d.(tson.Leaf[string])
	vf.Assert(ok, "a string is not a string leaf")
	return l.Value, l.Timestamp
}

const allHex = "0123456789abcdefABCDEF"

// legal strings up to n units
func C03_strings() {
	n := vf.Choose("n", vf.Param("C03 string units", 2, 3)+1)
	text, val := "\"", []byte{}
	for i := 0; i < n; i++ {
		hex := allHex
		if n > 1 {
			hex = "02af" // one kind of digit keeps the number of paths down; C03_unit has them all
		}
		t, v := piece(string(rune('a'+i)), hex)
		text += t
		val = append(val, v...)
	}
	text += "\""
	got, ts := parseLeaf(text)
	vf.Assert(got == string(val), "a string has another value")
	vf.Assert(ts < 0, "a timestamp was invented")
	vf.Reach("string")
}

// surrogate pairs and lone surrogates
func C03_surrogates() {
	rest := allHex
	if vf.Param("C03 every hexadecimal digit of a pair", 0, 1) == 0 {
		rest = "0123456789"
	}
	h1 := vf.Str("h1a", 1, "dD") + vf.Str("h1b", 1, allHex) + vf.Str("h1c", 1, rest) + vf.Str("h1d", 1, rest)
	h2 := vf.Str("h2a", 1, allHex) + vf.Str("h2b", 1, allHex) + vf.Str("h2c", 1, rest) + vf.Str("h2d", 1, rest)
	a, b := hex4(h1), hex4(h2)
	vf.Assume(a >= 0xd800 && a <= 0xdfff)
	got, _ := parseLeaf("\"\\u" + h1 + "\\u" + h2 + "\"")
	var want string
	if a < 0xdc00 && b >= 0xdc00 && b <= 0xdfff {
		want = string(encodeRune(0x10000 + (a-0xd800)<<10 + (b - 0xdc00)))
		vf.Reach("pair")
	} else if b >= 0xd800 && b <= 0xdfff {
		want = "\xef\xbf\xbd\xef\xbf\xbd"
		vf.Reach("two lone halves")
	} else {
		want = "\xef\xbf\xbd" + string(encodeRune(b))
		vf.Reach("lone half")
	}
	vf.Assert(got == want, "a surrogate escape has another value")
}

// member names are strings like any other
func C03_names() {
	t, v := piece("a", vf.Pick("hex", "0123456789", "abcdef", "ABCDEF"))
	t2, v2 := piece("b", "02af")
	var d tson.Tson
	err := tson.Unmarshal([]byte("{\""+t+t2+"\" <4>: true}"), &d)
	vf.Assert(err == nil, "a legal member name is rejected")
	o, ok := d.(tson.Object)
	vf.Assert(ok && len(o) == 1, "not one member")
	l, has := o[string(v)+string(v2)].(tson.Leaf[bool])
	vf.Assert(has, "the member has another name")
	vf.Assert(l.Value && l.Timestamp == 4, "wrong leaf")
}

func digits(name string, n int, v uint64) (string, uint64) {
	s := vf.Str(name, n, "0123456789")
	for i := 0; i < n; i++ {
		v = v*10 + uint64(s[i]&15)
	}
	return s, v
}

// whole numbers beyond 64 bits, and zeros, keep value and sign
func C03_whole() {
	text, want := "", 0.0
	if n := vf.Choose("digits", 23); n > 0 {
		d := vf.Choose("first", 9) + 1
		text, want = string(rune('0'+d)), float64(d)
		z := 1.0
		for i := 1; i < n; i++ { // powers of ten up to 22 are exact
			text += "0"
			z *= 10
		}
		want *= z
	} else {
		text = "0"
	}
	text += vf.Pick("tail", "", ".0", "e0", "E+00")
	if vf.Choose("neg", 2) == 1 {
		text, want = "-"+text, math.Copysign(want, -1)
	}
	var d tson.Tson
	vf.Assert(tson.Unmarshal([]byte(vf.Pick("stamp", "", "<3> ")+text), &d) == nil, "a whole number is rejected")
	l, ok := d.(tson.Leaf[float64])
	vf.Assert(ok && l.Value == want && math.Signbit(l.Value) == math.Signbit(want), "a whole number is read differently")
	vf.Reach("read")
}

// numbers with fraction and exponent
func C03_numbers() {
	max := vf.Param("C03 digits", 3, 5)
	ni := 1 + vf.Choose("int", max)
	text, m := digits("i", ni, 0)
	if ni > 1 {
		vf.Assume(text[0] != '0')
	}
	e := 0
	if nf := vf.Choose("frac", max+1); nf > 0 {
		var f string
		f, m = digits("f", nf, m)
		text += "." + f
		e = -nf
	}
	if x := vf.Choose("exp", 7); x > 0 {
		text += []string{"e", "E", "e+", "E+", "e-", "E-"}[x-1]
		k := vf.Choose("k", 13)
		if vf.Choose("zero", 2) == 1 {
			text += "0"
		}
		if k > 9 {
			text += "1"
		}
		text += string(rune('0' + k%10))
		if x >= 5 {
			k = -k
		}
		e += k
	}
	want := float64(m)
	p := 1.0
	for i := 0; i < e || i < -e; i++ {
		p *= 10
	}
	if e > 0 {
		want *= p
	} else if e < 0 {
		want /= p
	}
	if vf.Choose("neg", 2) == 1 {
		text = "-" + text
		want = -want
	}
	form := vf.Choose("form", 4)
	var d tson.Tson
	var l tson.Leaf[float64]
	var ok bool
	switch form {
	case 0:
		vf.Assert(tson.Unmarshal([]byte(text), &d) == nil, "a legal number is rejected")
		l, ok = d.(tson.Leaf[float64])
		vf.Assert(l.Timestamp < 0, "a timestamp was invented")
	case 1:
		vf.Assert(tson.Unmarshal([]byte(text+" <8>"), &d) == nil, "a legal number is rejected")
		l, ok = d.(tson.Leaf[float64])
		vf.Assert(l.Timestamp == 8, "a timestamp was lost")
	case 2:
		vf.Assert(tson.Unmarshal([]byte("[<8> "+text+"]"), &d) == nil, "a legal number is rejected")
		a, _ := d.(tson.Array)
		vf.Assert(len(a) == 1, "not one element")
		l, ok = a[0].(tson.Leaf[float64])
		vf.Assert(l.Timestamp == 8, "a timestamp was lost")
	case 3:
		vf.Assert(tson.Unmarshal([]byte("{\"k\" <8>: "+text+"}"), &d) == nil, "a legal number is rejected")
		o, _ := d.(tson.Object)
		l, ok = o["k"].(tson.Leaf[float64])
		vf.Assert(l.Timestamp == 8, "a timestamp was lost")
	}
	vf.Assert(ok, "a number is not a number leaf")
	vf.Assert(l.Value == want, "a number has another value")
}

// stamp is the text of a timestamp and what it means.
func stamp(name string) (string, int64) {
	switch n := vf.Choose(name+".stamp", 5); n {
	case 0:
		return "<>", -1
	case 4:
		ts := vf.Pick(name, "9223372036854775807", "1700000000123456789", "9007199254740993")
		switch ts[1] {
		case '2':
			return "<" + ts + ">", 9223372036854775807
		case '7':
			return "<" + ts + ">", 1700000000123456789
		}
		return "<" + ts + ">", 9007199254740993
	default:
		s, v := digits(name, n, 0)
		return "<" + s + ">", int64(v)
	}
}

func primitive(name string, ts int64) (string, tson.Value) {
	switch vf.Choose(name+".prim", 4) {
	case 0:
		return "\"v\"", tson.Leaf[string]{Value: "v", Timestamp: ts}
	case 1:
		return "-1.5", tson.Leaf[float64]{Value: -1.5, Timestamp: ts}
	case 2:
		return "true", tson.Leaf[bool]{Value: true, Timestamp: ts}
	}
	return "false", tson.Leaf[bool]{Value: false, Timestamp: ts}
}

func ws(name string) string {
	return vf.Str(name, vf.Choose(name+".ws", 2), " \t\r\n")
}

// timestamps in every place, with white space between the tokens
func C03_layout() {
	st, ts := stamp("t")
	text, leaf := primitive("p", ts)
	var want tson.Value
	switch vf.Choose("place", 6) {
	case 0:
		text = ws("1") + text + ws("2") + st + ws("3")
		want = leaf
	case 1:
		text = ws("1") + st + ws("2") + text + ws("3")
		want = leaf
	case 2:
		text = "{" + ws("1") + "\"k\"" + ws("2") + st + ws("3") + ":" + ws("4") + text + ws("5") + "}"
		want = tson.Object{"k": leaf}
	case 3:
		text = "[" + ws("1") + st + ws("2") + text + ws("3") + "]"
		want = tson.Array{leaf}
	case 4:
		text = "{\"k\"" + st + ":" + text + ws("1") + "," + ws("2") + "\"l\"<7>:null" + ws("3") + ",\"m\":[]}"
		want = tson.Object{"k": leaf, "l": nil, "m": tson.Array{}}
	case 5:
		text = "[" + "{}" + ws("1") + "," + ws("2") + st + text + ws("3") + "," + ws("4") + "{\"x\":[" + st + text + "]}]"
		want = tson.Array{tson.Object{}, leaf, tson.Object{"x": tson.Array{leaf}}}
	}
	var d tson.Tson
	err := tson.Unmarshal([]byte(text), &d)
	vf.Assert(err == nil, "a legal text is rejected")
	vf.SetOrder("ins")
	vf.Assert(zzgen.SameText(want, d), "a text means another document")
}

// every timestamp value that fits, in decimal
func C03_timestamp() {
	ts := vf.Int64("ts")
	vf.Assume(ts >= 0)
	got, gts := parseLeaf("<" + strconv.FormatInt(ts, 10) + "> \"x\"")
	vf.Assert(got == "x" && gts == ts, "a timestamp is read differently")
}

// timestamps that do not fit or are not numbers are errors, not another time
func C03_badstamp() {
	s := vf.Pick("s", "<9223372036854775808>", "<-1>", "<1.5>", "<x>", "<1", "<99999999999999999999>", "< >", "<1>>")
	var d tson.Tson
	var text string
	switch vf.Choose("place", 3) {
	case 0:
		text = "{\"k\" " + s + ": 1}"
	case 1:
		text = "[" + s + " 1]"
	case 2:
		text = "1 " + s
	}
	vf.Assert(tson.Unmarshal([]byte(text), &d) != nil, "an illegal timestamp is accepted")
}

// sameJson compares a plain document with what the standard decoder gives.
func sameJson(d tson.Value, j any) bool {
	switch x := j.(type) {
	case nil:
		return d == nil
	case string:
		l, ok := d.(tson.Leaf[string])
		if !ok || len(l.Value) != len(x) {
			return false
		}
		return vf.And(l.Timestamp < 0, l.Value == x)
	case float64:
		l, ok := d.(tson.Leaf[float64])
		if !ok {
			return false
		}
		return vf.And(l.Timestamp < 0, l.Value == x)
	case bool:
		l, ok := d.(tson.Leaf[bool])
		return ok && l.Timestamp < 0 && l.Value == x
	case []any:
		a, ok := d.(tson.Array)
		if !ok || len(a) != len(x) {
			return false
		}
		r := true
		for i := range x {
			r = vf.And(r, sameJson(a[i], x[i]))
		}
		return r
	case map[string]any:
		o, ok := d.(tson.Object)
		if !ok || len(o) != len(x) {
			return false
		}
		r := true
		for k, c := range x {
			m, has := o[k]
			if !has {
				return false
			}
			r = vf.And(r, sameJson(m, c))
		}
		return r
	}
	return false
}

func plainJson(text string) {
	if !utf8.ValidString(text) {
		return // not JSON; the standard decoder replaces the bytes
	}
	var j any
	if json.Unmarshal([]byte(text), &j) != nil {
		vf.Reach("not JSON")
		return
	}
	vf.Reach("JSON")
	var d tson.Tson
	vf.Assert(tson.Unmarshal([]byte(text), &d) == nil, "a JSON text is rejected")
	vf.SetOrder("ins")
	vf.Assert(sameJson(d, j), "a JSON text has other values")
}

// plain JSON of any bytes
func C03_json() {
	plainJson(vf.Str("s", 1+vf.Choose("len", vf.Param("C03 JSON length", 3, 4)), ""))
}

// plain JSON over the characters of the grammar
func C03_jsontokens() {
	plainJson(vf.Str("s", 1+vf.Choose("len", vf.Param("C03 JSON token length", 5, 7)), "{}[],:\"\\-.e01u "))
}

var jsonSeeds = []string{
	`{"a":{"b":[1,true,"x"]},"c":null}`,
	`[0,-0.5e+1,"\u00e9\n",{}]`,
	`{"value":1,"timestamp":2}`,
	`"\ud83d\ude00"`,
}

// valid JSON with one byte replaced
func C03_jsonreplace() {
	b := []byte(jsonSeeds[vf.Choose("seed", len(jsonSeeds))])
	b[vf.Choose("pos", len(b))] = vf.Byte("x")
	plainJson(string(b))
}
