From f072cfe402a3fc0ddb838956e851ca8fae289c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:26 +0000
Subject: [PATCH 01/59] fix: GetValue follows RFC 6901 (empty path, escaped
 slashes, strict indices)

---
 internal/tson/tson.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index d41dc9a..500894e 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -68,7 +68,7 @@ func GetValue(t Tson, path string) (v Value, err error) {
 				}
 			} else if arr, ok := t.(Array); ok { // If Array, return the value of the index
 				index, err := strconv.Atoi(parts[0])
-				if err != nil {
+				if err != nil || strconv.Itoa(index) != parts[0] {
 					return nil, fmt.Errorf("invalid index: %s", parts[0])
 				}
 				if index < 0 || index >= len(arr) {
@@ -88,7 +88,7 @@ func GetValue(t Tson, path string) (v Value, err error) {
 			}
 		} else if arr, ok := t.(Array); ok { // If Array, call getValue recursively using the index
 			index, err := strconv.Atoi(parts[0])
-			if err != nil {
+			if err != nil || strconv.Itoa(index) != parts[0] {
 				return nil, fmt.Errorf("invalid index: %s", parts[0])
 			}
 			if index < 0 || index >= len(arr) {
@@ -100,9 +100,19 @@ func GetValue(t Tson, path string) (v Value, err error) {
 		}
 	}
 
+	if path == "" { // the empty path denotes the whole document
+		return t, nil
+	}
+	if path[0] != '/' {
+		return nil, fmt.Errorf("invalid path: %s", path)
+	}
+
+	// Split first: an escaped slash (~1) is part of a key, not a separator.
 	rfc6901Decoder := strings.NewReplacer("~1", "/", "~0", "~")
-	path = rfc6901Decoder.Replace(path)
 	parts := strings.Split(path, "/")[1:]
+	for i := range parts {
+		parts[i] = rfc6901Decoder.Replace(parts[i])
+	}
 
 	return getValue(t, parts)
 }
-- 
2.43.0


From f721d2f2ad0bd4ba556d55806020d42f0dca4382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 02/59] fix: compare TSON documents structurally (exact
 timestamps, any string)

---
 internal/tson/tson.go | 70 ++++++++++++++++++++++++++-----------------
 1 file changed, 42 insertions(+), 28 deletions(-)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index 500894e..d39bc03 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -15,7 +15,6 @@ package tson
 import (
 	"encoding/json"
 	"fmt"
-	"reflect"
 	"sort"
 	"strconv"
 	"strings"
@@ -119,39 +118,54 @@ func GetValue(t Tson, path string) (v Value, err error) {
 
 // Equal checks if two TSONs are equal, including timestamps.
 func Equal(t1, t2 Tson) (ret bool, err error) {
-	var (
-		o1, o2 any
-		b1, _  = ToCompatibleTsonBytes(t1)
-		b2, _  = ToCompatibleTsonBytes(t2)
-	)
-
-	// Check if the given TSONs are valid
-	if err = json.Unmarshal(b1, &o1); err != nil {
-		return false, err
-	}
-	if err = json.Unmarshal(b2, &o2); err != nil {
-		return false, err
-	}
-	return reflect.DeepEqual(o1, o2), nil
+	return equal(t1, t2, true), nil
 }
 
 // EqualWithoutTimestamp checks if two TSONs are equal, excluding timestamps.
 func EqualWithoutTimestamp(t1, t2 Tson) (ret bool, err error) {
-	var (
-		o1, o2 any
-		j1, _  = ToJsonBytes(t1)
-		j2, _  = ToJsonBytes(t2)
-	)
+	return equal(t1, t2, false), nil
+}
 
-	// Check if the given TSONs (and converted JSONs) are valid
-	if err = json.Unmarshal(j1, &o1); err != nil {
-		return false, err
-	}
-	if err = json.Unmarshal(j2, &o2); err != nil {
-		return false, err
+// equal compares two TSONs structurally.
+func equal(t1, t2 Tson, withTimestamp bool) bool {
+	switch v1 := t1.(type) {
+	case nil:
+		return t2 == nil
+	case Leaf[string]:
+		v2, ok := t2.(Leaf[string])
+		return ok && v1.Value == v2.Value && (!withTimestamp || v1.Timestamp == v2.Timestamp)
+	case Leaf[float64]:
+		v2, ok := t2.(Leaf[float64])
+		return ok && v1.Value == v2.Value && (!withTimestamp || v1.Timestamp == v2.Timestamp)
+	case Leaf[bool]:
+		v2, ok := t2.(Leaf[bool])
+		return ok && v1.Value == v2.Value && (!withTimestamp || v1.Timestamp == v2.Timestamp)
+	case Object:
+		v2, ok := t2.(Object)
+		if !ok || len(v1) != len(v2) {
+			return false
+		}
+		for key, child := range v1 {
+			other, ok := v2[key]
+			if !ok || !equal(child, other, withTimestamp) {
+				return false
+			}
+		}
+		return true
+	case Array:
+		v2, ok := t2.(Array)
+		if !ok || len(v1) != len(v2) {
+			return false
+		}
+		for i, child := range v1 {
+			if !equal(child, v2[i], withTimestamp) {
+				return false
+			}
+		}
+		return true
+	default:
+		return false
 	}
-
-	return reflect.DeepEqual(o1, o2), nil
 }
 
 // GetLatestTimestamp returns the latest timestamp of the given TSON.
-- 
2.43.0


From ac82742fe0d4f7eb035db9b04bd4f38bd190d342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:25 +0000
Subject: [PATCH 03/59] fix: null members have no timestamp and no leaf

---
 internal/tson/tson.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index d39bc03..54e02b2 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -195,6 +195,8 @@ func GetLatestTimestamp(t Tson) int64 {
 			}
 		}
 		return max
+	case nil: // null has no timestamp
+		return 0
 	default:
 		panic(fmt.Sprintf("GetTimestamp: invalid type %T for TSON", t))
 	}
@@ -552,6 +554,9 @@ func toSortedInterface(t Tson) (any, error) {
 		}
 		return arr, nil
 
+	case nil:
+		return nil, nil
+
 	default:
 		return nil, fmt.Errorf("unexpected type in toSortedInterface: %T", t)
 	}
-- 
2.43.0


From 4f1ef76cc9c13b023d8db3d25db1b4c5ab97249b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:27 +0000
Subject: [PATCH 04/59] fix: FromCompatibleTsonBytes keeps 64-bit timestamps
 and null, and reports bad data

---
 internal/tson/tson.go | 58 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 14 deletions(-)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index 54e02b2..3947fb5 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -13,6 +13,7 @@
 package tson
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"sort"
@@ -240,35 +241,46 @@ func ToCompatibleTsonBytes(t Tson) (j []byte, err error) {
 // FromCompatibleTsonBytes converts a JSON byte array (with leaf nodes as { "value": ..., "timestamp": ... })
 // into a Tson object.
 func FromCompatibleTsonBytes(data []byte, t *Tson) error {
-	var convert func(v any) Value
-	convert = func(v any) Value {
+	var convert func(v any) (Value, error)
+	convert = func(v any) (Value, error) {
 		switch t := v.(type) {
+		case nil:
+			return nil, nil
 		case map[string]any:
 			if isLeaf, leafVal, ts := checkLeaf(t); isLeaf {
-				switch leafVal.(type) {
+				switch val := leafVal.(type) {
 				case string:
-					return Leaf[string]{Value: leafVal.(string), Timestamp: ts}
-				case float64:
-					return Leaf[float64]{Value: leafVal.(float64), Timestamp: ts}
+					return Leaf[string]{Value: val, Timestamp: ts}, nil
+				case json.Number:
+					num, err := val.Float64()
+					return Leaf[float64]{Value: num, Timestamp: ts}, err
 				case bool:
-					return Leaf[bool]{Value: leafVal.(bool), Timestamp: ts}
+					return Leaf[bool]{Value: val, Timestamp: ts}, nil
 				default:
-					return nil // NOT supported
+					return nil, nil // NOT supported
 				}
 			}
 			obj := Object{}
 			for key, val := range t {
-				obj[key] = convert(val)
+				child, err := convert(val)
+				if err != nil {
+					return nil, err
+				}
+				obj[key] = child
 			}
-			return obj
+			return obj, nil
 		case []any:
 			arr := Array{}
 			for _, elem := range t {
-				arr = append(arr, convert(elem))
+				child, err := convert(elem)
+				if err != nil {
+					return nil, err
+				}
+				arr = append(arr, child)
 			}
-			return arr
+			return arr, nil
 		default:
-			panic("FromCompatibleTsonBytes: Not a compatible TSON data")
+			return nil, fmt.Errorf("FromCompatibleTsonBytes: Not a compatible TSON data")
 		}
 	}
 
@@ -276,7 +288,18 @@ func FromCompatibleTsonBytes(data []byte, t *Tson) error {
 	if err := json.Unmarshal(data, &intermediate); err != nil {
 		return err
 	}
-	*t = convert(intermediate)
+	// Decode the numbers again without going through float64, which rounds timestamps.
+	dec := json.NewDecoder(bytes.NewReader(data))
+	dec.UseNumber()
+	intermediate = nil
+	if err := dec.Decode(&intermediate); err != nil {
+		return err
+	}
+	v, err := convert(intermediate)
+	if err != nil {
+		return err
+	}
+	*t = v
 	return nil
 }
 
@@ -498,6 +521,13 @@ func checkLeaf(m map[string]any) (bool, any, int64) {
 				return true, val, int64(t)
 			case int64:
 				return true, val, t
+			case json.Number:
+				if ts, err := t.Int64(); err == nil {
+					return true, val, ts
+				}
+				if ts, err := t.Float64(); err == nil {
+					return true, val, int64(ts)
+				}
 			}
 		}
 	}
-- 
2.43.0


From df14346ef8907f24fedff4750a1c201edea42fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:27 +0000
Subject: [PATCH 05/59] fix: ToJson removes the timestamp of a top-level leaf
 and reports errors

---
 internal/tson/tson.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index 3947fb5..e125820 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -366,7 +366,15 @@ func ToJson(t Tson, j *any) (err error) {
 		}
 	}
 
-	ToCompatibleTson(t, j)
+	if err = ToCompatibleTson(t, j); err != nil {
+		return err
+	}
+	if m, ok := (*j).(map[string]any); ok { // t itself is a leaf
+		if isLeaf, leafVal, _ := checkLeaf(m); isLeaf {
+			*j = leafVal
+			return nil
+		}
+	}
 	removeTimestamp(*j)
 
 	return nil
-- 
2.43.0


From 44d830ba9a4f5d29d763b416a45c4f37d589a44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 06/59] fix: FromJson leaves its argument alone and handles
 top-level primitives and null

---
 internal/tson/tson.go | 45 +++++++++++++++++++------------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index e125820..4075467 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -383,42 +383,37 @@ func ToJson(t Tson, j *any) (err error) {
 // FromJson converts the given JSON object to a TSON.
 // NOTE: The timestamp field is added with the default(< 0) value.
 func FromJson(o any, t *Tson) (err error) {
-	var addTimestamp func(o any)
-	addTimestamp = func(o any) {
+	var addTimestamp func(o any) any // returns a copy, o is left alone
+	addTimestamp = func(o any) any {
 		switch value := o.(type) {
 		case map[string]any:
+			obj := make(map[string]any, len(value))
 			for k, v := range value {
-				switch leaf := v.(type) {
-				case string:
-					value[k] = Leaf[string]{Value: leaf, Timestamp: DefaultTimestamp}
-				case float64:
-					value[k] = Leaf[float64]{Value: leaf, Timestamp: DefaultTimestamp}
-				case bool:
-					value[k] = Leaf[bool]{Value: leaf, Timestamp: DefaultTimestamp}
-				default:
-					addTimestamp(v)
-				}
+				obj[k] = addTimestamp(v)
 			}
+			return obj
 		case []any:
+			arr := make([]any, len(value))
 			for i, v := range value {
-				switch leaf := v.(type) {
-				case string:
-					value[i] = Leaf[string]{Value: leaf, Timestamp: DefaultTimestamp}
-				case float64:
-					value[i] = Leaf[float64]{Value: leaf, Timestamp: DefaultTimestamp}
-				case bool:
-					value[i] = Leaf[bool]{Value: leaf, Timestamp: DefaultTimestamp}
-				default:
-					addTimestamp(v)
-				}
+				arr[i] = addTimestamp(v)
 			}
+			return arr
+		case string:
+			return Leaf[string]{Value: value, Timestamp: DefaultTimestamp}
+		case float64:
+			return Leaf[float64]{Value: value, Timestamp: DefaultTimestamp}
+		case bool:
+			return Leaf[bool]{Value: value, Timestamp: DefaultTimestamp}
+		default:
+			return o
 		}
 	}
 
-	addTimestamp(o)
-
 	// Step 1: Convert TSON(any) to CompatibleTSON(JSON with timestamp)
-	str, err := json.Marshal(o)
+	str, err := json.Marshal(addTimestamp(o))
+	if err != nil {
+		return err
+	}
 
 	// Step 2: Convert CompatibleTSON to TSON
 	return FromCompatibleTsonBytes(str, t)
-- 
2.43.0


From 57f141eb8c69e4fe5c135b8b858839899ce21bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:15 +0000
Subject: [PATCH 07/59] fix: reject text after a TSON document

---
 internal/tson/serialization.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index 9f7f10d..e559f2d 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -442,8 +442,15 @@ type Parser struct {
 // and stores the result in the value pointed to by t.
 func Unmarshal(data []byte, t *Tson) (err error) {
 	p := &Parser{input: data, pos: 0}
-	*t, err = p.parseTson()
-	return err
+	if *t, err = p.parseTson(); err != nil {
+		return err
+	}
+	p.skipWhitespace()
+	if p.pos < len(p.input) {
+		*t = nil
+		return fmt.Errorf("unexpected character '%c' after the document at pos %d", p.peek(), p.pos)
+	}
+	return nil
 }
 
 // wrapIfPrimitive wraps a raw primitive with a timestamp.
-- 
2.43.0


From 3c3627a257ed520058ae6d7220fbec3f9b22f434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:16 +0000
Subject: [PATCH 08/59] fix: null in TSON containers parses and serialises

---
 internal/tson/serialization.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index e559f2d..feeb604 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -48,6 +48,8 @@ func Marshal(t Tson) ([]byte, error) {
 // array: 	element inside an array (timestamp is printed before the primitive).
 func marshalTson(v Value, ctx int) (string, error) {
 	switch val := v.(type) {
+	case nil:
+		return "null", nil
 	case Object:
 		return marshalObject(val)
 	case Array:
@@ -456,6 +458,8 @@ func Unmarshal(data []byte, t *Tson) (err error) {
 // wrapIfPrimitive wraps a raw primitive with a timestamp.
 func wrapIfPrimitive(v any, timestamp int64) Value {
 	switch val := v.(type) {
+	case nil:
+		return nil
 	case string:
 		return Leaf[string]{Value: val, Timestamp: timestamp}
 	case float64:
-- 
2.43.0


From e25c9e68f9ecbad0129a8a64d52ce04d4ceee7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:17 +0000
Subject: [PATCH 09/59] fix: a leaf written without a timestamp has none

---
 internal/tson/serialization.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index feeb604..7842672 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -726,7 +726,7 @@ func (p *Parser) parseObject() (Value, error) {
 		}
 		p.skipWhitespace()
 		// optional timestamp after key
-		var ts int64 = 0
+		ts := DefaultTimestamp
 		if p.peek() == '<' {
 			ts, err = p.parseTimestamp()
 			if err != nil {
@@ -770,7 +770,7 @@ func (p *Parser) parseArray() (Value, error) {
 	}
 	for {
 		p.skipWhitespace()
-		var ts int64 = 0
+		ts := DefaultTimestamp
 		if p.peek() == '<' {
 			var err error
 			ts, err = p.parseTimestamp()
-- 
2.43.0


From e5090e1aad22a602582974c8dbd60f5dcae6454d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:18 +0000
Subject: [PATCH 10/59] fix: a timestamp may precede a boolean

---
 internal/tson/serialization.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index 7842672..168dfb4 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -607,7 +607,7 @@ func (p *Parser) startsWith(s string) bool {
 	return true
 }
 
-// parsePrimitive parses a primitive: string, number.
+// parsePrimitive parses a primitive: string, number, boolean.
 func (p *Parser) parsePrimitive() (any, error) {
 	p.skipWhitespace()
 	switch p.peek() {
@@ -615,6 +615,15 @@ func (p *Parser) parsePrimitive() (any, error) {
 		return p.parseString()
 	case '-', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
 		return p.parseNumber()
+	case 't', 'f':
+		if p.startsWith("true") {
+			p.pos += 4
+			return true, nil
+		} else if p.startsWith("false") {
+			p.pos += 5
+			return false, nil
+		}
+		fallthrough
 	default:
 		return nil, fmt.Errorf("invalid primitive starting with '%c' at pos %d", p.peek(), p.pos)
 	}
-- 
2.43.0


From 9128df38bf297d1a04a4294476998724040fe93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:19 +0000
Subject: [PATCH 11/59] fix: parse numbers with an exponent

---
 internal/tson/serialization.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index 168dfb4..cee6100 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -682,6 +682,15 @@ func (p *Parser) parseNumber() (float64, error) {
 			p.pos++
 		}
 	}
+	if p.pos < len(p.input) && (p.peek() == 'e' || p.peek() == 'E') {
+		p.pos++
+		if p.pos < len(p.input) && (p.peek() == '+' || p.peek() == '-') {
+			p.pos++
+		}
+		for p.pos < len(p.input) && p.input[p.pos] >= '0' && p.input[p.pos] <= '9' {
+			p.pos++
+		}
+	}
 	numStr := string(p.input[start:p.pos])
 	return strconv.ParseFloat(numStr, 64)
 }
-- 
2.43.0


From 78b6ae5631b4d08234a8fdbb8b07278285b43bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:20 +0000
Subject: [PATCH 12/59] fix: parse every JSON string escape and the ones
 Marshal writes

---
 internal/tson/serialization.go | 54 ++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index cee6100..ed7e354 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -14,6 +14,8 @@ import (
 	"fmt"
 	"strconv"
 	"strings"
+	"unicode/utf16"
+	"unicode/utf8"
 )
 
 // ToCompatibleTsonString converts TSON to a string.
@@ -655,6 +657,39 @@ func (p *Parser) parseString() (string, error) {
 				result = append(result, '\r')
 			case 't':
 				result = append(result, '\t')
+			case 'a':
+				result = append(result, '\a')
+			case 'v':
+				result = append(result, '\v')
+			case 'x': // single byte, written by Marshal for invalid UTF-8
+				r, err := p.parseHex(2)
+				if err != nil {
+					return "", err
+				}
+				result = append(result, byte(r))
+			case 'u':
+				r, err := p.parseHex(4)
+				if err != nil {
+					return "", err
+				}
+				if utf16.IsSurrogate(r) && p.startsWith(`\u`) { // second half of a pair
+					start := p.pos
+					p.pos += 2
+					r2, err := p.parseHex(4)
+					if err != nil {
+						return "", err
+					}
+					if r = utf16.DecodeRune(r, r2); r == utf8.RuneError {
+						p.pos = start
+					}
+				}
+				result = utf8.AppendRune(result, r)
+			case 'U':
+				r, err := p.parseHex(8)
+				if err != nil {
+					return "", err
+				}
+				result = utf8.AppendRune(result, r)
 			default:
 				return "", fmt.Errorf("invalid escape character: %c", esc)
 			}
@@ -667,6 +702,25 @@ func (p *Parser) parseString() (string, error) {
 	return "", fmt.Errorf("unterminated string")
 }
 
+// parseHex parses exactly n hexadecimal digits of an escape sequence.
+func (p *Parser) parseHex(n int) (r rune, err error) {
+	for i := 0; i < n; i++ {
+		ch := p.peek()
+		switch {
+		case '0' <= ch && ch <= '9':
+			r = r<<4 | rune(ch-'0')
+		case 'a' <= ch && ch <= 'f':
+			r = r<<4 | rune(ch-'a'+10)
+		case 'A' <= ch && ch <= 'F':
+			r = r<<4 | rune(ch-'A'+10)
+		default:
+			return 0, fmt.Errorf("invalid hexadecimal digit in escape sequence at pos %d", p.pos)
+		}
+		p.pos++
+	}
+	return r, nil
+}
+
 // parseNumber parses a number.
 func (p *Parser) parseNumber() (float64, error) {
 	start := p.pos
-- 
2.43.0


From df2daa79832dac60e18a6f0dc2224ea977720115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 13/59] fix: MarshalIndent keeps the fraction of a plain number

---
 internal/tson/serialization.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index ed7e354..0eea96b 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -194,7 +194,7 @@ func marshalIndentValue(v any, currentIndent, indent string, ctx int) (string, e
 	case bool:
 		return fmt.Sprintf("%v", t), nil
 	case float64:
-		return fmt.Sprintf("%.f", t), nil
+		return fmt.Sprintf("%v", t), nil
 	case string:
 		return strconv.Quote(t), nil
 
-- 
2.43.0


From 2c0b74cadfd39211d64c805bf15ba48ad52a168c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:14 +0000
Subject: [PATCH 14/59] fix: ApplyOperation follows JSON pointers (leading
 slash, escapes, dots in names)

---
 internal/tsonpatch/tsonpatch.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index df2802b..2ed23a6 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -149,11 +149,16 @@ func ApplyPatch(doc tson.Tson, patch Patch) (t tson.Tson, err error) {
 }
 
 func ApplyOperation(doc tson.Tson, op Operation) (t tson.Tson, err error) {
-	path := rfc6901Decoder.Replace(op.Path)
-
-	// Split the path into parts, ignoring the first empty string
-	path = strings.ReplaceAll(path, ".", "/")
-	parts := strings.Split(path, "/")
+	var parts []string
+	if strings.HasPrefix(op.Path, "/") {
+		// JSON pointer: split into parts, ignoring the first empty string, and decode each of them
+		parts = strings.Split(op.Path, "/")[1:]
+		for i := range parts {
+			parts[i] = rfc6901Decoder.Replace(parts[i])
+		}
+	} else { // dotted path
+		parts = strings.Split(strings.ReplaceAll(op.Path, ".", "/"), "/")
+	}
 
 	// Traverse the TSON document
 	if t, err = applyTraverse(doc, parts, op); err != nil {
-- 
2.43.0


From 49755121822bce3aa00401b9b73f968f165db635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:36 +0000
Subject: [PATCH 15/59] fix: ApplyPatch carries the result of each operation on
 and keeps the document for an empty patch

---
 internal/tsonpatch/tsonpatch.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index 2ed23a6..c16f1ba 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -140,8 +140,9 @@ func GeneratePatchWithTimestamp(origin, modified tson.Tson) (Patch, error) {
 
 // ApplyPatch applies a JSON patch to a TSON document
 func ApplyPatch(doc tson.Tson, patch Patch) (t tson.Tson, err error) {
+	t = doc
 	for _, op := range patch {
-		if t, err = ApplyOperation(doc, op); err != nil {
+		if t, err = ApplyOperation(t, op); err != nil {
 			return nil, err
 		}
 	}
-- 
2.43.0


From 2b2f6d8c081a0ba308694f5a78f05df2218412b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:38 +0000
Subject: [PATCH 16/59] fix: applying a patch leaves the given document alone

---
 internal/tsonpatch/tsonpatch.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index c16f1ba..a9cd759 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -20,7 +20,9 @@ import (
 	"bytes"
 	"encoding/json"
 	"fmt"
+	"maps"
 	"reflect"
+	"slices"
 	"strconv"
 	"strings"
 
@@ -181,6 +183,7 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 
 	switch part := parts[0]; j := doc.(type) {
 	case tson.Object:
+		j = maps.Clone(j) // the given document is left alone
 		if len(parts) == 1 { // Only a single part of path left
 			switch op.Op { // switch by operation type
 			case OpAdd, OpReplace:
@@ -226,6 +229,8 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 				return nil, err
 			}
 
+			value = slices.Clone(value)
+			j[part] = value
 			switch op.Op {
 			case OpAdd, OpReplace:
 				if idx >= len(value) {
@@ -298,6 +303,7 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 			return nil, err
 		}
 
+		j = slices.Clone(j)
 		// 배열 인덱스 범위 체크 및 확장
 		if idx >= len(j) {
 			if op.Op == OpAdd || op.Op == OpReplace {
-- 
2.43.0


From 29cf4810a267188c5bf897576ea1a89759d2bb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:29 +0000
Subject: [PATCH 17/59] fix: patch operations reach into containers that are
 array elements

---
 internal/tsonpatch/tsonpatch.go | 43 +--------------------------------
 1 file changed, 1 insertion(+), 42 deletions(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index a9cd759..bdfda28 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -224,50 +224,9 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 				return nil, err
 			}
 		case tson.Array:
-			idx, err := getIndex(parts[1])
-			if err != nil {
+			if j[part], err = applyTraverse(value, parts[1:], op); err != nil {
 				return nil, err
 			}
-
-			value = slices.Clone(value)
-			j[part] = value
-			switch op.Op {
-			case OpAdd, OpReplace:
-				if idx >= len(value) {
-					// 배열 크기가 충분하지 않은 경우 확장
-					newArray := make(tson.Array, idx+1)
-					copy(newArray, value)
-					value = newArray
-					j[part] = value
-				}
-
-				// 타입 변환 로직 개선
-				switch opValue := op.Value.(type) {
-				case string:
-					value[idx] = tson.Leaf[string]{Value: opValue, Timestamp: op.Timestamp}
-				case float64:
-					value[idx] = tson.Leaf[float64]{Value: opValue, Timestamp: op.Timestamp}
-				case int:
-					value[idx] = tson.Leaf[float64]{Value: float64(opValue), Timestamp: op.Timestamp}
-				case bool:
-					value[idx] = tson.Leaf[bool]{Value: opValue, Timestamp: op.Timestamp}
-				case nil:
-					return nil, fmt.Errorf("applyTraverse(): Nil value not supported for array element")
-				default:
-					if elem, ok := value[idx].(tson.Object); ok || elem == nil {
-						// 객체나 nil인 경우 재귀적으로 처리
-						if j[part], err = applyTraverse(value[idx], parts[1:], op); err != nil {
-							return nil, err
-						}
-					} else {
-						return nil, fmt.Errorf("applyTraverse(): Unsupported array element type %T", op.Value)
-					}
-				}
-			case OpRemove:
-				j[part] = append(value[:idx], value[idx+1:]...)
-			default:
-				return nil, fmt.Errorf("applyTraverse(): Unknown operation %s", op.Op)
-			}
 		case nil:
 			// 경로가 없는 경우 새로 생성
 			if op.Op == OpAdd || op.Op == OpReplace {
-- 
2.43.0


From c2f4719e9334278f9fa7b7e43a2b7e57faf5ad15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:31 +0000
Subject: [PATCH 18/59] fix: a patch path through a leaf is an error, neither a
 crash nor ignored

---
 internal/tsonpatch/tsonpatch.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index bdfda28..6560947 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -176,9 +176,9 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 		return doc, nil
 	}
 
-	switch doc.(type) { // If doc is a leaf node, return
+	switch doc.(type) { // If doc is a leaf node, the path denotes nothing
 	case tson.Leaf[string], tson.Leaf[float64], tson.Leaf[bool]:
-		return doc, nil
+		return nil, fmt.Errorf("applyTraverse(): no member %s in a leaf", parts[0])
 	}
 
 	switch part := parts[0]; j := doc.(type) {
@@ -218,7 +218,7 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 
 		switch value := j[part].(type) { // Recursively traverse the TSON document
 		case tson.Leaf[string], tson.Leaf[float64], tson.Leaf[bool]:
-			panic("applyTraverse(): Leaf[T] should not be here")
+			return nil, fmt.Errorf("applyTraverse(): no member %s in leaf %s", parts[1], part)
 		case tson.Object:
 			if j[part], err = applyTraverse(value, parts[1:], op); err != nil {
 				return nil, err
-- 
2.43.0


From 434bdddb4b31e58abb90955d5cbf91d5ccbe1c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:33 +0000
Subject: [PATCH 19/59] fix: unimplemented patch operations are errors

---
 internal/tsonpatch/tsonpatch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index 6560947..d749e8c 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -209,7 +209,7 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 			case OpRemove:
 				delete(j, part)
 			case OpMove, OpCopy, OpTest:
-				panic(fmt.Sprintf("applyTraverse(): Operation %s not implemented", op.Op))
+				return nil, fmt.Errorf("applyTraverse(): Operation %s not implemented", op.Op)
 			default:
 				return nil, fmt.Errorf("applyTraverse(): Unknown operation %s", op.Op)
 			}
-- 
2.43.0


From 0c69e0ee5ca0f2b1a6bd9fa0ac8e9d1b52329366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:34 +0000
Subject: [PATCH 20/59] fix: negative and malformed array indices in a patch
 path are errors

---
 internal/tsonpatch/tsonpatch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index d749e8c..66e2df6 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -396,7 +396,7 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 // }
 
 func getIndex(part string) (idx int, err error) {
-	if idx, err = strconv.Atoi(part); err != nil {
+	if idx, err = strconv.Atoi(part); err != nil || idx < 0 || strconv.Itoa(idx) != part {
 		return -1, fmt.Errorf("getIndex(): Invalid index %s", part)
 	}
 	return idx, nil
-- 
2.43.0


From 804bd51368d26c60d980acdca238396143b71b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:36 +0000
Subject: [PATCH 21/59] fix: a huge array index in a patch path is an error

---
 internal/tsonpatch/tsonpatch.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index 66e2df6..8b2a54b 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -266,6 +266,9 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 		// 배열 인덱스 범위 체크 및 확장
 		if idx >= len(j) {
 			if op.Op == OpAdd || op.Op == OpReplace {
+				if idx > len(j)+maxArrayGap {
+					return nil, fmt.Errorf("applyTraverse(): Index %d too far behind array of length %d", idx, len(j))
+				}
 				// 배열 확장
 				newArray := make(tson.Array, idx+1)
 				copy(newArray, j)
@@ -395,6 +398,9 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 // 	}
 // }
 
+// maxArrayGap is how far behind the end of an array an element can be added.
+const maxArrayGap = 1 << 16
+
 func getIndex(part string) (idx int, err error) {
 	if idx, err = strconv.Atoi(part); err != nil || idx < 0 || strconv.Itoa(idx) != part {
 		return -1, fmt.Errorf("getIndex(): Invalid index %s", part)
-- 
2.43.0


From 76ecbd7a474626be3e3a973d9cbc5f2c5f789c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:30 +0000
Subject: [PATCH 22/59] fix: the empty patch path denotes the whole document

---
 internal/tsonpatch/tsonpatch.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index 8b2a54b..9d24ed4 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -152,6 +152,16 @@ func ApplyPatch(doc tson.Tson, patch Patch) (t tson.Tson, err error) {
 }
 
 func ApplyOperation(doc tson.Tson, op Operation) (t tson.Tson, err error) {
+	if op.Path == "" { // the whole document
+		if op.Op != OpAdd && op.Op != OpReplace {
+			return nil, fmt.Errorf("ApplyOperation(): Cannot %s the whole document", op.Op)
+		}
+		if t, err = applyTraverse(tson.Object{}, []string{""}, op); err != nil {
+			return nil, err
+		}
+		return t.(tson.Object)[""], nil
+	}
+
 	var parts []string
 	if strings.HasPrefix(op.Path, "/") {
 		// JSON pointer: split into parts, ignoring the first empty string, and decode each of them
-- 
2.43.0


From 8afc57679284945a5e5cdf777a38da23eefff8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:31 +0000
Subject: [PATCH 23/59] fix: the diff of a value that changes its type does not
 crash

---
 internal/tsonpatch/tsonpatch.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index 9d24ed4..a472313 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -505,8 +505,25 @@ func diff(origin, modified tson.Object, path string, patch Patch, withTimestamp
 	return patch, nil
 }
 
+// replaceType appends the operation that replaces a value by one of another type.
+func replaceType(modValue tson.Value, path string, patch Patch) (Patch, error) {
+	switch modLeaf := modValue.(type) {
+	case tson.Leaf[string]:
+		return append(patch, NewOperation(OpReplace, path, modLeaf.Value, modLeaf.Timestamp)), nil
+	case tson.Leaf[float64]:
+		return append(patch, NewOperation(OpReplace, path, modLeaf.Value, modLeaf.Timestamp)), nil
+	case tson.Leaf[bool]:
+		return append(patch, NewOperation(OpReplace, path, modLeaf.Value, modLeaf.Timestamp)), nil
+	default:
+		return nil, fmt.Errorf("replaceType(): Unknown type %T for modValue", modValue)
+	}
+}
+
 func handleValues(origValue, modValue tson.Value, path string, patch Patch) (Patch, error) {
 	var err error
+	if origValue != nil && reflect.TypeOf(origValue) != reflect.TypeOf(modValue) {
+		return replaceType(modValue, path, patch)
+	}
 	switch origin := origValue.(type) {
 	case tson.Leaf[string]:
 		if !matchesValue(origValue, modValue) {
@@ -579,6 +596,9 @@ func handleValues(origValue, modValue tson.Value, path string, patch Patch) (Pat
 // handleValuesWithTimestamp는 타임스탬프 변경도 감지하여 패치를 생성합니다.
 func handleValuesWithTimestamp(origValue, modValue tson.Value, path string, patch Patch) (Patch, error) {
 	var err error
+	if origValue != nil && reflect.TypeOf(origValue) != reflect.TypeOf(modValue) {
+		return replaceType(modValue, path, patch)
+	}
 
 	// 타임스탬프 변경 감지
 	timestampChanged := !matchTimestamp(origValue, modValue)
-- 
2.43.0


From f5920c0f8b0e04a30b7fa086bde92516b438ab8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:33 +0000
Subject: [PATCH 24/59] fix: the diff removes a null member without crashing

---
 internal/tsonpatch/tsonpatch.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index a472313..00d569a 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -497,6 +497,8 @@ func diff(origin, modified tson.Object, path string, patch Patch, withTimestamp
 				patch = append(patch, NewOperation(OpRemove, p, nil, 0))
 			case tson.Array:
 				patch = append(patch, NewOperation(OpRemove, p, nil, 0))
+			case nil:
+				patch = append(patch, NewOperation(OpRemove, p, nil, 0))
 			default:
 				panic(fmt.Sprintf("diff(): Unknown type %T for origValue", origValue))
 			}
-- 
2.43.0


From cc04757c6578c629bbc25cd4df4de98f502f52f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:35 +0000
Subject: [PATCH 25/59] fix: the diff of arrays of different length reproduces
 the modified array

---
 internal/tsonpatch/tsonpatch.go | 116 +++++++-------------------------
 1 file changed, 26 insertions(+), 90 deletions(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index 00d569a..cb17b37 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -562,7 +562,9 @@ func handleValues(origValue, modValue tson.Value, path string, patch Patch) (Pat
 				return nil, fmt.Errorf("handleValues(): Unknown type %T for modValue", modValue)
 			}
 		} else if len(origin) != len(modified) { // Different array lengths
-			patch = append(patch, compareArray(origin, modified, path)...)
+			if patch, err = compareArray(origin, modified, path, patch, false); err != nil {
+				return nil, err
+			}
 		} else { // Same length, compare elements
 			for i := range modified {
 				patch, err = handleValues(origin[i], modified[i], makePath(path, i), patch)
@@ -652,7 +654,9 @@ func handleValuesWithTimestamp(origValue, modValue tson.Value, path string, patc
 				return nil, fmt.Errorf("handleValuesWithTimestamp(): Unknown type %T for modValue", modValue)
 			}
 		} else if len(origin) != len(modified) { // Different array lengths
-			patch = append(patch, compareArrayWithTimestamp(origin, modified, path)...)
+			if patch, err = compareArray(origin, modified, path, patch, true); err != nil {
+				return nil, err
+			}
 		} else { // Same length, compare elements
 			for i := range modified {
 				patch, err = handleValuesWithTimestamp(origin[i], modified[i], makePath(path, i), patch)
@@ -788,23 +792,23 @@ func matchTimestamp(origin, modified tson.Value) bool {
 	return false
 }
 
-// compareArray generates remove and add operations
-func compareArray(origArr, modArr tson.Array, p string) (patch Patch) {
-	// Find elements that need to be removed
-	processArray(origArr, modArr, func(i int, _ any) {
-		// TODO: is there a way to calculate the timestamp?
-		patch = append(patch, NewOperation(OpRemove, makePath(p, i), nil, 0))
-	})
-
-	reversed := make(Patch, len(patch))
-	for i := 0; i < len(patch); i++ {
-		reversed[len(patch)-1-i] = patch[i]
+// compareArray compares two arrays element by element, then adds or removes at the end.
+func compareArray(origArr, modArr tson.Array, p string, patch Patch, withTimestamp bool) (Patch, error) {
+	var err error
+	for i := 0; i < len(origArr) && i < len(modArr); i++ {
+		if withTimestamp {
+			patch, err = handleValuesWithTimestamp(origArr[i], modArr[i], makePath(p, i), patch)
+		} else {
+			patch, err = handleValues(origArr[i], modArr[i], makePath(p, i), patch)
+		}
+		if err != nil {
+			return nil, err
+		}
 	}
-	patch = reversed
 
-	// Find elements that need to be added.
-	processArray(modArr, origArr, func(i int, value any) {
-		switch leaf := value.(type) {
+	// Elements that need to be added
+	for i := len(origArr); i < len(modArr); i++ {
+		switch leaf := modArr[i].(type) {
 		case tson.Leaf[string]:
 			patch = append(patch, NewOperation(OpAdd, makePath(p, i), leaf.Value, leaf.Timestamp))
 		case tson.Leaf[float64]:
@@ -812,82 +816,14 @@ func compareArray(origArr, modArr tson.Array, p string) (patch Patch) {
 		case tson.Leaf[bool]:
 			patch = append(patch, NewOperation(OpAdd, makePath(p, i), leaf.Value, leaf.Timestamp))
 		default:
-			panic(fmt.Sprintf("compareArray(): Unknown type %T for value", value))
+			return nil, fmt.Errorf("compareArray(): Unknown type %T for value", leaf)
 		}
-	})
-	return patch
-}
+	}
 
-// compareArrayWithTimestamp는 두 배열을 비교하여 패치를 생성합니다. 타임스탬프 변경도 감지합니다.
-func compareArrayWithTimestamp(origArr, modArr tson.Array, p string) (patch Patch) {
-	// Find elements that need to be removed
-	processArray(origArr, modArr, func(i int, _ any) {
+	// Elements that need to be removed, from the end so that the indices stay valid
+	for i := len(origArr) - 1; i >= len(modArr); i-- {
 		// TODO: is there a way to calculate the timestamp?
 		patch = append(patch, NewOperation(OpRemove, makePath(p, i), nil, 0))
-	})
-
-	reversed := make(Patch, len(patch))
-	for i := 0; i < len(patch); i++ {
-		reversed[len(patch)-1-i] = patch[i]
-	}
-	patch = reversed
-
-	// Find elements that need to be added, or have changed values or timestamps
-	for i, value := range modArr {
-		// 원래 배열과 수정된 배열의 같은 인덱스에서 값 또는 타임스탬프 변경 확인
-		if i < len(origArr) {
-			valuesEqual := matchesValue(origArr[i], value)
-			timestampEqual := matchTimestamp(origArr[i], value)
-
-			if !valuesEqual || !timestampEqual {
-				switch leaf := value.(type) {
-				case tson.Leaf[string]:
-					patch = append(patch, NewOperation(OpReplace, makePath(p, i), leaf.Value, leaf.Timestamp))
-				case tson.Leaf[float64]:
-					patch = append(patch, NewOperation(OpReplace, makePath(p, i), leaf.Value, leaf.Timestamp))
-				case tson.Leaf[bool]:
-					patch = append(patch, NewOperation(OpReplace, makePath(p, i), leaf.Value, leaf.Timestamp))
-				}
-			}
-		} else {
-			// 새로 추가된 요소
-			switch leaf := value.(type) {
-			case tson.Leaf[string]:
-				patch = append(patch, NewOperation(OpAdd, makePath(p, i), leaf.Value, leaf.Timestamp))
-			case tson.Leaf[float64]:
-				patch = append(patch, NewOperation(OpAdd, makePath(p, i), leaf.Value, leaf.Timestamp))
-			case tson.Leaf[bool]:
-				patch = append(patch, NewOperation(OpAdd, makePath(p, i), leaf.Value, leaf.Timestamp))
-			default:
-				panic(fmt.Sprintf("compareArrayWithTimestamp(): Unknown type %T for value", value))
-			}
-		}
-	}
-
-	return patch
-}
-
-// processArray processes two arrays calling applyOp whenever a value is absent.
-func processArray(origArr, modArr tson.Array, applyOp func(i int, value any)) {
-	// Note: map[T]struct{} is used to simulate a set.
-	foundIndexes := make(map[int]struct{}, len(origArr))
-	reverseFoundIndexes := make(map[int]struct{}, len(origArr))
-
-	for idx1, value1 := range origArr {
-		for idx2, value2 := range modArr {
-			if _, ok := reverseFoundIndexes[idx2]; ok {
-				// This one is already found.
-				continue
-			}
-			if reflect.DeepEqual(value1, value2) {
-				// Mark this as found
-				foundIndexes[idx1] = struct{}{}
-				reverseFoundIndexes[idx2] = struct{}{}
-				break
-			}
-		}
-		if _, ok := foundIndexes[idx1]; !ok {
-			applyOp(idx1, value1)
-		}
 	}
+	return patch, nil
 }
-- 
2.43.0


From 92e66ecb57da54b76c432c5b5321d6fea587a109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:37 +0000
Subject: [PATCH 26/59] fix: the diff of equal documents is empty

---
 internal/tsonpatch/tsonpatch.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index cb17b37..b55d69f 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -125,7 +125,7 @@ func NewOperation(op OpType, path string, value any, timestamp int64) Operation
 // GeneratePatch generates a JSON patch from two TSON documents
 func GeneratePatch(origin, modified tson.Tson) (Patch, error) {
 	// If the two TSON documents are equal, return an empty patch
-	if eq, err := tson.Equal(origin, modified); err != nil && eq {
+	if eq, err := tson.Equal(origin, modified); err == nil && eq {
 		return Patch{}, nil
 	}
 	return handleValues(origin, modified, "", Patch{})
@@ -134,7 +134,7 @@ func GeneratePatch(origin, modified tson.Tson) (Patch, error) {
 // GeneratePatchWithTimestamp는 타임스탬프 변경도 감지하여 패치를 생성합니다.
 func GeneratePatchWithTimestamp(origin, modified tson.Tson) (Patch, error) {
 	// If the two TSON documents are equal, return an empty patch
-	if eq, err := tson.Equal(origin, modified); err != nil && eq {
+	if eq, err := tson.Equal(origin, modified); err == nil && eq {
 		return Patch{}, nil
 	}
 	return handleValuesWithTimestamp(origin, modified, "", Patch{})
-- 
2.43.0


From c54119ee315d704c3e4bdfb31159c02f3640c9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:05 +0000
Subject: [PATCH 27/59] fix: patch paths keep empty member names

---
 internal/tsonpatch/tsonpatch.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index b55d69f..901a571 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -426,12 +426,6 @@ var (
 
 func makePath(path string, newPart any) string {
 	key := rfc6901Encoder.Replace(fmt.Sprintf("%v", newPart))
-	if path == "" {
-		return "/" + key
-	}
-	if strings.HasSuffix(path, "/") {
-		return path + key
-	}
 	return path + "/" + key
 }
 
-- 
2.43.0


From c669c35fc044670620af563cdc917c5ac5823fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:07 +0000
Subject: [PATCH 28/59] fix: patch operations escape their path in JSON

---
 internal/tsonpatch/tsonpatch.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index 901a571..33f6820 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -91,21 +91,25 @@ type Operation struct {
 func (p *Operation) String() string {
 	var ( // Using vanila JSON here
 		op        = p.Op
-		path      = p.Path
+		path, _   = json.Marshal(p.Path)
 		value, _  = json.Marshal(p.Value)
 		timestamp = p.Timestamp
 		buf       bytes.Buffer
 	)
 	fmt.Fprintf(&buf,
-		`{ "op": "%s", "path": "%s", "value": %s, "timestamp": %d }`,
+		`{ "op": "%s", "path": %s, "value": %s, "timestamp": %d }`,
 		op, path, value, timestamp)
 	return buf.String()
 }
 
 // Marshal converts the Operation to a JSON byte Array.
 func (p *Operation) Marshal() (b []byte, err error) {
+	path, err := json.Marshal(p.Path)
+	if err != nil {
+		return nil, err
+	}
 	var buf bytes.Buffer
-	fmt.Fprintf(&buf, `{ "op": "%s", "path": "%s"`, p.Op, p.Path)
+	fmt.Fprintf(&buf, `{ "op": "%s", "path": %s`, p.Op, path)
 	if p.Value != nil || p.Op == OpReplace || p.Op == OpAdd || p.Op == OpTest {
 		if v, err := json.Marshal(p.Value); err != nil {
 			return nil, err
-- 
2.43.0


From 0e99cada4b84018bcb366f54ce21099d18da7c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:24 +0000
Subject: [PATCH 29/59] fix: a snapshot carries the patches of all versions in
 between

---
 internal/logument/logument.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 98dda3b..77f217b 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -223,9 +223,10 @@ func (lgm *Logument) Snapshot(vk uint64) tsonSnapshot {
 
 	if latestVersion != vk {
 		// Apply patches from the latest version to the target version
+		timedSnapshot = latestSnapshot
 		for i := latestVersion + 1; i <= vk; i++ {
 			var err error
-			timedSnapshot, err = tsonpatch.ApplyPatch(latestSnapshot, lgm.Patches[i])
+			timedSnapshot, err = tsonpatch.ApplyPatch(timedSnapshot, lgm.Patches[i])
 			if err != nil {
 				panic("Failed to make a snapshot with the given version. Error: " + err.Error())
 			}
-- 
2.43.0


From 36e5de15e34bc7a63e0d0fba635e398dd59ca142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:26 +0000
Subject: [PATCH 30/59] fix: stored patches are not shared with the caller

---
 internal/logument/logument.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 77f217b..bb90fad 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -2,6 +2,7 @@ package logument
 
 import (
 	"fmt"
+	"slices"
 	"sort"
 	"strconv"
 	"strings"
@@ -160,7 +161,7 @@ func (lgm *Logument) Store(inputPatches any) {
 	}
 
 	if lgm.PatchPool == nil {
-		lgm.PatchPool = patches
+		lgm.PatchPool = slices.Clone(patches)
 	} else {
 		lgm.PatchPool = append(lgm.PatchPool, patches...)
 	}
-- 
2.43.0


From 9d1d8df1221b9dc5039b84d90e9cc073a2cd516e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:27 +0000
Subject: [PATCH 31/59] fix: documents handed in and out are not shared with
 the recorded snapshots

---
 internal/logument/logument.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index bb90fad..b76b298 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -46,7 +46,7 @@ func NewLogument(initialSnapshot any, initialPatches any) *Logument {
 			panic(err)
 		}
 	case tsonSnapshot:
-		snapshot = initialSnapshot
+		snapshot = clone(initialSnapshot)
 	default:
 		panic("Invalid type for initialSnapshot. Must be string or tson.Tson.")
 	}
@@ -240,7 +240,27 @@ func (lgm *Logument) Snapshot(vk uint64) tsonSnapshot {
 		lgm.Snapshots[vk] = timedSnapshot
 	}
 
-	return timedSnapshot
+	return clone(timedSnapshot)
+}
+
+// clone copies a document, so that a change to the copy leaves it alone
+func clone(t tson.Tson) tson.Tson {
+	switch t := t.(type) {
+	case tson.Object:
+		obj := make(tson.Object, len(t))
+		for key, value := range t {
+			obj[key] = clone(value)
+		}
+		return obj
+	case tson.Array:
+		arr := make(tson.Array, len(t))
+		for i, value := range t {
+			arr[i] = clone(value)
+		}
+		return arr
+	default: // leaves are values
+		return t
+	}
 }
 
 func (lgm *Logument) TemporalSnapshot(tsk int64) tsonSnapshot {
-- 
2.43.0


From 08d78f2e1d2f3b35ee033b70d70a7978855cdda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:43 +0000
Subject: [PATCH 32/59] fix: a temporal snapshot covers the patches of all
 versions, in time order

---
 internal/logument/logument.go | 62 ++++++++++-------------------------
 1 file changed, 18 insertions(+), 44 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index b76b298..7975c53 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -264,63 +264,37 @@ func clone(t tson.Tson) tson.Tson {
 }
 
 func (lgm *Logument) TemporalSnapshot(tsk int64) tsonSnapshot {
-	versions := lgm.getSortedVersions("snapshot")
-
-	// Find the latest timestamp before the target timestamp
-	latestVersion := lgm.Version[0]
-	for _, version := range versions {
-		s := lgm.Snapshots[version]
-		lts := tson.GetLatestTimestamp(s)
-		if lts <= tsk {
-			latestVersion = version
-		} else {
-			break
-		}
+	if lgm.PatchPool != nil {
+		lgm.Append()
 	}
 
-	// Get the latest snapshot
-	latestSnapshot := lgm.Snapshots[latestVersion]
+	return lgm.stateAt(func(ts int64) bool { return ts <= tsk })
+}
 
-	if latestVersion >= lgm.Version[len(lgm.Version)-1] {
-		if lgm.PatchPool != nil {
-			lgm.Append()
-		} else {
-			return latestSnapshot
+// stateAt makes a snapshot of the first version with the patches whose timestamp is wanted, in time order
+func (lgm *Logument) stateAt(wanted func(ts int64) bool) tsonSnapshot {
+	var latestPatches tsonpatch.Patch
+	for _, version := range lgm.getSortedVersions("patch") {
+		if version <= lgm.Version[0] { // part of the first snapshot
+			continue
 		}
-	}
-
-	// Create a map to store the most recent patch for each path
-	latestPatchMap := make(map[string]tsonpatch.Operation)
-
-	// Iterate through the patches and keep only the most recent one for each path
-	sort.Slice(lgm.Patches[latestVersion+1], func(i, j int) bool {
-		return lgm.Patches[latestVersion+1][i].Timestamp < lgm.Patches[latestVersion+1][j].Timestamp
-	})
-
-	for _, p := range lgm.Patches[latestVersion+1] {
-		if p.Timestamp <= tsk {
-			// Check if we've seen this path before and if this patch is more recent
-			if existing, exists := latestPatchMap[p.Path]; !exists || p.Timestamp > existing.Timestamp {
-				latestPatchMap[p.Path] = p
+		for _, p := range lgm.Patches[version] {
+			if wanted(p.Timestamp) {
+				latestPatches = append(latestPatches, p)
 			}
 		}
 	}
-
-	// Convert the map to a slice
-	var latestPatches tsonpatch.Patch
-	for _, patch := range latestPatchMap {
-		latestPatches = append(latestPatches, patch)
-	}
+	sort.SliceStable(latestPatches, func(i, j int) bool {
+		return latestPatches[i].Timestamp < latestPatches[j].Timestamp
+	})
 
 	// Apply patches
-	timedSnapshot, err := tsonpatch.ApplyPatch(latestSnapshot, latestPatches)
+	timedSnapshot, err := tsonpatch.ApplyPatch(lgm.Snapshots[lgm.Version[0]], latestPatches)
 	if err != nil {
 		panic("Failed to make a snapshot with the given version. Error: " + err.Error())
 	}
 
-	// lgm.Snapshots[latestVersion+1] = timedSnapshot
-
-	return timedSnapshot
+	return clone(timedSnapshot)
 }
 
 func (lgm *Logument) Slice(vi, vj uint64) *Logument {
-- 
2.43.0


From eb493ed886239ee2a6243080b2565f567e7a3703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:13 +0000
Subject: [PATCH 33/59] fix: tracking does not change the log and keeps changes
 after a removal

---
 internal/logument/logument.go | 63 +++++++++++++++++++++++++++--------
 1 file changed, 50 insertions(+), 13 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 7975c53..4befb82 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -14,7 +14,7 @@ import (
 
 // Note: http://tools.ietf.org/html/rfc6901#section-4 :
 var (
-	// rfc6901Encoder = strings.NewReplacer("~", "~0", "/", "~1")
+	rfc6901Encoder = strings.NewReplacer("~", "~0", "/", "~1")
 	rfc6901Decoder = strings.NewReplacer("~1", "/", "~0", "~")
 )
 
@@ -451,26 +451,63 @@ func (lgm *Logument) Track(vi, vj uint64) map[uint64]tsonPatches {
 		patches := packedPatches[path]
 		compactPatches := make(tsonPatches, 0, len(patches))
 		for _, patch := range patches {
-			// Compare to previous value if it exists at the same path
-			if prev, exists := latestValues[patch.Path]; exists {
-				// If value has changed, keep the patch and update the status bool { return paths[i] < paths[j] })
-				if prev != patch.Value {
-					compactPatches = append(compactPatches, patch)
-					latestValues[patch.Path] = patch.Value
-				}
-				// Skip if value is the same
-			} else {
-				// Always keep the patch when it appears for the first time
+			// If value has changed, keep the patch. Skip if value is the same
+			if changesValue(latestValues, patch) {
 				compactPatches = append(compactPatches, patch)
-				latestValues[patch.Path] = patch.Value
 			}
 		}
-		lgm.Patches[path] = compactPatches
+		packedPatches[path] = compactPatches
 	}
 
 	return packedPatches
 }
 
+// changesValue tells whether a patch changes the value that its path has by the earlier patches,
+// and updates these latest values. The first patch of a path always does.
+func changesValue(latestValues map[string]any, patch tsonpatch.Operation) bool {
+	pt := location(patch.Path)
+	if patch.Op != tsonpatch.OpAdd && patch.Op != tsonpatch.OpReplace {
+		// Removed values are gone, and array elements behind them have moved
+		parent := pt[:strings.LastIndex(pt, "/")+1]
+		for path := range latestValues {
+			if strings.HasPrefix(path, parent) {
+				delete(latestValues, path)
+			}
+		}
+		return true
+	}
+
+	if prev, exists := latestValues[pt]; exists && sameValue(prev, patch.Value) {
+		return false
+	}
+	latestValues[pt] = patch.Value
+	return true
+}
+
+// location makes the JSON pointer of the place that a path, maybe a dotted one, denotes
+func location(path string) string {
+	if path == "" {
+		return path
+	}
+	if path[0] != '/' {
+		path = "/" + strings.ReplaceAll(strings.ReplaceAll(path, "~", "~0"), ".", "/")
+	}
+	parts := strings.Split(path, "/")
+	for i := range parts {
+		parts[i] = rfc6901Encoder.Replace(rfc6901Decoder.Replace(parts[i]))
+	}
+	return strings.Join(parts, "/")
+}
+
+func sameValue(a, b any) bool {
+	switch a.(type) {
+	case string, float64, int, bool:
+		return a == b
+	default: // no value of a leaf, may not be comparable
+		return false
+	}
+}
+
 func (lgm *Logument) TemporalTrack(tsi, tsj int64) map[uint64]tsonPatches {
 	// if !lgm.isContinuous() {
 	// 	panic("Versions are not continuous.")
-- 
2.43.0


From c041c38b6c1535552d3f8ab4d2bc7f8b9577ce3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:15 +0000
Subject: [PATCH 34/59] fix: time range tracking keeps changes after a removal

---
 internal/logument/logument.go | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 4befb82..847abc8 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -528,18 +528,9 @@ func (lgm *Logument) TemporalTrack(tsi, tsj int64) map[uint64]tsonPatches {
 		compactPatches := make(tsonPatches, 0, len(ps))
 		for _, p := range ps {
 			if p.Timestamp >= tsi && p.Timestamp <= tsj {
-				// Compare to previous value if it exists at the same path
-				if prev, exists := latestValues[p.Path]; exists {
-					// If value has changed, keep the patch and update the status
-					if prev != p.Value {
-						compactPatches = append(compactPatches, p)
-						latestValues[p.Path] = p.Value
-					}
-					// Skip if value is the same
-				} else {
-					// Always keep the patch when it appears for the first time
+				// If value has changed, keep the patch. Skip if value is the same
+				if changesValue(latestValues, p) {
 					compactPatches = append(compactPatches, p)
-					latestValues[p.Path] = p.Value
 				}
 			}
 		}
-- 
2.43.0


From bcc726456055b673f4891966e85e5540e78b0edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:16 +0000
Subject: [PATCH 35/59] fix: compaction drops no change and only touches its
 path

---
 internal/logument/logument.go | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 847abc8..189e57d 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -631,23 +631,8 @@ func (lgm *Logument) Compact(targetPath string) {
 		ps := lgm.Patches[version]
 		compactPatches := make(tsonPatches, 0, len(ps))
 		for _, p := range ps {
-			pt := rfc6901Decoder.Replace(p.Path)
-			if strings.HasPrefix(pt, targetPath) {
-				// Compare to previous value if it exists at the same path
-				if prev, exists := latestValues[p.Path]; exists {
-					// If value has changed, keep the patch and update the status
-					if prev != p.Value {
-						compactPatches = append(compactPatches, p)
-						latestValues[p.Path] = p.Value
-					}
-					// Skip if value is the same
-				} else {
-					// Always keep the patch when it appears for the first time
-					compactPatches = append(compactPatches, p)
-					latestValues[p.Path] = p.Value
-				}
-			} else {
-				// Keep patches that do not match the targetPath
+			// Keep the patch if value has changed, or if it does not match the targetPath
+			if changesValue(latestValues, p) || !below(p.Path, targetPath) {
 				compactPatches = append(compactPatches, p)
 			}
 		}
@@ -655,6 +640,11 @@ func (lgm *Logument) Compact(targetPath string) {
 	}
 }
 
+// below tells whether a path is the targetPath or a path below it
+func below(path, targetPath string) bool {
+	return strings.HasPrefix(location(path)+"/", location(targetPath)+"/")
+}
+
 func (lgm *Logument) History(targetPath string) map[string]tsonPatches {
 	// Get the history of the changes at the target path
 	// The history should contain all the patches that have changed the value at the target path
-- 
2.43.0


From c52c68948af75e55624a6bfaa53ac0c2414358d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:55 +0000
Subject: [PATCH 36/59] fix: a history is in version order, does not change the
 log and works without an initial value

---
 internal/logument/logument.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 189e57d..4e8466c 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -653,29 +653,33 @@ func (lgm *Logument) History(targetPath string) map[string]tsonPatches {
 		panic("Versions are not continuous.")
 	}
 
-	lgm.Compact(targetPath)
+	latestValues := make(map[string]any)
 
 	historyPatches := make(map[string]tsonPatches)
-	for _, patches := range lgm.Patches {
-		for _, patch := range patches {
-			path := rfc6901Decoder.Replace(patch.Path)
-			if strings.HasPrefix(path, targetPath) {
-				historyPatches[patch.Path] = append(historyPatches[patch.Path], patch)
+	for _, version := range lgm.getSortedVersions("patch") {
+		for _, patch := range lgm.Patches[version] {
+			if changesValue(latestValues, patch) && below(patch.Path, targetPath) {
+				path := location(patch.Path)
+				historyPatches[path] = append(historyPatches[path], patch)
 			}
 		}
 	}
 
 	// Add the initial value to the history
+	first := lgm.Version[0]
+	if len(lgm.Patches[first]) > 0 { // a slice, whose first snapshot already has these patches
+		return historyPatches
+	}
 	for key := range historyPatches {
-		val, err := tson.GetValue(lgm.Snapshots[0], key)
-		if err != nil {
-			panic("Failed to get the value from the snapshot. Error: " + err.Error())
+		val, err := tson.GetValue(lgm.Snapshots[first], key)
+		if err != nil { // no such value at first
+			continue
 		}
 		if val != nil {
 			historyPatches[key] = append([]tsonpatch.Operation{{
 				Op:        tsonpatch.OpAdd,
 				Path:      key,
-				Value:     val,
+				Value:     clone(val),
 				Timestamp: 0,
 			}},
 				historyPatches[key]...) // Add the initial value to the beginning
-- 
2.43.0


From 49f62e6296b7db7a66a21e7524c25421c0caa461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:56 +0000
Subject: [PATCH 37/59] fix: a slice has all of its versions, its first
 snapshot and its state

---
 internal/logument/logument.go | 41 ++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 4e8466c..496615f 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -214,6 +214,16 @@ func (lgm *Logument) Append() error {
 
 // Snapshot Create a snapshot at the target version
 func (lgm *Logument) Snapshot(vk uint64) tsonSnapshot {
+	timedSnapshot := lgm.makeSnapshot(vk)
+
+	if _, exists := lgm.Snapshots[vk]; !exists {
+		lgm.Snapshots[vk] = timedSnapshot
+	}
+
+	return clone(timedSnapshot)
+}
+
+func (lgm *Logument) makeSnapshot(vk uint64) tsonSnapshot {
 	// Find the latest version before the target version
 	latestVersion, latestSnapshot, err := lgm.findLatest(vk)
 	if err != nil {
@@ -236,11 +246,7 @@ func (lgm *Logument) Snapshot(vk uint64) tsonSnapshot {
 		timedSnapshot = latestSnapshot
 	}
 
-	if _, exists := lgm.Snapshots[vk]; !exists {
-		lgm.Snapshots[vk] = timedSnapshot
-	}
-
-	return clone(timedSnapshot)
+	return timedSnapshot
 }
 
 // clone copies a document, so that a change to the copy leaves it alone
@@ -323,7 +329,7 @@ func (lgm *Logument) Slice(vi, vj uint64) *Logument {
 	SlicedSnapshots := make(map[uint64]tsonSnapshot)
 	for _, version := range versionsFromSnapshot {
 		if version >= vi && version <= vj {
-			SlicedSnapshots[version] = lgm.Snapshots[version]
+			SlicedSnapshots[version] = clone(lgm.Snapshots[version])
 		}
 	}
 
@@ -331,25 +337,26 @@ func (lgm *Logument) Slice(vi, vj uint64) *Logument {
 	SlicedPatches := make(map[uint64]tsonPatches)
 	for _, version := range versionsFromPatch {
 		if version >= vi && version <= vj {
-			// SlicedVersions always includes all versions between the start and end versions
-			// because lgm.Version and lgm.PatchMap are continuous.
-			// However, lgm.Snapshots may not be continuous,
-			// so the following line works correctly only in this loop.
+			SlicedPatches[version] = slices.Clone(lgm.Patches[version])
+		}
+	}
+	for _, version := range lgm.Version { // the first version has no patches
+		if version >= vi && version <= vj {
 			SlicedVersions = append(SlicedVersions, version)
-			SlicedPatches[version] = lgm.Patches[version]
 		}
 	}
 
 	// Add the snapshot at the start version if it does not exist
-	if len(SlicedSnapshots) == 0 {
-		SlicedSnapshots[vi] = lgm.Snapshot(vi)
+	if _, exists := SlicedSnapshots[vi]; !exists {
+		SlicedSnapshots[vi] = clone(lgm.makeSnapshot(vi))
 	}
 
 	slicedLgm := &Logument{
-		Version:   SlicedVersions,
-		Snapshots: SlicedSnapshots,
-		Patches:   SlicedPatches,
-		PatchPool: nil,
+		Version:      SlicedVersions,
+		CurrentState: clone(lgm.makeSnapshot(vj)),
+		Snapshots:    SlicedSnapshots,
+		Patches:      SlicedPatches,
+		PatchPool:    nil,
 	}
 
 	return slicedLgm
-- 
2.43.0


From fd61ccefd8474f638ae501fee8c834021227dd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:52 +0000
Subject: [PATCH 38/59] fix: appending integrates the pending patches into the
 current state

---
 internal/logument/logument.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 496615f..fa28d54 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -28,6 +28,7 @@ type Logument struct {
 	Snapshots    map[uint64]tsonSnapshot // A map which contains an initial Snapshot (by `Create`) and Snapshots from `Snapshot` Function {version: Snapshot}
 	Patches      map[uint64]tsonPatches  // A map which contains Patches from `Append` Function {version: Patches}
 	PatchPool    tsonPatches             // A pool of Patches from `Store` Function
+	appended     tsonSnapshot            // The state of the latest version
 }
 
 func NewLogument(initialSnapshot any, initialPatches any) *Logument {
@@ -57,6 +58,7 @@ func NewLogument(initialSnapshot any, initialPatches any) *Logument {
 		Snapshots:    map[uint64]tsonSnapshot{0: snapshot},
 		Patches:      make(map[uint64]tsonPatches),
 		PatchPool:    nil,
+		appended:     snapshot,
 	}
 
 	if initialPatches != nil {
@@ -205,6 +207,12 @@ func (lgm *Logument) Append() error {
 		return fmt.Errorf("the patch for the next version already exists")
 	}
 
+	// Integrate the pending patches into the state
+	if state, err := tsonpatch.ApplyPatch(lgm.appended, lgm.PatchPool); err == nil {
+		lgm.appended = state
+		lgm.CurrentState = clone(state)
+	}
+
 	lgm.Patches[latestVersion+1] = lgm.PatchPool
 	lgm.Version = append(lgm.Version, latestVersion+1)
 	lgm.PatchPool = nil
@@ -357,6 +365,7 @@ func (lgm *Logument) Slice(vi, vj uint64) *Logument {
 		Snapshots:    SlicedSnapshots,
 		Patches:      SlicedPatches,
 		PatchPool:    nil,
+		appended:     lgm.makeSnapshot(vj),
 	}
 
 	return slicedLgm
-- 
2.43.0


From 7318dc08ab4fcaf1d008060d2b9dc45cc84e4ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:53 +0000
Subject: [PATCH 39/59] fix: test-and-set compares with the current state

---
 internal/logument/logument.go | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index fa28d54..02bd65e 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -568,11 +568,11 @@ func (lgm *Logument) Set(vk uint64, patch tsonpatch.Operation) {
 		return
 	}
 
-	var err error
-	lgm.CurrentState, err = tsonpatch.ApplyOperation(lgm.CurrentState, patch)
+	state, err := tsonpatch.ApplyOperation(lgm.CurrentState, patch)
 	if err != nil {
 		panic(fmt.Sprintf("failed to apply patch: %v", err))
 	}
+	lgm.CurrentState = state
 
 	if lgm.PatchPool == nil {
 		lgm.PatchPool = tsonpatch.Patch{patch}
@@ -587,18 +587,7 @@ func (lgm *Logument) TestSet(vk uint64, patch tsonpatch.Operation) {
 		return
 	}
 
-	if patch.Op == tsonpatch.OpAdd {
-		lgm.Set(vk, patch)
-		return
-	}
-
-	latesetSnapshot := lgm.Snapshots[lgm.Version[len(lgm.Version)-1]]
-	// if _, exists := lgm.Snapshots[vk]; !exists {
-	// 	s := lgm.Snapshot(vk)
-	// 	lgm.Snapshots[vk] = s
-	// }
-
-	exist_value, err := tson.GetValue(latesetSnapshot, patch.Path)
+	exist_value, err := tson.GetValue(lgm.CurrentState, location(patch.Path))
 	if err != nil {
 		lgm.Set(vk,
 			tsonpatch.Operation{
@@ -622,8 +611,11 @@ func leafCompareValue(leafValue tson.Value, value any) bool {
 			return leaf.Value == strVal
 		}
 	case tson.Leaf[float64]:
-		if floatVal, ok := value.(float64); ok {
-			return leaf.Value == floatVal
+		switch numVal := value.(type) {
+		case float64:
+			return leaf.Value == numVal
+		case int:
+			return leaf.Value == float64(numVal)
 		}
 	case tson.Leaf[bool]:
 		if boolVal, ok := value.(bool); ok {
-- 
2.43.0


From c6ad134840a85761d7e5d4c789f1d7bc5f716c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:54 +0000
Subject: [PATCH 40/59] fix: a temporal slice has consecutive versions and the
 state before it

---
 internal/logument/logument.go | 45 ++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 02bd65e..f80b6e6 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -2,6 +2,7 @@ package logument
 
 import (
 	"fmt"
+	"maps"
 	"slices"
 	"sort"
 	"strconv"
@@ -385,43 +386,43 @@ func (lgm *Logument) TemporalSlice(tsi, tsj int64) *Logument {
 
 	var SlicedVersions []uint64
 
-	versionsFromSnapshot := lgm.getSortedVersions("snapshot")
 	SlicedSnapshots := make(map[uint64]tsonSnapshot)
-	for _, version := range versionsFromSnapshot {
-		snapshot := lgm.Snapshots[version]
-		latestTimestamp := tson.GetLatestTimestamp(snapshot)
-		if latestTimestamp >= tsi && latestTimestamp <= tsj {
-			SlicedSnapshots[version] = snapshot
-		}
-	}
-
 	versionsFromPatch := lgm.getSortedVersions("patch")
 	SlicedPatches := make(map[uint64]tsonPatches)
 	for _, version := range versionsFromPatch {
 		patches := lgm.Patches[version]
 		for _, patch := range patches {
 			if patch.Timestamp >= tsi && patch.Timestamp <= tsj {
-				// SlicedVersions always includes all versions between the start and end times
-				// because lgm.Version and lgm.PatchMap are continuous.
-				// However, lgm.Snapshots may not be continuous,
-				// so the following line works correctly only in this loop.
-				SlicedVersions = append(SlicedVersions, version)
 				SlicedPatches[version] = append(SlicedPatches[version], patch)
 			}
 		}
 	}
 
-	// Add the snapshot at the start version if it does not exist
-	if len(SlicedSnapshots) == 0 {
-		startVersion := SlicedVersions[0]
-		SlicedSnapshots[startVersion] = lgm.TemporalSnapshot(tsi)
+	// Start just before the first patch, with the snapshot at that time, and end with the last patch
+	endVersion := lgm.Version[len(lgm.Version)-1]
+	startVersion := endVersion
+	if len(SlicedPatches) > 0 {
+		patched := slices.Sorted(maps.Keys(SlicedPatches))
+		startVersion, endVersion = patched[0]-1, patched[len(patched)-1]
+	}
+	startSnapshot := lgm.stateAt(func(ts int64) bool { return ts < tsi })
+	SlicedSnapshots[startVersion] = startSnapshot
+
+	state := startSnapshot
+	for version := startVersion; version <= endVersion; version++ {
+		SlicedVersions = append(SlicedVersions, version)
+		if next, err := tsonpatch.ApplyPatch(state, SlicedPatches[version]); err == nil {
+			state = next
+		}
 	}
 
 	slicedLgm := &Logument{
-		Version:   SlicedVersions,
-		Snapshots: SlicedSnapshots,
-		Patches:   SlicedPatches,
-		PatchPool: nil,
+		Version:      SlicedVersions,
+		CurrentState: clone(state),
+		Snapshots:    SlicedSnapshots,
+		Patches:      SlicedPatches,
+		PatchPool:    nil,
+		appended:     state,
 	}
 
 	return slicedLgm
-- 
2.43.0


From 8fb7ba5fc0011e2a9a5e0da8135027ae6f16fc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:58 +0000
Subject: [PATCH 41/59] fix: vssgen removes listed keys from objects that hold
 only objects

---
 internal/vssgen/vss.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/internal/vssgen/vss.go b/internal/vssgen/vss.go
index 6225caf..3e4dbd9 100644
--- a/internal/vssgen/vss.go
+++ b/internal/vssgen/vss.go
@@ -61,13 +61,12 @@ func (vss *VssJson) removeKeys(keys ...string) {
 	// Recursive (DFS) function to remove keys from JSON data
 	var remove func(data map[string]any, keysToRemove ...string)
 	remove = func(data map[string]any, keysToRemove ...string) {
+		for _, key := range keysToRemove {
+			delete(data, key)
+		}
 		for _, value := range data {
 			if nested, ok := value.(map[string]any); ok {
 				remove(nested, keysToRemove...)
-			} else {
-				for _, key := range keysToRemove {
-					delete(data, key)
-				}
 			}
 		}
 	}
-- 
2.43.0


From 8452cac1c9b49c6c708266be318d3f3edb2344e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 42/59] fix: array elements are re-stamped by the rates, not
 always

---
 internal/vssgen/vss.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/vssgen/vss.go b/internal/vssgen/vss.go
index 3e4dbd9..7c21dd4 100644
--- a/internal/vssgen/vss.go
+++ b/internal/vssgen/vss.go
@@ -293,6 +293,10 @@ func (vss VssJson) GenerateNext(changeRate, maintainRate float64, id int, fileNo
 			if arr, ok := value.([]any); ok {
 				new[node] = make([]any, 0)
 				for _, item := range arr {
+					if rand.Float64() >= changeRate+maintainRate {
+						new[node] = append(new[node].([]any), item)
+						continue
+					}
 					new[node] = append(new[node].([]any), map[string]any{
 						tsonValue:     item.(map[string]any)[tsonValue],
 						tsonTimestamp: timestamp,
-- 
2.43.0


From 50b6930793cc55f03e532e29cd0aa98304220ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 43/59] fix: a signal without a value stays a signal when it
 changes

---
 internal/vssgen/vss.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/vssgen/vss.go b/internal/vssgen/vss.go
index 7c21dd4..20967f1 100644
--- a/internal/vssgen/vss.go
+++ b/internal/vssgen/vss.go
@@ -330,6 +330,11 @@ func (vss VssJson) GenerateNext(changeRate, maintainRate float64, id int, fileNo
 						tsonValue:     rand.Float64() * 100,
 						tsonTimestamp: timestamp,
 					}
+				default:
+					new[node] = map[string]any{
+						tsonValue:     value.(map[string]any)[tsonValue],
+						tsonTimestamp: timestamp,
+					}
 				}
 			} else if r < (changeRate + maintainRate) {
 				// 값은 변하지 않고 타임스탬프만 변경되는 패치 생성
-- 
2.43.0


From de1e2e9630642b097a2b298b5b26c93b63fce7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:01 +0000
Subject: [PATCH 44/59] fix: a generated patch keeps its timestamps and is
 saved as JSON

---
 internal/vssgen/vss.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/internal/vssgen/vss.go b/internal/vssgen/vss.go
index 20967f1..6471e6c 100644
--- a/internal/vssgen/vss.go
+++ b/internal/vssgen/vss.go
@@ -377,8 +377,12 @@ func (vss VssJson) GenerateNext(changeRate, maintainRate float64, id int, fileNo
 	bytes, _ := json.Marshal(ops)
 
 	// Step 3. Unmarshal the []byte to a JSON object
-	var patch any
+	var patch []any
 	json.Unmarshal(bytes, &patch)
+	for i, op := range ops {
+		// float64 cannot hold every timestamp
+		patch[i].(map[string]any)[tsonTimestamp] = op.Timestamp
+	}
 
 	// Step 4. Return the new dataset and the patch
 	return &VssJson{initialized: true, data: result}, &VssJson{initialized: true, data: patch}
@@ -401,9 +405,13 @@ func (vss *VssJson) Save(file string) {
 			var buf bytes.Buffer
 			d := item.(map[string]any)
 
-			fmt.Fprintf(&buf,
-				`{ "op": "%s", "path": "%s", "value": %#v, "timestamp": %d }`,
-				d["op"], d["path"], d[tsonValue], int64(d[tsonTimestamp].(float64)))
+			path, _ := json.Marshal(d["path"])
+			fmt.Fprintf(&buf, `{ "op": "%s", "path": %s`, d["op"], path)
+			if value, ok := d[tsonValue]; ok {
+				encoded, _ := json.Marshal(value)
+				fmt.Fprintf(&buf, `, "value": %s`, encoded)
+			}
+			fmt.Fprintf(&buf, `, "timestamp": %d }`, d[tsonTimestamp])
 			lines = append(lines, "    "+buf.String())
 		}
 
-- 
2.43.0


From bfcaac80dee6c897bcd0831650cd8fa8efc5fb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:02 +0000
Subject: [PATCH 45/59] fix: every generated file follows the one before it

---
 internal/vssgen/args.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/vssgen/args.go b/internal/vssgen/args.go
index 427a634..15c0a94 100644
--- a/internal/vssgen/args.go
+++ b/internal/vssgen/args.go
@@ -106,7 +106,8 @@ func Generate(metadata map[string]any, dataFolder string) {
 
 		// Generate the rest of the JSON files
 		for j := 2; j <= files; j++ {
-			data, patch := data.GenerateNext(changeRate, maintainRate, i, j)
+			next, patch := data.GenerateNext(changeRate, maintainRate, i, j)
+			data = next
 			data.Save(filepath.Join(carDir, fmt.Sprintf("%d_%d.tson", i, j)))
 			patch.Save(filepath.Join(patchDir, fmt.Sprintf("%d_%d.json", i, j)))
 			bar.Add(1)
-- 
2.43.0


From 79cf480e8246420e7c2e46156b0d765384d0e865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:04 +0000
Subject: [PATCH 46/59] fix: generation runs without a maintain rate

---
 internal/vssgen/args.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/vssgen/args.go b/internal/vssgen/args.go
index 15c0a94..1784b85 100644
--- a/internal/vssgen/args.go
+++ b/internal/vssgen/args.go
@@ -72,12 +72,12 @@ func SaveMetadata(metadata map[string]any, dataFolder string) {
 // Generate generates the VSS dataset as TSON & JSON patch
 func Generate(metadata map[string]any, dataFolder string) {
 	var (
-		dataset      = metadata["dataset"].(string)
-		cars         = metadata["cars"].(int)
-		files        = metadata["files"].(int)
-		changeRate   = metadata["change_rate"].(float64)
-		maintainRate = metadata["maintain_rate"].(float64)
-		size         = metadata["size"].(float64)
+		dataset         = metadata["dataset"].(string)
+		cars            = metadata["cars"].(int)
+		files           = metadata["files"].(int)
+		changeRate      = metadata["change_rate"].(float64)
+		maintainRate, _ = metadata["maintain_rate"].(float64) // optional
+		size            = metadata["size"].(float64)
 	)
 
 	fmt.Printf("Generating %d cars with %d files each...\n", cars, files)
-- 
2.43.0


From cc2bc44ae488517f062c3747c3b46e484be6433a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:23 +0000
Subject: [PATCH 47/59] fix: a document with a valueless signal can be saved

---
 internal/tson/serialization.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index 0eea96b..5bebbe2 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -200,6 +200,9 @@ func marshalIndentValue(v any, currentIndent, indent string, ctx int) (string, e
 
 	case map[string]any:
 		if isLeaf, leafVal, ts := checkLeaf(t); isLeaf {
+			if leafVal == nil { // null has no timestamp
+				return "null", nil
+			}
 			primStr, err := formatPrimitive(leafVal)
 			if err != nil {
 				return "", err
@@ -234,7 +237,7 @@ func marshalIndentValue(v any, currentIndent, indent string, ctx int) (string, e
 			first = false
 			keyStr := strconv.Quote(key)
 			if m, ok := val.(map[string]any); ok {
-				if isLeaf, leafVal, ts := checkLeaf(m); isLeaf {
+				if isLeaf, leafVal, ts := checkLeaf(m); isLeaf && leafVal != nil {
 					primStr, err := formatPrimitive(leafVal)
 					if err != nil {
 						return "", err
@@ -266,7 +269,7 @@ func marshalIndentValue(v any, currentIndent, indent string, ctx int) (string, e
 			}
 			first = false
 			if m, ok := elem.(map[string]any); ok {
-				if isLeaf, leafVal, ts := checkLeaf(m); isLeaf {
+				if isLeaf, leafVal, ts := checkLeaf(m); isLeaf && leafVal != nil {
 					primStr, err := formatPrimitive(leafVal)
 					if err != nil {
 						return "", err
-- 
2.43.0


From bc603cd588966d0737da0c32e754713d62ebcadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 48/59] fix: a temporal JSON snapshot has no values from
 outside their interval

---
 exp/tjson.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/exp/tjson.go b/exp/tjson.go
index f0fd5e8..3a1b130 100644
--- a/exp/tjson.go
+++ b/exp/tjson.go
@@ -125,9 +125,6 @@ func getSnapshotForItem(item *TJSONItem, timestamp int64) interface{} {
 			versionFound = true
 			break
 		}
-
-		versionData = version.Data
-		versionFound = true
 	}
 
 	// 버전 데이터가 맵인 경우
-- 
2.43.0


From cce2adbc1c58f4afcfaa0e814052e9f16de5b4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:52 +0000
Subject: [PATCH 49/59] fix: a temporal JSON item at the top level keeps its
 value

---
 exp/tjson.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/exp/tjson.go b/exp/tjson.go
index 3a1b130..558c0dc 100644
--- a/exp/tjson.go
+++ b/exp/tjson.go
@@ -75,16 +75,14 @@ func (doc *TJSONDocument) AddItem(path string, startTime, endTime int64, value i
 			currentItem.Children[key] = childItem
 		}
 		currentItem = childItem
+	}
 
-		// 마지막 부분일 경우 값도 설정
-		if i == len(parts)-1 {
-			version := &TJSONVersion{
-				Timestamp: timestamp,
-				Data:      value,
-			}
-			currentItem.Versions = append(currentItem.Versions, version)
-		}
+	// 마지막 부분에 값 설정
+	version := &TJSONVersion{
+		Timestamp: timestamp,
+		Data:      value,
 	}
+	currentItem.Versions = append(currentItem.Versions, version)
 
 	return nil
 }
-- 
2.43.0


From 14d1b940ca38b9f7214824f63459a575784fe9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 50/59] fix: temporal JSON intervals with negative bounds are
 read back

---
 exp/tjson.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/exp/tjson.go b/exp/tjson.go
index 558c0dc..439cd55 100644
--- a/exp/tjson.go
+++ b/exp/tjson.go
@@ -258,13 +258,17 @@ func isTimeInRange(timestamp int64, timeRange string) bool {
 
 // Helper function to parse a time range string like "2015-2018"
 func parseTimeRange(timeRange string) (int64, int64) {
-	parts := strings.Split(timeRange, "-")
-	if len(parts) != 2 {
+	if timeRange == "" {
+		return 0, 0
+	}
+	// a leading "-" is the sign of the start
+	sep := strings.Index(timeRange[1:], "-") + 1
+	if sep == 0 {
 		return 0, 0
 	}
 
-	start, _ := strconv.ParseInt(parts[0], 10, 64)
-	end, _ := strconv.ParseInt(parts[1], 10, 64)
+	start, _ := strconv.ParseInt(timeRange[:sep], 10, 64)
+	end, _ := strconv.ParseInt(timeRange[sep+1:], 10, 64)
 	return start, end
 }
 
-- 
2.43.0


From 701fd19e48341c9932c049659c8f45942629143f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:55 +0000
Subject: [PATCH 51/59] fix: the last temporal JSON version of a value stays
 open

---
 exp/tjson.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/exp/tjson.go b/exp/tjson.go
index 439cd55..d97027d 100644
--- a/exp/tjson.go
+++ b/exp/tjson.go
@@ -2,11 +2,11 @@ package exp
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"sort"
 	"strconv"
 	"strings"
-	"time"
 
 	"github.com/davecgh/go-spew/spew"
 )
@@ -328,10 +328,9 @@ func FromTSONPatches(patches []TsonPatch) (*TJSONDocument, error) {
 		}
 	}
 
-	// Close time ranges for values that still exist at the end
-	currentTime := time.Now().Unix()
+	// Values that still exist at the end have open time ranges
 	for path, value := range lastValues {
-		err := doc.AddItem(path, lastTimes[path], currentTime, value)
+		err := doc.AddItem(path, lastTimes[path], math.MaxInt64, value)
 		if err != nil {
 			fmt.Printf("Warning: Failed to add final item for %s: %v\n", path, err)
 		}
-- 
2.43.0


From 680637ffba4364d2a011200682af0802915c5076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:57 +0000
Subject: [PATCH 52/59] fix: temporal JSON keeps the order of patches of one
 time

---
 exp/tjson.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exp/tjson.go b/exp/tjson.go
index d97027d..cde671e 100644
--- a/exp/tjson.go
+++ b/exp/tjson.go
@@ -218,7 +218,7 @@ func (doc *TJSONDocument) TemporalTrack(path string, startTime, endTime int64) (
 	}
 
 	// 타임스탬프 기준으로 결과 정렬
-	sort.Slice(results, func(i, j int) bool {
+	sort.SliceStable(results, func(i, j int) bool {
 		iStart, _ := parseTimeRange(results[i]["timestamp"].(string))
 		jStart, _ := parseTimeRange(results[j]["timestamp"].(string))
 		return iStart < jStart
@@ -277,7 +277,7 @@ func FromTSONPatches(patches []TsonPatch) (*TJSONDocument, error) {
 	doc := NewTJSONDocument()
 
 	// Sort patches by timestamp
-	sort.Slice(patches, func(i, j int) bool {
+	sort.SliceStable(patches, func(i, j int) bool {
 		return patches[i].Timestamp < patches[j].Timestamp
 	})
 
-- 
2.43.0


From 8c74b27a0fc4e9985a0c2e1cf99a53543b9a3aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:19 +0000
Subject: [PATCH 53/59] fix: the temporal experiment keeps the order of patches
 of one time

---
 exp/utils_temporal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exp/utils_temporal.go b/exp/utils_temporal.go
index 5c19c99..6317e0c 100644
--- a/exp/utils_temporal.go
+++ b/exp/utils_temporal.go
@@ -74,7 +74,7 @@ func NewTemporalQueryExperiment(inputDir, baseOutDir, scenario string, tsonPatch
 	allPatches = append(allPatches, tsonPatches...)
 
 	// Sort by timestamp
-	sort.Slice(allPatches, func(i, j int) bool {
+	sort.SliceStable(allPatches, func(i, j int) bool {
 		return allPatches[i].Timestamp < allPatches[j].Timestamp
 	})
 
-- 
2.43.0


From 98b15d07c23e3191a525f29c728944989c6029b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:21 +0000
Subject: [PATCH 54/59] fix: noise does not take a sensor out of its bounds

---
 exp/scenario.go |  4 ++++
 exp/utils.go    | 13 ++++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/exp/scenario.go b/exp/scenario.go
index e2324ef..16d0070 100644
--- a/exp/scenario.go
+++ b/exp/scenario.go
@@ -63,6 +63,8 @@ func InitializeVehicleData(scenario string) *VehicleData {
 		case "constant_with_noise":
 			sensorData.ChangeParams["baseline"] = vssSensor.DefaultValue.(float64)
 			sensorData.ChangeParams["noise"] = (vssSensor.Max - vssSensor.Min) * 0.01
+			sensorData.ChangeParams["min"] = vssSensor.Min
+			sensorData.ChangeParams["max"] = vssSensor.Max
 		case "toggle":
 			sensorData.ChangeParams["toggle_probability"] = 0.05
 		}
@@ -174,6 +176,8 @@ func updateAllSensorPatterns(vehicle *VehicleData, scenario string) {
 							sensor.ChangeParams["baseline"] = vssSensor.DefaultValue.(float64)
 						}
 						sensor.ChangeParams["noise"] = (vssSensor.Max - vssSensor.Min) * 0.01
+						sensor.ChangeParams["min"] = vssSensor.Min
+						sensor.ChangeParams["max"] = vssSensor.Max
 
 					case "toggle":
 						sensor.ChangeParams["toggle_probability"] = 0.05
diff --git a/exp/utils.go b/exp/utils.go
index 2547e70..a12b7e0 100644
--- a/exp/utils.go
+++ b/exp/utils.go
@@ -266,7 +266,18 @@ func calculateNewNumberValue(sensor *SensorData, currentTimeMs int64, scenario s
 		// 기준 값 주위로 노이즈 추가
 		baseline := sensor.ChangeParams["baseline"]
 		noise := sensor.ChangeParams["noise"]
-		return baseline + (rand.Float64()*2.0-1.0)*noise
+		min := sensor.ChangeParams["min"]
+		max := sensor.ChangeParams["max"]
+		newValue := baseline + (rand.Float64()*2.0-1.0)*noise
+
+		// 범위 제한
+		if newValue < min {
+			newValue = min
+		} else if newValue > max {
+			newValue = max
+		}
+
+		return newValue
 
 	case "linear":
 		// 직선적 변화 (기울기에 따라 증가/감소)
-- 
2.43.0


From 5ec25a3a61c2fe450d887d74411a0f56b963cf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:28 +0000
Subject: [PATCH 55/59] fix: the web demo shows the original document when no
 patch is asked for

---
 web_demo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/web_demo.go b/web_demo.go
index 0745eb6..28a0b26 100644
--- a/web_demo.go
+++ b/web_demo.go
@@ -103,8 +103,8 @@ func patchHandler(w http.ResponseWriter, r *http.Request) {
 	// Apply the pathes and make a snapshot
 	lgm.Append()
 
-	// Take the snapshot
-	snapshot := lgm.Snapshot(1)
+	// Take the snapshot (if there were no patches, it is the original)
+	snapshot := lgm.Snapshot(lgm.Version[len(lgm.Version)-1])
 	result, _ := tson.MarshalIndent(snapshot, "", "  ")
 
 	// Send the result
-- 
2.43.0


From c43de06569582629f7ae3ed8284308d154c2e9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:29 +0000
Subject: [PATCH 56/59] fix: the web demo answers 404 for a car or patch it
 does not have

---
 web_demo.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/web_demo.go b/web_demo.go
index 28a0b26..17669be 100644
--- a/web_demo.go
+++ b/web_demo.go
@@ -85,16 +85,24 @@ func updateHandler(w http.ResponseWriter, r *http.Request) {
 // patchHandler handles the patch request, sending the patched TSON
 func patchHandler(w http.ResponseWriter, r *http.Request) {
 	var (
-		car, _          = strconv.Atoi(r.URL.Query().Get("car"))
-		maxpatch, _     = strconv.Atoi(r.URL.Query().Get("patch"))
-		originalTson, _ = os.ReadFile(fmt.Sprintf("dataset/car_%d/tson/%d_1.tson", car, car))
-		lgm             = logument.NewLogument(originalTson, nil)
+		car, _            = strconv.Atoi(r.URL.Query().Get("car"))
+		maxpatch, _       = strconv.Atoi(r.URL.Query().Get("patch"))
+		originalTson, err = os.ReadFile(fmt.Sprintf("dataset/car_%d/tson/%d_1.tson", car, car))
 	)
+	if err != nil {
+		http.NotFound(w, r)
+		return
+	}
+	lgm := logument.NewLogument(originalTson, nil)
 
 	for i := 2; i <= maxpatch; i++ {
 		// Read patch file
 		fileName := fmt.Sprintf("dataset/car_%d/patches/%d_%d.json", car, car, i)
-		patch, _ := os.ReadFile(fileName)
+		patch, err := os.ReadFile(fileName)
+		if err != nil {
+			http.NotFound(w, r)
+			return
+		}
 
 		// Append it to the PatchPool
 		lgm.Store(patch)
-- 
2.43.0


From da81106d81f6d6db94bfd4ab6bd32a8da4f9607f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:30 +0000
Subject: [PATCH 57/59] fix: the scenario experiment's JSON document is the one
 its patches make

---
 exp/exp_scenario.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/exp/exp_scenario.go b/exp/exp_scenario.go
index 3700703..ecccf9b 100644
--- a/exp/exp_scenario.go
+++ b/exp/exp_scenario.go
@@ -463,6 +463,7 @@ func runRealisticExperiment(scenario string, timingWriter *csv.Writer) (Experime
 						sensor.Value = newValue
 					} else {
 						timestampChangeCounter++
+						newValue = sensor.Value // too small a change is none
 					}
 
 					sensor.Timestamp = newTimestamp
-- 
2.43.0


From adeeaf4041085eb64ccb2ead2e2805e63bb0ca13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:49 +0000
Subject: [PATCH 58/59] fix: generate an array of allowed values for array
 signals

---
 internal/vssgen/vss.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/vssgen/vss.go b/internal/vssgen/vss.go
index 6471e6c..c4c43b2 100644
--- a/internal/vssgen/vss.go
+++ b/internal/vssgen/vss.go
@@ -193,6 +193,15 @@ func (vss VssJson) Generate(datasetSize float64, id int) *VssJson {
 					tsonTimestamp: timestamp,
 				}
 			}
+		case allowed_ok && dtype == "string[]":
+			array := metadata["allowed"].([]any)
+			new[node] = make([]any, 0)
+			for i := 0; i < rand.Intn(5)+1; i++ {
+				new[node] = append(new[node].([]any), map[string]any{
+					tsonValue:     array[rand.Intn(len(array))],
+					tsonTimestamp: timestamp,
+				})
+			}
 		case allowed_ok:
 			array := metadata["allowed"].([]any)
 			new[node] = map[string]any{
-- 
2.43.0


From 98a28b381939f2fb79daff3d115069b5429cfe0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:40 +0000
Subject: [PATCH 59/59] fix: a vehicle document converts to a Go map

---
 internal/vssgen/extension.go | 44 ++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/internal/vssgen/extension.go b/internal/vssgen/extension.go
index 72c6543..3c123a8 100644
--- a/internal/vssgen/extension.go
+++ b/internal/vssgen/extension.go
@@ -1,10 +1,7 @@
 package vssgen
 
 import (
-	"encoding/json"
 	"fmt"
-	"os"
-	"path/filepath"
 	"strconv"
 	"strings"
 )
@@ -16,28 +13,31 @@ func (vss *VssJson) GetData() interface{} {
 
 // ToMapStringInterface 메서드는 VSS 데이터를 map[string]interface{} 형식으로 변환합니다
 func (vss *VssJson) ToMapStringInterface() (map[string]interface{}, error) {
-	// 임시 파일에 저장하고 다시 읽어오기
-	tempDir, err := os.MkdirTemp("", "vssgen")
-	if err != nil {
-		return nil, fmt.Errorf("임시 디렉토리 생성 실패: %v", err)
-	}
-	defer os.RemoveAll(tempDir)
-
-	tempFile := filepath.Join(tempDir, "temp_data.json")
-	vss.Save(tempFile)
-
-	// 파일에서 데이터 읽기
-	jsonBytes, err := os.ReadFile(tempFile)
-	if err != nil {
-		return nil, fmt.Errorf("임시 파일 읽기 실패: %v", err)
+	// Save writes TSON text, which is no JSON, so copy the data instead
+	data, ok := vss.data.(map[string]interface{})
+	if !ok {
+		return nil, fmt.Errorf("VSS 데이터가 객체가 아님: %T", vss.data)
 	}
+	return copyValue(data).(map[string]interface{}), nil
+}
 
-	var result map[string]interface{}
-	if err := json.Unmarshal(jsonBytes, &result); err != nil {
-		return nil, fmt.Errorf("JSON 파싱 실패: %v", err)
+func copyValue(value interface{}) interface{} {
+	switch v := value.(type) {
+	case map[string]interface{}:
+		m := make(map[string]interface{}, len(v))
+		for key, child := range v {
+			m[key] = copyValue(child)
+		}
+		return m
+	case []interface{}:
+		arr := make([]interface{}, len(v))
+		for i, child := range v {
+			arr[i] = copyValue(child)
+		}
+		return arr
+	default:
+		return value
 	}
-
-	return result, nil
 }
 
 // BuildFromLeafNodes 메서드는 LeafNodes()로 얻은 데이터를 map[string]interface{}로 변환합니다
-- 
2.43.0

