package zzvf

import "unicode/utf8"

// Models of library functions, written as plain Go so that the engine can execute them.

func RunesToString(r []rune) string {
	var b []byte
	for _, x := range r {
		b = utf8.AppendRune(b, x)
	}
	return string(b)
}

func RuneToString(x int64) string {
	if x < 0 || x > 0x10ffff {
		x = 0xfffd
	}
	return string(utf8.AppendRune(nil, rune(x)))
}

func StringToRunes(s string) []rune {
	var r []rune
	for _, c := range s {
		r = append(r, c)
	}
	return r
}

func StringsIndex(s, sub string) int {
	n := len(sub)
	for i := 0; i+n <= len(s); i++ {
		if s[i:i+n] == sub {
			return i
		}
	}
	return -1
}

func StringsLastIndex(s, sub string) int {
	n := len(sub)
	for i := len(s) - n; i >= 0; i-- {
		if s[i:i+n] == sub {
			return i
		}
	}
	return -1
}

func StringsIndexByte(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func StringsLastIndexByte(s string, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func StringsCount(s, sub string) int {
	if len(sub) == 0 {
		return utf8.RuneCountInString(s) + 1
	}
	n := 0
	for {
		i := StringsIndex(s, sub)
		if i < 0 {
			return n
		}
		n++
		s = s[i+len(sub):]
	}
}

func BytesIndexByte(s []byte, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func BytesIndex(s, sub []byte) int { return StringsIndex(string(s), string(sub)) }
func BytesCount(s, sub []byte) int { return StringsCount(string(s), string(sub)) }

func StringsCompare(a, b string) int {
	if a == b {
		return 0
	}
	if a < b {
		return -1
	}
	return 1
}

func ReplacerReplace(oldnew []string, s string) string {
	var out []byte
	last := 0
	hit := false
	for i := 0; i < len(s); {
		m := -1
		for k := 0; k+1 < len(oldnew); k += 2 {
			o := oldnew[k]
			if i+len(o) <= len(s) && s[i:i+len(o)] == o {
				m = k
				break
			}
		}
		if m < 0 {
			i++
			continue
		}
		hit = true
		out = append(out, s[last:i]...)
		out = append(out, oldnew[m+1]...)
		i += len(oldnew[m])
		last = i
	}
	if !hit {
		return s
	}
	out = append(out, s[last:]...)
	return string(out)
}

const hexd = "0123456789abcdef"

// JSONQuote is encoding/json's string encoding with HTML escaping.
func JSONQuote(s string) string {
	b := []byte{'"'}
	for i := 0; i < len(s); {
		c := s[i]
		if c < utf8.RuneSelf {
			switch {
			case c == '"' || c == '\\':
				b = append(b, '\\', c)
			case c == '\n':
				b = append(b, '\\', 'n')
			case c == '\r':
				b = append(b, '\\', 'r')
			case c == '\t':
				b = append(b, '\\', 't')
			case c == '\b':
				b = append(b, '\\', 'b')
			case c == '\f':
				b = append(b, '\\', 'f')
			case c < 0x20 || c == '<' || c == '>' || c == '&':
				b = append(b, '\\', 'u', '0', '0', hexd[c>>4], hexd[c&15])
			default:
				b = append(b, c)
			}
			i++
			continue
		}
		r, n := utf8.DecodeRuneInString(s[i:])
		switch {
		case r == utf8.RuneError && n == 1:
			b = append(b, `\ufffd`...)
		case r == 0x2028:
			b = append(b, `\u2028`...)
		case r == 0x2029:
			b = append(b, `\u2029`...)
		default:
			b = append(b, s[i:i+n]...)
		}
		i += n
	}
	b = append(b, '"')
	return string(b)
}

// Coerce replaces invalid UTF-8 as encoding/json does.
func Coerce(s string) string {
	var b []byte
	for i := 0; i < len(s); {
		if s[i] < utf8.RuneSelf {
			b = append(b, s[i])
			i++
			continue
		}
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n == 1 {
			b = append(b, "\ufffd"...)
		} else {
			b = append(b, s[i:i+n]...)
		}
		i += n
	}
	return string(b)
}

// JN is a parsed JSON text. Kind: n t f s d(number) a o
type JN struct {
	Kind byte
	S    string
	Arr  []*JN
	Keys []string
}

type jparser struct {
	s     string
	pos   int
	depth int
}

func (p *jparser) ws() {
	for p.pos < len(p.s) && (p.s[p.pos] == ' ' || p.s[p.pos] == '\t' || p.s[p.pos] == '\n' || p.s[p.pos] == '\r') {
		p.pos++
	}
}

// JSONParse parses a whole JSON text; the string is an error text, empty on success.
func JSONParse(s string) (*JN, string) {
	p := &jparser{s: s}
	n, e := p.val()
	if e != "" {
		return nil, e
	}
	p.ws()
	if p.pos != len(p.s) {
		return nil, "invalid character after top-level value"
	}
	return n, ""
}

// JSONParsePrefix parses the first value and returns the offset after it.
func JSONParsePrefix(s string) (*JN, int, string) {
	p := &jparser{s: s}
	n, e := p.val()
	return n, p.pos, e
}

const eoj = "unexpected end of JSON input"

func (p *jparser) val() (*JN, string) {
	p.ws()
	if p.pos >= len(p.s) {
		return nil, eoj
	}
	switch c := p.s[p.pos]; {
	case c == '{':
		return p.obj()
	case c == '[':
		return p.arr()
	case c == '"':
		s, e := p.str()
		return &JN{Kind: 's', S: s}, e
	case c == '-' || c >= '0' && c <= '9':
		return p.num()
	case c == 't':
		return p.lit("true", 't')
	case c == 'f':
		return p.lit("false", 'f')
	case c == 'n':
		return p.lit("null", 'n')
	}
	return nil, "invalid character looking for beginning of value"
}

func (p *jparser) lit(w string, k byte) (*JN, string) {
	if len(p.s)-p.pos < len(w) {
		return nil, "invalid literal"
	}
	if p.s[p.pos:p.pos+len(w)] != w {
		return nil, "invalid literal"
	}
	p.pos += len(w)
	return &JN{Kind: k}, ""
}

func (p *jparser) digit() bool {
	return p.pos < len(p.s) && p.s[p.pos] >= '0' && p.s[p.pos] <= '9'
}

func (p *jparser) num() (*JN, string) {
	st := p.pos
	if p.s[p.pos] == '-' {
		p.pos++
	}
	if !p.digit() {
		return nil, "invalid character in numeric literal"
	}
	if p.s[p.pos] == '0' {
		p.pos++
	} else {
		for p.digit() {
			p.pos++
		}
	}
	if p.pos < len(p.s) && p.s[p.pos] == '.' {
		p.pos++
		if !p.digit() {
			return nil, "invalid character after decimal point in numeric literal"
		}
		for p.digit() {
			p.pos++
		}
	}
	if p.pos < len(p.s) && (p.s[p.pos] == 'e' || p.s[p.pos] == 'E') {
		p.pos++
		if p.pos < len(p.s) && (p.s[p.pos] == '+' || p.s[p.pos] == '-') {
			p.pos++
		}
		if !p.digit() {
			return nil, "invalid character in exponent of numeric literal"
		}
		for p.digit() {
			p.pos++
		}
	}
	return &JN{Kind: 'd', S: p.s[st:p.pos]}, ""
}

func hexv(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

func (p *jparser) u4() int {
	if p.pos+4 > len(p.s) {
		return -1
	}
	v := 0
	for i := 0; i < 4; i++ {
		h := hexv(p.s[p.pos+i])
		if h < 0 {
			return -1
		}
		v = v*16 + h
	}
	p.pos += 4
	return v
}

func (p *jparser) str() (string, string) {
	p.pos++
	var b []byte
	for {
		if p.pos >= len(p.s) {
			return "", eoj
		}
		c := p.s[p.pos]
		switch {
		case c == '"':
			p.pos++
			return string(b), ""
		case c == '\\':
			p.pos++
			if p.pos >= len(p.s) {
				return "", eoj
			}
			e := p.s[p.pos]
			p.pos++
			switch e {
			case '"', '\\', '/':
				b = append(b, e)
			case 'b':
				b = append(b, '\b')
			case 'f':
				b = append(b, '\f')
			case 'n':
				b = append(b, '\n')
			case 'r':
				b = append(b, '\r')
			case 't':
				b = append(b, '\t')
			case 'u':
				r := p.u4()
				if r < 0 {
					return "", "invalid character in \\u hexadecimal character escape"
				}
				if r >= 0xd800 && r < 0xe000 {
					ok := false
					if r < 0xdc00 && p.pos+1 < len(p.s) && p.s[p.pos] == '\\' && p.s[p.pos+1] == 'u' {
						sv := p.pos
						p.pos += 2
						r2 := p.u4()
						if r2 < 0 {
							return "", "invalid character in \\u hexadecimal character escape"
						}
						if r2 >= 0xdc00 && r2 < 0xe000 {
							r = (r-0xd800)<<10 | (r2 - 0xdc00) + 0x10000
							ok = true
						} else {
							p.pos = sv
						}
					}
					if !ok {
						r = 0xfffd
					}
				}
				b = utf8.AppendRune(b, rune(r))
			default:
				return "", "invalid character in string escape code"
			}
		case c < 0x20:
			return "", "invalid character in string literal"
		case c < utf8.RuneSelf:
			b = append(b, c)
			p.pos++
		default:
			r, n := utf8.DecodeRuneInString(p.s[p.pos:])
			if r == utf8.RuneError && n == 1 {
				b = append(b, "\ufffd"...)
			} else {
				b = append(b, p.s[p.pos:p.pos+n]...)
			}
			p.pos += n
		}
	}
}

func (p *jparser) arr() (*JN, string) {
	p.pos++
	n := &JN{Kind: 'a'}
	p.ws()
	if p.pos < len(p.s) && p.s[p.pos] == ']' {
		p.pos++
		return n, ""
	}
	for {
		v, e := p.val()
		if e != "" {
			return nil, e
		}
		n.Arr = append(n.Arr, v)
		p.ws()
		if p.pos >= len(p.s) {
			return nil, eoj
		}
		c := p.s[p.pos]
		p.pos++
		if c == ']' {
			return n, ""
		}
		if c != ',' {
			return nil, "invalid character after array element"
		}
	}
}

func (p *jparser) obj() (*JN, string) {
	p.pos++
	n := &JN{Kind: 'o'}
	p.ws()
	if p.pos < len(p.s) && p.s[p.pos] == '}' {
		p.pos++
		return n, ""
	}
	for {
		p.ws()
		if p.pos >= len(p.s) {
			return nil, eoj
		}
		if p.s[p.pos] != '"' {
			return nil, "invalid character looking for beginning of object key string"
		}
		k, e := p.str()
		if e != "" {
			return nil, e
		}
		p.ws()
		if p.pos >= len(p.s) {
			return nil, eoj
		}
		if p.s[p.pos] != ':' {
			return nil, "invalid character after object key"
		}
		p.pos++
		v, e := p.val()
		if e != "" {
			return nil, e
		}
		n.Keys = append(n.Keys, k)
		n.Arr = append(n.Arr, v)
		p.ws()
		if p.pos >= len(p.s) {
			return nil, eoj
		}
		c := p.s[p.pos]
		p.pos++
		if c == '}' {
			return n, ""
		}
		if c != ',' {
			return nil, "invalid character after object key:value pair"
		}
	}
}

// ParseDecimal reads a decimal float text: mantissa digits, decimal exponent; ok=false on a syntax error.
// big is set when the exact fast path does not apply.
func ParseDecimal(s string) (neg bool, mant uint64, exp int, nd int, ok bool) {
	i := 0
	if i < len(s) && (s[i] == '+' || s[i] == '-') {
		neg = s[i] == '-'
		i++
	}
	sawDigit, sawDot := false, false
	for ; i < len(s); i++ {
		c := s[i]
		if c == '.' {
			if sawDot {
				return
			}
			sawDot = true
			continue
		}
		if c >= '0' && c <= '9' {
			sawDigit = true
			if nd == 0 && c == '0' {
				if sawDot {
					exp--
				}
				continue
			}
			nd++
			mant = mant*10 + uint64(c&15)
			if sawDot {
				exp--
			}
			continue
		}
		break
	}
	if !sawDigit {
		return
	}
	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
		i++
		if i >= len(s) {
			return
		}
		es := 1
		if s[i] == '+' {
			i++
		} else if s[i] == '-' {
			es = -1
			i++
		}
		if i >= len(s) || s[i] < '0' || s[i] > '9' {
			return
		}
		e := 0
		for ; i < len(s) && s[i] >= '0' && s[i] <= '9'; i++ {
			if e < 10000 {
				e = e*10 + int(s[i]-'0')
			}
		}
		exp += es * e
	}
	if i != len(s) {
		return
	}
	ok = true
	return
}
