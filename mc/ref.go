package main

// Reference model of JSON values and two reference parsers: S (strict, RFC 8259 plus the number range the library
// documents) and L (the documented/pinned leniencies added). Both are independent of the library.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
	"unsafe"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

type Kind byte

const (
	KNone Kind = iota
	KStr
	KNum
	KObj
	KArr
	KBool
	KNull
)

var kindToType = [...]jsonvalue.ValueType{jsonvalue.NotExist, jsonvalue.String, jsonvalue.Number, jsonvalue.Object, jsonvalue.Array, jsonvalue.Boolean, jsonvalue.Null}

// Val is a JSON value of the model. Objects keep the order of the latest set of each key.
type Val struct {
	K Kind
	S string // string content or number text
	B bool
	A []*Val
	O []Member
}

type Member struct {
	K string
	V *Val
}

func vStr(s string) *Val  { return &Val{K: KStr, S: s} }
func vNum(s string) *Val  { return &Val{K: KNum, S: s} }
func vBool(b bool) *Val   { return &Val{K: KBool, B: b} }
func vNull() *Val         { return &Val{K: KNull} }
func vArr(a ...*Val) *Val { return &Val{K: KArr, A: a} }
func vObj(kv ...any) *Val {
	o := &Val{K: KObj}
	for i := 0; i+1 < len(kv); i += 2 {
		o.set(kv[i].(string), kv[i+1].(*Val))
	}
	return o
}

func (v *Val) get(k string) *Val {
	for i := range v.O {
		if v.O[i].K == k {
			return v.O[i].V
		}
	}
	return nil
}

// set puts key k at the end of the set sequence.
func (v *Val) set(k string, c *Val) {
	v.del(k)
	v.O = append(v.O, Member{k, c})
}

func (v *Val) del(k string) bool {
	for i := range v.O {
		if v.O[i].K == k {
			v.O = append(append([]Member{}, v.O[:i]...), v.O[i+1:]...)
			return true
		}
	}
	return false
}

func (v *Val) clone() *Val {
	c := &Val{K: v.K, S: v.S, B: v.B}
	for _, x := range v.A {
		c.A = append(c.A, x.clone())
	}
	for _, m := range v.O {
		c.O = append(c.O, Member{m.K, m.V.clone()})
	}
	return c
}

// String renders compact JSON in set order (all strings escaped conservatively). Canonical for ordered content.
func (v *Val) String() string {
	var b strings.Builder
	v.write(&b, false)
	return b.String()
}

// canon renders with sorted keys.
func (v *Val) canon() string {
	var b strings.Builder
	v.write(&b, true)
	return b.String()
}

func (v *Val) write(b *strings.Builder, sorted bool) {
	if v == nil {
		b.WriteString("<nil>")
		return
	}
	switch v.K {
	case KStr:
		b.WriteString(quoteRef(v.S))
	case KNum:
		b.WriteString(v.S)
	case KBool:
		b.WriteString(strconv.FormatBool(v.B))
	case KNull:
		b.WriteString("null")
	case KArr:
		b.WriteByte('[')
		for i, x := range v.A {
			if i > 0 {
				b.WriteByte(',')
			}
			x.write(b, sorted)
		}
		b.WriteByte(']')
	case KObj:
		ms := v.O
		if sorted {
			ms = append([]Member{}, ms...)
			sort.Slice(ms, func(i, j int) bool { return ms[i].K < ms[j].K })
		}
		b.WriteByte('{')
		for i, m := range ms {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(quoteRef(m.K))
			b.WriteByte(':')
			m.V.write(b, sorted)
		}
		b.WriteByte('}')
	default:
		b.WriteString("<none>")
	}
}

func quoteRef(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		switch {
		case r == utf8.RuneError && n <= 1:
			fmt.Fprintf(&b, "\\x%02x", s[i])
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteByte(byte(r))
		case r < 0x20 || r == 0x7f:
			fmt.Fprintf(&b, "\\u%04x", r)
		default:
			b.WriteString(s[i : i+n])
		}
		i += n
	}
	b.WriteByte('"')
	return b.String()
}

// ---- reference parser ----

type refParser struct {
	b       []byte
	i       int
	lenient bool
	anyNum  bool            // accept numbers of any size
	used    map[string]bool // leniency classes used
	steps   int
	onState func(depth string, st byte) // model state probe, may be nil
	stack   []byte
}

type parseErr string

func (e parseErr) Error() string { return string(e) }

func (p *refParser) use(class string) {
	if p.used == nil {
		p.used = map[string]bool{}
	}
	p.used[class] = true
}

// refParse parses a whole text. range-rejected numbers give errRange.
func refParse(b []byte, lenient bool) (v *Val, used map[string]bool, err error) {
	return refParseWith(&refParser{b: b, lenient: lenient})
}

// refParseAny is the pure grammar: numbers of any size are accepted.
func refParseAny(b []byte) (v *Val, err error) {
	v, _, err = refParseWith(&refParser{b: b, anyNum: true})
	return
}

func refParseWith(p *refParser) (v *Val, used map[string]bool, err error) {
	defer func() {
		if e := recover(); e != nil {
			pe, ok := e.(parseErr)
			if !ok {
				panic(e)
			}
			v, err = nil, pe
		}
	}()
	p.blanks()
	v = p.value()
	p.blanks()
	if p.i != len(p.b) {
		panic(parseErr("trailing data"))
	}
	return v, p.used, nil
}

func (p *refParser) blanks() {
	for p.i < len(p.b) {
		switch p.b[p.i] {
		case ' ', '\t', '\r', '\n':
		case '\b':
			if !p.lenient {
				return
			}
			p.use("blank-backspace")
		default:
			return
		}
		p.i++
	}
}

func (p *refParser) peek() byte {
	if p.i >= len(p.b) {
		return 0
	}
	return p.b[p.i]
}

func (p *refParser) lit(s string) {
	if p.i+len(s) > len(p.b) || string(p.b[p.i:p.i+len(s)]) != s {
		panic(parseErr("bad literal"))
	}
	p.i += len(s)
}

func (p *refParser) value() *Val {
	p.steps++
	if p.i >= len(p.b) {
		panic(parseErr("unexpected end"))
	}
	switch c := p.b[p.i]; c {
	case '{':
		return p.object()
	case '[':
		return p.array()
	case '"':
		return vStr(p.str())
	case 't':
		p.lit("true")
		return vBool(true)
	case 'f':
		p.lit("false")
		return vBool(false)
	case 'n':
		p.lit("null")
		return vNull()
	default:
		if c == '-' || (c >= '0' && c <= '9') {
			return p.number()
		}
		panic(parseErr("unexpected character"))
	}
}

func (p *refParser) array() *Val {
	p.i++
	a := &Val{K: KArr}
	if !p.lenient {
		p.blanks()
		if p.peek() == ']' {
			p.i++
			return a
		}
		for {
			p.blanks()
			a.A = append(a.A, p.value())
			p.blanks()
			switch {
			case p.i < len(p.b) && p.b[p.i] == ',':
				p.i++
			case p.i < len(p.b) && p.b[p.i] == ']':
				p.i++
				return a
			default:
				panic(parseErr("expected , or ]"))
			}
		}
	}
	commas := 0
	for {
		p.blanks()
		if p.i >= len(p.b) {
			panic(parseErr("unexpected end"))
		}
		switch p.b[p.i] {
		case ']':
			if commas > 0 {
				p.use("surplus-comma-in-array")
			}
			p.i++
			return a
		case ',':
			commas++
			p.i++
		default:
			if len(a.A) > 0 && commas == 0 {
				p.use("missing-comma-in-array")
			}
			if commas > 1 || (commas > 0 && len(a.A) == 0) {
				p.use("surplus-comma-in-array")
			}
			a.A = append(a.A, p.value())
			commas = 0
		}
	}
}

func (p *refParser) object() *Val {
	p.i++
	o := &Val{K: KObj}
	commas, n := 0, 0
	var seen map[string]bool // index of large objects
	p.blanks()
	for {
		p.blanks()
		if p.i >= len(p.b) {
			panic(parseErr("unexpected end"))
		}
		c := p.b[p.i]
		switch {
		case c == '}' && (n == 0 || commas == 0 || p.lenient):
			if commas > 0 {
				if !p.lenient {
					panic(parseErr("unexpected }"))
				}
				p.use("surplus-comma-in-object")
			}
			p.i++
			return o
		case c == ',' && ((n > 0 && commas == 0) || p.lenient):
			commas++
			p.i++
			continue
		case c == '"' && (n == 0 || commas > 0 || p.lenient):
			if n > 0 && commas == 0 {
				p.use("missing-comma-in-object")
			}
			if commas > 1 || (commas > 0 && n == 0) {
				p.use("surplus-comma-in-object")
			}
			k := p.str()
			p.blanks()
			if p.peek() != ':' {
				panic(parseErr("expected :"))
			}
			p.i++
			p.blanks()
			m := Member{k, p.value()}
			switch {
			case n < 16 || seen == nil:
				o.set(k, m.V)
				if n == 16 {
					seen = map[string]bool{}
					for _, x := range o.O {
						seen[x.K] = true
					}
				}
			case seen[k]:
				o.set(k, m.V)
			default:
				seen[k] = true
				o.O = append(o.O, m)
			}
			n++
			commas = 0
		default:
			panic(parseErr("unexpected character in object"))
		}
	}
}

func hexVal(c byte) (rune, bool) {
	switch {
	case c >= '0' && c <= '9':
		return rune(c - '0'), true
	case c >= 'a' && c <= 'f':
		return rune(c-'a') + 10, true
	case c >= 'A' && c <= 'F':
		return rune(c-'A') + 10, true
	}
	return 0, false
}

func (p *refParser) hex4() rune {
	if p.i+4 > len(p.b) {
		panic(parseErr("short \\u escape"))
	}
	r := rune(0)
	for k := 0; k < 4; k++ {
		h, ok := hexVal(p.b[p.i+k])
		if !ok {
			panic(parseErr("bad hex digit"))
		}
		r = r<<4 | h
	}
	p.i += 4
	return r
}

func (p *refParser) str() string {
	if p.peek() != '"' {
		panic(parseErr("expected string"))
	}
	p.i++
	var out []byte
	for {
		if p.i >= len(p.b) {
			panic(parseErr("unterminated string"))
		}
		c := p.b[p.i]
		switch {
		case c == '"':
			p.i++
			return string(out)
		case c == '\\':
			if p.i+1 >= len(p.b) {
				panic(parseErr("unterminated escape"))
			}
			e := p.b[p.i+1]
			p.i += 2
			switch e {
			case '"', '\\', '/':
				out = append(out, e)
			case '\'':
				if !p.lenient {
					panic(parseErr("bad escape"))
				}
				p.use("escaped-apostrophe")
				out = append(out, e)
			case 'b':
				out = append(out, 8)
			case 'f':
				out = append(out, 12)
			case 'n':
				out = append(out, 10)
			case 'r':
				out = append(out, 13)
			case 't':
				out = append(out, 9)
			case 'u':
				r := p.hex4()
				if r >= 0xDC00 && r <= 0xDFFF {
					panic(parseErr("lone low surrogate"))
				}
				if r >= 0xD800 && r <= 0xDBFF {
					if p.i+1 >= len(p.b) || p.b[p.i] != '\\' || p.b[p.i+1] != 'u' {
						panic(parseErr("lone high surrogate"))
					}
					p.i += 2
					lo := p.hex4()
					if lo < 0xDC00 || lo > 0xDFFF {
						panic(parseErr("bad low surrogate"))
					}
					r = 0x10000 + (r-0xD800)<<10 + (lo - 0xDC00)
				}
				out = utf8.AppendRune(out, r)
			default:
				panic(parseErr("bad escape"))
			}
		case c < 0x20:
			if !p.lenient {
				panic(parseErr("control character in string"))
			}
			p.use("raw-control-character-in-string")
			out = append(out, c)
			p.i++
		case c < 0x80:
			out = append(out, c)
			p.i++
		default:
			r, n := utf8.DecodeRune(p.b[p.i:])
			if r == utf8.RuneError && n <= 1 {
				panic(parseErr("invalid UTF-8"))
			}
			out = append(out, p.b[p.i:p.i+n]...)
			p.i += n
		}
	}
}

var (
	bigMin = new(big.Int).Lsh(big.NewInt(-1), 63)
	bigMax = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 64), big.NewInt(1))
)

// scanNumber returns the end of the longest JSON number at the start of b and whether it has a fraction or exponent.
func scanNumber(b []byte) (end int, floated bool, ok bool) {
	i := 0
	if i < len(b) && b[i] == '-' {
		i++
	}
	dig := func() int {
		n := 0
		for i < len(b) && b[i] >= '0' && b[i] <= '9' {
			i++
			n++
		}
		return n
	}
	s := i
	if n := dig(); n == 0 || (n > 1 && b[s] == '0') {
		return 0, false, false
	}
	if i < len(b) && b[i] == '.' {
		i++
		floated = true
		if dig() == 0 {
			return 0, false, false
		}
	}
	if i < len(b) && (b[i] == 'e' || b[i] == 'E') {
		i++
		floated = true
		if i < len(b) && (b[i] == '+' || b[i] == '-') {
			i++
		}
		if dig() == 0 {
			return 0, false, false
		}
	}
	return i, floated, true
}

func (p *refParser) number() *Val {
	n, floated, ok := scanNumber(p.b[p.i:])
	if !ok {
		panic(parseErr("bad number"))
	}
	s := string(p.b[p.i : p.i+n])
	if !p.anyNum && !numberInRange(s, floated) {
		panic(parseErr("number out of range"))
	}
	p.i += n
	return vNum(s)
}

func numberInRange(s string, floated bool) bool {
	if floated {
		_, err := strconv.ParseFloat(s, 64)
		return err == nil
	}
	if len(s) < 18 {
		return true
	}
	x, _ := new(big.Int).SetString(s, 10)
	return x.Cmp(bigMin) >= 0 && x.Cmp(bigMax) <= 0
}

// ---- comparison of library values with the model through the public API ----

// diff returns "" when v has exactly the type and content of w, including number texts and array order; the order of
// object members is not looked at. It reads the value through Len and Get only.
func diff(w *Val, v *jsonvalue.V, path string) string { return diffVal(w, v, path, false) }

// diffSeq also requires every object to list its members in the model's set order.
func diffSeq(w *Val, v *jsonvalue.V, path string) string { return diffVal(w, v, path, true) }

func diffVal(w *Val, v *jsonvalue.V, path string, seq bool) string {
	if v == nil {
		return path + ": nil *V"
	}
	if v.ValueType() != kindToType[w.K] {
		return fmt.Sprintf("%s: type is %v, should be %v", path, v.ValueType(), kindToType[w.K])
	}
	switch w.K {
	case KStr:
		if s := v.String(); s != w.S {
			return fmt.Sprintf("%s: string is %q, should be %q", path, s, w.S)
		}
	case KNum:
		if s := v.String(); s != w.S {
			return fmt.Sprintf("%s: number text is %q, should be %q", path, s, w.S)
		}
	case KBool:
		if v.Bool() != w.B {
			return fmt.Sprintf("%s: bool is %v", path, v.Bool())
		}
	case KArr:
		if v.Len() != len(w.A) {
			return fmt.Sprintf("%s: length is %d, should be %d", path, v.Len(), len(w.A))
		}
		for i, x := range w.A {
			c, err := v.Get(i)
			if err != nil {
				return fmt.Sprintf("%s: Get(%d) fails: %v", path, i, err)
			}
			if d := diffVal(x, c, path+"["+strconv.Itoa(i)+"]", seq); d != "" {
				return d
			}
		}
	case KObj:
		if v.Len() != len(w.O) {
			return fmt.Sprintf("%s: length is %d, should be %d", path, v.Len(), len(w.O))
		}
		for _, m := range w.O {
			c, err := v.Get(m.K)
			if err != nil {
				return fmt.Sprintf("%s: Get(%q) fails: %v", path, m.K, err)
			}
			if d := diffVal(m.V, c, path+"."+strconv.Quote(m.K), seq); d != "" {
				return d
			}
		}
		if seq {
			if d := seqDiff(w, v, path); d != "" {
				return d
			}
		}
	}
	return ""
}

// seqDiff compares the set sequence of one object with the model.
func seqDiff(w *Val, v *jsonvalue.V, path string) string {
	var got []string
	v.RangeObjectsBySetSequence(func(k string, c *jsonvalue.V) bool { got = append(got, k); return len(got) <= len(w.O) })
	for i, m := range w.O {
		if i >= len(got) || got[i] != m.K {
			return fmt.Sprintf("%s: set sequence is %q, should be %s", path, got, w)
		}
	}
	if len(got) != len(w.O) {
		return fmt.Sprintf("%s: set sequence is %q, should be %s", path, got, w)
	}
	return ""
}

// sameContent compares ignoring member order and comparing number texts literally.
func sameContent(a, b *Val) bool { return a.canon() == b.canon() }

// read converts a library value to the model through the public API (set order).
func read(v *jsonvalue.V) *Val {
	if v == nil {
		return &Val{K: KNone}
	}
	switch v.ValueType() {
	case jsonvalue.String:
		return vStr(v.String())
	case jsonvalue.Number:
		return vNum(v.String())
	case jsonvalue.Boolean:
		return vBool(v.Bool())
	case jsonvalue.Null:
		return vNull()
	case jsonvalue.Array:
		a := &Val{K: KArr}
		v.RangeArray(func(i int, c *jsonvalue.V) bool { a.A = append(a.A, read(c)); return true })
		return a
	case jsonvalue.Object:
		o := &Val{K: KObj}
		v.RangeObjectsBySetSequence(func(k string, c *jsonvalue.V) bool { o.O = append(o.O, Member{k, read(c)}); return true })
		return o
	}
	return &Val{K: KNone}
}

// build constructs a library value from the model through the public constructors.
func build(w *Val) *jsonvalue.V {
	switch w.K {
	case KStr:
		return jsonvalue.NewString(w.S)
	case KNum:
		return jsonvalue.MustUnmarshalString(w.S)
	case KBool:
		return jsonvalue.NewBool(w.B)
	case KNull:
		return jsonvalue.NewNull()
	case KArr:
		a := jsonvalue.NewArray()
		for _, x := range w.A {
			a.MustAppend(build(x)).InTheEnd()
		}
		return a
	case KObj:
		o := jsonvalue.NewObject()
		for _, m := range w.O {
			o.MustSet(build(m.V)).At(m.K)
		}
		return o
	}
	return &jsonvalue.V{}
}

// unsafeString is a string over b's memory, to see whether somebody writes to it.
func unsafeString(b []byte) string { return unsafe.String(unsafe.SliceData(b), len(b)) }
