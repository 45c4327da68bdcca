package main

import (
	"encoding"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

// Marshalers that give any JSON or text at all, C13.

var givenTexts = []string{
	`""`, `"x"`, `"\u0000"`, `" "`, `0`, `-0`, `0.0`, `-0.0e9`, `1`, `-1`, `0.5`, `1e300`, `9223372036854775808`, `true`, `false`, `null`, `[]`, `[0]`, `[[]]`, `[null]`, `{}`, `{"":""}`, `{"a":0}`, `{"a":{}}`,
	" \n[ ]\t", ` { } `, ` 0 `, ` "" `, ` false`, "null\n", `{"b":[1,{"c":null}],"a":"é<\/\u2028"}`,
	``, ` `, `{`, `nul`, `1 2`, `[1`, `{"a"}`, `"`, `tru`, `-`,
}

func emptyJSON(v *Val) bool {
	switch v.K {
	case KStr:
		return v.S == ""
	case KNum:
		return numRat(v.S).Sign() == 0
	case KBool:
		return !v.B
	case KArr:
		return len(v.A) == 0
	case KObj:
		return len(v.O) == 0
	}
	return true
}

type gvVal struct{ J string }

func (g gvVal) MarshalJSON() ([]byte, error) { return []byte(g.J), nil }

type gvPtr struct{ J string }

func (g *gvPtr) MarshalJSON() ([]byte, error) { return []byte(g.J), nil }

type gvStr string

func (g gvStr) MarshalJSON() ([]byte, error) { return []byte(g), nil }

type gvBytes []byte

func (g gvBytes) MarshalJSON() ([]byte, error) { return append([]byte{}, g...), nil }

type gvMap map[string]string

func (g gvMap) MarshalJSON() ([]byte, error) { return []byte(g["j"]), nil }

type gvSlice []string

func (g gvSlice) MarshalJSON() ([]byte, error) { return []byte(g[0]), nil }

type gvArr [1]string

func (g gvArr) MarshalJSON() ([]byte, error) { return []byte(g[0]), nil }

type gvBoth struct{ J string }

func (g gvBoth) MarshalJSON() ([]byte, error) { return []byte(g.J), nil }
func (g gvBoth) MarshalText() ([]byte, error) { return []byte("never"), nil }

type gvFunc func() string

func (g gvFunc) MarshalJSON() ([]byte, error) { return []byte(g()), nil }

type gvEmb struct {
	gvVal
	Other int
}

// integer kinds that stand for the n-th of the texts
type (
	gvInt     int
	gvInt8    int8
	gvUint    uint
	gvUint16  uint16
	gvPtrInt  int32
	gvFloat   float64
	gvBool    bool
	gvUintptr uintptr
)

func (g gvInt) MarshalJSON() ([]byte, error)     { return []byte(givenTexts[g]), nil }
func (g gvInt8) MarshalJSON() ([]byte, error)    { return []byte(givenTexts[g]), nil }
func (g gvUint) MarshalJSON() ([]byte, error)    { return []byte(givenTexts[g]), nil }
func (g gvUint16) MarshalJSON() ([]byte, error)  { return []byte(givenTexts[g]), nil }
func (g *gvPtrInt) MarshalJSON() ([]byte, error) { return []byte(givenTexts[*g]), nil }
func (g gvFloat) MarshalJSON() ([]byte, error)   { return []byte(givenTexts[int(g)]), nil }
func (g gvUintptr) MarshalJSON() ([]byte, error) { return []byte(givenTexts[g]), nil }

var givenPlain = []string{"", "x", "0", "false", "null", "a\"<é\u2028", " ", "[]", "bad\xff", "\x00"}

type gtVal struct{ T string }

func (g gtVal) MarshalText() ([]byte, error) { return []byte(g.T), nil }

type gtPtr struct{ T string }

func (g *gtPtr) MarshalText() ([]byte, error) { return []byte(g.T), nil }

type gtStr string

func (g gtStr) MarshalText() ([]byte, error) { return []byte(g), nil }

type gtBytes []byte

func (g gtBytes) MarshalText() ([]byte, error) { return append([]byte{}, g...), nil }

type gtInt int

func (g gtInt) MarshalText() ([]byte, error) { return []byte(givenPlain[g]), nil }

type gtUint8 uint8

func (g gtUint8) MarshalText() ([]byte, error) { return []byte(givenPlain[g]), nil }

type gtPtrBool bool

func (g *gtPtrBool) MarshalText() ([]byte, error) { return []byte(fmt.Sprint("b", *g)), nil }

// keys of maps that are text marshalers, of every kind that may be a key
type (
	mkInt     int
	mkInt8    int8
	mkInt64   int64
	mkUint    uint
	mkUint8   uint8
	mkUint64  uint64
	mkUintptr uintptr
	mkString  string
	mkFloat   float64
	mkBool    bool
	mkArr     [2]int8
	mkStruct  struct{ A int }
	mkPtr     struct{ A int }
	mkJSON    int // gives JSON, not text
)

func (k mkInt) MarshalText() ([]byte, error)     { return []byte(fmt.Sprintf("i%d", int(k))), nil }
func (k mkInt8) MarshalText() ([]byte, error)    { return []byte(fmt.Sprintf("j%d", int(k))), nil }
func (k mkInt64) MarshalText() ([]byte, error)   { return []byte(fmt.Sprintf("l%d", int64(k))), nil }
func (k mkUint) MarshalText() ([]byte, error)    { return []byte(fmt.Sprintf("u%d", uint(k))), nil }
func (k mkUint8) MarshalText() ([]byte, error)   { return []byte(fmt.Sprintf("v%d", uint(k))), nil }
func (k mkUint64) MarshalText() ([]byte, error)  { return []byte(fmt.Sprintf("w%d", uint64(k))), nil }
func (k mkUintptr) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf("x%d", uint64(k))), nil }
func (k mkString) MarshalText() ([]byte, error)  { return []byte("never used"), nil }
func (k mkFloat) MarshalText() ([]byte, error)   { return []byte(fmt.Sprintf("f%v", float64(k))), nil }
func (k mkBool) MarshalText() ([]byte, error)    { return []byte(fmt.Sprintf("b%v", bool(k))), nil }
func (k mkArr) MarshalText() ([]byte, error)     { return []byte(fmt.Sprintf("a%d.%d", k[0], k[1])), nil }
func (k mkStruct) MarshalText() ([]byte, error)  { return []byte(fmt.Sprintf("s<%d", k.A)), nil }
func (k *mkPtr) MarshalText() ([]byte, error)    { return []byte(fmt.Sprintf("p%d", k.A)), nil }
func (k mkJSON) MarshalJSON() ([]byte, error)    { return []byte(`"json"`), nil }

func anySlice[T any](xs ...T) (out []any) {
	for _, x := range xs {
		out = append(out, x)
	}
	return
}

// givenJSON are the marshalers that give the i-th text.
func givenJSON(i int) []any {
	t := givenTexts[i]
	return []any{gvVal{t}, gvPtr{t}, gvStr(t), gvBytes(t), gvMap{"j": t}, gvSlice{t}, gvArr{t}, gvBoth{t}, gvFunc(func() string { return t }), gvEmb{gvVal{t}, 1}, gvInt(i), gvInt8(i), gvUint(i), gvUint16(i), gvPtrInt(i), gvFloat(i), gvUintptr(i), json.RawMessage(t)}
}

func givenText(i int) []any {
	t := givenPlain[i]
	return []any{gtVal{t}, gtPtr{t}, gtStr(t), gtBytes(t), gtInt(i), gtUint8(i)}
}

// givenPlaces puts the marshaler x everywhere it may stand. js is the JSON it gives ("" : none, an error), omit says whether omitempty drops it.
func givenPlaces(c *C, desc string, x any, js string, omit bool) {
	t, rv := reflect.TypeOf(x), reflect.ValueOf(x)
	raw := func(format string, parts ...any) any { return json.RawMessage(fmt.Sprintf(format, parts...)) }
	want := func(format string, n int) any {
		if js == "" {
			return make(chan int)
		}
		parts := make([]any, n)
		for i := range parts {
			parts[i] = js
		}
		return raw(format, parts...)
	}
	ptr := reflect.New(t)
	ptr.Elem().Set(rv)
	c.Do(func() string { return desc }, func() {
		importCheckAs(c, x, want(`%s`, 1))
		importCheckAs(c, ptr.Interface(), want(`%s`, 1))
		importCheckAs(c, []any{x, 1, ptr.Interface()}, want(`[%s,1,%s]`, 2))
		importCheckAs(c, map[string]any{"k": x}, want(`{"k":%s}`, 1))
	})
	s := reflect.MakeSlice(reflect.SliceOf(t), 2, 2)
	s.Index(0).Set(rv)
	s.Index(1).Set(rv)
	m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), t))
	m.SetMapIndex(reflect.ValueOf("k"), rv)
	c.Do(func() string { return desc + " in a slice and a map" }, func() {
		importCheckAs(c, s.Interface(), want(`[%s,%s]`, 2))
		importCheckAs(c, m.Interface(), want(`{"k":%s}`, 1))
	})
	for _, ft := range []reflect.Type{t, reflect.PointerTo(t), reflect.TypeOf((*any)(nil)).Elem(), reflect.TypeOf((*json.Marshaler)(nil)).Elem(), reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem(), s.Type(), m.Type(), reflect.ArrayOf(1, t)} {
		for _, tag := range []string{"", "omitempty", "string", "omitempty,string"} {
			st := reflect.StructOf([]reflect.StructField{
				{Name: "B", Type: reflect.TypeOf(0), Tag: `json:"b"`},
				{Name: "F", Type: ft, Tag: reflect.StructTag(`json:"f,` + tag + `"`)},
				{Name: "A", Type: reflect.TypeOf(0), Tag: `json:"a,omitempty"`}})
			y := reflect.New(st).Elem()
			f, inner := y.Field(1), "%s"
			switch {
			case ft == t:
				f.Set(rv)
			case ft == ptr.Type():
				f.Set(ptr)
			case ft == s.Type():
				f.Set(s.Slice(0, 1))
				inner = "[%s]"
			case ft == m.Type():
				f.Set(m)
				inner = `{"k":%s}`
			case ft.Kind() == reflect.Array:
				f.Index(0).Set(rv)
				inner = "[%s]"
			case t.Implements(ft) && ft.NumMethod() == 0:
				f.Set(rv)
			case t.Implements(ft):
				if ft.Method(0).Name == "MarshalText" && t.Implements(reflect.TypeOf((*json.Marshaler)(nil)).Elem()) {
					continue // the kind of the interface does not decide here
				}
				f.Set(rv)
			case ptr.Type().Implements(ft):
				f.Set(ptr)
			default:
				continue
			}
			marField := inner == "%s" && ft.NumMethod() > 0 || ft == t || ft == ptr.Type()
			for _, opts := range [][]jsonvalue.Option{nil, {jsonvalue.OptIgnoreOmitempty()}} {
				w := want(`{"b":0,"f":`+inner+`}`, 1)
				if opts != nil {
					w = want(`{"b":0,"f":`+inner+`,"a":0}`, 1)
				}
				if js != "" && opts == nil && strings.HasPrefix(tag, "omitempty") && marField && omit {
					w = raw(`{"b":0}`)
				}
				c.Do(func() string {
					return fmt.Sprintf("%s, field %v `%s` ignore omitempty %v", desc, ft, tag, opts != nil)
				}, func() {
					importCheckAs(c, y.Interface(), w, opts...)
					importCheckAs(c, y.Addr().Interface(), w, opts...)
				})
			}
		}
	}
}

func givenMarshalers(r *Run) {
	r.Par("given texts", fmt.Sprintf("JSON marshalers of 18 kinds giving each of %d texts (empty, not empty, malformed), text marshalers of 6 kinds giving each of %d, in every place of a value and every struct field kind and tag, with and without ignoring omitempty", len(givenTexts), len(givenPlain)), len(givenTexts)+len(givenPlain), func(c *C, sh int) {
		if sh < len(givenTexts) {
			js, omit := givenTexts[sh], false
			if v, err := refParseAny([]byte(js)); err != nil {
				js = ""
			} else {
				omit = emptyJSON(v)
			}
			for _, x := range givenJSON(sh) {
				givenPlaces(c, fmt.Sprintf("%T giving %q", x, givenTexts[sh]), x, js, omit)
			}
			return
		}
		t := givenPlain[sh-len(givenTexts)]
		b, _ := json.Marshal(t)
		for _, x := range givenText(sh - len(givenTexts)) {
			givenPlaces(c, fmt.Sprintf("%T giving %q", x, t), x, string(b), t == "")
		}
	})
	r.Seq("marshalers as keys", "maps with text marshalers of every kind as keys, values of 8 kinds", func(c *C) {
		n := 1
		pk := &mkPtr{4}
		keys := anySlice[any](mkInt(0), mkInt(-5), mkInt8(-128), mkInt64(1<<40), mkUint(3), mkUint8(255), mkUint64(1<<63), mkUintptr(7), mkString("s"), mkFloat(1.5), mkBool(true), mkArr{1, -2}, mkStruct{6}, pk, (*mkPtr)(nil), mkPtr{3}, mkJSON(9))
		vals := []any{1, "s", nil, true, []int{1}, map[string]int{"q": 1}, gvVal{`[7]`}, &n, make(chan int), gvVal{`{`}, &struct {
			M map[mkUint]int `json:",omitempty"`
		}{map[mkUint]int{2: 3}}}
		for _, k := range keys {
			for _, x := range vals {
				c.Do(func() string { return fmt.Sprintf("key %T(%v), value %T", k, k, x) }, func() {
					c.Step(1)
					kt := reflect.TypeOf(k)
					m := reflect.MakeMap(reflect.MapOf(kt, reflect.TypeOf((*any)(nil)).Elem()))
					xv := reflect.ValueOf(&x).Elem()
					m.SetMapIndex(reflect.ValueOf(k), xv)
					importCheck(c, m.Interface())
					importCheck(c, []any{m.Interface()})
					if x != nil {
						m2 := reflect.MakeMap(reflect.MapOf(kt, reflect.TypeOf(x)))
						m2.SetMapIndex(reflect.ValueOf(k), reflect.ValueOf(x))
						importCheck(c, m2.Interface())
					}
				})
			}
		}
		for _, ty := range []any{map[mkInt]int{}, map[mkUint8]string{}, map[encoding.TextMarshaler]int{}, map[encoding.TextMarshaler]int{mkInt(1): 2, mkStruct{3}: 4, pk: 5}} {
			c.Do(func() string { return fmt.Sprintf("%T", ty) }, func() { importCheck(c, ty) })
		}
	})
}
