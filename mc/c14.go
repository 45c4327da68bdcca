package main

import (
	"bytes"
	"encoding"
	"encoding/gob"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

func init() { checks["C14"] = c14 }

type unJSON struct{ Got string }

func (u *unJSON) UnmarshalJSON(b []byte) error {
	w, err := refParseAny(b)
	if err != nil {
		return err
	}
	u.Got = "json:" + w.canon()
	return nil
}

type unText struct{ Got string }

func (u *unText) UnmarshalText(b []byte) error {
	if string(b) == "a" {
		return errors.New("unText dislikes a")
	}
	u.Got = "text:" + string(b)
	return nil
}

type unFail struct{}

func (*unFail) UnmarshalJSON([]byte) error { return errors.New("unFail") }

type dstStruct struct {
	A   any
	B   *int           `json:"b"`
	Key map[string]any `json:"key"`
	E   string         `json:"é"`
	un  int            //nolint:unused
	dstInner
}

type dstInner struct {
	Q []int `json:"a"`
	Z bool  `json:",string"`
}

// exportTargets make the destinations: empty ones and ones that hold something already.
var exportTargets = []func() any{
	func() any { return new(any) },
	func() any { var x any = 5; return &x },
	func() any { var x any = &dstInner{Z: true}; return &x },
	func() any { return new(map[string]any) },
	func() any { return &map[string]any{"a": 1, "old": 2} },
	func() any { return map[string]any{"not": "a pointer"} },
	func() any { return new(map[string]int) },
	func() any { return new(map[int]any) },
	func() any { return new(map[string]*unJSON) },
	func() any { return new([]any) },
	func() any { return &[]any{1, 2, 3, 4, 5, 6} },
	func() any { return new([]int) },
	func() any { return new([][]any) },
	func() any { return &[2]any{"x", "y"} },
	func() any { return new([0]int) },
	func() any { return new(string) },
	func() any { return new(bool) },
	func() any { return new(int) },
	func() any { return new(int8) },
	func() any { return new(uint8) },
	func() any { return new(uint64) },
	func() any { return new(float32) },
	func() any { return new(float64) },
	func() any { return new(json.RawMessage) },
	func() any { return new(json.Number) },
	func() any { return new([]byte) },
	func() any { return new(nString) },
	func() any { return new(**int) },
	func() any { x := 3; p := &x; return &p },
	func() any { return new(dstStruct) },
	func() any { i := 9; return &dstStruct{A: 1, B: &i, E: "old", Key: map[string]any{"k": 1}} },
	func() any { return new(*dstStruct) },
	func() any { return new(struct{}) },
	func() any { return new(unJSON) },
	func() any { return new(unText) },
	func() any { return new([]unText) },
	func() any { return new(unFail) },
	func() any { return new(map[unTextKey]any) },
	func() any { return new(time.Time) },
	func() any { return new(big.Int) },
	func() any { return new(jsonvalue.V) },
	func() any { return jsonvalue.MustUnmarshalString(`{"old":[1,2],"a":3}`) },
	func() any { return new(*jsonvalue.V) },
	func() any { p := jsonvalue.NewString("old"); return &p },
	func() any { return new([]*jsonvalue.V) },
	func() any { return new(map[string]jsonvalue.V) },
	func() any { return new(struct{ A *jsonvalue.V }) },
	func() any { return new(fmt.Stringer) },
	func() any { return new(chan int) },
	func() any { return new(func()) },
	func() any { return nil },
	func() any { return 5 },
	func() any { return (*int)(nil) },
	func() any { return (*jsonvalue.V)(nil) },
}

type unTextKey struct{ K string }

func (u *unTextKey) UnmarshalText(b []byte) error { u.K = string(b); return nil }
func (u unTextKey) MarshalText() ([]byte, error)  { return []byte(u.K), nil }

var (
	_    encoding.TextUnmarshaler = (*unTextKey)(nil)
	vT                            = reflect.TypeOf(jsonvalue.V{})
	rawT                          = reflect.TypeOf(json.RawMessage{})
)

// canonGo renders Go data, library values and raw JSON by their content.
func canonGo(v reflect.Value) string {
	if !v.IsValid() {
		return "nil"
	}
	switch v.Type() {
	case vT:
		if !v.CanAddr() {
			p := reflect.New(vT)
			p.Elem().Set(v)
			v = p.Elem()
		}
		return "V:" + read(v.Addr().Interface().(*jsonvalue.V)).canon()
	case rawT:
		w, err := refParseAny(v.Bytes())
		if err != nil {
			return fmt.Sprintf("raw? %q", v.Bytes())
		}
		return "raw:" + w.canon()
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return "&" + v.Elem().Type().String() + "=" + canonGo(v.Elem())
	case reflect.Struct:
		var b strings.Builder
		for i := 0; i < v.NumField(); i++ {
			b.WriteString(v.Type().Field(i).Name + ":" + canonGo(v.Field(i)) + ";")
		}
		return "{" + b.String() + "}"
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			return "nil[]"
		}
		var b strings.Builder
		for i := 0; i < v.Len(); i++ {
			b.WriteString(canonGo(v.Index(i)) + ",")
		}
		return "[" + b.String() + "]"
	case reflect.Map:
		if v.IsNil() {
			return "nil map"
		}
		var ks []string
		for _, k := range v.MapKeys() {
			ks = append(ks, canonGo(k)+"="+canonGo(v.MapIndex(k)))
		}
		sort.Strings(ks)
		return "map" + strings.Join(ks, ",")
	case reflect.String:
		return strconv.Quote(v.String())
	case reflect.Float32, reflect.Float64:
		return fmt.Sprint(v.Float())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprint(v.Uint())
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	}
	return v.Kind().String()
}

// exportCheck compares Export with encoding/json decoding the text of the model.
func exportCheck(c *C, v *jsonvalue.V, w *Val, mk func() any) {
	text := []byte(w.jsonText())
	a, b := mk(), mk()
	err := v.Export(a)
	want := json.Unmarshal(text, b)
	c.Step(1)
	if (err == nil) != (want == nil) {
		c.Fail("Export gives error %v; encoding/json on %s gives %v", err, text, want)
	}
	if err != nil && reflect.TypeOf(rootErr(err)) != reflect.TypeOf(rootErr(want)) {
		c.Fail("Export gives error %T %v; encoding/json on %s gives %T %v", err, err, text, want, want)
	}
	if g, x := canonGo(reflect.ValueOf(a)), canonGo(reflect.ValueOf(b)); g != x {
		c.Fail("Export gives %s; encoding/json on %s gives %s (error %v)", g, text, x, err)
	}
}

// rootErr lets errors that a user's method returned compare by what the method returned.
func rootErr(err error) error {
	for {
		u := errors.Unwrap(err)
		if u == nil {
			return err
		}
		err = u
	}
}

// enclosing shapes for values inside Go data.
type enc struct {
	name string
	make func(*jsonvalue.V) any
	// the JSON around it and the path to the value
	text func(string) string
	get  func(dst any) *jsonvalue.V
	dst  func() any
}

type encField struct {
	N int          `json:"n"`
	V *jsonvalue.V `json:"v"`
	S string
}
type encVal struct {
	V jsonvalue.V `json:"v,omitempty"`
	N int
}
type encOmit struct {
	V *jsonvalue.V `json:"v,omitempty"`
}
type encEmbed struct{ *jsonvalue.V }
type encAny struct{ X any }
type encDeep struct {
	L []map[string]encField `json:"l"`
}

var encs = []enc{
	{"*V itself", func(v *jsonvalue.V) any { return v }, func(s string) string { return s }, func(d any) *jsonvalue.V { return d.(*jsonvalue.V) }, func() any { return new(jsonvalue.V) }},
	{"*V itself into a used V", func(v *jsonvalue.V) any { return v }, func(s string) string { return s }, func(d any) *jsonvalue.V { return d.(*jsonvalue.V) }, func() any { return jsonvalue.MustUnmarshalString(`{"a":{"old":1},"z":[1,2]}`) }},
	{"field *V", func(v *jsonvalue.V) any { return encField{1, v, "s"} }, func(s string) string { return `{"n":1,"v":` + s + `,"S":"s"}` }, func(d any) *jsonvalue.V { return d.(*encField).V }, func() any { return new(encField) }},
	{"field *V into a used one", func(v *jsonvalue.V) any { return &encField{1, v, "s"} }, func(s string) string { return `{"n":1,"v":` + s + `,"S":"s"}` }, func(d any) *jsonvalue.V { return d.(*encField).V }, func() any { return &encField{V: jsonvalue.MustUnmarshalString(`[1,{"a":2}]`)} }},
	{"field V", func(v *jsonvalue.V) any { return &encVal{*v, 1} }, func(s string) string { return `{"v":` + s + `,"N":1}` }, func(d any) *jsonvalue.V { return &d.(*encVal).V }, func() any { return new(encVal) }},
	{"omitempty *V", func(v *jsonvalue.V) any { return encOmit{v} }, func(s string) string { return `{"v":` + s + `}` }, func(d any) *jsonvalue.V { return d.(*encOmit).V }, func() any { return new(encOmit) }},
	{"[]*V", func(v *jsonvalue.V) any { return []*jsonvalue.V{nil, v, v} }, func(s string) string { return `[null,` + s + `,` + s + `]` }, func(d any) *jsonvalue.V { return (*d.(*[]*jsonvalue.V))[2] }, func() any { return new([]*jsonvalue.V) }},
	{"[]V", func(v *jsonvalue.V) any { return []jsonvalue.V{*v} }, func(s string) string { return `[` + s + `]` }, func(d any) *jsonvalue.V { return &(*d.(*[]jsonvalue.V))[0] }, func() any { return new([]jsonvalue.V) }},
	{"map[string]*V", func(v *jsonvalue.V) any { return map[string]*jsonvalue.V{"k": v} }, func(s string) string { return `{"k":` + s + `}` }, func(d any) *jsonvalue.V { return (*d.(*map[string]*jsonvalue.V))["k"] }, func() any { return new(map[string]*jsonvalue.V) }},
	{"embedded *V", func(v *jsonvalue.V) any { return encEmbed{v} }, func(s string) string { return s }, func(d any) *jsonvalue.V { return d.(*encEmbed).V }, func() any { return &encEmbed{new(jsonvalue.V)} }},
	{"any", func(v *jsonvalue.V) any { return encAny{v} }, func(s string) string { return `{"X":` + s + `}` }, func(d any) *jsonvalue.V { return d.(*encAny).X.(*jsonvalue.V) }, func() any { return &encAny{X: new(jsonvalue.V)} }},
	{"deep", func(v *jsonvalue.V) any { return encDeep{[]map[string]encField{{"m": {2, v, ""}}}} }, func(s string) string { return `{"l":[{"m":{"n":2,"v":` + s + `,"S":""}}]}` }, func(d any) *jsonvalue.V { return d.(*encDeep).L[0]["m"].V }, func() any { return new(encDeep) }},
	{"**V", func(v *jsonvalue.V) any { return &v }, func(s string) string { return s }, func(d any) *jsonvalue.V { return *d.(**jsonvalue.V) }, func() any { return new(*jsonvalue.V) }},
}

// sameValue compares a value with a model after a round trip: content, numbers by value.
func sameValue(c *C, what string, w *Val, v *jsonvalue.V, orig *jsonvalue.V) {
	if v == nil && w.K == KNull {
		return // encoding/json puts null into a pointer as nil
	}
	if v == nil {
		c.Fail("%s: nil *V, should be %s", what, w)
	}
	if d := diff(w, v, what); d != "" {
		c.Fail("%s", d)
	}
	if !v.Equal(orig) || !orig.Equal(v) {
		c.Fail("%s: %v does not Equal the original %v", what, v, orig)
	}
}

func roundTrip(c *C, w *Val, v *jsonvalue.V, e *enc) {
	c.Step(1)
	in := e.make(v)
	b, err := json.Marshal(in)
	if err != nil {
		c.Fail("json.Marshal of %s holding it: %v", e.name, err)
	}
	got, err := refParseAny(b)
	want, err2 := refParseAny([]byte(e.text(w.jsonText())))
	if err != nil || err2 != nil || !sameContent(got, want) {
		c.Fail("json.Marshal of %s holding it gives %s (%v)", e.name, b, err)
	}
	for _, style := range []func([]byte) []byte{
		func(b []byte) []byte { return b },
		func(b []byte) []byte { var o bytes.Buffer; _ = json.Indent(&o, b, "\t", " "); return o.Bytes() },
		func(b []byte) []byte { return []byte(" " + e.text(w.jsonText()) + "\n") },
	} {
		dst := e.dst()
		if err := json.Unmarshal(style(b), dst); err != nil {
			c.Fail("json.Unmarshal into %s: %v", e.name, err)
		}
		if e.name == "any" && w.K == KNull {
			continue // null replaces the interface
		}
		sameValue(c, "decoded "+e.name, w, e.get(dst), v)
	}
	if d := diff(w, v, "the value itself after the round trip"); d != "" {
		c.Fail("%s", d)
	}
}

func numFloat(s string) float64 { f, _ := strconv.ParseFloat(s, 64); return f }

func c14(r *Run) {
	leaves := []*Val{vNum("1"), vNum("-2.5e3"), vNum("300"), vNum("18446744073709551615"), vStr(""), vStr("a"), vStr("é<\u2028\"\\/\x00😀"), vStr("12"), vStr("YWJj"), vStr("2020-01-02T03:04:05Z"), vStr("true"), vBool(true), vBool(false), vNull(), vArr(), vObj()}
	keys := []string{"a", "b", "key", "é", "1"}
	n := r.Pick(3, 4)
	g := newTreeGen(leaves, keys)
	trees := g.upTo(n)
	sg := newTreeGen([]*Val{vNum("7"), vStr("x"), vNull()}, []string{"a", "b"})
	trees = append(trees, sg.upTo(n+2)...)
	cons := []func(*Val) *jsonvalue.V{build, buildMutated, func(w *Val) *jsonvalue.V { return jsonvalue.MustUnmarshalString(w.jsonText()) }}
	const chunk = 32
	chunks := (len(trees) + chunk - 1) / chunk
	part := func(sh int) []*Val { return trees[sh*chunk : min(len(trees), (sh+1)*chunk)] }
	r.Par("export", fmt.Sprintf("%d trees (%d leaves to %d nodes, 3 leaves to %d nodes) x %d destinations x 3 constructions", len(trees), len(leaves), n, n+2, len(exportTargets)), chunks, func(c *C, sh int) {
		for _, w := range part(sh) {
			c.State(hashStr(w.String()))
			for ci, mkv := range cons {
				if ci > 0 && !r.thorough && w.nodes() > 3 {
					continue
				}
				c.Do(func() string { return fmt.Sprintf("%s, construction %d", w, ci) }, func() {
					v := mkv(w)
					for _, mk := range exportTargets {
						exportCheck(c, v, w, mk)
					}
					if d := diff(w, v, "after Export"); d != "" {
						c.Fail("%s", d)
					}
				})
			}
		}
	})
	r.Par("round trips through encoding/json", fmt.Sprintf("%d trees x %d enclosing shapes x 3 layouts", len(trees), len(encs)), chunks, func(c *C, sh int) {
		for _, w := range part(sh) {
			c.Do(func() string { return w.String() }, func() {
				v := build(w)
				for i := range encs {
					roundTrip(c, w, v, &encs[i])
				}
			})
		}
	})
	r.Par("interface methods", "MarshalJSON, UnmarshalJSON, MarshalBinary, UnmarshalBinary called directly and through gob, into fresh and used values", chunks, func(c *C, sh int) {
		used := []func() *jsonvalue.V{func() *jsonvalue.V { return &jsonvalue.V{} }, func() *jsonvalue.V { return jsonvalue.MustUnmarshalString(`{"a":1,"b":[2]}`) }, func() *jsonvalue.V { return jsonvalue.NewString("old") }, func() *jsonvalue.V {
			v := jsonvalue.MustUnmarshalString(`[1,2,{"Q":1}]`)
			touchCaseless(v)
			return v
		}}
		for _, w := range part(sh) {
			c.Do(func() string { return w.String() }, func() {
				v := build(w)
				j, err := v.MarshalJSON()
				if err != nil {
					c.Fail("MarshalJSON: %v", err)
				}
				decodes(c, j, w, "MarshalJSON")
				bin, err := v.MarshalBinary()
				if err != nil {
					c.Fail("MarshalBinary: %v", err)
				}
				for _, mk := range used {
					c.Step(2)
					x := mk()
					if err := x.UnmarshalJSON(exact(j)); err != nil {
						c.Fail("UnmarshalJSON of %s: %v", j, err)
					}
					sameValue(c, "UnmarshalJSON", w, x, v)
					x = mk()
					if err := x.UnmarshalBinary(exact(bin)); err != nil {
						c.Fail("UnmarshalBinary of MarshalBinary's %q: %v", bin, err)
					}
					sameValue(c, "UnmarshalBinary", w, x, v)
				}
			})
		}
	})
	small := newTreeGen(leaves[:8], keys[:2]).upTo(r.Pick(2, 3))
	r.Par("gob", fmt.Sprintf("%d trees alone, in a struct field and in a slice", len(small)), len(small), func(c *C, sh int) {
		w := small[sh]
		c.Do(func() string { return w.String() }, func() {
			c.Step(1)
			v := build(w)
			var buf bytes.Buffer
			in := encGob{V: v, L: []*jsonvalue.V{v, jsonvalue.NewInt(5)}, N: 3}
			if err := gob.NewEncoder(&buf).Encode(in); err != nil {
				c.Fail("gob encode: %v", err)
			}
			var out encGob
			if err := gob.NewDecoder(&buf).Decode(&out); err != nil {
				c.Fail("gob decode: %v", err)
			}
			sameValue(c, "gob field", w, out.V, v)
			if len(out.L) != 2 || out.N != 3 {
				c.Fail("gob: %+v", out)
			}
			sameValue(c, "gob element", w, out.L[0], v)
			sameValue(c, "gob element 1", vNum("5"), out.L[1], jsonvalue.NewInt(5))
		})
	})
	r.Par("constructed numbers", "integers and floats around every power of two and ten made by the constructors: their JSON reads back as an equal value", 2, func(c *C, sh int) {
		do := func(desc string, v *jsonvalue.V) {
			c.Do(func() string { return desc }, func() {
				c.Step(1)
				b, err := v.MarshalBinary()
				if err != nil {
					c.Fail("MarshalBinary: %v", err)
				}
				var x jsonvalue.V
				if err := x.UnmarshalBinary(b); err != nil {
					if !bytes.ContainsAny(b, ".eE") && !numberInRange(string(b), false) {
						c.Known("float-beyond-64-bit-integers", "%s is not accepted back: %v", b, err)
						return
					}
					c.Fail("UnmarshalBinary of %s: %v", b, err)
				}
				if !x.Equal(v) || !v.Equal(&x) {
					c.Fail("%s reads back as %v", b, &x)
				}
				var f float64
				if err := v.Export(&f); err != nil || f != numFloat(string(b)) {
					c.Fail("Export(float64) of %s gives %v, %v", b, f, err)
				}
			})
		}
		if sh == 0 {
			for e := 0; e < 64; e++ {
				for d := -2; d <= 2; d++ {
					u := uint64(1)<<e + uint64(d)
					do(fmt.Sprint("uint64 ", u), jsonvalue.NewUint64(u))
					do(fmt.Sprint("int64 ", int64(u)), jsonvalue.NewInt64(int64(u)))
					do(fmt.Sprint("int64 ", -int64(u)), jsonvalue.NewInt64(-int64(u)))
				}
			}
			return
		}
		for e := -330; e <= 308; e++ {
			for _, m := range []float64{1, 2, 5, 9.999999999999999, 1.0000000000000002, 1.7976931348623157} {
				f, _ := strconv.ParseFloat(fmt.Sprintf("%ve%d", m, e), 64)
				if math.IsInf(f, 0) {
					continue
				}
				for _, s := range []float64{1, -1} {
					do(fmt.Sprint("float64 ", s*f), jsonvalue.NewFloat64(s*f))
					do(fmt.Sprint("float64f f ", s*f), jsonvalue.NewFloat64f(s*f, 'f', -1))
					if f < 1.797e308 { // rounds beyond the largest double
						do(fmt.Sprint("float64f e ", s*f), jsonvalue.NewFloat64f(s*f, 'E', 3))
					}
				}
			}
		}
	})
	r.Seq("errors", "not-exist values, NaN and infinities, ill-formed and out-of-range input: an error, and the destination keeps what it had", func(c *C) {
		for _, d := range []struct {
			what string
			v    *jsonvalue.V
		}{{"not-exist", &jsonvalue.V{}}, {"NaN", jsonvalue.NewFloat64(math.NaN())}, {"+Inf", jsonvalue.NewFloat64(math.Inf(1))}, {"-Inf", jsonvalue.NewFloat32(float32(math.Inf(-1)))},
			{"NaN below", func() *jsonvalue.V {
				v := jsonvalue.MustUnmarshalString(`{"a":[1,{"b":2}]}`)
				v.MustSet(jsonvalue.NewFloat64(math.NaN())).At("a", 1, "b")
				return v
			}()}} {
			for ti, mk := range exportTargets {
				c.Do(func() string { return fmt.Sprintf("Export %s into destination %d", d.what, ti) }, func() {
					c.Step(1)
					a, b := mk(), mk()
					if err := d.v.Export(a); err == nil {
						c.Fail("no error")
					}
					if canonGo(reflect.ValueOf(a)) != canonGo(reflect.ValueOf(b)) {
						c.Fail("the destination changed to %s", canonGo(reflect.ValueOf(a)))
					}
				})
			}
			c.Do(func() string { return "marshal " + d.what }, func() {
				c.Step(1)
				if _, err := json.Marshal(d.v); err == nil {
					c.Fail("json.Marshal gives no error")
				}
				if _, err := json.Marshal([]any{map[string]any{"k": d.v}}); err == nil {
					c.Fail("json.Marshal around it gives no error")
				}
				if _, err := d.v.MarshalJSON(); err == nil {
					c.Fail("MarshalJSON gives no error")
				}
				if _, err := d.v.MarshalBinary(); err == nil {
					c.Fail("MarshalBinary gives no error")
				}
			})
		}
		for _, s := range []string{"", " ", "nul", "[1", `{"a"}`, `"`, "1e999", "99999999999999999999", "[1]x", "\xff", `{"a":1e400}`, "truefalse", "-"} {
			for i, mk := range []func() *jsonvalue.V{func() *jsonvalue.V { return &jsonvalue.V{} }, func() *jsonvalue.V { return jsonvalue.MustUnmarshalString(`{"a":1,"b":[2]}`) }} {
				c.Do(func() string { return fmt.Sprintf("decode %q into %d", s, i) }, func() {
					c.Step(2)
					x, y := mk(), mk()
					if err := x.UnmarshalJSON([]byte(s)); err == nil {
						c.Fail("UnmarshalJSON gives no error")
					}
					if err := x.UnmarshalBinary([]byte(s)); err == nil {
						c.Fail("UnmarshalBinary gives no error")
					}
					_ = json.Unmarshal([]byte(s), x)
					if a, b := read(x), read(y); a.canon() != b.canon() {
						c.Fail("the failed decode leaves %s", a)
					}
				})
			}
		}
	})
}

type encGob struct {
	V *jsonvalue.V
	L []*jsonvalue.V
	N int
}
