package main

import (
	"encoding"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"net"
	"reflect"
	"strings"
	"time"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

func init() { checks["C13"] = c13 }

// ---- marshalers ----

type valMar struct{ S string }

func (m valMar) MarshalJSON() ([]byte, error) { return []byte(`{"val":` + m.S + `}`), nil }

type ptrMar struct{ S string }

func (m *ptrMar) MarshalJSON() ([]byte, error) { return []byte(`["ptr",` + m.S + `]`), nil }

type valText struct{ S string }

func (m valText) MarshalText() ([]byte, error) { return []byte("text<" + m.S), nil }

type ptrText struct{ S string }

func (m *ptrText) MarshalText() ([]byte, error) { return []byte("ptext" + m.S), nil }

type strMar string

func (m strMar) MarshalJSON() ([]byte, error) { return []byte(`"S:` + string(m) + `"`), nil }

type sliceMar []int

func (m sliceMar) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprint(len(m))), nil }

type errMar struct{}

func (errMar) MarshalJSON() ([]byte, error) { return nil, errors.New("no") }

type badMar struct{}

func (badMar) MarshalJSON() ([]byte, error) { return []byte(`{"a":`), nil }

type errText struct{}

func (errText) MarshalText() ([]byte, error) { return nil, errors.New("no") }

type keyText struct{ A, B int }

func (k keyText) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf("%d-%d", k.A, k.B)), nil }

type intText int

func (k intText) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf("#%d", int(k))), nil }

// ---- named types ----

type (
	nBool   bool
	nInt    int8
	nUint   uint16
	nFloat  float32
	nString string
	nBytes  []byte
	nByte   byte
	nSlice  []string
	nMap    map[string]int
	nStruct struct{ X int }
)

// goVals are values of all leaf kinds.
func goVals() []any {
	p := func(x any) any {
		v := reflect.New(reflect.TypeOf(x))
		v.Elem().Set(reflect.ValueOf(x))
		return v.Interface()
	}
	out := []any{
		true, false, nBool(true), nBool(false), 0, 1, -1, int8(-128), int16(32767), int32(math.MinInt32), int64(math.MinInt64), int64(math.MaxInt64), nInt(-7),
		uint(0), uint8(255), uint16(65535), uint32(math.MaxUint32), uint64(math.MaxUint64), uintptr(99), nUint(8),
		0.0, math.Copysign(0, -1), 1.5, -0.1, 1e20, 1e21, 1e-6, 9.9e-7, 123456789.0, math.MaxFloat64, math.SmallestNonzeroFloat64, 1 << 53, float32(0), float32(0.1), float32(16777216), float32(math.MaxFloat32), float32(1e-7), float32(3.4e21), nFloat(2.5),
		"", "a", "é\"\\/<>&\u2028\x7f\x00", "bad\xffutf", "ok\xc3", "1.5", "true", "null", nString("n"), nString(""),
		[]byte{}, []byte("abc"), []byte{0xff, 0}, [3]byte{1, 2, 3}, [0]int{}, [2]bool{true, false},
		[]int{}, []int{1, 2}, []string{"", "x"}, []any{}, []any{nil, 1, "s", true, 1.5, []any{}, map[string]any{}}, []*int{nil, p(3).(*int)}, [][]byte{[]byte("x"), {}}, []nByte{1, 2}, nBytes("abc"), nBytes{}, nSlice{"q"}, nSlice{},
		map[string]int{}, map[string]int{"a": 1}, map[string]any{"": nil}, map[int]string{-1: "x"}, map[uint8]bool{200: true}, map[nString]int{"k": 1}, map[int64]any{math.MinInt64: []int{}}, map[string]int(nil), nMap{"m": 1}, nMap(nil), map[uintptr]int{5: 6}, map[string]map[string]int{"a": {"b": 1}, "c": nil},
		map[keyText]int{{1, 2}: 3}, map[intText]int{4: 5}, map[string][]byte{"b": []byte("x")}, map[nInt]nUint{-3: 3},
		struct{}{}, nStruct{5}, p(1), p("s"), p(true), p(p(2)), (*int)(nil), (**int)(nil), (*nStruct)(nil), p(nStruct{6}), p([]int{1}), p(map[string]int{"z": 1}), p([]byte("pb")),
		valMar{"1"}, p(valMar{`"x"`}), (*valMar)(nil), p(ptrMar{"2"}), (*ptrMar)(nil), valText{"t"}, p(valText{"u"}), (*valText)(nil), p(ptrText{"v"}), (*ptrText)(nil), strMar("z"), sliceMar{1, 2}, sliceMar{}, []ptrMar{{"1"}}, []valMar{{"1"}}, p([1]ptrMar{{"9"}}), map[string]*ptrMar{"k": {"4"}, "n": nil}, p(struct{ P ptrMar }{ptrMar{"8"}}),
		json.RawMessage(`{"r":[1, 2]}`), p(json.RawMessage(`3`)), time.Date(2020, 1, 2, 3, 4, 5, 6, time.UTC), p(time.Unix(0, 0).UTC()), big.NewInt(123), net.IPv4(1, 2, 3, 4), time.Second,
		errMar{}, badMar{}, errText{}, p(errMar{}),
		make(chan int), func() {}, complex(1, 1), complex64(2), (chan int)(nil), (func())(nil), math.NaN(), math.Inf(1), math.Inf(-1), float32(math.Inf(1)), map[bool]int{true: 1}, map[struct{ A int }]int{{1}: 1}, []chan int{}, map[string]func(){}, struct{ C chan int }{},
		[]any{make(chan int)}, []any{math.NaN()}, map[string]any{"c": complex(0, 1)},
		jsonvalue.NewInt(5), jsonvalue.MustUnmarshalString(`{"a":[1,"x"]}`), (*jsonvalue.V)(nil), &jsonvalue.V{}, []*jsonvalue.V{jsonvalue.NewString("s"), nil},
		[]valText{{"a"}}, [2]*ptrText{{"b"}, nil}, []error{nil}, []fmt.Stringer{nil}, []json.Marshaler{valMar{"1"}, &ptrMar{"2"}, nil}, []encoding.TextMarshaler{valText{"q"}, nil, &ptrText{"w"}},
	}
	return out
}

// goKeys are map keys of every kind that may be one.
func goKeys() (out []any) {
	for _, n := range []int64{0, 1, -1, 9, 10, -10, 99, 100, 127, -128, 255, 256, 32767, -32768, 65535, math.MaxInt32, math.MinInt32, 1 << 32, 1<<53 + 1, math.MaxInt64, math.MinInt64, math.MinInt64 + 1} {
		for _, z := range []any{int(0), int8(0), int16(0), int32(0), int64(0), nInt(0), uint(0), uint8(0), uint16(0), uint32(0), uint64(0), uintptr(0), nUint(0)} {
			v := reflect.New(reflect.TypeOf(z)).Elem()
			if v.CanInt() {
				if v.OverflowInt(n) {
					continue
				}
				v.SetInt(n)
			} else {
				if n < -128 || v.OverflowUint(uint64(n)) { // the small negative ones become the largest unsigned ones
					continue
				}
				v.SetUint(uint64(n))
			}
			out = append(out, v.Interface())
		}
	}
	out = append(out, uint64(1<<63), uint64(1<<63-1), uint(1<<63), uintptr(1<<63))
	for _, s := range []string{"", "a", "0", "-1", " ", "é", "a.b", "a\"b", "\\", "/", "<&>", "\x00", "\x7f", "\u2028", "ſ", "K", strings.Repeat("k", 70)} {
		out = append(out, s, nString(s))
	}
	return append(out, keyText{1, 2}, keyText{0, 0}, keyText{1, 1}, intText(4), intText(0), intText(-4))
}

var showAny = func(x any) string {
	s := fmt.Sprintf("%T(%+v)", x, x)
	if strings.Contains(s, "0x") {
		s = fmt.Sprintf("%T", x)
	}
	return clip(s, 300)
}

// hasMap: the encoding has members of maps, whose order is not prescribed.
func hasMap(v reflect.Value, depth int) bool {
	if !v.IsValid() || depth > 12 {
		return false
	}
	switch v.Kind() {
	case reflect.Map:
		return true
	case reflect.Pointer, reflect.Interface:
		return hasMap(v.Elem(), depth+1)
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if hasMap(v.Index(i), depth+1) {
				return true
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if hasMap(v.Field(i), depth+1) {
				return true
			}
		}
	}
	return false
}

// stdJSON is encoding/json's answer.
func stdJSON(x any) (b []byte, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("encoding/json panics: %v", e)
		}
	}()
	return json.Marshal(x)
}

// importCheck compares Import of x with encoding/json.
func importCheck(c *C, x any) { importCheckAs(c, x, x) }

// SameJSON, SameText and SamePtr are embedded by types of the same name.
type SameJSON struct{ N int }

func (s SameJSON) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf(`{"same":%d}`, s.N)), nil }

type SameText struct{ N int }

func (s SameText) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf("text %d", s.N)), nil }

type SamePtr struct{ N int }

func (s *SamePtr) MarshalJSON() ([]byte, error) { return []byte(`["pointer"]`), nil }

// importCheckAs compares Import of x with the encoding/json of std.
func importCheckAs(c *C, x, std any, opts ...jsonvalue.Option) {
	b, serr := stdJSON(std)
	if serr != nil && strings.Contains(serr.Error(), "panics") {
		return
	}
	c.Step(1)
	v, err := jsonvalue.Import(x, opts...)
	c.State(hashStr(string(b)))
	if v == nil {
		c.Fail("Import returns nil")
	}
	if err != nil {
		if v.ValueType() != jsonvalue.NotExist {
			c.Fail("Import returns %v with error %v", v, err)
		}
		if serr == nil {
			c.Fail("Import fails: %v; encoding/json gives %s", err, b)
		}
		return
	}
	if v.ValueType() == jsonvalue.NotExist {
		c.Fail("Import gives a not-exist value without error")
	}
	out, merr := v.Marshal(jsonvalue.OptSetSequence())
	if serr != nil {
		if merr == nil {
			c.Fail("Import gives %s; encoding/json fails: %v", out, serr)
		}
		return
	}
	if merr != nil {
		c.Fail("marshalling the imported value fails: %v; encoding/json gives %s", merr, b)
	}
	want, e1 := refParseAny(b)
	got, e2 := refParseAny(out)
	if e1 != nil || e2 != nil {
		c.Fail("unparsable: %v %v: %s, %s", e1, e2, b, out)
	}
	if !equalNumeric(want, got, !hasMap(reflect.ValueOf(x), 0)) {
		c.Fail("Import gives %s; encoding/json gives %s", out, b)
	}
	if d := diffNumeric(got, v); d != "" {
		c.Fail("the imported value differs from its own text %s: %s", out, d)
	}
}

// equalNumeric compares content, numbers by value; ordered: with member order.
func equalNumeric(a, b *Val, ordered bool) bool {
	if a.K != b.K {
		return false
	}
	switch a.K {
	case KNum:
		return a.S == b.S || numRat(a.S).Cmp(numRat(b.S)) == 0
	case KStr:
		return a.S == b.S
	case KBool:
		return a.B == b.B
	case KArr:
		if len(a.A) != len(b.A) {
			return false
		}
		for i := range a.A {
			if !equalNumeric(a.A[i], b.A[i], ordered) {
				return false
			}
		}
	case KObj:
		if len(a.O) != len(b.O) {
			return false
		}
		for i, m := range a.O {
			y := b.get(m.K)
			if y == nil || (ordered && b.O[i].K != m.K) || !equalNumeric(m.V, y, ordered) {
				return false
			}
		}
	}
	return true
}

func numRat(s string) *big.Rat {
	x, ok := new(big.Rat).SetString(s)
	if !ok {
		panic("number " + s)
	}
	return x
}

// diffNumeric compares types and content of a value with the parse of its text.
func diffNumeric(w *Val, v *jsonvalue.V) string {
	x := read(v)
	if fixInvalid(x); !equalNumeric(w, x, false) {
		return fmt.Sprintf("read %s", x)
	}
	return ""
}

// fixInvalid replaces invalid UTF-8, which cannot appear in JSON.
func fixInvalid(v *Val) {
	v.S = strings.ToValidUTF8(v.S, "\ufffd")
	for _, x := range v.A {
		fixInvalid(x)
	}
	for i := range v.O {
		v.O[i].K = strings.ToValidUTF8(v.O[i].K, "\ufffd")
		fixInvalid(v.O[i].V)
	}
}

var jsonMarT, textMarT = reflect.TypeOf((*json.Marshaler)(nil)).Elem(), reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem()

func isMar(t reflect.Type) bool {
	if t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	p := reflect.PointerTo(t)
	return t.Implements(jsonMarT) || t.Implements(textMarT) || p.Implements(jsonMarT) || p.Implements(textMarT)
}

// ---- embedding ----

type (
	EA struct{ A int }
	EB struct{ A, B int }
	EC struct{ C EA }
	ET struct {
		X int `json:"A"`
	}
	EU struct {
		Y int `json:"B,omitempty"`
	}
	E2 struct{ EA }
	E3 struct {
		*EB
		C int
	}
	E4 struct {
		E2
		ET
	}
	ER struct {
		*ER
		A int
	}
	EI   int
	ES   []int
	EM   map[string]int
	EAny any
	ea   struct{ A int }
	eb   struct{ A, B, c int }
	ei   int
	em   map[string]int
	e2   struct{ ea }
	e3   struct{ *eb }
)

// embedFields are the fields structs are made of by reflection.
func embedFields() []reflect.StructField {
	f := func(name string, x any, tag string, anon bool) reflect.StructField {
		return reflect.StructField{Name: name, Type: reflect.TypeOf(x), Tag: reflect.StructTag(tag), Anonymous: anon}
	}
	return []reflect.StructField{
		f("A", 0, "", false), f("B", 0, "", false), f("C", 0, `json:"A"`, false), f("D", "", `json:"B,omitempty"`, false),
		f("EA", EA{}, "", true), f("EA", &EA{}, "", true), f("EA", EA{}, `json:"A"`, true), f("EA", EA{}, `json:",omitempty"`, true), f("EA", EA{}, `json:"-"`, true), f("EA", &EA{}, `json:"B,omitempty"`, true),
		f("EB", EB{}, "", true), f("EB", &EB{}, `json:",omitempty"`, true), f("EC", EC{}, "", true), f("ET", ET{}, "", true), f("ET", &ET{}, "", true), f("EU", EU{}, "", true), f("E2", E2{}, "", true), f("E2", &E2{}, "", true),
		f("E3", E3{}, "", true), f("E3", E3{}, `json:"C"`, true), f("E4", E4{}, "", true), f("ER", ER{}, "", true), f("EI", EI(0), "", true), f("EI", EI(0), `json:"A"`, true), f("ES", ES{}, "", true), f("EI", new(EI), "", true), f("EM", &EM{}, "", true),
	}
}

// unexportedEmbeds cover what reflection cannot make.
func unexportedEmbeds() []any {
	return []any{
		struct{ ea }{ea{1}}, struct{ *ea }{&ea{1}}, struct{ *ea }{}, struct {
			ea
			A int
		}{ea{1}, 2}, struct {
			A int
			ea
		}{2, ea{1}}, struct {
			ea
			eb
		}{ea{1}, eb{2, 3, 4}}, struct {
			ea
			*eb
		}{ea{1}, &eb{2, 3, 4}}, struct {
			ei
			B int
		}{1, 2}, struct {
			em
			B int
		}{em{"q": 1}, 2}, struct {
			*em
			B int
		}{nil, 2}, struct{ e2 }{e2{ea{3}}}, struct{ *e2 }{&e2{ea{3}}}, struct{ e3 }{e3{&eb{1, 2, 3}}}, struct{ e3 }{}, struct {
			e2
			e3
		}{e2{ea{1}}, e3{&eb{2, 3, 4}}}, struct {
			a int
			B string
		}{1, "x"}, struct {
			ea `json:"named"`
			B  int
		}{ea{1}, 2}, struct {
			ea `json:"-"`
			B  int
		}{ea{1}, 2}, struct {
			EAny
			B int
		}{1, 2}, struct {
			EAny
			B int
		}{map[string]int{"B": 1}, 2}, struct {
			EAny
			B int
		}{EA{1}, 2}, struct {
			EAny
			B int
		}{nil, 2}, struct {
			valMar
			A int
		}{valMar{"1"}, 1}, struct {
			valMar
			valText
		}{valMar{"1"}, valText{"2"}}, struct {
			valMar
			strMar
		}{valMar{"1"}, "x"}, struct {
			valMar `json:"q"`
			B      int
		}{valMar{"1"}, 2}, struct {
			error
			B int
		}{nil, 2}, struct {
			*time.Time
			B int
		}{&time.Time{}, 1},
		struct {
			EM
			B int
		}{EM{"A": 1, "B": 2}, 1}, struct {
			EM `json:",omitempty"`
			B  int
		}{EM{}, 1}, struct {
			EM `json:"B"`
			B  int
		}{EM{"x": 1}, 1},
		struct {
			Name string `json:"name"`
			eb
			In struct {
				ea
				*e3
				Z int `json:",string"`
			}
		}{},
		&ER{&ER{&ER{nil, 3}, 2}, 1}, ER{}, struct{ ER }{ER{A: 4}},
	}
}

// nestedTypes are the types of depth d over scalars.
func nestedTypes(d int) []reflect.Type {
	out := []reflect.Type{reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf(1.5), reflect.TypeOf((*any)(nil)).Elem(), reflect.TypeOf(byte(0))}
	if d == 0 {
		return out
	}
	for _, t := range nestedTypes(d - 1) {
		out = append(out, reflect.PointerTo(t), reflect.SliceOf(t), reflect.ArrayOf(2, t), reflect.MapOf(reflect.TypeOf(""), t), reflect.MapOf(reflect.TypeOf(int8(0)), t))
		for _, tag := range []string{`json:"f"`, `json:"f,omitempty"`, `json:",string"`} {
			out = append(out, reflect.StructOf([]reflect.StructField{{Name: "F", Type: t, Tag: reflect.StructTag(tag)}, {Name: "G", Type: t}}))
		}
	}
	return out
}

// nestedVal builds the i-th filling of a type: 0 zero (with no nil slices), 1 and 2 filled.
func nestedVal(v reflect.Value, i int, n *int) {
	*n++
	switch v.Kind() {
	case reflect.Int:
		v.SetInt(int64(i * *n))
	case reflect.Uint8:
		v.SetUint(uint64(i**n) & 255)
	case reflect.String:
		v.SetString([]string{"", "a\"<", "é\\"}[i])
	case reflect.Float64:
		v.SetFloat([]float64{0, 0.1, -1e21}[i])
	case reflect.Interface:
		v.Set(reflect.ValueOf([]any{nil, map[string]any{"k": []any{1, nil, "x"}}, true}[i : i+1]).Index(0))
	case reflect.Pointer:
		if i > 0 {
			v.Set(reflect.New(v.Type().Elem()))
			nestedVal(v.Elem(), i, n)
		}
	case reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), i, i))
		for j := 0; j < i; j++ {
			nestedVal(v.Index(j), i-j, n)
		}
	case reflect.Array:
		for j := 0; j < v.Len(); j++ {
			nestedVal(v.Index(j), (i+j)%3, n)
		}
	case reflect.Map:
		if i == 0 {
			return
		}
		v.Set(reflect.MakeMap(v.Type()))
		for j := 0; j < i; j++ {
			k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			if k.Kind() == reflect.String {
				k.SetString([]string{"", "k\t"}[j])
			} else {
				k.SetInt(int64(j*-127 + 5))
			}
			nestedVal(e, (i+j)%3, n)
			v.SetMapIndex(k, e)
		}
	case reflect.Struct:
		for j := 0; j < v.NumField(); j++ {
			nestedVal(v.Field(j), (i+j)%3, n)
		}
	}
}

// embedVal fills structs for the embedding family: filling 0 leaves pointers nil.
func embedVal(v reflect.Value, i, depth int, n *int) {
	*n++
	if v.Kind() == reflect.Struct {
		for j := 0; j < v.NumField(); j++ {
			embedVal(v.Field(j), i, depth+1, n)
		}
		return
	}
	if v.Kind() == reflect.Pointer {
		if i > 0 && depth < 5 {
			v.Set(reflect.New(v.Type().Elem()))
			embedVal(v.Elem(), (i+*n)%3, depth+1, n)
		}
		return
	}
	nestedVal(v, i, n)
}

func c13(r *Run) {
	r.Assume("a nil slice is imported as an empty array and a nil []byte as an empty string; omitempty of a marshaler is judged on the JSON it produces; marshalers with pointer receivers are used on values that are not addressable too (all three fixed by the existing tests)")
	c13Cycles(r)
	ef := embedFields()
	r.Par("embedded structs", fmt.Sprintf("all structs of 1..%d fields out of %d (promoted, shadowed, tagged, nil, recursive)", r.Pick(3, 4), len(ef)), len(ef), func(c *C, sh int) {
		n := r.Pick(3, 4)
		var rec func(fs []reflect.StructField)
		rec = func(fs []reflect.StructField) {
			if len(fs) > 0 {
				st := reflect.StructOf(fs)
				c.Do(func() string { return st.String() }, func() {
					c.Step(1)
					for i := 0; i < 3; i++ {
						y := reflect.New(st)
						k := 0
						embedVal(y.Elem(), i, 0, &k)
						importCheck(c, y.Interface())
						importCheck(c, y.Elem().Interface())
					}
				})
			}
			if len(fs) == n || c.Expired() {
				return
			}
		next:
			for i, f := range ef {
				if len(fs) == 0 && i != sh {
					continue
				}
				for _, g := range fs {
					if g.Name == f.Name {
						continue next
					}
				}
				rec(append(fs[:len(fs):len(fs)], f))
			}
		}
		rec(nil)
	})
	givenMarshalers(r)
	r.Seq("unexported embedding", "structs embedding unexported types, interfaces and marshalers", func(c *C) {
		for _, x := range unexportedEmbeds() {
			c.Do(func() string { return showAny(x) }, func() {
				c.Step(1)
				importCheck(c, x)
				importCheck(c, []any{x, &x})
				p := reflect.New(reflect.TypeOf(x))
				importCheck(c, p.Interface())
				p.Elem().Set(reflect.ValueOf(x))
				importCheck(c, p.Interface())
			})
		}
	})
	nt := nestedTypes(r.Pick(3, 4))
	const chunk = 64
	r.Par("nested types", fmt.Sprintf("all %d types of depth %d over 5 scalars with pointer, slice, array, 2 maps, 3 structs; 3 fillings", len(nt), r.Pick(3, 4)), (len(nt)+chunk-1)/chunk, func(c *C, sh int) {
		for _, t := range nt[sh*chunk : min(len(nt), (sh+1)*chunk)] {
			for i := 0; i < 3; i++ {
				c.Do(func() string { return fmt.Sprintf("%v filling %d", t, i) }, func() {
					c.Step(1)
					y, n := reflect.New(t), 0
					nestedVal(y.Elem(), i, &n)
					importCheck(c, y.Interface())
					importCheck(c, y.Elem().Interface())
				})
			}
		}
	})
	sn := sameNamed()
	r.Par("types of the same name", fmt.Sprintf("%d ordered pairs of types that print the same name (local to functions) and differ in kind, plain and in containers, 3 fillings", len(sn)), len(sn), func(c *C, sh int) {
		c.Do(func() string { return fmt.Sprintf("pair %d: two types %v", sh, sn[sh][0]) }, func() {
			for turn := 0; turn < 3; turn++ {
				t := sn[sh][turn%2]
				for _, u := range []reflect.Type{t, reflect.PointerTo(t), reflect.SliceOf(t), reflect.ArrayOf(2, t), reflect.MapOf(reflect.TypeOf(""), t), reflect.MapOf(reflect.TypeOf(""), reflect.PointerTo(t)), reflect.StructOf([]reflect.StructField{{Name: "F", Type: t, Tag: `json:"f,omitempty"`}})} {
					for i := 0; i < 3; i++ {
						c.Step(1)
						y, n := reflect.New(u), 0
						nestedVal(y.Elem(), i, &n)
						importCheck(c, y.Elem().Interface())
						importCheck(c, y.Interface())
					}
				}
			}
		})
	})
	vals := goVals()
	anyT := reflect.TypeOf((*any)(nil)).Elem()
	r.Par("values", fmt.Sprintf("%d values of all kinds, plain and through pointer", len(vals)), len(vals), func(c *C, sh int) {
		x := vals[sh]
		c.Do(func() string { return showAny(x) }, func() { importCheck(c, x) })
		p := reflect.New(reflect.TypeOf(x))
		p.Elem().Set(reflect.ValueOf(x))
		c.Do(func() string { return "pointer to " + showAny(x) }, func() { importCheck(c, p.Interface()) })
		pp := reflect.New(p.Type())
		pp.Elem().Set(p)
		c.Do(func() string { return "pointer to pointer to " + showAny(x) }, func() { importCheck(c, pp.Interface()) })
	})
	lens := []int{1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 64, 65}
	r.Par("positions", fmt.Sprintf("every value at the first, a middle and the last position, and everywhere, of []any, arrays, own slices and maps of %d lengths", len(lens)), len(vals), func(c *C, sh int) {
		x := vals[sh]
		rv := reflect.ValueOf(x)
		fill := []any{1, "s", nil, []int{}, map[string]any{}, 2.5}
		own := true // whether the value also goes into containers of its own type
		if k := rv.Kind(); k == reflect.Slice || k == reflect.Map {
			own = rv.Len() > 0
		}
		for _, n := range lens {
			for _, pos := range []int{0, n / 2, n - 1, -1} {
				l := make([]any, n)
				m := map[string]any{}
				var o reflect.Value
				if own {
					o = reflect.MakeSlice(reflect.SliceOf(rv.Type()), n, n)
				}
				for i := range l {
					l[i] = fill[(i+n)%len(fill)]
					if i == pos || pos < 0 {
						l[i] = x
					}
					m[fmt.Sprint("k", i)] = l[i]
					if own {
						o.Index(i).Set(rv)
					}
				}
				what := func(k string) func() string {
					return func() string { return fmt.Sprintf("%s of %d with %s at %d", k, n, showAny(x), pos) }
				}
				c.Do(what("[]any"), func() { importCheck(c, l) })
				c.Do(what("array"), func() {
					a := reflect.New(reflect.ArrayOf(n, reflect.TypeOf((*any)(nil)).Elem())).Elem()
					reflect.Copy(a, reflect.ValueOf(l))
					importCheck(c, a.Interface())
				})
				c.Do(what("map"), func() { importCheck(c, m) })
				if own && pos < 0 {
					c.Do(what("own slice"), func() { importCheck(c, o.Interface()) })
				}
			}
		}
	})
	keys := goKeys()
	r.Par("map keys", fmt.Sprintf("maps with each of %d keys of every key kind (edges of every width), alone and with all others of its type", len(keys)), len(keys), func(c *C, sh int) {
		k := reflect.ValueOf(keys[sh])
		for _, e := range []any{1, "v", []any{nil}} {
			m := reflect.MakeMap(reflect.MapOf(k.Type(), reflect.TypeOf(e)))
			m.SetMapIndex(k, reflect.ValueOf(e))
			c.Do(func() string { return "map " + showAny(m.Interface()) }, func() { importCheck(c, m.Interface()) })
			for _, o := range keys {
				if o := reflect.ValueOf(o); o.Type() == k.Type() {
					m.SetMapIndex(o, reflect.ValueOf(e))
				}
			}
			c.Do(func() string { return "map " + showAny(m.Interface()) }, func() { importCheck(c, m.Interface()) })
		}
	})
	r.Par("in containers", "every value as array/slice element, map value, interface element, field of every exported shape with every tag", len(vals), func(c *C, sh int) {
		x := vals[sh]
		rv := reflect.ValueOf(x)
		t := rv.Type()
		do := func(what string, y reflect.Value) {
			c.Do(func() string { return what + " of " + showAny(x) }, func() {
				importCheck(c, y.Interface())
				p := reflect.New(y.Type())
				p.Elem().Set(y)
				importCheck(c, p.Interface())
			})
		}
		s := reflect.MakeSlice(reflect.SliceOf(t), 2, 2)
		s.Index(1).Set(rv)
		if t.Kind() == reflect.Slice {
			s.Index(0).Set(reflect.MakeSlice(t, 0, 0)) // nil slices are empty arrays here
		}
		do("slice", s)
		a := reflect.New(reflect.ArrayOf(1, t)).Elem()
		a.Index(0).Set(rv)
		do("array", a)
		m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), t))
		m.SetMapIndex(reflect.ValueOf("k"), rv)
		do("map", m)
		do("[]any", reflect.ValueOf([]any{x, nil, x}))
		do("map[string]any", reflect.ValueOf(map[string]any{"a": x}))
		for _, tag := range []string{``, `json:"name"`, `json:"-"`, `json:"-,"`, `json:",omitempty"`, `json:"n,omitempty"`, `json:",string"`, `json:"n,string"`, `json:",omitempty,string"`, `json:",string,omitempty"`, `json:",unknown"`, `json:""`, `json:"é/ß"`, `xml:"q"`, `json:"a b"`, `json:"a$%-/"`, `json:" f"`, `json:"f "`, `json:" "`, `json:" -"`, `json:"- "`, `json:" n ,omitempty"`} {
			for _, ft := range []reflect.Type{t, reflect.PointerTo(t), anyT} {
				st := reflect.StructOf([]reflect.StructField{
					{Name: "B", Type: reflect.TypeOf(0), Tag: `json:"zz"`},
					{Name: "F", Type: ft, Tag: reflect.StructTag(tag)},
					{Name: "A", Type: reflect.TypeOf(0)}})
				for _, zero := range []bool{false, true} {
					y := reflect.New(st).Elem()
					if !zero {
						switch {
						case ft == t || ft == anyT:
							y.Field(1).Set(rv)
						default:
							p := reflect.New(t)
							p.Elem().Set(rv)
							y.Field(1).Set(p)
						}
					}
					if zero && (ft.Kind() == reflect.Slice || ft.Kind() == reflect.Map) {
						continue // see the assumptions; nil maps of illegal key types differ between Go releases
					}
					if zero && t.Kind() == reflect.Struct && ft == t {
						continue
					}
					if strings.Contains(tag, "omitempty") {
						plain := reflect.StructOf([]reflect.StructField{st.Field(0), {Name: "F", Type: ft, Tag: reflect.StructTag(strings.Replace(tag, ",omitempty", "", 1))}, st.Field(2)})
						c.Do(func() string {
							return fmt.Sprintf("ignoring omitempty of struct field %v `%s` zero=%v", ft, tag, zero)
						}, func() {
							importCheckAs(c, y.Interface(), y.Convert(plain).Interface(), jsonvalue.OptIgnoreOmitempty())
							importCheckAs(c, []any{y.Interface()}, []any{y.Convert(plain).Interface()}, jsonvalue.OptIgnoreOmitempty())
							w := func(y reflect.Value) any {
								return struct {
									W any `json:"w"`
								}{y.Interface()}
							}
							importCheckAs(c, w(y), w(y.Convert(plain)), jsonvalue.OptIgnoreOmitempty())
						})
					}
					if isMar(ft) && strings.Contains(tag, "omitempty") {
						continue // judged on the JSON produced, not on the Go value
					}
					do(fmt.Sprintf("struct field %v `%s` zero=%v", ft, tag, zero), y)
				}
			}
		}
	})
}
