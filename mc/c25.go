package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
	"github.com/Andrew-M-C/go.jsonvalue/beta"
)

func init() { checks["C25"] = c25 }

// short is one family of typed shortcuts: NewX, SetX, MustSetX, AppendX, MustAppendX, InsertX, MustInsertX.
type short struct {
	name     string
	noArg    bool
	noInsert bool
	args     []any            // arguments of the shortcut
	general  func(x any) any  // what the general form is given
	text     func(x any) *Val // the content expected; nil if it is not finite
}

func jsonOf(x any) *Val {
	b, err := json.Marshal(x)
	if err != nil {
		return nil
	}
	return vNum(string(b))
}

func same(x any) any { return x }

var shorts = []short{
	{name: "String", args: []any{"", "a", "é<\"\\\x00\u2028😀/", "true", "12", strings.Repeat("x", 300), "\xff", "null"}, general: same, text: func(x any) *Val { return vStr(x.(string)) }},
	{name: "Bytes", noInsert: true, args: []any{[]byte{}, []byte(nil), []byte{0}, []byte{255, 254}, []byte("abc"), []byte("abcd"), []byte{0xfb, 0xff, 0xbf}, make([]byte, 300)}, general: same, text: func(x any) *Val {
		return vStr(base64.StdEncoding.EncodeToString(x.([]byte)))
	}},
	{name: "Bool", args: []any{true, false}, general: same, text: func(x any) *Val { return vBool(x.(bool)) }},
	{name: "Int", args: []any{0, 1, -1, 9, 10, -10, 255, 256, 65535, math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, math.MinInt32 - 1, 1<<53 + 1, math.MaxInt64, math.MinInt64}, general: same, text: jsonOf},
	{name: "Int64", args: []any{int64(0), int64(1), int64(-1), int64(99), int64(-100), int64(math.MaxInt32 + 1), int64(math.MinInt32 - 1), int64(-(1<<53 + 1)), int64(math.MaxInt64), int64(math.MinInt64)}, general: same, text: jsonOf},
	{name: "Int32", args: []any{int32(0), int32(1), int32(-1), int32(127), int32(-129), int32(32768), int32(math.MaxInt32), int32(math.MinInt32)}, general: same, text: jsonOf},
	{name: "Uint", args: []any{uint(0), uint(1), uint(10), uint(math.MaxInt32 + 1), uint(math.MaxUint32), uint(math.MaxUint32 + 1), uint(1<<53 + 1), uint(math.MaxInt64), uint(math.MaxInt64 + 1), uint(math.MaxUint64)}, general: same, text: jsonOf},
	{name: "Uint64", args: []any{uint64(0), uint64(1), uint64(1<<32 + 5), uint64(1<<63 - 1), uint64(1 << 63), uint64(1<<63 + 1), uint64(math.MaxUint64)}, general: same, text: jsonOf},
	{name: "Uint32", args: []any{uint32(0), uint32(1), uint32(200), uint32(math.MaxInt32), uint32(math.MaxInt32 + 1), uint32(math.MaxUint32)}, general: same, text: jsonOf},
	{name: "Float64", args: []any{0.0, math.Copysign(0, -1), 1.0, -1.0, 0.1, -2.5, 3.0, 1e-6, 9.9e-7, 1e-7, 1e-9, 1e-10, 1e20, 1e21, -1e21, 123456789012345680000.0, 1e100, 1.5e300, math.MaxFloat64, math.SmallestNonzeroFloat64, float64(1 << 53), float64(1<<53 + 2), float64(1 << 62), float64(1 << 63), -float64(1 << 63), float64(1 << 64), 100.25, 1e5, math.NaN(), math.Inf(1), math.Inf(-1), math.Pi}, general: same, text: jsonOf},
	{name: "Float32", args: []any{float32(0), float32(1), float32(-1), float32(0.1), float32(-2.5), float32(1e-6), float32(9.9e-7), float32(1e-7), float32(1e-10), float32(1e20), float32(1e21), float32(3.4e38), float32(math.MaxFloat32), float32(math.SmallestNonzeroFloat32), float32(16777216), float32(16777217), float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.Pi), float32(1e5), float32(123456.7)}, general: same, text: jsonOf},
	{name: "Null", noArg: true, args: []any{nil}, general: func(any) any { return nil }, text: func(any) *Val { return vNull() }},
	{name: "Object", noArg: true, args: []any{nil}, general: func(any) any { return map[string]int{} }, text: func(any) *Val { return &Val{K: KObj} }},
	{name: "Array", noArg: true, args: []any{nil}, general: func(any) any { return []string{} }, text: func(any) *Val { return vArr() }},
}

func callM(c *C, on any, name string, args ...any) []reflect.Value {
	m := reflect.ValueOf(on).MethodByName(name)
	if !m.IsValid() {
		c.Fail("no method %s", name)
	}
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		if a == nil {
			in[i] = reflect.Zero(reflect.TypeOf((*any)(nil)).Elem())
		} else {
			in[i] = reflect.ValueOf(a)
		}
	}
	return m.Call(in)
}

// typed starts the shortcut prefix+name on v, or the general form of it.
func (s *short) start(c *C, v *jsonvalue.V, prefix string, x any) any {
	if s.noArg {
		return callM(c, v, prefix+s.name)[0].Interface()
	}
	return callM(c, v, prefix+s.name, x)[0].Interface()
}

func (s *short) newV(x any) *jsonvalue.V {
	switch s.name {
	case "String":
		return jsonvalue.NewString(x.(string))
	case "Bytes":
		return jsonvalue.NewBytes(x.([]byte))
	case "Bool":
		return jsonvalue.NewBool(x.(bool))
	case "Int":
		return jsonvalue.NewInt(x.(int))
	case "Int64":
		return jsonvalue.NewInt64(x.(int64))
	case "Int32":
		return jsonvalue.NewInt32(x.(int32))
	case "Uint":
		return jsonvalue.NewUint(x.(uint))
	case "Uint64":
		return jsonvalue.NewUint64(x.(uint64))
	case "Uint32":
		return jsonvalue.NewUint32(x.(uint32))
	case "Float64":
		return jsonvalue.NewFloat64(x.(float64))
	case "Float32":
		return jsonvalue.NewFloat32(x.(float32))
	case "Null":
		return jsonvalue.NewNull()
	case "Object":
		return jsonvalue.NewObject()
	}
	return jsonvalue.NewArray()
}

// face is everything a value shows.
func face(v *jsonvalue.V) string {
	if v == nil {
		return "nil"
	}
	var b strings.Builder
	fmt.Fprint(&b, v.ValueType(), v.Len(), v.IsFloat(), v.IsInteger(), v.IsNegative(), v.IsPositive(), v.GreaterThanInt64Max())
	for k := range accessors {
		if k == acString && v.IsObject() && v.Len() > 1 {
			continue
		}
		fmt.Fprintf(&b, "|%v", accessors[k].must(v))
	}
	b.WriteString("|" + docText(v))
	return b.String()
}

func docText(v *jsonvalue.V) string {
	s, err := v.MarshalString(jsonvalue.OptSetSequence())
	if err != nil {
		t, err2 := v.MarshalString(jsonvalue.OptSetSequence(), jsonvalue.OptFloatNaNToString("<nan>"), jsonvalue.OptFloatInfToString("<+inf>", "<-inf>"))
		return fmt.Sprint("error ", err, " ", t, err2)
	}
	return s
}

type target25 struct {
	kind string // At, InTheBeginning, InTheEnd, Before, After
	p    []any
}

func c25(r *Run) {
	docs := []string{`{}`, `[]`, `{"a":1,"b":[1,2,{"c":[]}],"d":{"e":null}}`, `[1,[2,3],{"a":[4]}]`, `"x"`, `null`}
	el := []any{"a", "b", "new", 0, 1, -1, 7, 1.5, nil, []string{"b", "new"}, []any{"b", 1}, []int{0}}
	var paths [][]any
	for _, x := range el {
		paths = append(paths, []any{x})
		for _, y := range []any{"c", "e", "a", 0, 1, 2, -2, 9} {
			paths = append(paths, []any{x, y})
		}
	}
	paths = append(paths, []any{"b", 2, "c"}, []any{"b", 2, "c", 0}, []any{"n1", "n2", "n3", 0}, []any{"n1", 5}, []any{int8(0)}, []any{uint64(1)}, []any{"d", "e", "f"}, []any{2, "a", 0}, []any{2, "a", 1}, []any{2, "z", 1})
	var targets []target25
	for _, k := range []string{"At", "InTheBeginning", "InTheEnd", "Before", "After"} {
		if strings.HasPrefix(k, "In") {
			targets = append(targets, target25{k, nil})
		}
		for _, p := range paths {
			targets = append(targets, target25{k, p})
		}
	}
	prefixOf := map[string]string{"At": "Set", "InTheBeginning": "Append", "InTheEnd": "Append", "Before": "Insert", "After": "Insert"}
	finish := func(c *C, on any, t target25) (*jsonvalue.V, error) {
		out := callM(c, on, t.kind, t.p...)
		if len(out) != 2 {
			return nil, nil
		}
		v, _ := out[0].Interface().(*jsonvalue.V)
		err, _ := out[1].Interface().(error)
		return v, err
	}
	general := func(v *jsonvalue.V, t target25, x any) (*jsonvalue.V, error) {
		switch t.kind {
		case "At":
			return v.Set(x).At(t.p[0], t.p[1:]...)
		case "InTheBeginning":
			return v.Append(x).InTheBeginning(t.p...)
		case "InTheEnd":
			return v.Append(x).InTheEnd(t.p...)
		case "Before":
			return v.Insert(x).Before(t.p[0], t.p[1:]...)
		}
		return v.Insert(x).After(t.p[0], t.p[1:]...)
	}
	mustGeneral := func(v *jsonvalue.V, t target25, x any) {
		switch t.kind {
		case "At":
			v.MustSet(x).At(t.p[0], t.p[1:]...)
		case "InTheBeginning":
			v.MustAppend(x).InTheBeginning(t.p...)
		case "InTheEnd":
			v.MustAppend(x).InTheEnd(t.p...)
		case "Before":
			v.MustInsert(x).Before(t.p[0], t.p[1:]...)
		default:
			v.MustInsert(x).After(t.p[0], t.p[1:]...)
		}
	}
	errText := func(err error) string {
		if err == nil {
			return ""
		}
		return err.Error()
	}
	type job struct {
		s *short
		t target25
	}
	var jobs []job
	for i := range shorts {
		for _, t := range targets {
			if shorts[i].noInsert && prefixOf[t.kind] == "Insert" {
				continue
			}
			jobs = append(jobs, job{&shorts[i], t})
		}
	}
	r.Par("typed set, append, insert", fmt.Sprintf("%d shortcut families x boundary arguments x %d targets (valid and not) x %d documents: typed, general with the Go value, general with the typed constructor, and all error-less forms", len(shorts), len(targets), len(docs)), len(jobs), func(c *C, sh int) {
		s, t := jobs[sh].s, jobs[sh].t
		pre := prefixOf[t.kind]
		for _, x := range s.args {
			for _, d := range docs {
				c.State(hashStr(fmt.Sprint(s.name, x, t, d)))
				c.Do(func() string {
					return fmt.Sprintf("%s: %s%s(%s).%s(%v)", d, pre, s.name, showAny(x), t.kind, t.p)
				}, func() {
					mk := func() *jsonvalue.V { return jsonvalue.MustUnmarshalString(d) }
					base := mk()
					want, wantErr := general(base, t, s.newV(x))
					wantDoc, wantFace := docText(base), face(want)
					cmp := func(how string, v, ret *jsonvalue.V, err error, must bool) {
						c.Step(1)
						if got := docText(v); got != wantDoc {
							c.Fail("%s gives the document %s, general form with the typed constructor %s", how, got, wantDoc)
						}
						if must {
							return
						}
						if errText(err) != errText(wantErr) {
							c.Fail("%s gives the error %v, general form %v", how, err, wantErr)
						}
						if got := face(ret); got != wantFace {
							c.Fail("%s returns %s, general form %s", how, got, wantFace)
						}
					}
					v := mk()
					ret, err := finish(c, s.start(c, v, pre, x), t)
					cmp(pre+s.name, v, ret, err, false)
					v = mk()
					ret, err = general(v, t, s.general(x))
					cmp(pre+" of the Go value", v, ret, err, false)
					v = mk()
					finish(c, s.start(c, v, "Must"+pre, x), t)
					cmp("Must"+pre+s.name, v, nil, nil, true)
					v = mk()
					mustGeneral(v, t, s.general(x))
					cmp("Must"+pre+" of the Go value", v, nil, nil, true)
					v = mk()
					mustGeneral(v, t, s.newV(x))
					cmp("Must"+pre+" of New"+s.name, v, nil, nil, true)
					if t.kind == "At" {
						v = mk()
						v.At(t.p[0], t.p[1:]...).Set(s.general(x))
						cmp("At().Set of the Go value", v, nil, nil, true)
						v = mk()
						v.At(t.p[0], t.p[1:]...).Set(s.newV(x))
						cmp("At().Set of New"+s.name, v, nil, nil, true)
					}
					if wantErr != nil && wantDoc != docText(mk()) {
						c.Fail("a call that fails changes the document to %s", wantDoc)
					}
					if wantErr == nil {
						if w := s.text(x); w != nil && s.name != "String" {
							if got := want.MustMarshalString(); got != (escStyle{}).format(w) {
								c.Fail("the value is %s, should be %s", got, w)
							}
						}
					}
					c.Out(hashStr(wantDoc))
				})
			}
		}
	})
	r.Par("typed constructors", "every typed constructor x boundary arguments (all 8- and 16-bit patterns for integers) against New, Import, beta.Import of the same Go value and encoding/json", len(shorts), func(c *C, sh int) {
		s := &shorts[sh]
		args := append([]any{}, s.args...)
		for i := 0; i < 1<<16 && !s.noArg; i++ {
			switch s.name {
			case "Int":
				args = append(args, i-1<<15, (i-1<<15)<<40)
			case "Int64":
				args = append(args, int64(i-1<<15), int64(i)<<48)
			case "Int32":
				args = append(args, int32(i-1<<15), int32(i)<<16)
			case "Uint":
				args = append(args, uint(i), uint(i)<<48)
			case "Uint64":
				args = append(args, uint64(i), uint64(i)<<48|0xffff)
			case "Uint32":
				args = append(args, uint32(i), uint32(i)<<16)
			case "Float32":
				args = append(args, math.Float32frombits(uint32(i)<<16), math.Float32frombits(uint32(i)<<16|0x8001))
			case "Float64":
				args = append(args, math.Float64frombits(uint64(i)<<48), math.Float64frombits(uint64(i)<<48|0x800000000001))
			case "Bytes":
				args = append(args, []byte{byte(i >> 8), byte(i)})
			case "String":
				if i < 0xd800 || i > 0xdfff {
					args = append(args, string(rune(i)))
				}
			}
		}
		for _, x := range args {
			c.Do(func() string { return fmt.Sprintf("New%s(%s)", s.name, showAny(x)) }, func() {
				c.Step(4)
				v := s.newV(x)
				want := face(v)
				if got := face(jsonvalue.New(s.general(x))); got != want {
					c.Fail("New gives %s, New%s %s", got, s.name, want)
				}
				i, err := jsonvalue.Import(s.general(x))
				if got := face(i); got != want || err != nil {
					c.Fail("Import gives %s (%v), New%s %s", got, err, s.name, want)
				}
				i, err = beta.Import(s.general(x))
				if got := face(i); got != want || err != nil {
					c.Fail("beta.Import gives %s (%v), New%s %s", got, err, s.name, want)
				}
				w := s.text(x)
				b, err := v.Marshal()
				if w == nil {
					if err == nil {
						c.Fail("Marshal gives %s", b)
					}
					return
				}
				if s.name == "String" {
					if v.String() != x.(string) || v.ValueType() != jsonvalue.String {
						c.Fail("String() is %q", v.String())
					}
					return
				}
				if err != nil || string(b) != (escStyle{}).format(w) {
					c.Fail("Marshal gives %s, %v; should be %s", b, err, w)
				}
				if s.name == "Bytes" && string(v.Bytes()) != string(x.([]byte)) {
					c.Fail("Bytes() is %x", v.Bytes())
				}
			})
		}
	})
	if r.thorough {
		r.Par("float32", "NewFloat32 of every sign, exponent and upper 7 bits of the mantissa x 4104 patterns of the lower 16 bits, against encoding/json", 1<<16, func(c *C, sh int) {
			c.Do(func() string { return fmt.Sprintf("NewFloat32 of the bits %08x..%08x", sh<<16, sh<<16|0xffff) }, func() {
				for i := 0; i < 1<<16; i++ {
					if i&0xf != 0 && i < 0xfff8 {
						continue
					}
					f := math.Float32frombits(uint32(sh)<<16 | uint32(i))
					v := jsonvalue.NewFloat32(f)
					if v.Float32() != f && f == f {
						c.Fail("Float32() of %v (bits %04x) is %v", f, i, v.Float32())
					}
					b, err := v.Marshal()
					w, jerr := json.Marshal(f)
					if (err != nil) != (jerr != nil) || string(b) != string(w) {
						c.Fail("%v (bits %04x) becomes %s, %v; should be %s", f, i, b, err, w)
					}
				}
				c.Step(4104)
			})
		})
	}
	formats := []byte{'f', 'e', 'E', 'g', 'G', 'b', 'x', 'X', 'p', 0, '%', 'd', 'F'}
	floats := shorts[9].args
	for i := 0; i < 1<<11; i += 3 {
		floats = append(floats[:len(floats):len(floats)], math.Float64frombits(uint64(i)<<52|0x6a09e667f3bcc))
	}
	r.Par("formatted floats", fmt.Sprintf("NewFloat64f and NewFloat32f of %d numbers x %d formats x precisions -1..24", len(floats), len(formats)), len(floats), func(c *C, sh int) {
		f := floats[sh].(float64)
		for _, fm := range formats {
			for prec := -1; prec <= 24; prec++ {
				for _, bits := range []int{64, 32} {
					c.Do(func() string { return fmt.Sprintf("NewFloat%df(%v, %q, %d)", bits, f, fm, prec) }, func() {
						c.Step(1)
						var v *jsonvalue.V
						x := f
						if bits == 64 {
							v = jsonvalue.NewFloat64f(f, fm, prec)
						} else {
							v = jsonvalue.NewFloat32f(float32(f), fm, prec)
							x = float64(float32(f))
						}
						if !v.IsNumber() || !sameScalar(v.Float64(), x) || !sameScalar(v.Float32(), float32(x)) {
							c.Fail("value is %v, should be %v", v.Float64(), x)
						}
						b, err := v.Marshal()
						if math.IsNaN(x) || math.IsInf(x, 0) {
							if err == nil {
								c.Fail("Marshal gives %s", b)
							}
							return
						}
						g := fm
						if !strings.ContainsRune("feEgG", rune(fm)) {
							g = 'g'
						}
						if want := strconv.FormatFloat(x, g, prec, bits); err != nil || string(b) != want {
							c.Fail("Marshal gives %s (%v), should be %s", b, err, want)
						}
					})
				}
			}
		}
	})
	type (
		mb bool
		mi int8
		mu uint16
		ms string
		mf float32
	)
	mvals := []any{nil, true, false, mb(true), 1, -1, int8(-128), int16(-32768), int32(math.MinInt32), int64(math.MinInt64), mi(-5), uint(7), uint8(255), uint16(65535), uint32(math.MaxUint32), uint64(math.MaxUint64), mu(9), "", "s", "é\"", ms("m"), 0.5, float32(0.1), mf(2.5), 1e21, 1e-7, math.NaN()}
	r.Par("NewObject with members", fmt.Sprintf("all maps of 0..3 members from %d basic values, against Import of the same map", len(mvals)), len(mvals), func(c *C, i int) {
		check := func(m jsonvalue.M) {
			c.Do(func() string { return fmt.Sprintf("NewObject(%#v)", m) }, func() {
				c.Step(1)
				v := jsonvalue.NewObject(m)
				w, err := jsonvalue.Import(map[string]any(m))
				if err != nil || v.Len() != len(m) || v.ValueType() != jsonvalue.Object {
					c.Fail("%v, %d members, %v", v.ValueType(), v.Len(), err)
				}
				for k := range m {
					if a, b := face(v.MustGet(k)), face(w.MustGet(k)); a != b {
						c.Fail("member %q is %s, imported %s", k, a, b)
					}
				}
			})
		}
		check(jsonvalue.M{"": mvals[i]})
		for j := range mvals {
			check(jsonvalue.M{"a": mvals[i], "b": mvals[j]})
			for k := 0; k < len(mvals); k++ {
				check(jsonvalue.M{"a": mvals[i], "A": mvals[j], "c": mvals[k]})
			}
		}
		if i == 0 {
			check(nil)
			check(jsonvalue.M{})
			c.Do(func() string { return "NewObject() is fresh" }, func() {
				a, b := jsonvalue.NewObject(), jsonvalue.NewObject(nil)
				a.MustSet(1).At("x")
				if b.Len() != 0 || jsonvalue.NewObject().Len() != 0 || jsonvalue.NewArray().Len() != 0 {
					c.Fail("not empty")
				}
			})
		}
	})
	// Values of any kind through every general entry: New, Import, Set, Append, Insert agree, also on what cannot be.
	gvals := append(append([]any{}, mvals...), goAny(vObj("a", vArr(vNum("1"), vNull()))), []int{}, []int(nil), map[string]int(nil), map[int]string{1: "a"}, struct {
		A int `json:"a,omitempty"`
		B string
	}{0, "b"}, &struct{ X *int }{}, [2]bool{true, false}, json.Number("12"), json.RawMessage(`{"k":[1]}`), make(chan int), func() {}, complex(1, 2), []any{1, make(chan int)}, map[string]any{"x": func() {}}, jsonvalue.NewInt(3), *jsonvalue.NewString("v"), []*jsonvalue.V{jsonvalue.NewBool(true)}, &jsonvalue.V{}, (*jsonvalue.V)(nil), []byte("bytes"), (*int)(nil))
	r.Par("general forms", fmt.Sprintf("%d Go values of all kinds through New, Import, Set, Append, Insert and their error-less forms x %d targets x %d documents", len(gvals), len(targets), len(docs)), len(gvals), func(c *C, i int) {
		x := gvals[i]
		for _, t := range targets {
			for _, d := range docs {
				c.Do(func() string { return fmt.Sprintf("%s: %s.%s(%v)", d, showAny(x), t.kind, t.p) }, func() {
					c.Step(4)
					v, m := jsonvalue.MustUnmarshalString(d), jsonvalue.MustUnmarshalString(d)
					ret, err := general(v, t, x)
					mustGeneral(m, t, x)
					if docText(v) != docText(m) {
						c.Fail("document %s, error-less %s", docText(v), docText(m))
					}
					if t.kind == "At" {
						m = jsonvalue.MustUnmarshalString(d)
						m.At(t.p[0], t.p[1:]...).Set(x)
						if docText(v) != docText(m) {
							c.Fail("document %s, path-first form %s", docText(v), docText(m))
						}
					}
					n, ierr := jsonvalue.Import(x)
					if err != nil && docText(v) != docText(jsonvalue.MustUnmarshalString(d)) {
						c.Fail("fails with %v, document becomes %s", err, docText(v))
					}
					if _, isV := x.(*jsonvalue.V); isV {
						return
					}
					if ierr != nil && err == nil {
						c.Fail("succeeds, Import fails with %v", ierr)
					}
					if nn := jsonvalue.New(x); face(nn) != face(n) {
						c.Fail("New gives %s, Import %s", face(nn), face(n))
					}
					if err == nil && face(ret) != face(n) {
						c.Fail("the value placed is %s, imported %s", face(ret), face(n))
					}
				})
			}
		}
	})
	// Deletion and lookup.
	r.Par("error-less delete and get", fmt.Sprintf("%d paths x %d documents, exact and caseless", len(paths), len(docs)), len(paths), func(c *C, i int) {
		p := paths[i]
		for _, d := range append([]string{`{"A":1,"B":[1,{"C":2}],"NEW":{"c":3,"C":4}}`}, docs...) {
			for caseless := 0; caseless < 2; caseless++ {
				c.Do(func() string { return fmt.Sprintf("%s at %v, caseless %d", d, p, caseless) }, func() {
					c.Step(2)
					v, m := jsonvalue.MustUnmarshalString(d), jsonvalue.MustUnmarshalString(d)
					var gv, gm jsonvalue.Caseless = v, m
					if caseless == 1 {
						gv, gm = v.Caseless(), m.Caseless()
					}
					x, err := gv.Get(p[0], p[1:]...)
					y := gm.MustGet(p[0], p[1:]...)
					if caseless == 1 && strings.Contains(d, "NEW") {
						if x.ValueType() != y.ValueType() {
							c.Fail("Get gives %v, MustGet %v", x, y)
						}
					} else if face(x) != face(y) {
						c.Fail("Get gives %s, %v; MustGet %s", face(x), err, face(y))
					}
					e := gv.Delete(p[0], p[1:]...)
					gm.MustDelete(p[0], p[1:]...)
					if caseless == 1 && strings.Contains(d, "NEW") {
						if v.Len() != m.Len() {
							c.Fail("Delete leaves %s, MustDelete %s", docText(v), docText(m))
						}
					} else if docText(v) != docText(m) {
						c.Fail("Delete (%v) leaves %s, MustDelete %s", e, docText(v), docText(m))
					}
					if e != nil && docText(v) != docText(jsonvalue.MustUnmarshalString(d)) {
						c.Fail("Delete fails with %v, document becomes %s", e, docText(v))
					}
				})
			}
		}
	})
	al := []string{"{", "}", "[", "]", ",", ":", "\"a\"", "1", "null", " ", "\"\\u00e9", "tru"}
	n := r.Pick(5, 6)
	r.Par("error-less parsing and marshalling", fmt.Sprintf("all texts of up to %d pieces over %q", n, al), len(al)*len(al), func(c *C, sh int) {
		var rec func(s string, k int)
		rec = func(s string, k int) {
			if k >= 2 || sh%len(al) == 0 {
				c.Do(func() string { return s }, func() {
					c.Step(3)
					v, err := jsonvalue.Unmarshal([]byte(s))
					want := face(v)
					for j, m := range []*jsonvalue.V{jsonvalue.MustUnmarshal([]byte(s)), jsonvalue.MustUnmarshalString(s), jsonvalue.MustUnmarshalNoCopy([]byte(s))} {
						if m == nil || err == nil && face(m) != want || (err != nil) != (m.ValueType() == jsonvalue.NotExist) {
							c.Fail("form %d gives %s, Unmarshal %s, %v", j, face(m), want, err)
						}
					}
					b, merr := v.Marshal(jsonvalue.OptSetSequence())
					ss, serr := v.MarshalString(jsonvalue.OptSetSequence())
					mb, mstr := v.MustMarshal(jsonvalue.OptSetSequence()), v.MustMarshalString(jsonvalue.OptSetSequence())
					if (merr == nil) != (serr == nil) || (merr == nil) != (err == nil) || ss != string(b) || string(mb) != ss || mstr != ss || mb == nil {
						c.Fail("Marshal gives %q, %v; MarshalString %q, %v; MustMarshal %q; MustMarshalString %q", b, merr, ss, serr, mb, mstr)
					}
				})
			}
			if k == n {
				return
			}
			for i := range al {
				if k == 1 && i != sh%len(al) {
					continue
				}
				rec(s+al[i], k+1)
			}
		}
		rec(al[sh/len(al)], 1)
	})
	r.Seq("setters kept for later", "one setter, appender, inserter or path-first setter used several times, and started before other changes", func(c *C) {
		for d := range docs[:4] {
			c.Do(func() string { return docs[d] }, func() {
				c.Step(4)
				v := jsonvalue.MustUnmarshalString(docs[d])
				w := jsonvalue.MustUnmarshalString(docs[d])
				at := v.At("k")
				mat := w.MustSet(5)
				for i := 0; i < 3; i++ {
					at.Set(i)
				}
				at.Set(5)
				mat.At("k")
				if docText(v) != docText(w) {
					c.Fail("%s, %s", docText(v), docText(w))
				}
				app, mapp := v.AppendString("s"), w.MustAppendString("s")
				for i := 0; i < 3; i++ {
					_, _ = app.InTheEnd("b")
					mapp.InTheEnd("b")
					_, _ = app.InTheBeginning()
					mapp.InTheBeginning()
				}
				ins, mins := v.InsertUint32(9), w.MustInsertUint32(9)
				for i := 0; i < 3; i++ {
					_, _ = ins.Before(i)
					mins.Before(i)
					_, _ = ins.After("b", i)
					mins.After("b", i)
				}
				if docText(v) != docText(w) {
					c.Fail("%s, %s", docText(v), docText(w))
				}
			})
		}
	})
}
