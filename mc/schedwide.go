package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
	"github.com/Andrew-M-C/go.jsonvalue/beta"
)

// Operations that pass through all of the API, for the schedule explorer: what they use alone and together must not
// meet in state of the library. Each gives one text, which must be the same whatever runs at the same time.

const richText = `{"i":-12,"u":18446744073709551615,"f":-1.50e+2,"z":0,"s":"x\u0001\b\f\r\t\"\\é😀\u2028\u00df<&","ns":" 7.5e1 ","b64":"QUJD",` +
	`"t":true,"fa":false,"nu":null,"e":{},"ea":[],"a":[1,"x",[null,true],{"k":0.1,"K":2}],"ss":"true","neg":-9223372036854775808,"tiny":1e-9,"long":1.23456789012345678901234567890e28,"é/\n":{"y":"é","x":[[]]}}`

var richPaths = [][]any{{"i"}, {"u"}, {"f"}, {"z"}, {"s"}, {"ns"}, {"b64"}, {"t"}, {"fa"}, {"nu"}, {"e"}, {"ea"}, {"a"}, {"a", 0}, {"a", -1, "k"}, {"a", 9}, {"a", "x"}, {"i", "x"}, {"none"}, {"ss"}, {"neg"}, {"tiny"}, {"long"}, {"é/\n", "x", 0}, {[]any{"a", 2, 0}}, {1.5}}

var bigText = func() string {
	var o, l []string
	for i := 0; i < 24; i++ {
		o = append(o, fmt.Sprintf(`"k%d":%d`, i*7%24, i))
		l = append(l, fmt.Sprint(i*31%24))
	}
	return `{"s":"` + strings.Repeat("abcdefghij", 30) + `","e":"` + strings.Repeat(`\né<\ud83d\ude00/`, 24) + `","b64":"` + strings.Repeat("QUJDREVG", 30) + `","n":1` + strings.Repeat("0123456789", 12) + `.5,"ns":" ` + strings.Repeat("0", 80) + `7.5e1","long":"` + strings.Repeat("é", 200) +
		`","` + strings.Repeat("k", 100) + `":1,"l":[` + strings.Join(l, ",") + `],"o":{` + strings.Join(o, ",") + `},"deep":` + strings.Repeat("[", 30) + `{"z":{}}` + strings.Repeat("]", 30) + `}`
}()

func allNodes(v *jsonvalue.V, f func(v *jsonvalue.V)) {
	f(v)
	for _, x := range v.ForRangeArr() {
		allNodes(x, f)
	}
	m := v.ForRangeObj()
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		allNodes(m[k], f)
	}
}

// methodsOf lists the methods of t whose name begins with one of the prefixes.
func methodsOf(t reflect.Type, prefix ...string) (out []reflect.Method) {
	for i := 0; i < t.NumMethod(); i++ {
		for _, p := range prefix {
			if strings.HasPrefix(t.Method(i).Name, p) {
				out = append(out, t.Method(i))
			}
		}
	}
	return
}

func showResults(out []reflect.Value) (s string) {
	for _, o := range out {
		if v, ok := o.Interface().(*jsonvalue.V); ok {
			s += valOf(v, nil) + " "
		} else {
			s += fmt.Sprint(o.Interface()) + " "
		}
	}
	return
}

func tryCall(f reflect.Value, in ...reflect.Value) (s string) {
	defer func() {
		if x := recover(); x != nil {
			s = "panic"
		}
	}()
	return showResults(f.Call(in))
}

func argsOf(l []any) (in []reflect.Value) {
	for _, x := range l {
		in = append(in, reflect.ValueOf(x))
	}
	return
}

// sampleArg is an argument of the type a setter takes.
func sampleArg(t reflect.Type) reflect.Value {
	switch t.Kind() {
	case reflect.Interface:
		return reflect.ValueOf(map[string]any{"w": []any{1.5, "é", nil}})
	case reflect.Slice:
		return reflect.ValueOf([]byte("by"))
	case reflect.String:
		return reflect.ValueOf("st<")
	case reflect.Bool:
		return reflect.ValueOf(true)
	}
	return reflect.ValueOf(3).Convert(t)
}

func wideOptions() [][]jsonvalue.Option {
	var out [][]jsonvalue.Option
	for _, o := range optAlphabet() {
		out = append(out, []jsonvalue.Option{o.opt})
	}
	for _, o := range append(nanCases(), infCases()...) {
		if o.opt != nil {
			out = append(out, []jsonvalue.Option{o.opt})
		}
	}
	return out
}

func wideOps() []readOp {
	vt := reflect.TypeOf((*jsonvalue.V)(nil))
	accessors := methodsOf(vt, "Is", "Int", "Uint", "Float", "Bool", "Len", "ValueType", "Bytes", "GreaterThanInt64Max", "String")
	getters := methodsOf(vt, "Get", "MustGet")
	canonical := func(b []byte, err error) string { // the order of members may be free
		if err != nil {
			return "error " + err.Error()
		}
		s := canonOf(b, nil)
		if strings.HasPrefix(s, "not JSON") { // with a prefix that is not blank
			sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
			s = string(b)
		}
		return s
	}
	writers := func(methods []reflect.Method) func(e *readEnv) string {
		return func(e *readEnv) string {
			var b strings.Builder
			for _, m := range methods {
				v := jsonvalue.MustUnmarshalString(`{"l":[1,{"k":[2,3]}],"o":{"x":{}}}`)
				for _, p := range [][]any{{"o", "x", "n", 0}, {"l", 1, "k", -1}, {"l"}} {
					in := []reflect.Value{reflect.ValueOf(v)}
					if m.Type.NumIn() == 2 {
						in = append(in, sampleArg(m.Type.In(1)))
					}
					for _, end := range []string{"At", "InTheEnd", "InTheBeginning", "Before", "After"} {
						func() {
							defer func() {
								if x := recover(); x != nil {
									b.WriteString("panic")
								}
							}()
							if f := m.Func.Call(in)[0].MethodByName(end); f.IsValid() {
								b.WriteString(m.Name + end + tryCall(f, argsOf(p)...))
							}
						}()
					}
				}
				func() {
					defer func() { _ = recover() }()
					v.At("w", "x").Set(1)
					v.MustDelete("l", 0)
					v.MustDelete("o", "x")
				}()
				b.WriteString(valOf(v, nil))
			}
			return b.String()
		}
	}
	return []readOp{
		{name: "every set", own: true, f: writers(methodsOf(vt, "Set", "MustSet"))},
		{name: "every append", own: true, f: writers(methodsOf(vt, "Append", "MustAppend"))},
		{name: "every insert", own: true, f: writers(methodsOf(vt, "Insert", "MustInsert"))},
		{name: "every accessor of every value", f: func(e *readEnv) string {
			var b strings.Builder
			allNodes(e.rich, func(v *jsonvalue.V) {
				for _, m := range accessors {
					if m.Type.NumIn() != 1 || m.Name == "String" && (v.IsObject() || v.IsArray()) {
						continue
					}
					b.WriteString(m.Name + tryCall(m.Func, reflect.ValueOf(v)))
				}
			})
			return b.String()
		}},
		{name: "every getter on every path", f: func(e *readEnv) string {
			var b strings.Builder
			for _, m := range getters {
				for _, p := range richPaths {
					b.WriteString(m.Name + tryCall(m.Func, append([]reflect.Value{reflect.ValueOf(e.rich)}, argsOf(p)...)...))
				}
			}
			return b.String()
		}},
		{name: "marshal with every option", f: func(e *readEnv) string {
			var b strings.Builder
			for _, o := range wideOptions() {
				b.WriteString(canonical(e.rich.Marshal(o...)))
			}
			return b.String()
		}},
		{name: "marshal special floats with every option", own: true, f: func(e *readEnv) string {
			var b strings.Builder
			l := []*jsonvalue.V{jsonvalue.New(math.NaN()), jsonvalue.New(math.Inf(1)), jsonvalue.New(math.Inf(-1))}
			for _, o := range wideOptions() {
				for _, v := range l {
					x, err := v.Marshal(o...)
					b.WriteString(fmt.Sprint(string(x), err))
				}
			}
			return b.String()
		}},
		{name: "key paths", f: func(e *readEnv) string {
			seen := map[string]bool{}
			s, err := e.rich.MarshalString(jsonvalue.OptKeySequenceWithLessFunc(func(p *jsonvalue.ParentInfo, k, l string, _, _ *jsonvalue.V) bool {
				if p == nil {
					return k < l
				}
				t := p.KeyPath.String()
				for _, x := range p.KeyPath {
					t += fmt.Sprint(x.String(), x.Int(), x.IsInt(), x.IsString())
				}
				seen[t] = true
				return k < l
			}))
			var l []string
			for t := range seen {
				l = append(l, t)
			}
			sort.Strings(l)
			return fmt.Sprint(s, err, l)
		}},
		{name: "iterate everything", spawns: true, f: func(e *readEnv) string {
			var l []string
			allNodes(e.rich, func(v *jsonvalue.V) {
				v.RangeObjects(func(k string, x *jsonvalue.V) bool { l = append(l, "o"+k+x.ValueType().String()); return true })
				v.RangeObjectsBySetSequence(func(k string, x *jsonvalue.V) bool { l = append(l, "q"+k); return k != "s" })
				v.RangeArray(func(i int, x *jsonvalue.V) bool { l = append(l, fmt.Sprint("a", i, x.Len())); return i < 2 })
				for it := range v.IterObjects() {
					l = append(l, "i"+it.K)
				}
				for it := range v.IterArray() {
					l = append(l, fmt.Sprint("j", it.I))
				}
			})
			sort.Strings(l)
			return strings.Join(l, ",")
		}},
		{name: "compare everything", f: func(e *readEnv) string {
			var all []*jsonvalue.V
			allNodes(e.rich, func(v *jsonvalue.V) { all = append(all, v) })
			all = append(all, e.num)
			var b strings.Builder
			for _, v := range all {
				for _, w := range all {
					fmt.Fprint(&b, v.Equal(w), v.LessThan(w), v.GreaterThanOrEqual(w))
				}
			}
			return b.String()
		}},
		{name: "contains everything", f: func(e *readEnv) string {
			var b strings.Builder
			allNodes(e.rich, func(v *jsonvalue.V) { fmt.Fprint(&b, beta.Contains(e.rich, v), beta.Contains(v, e.rich)) })
			for _, p := range richPaths {
				fmt.Fprint(&b, beta.Contains(e.rich, 1, p...), beta.Contains(e.rich, []any{1, "x"}, p...))
			}
			return b.String()
		}},
		{name: "export everything", f: func(e *readEnv) string {
			var b strings.Builder
			allNodes(e.rich, func(v *jsonvalue.V) {
				for _, d := range []any{new(any), new(int), new(uint8), new(float64), new(string), new(bool), new([]any), new(map[string]any), new([]int), new(schedStruct), new(*int), new([2]any), new(json.Number), new([]byte)} {
					err := v.Export(d)
					x, _ := json.Marshal(d)
					fmt.Fprint(&b, string(x), err != nil)
				}
				x, err := jsonvalue.Import(v)
				b.WriteString(valOf(x, err))
			})
			return b.String()
		}},
		{name: "construct everything", own: true, f: func(e *readEnv) string {
			l := []*jsonvalue.V{
				jsonvalue.NewString("é<"), jsonvalue.NewBytes([]byte{1, 2, 255}), jsonvalue.NewBool(true), jsonvalue.NewNull(), jsonvalue.NewArray(),
				jsonvalue.NewInt(-1), jsonvalue.NewInt32(-2), jsonvalue.NewInt64(-3), jsonvalue.NewUint(1), jsonvalue.NewUint32(2), jsonvalue.NewUint64(math.MaxUint64),
				jsonvalue.NewFloat32(0.1), jsonvalue.NewFloat64(1e-7), jsonvalue.NewFloat64(1e300), jsonvalue.NewFloat64f(1.25, 'f', 1), jsonvalue.NewFloat32f(1.5e9, 'E', 2), jsonvalue.NewFloat64f(1, 'x', 3), jsonvalue.NewFloat64f(1e-10, 'g', -1),
				jsonvalue.NewObject(jsonvalue.M{"a": 1, "b": "x", "c": uint8(3), "d": 1.5, "e": nil, "f": true, "g": []byte("z"), "h": float32(2.5), "i": int64(-9), "j": uint64(9)}),
			}
			var b strings.Builder
			for _, v := range l {
				b.WriteString(valOf(v, nil) + fmt.Sprint(v.Len(), v.ValueType(), v.Int(), v.Float64(), v.Bool()) + canonical(v.Marshal()))
			}
			return b.String()
		}},
		{name: "parse many texts", own: true, f: func(e *readEnv) string {
			var b strings.Builder
			for _, t := range []string{richText, ` [ 0 , -0 , 1.5E+3, 1e400, 12345678901234567890, -9223372036854775808, -9223372036854775809, 0.000001e-300, -1 ] `, `"\ud83d\ude00\uD7FF\u00fF\/\\\"\b\f\n\r\t"`, "\"é\xe2\x82\xac\xf0\x9f\x98\x80\"",
				`"\ud83d"`, `"\ude00\ud83d"`, `"\ud83dx"`, `"\u12G4"`, `"\x"`, `"\u12`, `"`, `"` + "\xff" + `"`, `"` + "\xe2\x82" + `"`, `tru`, `falsy`, `nul`, `true `, `false`, `[true,false,null,]`, `{"a"}`, `{"a":}`, `{"a":1,}`, `{,}`, `[1 2]`, `{"a":1 "b":2}`, `1.`, `-`, `01`, `1e`, `1e+`, `+1`, `--1`, `1-1`, `0x1`, ``, ` `, `{`, `[`, `]`, `{]`, "\ufeff1", `{"a":[{"b":[{"c":[]}]}],"a":2}`, `[[[[[[]]]]]]`, "\t\r\n1\n"} {
				v, err := jsonvalue.UnmarshalString(t)
				b.WriteString(valOf(v, err))
				v, err = jsonvalue.UnmarshalNoCopy([]byte(t))
				b.WriteString(valOf(v, err))
				b.WriteString(valOf(jsonvalue.MustUnmarshal([]byte(t)), nil) + valOf(jsonvalue.MustUnmarshalNoCopy([]byte(t)), nil))
				var w jsonvalue.V
				fmt.Fprint(&b, w.UnmarshalJSON([]byte(t)), w.UnmarshalBinary([]byte(t)))
				if err == nil {
					b.WriteString(canonical(v.Marshal(jsonvalue.OptUTF8())))
				}
			}
			return b.String()
		}},
		{name: "import every kind", own: true, f: func(e *readEnv) string {
			var b strings.Builder
			for _, x := range goVals() {
				for _, f := range []func() string{
					func() string { return valOf(jsonvalue.Import(x)) },
					func() string { return valOf(beta.Import(x)) },
					func() string { return valOf(jsonvalue.New([]any{x}), nil) },
					func() string { return valOf(jsonvalue.Import(&x, jsonvalue.OptIgnoreOmitempty())) },
				} {
					s := runOp(func(*readEnv) string { return f() }, nil)
					if strings.Contains(s, "error") || strings.Contains(s, "nil, ") {
						s = s[:3] // may show addresses
					}
					b.WriteString(s)
				}
			}
			return b.String()
		}},
		{name: "caseless everything", own: true, f: func(e *readEnv) string {
			var b strings.Builder
			v := jsonvalue.MustUnmarshalString(richText)
			ct := reflect.TypeOf((*jsonvalue.Caseless)(nil)).Elem()
			for i := 0; i < ct.NumMethod(); i++ {
				if n := ct.Method(i).Name; strings.Contains(n, "Get") {
					for _, p := range [][]any{{"I"}, {"S"}, {"A", -1, "k"}, {"A", 3, "K"}, {"NONE"}, {"É/\n", "X"}, {"ſ"}} {
						b.WriteString(n + tryCall(reflect.ValueOf(v.Caseless()).MethodByName(n), argsOf(p)...))
					}
				}
			}
			v.MustSet(1).At("A2")
			fmt.Fprint(&b, v.Caseless().Delete("T"), v.Caseless().Delete("A", 3, "k"), v.Caseless().MustGet("a2"))
			return b.String() + valOf(v, nil)
		}},
		{name: "read big values", big: true, f: func(e *readEnv) string {
			var b strings.Builder
			allNodes(e.big, func(v *jsonvalue.V) {
				fmt.Fprint(&b, v.Len(), v.ValueType(), v.Int(), v.Float64(), v.Bool(), v.IsInteger(), hashStr(string(v.Bytes())))
				if v.IsString() || v.IsNumber() {
					b.WriteString(v.String())
				}
			})
			for _, k := range []string{"s", "e", "b64", "n", "long", "ns", strings.Repeat("k", 100)} {
				x, e1 := e.big.GetBytes(k)
				y, e2 := e.big.GetString(k)
				z, e3 := e.big.GetFloat64(k)
				fmt.Fprint(&b, hashStr(string(x)), e1, y, e2, z, e3)
			}
			return b.String() + valOf(e.big.Get("deep", 0, 0, 0, 0, 0, 0, 0, 0, 0, 0))
		}},
		{name: "marshal, copy and compare big values", big: true, f: func(e *readEnv) string {
			var b strings.Builder
			for _, o := range [][]jsonvalue.Option{{jsonvalue.OptSetSequence()}, {jsonvalue.OptDefaultStringSequence(), jsonvalue.OptIndent("", "  ")}, {jsonvalue.OptSetSequence(), jsonvalue.OptUTF8(), jsonvalue.OptEscapeSlash(false)}} {
				s, err := e.big.MarshalString(o...)
				fmt.Fprint(&b, s, err)
			}
			x, err := jsonvalue.Import(e.big)
			fmt.Fprint(&b, valOf(x, err), e.big.Equal(x), x.Equal(e.big), beta.Contains(e.big, x), beta.Contains(e.big, 1, "l"))
			return b.String()
		}},
		{name: "parse and build big values", own: true, f: func(e *readEnv) string {
			v, err := jsonvalue.UnmarshalString(bigText)
			s := valOf(v, err)
			v.MustSet(strings.Repeat("<é", 50)).At("new", strings.Repeat("q", 70))
			for i := 0; i < 20; i++ {
				v.MustAppend(i).InTheEnd("l")
				v.MustInsert(i).Before("l", 3)
				v.MustDelete("o", fmt.Sprint("k", i))
			}
			v.MustGet("l").SortArray(func(a, b *jsonvalue.V) bool { return a.Int() < b.Int() })
			return s + v.MustMarshalString(jsonvalue.OptSetSequence())
		}},
		{name: "sort many", own: true, f: func(e *readEnv) string {
			v := jsonvalue.NewArray()
			for i := 0; i < 40; i++ {
				v.MustAppend(i * 17 % 40).InTheEnd()
			}
			v.SortArray(func(a, b *jsonvalue.V) bool { return a.Int() < b.Int() })
			return v.MustMarshalString()
		}},
	}
}
