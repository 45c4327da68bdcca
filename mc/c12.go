package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

func init() { checks["C12"] = c12 }

// dump writes everything observable of v into fresh memory.
func dump(v *jsonvalue.V) string {
	var b strings.Builder
	var rec func(v *jsonvalue.V)
	rec = func(v *jsonvalue.V) {
		fmt.Fprintf(&b, "%d:", v.ValueType())
		switch v.ValueType() {
		case jsonvalue.String:
			fmt.Fprintf(&b, "%q", v.String())
		case jsonvalue.Number:
			fmt.Fprintf(&b, "%s/%v/%d/%d", v.String(), v.Float64(), v.Int64(), v.Uint64())
		case jsonvalue.Boolean:
			fmt.Fprint(&b, v.Bool())
		case jsonvalue.Array:
			fmt.Fprintf(&b, "[%d ", v.Len())
			for i := 0; i < v.Len(); i++ {
				rec(v.MustGet(i))
				b.WriteByte(' ')
			}
			b.WriteByte(']')
		case jsonvalue.Object:
			fmt.Fprintf(&b, "{%d ", v.Len())
			v.RangeObjectsBySetSequence(func(k string, x *jsonvalue.V) bool {
				fmt.Fprintf(&b, "%q=", k)
				if y, err := v.Get(strings.Clone(k)); err != nil || y != x {
					b.WriteString("(not found by its key)")
				}
				rec(x)
				b.WriteByte(' ')
				return true
			})
			b.WriteByte('}')
		}
	}
	rec(v)
	b.WriteByte('|')
	b.WriteString(v.MustMarshalString(jsonvalue.OptSetSequence()))
	return b.String()
}

// nodesOf lists all values of the tree.
func nodesOf(v *jsonvalue.V) (out []*jsonvalue.V) {
	out = append(out, v)
	if v.IsArray() {
		for i := 0; i < v.Len(); i++ {
			out = append(out, nodesOf(v.MustGet(i))...)
		}
	}
	v.RangeObjectsBySetSequence(func(_ string, x *jsonvalue.V) bool { out = append(out, nodesOf(x)...); return true })
	return
}

var scratchMutations = []struct {
	name string
	f    func(v *jsonvalue.V)
}{
	{"decode another value into it", func(v *jsonvalue.V) { _ = v.UnmarshalJSON([]byte(`"overwritten"`)) }},
	{"set a new member", func(v *jsonvalue.V) { v.MustSetInt(77).At("new") }},
	{"overwrite a member or element", func(v *jsonvalue.V) {
		k := ""
		v.RangeObjects(func(x string, _ *jsonvalue.V) bool { k = x; return false })
		v.MustSetInt(77).At(k)
		v.MustSetInt(77).At(0)
	}},
	{"delete a member or element", func(v *jsonvalue.V) {
		v.RangeObjects(func(x string, _ *jsonvalue.V) bool { v.MustDelete(x); return false })
		v.MustDelete(0)
	}},
	{"append", func(v *jsonvalue.V) { v.MustAppendInt(77).InTheEnd() }},
	{"append in the beginning", func(v *jsonvalue.V) { v.MustAppendInt(77).InTheBeginning() }},
	{"insert", func(v *jsonvalue.V) { v.MustInsertInt(77).After(0); v.MustInsertInt(78).Before(-1) }},
	{"delete all", func(v *jsonvalue.V) {
		for v.Len() > 0 && v.IsArray() {
			v.MustDelete(-1)
		}
		for k := range v.ForRangeObj() {
			v.MustDelete(k)
		}
		v.MustAppendInt(77).InTheEnd()
	}},
	{"reverse", func(v *jsonvalue.V) {
		n := 0
		v.SortArray(func(a, b *jsonvalue.V) bool { n++; return a.String() > b.String() })
	}},
	{"caseless use", func(v *jsonvalue.V) {
		v.Caseless().MustGet("NEW")
		v.Caseless().MustDelete("A")
	}},
}

func heapBytes(s string) []byte { return append(make([]byte, 0, len(s)+8), s...) }

// scribbles are ways to overwrite a byte slice the caller owns.
func scribble(b []byte, way int) {
	switch way {
	case 0:
		for i := range b {
			b[i] = 'X'
		}
	case 1:
		for i := range b {
			b[i] ^= 1
		}
	case 2:
		b = b[:cap(b)]
		for i := range b {
			b[i] = 0
		}
	case 3:
		_ = append(b, "}]overflow"...)
	default:
		if i := way - 4; i < len(b) {
			b[i] ^= 0x11
		}
	}
}

// ---- generated Go values ----

type sharedMarshaler struct{ B []byte }

func (m *sharedMarshaler) MarshalJSON() ([]byte, error) { return m.B, nil }

type sharedText struct{ B []byte }

func (m *sharedText) MarshalText() ([]byte, error) { return m.B, nil }

// goTypes builds Go types over leaves up to a nesting depth.
func goTypes(leaves []reflect.Type, depth int) []reflect.Type {
	out := append([]reflect.Type{}, leaves...)
	prev := leaves
	for d := 1; d <= depth; d++ {
		var next []reflect.Type
		for _, t := range prev {
			next = append(next, reflect.SliceOf(t), reflect.ArrayOf(2, t), reflect.MapOf(reflect.TypeOf(""), t), reflect.PointerTo(t),
				reflect.StructOf([]reflect.StructField{{Name: "F", Type: t, Tag: `json:"f"`}, {Name: "I", Type: reflect.TypeOf((*any)(nil)).Elem()}}))
		}
		out = append(out, next...)
		prev = next
	}
	return out
}

// fill builds a value of type t deterministically.
func fill(t reflect.Type) reflect.Value {
	v := reflect.New(t).Elem()
	switch x := v.Addr().Interface().(type) {
	case *[]byte:
		*x = heapBytes("bytes!")
		return v
	case *json.RawMessage:
		*x = heapBytes(`{"raw":["r"]}`)
		return v
	case *jsonvalue.V:
		*x = *jsonvalue.MustUnmarshalString(`{"v":[1,"v"]}`)
		return v
	case *sharedMarshaler:
		x.B = heapBytes(`["shared",{"k":"w"}]`)
		return v
	case *sharedText:
		x.B = heapBytes(`shared text`)
		return v
	}
	switch t.Kind() {
	case reflect.String:
		v.SetString(string(heapBytes("str")))
	case reflect.Int:
		v.SetInt(5)
	case reflect.Slice:
		v.Set(reflect.MakeSlice(t, 2, 3))
		for i := 0; i < 2; i++ {
			v.Index(i).Set(fill(t.Elem()))
		}
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			v.Index(i).Set(fill(t.Elem()))
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(t))
		v.SetMapIndex(reflect.ValueOf("k"), fill(t.Elem()))
	case reflect.Pointer:
		p := reflect.New(t.Elem())
		p.Elem().Set(fill(t.Elem()))
		v.Set(p)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).Type.Kind() == reflect.Interface {
				v.Field(i).Set(fill(t.Field(0).Type))
			} else {
				v.Field(i).Set(fill(t.Field(i).Type))
			}
		}
	}
	return v
}

// smash changes all memory reachable from v.
func smash(v reflect.Value) {
	if !v.IsValid() {
		return
	}
	if v.CanInterface() {
		switch x := v.Interface().(type) {
		case []byte:
			scribble(x, 0)
			return
		case json.RawMessage:
			scribble(x, 0)
			return
		case *jsonvalue.V:
			if x != nil {
				for _, n := range nodesOf(x) {
					for _, m := range scratchMutations[1:] {
						m.f(n)
					}
					scratchMutations[0].f(n)
				}
			}
			return
		}
	}
	if v.CanAddr() && v.Addr().CanInterface() {
		if x, ok := v.Addr().Interface().(*jsonvalue.V); ok {
			smash(reflect.ValueOf(x))
			return
		}
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		smash(v.Elem())
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			smash(v.Index(i))
			if v.Index(i).CanSet() {
				v.Index(i).Set(reflect.Zero(v.Type().Elem()))
			}
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		for _, k := range v.MapKeys() {
			smash(v.MapIndex(k))
			v.SetMapIndex(k, reflect.Value{})
		}
		if v.Type().Key().Kind() == reflect.String {
			v.SetMapIndex(reflect.ValueOf("smashed").Convert(v.Type().Key()), reflect.Zero(v.Type().Elem()))
		}
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(jsonvalue.V{}) {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			smash(v.Field(i))
			if v.Field(i).CanSet() {
				v.Field(i).Set(reflect.Zero(v.Field(i).Type()))
			}
		}
	default:
		if v.CanSet() {
			v.Set(reflect.Zero(v.Type()))
		}
	}
}

func goDump(v reflect.Value) string {
	var b strings.Builder
	var rec func(v reflect.Value)
	rec = func(v reflect.Value) {
		if !v.IsValid() {
			b.WriteString("nil")
			return
		}
		if v.Type() == reflect.TypeOf(jsonvalue.V{}) {
			p := reflect.New(v.Type())
			p.Elem().Set(v)
			b.WriteString(dump(p.Interface().(*jsonvalue.V)))
			return
		}
		switch v.Kind() {
		case reflect.Pointer, reflect.Interface:
			b.WriteByte('&')
			rec(v.Elem())
		case reflect.Slice, reflect.Array:
			fmt.Fprintf(&b, "[%d ", v.Len())
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i))
				b.WriteByte(' ')
			}
		case reflect.Map:
			fmt.Fprintf(&b, "{%d ", v.Len())
			ks := v.MapKeys()
			sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
			for _, k := range ks {
				fmt.Fprintf(&b, "%v=", k)
				rec(v.MapIndex(k))
			}
		case reflect.Struct:
			b.WriteByte('(')
			for i := 0; i < v.NumField(); i++ {
				rec(v.Field(i))
				b.WriteByte(',')
			}
			b.WriteByte(')')
		default:
			fmt.Fprintf(&b, "%v", v)
		}
	}
	rec(v)
	return b.String()
}

func c12(r *Run) {
	c12Siblings(r)
	c12Large(r)
	r.Assume("channel iterators are drained before the value is changed; strings are immutable")
	g := newTreeGen([]*Val{vNum("12"), vStr("text"), vStr("é\\\n"), vBool(true), vNull(), vNum("-1.50")}, []string{"a", "k\"é"})
	trees := g.upTo(3)
	g4 := newTreeGen([]*Val{vNum("12"), vStr("é\\\n")}, []string{"a", "k\"é"})
	for _, t := range g4.upTo(r.Pick(3, 4)) {
		if t.nodes() > 3 {
			trees = append(trees, t)
		}
	}
	texts := make([]string, len(trees))
	for i, t := range trees {
		texts[i] = t.jsonText()
		if i%2 == 1 {
			texts[i] = " \n" + escStyle{}.format(t) + "\t"
		}
	}
	// 1. parsing entry points and the caller's bytes
	parsers := []struct {
		name string
		f    func(b []byte) *jsonvalue.V
	}{
		{"Unmarshal", func(b []byte) *jsonvalue.V { return jsonvalue.MustUnmarshal(b) }},
		{"V.UnmarshalJSON", func(b []byte) *jsonvalue.V { v := &jsonvalue.V{}; _ = v.UnmarshalJSON(b); return v }},
		{"V.UnmarshalBinary", func(b []byte) *jsonvalue.V {
			v := jsonvalue.MustUnmarshalString(oldContent)
			_ = v.UnmarshalBinary(b)
			return v
		}},
		{"json.Unmarshal into *V", func(b []byte) *jsonvalue.V { v := &jsonvalue.V{}; _ = json.Unmarshal(b, v); return v }},
		{"json.Unmarshal into struct", func(b []byte) *jsonvalue.V {
			var s struct{ V *jsonvalue.V }
			in := heapBytes(`{"V":` + string(b) + `}`)
			_ = json.Unmarshal(in, &s)
			scribble(in, 0)
			if s.V == nil {
				return jsonvalue.NewNull()
			}
			return s.V
		}},
		{"UnmarshalString", func(b []byte) *jsonvalue.V { return jsonvalue.MustUnmarshalString(unsafeString(b)) }},
		{"Import of json.RawMessage", func(b []byte) *jsonvalue.V { v, _ := jsonvalue.Import(json.RawMessage(b)); return v }},
		{"Import of a marshaler returning its own buffer", func(b []byte) *jsonvalue.V { v, _ := jsonvalue.Import(&sharedMarshaler{b}); return v }},
		{"Set of a marshaler", func(b []byte) *jsonvalue.V {
			v := jsonvalue.NewObject()
			v.MustSet(&sharedMarshaler{b}).At("x")
			return v.MustGet("x")
		}},
	}
	r.Par("parser input", fmt.Sprintf("%d texts x %d entry points: the input is not modified; overwriting it (wholly and at every single byte) later changes nothing", len(texts), len(parsers)), len(texts), func(c *C, sh int) {
		text := texts[sh]
		c.State(hashStr(text))
		want := dump(jsonvalue.MustUnmarshalString(text))
		for _, p := range parsers {
			for way := 0; way < 4+len(text); way++ {
				if way >= 4 && !r.thorough && (way+sh)%4 != 0 && len(text) > 12 {
					continue
				}
				c.Step(2)
				c.Do(func() string { return fmt.Sprintf("%s of %s, then overwriting the input (%d)", p.name, text, way) }, func() {
					in := heapBytes(text)
					v := p.f(in)
					if string(in) != text || string(in[:cap(in)][len(in):]) != strings.Repeat("\x00", cap(in)-len(in)) {
						c.Fail("the input was changed to %q", in[:cap(in)])
					}
					d := dump(v)
					if d != want {
						c.Fail("value is %s, should be %s", d, want)
					}
					if p.name == "UnmarshalString" {
						return
					}
					scribble(in, way)
					if d := dump(v); d != want {
						c.Fail("the value changed with the input: %s, was %s", d, want)
					}
				})
			}
		}
	})
	// 2. outputs
	outs := []struct {
		name string
		f    func(v *jsonvalue.V) []byte
	}{
		{"Marshal", func(v *jsonvalue.V) []byte { return v.MustMarshal(jsonvalue.OptSetSequence()) }},
		{"Marshal indented", func(v *jsonvalue.V) []byte {
			return v.MustMarshal(jsonvalue.OptSetSequence(), jsonvalue.OptIndent("", " "), jsonvalue.OptUTF8())
		}},
		{"MarshalJSON", func(v *jsonvalue.V) []byte { b, _ := v.MarshalJSON(); return b }},
		{"MarshalBinary", func(v *jsonvalue.V) []byte { b, _ := v.MarshalBinary(); return b }},
		{"json.Marshal", func(v *jsonvalue.V) []byte { b, _ := json.Marshal(v); return b }},
		{"Bytes", func(v *jsonvalue.V) []byte { return v.Bytes() }},
		{"GetBytes", func(v *jsonvalue.V) []byte { b, _ := v.GetBytes("a"); return b }},
		{"Export RawMessage", func(v *jsonvalue.V) []byte { var m json.RawMessage; _ = v.Export(&m); return m }},
	}
	outTrees := append([]*Val{vStr("Ynl0ZXM="), vObj("a", vStr("Ynl0ZXM=")), vStr(""), vStr(strings.Repeat("long ", 2000)), vArr(vStr(strings.Repeat("x", 4100)))}, trees...)
	r.Par("outputs", fmt.Sprintf("%d values x all ordered pairs of %d output calls: overwriting one result changes neither the value nor the other result", len(outTrees), len(outs)), len(outTrees), func(c *C, sh int) {
		w := outTrees[sh]
		for ci, cons := range constructions[:2] {
			for i := range outs {
				for j := range outs {
					if !r.thorough && sh > 2000 && (i+j+sh)%8 != 0 {
						continue
					}
					c.Step(3)
					c.Do(func() string { return fmt.Sprintf("%s (%s): %s then %s", w, cons.name, outs[i].name, outs[j].name) }, func() {
						v := cons.make(w)
						want := dump(v)
						a := outs[i].f(v)
						a0 := string(a)
						b := outs[j].f(v)
						b0 := string(b)
						scribble(b, 1)
						scribble(b, 2)
						if string(a) != a0 {
							c.Fail("the first output changed: %q, was %q", a, a0)
						}
						e := outs[j].f(v)
						if len(e) != len(b0) || (ci == 0 && w.maxWidth() < 2 && string(e) != b0) {
							c.Fail("the second output is %q after its earlier result %q was overwritten", e, b0)
						}
						scribble(a, 0)
						scribble(a, 3)
						scribble(e, 0)
						if d := dump(v); d != want {
							c.Fail("the value changed with its output: %s, was %s", d, want)
						}
					})
				}
			}
		}
	})
	// 3. strings returned earlier never change
	r.Par("returned strings", "strings returned by MarshalString, String, keys of iterations and GetString stay the same whatever happens to the value later", len(trees), func(c *C, sh int) {
		w := trees[sh]
		for _, cons := range constructions {
			c.Do(func() string { return fmt.Sprintf("%s (%s)", w, cons.name) }, func() {
				v := cons.make(w)
				var got []string
				for _, n := range nodesOf(v) {
					got = append(got, n.String(), n.MustMarshalString())
					n.RangeObjects(func(k string, _ *jsonvalue.V) bool { got = append(got, k); return true })
				}
				var keep []string
				for _, s := range got {
					keep = append(keep, strings.Clone(s))
				}
				_ = jsonvalue.MustUnmarshalString(`{"other":["values",{"and":"texts"}]}`).MustMarshal()
				for _, n := range nodesOf(v) {
					for _, m := range scratchMutations[1:] {
						m.f(n)
					}
				}
				for _, n := range nodesOf(v) {
					_ = n.MustMarshal()
					_ = n.UnmarshalJSON([]byte(`{"zz":"zzzzzzzz"}`))
				}
				for i := range got {
					if got[i] != keep[i] {
						c.Fail("returned string %q became %q", keep[i], got[i])
					}
				}
			})
		}
	})
	// 4. copies
	r.Par("copies", fmt.Sprintf("%d values x %d ways of copying x every node of either side x %d mutations", len(trees), len(copyWays), len(scratchMutations)), len(trees), func(c *C, sh int) {
		w := trees[sh]
		n := w.nodes()
		for wi, cw := range copyWays {
			if !r.thorough && n > 3 && wi > 0 && (wi+sh)%5 != 0 {
				continue
			}
			for side := 0; side < 2; side++ {
				for node := 0; node < n; node++ {
					for _, m := range scratchMutations {
						c.Step(2)
						c.Do(func() string {
							return fmt.Sprintf("%s copied by %s; %s at node %d of the %s", w, cw.name, m.name, node, []string{"copy", "original"}[side])
						}, func() {
							v := constructions[(sh+wi)%len(constructions)].make(w)
							x := cw.f(v)
							dv, dx := dump(v), dump(x)
							if side == 0 {
								m.f(nodesOf(x)[node])
								if d := dump(v); d != dv {
									c.Fail("the original changed: %s, was %s", d, dv)
								}
							} else {
								m.f(nodesOf(v)[node])
								if d := dump(x); d != dx {
									c.Fail("the copy changed: %s, was %s", d, dx)
								}
							}
						})
					}
				}
			}
		}
	})
	// 5. snapshots
	r.Par("snapshots", "iteration snapshots (slice, map, drained channels): changing them leaves the value alone and changing the value leaves them alone; also two snapshots", len(trees), func(c *C, sh int) {
		w := trees[sh]
		if w.K != KArr && w.K != KObj {
			return
		}
		mkSnap := func(v *jsonvalue.V) (show func() string, change func()) {
			a, o := v.ForRangeArr(), v.ForRangeObj()
			var ch []string
			for x := range v.IterArray() {
				ch = append(ch, fmt.Sprint(x.I, x.V.String()))
				x.I, x.V = 99, nil
			}
			n := 0
			for x := range v.IterObjects() {
				n += len(x.K)
				x.K, x.V = "changed", nil
			}
			return func() string {
					s := fmt.Sprintf("%p %d %d %v %d|", a, len(a), len(o), ch, n)
					for _, x := range a {
						s += fmt.Sprintf("%p ", x)
					}
					for _, m := range w.O {
						s += fmt.Sprintf("%p ", o[m.K])
					}
					return s
				}, func() {
					for i := range a {
						a[i] = jsonvalue.NewInt(99)
					}
					_ = append(a, jsonvalue.NewInt(98))
					for k := range o {
						o[k] = nil
						break
					}
					for k := range o {
						delete(o, k)
					}
					o["new"] = jsonvalue.NewInt(97)
				}
		}
		for _, cons := range constructions {
			for mi, m := range scratchMutations {
				if mi == 0 {
					continue
				}
				c.Do(func() string { return fmt.Sprintf("%s (%s), %s", w, cons.name, m.name) }, func() {
					v := cons.make(w)
					want := dump(v)
					_, change := mkSnap(v)
					show2, _ := mkSnap(v)
					s2 := show2()
					change()
					if d := dump(v); d != want {
						c.Fail("the value changed with a snapshot: %s, was %s", d, want)
					}
					if s := show2(); s != s2 {
						c.Fail("one snapshot changed with another")
					}
					m.f(v)
					if s := show2(); s != s2 {
						c.Fail("the snapshot changed with the value")
					}
				})
			}
		}
	})
	// 6. Go values
	leaves := []reflect.Type{reflect.TypeOf([]byte{}), reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf(json.RawMessage{}), reflect.TypeOf(&jsonvalue.V{}), reflect.TypeOf(&sharedMarshaler{}), reflect.TypeOf(&sharedText{}), reflect.TypeOf(jsonvalue.V{})}
	types := goTypes(leaves, r.Pick(2, 3))
	imps := []struct {
		name string
		f    func(x any) *jsonvalue.V
	}{
		{"Import", func(x any) *jsonvalue.V { v, _ := jsonvalue.Import(x); return v }},
		{"New", func(x any) *jsonvalue.V { return jsonvalue.New(x) }},
		{"Set", func(x any) *jsonvalue.V { v := jsonvalue.NewObject(); v.MustSet(x).At("a"); return v }},
		{"Append", func(x any) *jsonvalue.V { v := jsonvalue.NewArray(); v.MustAppend(x).InTheEnd(); return v }},
		{"Insert", func(x any) *jsonvalue.V {
			v := jsonvalue.NewArray()
			v.MustAppendInt(1).InTheEnd()
			v.MustInsert(x).Before(0)
			return v
		}},
	}
	r.Par("Go values", fmt.Sprintf("%d generated Go types (slices, arrays, maps, pointers, structs, interfaces over %d leaf types) x %d calls: source and result are independent", len(types), len(leaves), len(imps)), len(types), func(c *C, sh int) {
		t := types[sh]
		for ii, im := range imps {
			if t == reflect.TypeOf(&jsonvalue.V{}) && ii >= 2 {
				continue // setting a *V shares it
			}
			for _, viaPtr := range []bool{false, true} {
				c.Do(func() string { return fmt.Sprintf("%s of %v (pointer %v)", im.name, t, viaPtr) }, func() {
					if viaPtr && t == reflect.TypeOf(jsonvalue.V{}) && ii >= 2 {
						return
					}
					mk := func() (reflect.Value, any) {
						p := reflect.New(t)
						p.Elem().Set(fill(t))
						if viaPtr {
							return p, p.Interface()
						}
						return p, p.Elem().Interface()
					}
					p, x := mk()
					g0 := goDump(p)
					v := im.f(x)
					if v.ValueType() == jsonvalue.NotExist {
						return
					}
					c.State(hashStr(t.String()))
					if g := goDump(p); g != g0 {
						c.Fail("the Go value was changed to %s, was %s", g, g0)
					}
					d0 := dump(v)
					smash(p)
					if g := goDump(p); g == g0 {
						c.Fail("harness: smash has no effect on %s", g0)
					}
					if d := dump(v); d != d0 {
						c.Fail("the value changed with the Go value: %s, was %s", d, d0)
					}
					p, x = mk()
					v = im.f(x)
					for _, n := range nodesOf(v) {
						for _, m := range scratchMutations[1:] {
							m.f(n)
						}
						scratchMutations[0].f(n)
					}
					if g := goDump(p); g != g0 {
						c.Fail("the Go value changed with the value: %s, was %s", g, g0)
					}
				})
			}
		}
	})
	// 7. export
	dsts := []func() any{func() any { return new(any) }, func() any { return new(map[string]any) }, func() any { return new([]any) }, func() any { return new(jsonvalue.V) }, func() any { return new(*jsonvalue.V) },
		func() any { return new(json.RawMessage) }, func() any { return new([]byte) }, func() any { return new(map[string]*jsonvalue.V) }, func() any { return new([]jsonvalue.V) }, func() any { return new(string) },
		func() any { return new(struct{ A *jsonvalue.V }) }, func() any { return new(struct{ A any }) }}
	r.Par("export", fmt.Sprintf("%d values x %d destination types: destination and value are independent", len(outTrees), len(dsts)), len(outTrees), func(c *C, sh int) {
		w := outTrees[sh]
		for di, mk := range dsts {
			c.Do(func() string { return fmt.Sprintf("%s into %T", w, mk()) }, func() {
				v := constructions[(sh+di)%len(constructions)].make(w)
				want := dump(v)
				dst := mk()
				if err := v.Export(dst); err != nil {
					return
				}
				p := reflect.ValueOf(dst)
				g0 := goDump(p)
				for _, n := range nodesOf(v) {
					for _, m := range scratchMutations[1:] {
						m.f(n)
					}
					scratchMutations[0].f(n)
				}
				if g := goDump(p); g != g0 {
					c.Fail("the destination changed with the value: %s, was %s", g, g0)
				}
				v = constructions[(sh+di)%len(constructions)].make(w)
				dst = mk()
				_ = v.Export(dst)
				smash(reflect.ValueOf(dst))
				if d := dump(v); d != want {
					c.Fail("the value changed with the destination: %s, was %s", d, want)
				}
			})
		}
	})
	// 8. histories over a heap of values and byte slices
	r.heapHistories()
	// 9. setting shares
	r.Par("setting shares", "Set, Append and Insert of a *V place that very value: later changes show on both sides", len(trees), func(c *C, sh int) {
		w := trees[sh]
		for way := 0; way < 5; way++ {
			for _, m := range scratchMutations {
				c.Do(func() string { return fmt.Sprintf("%s placed by call %d, %s", w, way, m.name) }, func() {
					x := build(w)
					v := jsonvalue.NewObject()
					v.MustSet([]int{1, 2}).At("l")
					var p []any
					var ret *jsonvalue.V
					switch way {
					case 0:
						ret, _ = v.Set(x).At("k")
						p = []any{"k"}
					case 1:
						ret, _ = v.Set(x).At("l", 0)
						p = []any{"l", 0}
					case 2:
						ret, _ = v.Append(x).InTheEnd("l")
						p = []any{"l", -1}
					case 3:
						ret, _ = v.Insert(x).Before("l", 1)
						p = []any{"l", 1}
					case 4:
						ret, _ = v.Set(x).At("new", "deep", 0, "k")
						p = []any{"new", "deep", 0, "k"}
					}
					if ret != x || v.MustGet(p[0], p[1:]...) != x {
						c.Fail("the placed value is not the given one")
					}
					m.f(x)
					if d := diff(read(x), v.MustGet(p[0], p[1:]...), "$"); d != "" {
						c.Fail("a change of the placed value is not visible in the document: %s", d)
					}
				})
			}
		}
	})
}

type heapOp struct {
	name string
	do   func(c *C, h *heap)
}

type heap struct {
	v  [3]*jsonvalue.V
	dv [3]string // expected dump
	b  [2][]byte
	db [2]string // expected bytes
}

func (h *heap) redump(i int) { h.dv[i] = dump(h.v[i]) }

func (r *Run) heapHistories() {
	var ops []heapOp
	for b := 0; b < 2; b++ {
		for v := 0; v < 3; v++ {
			ops = append(ops,
				heapOp{fmt.Sprintf("v%d = Unmarshal(b%d)", v, b), func(c *C, h *heap) {
					if x, err := jsonvalue.Unmarshal(h.b[b]); err == nil {
						h.v[v] = x
						h.redump(v)
					}
				}},
				heapOp{fmt.Sprintf("v%d.UnmarshalJSON(b%d)", v, b), func(c *C, h *heap) {
					if h.v[v].UnmarshalJSON(h.b[b]) == nil {
						h.redump(v)
					}
				}},
				heapOp{fmt.Sprintf("b%d = v%d.Marshal()", b, v), func(c *C, h *heap) {
					h.b[b] = h.v[v].MustMarshal(jsonvalue.OptSetSequence())
					h.db[b] = string(h.b[b])
				}},
			)
		}
		ops = append(ops, heapOp{fmt.Sprintf("overwrite b%d", b), func(c *C, h *heap) {
			for i, x := range h.b[b] {
				switch x {
				case '1', '3', '5':
					h.b[b][i] = x + 1
				case 'a', 'c', 'e':
					h.b[b][i] = x + 1
				case 's':
					h.b[b][i] = 'S'
				}
			}
			h.db[b] = string(h.b[b])
		}})
	}
	for v := 0; v < 3; v++ {
		for x := 0; x < 3; x++ {
			if x != v {
				ops = append(ops, heapOp{fmt.Sprintf("v%d = copy of v%d", x, v), func(c *C, h *heap) {
					h.v[x] = jsonvalue.New(h.v[v])
					if d := dump(h.v[x]); d != h.dv[v] {
						c.Fail("copy is %s, should be %s", d, h.dv[v])
					}
					h.dv[x] = h.dv[v]
				}})
			}
		}
		for mi, m := range []func(v *jsonvalue.V){
			func(v *jsonvalue.V) { v.MustSetInt(99).At("a", "m") },
			func(v *jsonvalue.V) {
				v.MustAppendString("s").InTheEnd("c")
				v.MustDelete("c", 0)
				v.MustInsertInt(3).Before("c", 0)
			},
			func(v *jsonvalue.V) { _ = v.MustGet("a").UnmarshalJSON([]byte(`{"new":1}`)); v.MustDelete("e") },
		} {
			ops = append(ops, heapOp{fmt.Sprintf("mutate v%d (%d)", v, mi), func(c *C, h *heap) { m(h.v[v]); h.redump(v) }})
		}
	}
	depth := r.Pick(3, 4)
	r.Par("heap histories", fmt.Sprintf("all histories of 1-%d calls from %d over 3 values and 2 byte slices (parse, decode into, marshal, copy, mutate, overwrite); all untouched values and slices compared after each", depth, len(ops)), len(ops), func(c *C, sh int) {
		hist := []int{sh}
		var rec func()
		rec = func() {
			if c.Expired() {
				return
			}
			c.Step(len(hist))
			c.Do(func() string {
				var s []string
				for _, i := range hist {
					s = append(s, ops[i].name)
				}
				return strings.Join(s, "; ")
			}, func() {
				h := &heap{}
				h.b[0] = heapBytes(`{"a":{"s":"str1"},"c":[1,"c"]}`)
				h.b[1] = heapBytes(`{"e":"ss5","a":{}}`)
				h.db = [2]string{string(h.b[0]), string(h.b[1])}
				for i := range h.v {
					h.v[i] = jsonvalue.MustUnmarshal(h.b[i%2])
					h.redump(i)
				}
				for k, i := range hist {
					ops[i].do(c, h)
					if k < len(hist)-1 {
						continue
					}
					for j := range h.v {
						if d := dump(h.v[j]); d != h.dv[j] {
							c.Fail("v%d changed: %s, was %s", j, d, h.dv[j])
						}
					}
					for j := range h.b {
						if !bytes.Equal(h.b[j], []byte(h.db[j])) {
							c.Fail("b%d changed: %q, was %q", j, h.b[j], h.db[j])
						}
					}
				}
				c.State(hashStr(strings.Join(h.dv[:], "|") + strings.Join(h.db[:], "|")))
			})
			if len(hist) == depth {
				return
			}
			for i := range ops {
				hist = append(hist, i)
				rec()
				hist = hist[:len(hist)-1]
			}
		}
		rec()
	})
}
