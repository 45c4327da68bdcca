package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

func init() { checks["C27"] = c27 }

type c27Mode struct {
	name  string
	opts  []jsonvalue.Option
	order string
	ind   bool
	pre   string
	per   string
}

func c27Modes() []c27Mode {
	base := []c27Mode{
		{name: "no order"},
		{name: "SetSequence", opts: []jsonvalue.Option{jsonvalue.OptSetSequence()}, order: "set"},
		{name: "DefaultStringSequence", opts: []jsonvalue.Option{jsonvalue.OptDefaultStringSequence()}, order: "dict"},
		{name: "LessFunc(reverse)", opts: []jsonvalue.Option{jsonvalue.OptKeySequenceWithLessFunc(reverseLess)}, order: "reverse"},
		{name: "KeySequence(c,zz,b)", opts: []jsonvalue.Option{jsonvalue.OptKeySequence([]string{"c", "zz", "b"})}, order: "seq:c zz b"},
	}
	out := base
	for _, m := range base {
		m.name += ", Indent(,2)"
		m.ind, m.per = true, "  "
		m.opts = append(m.opts[:len(m.opts):len(m.opts)], jsonvalue.OptIndent("", "  "))
		out = append(out, m)
	}
	m := base[1]
	m.name += ", Indent(>,)"
	m.ind, m.pre = true, ">"
	m.opts = append(m.opts[:len(m.opts):len(m.opts)], jsonvalue.OptIndent(">", ""))
	return append(out, m)
}

// c27Judge checks one output: b is the text of w, written in an allowed order and layout.
func c27Judge(c *C, w *Val, m *c27Mode, b []byte) {
	om := optModel{order: m.order, ind: m.ind, pre: m.pre, per: m.per}
	if m.order != "" {
		if want := anyKey(om.outputs(w)); string(b) != want {
			c.Fail("Marshal gives\n%s\nshould be\n%s", b, want)
		}
		return
	}
	got, err := refParseAny(b)
	if err != nil {
		c.Fail("Marshal gives\n%s\nwhich is not JSON: %v", b, err)
	}
	if got.canon() != w.canon() {
		c.Fail("Marshal gives\n%s\nshould have the content\n%s", b, w)
	}
	if got.nodes() != w.nodes() {
		c.Fail("Marshal gives\n%s\nwith keys repeated", b)
	}
	s := escStyle{}.format(got)
	if m.ind {
		var x bytes.Buffer
		_ = json.Indent(&x, []byte(s), m.pre, m.per)
		s = x.String()
	}
	if string(b) != s {
		c.Fail("Marshal gives\n%s\nshould be\n%s", b, s)
	}
}

func c27(r *Run) {
	modes := c27Modes()
	type sw struct {
		name string
		opts []jsonvalue.Option
		omit bool
	}
	sws := []sw{
		{"OmitNull(true)", []jsonvalue.Option{jsonvalue.OptOmitNull(true)}, true},
		{"Opt{OmitNull: true}", []jsonvalue.Option{jsonvalue.Opt{OmitNull: true}}, true},
		{"nothing", nil, false},
		{"OmitNull(false)", []jsonvalue.Option{jsonvalue.OptOmitNull(false)}, false},
		{"OmitNull(false), OmitNull(true)", []jsonvalue.Option{jsonvalue.OptOmitNull(false), jsonvalue.OptOmitNull(true)}, true},
		{"Opt{OmitNull: true}, OmitNull(false)", []jsonvalue.Option{jsonvalue.Opt{OmitNull: true}, jsonvalue.OptOmitNull(false)}, false},
	}
	one := func(c *C, w *Val, v *jsonvalue.V, m *c27Mode, s *sw) {
		c.Step(1)
		x := w
		if s.omit {
			x = w.dropNulls()
		}
		b, err := v.Marshal(append(s.opts[:len(s.opts):len(s.opts)], m.opts...)...)
		if err != nil {
			c.Fail("Marshal fails: %v", err)
		}
		c27Judge(c, x, m, b)
		if len(b) < 200 {
			c.Out(hashStr(string(b)))
		}
	}
	unchanged := func(c *C, w *Val, v *jsonvalue.V) {
		if d := diffSeq(w, v, ""); d != "" {
			c.Fail("the value changed: %s", d)
		}
		b, err := v.Marshal(jsonvalue.OptSetSequence())
		if err != nil || string(b) != (escStyle{}).format(w) {
			c.Fail("afterwards it marshals as %s (%v), should be %s", b, err, escStyle{}.format(w))
		}
	}

	// 1. masks of one object
	keys := []string{"c", "a", "b", "zz", "", "é", "B", "a/", "aa", "z", "y", "x"}
	maxW := r.Pick(9, 12)
	places := []string{"top", "in an array", "in an object"}
	for width := 1; width <= maxW; width++ {
		shards := 1
		if width > 4 {
			shards = 1 << (width - 4)
		}
		r.Par(fmt.Sprintf("null masks, %d members", width), fmt.Sprintf("all %d masks of null members x %d modes x %d switches x %d places", 1<<width, len(modes), len(sws), len(places)), shards, func(c *C, sh int) {
			for mask := sh; mask < 1<<width; mask += shards {
				o := &Val{K: KObj}
				for i := 0; i < width; i++ {
					x := vNum(fmt.Sprint(i))
					if mask>>i&1 == 1 {
						x = vNull()
					}
					o.O = append(o.O, Member{keys[i], x})
				}
				for pi, place := range places {
					w := o
					switch place {
					case "in an array":
						w = vArr(vNull(), o, vNull())
					case "in an object":
						w = vObj("n", vNull(), "o", o, "m", vNull())
					}
					if width > 8 && pi > 0 {
						break
					}
					v := build(w)
					c.State(hashStr(w.String()))
					for mi := range modes {
						for si := range sws {
							m, s := &modes[mi], &sws[si]
							if width > 4 && si > 2 || width > 6 && si == 1 {
								continue
							}
							c.Do(func() string { return fmt.Sprintf("%s with %s, %s", w, s.name, m.name) }, func() {
								if m.order == "set" && width < 4 || width > 5 || !mapsOwned {
									one(c, w, v, m, s)
								} else {
									c.Orders(r.Pick(30, 600), func() { one(c, w, v, m, s) })
								}
							})
						}
					}
					c.Do(func() string { return fmt.Sprintf("%s after marshalling", w) }, func() { unchanged(c, w, v) })
				}
			}
		})
	}

	// 2. all trees
	g := newTreeGen([]*Val{vNum("1"), vNull()}, []string{"b", "a"})
	nn := r.Pick(6, 7)
	ts := g.upTo(nn)
	const chunk = 32
	r.Par("trees", fmt.Sprintf("all %d trees of up to %d nodes with null leaves over 2 keys x %d modes x %d switches", len(ts), nn, len(modes), 3), (len(ts)+chunk-1)/chunk, func(c *C, sh int) {
		for _, w := range ts[sh*chunk : min(len(ts), sh*chunk+chunk)] {
			v := build(w)
			c.State(hashStr(w.String()))
			for mi := range modes {
				for si := range sws[:3] {
					if si == 1 && w.nodes() > 4 {
						continue
					}
					m, s := &modes[mi], &sws[si]
					c.Do(func() string { return fmt.Sprintf("%s with %s, %s", w, s.name, m.name) }, func() {
						if w.nodes() > 5 && m.order != "" {
							one(c, w, v, m, s)
						} else {
							c.Orders(200, func() { one(c, w, v, m, s) })
						}
					})
				}
			}
			c.Do(func() string { return fmt.Sprintf("%s after marshalling", w) }, func() { unchanged(c, w, v) })
		}
	})

	// 3. every way of getting a null member
	type src struct {
		name string
		f    func() *jsonvalue.V
	}
	imp := func(x any) func() *jsonvalue.V {
		return func() *jsonvalue.V {
			v, err := jsonvalue.Import(x)
			if err != nil {
				panic(err)
			}
			return v
		}
	}
	var np *int
	var ni any
	var nm map[string]int
	srcs := []src{
		{"parsed", func() *jsonvalue.V {
			return jsonvalue.MustUnmarshalString(`{"a":null,"b":1,"c":{"a":null},"d":[null,{"e":null}],"f":null}`)
		}},
		{"SetNull", func() *jsonvalue.V {
			v := jsonvalue.NewObject()
			v.MustSetNull().At("a")
			v.MustSet(1).At("b")
			v.MustSetNull().At("c", "a")
			v.MustAppendNull().InTheEnd("d")
			v.MustSetNull().At("d", 1, "e")
			v.MustSet(nil).At("f")
			return v
		}},
		{"NewNull", func() *jsonvalue.V {
			v := jsonvalue.NewObject()
			v.MustSet(jsonvalue.NewNull()).At("a")
			v.MustSet(1).At("b")
			v.MustSet(jsonvalue.NewNull()).At("c", "a")
			v.MustAppend(jsonvalue.New(nil)).InTheEnd("d")
			v.MustSet(jsonvalue.NewNull()).At("d", 1, "e")
			v.MustSet(jsonvalue.NewNull()).At("f")
			return v
		}},
		{"replaced by null", func() *jsonvalue.V {
			v := jsonvalue.MustUnmarshalString(`{"a":{"x":[]},"b":null,"c":{"a":"s"},"d":[true,{"e":{}}],"f":[]}`)
			v.MustSetNull().At("a")
			v.MustSet(1).At("b")
			v.MustSetNull().At("c")
			v.MustSet(map[string]any{"a": nil}).At("c")
			v.MustSetNull().At("d", 0)
			v.MustSetNull().At("d", 1, "e")
			v.MustSetNull().At("f")
			return v
		}},
		{"imported map", imp(map[string]any{"a": nil, "b": 1, "c": map[string]any{"a": nil}, "d": []any{nil, map[string]any{"e": nil}}, "f": nil})},
		{"imported pointers", imp(map[string]any{"a": np, "b": 1, "c": map[string]*int{"a": nil}, "d": []any{np, map[string]any{"e": nm}}, "f": &ni})},
		{"imported raw JSON", imp(map[string]any{"a": json.RawMessage("null"), "b": 1, "c": json.RawMessage(`{"a":null}`), "d": json.RawMessage(` [ null , {"e" : null}] `), "f": json.RawMessage(nil)})},
		{"NewObject", func() *jsonvalue.V {
			v := jsonvalue.NewObject(map[string]any{"a": nil, "b": 1, "f": nil})
			v.MustSet(jsonvalue.NewObject(map[string]any{"a": nil})).At("c")
			v.MustSet([]any{nil, jsonvalue.NewObject(jsonvalue.M{"e": nil})}).At("d")
			return v
		}},
		{"copied", func() *jsonvalue.V {
			v := jsonvalue.MustUnmarshalString(`{"a":null,"b":1,"c":{"a":null},"d":[null,{"e":null}],"f":null}`)
			return imp(map[string]*jsonvalue.V{"x": v})().MustGet("x")
		}},
		{"into", func() *jsonvalue.V {
			v := jsonvalue.NewObject()
			if err := json.Unmarshal([]byte(`{"a":null,"b":1,"c":{"a":null},"d":[null,{"e":null}],"f":null}`), v); err != nil {
				panic(err)
			}
			return v
		}},
	}
	full, _ := refParseAny([]byte(`{"a":null,"b":1,"c":{"a":null},"d":[null,{"e":null}],"f":null}`))
	r.Par("sources of null", fmt.Sprintf("%d ways of getting null members x %d modes x %d switches", len(srcs), len(modes), len(sws)), len(srcs), func(c *C, sh int) {
		for mi := range modes {
			for si := range sws {
				m, s := modes[mi], &sws[si]
				if m.order == "set" {
					if m.pre != "" {
						continue
					}
					m.order = "" // the order of keys set by import of a map is free
				}
				c.Do(func() string { return fmt.Sprintf("%s with %s, %s", srcs[sh].name, s.name, m.name) }, func() {
					v := srcs[sh].f()
					if d := diff(full, v, ""); d != "" {
						c.Fail("set-up: %s", d)
					}
					one(c, full, v, &m, s)
				})
			}
		}
	})

	// 4. nulls that are not members
	r.Seq("nulls elsewhere", "null documents and null elements at every position of arrays of up to 5 elements, texts that look like null", func(c *C) {
		ws := []*Val{vNull(), vStr("null"), vObj("null", vStr("null")), vObj("a", vStr("")), vObj("a", vNum("0")), vObj("a", vBool(false)), vObj("a", vArr()), vObj("a", vObj()), vObj("a", vNull(), "b", vStr("null"))}
		for n := 1; n <= 5; n++ {
			for mask := 0; mask < 1<<n; mask++ {
				a := vArr()
				for i := 0; i < n; i++ {
					if mask>>i&1 == 1 {
						a.A = append(a.A, vNull())
					} else {
						a.A = append(a.A, vObj("n", vNull()))
					}
				}
				ws = append(ws, a, vObj("b", a, "c", vNull()))
			}
		}
		for _, w := range ws {
			v := build(w)
			for mi := range modes {
				for si := range sws {
					m, s := &modes[mi], &sws[si]
					c.Do(func() string { return fmt.Sprintf("%s with %s, %s", w, s.name, m.name) }, func() { one(c, w, v, m, s) })
				}
			}
			c.Do(func() string { return fmt.Sprintf("%s after marshalling", w) }, func() { unchanged(c, w, v) })
		}
	})

	// what is shown as null need not be null
	r.Seq("special numbers", "objects and arrays of 4 places that hold NaN, infinities, null and a number in every combination x 5 handlings of special numbers x modes x switches", func(c *C) {
		type hnd struct {
			opts         []jsonvalue.Option
			nan, inf, ni string
		}
		hs := []hnd{
			{[]jsonvalue.Option{jsonvalue.OptFloatNaNToNull(), jsonvalue.OptFloatInfToNull()}, "null", "null", "null"},
			{[]jsonvalue.Option{jsonvalue.OptFloatNaNToNull(), jsonvalue.OptFloatInfToStringInf()}, "null", `"+Inf"`, `"-Inf"`},
			{[]jsonvalue.Option{jsonvalue.OptFloatNaNToStringNaN(), jsonvalue.OptFloatInfToNull()}, `"NaN"`, "null", "null"},
			{[]jsonvalue.Option{jsonvalue.OptFloatNaNToString("null"), jsonvalue.OptFloatInfToString("null", "")}, `"null"`, `"null"`, `"-null"`},
			{[]jsonvalue.Option{jsonvalue.OptFloatNaNToFloat(0), jsonvalue.OptFloatInfToFloat(7)}, "0", "7", "-7"},
		}
		for mask := 0; mask < 5*5*5*5; mask++ {
			for hi := range hs {
				h := &hs[hi]
				show := []*Val{vNum("3"), vNull(), nil, nil, nil}
				for i, t := range []string{h.nan, h.inf, h.ni} {
					show[2+i], _ = refParseAny([]byte(t))
				}
				o, v := &Val{K: KObj}, jsonvalue.NewObject()
				a, va := vArr(), jsonvalue.NewArray()
				for i, x := 0, mask; i < 4; i, x = i+1, x/5 {
					k := keys[i]
					val := []any{3, nil, math.NaN(), math.Inf(1), math.Inf(-1)}[x%5]
					v.MustSet(val).At(k)
					va.MustAppend(val).InTheEnd()
					a.A = append(a.A, show[x%5])
					o.O = append(o.O, Member{k, show[x%5]})
				}
				omitted := &Val{K: KObj}
				for i, x := 0, mask; i < 4; i, x = i+1, x/5 {
					if x%5 != 1 {
						omitted.O = append(omitted.O, o.O[i])
					}
				}
				v2 := jsonvalue.NewObject()
				v2.MustSet(va).At("l")
				v2.MustSet(v).At("o")
				for mi := range modes {
					m := modes[mi]
					m.opts = append(m.opts[:len(m.opts):len(m.opts)], h.opts...)
					for si := range sws[:3] {
						s := &sws[si]
						w := vObj("l", a, "o", o)
						if s.omit {
							w = vObj("l", a, "o", omitted)
						}
						c.Do(func() string {
							return fmt.Sprintf("%s with special numbers shown as %s %s %s, %s, %s", vObj("l", a, "o", o), h.nan, h.inf, h.ni, s.name, m.name)
						}, func() {
							c.Step(1)
							b, err := v2.Marshal(append(s.opts[:len(s.opts):len(s.opts)], m.opts...)...)
							if err != nil {
								c.Fail("Marshal fails: %v", err)
							}
							c27Judge(c, w, &m, b)
						})
					}
				}
			}
		}
	})

	// 5. the switch among other options, in every order of up to 3 options
	w := vObj("b", vNull(), "a", vArr(vNull(), vObj("x", vNull(), "y", vStr("é</"))), "d/é<", vNull(), "e", vObj("n", vNull()))
	var al []optCase
	for _, o := range optAlphabet() {
		al = append(al, o)
	}
	r.Par("among other options", fmt.Sprintf("all sequences of 3 of %d options with OmitNull among them", len(al)), len(al), func(c *C, sh int) {
		v := build(w)
		cache := map[optModel]map[string]bool{}
		for i := range al {
			for p := 0; p < 3; p++ {
				ops := []optCase{al[sh], al[i]}
				ops = append(ops[:min(p, 2):min(p, 2)], append([]optCase{{"OmitNull(true)", jsonvalue.OptOmitNull(true), func(m *optModel) { m.omit = true }}}, ops[min(p, 2):]...)...)
				var m optModel
				var opts []jsonvalue.Option
				var name string
				for _, o := range ops {
					o.apply(&m)
					opts = append(opts, o.opt)
					name += " " + o.name
				}
				want, ok := cache[m]
				if !ok {
					want = m.outputs(w)
					cache[m] = want
				}
				c.Do(func() string { return fmt.Sprintf("%s with%s", w, name) }, func() {
					c.Step(1)
					b, err := v.Marshal(opts...)
					if err != nil {
						c.Fail("Marshal fails: %v", err)
					}
					if !want[string(b)] {
						c.Fail("Marshal gives\n%s\nshould be\n%s", b, anyKey(want))
					}
				})
			}
		}
	})
}
