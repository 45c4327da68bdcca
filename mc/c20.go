package main

import (
	"errors"
	"fmt"
	"math"
	"strconv"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

func init() { checks["C20"] = c20 }

func nanCases() []optCase {
	return []optCase{
		{"NaN unmapped", nil, func(m *optModel) {}},
		{"NaN->0.5", jsonvalue.OptFloatNaNToFloat(0.5), func(m *optModel) { m.nan = "0.5" }},
		{"NaN->0", jsonvalue.OptFloatNaNToFloat(0), func(m *optModel) { m.nan = "0" }},
		{"NaN->NaN", jsonvalue.OptFloatNaNToFloat(math.NaN()), func(m *optModel) { m.nan = "bad" }},
		{"NaN->-Inf", jsonvalue.OptFloatNaNToFloat(math.Inf(-1)), func(m *optModel) { m.nan = "bad" }},
		{"NaN->null", jsonvalue.OptFloatNaNToNull(), func(m *optModel) { m.nan = "null" }},
		{"NaN->string NaN", jsonvalue.OptFloatNaNToStringNaN(), func(m *optModel) { m.nan = qstr("NaN") }},
		{"NaN->string empty", jsonvalue.OptFloatNaNToString(""), func(m *optModel) { m.nan = qstr("NaN") }},
		{"NaN->string \"</é\\", jsonvalue.OptFloatNaNToString("\"</é\\"), func(m *optModel) { m.nan = qstr("\"</é\\") }},
		{"NaN->Opt{string}", jsonvalue.Opt{FloatNaNHandleType: jsonvalue.FloatNaNConvertToString}, func(m *optModel) { *m = optModel{nan: qstr("NaN")} }},
		{"NaN->Opt{unknown handling}", jsonvalue.Opt{FloatNaNHandleType: 77, FloatNaNToString: "x", FloatNaNToFloat: 1}, func(m *optModel) { *m = optModel{} }},
	}
}

func infCases() []optCase {
	set := func(p, n string) func(m *optModel) { return func(m *optModel) { m.inf, m.infN = p, n } }
	return []optCase{
		{"Inf unmapped", nil, func(m *optModel) {}},
		{"Inf->7", jsonvalue.OptFloatInfToFloat(7), set("7", "-7")},
		{"Inf->-2.5", jsonvalue.OptFloatInfToFloat(-2.5), set("-2.5", "2.5")},
		{"Inf->NaN", jsonvalue.OptFloatInfToFloat(math.NaN()), set("bad", "bad")},
		{"Inf->-Inf", jsonvalue.OptFloatInfToFloat(math.Inf(-1)), set("bad", "bad")},
		{"Inf->null", jsonvalue.OptFloatInfToNull(), set("null", "null")},
		{"Inf->string Inf", jsonvalue.OptFloatInfToStringInf(), set(qstr("+Inf"), qstr("-Inf"))},
		{"Inf->strings empty", jsonvalue.OptFloatInfToString("", ""), set(qstr("+Inf"), qstr("-Inf"))},
		{"Inf->string p", jsonvalue.OptFloatInfToString("p", ""), set(qstr("p"), qstr("-p"))},
		{"Inf->string ++p/", jsonvalue.OptFloatInfToString("++p/", ""), set(qstr("++p/"), qstr("-p/"))},
		{"Inf->string ,n", jsonvalue.OptFloatInfToString("", "é"), set(qstr("+Inf"), qstr("é"))},
		{"Inf->strings <,>", jsonvalue.OptFloatInfToString("<", "\n>"), set(qstr("<"), qstr("\n>"))},
	}
}

// expectErrs lists the errors the special numbers of w may cause.
func expectErrs(w *Val, m *optModel, errs map[error]bool) {
	if w.K == KNum {
		rep, special := "", true
		switch w.S {
		case "NaN":
			rep = m.nan
		case "+Inf":
			rep = m.inf
		case "-Inf":
			rep = m.infN
		default:
			special = false
		}
		if special && rep == "" {
			errs[jsonvalue.ErrUnsupportedFloat] = true
		} else if special && rep == "bad" {
			errs[jsonvalue.ErrUnsupportedFloatInOpt] = true
		}
	}
	for _, x := range w.A {
		expectErrs(x, m, errs)
	}
	for _, x := range w.O {
		expectErrs(x.V, m, errs)
	}
}

func c20(r *Run) {
	type comb struct {
		name string
		opts []jsonvalue.Option
		m    optModel
	}
	var combs []comb
	for oi, od := range []optCase{
		{"", nil, func(m *optModel) {}},
		{"SetSequence", jsonvalue.OptSetSequence(), func(m *optModel) { m.order = "set" }},
		{"DefaultStringSequence", jsonvalue.OptDefaultStringSequence(), func(m *optModel) { m.order = "dict" }},
		{"KeySequence(b,a)", jsonvalue.OptKeySequence([]string{"b", "a"}), func(m *optModel) { m.order = "seq:b a" }},
		{"OmitNull", jsonvalue.OptOmitNull(true), func(m *optModel) { m.omit = true }},
		{"Indent", jsonvalue.OptIndent("", " "), func(m *optModel) { m.ind, m.per = true, " " }},
		{"UTF8", jsonvalue.OptUTF8(), func(m *optModel) { m.esc.utf8 = true }},
		{"EscapeHTML(false)", jsonvalue.OptEscapeHTML(false), func(m *optModel) { m.esc.noHTML = true }},
	} {
		for _, nc := range nanCases() {
			for _, ic := range infCases() {
				cb := comb{name: nc.name + ", " + ic.name + " " + od.name}
				for _, x := range []optCase{nc, ic, od} { // Opt{} first: it replaces the others
					x.apply(&cb.m)
					if x.opt != nil {
						cb.opts = append(cb.opts, x.opt)
					}
				}
				_ = oi
				combs = append(combs, cb)
			}
		}
	}
	judge := func(c *C, w *Val, v *jsonvalue.V, cb *comb) {
		c.Step(1)
		b, err := v.Marshal(cb.opts...)
		want := cb.m.outputs(w)
		if want == nil {
			x := w
			if cb.m.omit {
				x = w.dropNulls()
			}
			errs := map[error]bool{}
			expectErrs(x, &cb.m, errs)
			if err == nil || b != nil {
				c.Fail("Marshal gives %s with error %v, should fail", b, err)
			}
			for e := range errs {
				if errors.Is(err, e) {
					return
				}
			}
			c.Fail("Marshal fails with %v", err)
		}
		if err != nil {
			c.Fail("Marshal fails: %v", err)
		}
		if !want[string(b)] {
			c.Fail("Marshal gives %s, should be %s", b, anyKey(want))
		}
		c.Out(hashStr(string(b)))
	}
	g := newTreeGen([]*Val{vNum("NaN"), vNum("+Inf"), vNum("-Inf"), vNum("1"), vNull()}, []string{"a", "b"})
	var trees []*Val
	n := r.Pick(4, 5)
	for _, w := range g.upTo(n) {
		if hasSpecial(w) {
			trees = append(trees, w)
		}
	}
	const chunk = 8
	r.Par("placements x handling", fmt.Sprintf("%d trees of up to %d nodes with non-finite numbers x %d option combinations", len(trees), n, len(combs)), (len(trees)+chunk-1)/chunk, func(c *C, sh int) {
		for _, w := range trees[sh*chunk : min(len(trees), (sh+1)*chunk)] {
			c.State(hashStr(w.String()))
			v := buildAny(w)
			for i := range combs {
				c.Do(func() string { return fmt.Sprintf("%s with %s", w, combs[i].name) }, func() { judge(c, w, v, &combs[i]) })
			}
		}
	})
	og := newTreeGen([]*Val{vNum("NaN"), vNum("-Inf"), vNull()}, []string{"a", "b", "c"})
	og.sorted = true
	var ot []*Val
	for _, w := range og.upTo(r.Pick(4, 5)) {
		if hasSpecial(w) && w.maxWidth() > 1 {
			ot = append(ot, w)
		}
	}
	r.Par("map iteration orders", fmt.Sprintf("%d trees x every 7th option combination, every map iteration order", len(ot)), len(ot), func(c *C, sh int) {
		w := ot[sh]
		v := buildAny(w)
		for i := sh % 7; i < len(combs); i += 7 {
			c.Do(func() string { return fmt.Sprintf("%s with %s (some map order)", w, combs[i].name) }, func() {
				c.Orders(2000, func() { judge(c, w, v, &combs[i]) })
			})
		}
	})
	r.Par("depth and position", "one non-finite number among 1..20 siblings at every position, below 0..40 arrays and objects, built as float64 and float32, x all handlings", 21, func(c *C, sh int) {
		for _, sp := range []string{"NaN", "+Inf", "-Inf"} {
			for pos := 0; pos <= sh; pos++ {
				for _, d := range []int{0, 1, 2, 40} {
					arr, obj := vArr(), &Val{K: KObj}
					for i := 0; i <= sh; i++ {
						x := vNum(strconv.Itoa(i))
						if i == pos {
							x = vNum(sp)
						}
						arr.A = append(arr.A, x)
						obj.O = append(obj.O, Member{fmt.Sprintf("k%02d", i), x})
					}
					for _, w := range []*Val{arr, obj} {
						for i := 0; i < d; i++ {
							if i%2 == 0 {
								w = vObj("w", w)
							} else {
								w = vArr(vNull(), w, vStr(""))
							}
						}
						v := buildAny(w)
						for i := range combs {
							if combs[i].m.order == "" && !combs[i].m.omit || combs[i].m.order == "seq:b a" || combs[i].m.omit {
								continue // too many orders
							}
							if !r.thorough && i%5 != sh%5 {
								continue
							}
							c.Do(func() string {
								return fmt.Sprintf("%s at position %d of %d, depth %d, with %s", sp, pos, sh+1, d, combs[i].name)
							}, func() { judge(c, w, v, &combs[i]) })
						}
					}
				}
			}
		}
	})
	floats := []float64{1, -1, 0.1, 1e-7, 1e-300, 1e20, 1e21, 1e300, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 123456789.5, 1 << 53, 1 << 63, 1 << 62, 3.0}
	r.Par("mapped numbers", fmt.Sprintf("%d replacement numbers for each non-finite number: read back to the same double, negated for -Inf", len(floats)), len(floats), func(c *C, sh int) {
		f := floats[sh]
		for _, x := range []struct {
			v    *jsonvalue.V
			o    jsonvalue.Option
			want float64
		}{
			{jsonvalue.NewFloat64(math.NaN()), jsonvalue.OptFloatNaNToFloat(f), f},
			{jsonvalue.NewFloat64(math.Inf(1)), jsonvalue.OptFloatInfToFloat(f), f},
			{jsonvalue.NewFloat64(math.Inf(-1)), jsonvalue.OptFloatInfToFloat(f), -f},
			{jsonvalue.NewFloat32(float32(math.NaN())), jsonvalue.OptFloatNaNToFloat(f), f},
			{jsonvalue.NewFloat32(float32(math.Inf(-1))), jsonvalue.Opt{FloatInfHandleType: jsonvalue.FloatInfConvertToFloat, FloatInfToFloat: f}, -f},
			{jsonvalue.NewFloat64f(math.Inf(1), 'f', 3), jsonvalue.OptFloatInfToFloat(f), f},
		} {
			c.Do(func() string { return fmt.Sprintf("%v mapped to %v", x.v, f) }, func() {
				c.Step(1)
				b, err := x.v.Marshal(x.o)
				if err != nil {
					c.Fail("Marshal fails: %v", err)
				}
				if end, _, ok := scanNumber(b); !ok || end != len(b) {
					c.Fail("not a JSON number: %s", b)
				}
				if g, err := strconv.ParseFloat(string(b), 64); err != nil || g != x.want {
					c.Fail("Marshal gives %s, should be %v", b, x.want)
				}
			})
		}
	})
	r.Seq("other output calls", "MarshalString, MustMarshal, MustMarshalString, MarshalJSON, Export of documents with unmapped non-finite numbers", func(c *C) {
		for _, w := range g.upTo(3) {
			if !hasSpecial(w) {
				continue
			}
			c.Do(func() string { return w.String() }, func() {
				c.Step(5)
				v := buildAny(w)
				s, err := v.MarshalString()
				_, err2 := v.MarshalJSON()
				_, err3 := v.MarshalBinary()
				var x any
				err4 := v.Export(&x)
				if !errors.Is(err, jsonvalue.ErrUnsupportedFloat) || !errors.Is(err2, jsonvalue.ErrUnsupportedFloat) || !errors.Is(err3, jsonvalue.ErrUnsupportedFloat) || !errors.Is(err4, jsonvalue.ErrUnsupportedFloat) || s != "" {
					c.Fail("%q %v, %v, %v, %v", s, err, err2, err3, err4)
				}
				if ms := v.MustMarshalString(); ms != "" {
					c.Fail("MustMarshalString gives %q", ms)
				}
				if mb := v.MustMarshal(); len(mb) != 0 {
					c.Fail("MustMarshal gives %q", mb)
				}
			})
		}
	})
}
