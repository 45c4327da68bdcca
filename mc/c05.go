package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

func init() { checks["C05"] = c05 }

// optSet is one combination of marshalling options together with what it means.
type optSet struct {
	name  string
	opts  []jsonvalue.Option
	order string // "", "less", "seq", "set"
	omit  bool
	ind   bool
	pre   string
	per   string
	esc   escStyle
}

type orderOpt struct {
	order, name string
	opts        []jsonvalue.Option
}

var keySeq = []string{"b", "zz", "a"}

func orderOpts() []orderOpt {
	return []orderOpt{
		{"", "-", nil},
		{"less", "dict", []jsonvalue.Option{jsonvalue.OptDefaultStringSequence()}},
		{"seq", "seq", []jsonvalue.Option{jsonvalue.OptKeySequence(keySeq)}},
		{"set", "set", []jsonvalue.Option{jsonvalue.OptSetSequence()}},
	}
}

func escOpts(i int) (e escStyle, o []jsonvalue.Option) {
	if i&1 != 0 {
		e.utf8 = true
		o = append(o, jsonvalue.OptUTF8())
	}
	if i&2 != 0 {
		e.noHTML = true
		o = append(o, jsonvalue.OptEscapeHTML(false))
	}
	if i&4 != 0 {
		e.noSlash = true
		o = append(o, jsonvalue.OptEscapeSlash(false))
	}
	return
}

func allOptSets(indents [][2]string) (out []optSet) {
	for _, od := range orderOpts() {
		for omit := 0; omit < 2; omit++ {
			for ind := -1; ind < len(indents); ind++ {
				for e := 0; e < 8; e++ {
					s := optSet{order: od.order, omit: omit == 1}
					s.opts = append(s.opts, od.opts...)
					if s.omit {
						s.opts = append(s.opts, jsonvalue.OptOmitNull(true))
					}
					if ind >= 0 {
						s.ind, s.pre, s.per = true, indents[ind][0], indents[ind][1]
						s.opts = append(s.opts, jsonvalue.OptIndent(s.pre, s.per))
					}
					es, eo := escOpts(e)
					s.esc = es
					s.opts = append(s.opts, eo...)
					s.name = fmt.Sprintf("order=%s omitnull=%v indent=%d(%q,%q) utf8=%v nohtml=%v noslash=%v", od.name, s.omit, ind, s.pre, s.per, es.utf8, es.noHTML, es.noSlash)
					out = append(out, s)
				}
			}
		}
	}
	return
}

// decodes checks that b is strict JSON meaning w, by two independent decoders.
func decodes(c *C, b []byte, w *Val, what string) {
	g, err := refParseAny(b)
	if err != nil {
		c.Fail("%s: output is not JSON (%v): %s", what, err, b)
	}
	if !sameContent(g, w) {
		c.Fail("%s: output means %s, should mean %s\noutput: %s", what, g.canon(), w.canon(), b)
	}
	if countKeys(g) != rawKeys(b) {
		c.Fail("%s: output repeats a key: %s", what, b)
	}
	dec := json.NewDecoder(strings.NewReader(string(b)))
	dec.UseNumber()
	var x any
	if err := dec.Decode(&x); err != nil {
		c.Fail("%s: encoding/json rejects the output (%v): %s", what, err, b)
	}
	if a := fromAny(x); !sameContent(a, w) {
		c.Fail("%s: encoding/json reads %s, should be %s", what, a.canon(), w.canon())
	}
}

// badBytes are all kinds of bytes that are no UTF-8, some between good ones.
var badBytes = []string{"\x80", "\xbf", "\xc0\x80", "\xc1", "\xc3", "\xe0\x80\x80", "\xe2\x82", "\xe2", "\xed\xa0\x80", "\xed\xb0\x80", "\xef\xbf", "\xf0\x9f\x98", "\xf0", "\xf4\x90\x80\x80", "\xf5", "\xfe", "\xff", "\xff\xfe", "\xe2\x80\xa8\x80", "\x80\"", "\xc3\\", "\xe2\x82<", "\xf0\x9f\n", "\xc3\xc3\xa9"}

func squeezeBad(s string) string {
	s = strings.ToValidUTF8(s, "\uFFFD")
	for strings.Contains(s, "\uFFFD\uFFFD") {
		s = strings.ReplaceAll(s, "\uFFFD\uFFFD", "\uFFFD")
	}
	return s
}

// c05Bad marshals strings that are no UTF-8: the text is UTF-8 and says the same but for those bytes.
func c05Bad(r *Run) {
	sets := allOptSets([][2]string{{"", " "}})
	dense := r.Pick(40, 140)
	lens := sizes(dense, r.Pick(10, 14))
	runs := []string{"abcdefg", "é一x", "/<a>\n"}
	r.Par("bytes that are no UTF-8", fmt.Sprintf("%d kinds of such bytes before, after and between runs of "+sizesText(dense, r.Pick(10, 14))+" characters of %d kinds, in values and keys x options", len(badBytes), len(runs)), len(lens), func(c *C, sh int) {
		n := lens[sh]
		for bi, bad := range badBytes {
			for ri, run := range runs {
				p := pattern(run, n)
				for wi, s := range []string{bad + p, p + bad, p + bad + p, bad + p + bad, p + bad + bad + "z"} {
					v := jsonvalue.NewArray()
					v.MustAppend(s).InTheEnd()
					o := jsonvalue.NewObject()
					o.MustSet(s).At(s)
					v.MustAppend(o).InTheEnd()
					want := squeezeBad(s)
					for oi := range sets {
						if (oi+n+bi+ri+wi)%7 != 0 && n > 8 && !r.thorough || n > dense && (oi+n+bi)%19 != 0 {
							continue
						}
						os := &sets[oi]
						c.Step(1)
						c.Do(func() string { return fmt.Sprintf("%q with %s", clip(s, 300), os.name) }, func() {
							b, err := v.Marshal(os.opts...)
							if err != nil {
								if len(b) > 0 {
									c.Fail("Marshal returns data with an error")
								}
								return
							}
							g, perr := refParseAny(b)
							if perr != nil {
								c.Fail("output is not JSON (%v): %q", perr, b)
							}
							if g.K != KArr || len(g.A) != 2 || g.A[0].K != KStr || g.A[1].K != KObj || len(g.A[1].O) != 1 || g.A[1].O[0].V.K != KStr {
								c.Fail("output has another shape: %q", b)
							}
							for _, x := range []string{g.A[0].S, g.A[1].O[0].K, g.A[1].O[0].V.S} {
								if squeezeBad(x) != want {
									c.Fail("output means %q, should mean %q, but for the bytes that are no UTF-8", x, want)
								}
							}
							if !json.Valid(b) {
								c.Fail("encoding/json rejects the output: %q", b)
							}
						})
					}
				}
			}
		}
	})
}

func countKeys(v *Val) int {
	n := len(v.O)
	for _, c := range v.A {
		n += countKeys(c)
	}
	for _, m := range v.O {
		n += countKeys(m.V)
	}
	return n
}

// rawKeys counts the colons outside strings of well-formed JSON.
func rawKeys(b []byte) (n int) {
	in := false
	for i := 0; i < len(b); i++ {
		switch {
		case in && b[i] == '\\':
			i++
		case b[i] == '"':
			in = !in
		case !in && b[i] == ':':
			n++
		}
	}
	return
}

func c05(r *Run) {
	c05Bad(r)
	r.Assume("oracles: the strict reference parser and encoding/json, which must both read the expected content")
	sets := allOptSets([][2]string{{"", "  "}, {"\t", ""}})
	leaves := []*Val{vStr("é/<\u2028😀\v\"\\\x7f"), vNum("-1.50e+2"), vNull(), vBool(true)}
	run := func(c *C, w *Val, v *jsonvalue.V, s *optSet) {
		want := w
		if s.omit {
			want = w.dropNulls()
		}
		b, err := v.Marshal(s.opts...)
		if err != nil {
			c.Fail("Marshal fails: %v", err)
		}
		decodes(c, b, want, "Marshal")
		str, err := v.MarshalString(s.opts...)
		if err != nil {
			c.Fail("MarshalString fails: %v", err)
		}
		if str != string(b) {
			decodes(c, []byte(str), want, "MarshalString")
		}
		if d := diff(w, v, "$"); d != "" {
			c.Fail("marshalling changed the value: %s", d)
		}
		c.Out(hashStr(str))
	}
	small := newTreeGen(leaves, []string{"a/\u00e9", "b"})
	t4, t5 := small.upTo(4), small.exactly(5)
	r.Par("trees x constructions x options", fmt.Sprintf("%d trees of up to 4 nodes x %d constructions x %d option sets", len(t4), len(constructions), len(sets)), len(t4), func(c *C, sh int) {
		w := t4[sh]
		c.State(hashStr(w.String()))
		for ci := range constructions {
			v := constructions[ci].make(w)
			for i := range sets {
				s := &sets[i]
				c.Step(1)
				c.Do(func() string { return fmt.Sprintf("%s built by %s, %s", w, constructions[ci].name, s.name) }, func() { run(c, w, v, s) })
			}
		}
	})
	r.Par("larger trees x options", fmt.Sprintf("%d trees of 5 nodes x %d option sets", len(t5), len(sets)), len(t5), func(c *C, sh int) {
		w := t5[sh]
		c.State(hashStr(w.String()))
		v := build(w)
		for i := range sets {
			s := &sets[i]
			if !r.thorough && i%8 != sh%8 {
				continue
			}
			c.Step(1)
			c.Do(func() string { return fmt.Sprintf("%s %s", w, s.name) }, func() { run(c, w, v, s) })
		}
	})
	// every iteration order
	og := newTreeGen([]*Val{vNum("1"), vNull()}, []string{"a", "b", "c"})
	og.sorted = true
	ot := og.upTo(r.Pick(5, 6))
	r.Par("map iteration orders", fmt.Sprintf("%d trees x 4 orders x omit x indent, every map iteration order", len(ot)), len(ot), func(c *C, sh int) {
		w := ot[sh]
		if w.maxWidth() < 2 {
			return
		}
		v := build(w)
		for i := 0; i < len(sets); i += 8 {
			s := &sets[i]
			c.Do(func() string { return fmt.Sprintf("%s %s (some map order)", w, s.name) }, func() {
				want := w
				if s.omit {
					want = w.dropNulls()
				}
				c.Orders(5000, func() {
					b, err := v.Marshal(s.opts...)
					if err != nil {
						c.Fail("Marshal fails: %v", err)
					}
					decodes(c, b, want, "Marshal")
				})
			})
		}
	})
	// depth, width, length
	r.Par("depth and width", "nesting to 300 of each container kind, arrays and objects of 0..70, 255..258 and 1000 members, string and number lengths around powers of two, x every 13th (thorough: 5th) option set", 5, func(c *C, sh int) {
		var ws []*Val
		switch sh {
		case 0:
			for _, d := range []int{1, 2, 10, 31, 32, 33, 64, 100, 300} {
				a, o, m := vNum("1"), vNull(), vStr("x")
				for i := 0; i < d; i++ {
					a, o = vArr(a), vObj("k", o)
					if i%2 == 0 {
						m = vArr(m, vNull())
					} else {
						m = vObj("k", m, "n", vNull())
					}
				}
				ws = append(ws, a, o, m)
			}
		case 1, 2:
			for n := 0; n <= 1000; n++ {
				if n > 70 && (n < 255 || (n > 258 && n != 1000)) {
					continue
				}
				a, o := vArr(), &Val{K: KObj}
				for i := 0; i < n; i++ {
					x := vNum(strconv.Itoa(i))
					if i%3 == 2 {
						x = vNull()
					}
					a.A = append(a.A, x)
					o.O = append(o.O, Member{"k" + strconv.Itoa(i*7919%1000), x})
				}
				ws = append(ws, a, o)
			}
		case 3, 4:
			for _, n := range []int{0, 1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1023, 1024, 4096, 65536} {
				for _, u := range []string{"x", "é", "😀", "\n", "/"} {
					s := strings.Repeat(u, n)
					ws = append(ws, vStr(s), vArr(vStr(s), vNum("1")), vObj("k"+s, vStr(s)))
					if u == "x" {
						l := "-1." + strings.Repeat("1", n) + "e-1"
						if n == 0 {
							l = "0"
						}
						ws = append(ws, vNum(l), vArr(vNum("1"), vNum(l)), vObj("k", vNum(l), "l", vNum(l)))
					}
				}
			}
		}
		for j, w := range ws {
			if (sh == 2 || sh == 4) != (j%2 == 1) && sh != 0 {
				continue
			}
			v := build(w)
			c.State(hashStr(w.String()))
			for i := range sets {
				if i%r.Pick(13, 5) != 0 {
					continue
				}
				s := &sets[i]
				c.Do(func() string { return fmt.Sprintf("%s %s", w, s.name) }, func() { run(c, w, v, s) })
			}
		}
	})
	// constructed numbers
	fs := []float64{0, math.Copysign(0, -1), 1, -1, 0.5, 1.5, -2.5, 0.1, 1e-6, 9.9e-7, 1e-7, 1e20, 1e21, 9.99e20, 1.5e300, math.MaxFloat64, -math.MaxFloat64,
		math.SmallestNonzeroFloat64, 2.2250738585072014e-308, 1 << 53, 1<<53 + 2, 1e15, 1e16, 123456789.123, 1e100, -1e-100, 1 << 63, 1 << 64, -(1 << 63), math.MaxFloat32, math.SmallestNonzeroFloat32, 1e10, 1e9, 1e-9, 1e-10, 1e99}
	r.Par("constructed numbers", fmt.Sprintf("%d floats x NewFloat64/NewFloat32/NewFloat64f/NewFloat32f x 9 formats x precisions -1..20; integers at every power of two", len(fs)), len(fs), func(c *C, sh int) {
		f := fs[sh]
		try := func(name string, mk func() *jsonvalue.V) {
			c.Step(1)
			c.Do(func() string { return name }, func() {
				v := mk()
				if fl := v.Float64(); math.IsInf(fl, 0) || math.IsNaN(fl) {
					return
				}
				for _, doc := range []*jsonvalue.V{v, jsonvalue.NewArray(), jsonvalue.NewObject()} {
					w := vNum(v.String())
					if doc.IsArray() {
						doc.MustAppend(v).InTheEnd()
						w = vArr(w)
					} else if doc.IsObject() {
						doc.MustSet(v).At("k")
						w = vObj("k", w)
					}
					b, err := doc.Marshal()
					if err != nil {
						c.Fail("%v", err)
					}
					decodes(c, b, w, "Marshal")
				}
			})
		}
		try(fmt.Sprintf("NewFloat64(%v)", f), func() *jsonvalue.V { return jsonvalue.NewFloat64(f) })
		try(fmt.Sprintf("NewFloat32(%v)", f), func() *jsonvalue.V { return jsonvalue.NewFloat32(float32(f)) })
		for _, fm := range []byte("feEgGbxXq") {
			for p := -1; p <= 20; p++ {
				try(fmt.Sprintf("NewFloat64f(%v,%c,%d)", f, fm, p), func() *jsonvalue.V { return jsonvalue.NewFloat64f(f, fm, p) })
				try(fmt.Sprintf("NewFloat32f(%v,%c,%d)", f, fm, p), func() *jsonvalue.V { return jsonvalue.NewFloat32f(float32(f), fm, p) })
			}
		}
		for k := uint(0); k < 64; k++ {
			for d := int64(-1); d <= 1; d++ {
				x := int64(uint64(1)<<k) + d
				try(fmt.Sprintf("NewInt64(%d)", x), func() *jsonvalue.V { return jsonvalue.NewInt64(x) })
				try(fmt.Sprintf("NewInt64(%d)", -x), func() *jsonvalue.V { return jsonvalue.NewInt64(-x) })
				try(fmt.Sprintf("NewUint64(%d)", uint64(x)), func() *jsonvalue.V { return jsonvalue.NewUint64(uint64(x)) })
			}
		}
	})
	// failures give no data
	bad := []*jsonvalue.V{jsonvalue.NewFloat64(math.NaN()), jsonvalue.NewFloat64(math.Inf(1)), jsonvalue.NewFloat64(math.Inf(-1))}
	r.Par("failures", "NotExist, NaN and infinities at every position of small documents x all option sets: error and no data", 76, func(c *C, sh int) {
		var docs []*jsonvalue.V
		for _, x := range bad {
			docs = append(docs, x)
			for n := 1; n <= 3; n++ {
				for i := 0; i < n; i++ {
					a, o := jsonvalue.NewArray(), jsonvalue.NewObject()
					for j := 0; j < n; j++ {
						y := jsonvalue.NewInt(j)
						if i == j {
							y = x
						}
						a.MustAppend(y).InTheEnd()
						o.MustSet(y).At(string(rune('a' + j)))
					}
					aa, oo := jsonvalue.NewArray(), jsonvalue.NewObject()
					aa.MustAppend(o).InTheEnd()
					aa.MustAppendInt(3).InTheEnd()
					oo.MustSet(a).At("k")
					oo.MustSetInt(1).At("z")
					docs = append(docs, a, o, aa, oo)
				}
			}
		}
		docs = append(docs, &jsonvalue.V{})
		for di, d := range docs {
			if di%76 != sh {
				continue
			}
			for i := range sets {
				s := &sets[i]
				c.Do(func() string { return fmt.Sprintf("document %d %s", di, s.name) }, func() {
					c.Orders(200, func() {
						b, err := d.Marshal(s.opts...)
						if err == nil || len(b) != 0 {
							c.Fail("Marshal gives %q, %v", b, err)
						}
						str, err := d.MarshalString(s.opts...)
						if err == nil || len(str) != 0 {
							c.Fail("MarshalString gives %q, %v", str, err)
						}
						if b := d.MustMarshal(s.opts...); len(b) != 0 {
							c.Fail("MustMarshal gives %q", b)
						}
						if s := d.MustMarshalString(s.opts...); len(s) != 0 {
							c.Fail("MustMarshalString gives %q", s)
						}
						if b, err := d.MarshalJSON(); err == nil || len(b) != 0 {
							c.Fail("MarshalJSON gives %q, %v", b, err)
						}
						if b, err := d.MarshalBinary(); err == nil || len(b) != 0 {
							c.Fail("MarshalBinary gives %q, %v", b, err)
						}
					})
				})
			}
		}
	})
	// malformed UTF-8 in constructed strings: still JSON
	r.Par("malformed UTF-8", "every pair of bytes as a constructed string and key x 8 escaping combinations: output is JSON", 256, func(c *C, sh int) {
		for b2 := 0; b2 < 256; b2++ {
			s := string([]byte{byte(sh), byte(b2)})
			o := jsonvalue.NewObject()
			o.MustSetString(s).At(s)
			for e := 0; e < 8; e++ {
				_, eo := escOpts(e)
				c.Do(func() string { return fmt.Sprintf("%q escaping %d", s, e) }, func() {
					b, err := o.Marshal(eo...)
					if err != nil {
						c.Fail("%v", err)
					}
					if _, _, err := refParse(b, false); err != nil || !json.Valid(b) {
						c.Fail("not JSON: %s", b)
					}
				})
			}
		}
	})
}
