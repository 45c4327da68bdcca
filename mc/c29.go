package main

import (
	"fmt"
	"strconv"
	"strings"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

func init() { checks["C29"] = c29 }

// lessCall is what one call of the less function was given. info is kept to be looked at again when the call is over.
type lessCall struct {
	info *jsonvalue.ParentInfo
	path []pel
}

func c29Path(c *C, info *jsonvalue.ParentInfo) (path []pel) {
	var b strings.Builder
	b.WriteByte('[')
	for i, k := range info.KeyPath {
		if k == nil {
			c.Fail("element %d of the key path is nil", i)
		}
		if i > 0 {
			b.WriteByte(' ')
		}
		switch {
		case k.IsString() == k.IsInt():
			c.Fail("element %d of the key path has IsString %v and IsInt %v", i, k.IsString(), k.IsInt())
		case k.IsInt():
			if k.String() != strconv.Itoa(k.Int()) {
				c.Fail("element %d of the key path is position %d and prints as %q", i, k.Int(), k.String())
			}
			path = append(path, pi(k.Int()))
			b.WriteString(strconv.Itoa(k.Int()))
		default:
			if k.Int() != 0 {
				c.Fail("element %d of the key path is key %q with Int %d", i, k.String(), k.Int())
			}
			path = append(path, pk(k.String()))
			escStyle{}.quote(&b, k.String())
		}
	}
	b.WriteByte(']')
	if s := info.KeyPath.String(); s != b.String() {
		c.Fail("the key path prints as %s, should be %s", s, b.String())
	}
	return
}

// walk follows a path of keys and positions exactly.
func walkPath(w *Val, p []pel) *Val {
	for _, e := range p {
		switch {
		case e.str && w.K == KObj:
			w = w.get(e.s)
		case !e.str && w.K == KArr && e.i >= 0 && e.i < len(w.A):
			w = w.A[e.i]
		default:
			return nil
		}
		if w == nil {
			return nil
		}
	}
	return w
}

// c29Run marshals v with the strict order less on the keys, judging every call.
func c29Run(c *C, w *Val, v *jsonvalue.V, less func(a, b string) bool, extra ...jsonvalue.Option) []byte {
	var calls []lessCall
	seen := map[string]map[string]bool{} // object path -> keys compared
	f := func(info *jsonvalue.ParentInfo, k1, k2 string, v1, v2 *jsonvalue.V) bool {
		c.Step(1)
		var path []pel
		if info != nil {
			path = c29Path(c, info)
			if len(path) == 0 {
				c.Fail("the less function is given a parent with an empty path")
			}
			calls = append(calls, lessCall{info, path})
		}
		o := walkPath(w, path)
		if o == nil || o.K != KObj {
			c.Fail("the less function is given %s as parent of %q and %q, where there is no object", pathStr(path), k1, k2)
		}
		if k1 == k2 {
			c.Fail("key %q is compared with itself below %s", k1, pathStr(path))
		}
		for _, x := range []struct {
			k string
			v *jsonvalue.V
		}{{k1, v1}, {k2, v2}} {
			m := o.get(x.k)
			if m == nil {
				c.Fail("the less function is given key %q below %s, where it does not exist", x.k, pathStr(path))
			}
			if x.v == nil {
				c.Fail("the less function is given nil for key %q below %s", x.k, pathStr(path))
			}
			if d := diff(m, x.v, ""); d != "" {
				c.Fail("the less function is given the wrong value for key %q below %s: %s", x.k, pathStr(path), d)
			}
		}
		ps := pathStr(path)
		if seen[ps] == nil {
			seen[ps] = map[string]bool{}
		}
		seen[ps][k1], seen[ps][k2] = true, true
		return less(k1, k2)
	}
	b, err := v.Marshal(append(extra, jsonvalue.OptKeySequenceWithLessFunc(f))...)
	if err != nil {
		c.Fail("Marshal fails: %v", err)
	}
	// parents that were kept are still what they were
	for _, k := range calls {
		if p := c29Path(c, k.info); pathStr(p) != pathStr(k.path) {
			c.Fail("a parent given as %s became %s", pathStr(k.path), pathStr(p))
		}
	}
	// every member of an object with two or more members must have been consulted, or their order cannot be known
	var rec func(x *Val, p []pel)
	rec = func(x *Val, p []pel) {
		if live := x.live(); len(live) > 1 {
			for _, m := range live {
				if !seen[pathStr(p)][m.K] {
					c.Fail("key %q below %s is written without consulting the less function", m.K, pathStr(p))
				}
			}
		}
		for i, e := range x.A {
			rec(e, append(p[:len(p):len(p)], pi(i)))
		}
		for _, m := range x.O {
			rec(m.V, append(p[:len(p):len(p)], pk(m.K)))
		}
	}
	rec(w, nil)
	return b
}

// live is the members that are written whatever the options are.
func (v *Val) live() (out []Member) {
	for _, m := range v.O {
		if m.V.K != KNull {
			out = append(out, m)
		}
	}
	return
}

// numberLeaves gives every leaf of w its own text, so that values tell themselves apart.
func numberLeaves(w *Val) *Val {
	w = w.clone()
	n := 0
	var rec func(x *Val)
	rec = func(x *Val) {
		if x.K == KNum {
			n++
			x.S = fmt.Sprint(n)
		}
		for _, e := range x.A {
			rec(e)
		}
		for _, m := range x.O {
			rec(m.V)
		}
	}
	rec(w)
	return w
}

func c29(r *Run) {
	r.Assume("keys are not empty: an empty key and position 0 have the same representation in the key type, a documented limitation")
	orders := []struct {
		name string
		less func(a, b string) bool
	}{
		{"ascending", byteLess},
		{"descending", func(a, b string) bool { return a > b }},
	}
	whole := func(c *C, w *Val, v *jsonvalue.V, less func(a, b string) bool) {
		b := c29Run(c, w, v, less)
		if want := (escStyle{}).format(w.reorder(less)); string(b) != want {
			c.Fail("output is %s, should be %s", b, want)
		}
		c.Out(hashStr(string(b)))
	}
	// 1. all trees
	g := newTreeGen([]*Val{vNum("1")}, []string{"b", "a", "0"})
	nn := r.Pick(7, 8)
	g.sorted = true
	g.noEmpty = true
	ts := g.upTo(nn)
	const chunk = 16
	r.Par("trees", fmt.Sprintf("all %d trees of up to %d nodes over 3 keys x 2 orders x map iteration orders; every call of the less function judged", len(ts), nn), (len(ts)+chunk-1)/chunk, func(c *C, sh int) {
		for _, w := range ts[sh*chunk : min(len(ts), sh*chunk+chunk)] {
			if w.maxWidth() < 2 {
				continue
			}
			w := numberLeaves(w)
			v := build(w)
			c.State(hashStr(w.String()))
			for oi := range orders {
				o := &orders[oi]
				c.Do(func() string { return fmt.Sprintf("%s %s", w, o.name) }, func() {
					c.Orders(r.Pick(60, 1500), func() { whole(c, w, v, o.less) })
				})
			}
		}
	})
	// 2. containers in every arrangement, deep paths
	r.Par("deep paths", "all 2^d chains of arrays and objects to depth 8 (thorough 12), with siblings before and after each step, an object of three members at each level", r.Pick(9, 13), func(c *C, sh int) {
		for mask := 0; mask < 1<<sh; mask++ {
			w := vObj("z", vNum("0"), "x", vNum("0"), "y", vNum("0"))
			for d := 0; d < sh; d++ {
				sib := vObj("q", vNum("0"), "p", vNum("0"))
				if mask>>d&1 == 1 {
					w = vArr(sib.clone(), w, vNum("0"), sib)
				} else {
					w = vObj("m", sib.clone(), fmt.Sprintf("k%d", d), w, "é\"/", sib)
				}
			}
			w = numberLeaves(w)
			v := build(w)
			c.State(hashStr(w.String()))
			for oi := range orders {
				o := &orders[oi]
				c.Do(func() string { return fmt.Sprintf("%s %s", w, o.name) }, func() { whole(c, w, v, o.less) })
			}
		}
	})
	// 3. key spellings
	ks := []string{"a", " ", "0", "-1", "12", "é", "😀", "\"", "\\", "/", "\u2028", "\x00", "\x7f", "a b", "[0]", "<", "null", strings.Repeat("k", 300)}
	r.Par("keys", fmt.Sprintf("all triples of distinct keys of %d, as path elements and as members", len(ks)), len(ks), func(c *C, sh int) {
		for i := range ks {
			for j := range ks {
				if i == sh || j == sh || i == j {
					continue
				}
				w := numberLeaves(vObj(ks[sh], vObj(ks[i], vArr(vNum("1"), vObj(ks[i], vNum("1"), ks[j], vNum("1"))), ks[j], vNum("1")), ks[i], vNum("1")))
				v := build(w)
				c.State(hashStr(w.String()))
				c.Do(func() string { return w.String() }, func() { whole(c, w, v, byteLess) })
			}
		}
	})
	// 4. wide objects and long arrays
	r.Par("widths", "objects of 0..40 members and arrays of 0..40 objects, nested both ways", 41, func(c *C, sh int) {
		o := &Val{K: KObj}
		a := vArr()
		for i := 0; i < sh; i++ {
			o.O = append(o.O, Member{fmt.Sprintf("k%02d", i*7%41), vNum("1")})
			a.A = append(a.A, vObj("b", vNum("1"), "a", vNum("1")))
		}
		for _, w := range []*Val{o, a, vObj("o", o, "a", a), vArr(o, a, o.clone()), vObj("x", vArr(vArr(a, o)), "y", vObj("y", vObj("y", o, "x", vNum("1")), "x", a))} {
			w := numberLeaves(w)
			v := build(w)
			c.State(hashStr(w.String()))
			for oi := range orders {
				oo := &orders[oi]
				c.Do(func() string { return clip(w.String(), 300) }, func() { whole(c, w, v, oo.less) })
			}
		}
	})
	// 5. with other options, and the same value at two places
	r.Par("with options", "all trees of up to 5 nodes with null leaves x omission, indentation, escaping, key sequence and set order", 1, func(c *C, _ int) {
		g := newTreeGen([]*Val{vNum("1"), vNull()}, []string{"b", "a"})
		ex := []struct {
			name string
			opts []jsonvalue.Option
			m    optModel
		}{
			{"OmitNull", []jsonvalue.Option{jsonvalue.OptOmitNull(true)}, optModel{omit: true, order: "reverse"}},
			{"Indent", []jsonvalue.Option{jsonvalue.OptIndent(" ", "\t")}, optModel{ind: true, pre: " ", per: "\t", order: "reverse"}},
			{"OmitNull, Indent", []jsonvalue.Option{jsonvalue.OptIndent("", "  "), jsonvalue.OptOmitNull(true)}, optModel{ind: true, per: "  ", omit: true, order: "reverse"}},
			{"UTF8", []jsonvalue.Option{jsonvalue.OptUTF8()}, optModel{esc: escStyle{utf8: true}, order: "reverse"}},
			{"KeySequence", []jsonvalue.Option{jsonvalue.OptKeySequence([]string{"a"})}, optModel{order: "reverse"}},
			{"SetSequence", []jsonvalue.Option{jsonvalue.OptSetSequence()}, optModel{order: "reverse"}},
		}
		for _, w := range g.upTo(r.Pick(5, 6)) {
			v := build(w)
			for i := range ex {
				e := &ex[i]
				c.Do(func() string { return fmt.Sprintf("%s with %s", w, e.name) }, func() {
					b := c29Run(c, w, v, func(a, b string) bool { return a > b }, e.opts...)
					if want := anyKey(e.m.outputs(w)); string(b) != want {
						c.Fail("output is %s, should be %s", b, want)
					}
				})
			}
		}
		sub := vObj("y", vNum("1"), "x", vArr(vNum("2")))
		for n := 2; n <= 4; n++ {
			w := vObj("b", sub, "a", vArr(sub, sub), "c", vObj("d", sub, "e", sub))
			v := jsonvalue.NewObject()
			s := build(sub)
			v.MustSet(s).At("b")
			v.MustSet(s).At("a", 0)
			v.MustAppend(s).InTheEnd("a")
			v.MustSet(s).At("c", "d")
			v.MustSet(s).At("c", "e")
			c.Do(func() string { return "the same value at five places" }, func() { whole(c, w, v, byteLess) })
		}
	})
	// 6. less functions that look at the path and use it
	r.Par("reading from inside", "the less function reads and marshals the values it is given and the whole document, and marshals with a less function itself", 1, func(c *C, _ int) {
		g := newTreeGen([]*Val{vNum("1")}, []string{"b", "a"})
		g.noEmpty = true
		for _, w := range g.upTo(r.Pick(6, 7)) {
			if w.maxWidth() < 2 {
				continue
			}
			w := numberLeaves(w)
			v := build(w)
			c.Do(func() string { return w.String() }, func() {
				want := escStyle{}.format(w.reorder(func(a, b string) bool { return a > b }))
				f := func(info *jsonvalue.ParentInfo, k1, k2 string, v1, v2 *jsonvalue.V) bool {
					c.Step(1)
					if info != nil {
						p := c29Path(c, info)
						o, err := v.Get(p[0].any(), restAny(p)...)
						if err != nil || !o.IsObject() {
							c.Fail("Get of the parent path %s: %v", pathStr(p), err)
						}
						if x := o.MustGet(k1); !x.Equal(v1) {
							c.Fail("key %q below %s is %s, the less function was given %s", k1, pathStr(p), x, v1)
						}
					}
					_ = c29Run(c, w, v, byteLess)
					if d := v1.MustMarshalString(jsonvalue.OptDefaultStringSequence()); d == v2.MustMarshalString(jsonvalue.OptDefaultStringSequence()) {
						c.Fail("both values are %s", d)
					}
					return k1 > k2
				}
				b, err := v.MarshalString(jsonvalue.OptKeySequenceWithLessFunc(f))
				if err != nil || b != want {
					c.Fail("output is %s (%v), should be %s", b, err, want)
				}
				if d := diffSeq(w, v, ""); d != "" {
					c.Fail("the value changed: %s", d)
				}
			})
		}
	})
}

func restAny(p []pel) []any { return pathAny(p[1:]) }
