package main

import (
	"bytes"
	"encoding/json"
	"fmt"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

func init() { checks["C21"] = c21 }

// c21Text is what the model allows for w, or nil.
func c21Judge(c *C, w *Val, v *jsonvalue.V, m *optModel, want map[string]bool, opts []jsonvalue.Option) {
	c.Step(1)
	b, err := v.Marshal(opts...)
	if err != nil {
		c.Fail("Marshal fails: %v", err)
	}
	if !want[string(b)] {
		c.Fail("Marshal gives\n%s\nshould be\n%s", b, anyKey(want))
	}
	if isWhite(m.pre) && isWhite(m.per) {
		p := *m
		p.ind = false
		var x bytes.Buffer
		if err := json.Compact(&x, b); err != nil {
			c.Fail("Marshal gives\n%s\nwhich is not JSON: %v", b, err)
		}
		if m.order != "" {
			for t := range p.outputs(w) {
				if x.String() != t {
					c.Fail("without white space the output is %s, without indent %s", x.String(), t)
				}
			}
		}
	}
	c.Out(hashStr(string(b)))
}

func isWhite(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] != ' ' && s[i] != '\t' && s[i] != '\n' && s[i] != '\r' {
			return false
		}
	}
	return true
}

func c21(r *Run) {
	type comb struct {
		name string
		opts []jsonvalue.Option
		m    optModel
	}
	indents := [][2]string{{"", ""}, {"", "\t"}, {"", " "}, {" ", ""}, {"  ", "\t "}, {"\t", "    "}, {">", "--"}, {"// ", ""}, {"", "\n"}, {"é\"", "<"}, {"\r\n", "{,"}}
	others := []struct {
		name  string
		opts  []jsonvalue.Option
		apply func(m *optModel)
	}{
		{"", nil, func(m *optModel) {}},
		{"SetSequence", []jsonvalue.Option{jsonvalue.OptSetSequence()}, func(m *optModel) { m.order = "set" }},
		{"DefaultStringSequence", []jsonvalue.Option{jsonvalue.OptDefaultStringSequence()}, func(m *optModel) { m.order = "dict" }},
		{"LessFunc(reverse)", []jsonvalue.Option{jsonvalue.OptKeySequenceWithLessFunc(reverseLess)}, func(m *optModel) { m.order = "reverse" }},
		{"KeySequence(b,a)", []jsonvalue.Option{jsonvalue.OptKeySequence([]string{"b", "a"})}, func(m *optModel) { m.order = "seq:b a" }},
		{"OmitNull", []jsonvalue.Option{jsonvalue.OptOmitNull(true)}, func(m *optModel) { m.omit = true }},
		{"OmitNull, SetSequence", []jsonvalue.Option{jsonvalue.OptOmitNull(true), jsonvalue.OptSetSequence()}, func(m *optModel) { m.omit, m.order = true, "set" }},
		{"OmitNull, DefaultStringSequence", []jsonvalue.Option{jsonvalue.OptOmitNull(true), jsonvalue.OptDefaultStringSequence()}, func(m *optModel) { m.omit, m.order = true, "dict" }},
		{"OmitNull, KeySequence(b)", []jsonvalue.Option{jsonvalue.OptOmitNull(true), jsonvalue.OptKeySequence([]string{"b"})}, func(m *optModel) { m.omit, m.order = true, "seq:b" }},
		{"UTF8, EscapeHTML(false), EscapeSlash(false), SetSequence", []jsonvalue.Option{jsonvalue.OptUTF8(), jsonvalue.OptEscapeHTML(false), jsonvalue.OptEscapeSlash(false), jsonvalue.OptSetSequence()}, func(m *optModel) {
			m.esc, m.order = escStyle{utf8: true, noHTML: true, noSlash: true}, "set"
		}},
	}
	var combs []comb
	for _, in := range indents {
		for _, od := range others {
			cb := comb{name: fmt.Sprintf("OptIndent(%q,%q) %s", in[0], in[1], od.name)}
			od.apply(&cb.m)
			cb.m.ind, cb.m.pre, cb.m.per = true, in[0], in[1]
			cb.opts = append(append(cb.opts, od.opts...), jsonvalue.OptIndent(in[0], in[1]))
			combs = append(combs, cb)
		}
	}
	plain := make([]comb, 0, len(others)) // without indent afterwards: the option does not linger
	for _, od := range others {
		cb := comb{name: od.name, opts: od.opts}
		od.apply(&cb.m)
		plain = append(plain, cb)
	}

	g := newTreeGen([]*Val{vNum("-1.5e3"), vNull()}, []string{"a", "b"})
	trees := g.upTo(r.Pick(5, 6))
	const chunk = 16
	r.Par("trees x indents x options", fmt.Sprintf("%d trees of up to %d nodes x %d combinations", len(trees), r.Pick(5, 6), len(combs)), (len(trees)+chunk-1)/chunk, func(c *C, sh int) {
		for _, w := range trees[sh*chunk : min(len(trees), (sh+1)*chunk)] {
			c.State(hashStr(w.String()))
			v := buildAny(w)
			cache := map[optModel]map[string]bool{}
			for i := range combs {
				cb := &combs[i]
				m := cb.m
				if w.nodes() == 6 && i%3 != sh%3 {
					continue
				}
				want, ok := cache[m]
				if !ok {
					want = m.outputs(w)
					cache[m] = want
				}
				c.Do(func() string { return fmt.Sprintf("%s with %s", w, cb.name) }, func() {
					c21Judge(c, w, v, &m, want, cb.opts)
				})
			}
		}
	})
	sg := newTreeGen([]*Val{vNum("1"), vNull(), vStr(" {\n[,:]}\t\"\\ "), vStr("é<\u2028/")}, []string{"", "a b", ":{\n\"[é"})
	sg.sorted = true
	st := sg.upTo(r.Pick(4, 5))
	r.Par("structural characters in strings and keys", fmt.Sprintf("%d trees of up to %d nodes x %d combinations", len(st), r.Pick(4, 5), len(combs)), (len(st)+chunk-1)/chunk, func(c *C, sh int) {
		for _, w := range st[sh*chunk : min(len(st), (sh+1)*chunk)] {
			c.State(hashStr(w.String()))
			v := buildAny(w)
			for i := range combs {
				if w.nodes() >= 4 && i%7 != sh%7 {
					continue
				}
				cb := &combs[i]
				c.Do(func() string { return fmt.Sprintf("%s with %s", w, cb.name) }, func() {
					m := cb.m
					c21Judge(c, w, v, &m, m.outputs(w), cb.opts)
				})
			}
		}
	})
	og := newTreeGen([]*Val{vNum("1"), vNull()}, []string{"a", "b", "c"})
	og.sorted = true
	var ot []*Val
	for _, w := range og.upTo(r.Pick(5, 6)) {
		if w.maxWidth() > 1 && w.nodes() > 2 {
			ot = append(ot, w)
		}
	}
	r.Par("map iteration orders", fmt.Sprintf("%d trees x every 11th combination, every map iteration order", len(ot)), (len(ot)+chunk-1)/chunk, func(c *C, sh int) {
		for k, w := range ot[sh*chunk : min(len(ot), (sh+1)*chunk)] {
			v := buildAny(w)
			for i := (sh + k) % 11; i < len(combs); i += 11 {
				cb := &combs[i]
				m := cb.m
				if m.order == "set" {
					continue // the order of sets is not that of w
				}
				want := m.outputs(w)
				c.Do(func() string { return fmt.Sprintf("%s with %s (some map order)", w, cb.name) }, func() {
					c.Orders(500, func() { c21Judge(c, w, v, &m, want, cb.opts) })
				})
			}
		}
	})

	// Depth bookkeeping: a path of containers, each with siblings before and after it.
	sib := []func() *Val{
		func() *Val { return nil },
		func() *Val { return vArr() },
		func() *Val { return &Val{K: KObj} },
		func() *Val { return vObj("n", vNull()) },
		func() *Val { return vArr(vNull(), vArr(vArr())) },
		func() *Val { return vObj("x", vObj("n", vNull()), "y", vArr(vNum("1"))) },
		func() *Val { return vStr("s") },
	}
	maxDepth := r.Pick(24, 60)
	r.Par("depth and siblings", fmt.Sprintf("chains of 0..%d containers, each level an array or object in 4 patterns, %d siblings before x %d after, x combinations", maxDepth, len(sib), len(sib)), maxDepth+1, func(c *C, d int) {
		for pat := 0; pat < 4; pat++ {
			for bi := range sib {
				for ai := range sib {
					w := vStr("leaf")
					for i := 0; i < d; i++ {
						if pat == 0 || pat == 2 && i%2 == 0 || pat == 3 && i%3 != 0 {
							x := vArr()
							if s := sib[bi](); s != nil {
								x.A = append(x.A, s)
							}
							x.A = append(x.A, w)
							if s := sib[ai](); s != nil {
								x.A = append(x.A, s)
							}
							w = x
						} else {
							x := &Val{K: KObj}
							if s := sib[bi](); s != nil {
								x.O = append(x.O, Member{"a", s})
							}
							x.O = append(x.O, Member{"b", w})
							if s := sib[ai](); s != nil {
								x.O = append(x.O, Member{"c", s})
							}
							w = x
						}
					}
					v := buildAny(w)
					for i := range combs {
						cb := &combs[i]
						if cb.m.order == "" || (i+d+bi+ai+pat)%r.Pick(9, 3) != 0 {
							continue
						}
						c.Do(func() string { return fmt.Sprintf("depth %d: %s with %s", d, clip(w.String(), 300), cb.name) }, func() {
							m := cb.m
							c21Judge(c, w, v, &m, m.outputs(w), cb.opts)
						})
					}
				}
			}
		}
	})
	// Sequences of calls: neither level nor strings linger, and the last indent option wins.
	r.Par("sequences of calls", fmt.Sprintf("all pairs of combinations in a row on %d documents, and both indents in one call", 3), len(combs), func(c *C, i int) {
		for _, w := range []*Val{vObj("b", vArr(vNum("1"), vObj("n", vNull())), "a", vObj("n", vNull())), vArr(vArr(vArr())), vNum("3")} {
			v := buildAny(w)
			for j := range combs {
				c.Do(func() string { return fmt.Sprintf("%s with %s, then %s", w, combs[i].name, combs[j].name) }, func() {
					m1, m2 := combs[i].m, combs[j].m
					c21Judge(c, w, v, &m1, m1.outputs(w), combs[i].opts)
					c21Judge(c, w, v, &m2, m2.outputs(w), combs[j].opts)
					p := plain[j%len(plain)]
					c.Step(1)
					if b, err := v.Marshal(p.opts...); err != nil || !p.m.outputs(w)[string(b)] {
						c.Fail("Marshal without indent gives %s, %v", b, err)
					}
					// both in one call
					m3 := m2
					var two []jsonvalue.Option
					two = append(two, jsonvalue.OptIndent(m1.pre, m1.per))
					two = append(two, combs[j].opts...)
					c21Judge(c, w, v, &m3, m3.outputs(w), two)
				})
			}
		}
	})
	wide := []int{0, 1, 2, 3, 15, 16, 17, 31, 33, 255, 256, 257, 1000, 5000}
	r.Par("wide containers", "arrays and objects of 0..5000 members, at the top and one level down", len(wide), func(c *C, sh int) {
		n := wide[sh]
		arr, obj := vArr(), &Val{K: KObj}
		for i := 0; i < n; i++ {
			arr.A = append(arr.A, vNum(fmt.Sprint(i)))
			obj.O = append(obj.O, Member{fmt.Sprintf("k%05d", i), vArr()})
		}
		for _, w := range []*Val{arr, obj, vArr(arr, obj, arr), vObj("a", obj, "b", arr)} {
			v := buildAny(w)
			for i := range combs {
				cb := &combs[i]
				if cb.m.order == "" || i%3 != 0 {
					continue
				}
				c.Do(func() string { return fmt.Sprintf("%d members with %s", n, cb.name) }, func() {
					m := cb.m
					c21Judge(c, w, v, &m, m.outputs(w), cb.opts)
				})
			}
		}
	})
}
