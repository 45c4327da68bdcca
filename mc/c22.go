package main

import (
	"fmt"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
	"github.com/Andrew-M-C/go.jsonvalue/beta"
)

func init() { checks["C22"] = c22 }

// refContains is the relation itself; eq decides equality of two values.
func refContains(v, sub *Val, eq func(a, b *Val) bool) bool {
	if v.K != sub.K {
		return false
	}
	switch v.K {
	case KObj:
		for _, m := range sub.O {
			x := v.get(m.K)
			if x == nil || !refContains(x, m.V, eq) {
				return false
			}
		}
		return true
	case KArr:
	start:
		for s := 0; s+len(sub.A) <= len(v.A); s++ {
			for i := range sub.A {
				if !eq(v.A[s+i], sub.A[i]) {
					continue start
				}
			}
			return true
		}
		return false
	}
	return eq(v, sub)
}

type eqTable map[*Val]string

func (t eqTable) key(w *Val) string {
	k, ok := t[w]
	if !ok {
		k = eqKey(w)
		t[w] = k
	}
	return k
}

func (t eqTable) eq(a, b *Val) bool {
	return t.key(a) == t.key(b)
}

// goForms are spellings of w as the argument of Contains.
func goForms(w *Val) (out []any) {
	out = append(out, buildAny(w))
	if hasSpecial(w) {
		return
	}
	out = append(out, jsonvalue.MustUnmarshalString(w.jsonText()), goAny(w))
	switch w.K {
	case KObj:
		m := map[string]*jsonvalue.V{}
		for _, x := range w.O {
			m[x.K] = buildAny(x.V)
		}
		out = append(out, m, &m)
	case KArr:
		s := []any{}
		for _, x := range w.A {
			s = append(s, goAny(x))
		}
		p := &s
		out = append(out, p, &p)
		if len(s) == 2 {
			out = append(out, [2]any{s[0], s[1]})
		}
	case KStr:
		type str string
		out = append(out, str(w.S), &w.S)
	case KBool:
		out = append(out, &w.B)
	case KNull:
		out = append(out, (*int)(nil), map[string]int(nil))
	}
	return
}

// goAny is w as plain Go data.
func goAny(w *Val) any {
	switch w.K {
	case KStr:
		return w.S
	case KBool:
		return w.B
	case KNum:
		var n int
		if _, err := fmt.Sscanf(w.S, "%d", &n); err == nil && fmt.Sprint(n) == w.S {
			return n
		}
		return numFloat(w.S)
	case KArr:
		s := []any{}
		for _, x := range w.A {
			s = append(s, goAny(x))
		}
		return s
	case KObj:
		m := map[string]any{}
		for _, x := range w.O {
			m[x.K] = goAny(x.V)
		}
		return m
	}
	return nil
}

func c22(r *Run) {
	judge := func(c *C, v *jsonvalue.V, sub any, want bool, path ...any) {
		c.Step(1)
		if got := beta.Contains(v, sub, path...); got != want {
			c.Fail("Contains is %v, should be %v", got, want)
		}
	}
	g := newTreeGen([]*Val{vNum("1"), vNum("1.0"), vStr("1"), vNull()}, []string{"a", "b"})
	g.sorted = true
	all := g.upTo(r.Pick(4, 4))
	n5 := r.Pick(400, 2500)
	for i, w := range g.exactly(5) {
		if len(g.exactly(5)) > n5 && i%(len(g.exactly(5))/n5) != 0 {
			continue
		}
		all = append(all, w)
	}
	vs := make([]*jsonvalue.V, len(all))
	ws := make([]*jsonvalue.V, len(all))
	for i, w := range all {
		vs[i] = buildAny(w)
		ws[i] = jsonvalue.MustUnmarshalString(escStyle{}.format(w))
	}
	r.Par("all pairs", fmt.Sprintf("all ordered pairs of %d trees (all of up to 4 nodes and some of 5)", len(all)), len(all), func(c *C, i int) {
		t := eqTable{}
		c.State(hashStr(all[i].String()))
		for j, s := range all {
			want := refContains(all[i], s, t.eq)
			c.Do(func() string { return fmt.Sprintf("Contains(%s, %s)", all[i], s) }, func() {
				judge(c, vs[i], ws[j], want)
				if want {
					c.Out(uint64(i)<<20 | uint64(j))
				}
			})
		}
		if i%50 == 0 {
			c.Do(func() string { return "after all calls: " + all[i].String() }, func() {
				if d := diff(all[i], vs[i], ""); d != "" {
					c.Fail("the value changed: %s", d)
				}
			})
		}
	})
	// Arrays over small alphabets: every offset and overlap.
	type alph struct {
		name string
		els  []*Val
		lv   int
		ls   int
	}
	alphs := []alph{
		{"2 symbols", []*Val{vNum("0"), vNum("1")}, r.Pick(10, 12), r.Pick(8, 8)},
		{"3 symbols", []*Val{vStr("a"), vNull(), vBool(true)}, 7, 5},
		{"nested", []*Val{vArr(), vArr(vNum("0")), vObj("k", vNum("0")), vObj("k", vNum("0"), "l", vArr())}, 5, 4},
		{"numbers", []*Val{vNum("10"), vNum("1e1"), vNum("NaN"), vNum("-Inf"), vNum("10.5")}, r.Pick(4, 5), r.Pick(3, 4)},
	}
	for _, a := range alphs {
		var lists [][]int
		lists = append(lists, nil)
		for s, d := 0, 0; d < a.lv; d++ {
			e := len(lists)
			for ; s < e; s++ {
				for k := range a.els {
					lists = append(lists, append(lists[s][:len(lists[s]):len(lists[s])], k))
				}
			}
		}
		mk := func(l []int) *Val {
			w := vArr()
			for _, k := range l {
				w.A = append(w.A, a.els[k])
			}
			return w
		}
		var subs []*Val
		var subVs []*jsonvalue.V
		for _, l := range lists {
			if len(l) <= a.ls {
				subs = append(subs, mk(l))
				subVs = append(subVs, buildAny(mk(l)))
			}
		}
		chunk := 16
		r.Par("arrays over "+a.name, fmt.Sprintf("all %d arrays of up to %d elements x all %d arrays of up to %d elements, directly and as a member", len(lists), a.lv, len(subs), a.ls), (len(lists)+chunk-1)/chunk, func(c *C, sh int) {
			t := eqTable{}
			for _, l := range lists[sh*chunk : min(len(lists), (sh+1)*chunk)] {
				w := mk(l)
				v := buildAny(w)
				in := jsonvalue.NewObject()
				in.MustSet(v).At("m")
				in.MustSet(1).At("n")
				for j, s := range subs {
					want := refContains(w, s, t.eq)
					c.Do(func() string { return fmt.Sprintf("Contains(%s, %s)", w, s) }, func() {
						judge(c, v, subVs[j], want)
						judge(c, in, subVs[j], want, "m")
						judge(c, in, map[string]*jsonvalue.V{"m": subVs[j]}, want)
						judge(c, in, subVs[j], false)
					})
				}
			}
		})
	}
	maxLen := r.Pick(40, 72)
	r.Par("long arrays", fmt.Sprintf("arrays of 1..%d elements x every sub-array of them, as it is and with one element changed", maxLen), maxLen, func(c *C, sh int) {
		t := eqTable{}
		w := vArr()
		for i := 0; i <= sh; i++ {
			w.A = append(w.A, vNum(fmt.Sprint(i%7*i%5)))
		}
		v := buildAny(w)
		for from := 0; from <= sh; from++ {
			for to := from; to <= sh+1; to++ {
				s := &Val{K: KArr, A: append([]*Val{}, w.A[from:to]...)}
				c.Do(func() string { return fmt.Sprintf("Contains(%s, %s)", w, s) }, func() { judge(c, v, buildAny(s), true) })
				for _, k := range []int{from, (from + to) / 2, to - 1, to} {
					x := &Val{K: KArr, A: append([]*Val{}, s.A...)}
					if k == to {
						x.A = append(x.A, vNum("9"))
					} else if k > to || k < from || to == from {
						continue
					} else {
						x.A[k-from] = vNum("3")
					}
					want := refContains(w, x, t.eq)
					c.Do(func() string { return fmt.Sprintf("Contains(%s, %s)", w, x) }, func() { judge(c, v, buildAny(x), want) })
				}
			}
		}
	})
	// Objects: every choice of keys, absent keys, changed values, at two levels.
	vals := []*Val{nil, vNum("1"), vNum("2"), vArr(vNum("1"), vNum("2")), vObj("x", vNum("1"), "y", vNull())}
	subv := []*Val{nil, vNum("1.0"), vNum("3"), vArr(vNum("2")), vArr(), vObj("y", vNull()), vObj("z", vNull()), vObj()}
	keys := []string{"", "k", "K"}
	var objs, osubs []*Val
	var rec func(from []*Val, i int, o *Val, out *[]*Val)
	rec = func(from []*Val, i int, o *Val, out *[]*Val) {
		if i == len(keys) {
			*out = append(*out, o)
			return
		}
		for _, x := range from {
			n := &Val{K: KObj, O: append([]Member{}, o.O...)}
			if x != nil {
				n.O = append(n.O, Member{keys[i], x})
			}
			rec(from, i+1, n, out)
		}
	}
	rec(vals, 0, &Val{K: KObj}, &objs)
	rec(subv, 0, &Val{K: KObj}, &osubs)
	r.Par("objects", fmt.Sprintf("%d objects x %d objects, top level and inside arrays (where equality counts)", len(objs), len(osubs)), len(objs), func(c *C, i int) {
		t := eqTable{}
		w := objs[i]
		v := buildAny(w)
		wa := vArr(w, vNull())
		va := buildAny(wa)
		for _, s := range osubs {
			sv := buildAny(s)
			want := refContains(w, s, t.eq)
			wantA := refContains(wa, vArr(s), t.eq)
			c.Do(func() string { return fmt.Sprintf("Contains(%s, %s)", w, s) }, func() {
				judge(c, v, sv, want)
				judge(c, va, []*jsonvalue.V{sv}, wantA)
				judge(c, va, sv, want, 0)
			})
		}
	})
	// Orders of the maps involved.
	ot := objs
	r.Par("map iteration orders", "every 5th pair of objects, every map iteration order", len(ot), func(c *C, i int) {
		t := eqTable{}
		v := buildAny(ot[i])
		for j := i % 5; j < len(osubs); j += 5 {
			want := refContains(ot[i], osubs[j], t.eq)
			sv := buildAny(osubs[j])
			c.Do(func() string { return fmt.Sprintf("Contains(%s, %s) in some map order", ot[i], osubs[j]) }, func() {
				c.Orders(300, func() { judge(c, v, sv, want) })
			})
		}
	})
	// Paths: every existing and many missing paths, and every spelling of the subset.
	pt := newTreeGen([]*Val{vNum("1"), vStr("1")}, []string{"a", "b"})
	pt.sorted = true
	ptrees := pt.upTo(r.Pick(4, 5))
	subsAll := newTreeGen([]*Val{vNum("1"), vStr("1"), vNum("2"), vNull()}, []string{"a", "b"}).upTo(2)
	seg := []any{"a", "b", "c", "", 0, 1, 2, -1, -2, -3}
	paths := [][]any{}
	for _, x := range seg {
		paths = append(paths, []any{x})
		for _, y := range seg {
			paths = append(paths, []any{x, y})
		}
	}
	for i := 0; i < len(paths); i++ {
		if len(paths[i]) == 2 && r.thorough {
			for _, y := range []any{"a", 0, -1} {
				paths = append(paths, append(append([]any{}, paths[i]...), y))
			}
		}
	}
	at := func(w *Val, p []any) *Val {
		for _, s := range p {
			switch x := s.(type) {
			case string:
				if w.K != KObj {
					return nil
				}
				w = w.get(x)
			case int:
				if w.K != KArr {
					return nil
				}
				if x < 0 {
					x += len(w.A)
				}
				if x < 0 || x >= len(w.A) {
					return nil
				}
				w = w.A[x]
			}
			if w == nil {
				return nil
			}
		}
		return w
	}
	r.Par("paths", fmt.Sprintf("%d trees x %d paths (existing and missing) x %d subsets x 3 spellings of the path", len(ptrees), len(paths), len(subsAll)), len(ptrees), func(c *C, i int) {
		t := eqTable{}
		v := buildAny(ptrees[i])
		for _, p := range paths {
			x := at(ptrees[i], p)
			for _, s := range subsAll {
				sv := buildAny(s)
				want := x != nil && refContains(x, s, t.eq)
				c.Do(func() string { return fmt.Sprintf("Contains(%s, %s) at %v", ptrees[i], s, p) }, func() {
					judge(c, v, sv, want, p...)
					judge(c, v, sv, want, any(p))
					if len(p) == 1 {
						switch k := p[0].(type) {
						case string:
							judge(c, v, sv, want, []string{k})
						case int:
							judge(c, v, sv, want, int8(k))
						}
					}
				})
			}
		}
	})
	fv := newTreeGen([]*Val{vNum("1"), vNum("1.5"), vNum("NaN"), vStr("1"), vStr(""), vNull(), vBool(true), vBool(false)}, []string{"a", "b"})
	fv.sorted = true
	ftrees := fv.upTo(r.Pick(3, 3))
	r.Par("spellings of the subset", fmt.Sprintf("%d trees x %d subsets given as values and as Go data", len(ftrees), len(ftrees)), len(ftrees), func(c *C, i int) {
		t := eqTable{}
		v := buildAny(ftrees[i])
		for _, s := range ftrees {
			want := refContains(ftrees[i], s, t.eq)
			for k, f := range goForms(s) {
				c.Do(func() string { return fmt.Sprintf("Contains(%s, %s as %T %d)", ftrees[i], s, f, k) }, func() { judge(c, v, f, want) })
			}
		}
		// the value itself and its own nodes
		c.Do(func() string { return fmt.Sprintf("Contains(%s, itself)", ftrees[i]) }, func() {
			judge(c, v, v, refContains(ftrees[i], ftrees[i], t.eq))
		})
		for _, bad := range []any{make(chan int), func() {}, complex(1, 2), []any{1, make(chan int)}, map[string]any{"a": func() {}}, struct{ F func() }{}, &jsonvalue.V{}, (*jsonvalue.V)(nil)} {
			c.Do(func() string { return fmt.Sprintf("Contains(%s, %T)", ftrees[i], bad) }, func() {
				judge(c, v, bad, false)
				judge(c, v, bad, false, "a")
				judge(c, v, bad, false, 0)
			})
		}
	})
	r.Seq("nothing to contain", "nil and not-exist receivers x all subsets x paths", func(c *C) {
		for _, s := range ftrees {
			for _, f := range append(goForms(s), nil, make(chan int), &jsonvalue.V{}, (*jsonvalue.V)(nil)) {
				c.Do(func() string { return fmt.Sprintf("Contains(nil, %s as %T)", s, f) }, func() {
					for _, v := range []*jsonvalue.V{nil, {}} {
						judge(c, v, f, false)
						judge(c, v, f, false, "a")
						judge(c, v, f, false, 0, "b")
					}
				})
			}
		}
	})
}
