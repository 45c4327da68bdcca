package main

import (
	"fmt"
	"sort"
	"strings"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

func init() { checks["C23"] = c23 }

type visit struct {
	k string
	i int
	v *jsonvalue.V
}

// iterForm visits members; it stops after stop visits if it can (stop < 0: never asks to stop).
type iterForm struct {
	name    string
	array   bool
	stops   bool
	ordered bool // in set sequence
	run     func(v *jsonvalue.V, stop int) []visit
}

var iterForms = []iterForm{
	{"RangeObjects", false, true, false, func(v *jsonvalue.V, stop int) (out []visit) {
		v.RangeObjects(func(k string, x *jsonvalue.V) bool {
			out = append(out, visit{k, 0, x})
			return len(out) != stop
		})
		return
	}},
	{"RangeObjectsBySetSequence", false, true, true, func(v *jsonvalue.V, stop int) (out []visit) {
		v.RangeObjectsBySetSequence(func(k string, x *jsonvalue.V) bool {
			out = append(out, visit{k, 0, x})
			return len(out) != stop
		})
		return
	}},
	{"ForRangeObj", false, false, false, func(v *jsonvalue.V, stop int) (out []visit) {
		for k, x := range v.ForRangeObj() {
			out = append(out, visit{k, 0, x})
		}
		return
	}},
	{"IterObjects", false, false, false, func(v *jsonvalue.V, stop int) (out []visit) {
		for x := range v.IterObjects() {
			out = append(out, visit{x.K, 0, x.V})
		}
		return
	}},
	{"RangeArray", true, true, false, func(v *jsonvalue.V, stop int) (out []visit) {
		v.RangeArray(func(i int, x *jsonvalue.V) bool {
			out = append(out, visit{"", i, x})
			return len(out) != stop
		})
		return
	}},
	{"ForRangeArr", true, false, false, func(v *jsonvalue.V, stop int) (out []visit) {
		for i, x := range v.ForRangeArr() {
			out = append(out, visit{"", i, x})
		}
		return
	}},
	{"IterArray", true, false, false, func(v *jsonvalue.V, stop int) (out []visit) {
		for x := range v.IterArray() {
			out = append(out, visit{"", x.I, x.V})
		}
		return
	}},
}

// checkIter iterates the value in every form with every stop position in stops. w is the expected content, its
// members in set sequence if seq.
func checkIter(c *C, w *Val, v *jsonvalue.V, seq bool, stops []int) {
	n := len(w.A) + len(w.O)
	if v.Len() != n {
		c.Fail("Len is %d, should be %d (%s)", v.Len(), n, w)
	}
	keys := map[string]*Val{}
	for _, m := range w.O {
		keys[m.K] = m.V
	}
	for fi := range iterForms {
		f := &iterForms[fi]
		c.Step(1)
		if f.array != (w.K == KArr) || (w.K != KArr && w.K != KObj) {
			if out := f.run(v, -1); len(out) != 0 {
				c.Fail("%s visits %d members of %s", f.name, len(out), w)
			}
			continue
		}
		for _, stop := range stops {
			if stop >= 0 && !f.stops || stop == 0 {
				continue
			}
			out := f.run(v, stop)
			want := n
			if stop > 0 && stop < n {
				want = stop
			}
			if len(out) != want {
				c.Fail("%s, false at visit %d, visits %d of the %d members of %s", f.name, stop, len(out), n, w)
			}
			seen := map[string]bool{}
			for i, x := range out {
				if x.v == nil {
					c.Fail("%s gives a nil value for member %q/%d of %s", f.name, x.k, x.i, w)
				}
				if f.array {
					if x.i != i {
						c.Fail("%s visits index %d at visit %d of %s", f.name, x.i, i, w)
					}
					if g, err := v.Get(i); err != nil || g != x.v {
						c.Fail("%s gives %v for index %d, Get %v, %v", f.name, x.v, i, g, err)
					}
					if x.v.ValueType() != valueTypeOf(w.A[i]) {
						c.Fail("%s gives %v for index %d of %s", f.name, x.v, i, w)
					}
					continue
				}
				m, ok := keys[x.k]
				if !ok || seen[x.k] {
					c.Fail("%s visits key %q of %s (again: %v)", f.name, x.k, w, seen[x.k])
				}
				seen[x.k] = true
				if g, err := v.Get(x.k); err != nil || g != x.v {
					c.Fail("%s gives %v for key %q, Get %v, %v", f.name, x.v, x.k, g, err)
				}
				if x.v.ValueType() != valueTypeOf(m) {
					c.Fail("%s gives %v for key %q of %s", f.name, x.v, x.k, w)
				}
				if f.ordered && seq && x.k != w.O[i].K {
					c.Fail("%s visits %q at visit %d of %s", f.name, x.k, i, w)
				}
			}
		}
	}
}

func valueTypeOf(w *Val) jsonvalue.ValueType {
	switch w.K {
	case KStr:
		return jsonvalue.String
	case KNum:
		return jsonvalue.Number
	case KBool:
		return jsonvalue.Boolean
	case KNull:
		return jsonvalue.Null
	case KArr:
		return jsonvalue.Array
	}
	return jsonvalue.Object
}

func checkIterDeep(c *C, w *Val, v *jsonvalue.V, seq bool) {
	var stops []int
	for i := -1; i <= len(w.A)+len(w.O)+1; i++ {
		stops = append(stops, i)
	}
	checkIter(c, w, v, seq, stops)
	for i, x := range w.A {
		checkIterDeep(c, x, v.MustGet(i), seq)
	}
	for _, m := range w.O {
		checkIterDeep(c, m.V, v.MustGet(m.K), seq)
	}
}

func c23(r *Run) {
	leaves := []*Val{vNum("1"), vStr(""), vNull()}
	g := newTreeGen(leaves, []string{"", "b", "a"})
	n := r.Pick(5, 6)
	trees := g.upTo(n)
	const chunk = 32
	r.Par("trees", fmt.Sprintf("%d trees of up to %d nodes built in %d ways, every node, form and stop position", len(trees), n, len(eqWays)), (len(trees)+chunk-1)/chunk, func(c *C, sh int) {
		for _, w := range trees[sh*chunk : min(len(trees), (sh+1)*chunk)] {
			c.State(hashStr(w.String()))
			for wi, way := range eqWays {
				c.Do(func() string { return fmt.Sprintf("%s (%s)", w, way.name) }, func() {
					v := way.make(w)
					if v == nil {
						return
					}
					checkIterDeep(c, w, v, wi <= 2)
					c.Out(hashStr(v.MustMarshalString(jsonvalue.OptSetSequence())))
				})
			}
		}
	})
	og := newTreeGen(leaves, []string{"a", "b", "c", "d"})
	og.sorted = true
	var ot []*Val
	for _, w := range og.upTo(r.Pick(5, 6)) {
		if len(w.O) >= 2 {
			ot = append(ot, w)
		}
	}
	r.Par("map iteration orders", fmt.Sprintf("%d objects, every form and stop position, every map iteration order", len(ot)), (len(ot)+chunk-1)/chunk, func(c *C, sh int) {
		for _, w := range ot[sh*chunk : min(len(ot), (sh+1)*chunk)] {
			v := buildAny(w)
			for fi := range iterForms {
				f := iterForms[fi]
				if f.array {
					continue
				}
				for stop := -1; stop <= len(w.O)+1; stop++ {
					if stop == 0 || stop > 0 && !f.stops {
						continue
					}
					c.Do(func() string { return fmt.Sprintf("%s of %s, stop %d, in some map order", f.name, w, stop) }, func() {
						c.Orders(300, func() {
							c.Step(1)
							out := f.run(v, stop)
							want := len(w.O)
							if stop > 0 && stop < want {
								want = stop
							}
							seen := map[string]bool{}
							for i, x := range out {
								if seen[x.k] || w.get(x.k) == nil || x.v != v.MustGet(x.k) || f.ordered && x.k != w.O[i].K {
									c.Fail("visits %q at %d", x.k, i)
								}
								seen[x.k] = true
							}
							if len(out) != want {
								c.Fail("visits %d of %d members", len(out), len(w.O))
							}
						})
					})
				}
			}
		}
	})
	maxN := r.Pick(140, 300)
	r.Par("sizes", fmt.Sprintf("arrays and objects of 0..%d members, built, parsed and after deletions, every form and stop position", maxN), maxN+1, func(c *C, n int) {
		var arr, obj = vArr(), &Val{K: KObj}
		for i := 0; i < n; i++ {
			arr.A = append(arr.A, leaves[i%3])
			obj.O = append(obj.O, Member{fmt.Sprintf("k%d", (i*7919)%1009), leaves[i%3]})
		}
		for _, w := range []*Val{arr, obj} {
			for wi, way := range eqWays {
				c.Do(func() string { return fmt.Sprintf("%d members (%s)", n, way.name) }, func() { checkIterDeep(c, w, way.make(w), wi <= 2) })
			}
			for del := 0; del < n; del += 1 + n/9 {
				c.Do(func() string { return fmt.Sprintf("%d members, number %d deleted", n, del) }, func() {
					x := w.clone()
					v := buildAny(w)
					if x.K == KArr {
						v.MustDelete(del)
						x.A = append(x.A[:del:del], x.A[del+1:]...)
					} else {
						v.MustDelete(x.O[del].K)
						x.O = append(x.O[:del:del], x.O[del+1:]...)
					}
					checkIterDeep(c, x, v, true)
				})
			}
		}
	})
	// Histories of sets and deletes, exact and caseless.
	keys := []string{"a", "A", "b"}
	type hop struct {
		name string
		do   func(v *jsonvalue.V, w *Val, n int)
	}
	var ops []hop
	for _, k := range keys {
		ops = append(ops,
			hop{"set " + k, func(v *jsonvalue.V, w *Val, n int) { v.MustSet(n).At(k); w.del(k); w.set(k, vNum(fmt.Sprint(n))) }},
			hop{"delete " + k, func(v *jsonvalue.V, w *Val, n int) { v.MustDelete(k); w.del(k) }},
		)
	}
	ops = append(ops,
		hop{"caseless get", func(v *jsonvalue.V, w *Val, n int) { _, _ = v.Caseless().Get("B") }},
		hop{"caseless delete B", func(v *jsonvalue.V, w *Val, n int) { v.Caseless().MustDelete("B"); w.del("b") }},
		hop{"set c.d", func(v *jsonvalue.V, w *Val, n int) {
			v.MustSet(n).At("c", "d")
			w.del("c")
			w.set("c", vObj("d", vNum(fmt.Sprint(n))))
		}},
		hop{"decode", func(v *jsonvalue.V, w *Val, n int) {
			if err := v.UnmarshalJSON([]byte(`{"b":1,"z":[],"b":2}`)); err != nil {
				panic(err)
			}
			w.O = []Member{{"z", vArr()}, {"b", vNum("2")}}
		}},
	)
	depth := r.Pick(5, 6)
	r.Par("histories", fmt.Sprintf("all histories of %d calls from %d, all forms after each", depth, len(ops)), len(ops)*len(ops), func(c *C, sh int) {
		hist := make([]int, depth)
		hist[0], hist[1] = sh/len(ops), sh%len(ops)
		var rec func(i int)
		rec = func(i int) {
			if i == depth {
				c.Do(func() string {
					var s []string
					for _, h := range hist {
						s = append(s, ops[h].name)
					}
					return strings.Join(s, "; ")
				}, func() {
					v, w := jsonvalue.NewObject(), &Val{K: KObj}
					for n, h := range hist {
						ops[h].do(v, w, n)
					}
					// a set of an existing member of c only moves d, not c; compare order only where it is plain
					plain := true
					for _, h := range hist {
						plain = plain && ops[h].name != "set c.d"
					}
					checkIter(c, w, v, plain, []int{-1, 1, 2})
				})
				return
			}
			for h := range ops {
				hist[i] = h
				rec(i + 1)
			}
		}
		rec(2)
	})
	// Nesting: the end of an inner iteration does not end the outer one; iterations of one value do not disturb
	// each other; snapshots may be walked while the value changes.
	r.Par("nested iterations and changes during snapshots", "all pairs of forms nested, every stop position of the inner one, 0..8 members; deleting, setting and appending while walking snapshots", 9, func(c *C, n int) {
		obj, arr := jsonvalue.NewObject(), jsonvalue.NewArray()
		for i := 0; i < n; i++ {
			in := jsonvalue.NewObject()
			ina := jsonvalue.NewArray()
			for j := 0; j < n; j++ {
				in.MustSet(j).At(fmt.Sprint(j))
				ina.MustAppend(j).InTheEnd()
			}
			obj.MustSet(in).At(fmt.Sprint(i))
			arr.MustAppend(ina).InTheEnd()
		}
		for _, f := range iterForms {
			for stop := -1; stop <= n; stop++ {
				if stop == 0 || stop > 0 && !f.stops {
					continue
				}
				c.Do(func() string { return fmt.Sprintf("%s nested with stop %d, %d members", f.name, stop, n) }, func() {
					want := n
					if stop > 0 {
						want = stop
					}
					outer, inner, same := 0, 0, 0
					body := func(x *jsonvalue.V, self *jsonvalue.V) {
						c.Step(1)
						outer++
						inner += len(f.run(x, stop))
						same += len(f.run(self, stop))
					}
					if f.array {
						arr.RangeArray(func(_ int, x *jsonvalue.V) bool { body(x, arr); return true })
						for _, x := range arr.ForRangeArr() {
							body(x, arr)
						}
						for x := range arr.IterArray() {
							body(x.V, arr)
						}
					} else {
						obj.RangeObjects(func(_ string, x *jsonvalue.V) bool { body(x, obj); return true })
						obj.RangeObjectsBySetSequence(func(_ string, x *jsonvalue.V) bool { body(x, obj); return true })
						for _, x := range obj.ForRangeObj() {
							body(x, obj)
						}
						for x := range obj.IterObjects() {
							body(x.V, obj)
						}
					}
					outs := 4
					if f.array {
						outs = 3
					}
					if outer != outs*n || inner != outs*n*want || same != outs*n*want {
						c.Fail("%d outer, %d inner, %d own visits", outer, inner, same)
					}
				})
			}
		}
		c.Do(func() string { return fmt.Sprintf("changes while walking snapshots of %d members", n) }, func() {
			o, a := jsonvalue.NewObject(), jsonvalue.NewArray()
			for i := 0; i < n; i++ {
				o.MustSet(i).At(fmt.Sprint(i))
				a.MustAppend(i).InTheEnd()
			}
			var got []string
			for k, x := range o.ForRangeObj() {
				c.Step(1)
				got = append(got, k+x.String())
				for i := 0; i < n; i++ {
					if fmt.Sprint(i) != k {
						o.MustDelete(fmt.Sprint(i))
					}
				}
				o.MustSet(1).At("new" + k)
			}
			sort.Strings(got)
			for i, s := range got {
				if s != fmt.Sprintf("%d%d", i, i) {
					c.Fail("walk of the object snapshot: %v", got)
				}
			}
			if len(got) != n {
				c.Fail("walk of the object snapshot: %v", got)
			}
			got = nil
			for i, x := range a.ForRangeArr() {
				c.Step(1)
				got = append(got, fmt.Sprint(i, x))
				if a.Len() > 0 {
					a.MustDelete(0)
				}
				if i%2 == 0 {
					a.MustAppend(99).InTheBeginning()
				}
			}
			for i, s := range got {
				if s != fmt.Sprint(i, i) {
					c.Fail("walk of the array snapshot: %v", got)
				}
			}
			if len(got) != n {
				c.Fail("walk of the array snapshot: %v", got)
			}
		})
	})
	r.Seq("nil callbacks and other types", "nil callbacks on every kind of value; every form on values that do not exist", func(c *C) {
		vals := []*jsonvalue.V{{}, jsonvalue.NewNull(), jsonvalue.NewInt(1), jsonvalue.NewString("abc"), jsonvalue.NewBool(true), jsonvalue.NewArray(), jsonvalue.NewObject(), jsonvalue.MustUnmarshalString(`[1,[2]]`), jsonvalue.MustUnmarshalString(`{"a":1,"b":{}}`), jsonvalue.MustUnmarshalString(`]`), jsonvalue.NewObject().MustGet("none")}
		for i, v := range vals {
			c.Do(func() string { return fmt.Sprintf("value %d: %v", i, v) }, func() {
				c.Step(3)
				v.RangeObjects(nil)
				v.RangeObjectsBySetSequence(nil)
				v.RangeArray(nil)
				for _, f := range iterForms {
					c.Step(1)
					out := f.run(v, -1)
					if want := v.Len(); (f.array == v.IsArray() && f.array || !f.array && v.IsObject()) && len(out) != want || !v.IsArray() && !v.IsObject() && len(out) != 0 {
						c.Fail("%s visits %d members", f.name, len(out))
					}
				}
				if v.ForRangeObj() == nil && v.IsObject() {
					c.Fail("ForRangeObj is nil")
				}
			})
		}
	})
}
