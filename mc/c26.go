package main

import (
	"fmt"
	"sort"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

func init() { checks["C26"] = c26 }

// sortCheck sorts an array of elements with the given keys inside a document and judges the result. Elements are
// objects {"k":key,"id":position}, so that equal ones can be told apart.
func sortCheck(c *C, keys []int, less func(a, b int) bool, where int) {
	c.Step(1)
	n := len(keys)
	els := make([]*jsonvalue.V, n)
	arr := jsonvalue.NewArray()
	keyOf := make(map[*jsonvalue.V]int, n)
	for i, k := range keys {
		var e *jsonvalue.V
		switch where {
		case 0:
			e = jsonvalue.NewInt(k)
		default:
			e = jsonvalue.NewObject()
			e.MustSetInt(k).At("k")
			e.MustSetInt(i).At("id")
		}
		els[i] = e
		keyOf[e] = k
		arr.MustAppend(e).InTheEnd()
	}
	top := arr
	before := ""
	if where == 2 {
		top = jsonvalue.MustUnmarshalString(`{"x":[3,1,2],"in":[[9,8],null,{"z":1,"y":2}]}`)
		top.MustSet(arr).At("in", 1)
		arr = top.MustGet("in", 1)
		before = top.MustMarshalString(jsonvalue.OptSetSequence())
	}
	calls, foreign := 0, 0
	arr.SortArray(func(a, b *jsonvalue.V) bool {
		calls++
		ka, oka := keyOf[a]
		kb, okb := keyOf[b]
		if !oka || !okb {
			foreign++
		}
		return less(ka, kb)
	})
	if foreign > 0 {
		c.Fail("the less function is given values that are not elements")
	}
	if arr.Len() != n || !arr.IsArray() {
		c.Fail("length is %d, should be %d", arr.Len(), n)
	}
	seen := make(map[*jsonvalue.V]bool, n)
	prev := 0
	for i := 0; i < n; i++ {
		e, err := arr.Get(i)
		if err != nil {
			c.Fail("Get(%d): %v", i, err)
		}
		k, ok := keyOf[e]
		if !ok || seen[e] {
			c.Fail("element %d is %v, which is new or there twice", i, e)
		}
		seen[e] = true
		if i > 0 && less(k, prev) {
			c.Fail("element %d (key %d) is less than its predecessor (key %d)", i, k, prev)
		}
		prev = k
	}
	for i, e := range els {
		if where == 0 && e.Int() != keys[i] || where > 0 && (e.MustGet("k").Int() != keys[i] || e.MustGet("id").Int() != i || e.Len() != 2) {
			c.Fail("element number %d becomes %v", i, e)
		}
	}
	if where == 2 {
		if n > 0 {
			// undo and compare the rest
			for i, e := range els {
				top.MustSet(e).At("in", 1, i)
			}
		}
		if after := top.MustMarshalString(jsonvalue.OptSetSequence()); after != before {
			c.Fail("the document changed from %s to %s", before, after)
		}
	}
}

func c26(r *Run) {
	orders := []struct {
		name string
		less func(a, b int) bool
	}{
		{"ascending", func(a, b int) bool { return a < b }},
		{"descending", func(a, b int) bool { return a > b }},
		{"by parity", func(a, b int) bool { return a&1 < b&1 }},
		{"nothing is less", func(a, b int) bool { return false }},
	}
	L := r.Pick(7, 9)
	r.Par("arrays over 3 keys", fmt.Sprintf("all arrays of 0..%d elements with 3 different keys x %d orders x top level and inside a document", L, len(orders)), 3*3*len(orders), func(c *C, sh int) {
		o := orders[sh%len(orders)]
		first := []int{sh / len(orders) % 3, sh / len(orders) / 3}
		var rec func(keys []int)
		rec = func(keys []int) {
			if len(keys) >= 2 || first[1] == 0 && len(keys) == 1 || len(keys) == 0 && first[0] == 0 && first[1] == 0 {
				for where := 0; where < 3; where++ {
					c.State(hashStr(fmt.Sprint(keys)))
					c.Do(func() string { return fmt.Sprintf("%v, %s, placement %d", keys, o.name, where) }, func() { sortCheck(c, keys, o.less, where) })
				}
			}
			if len(keys) == L {
				return
			}
			if len(keys) < 2 {
				rec(append(keys, first[len(keys)]))
				return
			}
			for k := 0; k < 3; k++ {
				rec(append(keys[:len(keys):len(keys)], k))
			}
		}
		rec(nil)
	})
	P := r.Pick(8, 9)
	r.Par("permutations", fmt.Sprintf("all permutations of 1..%d different elements x ascending and descending", P), P*P, func(c *C, sh int) {
		n, first := sh/P+1, sh%P
		if first >= n {
			return
		}
		rest := make([]int, 0, n)
		for i := 0; i < n; i++ {
			if i != first {
				rest = append(rest, i)
			}
		}
		var rec func(cur, rest []int)
		rec = func(cur, rest []int) {
			if len(rest) == 0 {
				for oi := 0; oi < 2; oi++ {
					c.State(hashStr(fmt.Sprint(cur)))
					c.Do(func() string { return fmt.Sprintf("%v, %s", cur, orders[oi].name) }, func() { sortCheck(c, cur, orders[oi].less, 1) })
				}
				return
			}
			for i := range rest {
				nr := append(append([]int{}, rest[:i]...), rest[i+1:]...)
				rec(append(cur[:len(cur):len(cur)], rest[i]), nr)
			}
		}
		rec([]int{first}, rest)
	})
	if r.thorough {
		r.Par("0-1 arrays", "all arrays of 13 and 14 elements with 2 different keys (beyond the insertion sort threshold)", 64, func(c *C, sh int) {
			for _, n := range []int{13, 14} {
				for m := sh; m < 1<<n; m += 64 {
					keys := make([]int, n)
					for i := range keys {
						keys[i] = m >> i & 1
					}
					c.Do(func() string { return fmt.Sprint(keys) }, func() { sortCheck(c, keys, orders[0].less, 1) })
				}
			}
		})
	}
	maxN := r.Pick(140, 400)
	r.Par("structured arrays", fmt.Sprintf("lengths 0..%d: ascending, descending, equal, every single swap with the ends and middle, rotations, sawteeth, organ pipes, interleavings, patterns that degrade quicksort", maxN), maxN+1, func(c *C, n int) {
		gen := func(name string, f func(i int) int) {
			keys := make([]int, n)
			for i := range keys {
				keys[i] = f(i)
			}
			c.State(hashStr(fmt.Sprint(name, n)))
			for _, o := range orders {
				for where := 0; where < 3; where++ {
					c.Do(func() string { return fmt.Sprintf("%d elements, %s, %s, placement %d", n, name, o.name, where) }, func() { sortCheck(c, keys, o.less, where) })
				}
			}
		}
		gen("ascending", func(i int) int { return i })
		gen("descending", func(i int) int { return n - i })
		gen("equal", func(i int) int { return 5 })
		for _, m := range []int{2, 3, 5, 8, 13, 16, 50} {
			gen(fmt.Sprintf("sawtooth %d", m), func(i int) int { return i % m })
			gen(fmt.Sprintf("blocks %d", m), func(i int) int { return (n - i) / m })
			gen(fmt.Sprintf("multiples of %d", m*7+1), func(i int) int { return i * (m*7 + 1) % 101 })
			gen(fmt.Sprintf("rotated by %d", m), func(i int) int { return (i + m) % (n + 1) })
			gen(fmt.Sprintf("scattered %d", m), func(i int) int { return int(uint32(i+m)*2654435761>>7) % 1000 })
		}
		gen("organ pipe", func(i int) int { return min(i, n-i) })
		gen("valley", func(i int) int { return max(i, n-i) })
		gen("evens then odds", func(i int) int { return i*2 - i*2/max(n, 1)*(n-1) })
		gen("alternating ends", func(i int) int {
			if i%2 == 0 {
				return i
			}
			return n - i
		})
		if n > 0 {
			for _, p := range []int{0, n / 4, n / 2, n - 1} {
				gen(fmt.Sprintf("one low at %d", p), func(i int) int {
					if i == p {
						return -1
					}
					return i
				})
				gen(fmt.Sprintf("one high at %d", p), func(i int) int {
					if i == p {
						return n
					}
					return i
				})
			}
			if n <= 80 {
				for a := 0; a < n; a++ {
					b := n - 1 - a
					gen(fmt.Sprintf("swap %d and %d", a, b), func(i int) int {
						switch i {
						case a:
							return b
						case b:
							return a
						}
						return i
					})
				}
			}
		}
	})
	r.Seq("orders on content", "values of all types sorted by type and text, by length, by a caller's key; sorting twice and by another order afterwards", func(c *C) {
		g := newTreeGen([]*Val{vNum("1"), vStr("b"), vNull(), vBool(true)}, []string{"a"}).upTo(2)
		less := func(a, b *jsonvalue.V) bool {
			if a.ValueType() != b.ValueType() {
				return a.ValueType() < b.ValueType()
			}
			return a.MustMarshalString() < b.MustMarshalString()
		}
		for i := range g {
			for j := range g {
				for k := range g {
					c.Do(func() string { return fmt.Sprintf("[%s,%s,%s]", g[i], g[j], g[k]) }, func() {
						c.Step(1)
						v := build(vArr(g[i], g[j], g[k], vNum("2")))
						want := []string{}
						ref := v.ForRangeArr()
						sort.SliceStable(ref, func(x, y int) bool { return less(ref[x], ref[y]) })
						for _, x := range ref {
							want = append(want, x.MustMarshalString())
						}
						for t := 0; t < 2; t++ {
							v.SortArray(less)
							var got []string
							for _, x := range v.ForRangeArr() {
								got = append(got, x.MustMarshalString())
							}
							if fmt.Sprint(got) != fmt.Sprint(want) {
								c.Fail("sorted: %v, should be %v", got, want)
							}
							v.SortArray(func(a, b *jsonvalue.V) bool { return less(b, a) })
							if x := v.MustGet(-1).MustMarshalString(); x != want[0] {
								c.Fail("sorted in reverse: %v", v)
							}
						}
					})
				}
			}
		}
	})
	r.Seq("nothing to sort", "values of other types and nil functions", func(c *C) {
		f := func(a, b *jsonvalue.V) bool { c.Fail("the less function is called"); return false }
		for _, w := range newTreeGen([]*Val{vNum("1"), vStr("ba"), vNull(), vBool(true)}, []string{"b", "a"}).upTo(3) {
			c.Do(func() string { return w.String() }, func() {
				c.Step(2)
				v := build(w)
				v.SortArray(nil)
				if w.K != KArr || len(w.A) < 2 {
					v.SortArray(f)
				}
				if d := diffSeq(w, v, "$"); d != "" {
					c.Fail("%s", d)
				}
			})
		}
		c.Do(func() string { return "not-exist value" }, func() {
			var v jsonvalue.V
			v.SortArray(f)
			v.SortArray(nil)
			if v.ValueType() != jsonvalue.NotExist {
				c.Fail("becomes %v", v.ValueType())
			}
		})
	})
}
