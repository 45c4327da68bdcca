package main

import (
	"fmt"
	"strings"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

func init() { checks["C07"] = c07 }

// orderRule is one way to ask for an order with the comparison it must give. less is a strict total order on the keys used.
type orderRule struct {
	name string
	opts []jsonvalue.Option
	less func(a, b string) bool
}

func byteLess(a, b string) bool { return a < b }

func seqLess(seq []string) func(a, b string) bool {
	pos := map[string]int{}
	for i, k := range seq {
		pos[k] = i
	}
	return func(a, b string) bool {
		i, okI := pos[a]
		j, okJ := pos[b]
		switch {
		case okI && okJ:
			return i < j
		case okI:
			return true
		case okJ:
			return false
		}
		return a < b
	}
}

func lessOpt(less func(a, b string) bool) jsonvalue.MarshalLessFunc {
	return func(_ *jsonvalue.ParentInfo, k1, k2 string, _, _ *jsonvalue.V) bool { return less(k1, k2) }
}

func basicRules() []orderRule {
	rev := func(a, b string) bool { return a > b }
	byLen := func(a, b string) bool { return len(a) < len(b) || (len(a) == len(b) && a > b) }
	return []orderRule{
		{"OptDefaultStringSequence", []jsonvalue.Option{jsonvalue.OptDefaultStringSequence()}, byteLess},
		{"Opt{MarshalLessFunc: DefaultStringSequence}", []jsonvalue.Option{jsonvalue.Opt{MarshalLessFunc: jsonvalue.DefaultStringSequence}}, byteLess},
		{"less: ascending", []jsonvalue.Option{jsonvalue.OptKeySequenceWithLessFunc(lessOpt(byteLess))}, byteLess},
		{"less: descending", []jsonvalue.Option{jsonvalue.OptKeySequenceWithLessFunc(lessOpt(rev))}, rev},
		{"less: by length, then descending", []jsonvalue.Option{jsonvalue.Opt{MarshalLessFunc: lessOpt(byLen)}}, byLen},
		{"less after sequence", []jsonvalue.Option{jsonvalue.OptKeySequence([]string{"b"}), jsonvalue.OptKeySequenceWithLessFunc(lessOpt(rev))}, rev},
		{"sequence after less", []jsonvalue.Option{jsonvalue.OptDefaultStringSequence(), jsonvalue.OptKeySequence([]string{"b"})}, seqLess([]string{"b"})},
		{"sequence after set order", []jsonvalue.Option{jsonvalue.OptSetSequence(), jsonvalue.OptKeySequence([]string{"zz", "é"})}, seqLess([]string{"zz", "é"})},
	}
}

func (ru *orderRule) check(c *C, v *jsonvalue.V, w *Val) {
	want := escStyle{}.format(w.reorder(ru.less))
	b, err := v.Marshal(ru.opts...)
	if err != nil {
		c.Fail("Marshal fails: %v", err)
	}
	if string(b) != want {
		c.Fail("output is %s, should be %s", b, want)
	}
}

func c07(r *Run) {
	r.Assume("less functions are strict total orders on the keys; key sequences list distinct keys")
	alpha := []string{"b", "a", "aa", "B", "", "\uffff", "😀", "é", "a\x00", "zz"}
	rules := basicRules()
	// 1. all key sets of up to 4 keys in every insertion order
	n := r.Pick(4, 5)
	var sets [][]string
	for k := 0; k <= n; k++ {
		sets = append(sets, keyLists(alpha, k, false)...)
	}
	r.Par("key sets", fmt.Sprintf("all %d ordered lists of up to %d keys over %q x %d rules x every map iteration order", len(sets), n, alpha, len(rules)), 64, func(c *C, sh int) {
		for i := sh; i < len(sets); i += 64 {
			w := &Val{K: KObj}
			for j, k := range sets[i] {
				w.O = append(w.O, Member{k, vNum(fmt.Sprint(j))})
			}
			v := build(w)
			c.State(hashStr(w.String()))
			for j := range rules {
				ru := &rules[j]
				c.Do(func() string { return fmt.Sprintf("%s with %s", w, ru.name) }, func() { c.Orders(1000, func() { ru.check(c, v, w) }) })
			}
		}
	})
	// 2. all key sequences and all total orders over 4 keys
	k4 := []string{"a", "b", "c", "d"}
	var seqRules []orderRule
	for k := 0; k <= 4; k++ {
		for _, l := range keyLists([]string{"a", "b", "c", "d", "x"}, k, false) {
			if len(l) == 0 {
				continue
			}
			seqRules = append(seqRules, orderRule{fmt.Sprintf("OptKeySequence(%q)", l), []jsonvalue.Option{jsonvalue.OptKeySequence(l)}, seqLess(l)},
				orderRule{fmt.Sprintf("Opt{MarshalKeySequence: %q}", l), []jsonvalue.Option{jsonvalue.Opt{MarshalKeySequence: l}}, seqLess(l)})
			if len(l) == 4 {
				seqRules = append(seqRules, orderRule{fmt.Sprintf("less by rank in %q", l), []jsonvalue.Option{jsonvalue.OptKeySequenceWithLessFunc(lessOpt(seqLess(l)))}, seqLess(l)})
			}
		}
	}
	var sub []*Val
	for k := 0; k <= 4; k++ {
		for _, l := range keyLists(k4, k, true) {
			w := &Val{K: KObj}
			for j, k := range l {
				w.O = append(w.O, Member{k, vNum(fmt.Sprint(j))})
			}
			sub = append(sub, w)
		}
	}
	r.Par("sequences and total orders", fmt.Sprintf("%d key sequences and total orders over 5 keys x all %d subsets of 4 keys x every map iteration order", len(seqRules), len(sub)), len(seqRules), func(c *C, sh int) {
		ru := &seqRules[sh]
		for _, w := range sub {
			v := build(w)
			c.Do(func() string { return fmt.Sprintf("%s with %s", w, ru.name) }, func() { c.Orders(1000, func() { ru.check(c, v, w); c.Out(hashStr(ru.name)) }) })
		}
	})
	// 3. nested objects
	g := newTreeGen([]*Val{vNum("1"), vNull()}, []string{"b", "a", "c"})
	ts := g.upTo(6)
	r.Par("nested", fmt.Sprintf("%d trees over 3 keys in every set order x %d rules x map iteration orders", len(ts), len(rules)), len(ts), func(c *C, sh int) {
		w := ts[sh]
		if w.maxWidth() < 2 || w.nodes() < 4 {
			return
		}
		c.State(hashStr(w.String()))
		v := build(w)
		for j := range rules {
			ru := &rules[j]
			if !r.thorough && w.nodes() > 5 && (sh+j)%8 != 0 {
				continue
			}
			c.Do(func() string { return fmt.Sprintf("%s with %s", w, ru.name) }, func() { c.Orders(1500, func() { ru.check(c, v, w) }) })
		}
	})
	r.Par("nested, two objects", "arrays and objects of two or three objects of 2-3 keys x rules x every combination of iteration orders", 6, func(c *C, sh int) {
		mk := func(ks ...string) *Val {
			o := &Val{K: KObj}
			for i, k := range ks {
				o.O = append(o.O, Member{k, vNum(fmt.Sprint(i))})
			}
			return o
		}
		var w *Val
		switch sh {
		case 0:
			w = vArr(mk("b", "a"), mk("c", "b", "a"), mk("b", "c"))
		case 1:
			w = vObj("z", mk("b", "a", "c"), "y", mk("b", "c"))
		case 2:
			w = vObj("b", vArr(mk("b", "a"), vArr(mk("y", "x"))), "a", vObj("q", mk("b", "a"), "p", vNull()))
		case 3:
			w = vArr(vArr(vArr(mk("c", "b", "a"))), mk("b", "a"))
		case 4:
			w = vObj("x", vObj("y", vObj("z", mk("b", "c", "a"), "a", vNum("1")), "b", vNum("2")), "a", vNum("3"))
		case 5:
			w = vObj("x", vArr(), "w", &Val{K: KObj}, "v", vArr(&Val{K: KObj}, mk("zz", "b")), "u", vStr(""))
		}
		for ci := range constructions {
			v := constructions[ci].make(w)
			for j := range rules {
				ru := &rules[j]
				c.Do(func() string { return fmt.Sprintf("%s (%s) with %s", w, constructions[ci].name, ru.name) }, func() { c.Orders(5000, func() { ru.check(c, v, w) }) })
			}
		}
	})
	// 4. all permutations of 5 and 6 keys, many keys
	r.Par("all orders of 5-7 keys", "every map iteration order of one object of 5 and 6 (thorough: 7) keys x rules", len(rules), func(c *C, sh int) {
		for n := 5; n <= r.Pick(6, 7); n++ {
			ps := allPerms(n)
			w := &Val{K: KObj}
			for _, k := range []string{"b", "a", "aa", "zz", "é", "c", "d"}[:n] {
				w.O = append(w.O, Member{k, vStr(k)})
			}
			v := build(w)
			ru := &rules[sh]
			c.Do(func() string { return fmt.Sprintf("%s with %s", w, ru.name) }, func() {
				c.OrdersOf(func(int) [][]int { return ps }, 1<<30, func() { ru.check(c, v, w) })
			})
		}
	})
	r.Par("many keys", "objects of 7..140, 255..258, 1000 keys x rules x every rotation and mirrored rotation of the iteration order (all below 70 keys, every 17th above)", 12*8, func(c *C, sh int) {
		for n := 7; n <= 1000; n++ {
			if (n > 140 && n < 255) || (n > 258 && n < 1000) || n%12 != sh/8 {
				continue
			}
			w := &Val{K: KObj}
			for i := 0; i < n; i++ {
				w.O = append(w.O, Member{fmt.Sprintf("k%d", i*7919%1009), vNum(fmt.Sprint(i))})
			}
			v := build(w)
			ru := &rules[sh%8]
			step := 1
			if n >= 70 {
				step = 17
			}
			if n >= 255 {
				step = 101
			}
			c.Do(func() string { return fmt.Sprintf("%d keys with %s", n, ru.name) }, func() {
				c.OrdersOf(func(n int) (ps [][]int) {
					for k := 0; k < n; k += step {
						p, q := make([]int, n), make([]int, n)
						for i := range p {
							p[i] = (i + k) % n
							q[n-1-i] = p[i]
						}
						ps = append(ps, p, q)
					}
					return
				}, 1<<30, func() { ru.check(c, v, w) })
			})
		}
	})
	// 5. byte-identical however built, values being ordered by value
	r.Seq("built differently", "documents x constructions x all rules: identical bytes; a less function that compares values", func(c *C) {
		ws := []*Val{vObj("a", vNum("3"), "b", vNum("1"), "c", vNum("2")), vObj("x", vObj("b", vNum("1"), "a", vArr(vObj("d", vNum("0"), "c", vNum("9")))), "b", vNull())}
		for _, w := range ws {
			for _, ru := range rules {
				for _, cn := range constructions {
					c.Do(func() string { return fmt.Sprintf("%s %s %s", w, ru.name, cn.name) }, func() {
						v := cn.make(w)
						ru.check(c, v, w)
						ru.check(c, v, w)
					})
				}
			}
		}
		byVal := func(_ *jsonvalue.ParentInfo, _, _ string, v1, v2 *jsonvalue.V) bool { return v1.Int() < v2.Int() }
		for p := 0; p < 24; p++ {
			ks := keyLists(k4, 4, false)[p]
			w := &Val{K: KObj}
			var parts []string
			for i, k := range ks {
				w.set(k, vNum(fmt.Sprint(10*i)))
				parts = append(parts, fmt.Sprintf(`"%s":%d`, k, 10*i))
			}
			want := "{" + strings.Join(parts, ",") + "}"
			v := jsonvalue.NewObject()
			for _, k := range k4 {
				v.MustSet(build(w.get(k))).At(k)
			}
			c.Do(func() string { return "by value " + w.String() }, func() {
				c.Orders(1000, func() {
					if s := v.MustMarshalString(jsonvalue.OptKeySequenceWithLessFunc(byVal)); s != want {
						c.Fail("output is %s, should be %s", s, want)
					}
				})
			})
		}
	})
}
