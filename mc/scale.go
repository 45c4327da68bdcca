package main

import (
	"fmt"
	"strings"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

// scale holds, per property, the families that walk along one size (length, width, depth, number of calls) instead of along
// all shapes of a small size: every size up to a bound, and the neighbourhood of every power of two up to a larger one.
var scale = map[string]func(*Run){}

// sizes gives 0..dense and 2^k-2..2^k+2 for the powers above it up to 2^top.
func sizes(dense, top int) (out []int) {
	for i := 0; i <= dense; i++ {
		out = append(out, i)
	}
	for k := 1; k <= top; k++ {
		for n := 1<<k - 2; n <= 1<<k+2; n++ {
			if n > out[len(out)-1] {
				out = append(out, n)
			}
		}
	}
	return
}

func sizesText(dense, top int) string {
	return fmt.Sprintf("0..%d and 2^k-2..2^k+2 to 2^%d", dense, top)
}

// deepPath gives a path of n elements of pattern k and a document that has it.
func deepPath(n, k int) []pel {
	p := make([]pel, n)
	for i := range p {
		switch {
		case k == 0, k == 2 && i%2 == 0, k == 3 && i%3 != 0, k == 4 && i < n/2:
			p[i] = pk(fmt.Sprintf("k%d", i%7))
		default:
			p[i] = pi(0)
		}
	}
	return p
}

func init() {
	scale["C01"] = func(r *Run) {
		sz := sizes(r.Pick(140, 600), r.Pick(13, 17))
		r.Par("long blanks", "blank runs of "+sizesText(r.Pick(140, 600), r.Pick(13, 17))+" in every gap of a document", len(sz), func(c *C, sh int) {
			n := sz[sh]
			toks := []string{"{", `"a"`, ":", "[", "1", ",", `"\u00e9"`, ",", "{", "}", "]", ",", `"b"`, ":", "-0.5e1", "}"}
			w := vObj("a", vArr(vNum("1"), vStr("é"), &Val{K: KObj}), "b", vNum("-0.5e1"))
			for gap := 0; gap <= len(toks); gap++ {
				for _, b := range []string{" ", "\t", "\n", "\r", " \t\r\n"} {
					t := []byte(strings.Join(toks[:gap], "") + pattern(b, n) + strings.Join(toks[gap:], ""))
					c.Do(func() string { return fmt.Sprintf("%d blanks %q in gap %d", n, b, gap) }, func() { acceptAll(c, t, w, entries[:3]) })
				}
			}
		})
	}

	scale["C02"] = func(r *Run) {
		d, top := r.Pick(140, 400), r.Pick(12, 15)
		sz := sizes(d, top)
		r.Par("sizes", "a defect after n members, characters, digits, blanks or levels, n in "+sizesText(d, top), len(sz), func(c *C, sh int) {
			n := sz[sh]
			es := entries[:4]
			if n < 20 {
				es = entries
			}
			try := func(parts ...string) {
				t := []byte(strings.Join(parts, ""))
				c.Do(func() string { return clip(fmt.Sprintf("n=%d: %q", n, t), 600) }, func() { judge(c, t, es) })
			}
			one := strings.Repeat("1,", n)
			strs := strings.Repeat(`"ab",`, n)
			var mem strings.Builder
			for i := 0; i < n; i++ {
				fmt.Fprintf(&mem, `"k%d":%d,`, i, i)
			}
			obj := mem.String()
			for _, bad := range []string{"", "x", "tru", "01", "}", ":1", `"`, `"\x"`, "-", "1.", "1e", "nulL", "1]1", "1]]", "1] x", "{", "[", `"a":1`} {
				try("[", one, bad)
				try("[", one, bad, "]")
				try("[", strs, bad, "]")
				try(`{"x":[`, one, bad, `]}`)
			}
			for _, bad := range []string{"", "x", `"a"`, `"a":`, `"a" 1`, `"a":tru`, `"a":1]`, `"a":1}}`, `"a":1} 1`, `a:1`, `1:1`, `"a"::1`, `:1`, `"a":1,"b`, `"a":"\u12"`, `"a":[`, `"a":{`} {
				try("{", obj, bad)
				try("{", obj, bad, "}")
				try("[{", obj, bad, "}]")
			}
			for _, u := range []string{"a", "é", "😀", `\n`, `\u00e9`, `\ud83d\ude00`, `\\`} {
				s := strings.Repeat(u, n)
				for _, bad := range []string{`"`, `\"`, `\`, `\x"`, `\u12"`, `\ud83d"`, "\x80\"", "\xc3\"", "\xff\"", `\udc00"`, `\u00g0"`, `" "`, `"1`} {
					try(`"`, s, strings.TrimSuffix(bad, `"`))
					try(`["`, s, bad, `]`)
					try(`{"`, s, bad, `:1}`)
					try(`{"k":"`, s, bad, `}`)
				}
			}
			if n > 0 {
				dg := strings.Repeat("7", n)
				for _, bad := range []string{"x", ".", "e", "e+", "-", "..5", "e5.", "e5e", "+", ".5.5", "0x", "_1", ",", "]"} {
					try("0.", dg, bad)
					try("[0.", dg, bad, "]")
					try("[-1e-", dg, bad)
					try(strings.Repeat(" ", n), "1", strings.Repeat(" ", n), bad)
					try("[1]", strings.Repeat("\n", n), bad)
				}
				try("[0", dg, "]")
				try("-0", dg)
			}
			if n <= 5000 {
				for _, bad := range []string{"", "x", "}", "]", "1", ":", `"`, "tru"} {
					try(strings.Repeat("[", n), bad, strings.Repeat("]", n))
					try(strings.Repeat(`{"a":`, n), bad, strings.Repeat("}", n))
					try(strings.Repeat("[", n), "1", strings.Repeat("]", n), bad)
					try(strings.Repeat(`[{"a":`, n), "1", strings.Repeat("}]", n), bad)
				}
			}
		})
	}

	scale["C07"] = func(r *Run) {
		d, top := r.Pick(140, 300), r.Pick(13, 17)
		sz := sizes(d, top)
		r.Par("long sequences", "key sequences of "+sizesText(d, top)+" keys x objects of all, half, none of them and of others", len(sz), func(c *C, sh int) {
			n := sz[sh]
			seq := make([]string, n)
			for i := range seq {
				seq[i] = fmt.Sprintf("k%d", (i*7919)%(n|1))
			}
			if n%2 == 0 { // i*7919 mod n+1 never lists one of the n+1 numbers twice
				for i := range seq {
					seq[i] = fmt.Sprintf("k%d", (i*7919)%(n+1))
				}
			}
			for kind := 0; kind < 4; kind++ {
				w := &Val{K: KObj}
				for i := 0; i < n; i++ {
					j := (i*31 + n/2) % n
					switch kind {
					case 0:
						w.O = append(w.O, Member{fmt.Sprintf("k%d", i), vNum(fmt.Sprint(i))})
					case 1:
						if j%2 == 0 || j > n-3 {
							w.O = append(w.O, Member{fmt.Sprintf("k%d", j), vNum("1")}, Member{fmt.Sprintf("o%d", i), vNum("2")})
						}
					case 2:
						if i < 40 {
							w.O = append(w.O, Member{fmt.Sprintf("x%d", i), vNum("1")})
						}
					case 3: // nothing but the last and first of the sequence
						if i == n-1 || i == 0 || i == n/2 {
							w.O = append(w.O, Member{seq[i], vNum("1")}, Member{fmt.Sprintf("y%d", i), vNum("1")})
						}
					}
				}
				uniq := map[string]bool{}
				o := w.O[:0]
				for _, m := range w.O {
					if !uniq[m.K] {
						uniq[m.K] = true
						o = append(o, m)
					}
				}
				w.O = o
				ru := orderRule{fmt.Sprintf("sequence of %d keys", n), []jsonvalue.Option{jsonvalue.OptKeySequence(seq)}, seqLess(seq)}
				doc := w
				if kind == 1 {
					doc = vArr(w, vObj("n", w.clone()))
				}
				v := build(doc)
				c.Do(func() string { return fmt.Sprintf("%s on objects of kind %d", ru.name, kind) }, func() { ru.check(c, v, doc) })
			}
		})
		ls := sizes(r.Pick(300, 1000), r.Pick(12, 14))
		r.Par("long keys", "objects of 5 keys that differ in one character after a common prefix of each length x rules", len(ls), func(c *C, sh int) {
			p := pattern("key", ls[sh])
			w := &Val{K: KObj}
			for _, k := range []string{"b", "", "aa", "é", "a", "\x00"} {
				w.O = append(w.O, Member{p + k, vStr(k)})
			}
			v := build(w)
			rules := basicRules()
			rules = append(rules, orderRule{"sequence of long keys", []jsonvalue.Option{jsonvalue.OptKeySequence([]string{p + "é", p + "a"})}, seqLess([]string{p + "é", p + "a"})})
			for i := range rules {
				c.Do(func() string { return fmt.Sprintf("common prefix of %d: %s", ls[sh], rules[i].name) }, func() { rules[i].check(c, v, w) })
			}
		})
		dp := sizes(r.Pick(140, 300), r.Pick(9, 11))
		r.Par("deep", "objects of 3 keys at the bottom of chains of each depth x rules", len(dp), func(c *C, sh int) {
			for k := 0; k < 3; k++ {
				w := vObj("b", vNum("1"), "a", vNum("2"), "c", vNum("3"))
				for i := 0; i < dp[sh]; i++ {
					if k == 0 || k == 2 && i%2 == 0 {
						w = vObj("z", vNum("0"), "m", w, "a", vNull())
					} else {
						w = vArr(vNum("0"), w)
					}
				}
				v := build(w)
				for i, ru := range basicRules() {
					if i == 1 || i == 4 {
						continue
					}
					c.Do(func() string { return fmt.Sprintf("depth %d kind %d: %s", dp[sh], k, ru.name) }, func() { ru.check(c, v, w) })
				}
			}
		})
	}

	scale["C08"] = func(r *Run) {
		dp := sizes(r.Pick(70, 200), r.Pick(10, 11))
		r.Par("deep paths", "paths of each length in "+sizesText(r.Pick(70, 200), r.Pick(10, 11))+" and 5 patterns: created, set again, appended to, inserted into, deleted", len(dp), func(c *C, sh int) {
			n := dp[sh]
			if n == 0 {
				return
			}
			for k := 0; k < 5; k++ {
				p := deepPath(n, k)
				with := func(tail ...pel) []pel { return append(append([]pel{}, p...), tail...) }
				hist := [][]*mutOp{
					{{kind: 's', path: p}, {kind: 's', path: p, child: 1}, {kind: 'd', path: p}, {kind: 'd', path: p}, {kind: 'e', path: p}, {kind: 'b', path: p, child: 1}, {kind: 'i', path: with(pi(0))},
						{kind: 'j', path: with(pi(-1)), child: 2}, {kind: 'd', path: with(pi(1))}, {kind: 's', path: with(pi(-1), pk("x")), child: 4}, {kind: 's', path: with(pi(7)), child: 1}},
					{{kind: 'b', path: p}, {kind: 'e', path: p}, {kind: 's', path: with(pi(2)), child: 4}, {kind: 's', path: with(pi(2), pk("a"), pi(2))}, {kind: 's', path: with(pi(2), pk("a"), pi(9))}, {kind: 'd', path: p[:1]}},
					{{kind: 's', path: p, child: 9}, {kind: 's', path: p, child: 7}, {kind: 'e', path: p, child: 9}, {kind: 's', path: with(pi(1)), child: 0}, {kind: 's', path: p, child: 3}, {kind: 'e', path: with(pk("q"))}},
				}
				if n > 1 {
					hist = append(hist, []*mutOp{{kind: 's', path: p, child: 4}, {kind: 's', path: append(append([]pel{}, p[:n/2]...), pel{str: true, s: "other"})}, {kind: 's', path: append(append([]pel{}, p[:n/2]...), pi(1))}, {kind: 'd', path: p[:n/2+1]}})
				}
				for _, doc := range []string{"{}", "[]"} {
					for _, h := range hist {
						c.Do(func() string { return fmt.Sprintf("%s: %s", doc, clip(opsStr(h), 600)) }, func() {
							w, _ := refParseAny([]byte(doc))
							v := build(w)
							for _, o := range h {
								o.verify(c, v, w)
							}
						})
					}
				}
			}
		})
		sz := sizes(r.Pick(140, 600), r.Pick(12, 13))
		r.Par("wide", "arrays and objects of each size in "+sizesText(r.Pick(140, 600), r.Pick(12, 13))+": changes at the ends, the middle and past the end", len(sz), func(c *C, sh int) {
			n := sz[sh]
			mk := func(arr bool) *Val {
				w := &Val{K: KObj}
				if arr {
					w.K = KArr
				}
				for i := 0; i < n; i++ {
					if arr {
						w.A = append(w.A, vNum(fmt.Sprint(i)))
					} else {
						w.O = append(w.O, Member{fmt.Sprintf("k%d", i), vNum(fmt.Sprint(i))})
					}
				}
				return w
			}
			var pos []int
			for _, p := range []int{0, 1, n / 2, n - 1, n, n + 1, -1, -n, -n - 1} {
				pos = append(pos, p)
			}
			for way := 0; way < 2; way++ {
				for _, a := range pos {
					for _, k := range []byte("sijd") {
						for _, k2 := range []byte("beijd") {
							h := []*mutOp{{kind: k, path: []pel{pi(a)}, class: true}, {kind: k2, path: []pel{pi(-a)}}, {kind: 's', path: []pel{pi(n)}, child: 1}}
							if k2 == 'b' || k2 == 'e' {
								h[1].path = nil
							}
							if n > 300 && k2 != 'd' && k2 != 'e' {
								continue
							}
							c.Do(func() string { return fmt.Sprintf("array of %d: %s", n, opsStr(h)) }, func() {
								w := mk(true)
								v := build(w)
								if way == 1 {
									v = jsonvalue.MustUnmarshalString(w.jsonText())
								}
								for _, o := range h {
									o.verify(c, v, w)
								}
							})
						}
					}
				}
				for _, a := range pos {
					h := []*mutOp{{kind: 's', path: []pel{pk(fmt.Sprintf("k%d", a))}, child: 1}, {kind: 'd', path: []pel{pk("k1")}}, {kind: 'd', path: []pel{pk(fmt.Sprintf("k%d", a))}}, {kind: 'e', path: []pel{pk("new")}}, {kind: 's', path: []pel{pk("k0"), pk("x")}}}
					c.Do(func() string { return fmt.Sprintf("object of %d: %s", n, opsStr(h)) }, func() {
						w := mk(false)
						v := build(w)
						if way == 1 {
							v = jsonvalue.MustUnmarshalString(w.jsonText())
						}
						for _, o := range h {
							o.verify(c, v, w)
						}
					})
				}
			}
		})
		long := r.Pick(1100, 5000)
		grow := []string{"ee", "bb", "eb", "eed", "ebd", "si", "ij", "eej", "beD", "sssd", "eeeedD", "iiD"}
		r.Par("long histories", fmt.Sprintf("%d patterns of calls repeated to %d calls on one array, at the top and as a member, compared after every call to 140 and around powers of two", len(grow), long), len(grow)*2, func(c *C, sh int) {
			g, below := grow[sh/2], sh%2 == 1
			c.Do(func() string { return fmt.Sprintf("%s repeated, member %v", g, below) }, func() {
				w := vArr()
				doc := w
				v := jsonvalue.NewArray()
				root := v
				var pre []pel
				if below {
					doc = vObj("a", w)
					root = jsonvalue.NewObject()
					root.MustSet(v).At("a")
					pre = []pel{pk("a")}
				}
				for i := 0; i < long; i++ {
					n := len(w.A)
					o := &mutOp{kind: g[i%len(g)], child: i % 2}
					switch o.kind {
					case 'e', 'b':
						o.path = pre
					case 'D':
						o.kind, o.path = 'd', append(append([]pel{}, pre...), pi(-1))
					case 'd':
						o.path = append(append([]pel{}, pre...), pi(n/3))
					case 's':
						o.path = append(append([]pel{}, pre...), pi(n))
					default:
						o.path = append(append([]pel{}, pre...), pi(n/2))
						if n == 0 {
							o.kind, o.path = 'e', pre
						}
					}
					if i < 140 || i&(i-1) == 0 || i&(i+1) == 0 || i == long-1 {
						o.verify(c, root, doc)
					} else {
						if m, _ := o.model(doc); m != mOK {
							panic("internal: " + o.String())
						}
						if _, _, err := o.real(root); err != nil {
							c.Fail("call %d, %s fails: %v", i, o, err)
						}
					}
					c.Step(1)
					c.Alive()
				}
			})
		})
	}

	scale["C09"] = func(r *Run) {
		dp := sizes(r.Pick(140, 300), r.Pick(11, 12))
		r.Par("deep paths", "paths of each length in "+sizesText(r.Pick(140, 300), r.Pick(11, 12))+", existing and missing at the end, in the middle and at the start x parameter containers", len(dp), func(c *C, sh int) {
			n := dp[sh]
			if n == 0 {
				return
			}
			for k := 0; k < 5; k++ {
				p := deepPath(n, k)
				w := vStr("bottom")
				for i := n - 1; i >= 0; i-- {
					if p[i].str {
						w = vObj(p[i].s, w)
					} else {
						w = vArr(w)
					}
				}
				v := build(w)
				alts := [][]pel{p}
				for _, at := range []int{0, n / 2, n - 1} {
					for _, x := range []pel{pk("zz"), pi(1), pi(-1), pi(-2)} {
						q := append([]pel{}, p...)
						q[at] = x
						alts = append(alts, q)
					}
				}
				alts = append(alts, append(append([]pel{}, p...), pi(0)))
				for _, q := range alts {
					for ct := 0; ct < nContainers; ct++ {
						if n > 40 && ct > 1 && ct != 3 {
							continue
						}
						pa, ok := contain(pathAny(q), ct)
						if !ok {
							continue
						}
						c.Do(func() string { return clip(fmt.Sprintf("path %s in container %d", pathStr(q), ct), 600) }, func() { readAt(c, v, w, q, pa) })
					}
				}
			}
		})
		ks := sizes(r.Pick(300, 1000), r.Pick(13, 17))
		r.Par("long keys", "keys of each length, and the same with the first, middle or last character changed or missing", len(ks), func(c *C, sh int) {
			n := ks[sh]
			if n == 0 {
				return
			}
			for _, u := range []string{"a", "é", "abcdefghijklmnopqrstuvwxyz"} {
				key := pattern(u, n)
				w := vObj(key, vNum("1"), key+"x", vNum("2"), key[1:]+"y", vArr(vStr("e")))
				v := build(w)
				rs := []rune(key)
				paths := [][]pel{{pk(key)}, {pk(key + "x")}, {pk(string(rs[1:]))}, {pk(string(rs[:n-1]))}, {pk(key + "z")}, {pk(key + " ")}, {pk(key[1:] + "y"), pi(0)}, {pk(strings.ToUpper(key[:1]) + key[1:] + "q")}}
				for _, at := range []int{0, n / 2, n - 1} {
					q := append([]rune{}, rs...)
					q[at] = 'Q'
					paths = append(paths, []pel{pk(string(q))})
				}
				for _, q := range paths {
					c.Do(func() string { return clip(fmt.Sprintf("key of %d characters, path %s", n, pathStr(q)), 600) }, func() { readAt(c, v, w, q, pathAny(q)) })
				}
			}
		})
	}
}
