package main

import (
	"fmt"
	"strings"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

func init() { checks["C06"] = c06 }

func c06(r *Run) {
	r.Assume("oracle: the option documentation spelled out in the reference writer (trees.go); decoding by the strict reference parser")
	type esc struct {
		st   escStyle
		opts []jsonvalue.Option
		name string
	}
	var es []esc
	for i := 0; i < 8; i++ {
		st, o := escOpts(i)
		es = append(es, esc{st, o, fmt.Sprintf("%+v", st)})
	}
	// explicit "on" forms and both orders must mean the same
	es = append(es,
		esc{escStyle{}, []jsonvalue.Option{jsonvalue.OptEscapeHTML(true), jsonvalue.OptEscapeSlash(true)}, "html on, slash on"},
		esc{escStyle{utf8: true, noHTML: true}, []jsonvalue.Option{jsonvalue.OptEscapeSlash(true), jsonvalue.OptEscapeHTML(false), jsonvalue.OptUTF8()}, "slash on, html off, utf8"},
		esc{escStyle{noSlash: true}, []jsonvalue.Option{jsonvalue.OptEscapeHTML(false), jsonvalue.OptEscapeSlash(false), jsonvalue.OptEscapeHTML(true)}, "html off then on, slash off"},
		esc{escStyle{noHTML: true}, []jsonvalue.Option{jsonvalue.OptEscapeSlash(false), jsonvalue.OptEscapeHTML(false), jsonvalue.OptEscapeSlash(true)}, "slash off then on, html off"})
	test := func(c *C, s string, e *esc, v *jsonvalue.V, w *Val) {
		b, err := v.Marshal(e.opts...)
		if err != nil {
			c.Fail("Marshal fails: %v", err)
		}
		if want := e.st.format(w); string(b) != want {
			c.Fail("output is %q, should be %q", b, want)
		}
		g, err := refParseAny(b)
		if err != nil || !sameContent(g, w) {
			c.Fail("output %q does not decode back (%v)", b, err)
		}
	}
	const per = 0x1000
	r.Par("code points", fmt.Sprintf("all 0x110000 code points x %d option lists x key and value, alone and with neighbours", len(es)), 0x110000/per, func(c *C, sh int) {
		for x := rune(sh * per); x < rune((sh+1)*per); x++ {
			if x >= 0xD800 && x <= 0xDFFF {
				continue
			}
			s := string(x)
			w := vArr(vObj(s, vStr(s)), vStr("a"+s+s+"/é"))
			v := build(w)
			c.State(uint64(x) * 0x9e3779b97f4a7c15)
			for i := range es {
				e := &es[i]
				c.Step(1)
				c.Do(func() string { return fmt.Sprintf("U+%04X with %s", x, e.name) }, func() { test(c, s, e, v, w) })
			}
		}
	})
	reps := []rune{0, 1, 7, 8, 9, 10, 11, 12, 13, 14, 0x1f, ' ', '"', '%', '&', '\'', '/', '0', '<', '=', '>', 'A', '\\', 'u', 0x7e, 0x7f, 0x80, 0x85, 0xa0, 0xe9, 0xff, 0x100, 0x7ff, 0x800,
		0x2027, 0x2028, 0x2029, 0x202a, 0x20ac, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x103ff, 0x10400, 0x1f600, 0x10fc00, 0x10ffff}
	n := r.Pick(2, 3)
	r.Par("words", fmt.Sprintf("all words of %d characters over %d class representatives x %d option lists", n, len(reps), len(es)), len(reps)*len(reps), func(c *C, sh int) {
		words := []string{string(reps[sh/len(reps)]) + string(reps[sh%len(reps)])}
		if n == 3 {
			p := words[0]
			words = nil
			for _, x := range reps {
				words = append(words, p+string(x))
			}
		}
		for _, s := range words {
			w := vObj(s, vStr(s))
			v := build(w)
			p := jsonvalue.MustUnmarshalString(w.jsonText())
			for i := range es {
				e := &es[i]
				c.Step(1)
				c.Do(func() string { return fmt.Sprintf("%q with %s", s, e.name) }, func() {
					test(c, s, e, v, w)
					test(c, s, e, p, w)
					c.Out(hashStr(s))
				})
			}
		}
	})
	r.Seq("lengths", "strings of each of 0..300 characters of 5 kinds x option lists", func(c *C) {
		for k := 0; k <= 300; k++ {
			for _, u := range []string{"x", "é", "😀", "/", "<"} {
				s := strings.Repeat(u, k)
				w := vObj(s+"k", vStr(s))
				v := build(w)
				for i := range es {
					e := &es[i]
					c.Do(func() string { return fmt.Sprintf("%d x %q with %s", k, u, e.name) }, func() { test(c, s, e, v, w) })
				}
			}
		}
	})
	maxRun := r.Pick(140, 520)
	after := []int{0, 1, 2, 3, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 62, 63, 64, 65}
	r.Par("runs", fmt.Sprintf("each class representative after a run of 0..%d characters of 4 kinds and before a run of one of %v and itself, x option lists", maxRun, after), len(reps)*4, func(c *C, sh int) {
		x, run := string(reps[sh/4]), []string{"abcdefghijk", "éñö", "a一b", "x😀y/<"}[sh%4]
		for n := 0; n <= maxRun; n++ {
			p := pattern(run, n) + x
			for k, m := range after {
				if m > 17 && n > 70 && !r.thorough {
					break
				}
				s := p + pattern(run, m)
				if k%2 == 0 {
					s += x
				}
				w := vObj(s, vStr(s))
				v := build(w)
				for i := (n + m) % 3; i < 8; i += 3 {
					e := &es[i]
					c.Step(1)
					c.Do(func() string { return fmt.Sprintf("%q with %s", s, e.name) }, func() { test(c, s, e, v, w) })
				}
			}
		}
	})
	top := r.Pick(14, 18)
	r.Par("long runs", fmt.Sprintf("each class representative after and before runs of 2^k-3..2^k+3 characters (k to %d), x option lists", top), len(reps)*(top-7), func(c *C, sh int) {
		x, k := string(reps[sh%len(reps)]), 8+sh/len(reps)
		for n := 1<<k - 3; n <= 1<<k+3; n++ {
			for _, s := range []string{pattern("abc", n) + x, x + pattern("é一", n) + x, strings.Repeat(x, n/8)} {
				w := vArr(vStr(s))
				v := build(w)
				for i := n % 2; i < 8; i += 2 {
					e := &es[i]
					c.Do(func() string { return fmt.Sprintf("%d.. %q with %s", n, x, e.name) }, func() { test(c, s, e, v, w) })
				}
			}
		}
	})
	// the mapped strings of special floats and every other option leave the escaping alone
	r.Seq("with other options", "every escaping list x order x indent x omit-null on one document with all special characters", func(c *C) {
		var sb strings.Builder
		for _, x := range reps {
			sb.WriteRune(x)
		}
		s := sb.String()
		w := vObj(s, vStr(s))
		v := build(w)
		for _, od := range orderOpts() {
			for _, omit := range []bool{false, true} {
				for i := range es {
					for front := 0; front < 2; front++ {
						e := es[i]
						extra := append(append([]jsonvalue.Option{}, od.opts...), jsonvalue.OptOmitNull(omit), jsonvalue.OptFloatNaNToNull())
						if front == 0 {
							e.opts = append(append([]jsonvalue.Option{}, extra...), e.opts...)
						} else {
							e.opts = append(append([]jsonvalue.Option{}, e.opts...), extra...)
						}
						c.Do(func() string { return fmt.Sprintf("%s order %s omitnull %v front %d", e.name, od.name, omit, front) }, func() { test(c, s, &e, v, w) })
					}
				}
			}
		}
	})
}
