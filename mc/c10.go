package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"unicode"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

func init() { checks["C10"] = c10 }

// caselessAllowed gives the keys a caseless request may be answered with.
func caselessAllowed(cur map[string]int, req string) (out []string) {
	if _, ok := cur[req]; ok {
		return []string{req}
	}
	for k := range cur {
		if strings.ToLower(k) == strings.ToLower(req) {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return
}

// caseless gives a handle made anew, or, where handles are kept, the one made first.
func (c *C) caseless(v *jsonvalue.V) jsonvalue.Caseless {
	if c.kept == nil {
		return v.Caseless()
	}
	h := c.kept[v]
	if h == nil {
		h = v.Caseless()
		c.kept[v] = h
	}
	return h
}

type clOp struct {
	kind byte // s set, m set below, p append below, d delete, g caseless get, x caseless delete, c copy, u decode again
	key  string
}

func (o clOp) String() string {
	return map[byte]string{'s': "Set(n).At", 'm': "Set(n).At(.,z)", 'p': "Append(n).InTheEnd", 'd': "Delete", 'g': "Caseless.Get", 'x': "Caseless.Delete", 'c': "Import copy", 'u': "UnmarshalJSON own text"}[o.kind] + fmt.Sprintf("(%q)", o.key)
}

// apply performs the call on v (possibly replacing it) and updates the model cur: key -> number carried by the value.
func (o clOp) apply(c *C, v *jsonvalue.V, cur map[string]int, n int) *jsonvalue.V {
	has := func(k string) bool { _, ok := cur[k]; return ok }
	switch o.kind {
	case 's':
		if _, err := v.Set(n).At(o.key); err != nil {
			c.Fail("%s fails: %v", o, err)
		}
		cur[o.key] = n
	case 'm':
		_, err := v.Set(n).At(o.key, "z")
		if has(o.key) {
			if err == nil && cur[o.key] < 1000 {
				c.Fail("%s below a number succeeds", o)
			}
			if cur[o.key] >= 1000 && cur[o.key] < 2000 {
				cur[o.key] = 1000 + n
			}
		} else {
			if err != nil {
				c.Fail("%s fails: %v", o, err)
			}
			cur[o.key] = 1000 + n
		}
	case 'p':
		_, err := v.Append(n).InTheEnd(o.key)
		if !has(o.key) {
			if err != nil {
				c.Fail("%s fails: %v", o, err)
			}
			cur[o.key] = 2000 + n
		}
	case 'd':
		if err := v.Delete(o.key); (err == nil) != has(o.key) {
			c.Fail("%s: error %v, key present %v", o, err, has(o.key))
		}
		delete(cur, o.key)
	case 'g':
		o.lookup(c, v, cur)
	case 'x':
		al := caselessAllowed(cur, o.key)
		err := c.caseless(v).Delete(o.key)
		if (err == nil) != (len(al) > 0) {
			c.Fail("%s: error %v, keys are %v", o, err, cur)
		}
		gone := 0
		v0 := v.ForRangeObj()
		for _, k := range al {
			if _, ok := v0[k]; !ok {
				gone++
				delete(cur, k)
			}
		}
		if len(al) > 0 && gone != 1 {
			c.Fail("%s removed %d of %q", o, gone, al)
		}
	case 'c':
		v = jsonvalue.New(v)
	case 'u':
		if err := v.UnmarshalJSON([]byte(v.MustMarshalString())); err != nil {
			c.Fail("decoding the own text again fails: %v", err)
		}
	}
	return v
}

func carried(x *jsonvalue.V) int {
	switch x.ValueType() {
	case jsonvalue.Number:
		return x.Int()
	case jsonvalue.Object:
		return 1000 + x.MustGet("z").Int()
	case jsonvalue.Array:
		return 2000 + x.MustGet(0).Int()
	}
	return -1
}

func (o clOp) lookup(c *C, v *jsonvalue.V, cur map[string]int) {
	al := caselessAllowed(cur, o.key)
	x, err := c.caseless(v).Get(o.key)
	if len(al) == 0 {
		if err == nil || x == nil || x.ValueType() != jsonvalue.NotExist {
			c.Fail("Caseless.Get(%q) returns %s, %v; keys are %v", o.key, x, err, cur)
		}
		errClass(c, o.String(), mNotFound, err)
		return
	}
	if err != nil {
		c.Fail("Caseless.Get(%q) fails: %v; keys are %v", o.key, err, cur)
	}
	for _, k := range al {
		if carried(x) == cur[k] {
			if exact, err := v.Get(k); err != nil || exact != x {
				c.Fail("Caseless.Get(%q) returns another value than Get(%q)", o.key, k)
			}
			return
		}
	}
	c.Fail("Caseless.Get(%q) returns %s; keys are %v", o.key, read(x), cur)
}

// exact compares everything reported without caseless access.
func clExact(c *C, v *jsonvalue.V, cur map[string]int, when string, keys []string) {
	if v.Len() != len(cur) {
		c.Fail("%s: length %d, should be %d", when, v.Len(), len(cur))
	}
	n := 0
	v.RangeObjects(func(k string, x *jsonvalue.V) bool {
		n++
		if m, ok := cur[k]; !ok || m != carried(x) {
			c.Fail("%s: iteration gives %q: %s; should be %v", when, k, read(x), cur)
		}
		return true
	})
	if n != len(cur) {
		c.Fail("%s: iteration visits %d members of %d", when, n, len(cur))
	}
	for _, k := range keys {
		x, err := v.Get(k)
		if m, ok := cur[k]; ok != (err == nil) || (ok && m != carried(x)) {
			c.Fail("%s: Get(%q) gives %s, %v; should be %v", when, k, read(x), err, cur)
		}
	}
	w, _, err := refParse([]byte(v.MustMarshalString()), false)
	if err != nil || len(w.O) != len(cur) {
		c.Fail("%s: marshalled text %s; should be %v", when, v.MustMarshalString(), cur)
	}
	for _, m := range w.O {
		if _, ok := cur[m.K]; !ok {
			c.Fail("%s: marshalled text has key %q; should be %v", when, m.K, cur)
		}
	}
}

func c10(r *Run) {
	r.Assume("lower-case form as of strings.ToLower; keys are valid UTF-8")
	kept := false
	history := func(name string, keys []string, kinds string, depth int, orders int) {
		kept := kept
		if kept {
			name += ", handle kept"
		}
		var ops []clOp
		for _, k := range kinds {
			if k == 'c' || k == 'u' {
				ops = append(ops, clOp{byte(k), ""})
				continue
			}
			for _, key := range keys {
				ops = append(ops, clOp{byte(k), key})
			}
		}
		ask := append([]string{}, keys...)
		for _, k := range keys {
			for _, x := range []string{strings.ToLower(k), strings.ToUpper(k)} {
				dup := false
				for _, y := range ask {
					dup = dup || x == y
				}
				if !dup {
					ask = append(ask, x)
				}
			}
		}
		r.Par(name, fmt.Sprintf("all histories of 1-%d calls from %d (%s over %q), map iteration orders of caseless answers enumerated", depth, len(ops), kinds, keys), len(ops)*len(ops), func(c *C, sh int) {
			first, second := sh/len(ops), sh%len(ops)
			var hist []clOp
			one := func(madeAt int) {
				c.Step(len(hist))
				c.Do(func() string {
					if kept {
						return fmt.Sprintf("%v, handle made before call %d", hist, madeAt+1)
					}
					return fmt.Sprint(hist)
				}, func() {
					body := func() {
						v := jsonvalue.NewObject()
						cur := map[string]int{}
						c.kept = nil
						defer func() { c.kept = nil }()
						for i, o := range hist {
							if kept && i == madeAt {
								c.kept = map[*jsonvalue.V]jsonvalue.Caseless{}
								c.caseless(v)
							}
							v = o.apply(c, v, cur, i+1)
						}
						c.State(hashStr(fmt.Sprint(cur)))
						clExact(c, v, cur, "after the history", keys)
						before := v.MustMarshalString(jsonvalue.OptSetSequence())
						for _, k := range ask {
							clOp{'g', k}.lookup(c, v, cur)
						}
						clExact(c, v, cur, "after caseless lookups", keys)
						if s := v.MustMarshalString(jsonvalue.OptSetSequence()); s != before {
							c.Fail("caseless lookups turned %s into %s", before, s)
						}
					}
					if orders > 0 {
						c.Orders(orders, body)
					} else {
						body()
					}
				})
			}
			run := func() {
				if !kept {
					one(0)
					return
				}
				for madeAt := range hist {
					one(madeAt)
				}
			}
			var rec func()
			rec = func() {
				if c.Expired() {
					return
				}
				run()
				if len(hist) == depth {
					return
				}
				for i, o := range ops {
					if len(hist) == 1 && i != second {
						continue
					}
					hist = append(hist, o)
					rec()
					hist = hist[:len(hist)-1]
				}
			}
			hist = []clOp{ops[first]}
			if second == 0 {
				rec()
			} else {
				hist = append(hist, ops[second])
				rec()
			}
		})
	}
	history("two spellings", []string{"k", "K"}, "sdgxmcu", r.Pick(5, 6), 24)
	history("three spellings", []string{"aB", "Ab", "AB"}, "sdgx", r.Pick(5, 6), 24)
	history("two keys, two spellings", []string{"k", "K", "x", "X"}, "sdgx", r.Pick(4, 5), 24)
	history("unusual folding", []string{"\u212a", "k", "ß", "ẞ", ""}, "sxg", r.Pick(4, 5), 24)
	history("other ways to set", []string{"k", "K"}, "smpgxcu", r.Pick(4, 5), 24)
	kept = true
	history("two spellings", []string{"k", "K"}, "sdgxcu", r.Pick(4, 5), 24)
	history("two keys, two spellings", []string{"k", "K", "x", "X"}, "sdgx", r.Pick(4, 5), 24)
	history("other ways to set", []string{"k", "K"}, "smpgxcu", r.Pick(4, 4), 24)

	// two objects, one a copy of the other, both go on
	{
		keys := []string{"k", "K"}
		type sideOp struct {
			side int // 2, 3: copy 0 to 1 or back, in several ways
			op   clOp
		}
		var ops []sideOp
		for side := 0; side < 2; side++ {
			for _, k := range "sdgx" {
				for _, key := range keys {
					ops = append(ops, sideOp{side, clOp{byte(k), key}})
				}
			}
		}
		ops = append(ops, sideOp{2, clOp{}}, sideOp{3, clOp{}})
		ways := []func(v *jsonvalue.V) *jsonvalue.V{
			func(v *jsonvalue.V) *jsonvalue.V { return jsonvalue.New(v) },
			func(v *jsonvalue.V) *jsonvalue.V {
				x, _ := jsonvalue.Import(map[string]any{"a": []any{v}})
				return x.MustGet("a", 0)
			},
			func(v *jsonvalue.V) *jsonvalue.V { return jsonvalue.MustUnmarshalString(v.MustMarshalString()) },
		}
		depth := r.Pick(4, 5)
		r.Par("original and copy", fmt.Sprintf("all histories of %d calls from %d on an object and a copy of it (copied in %d ways, before or after caseless access, again in either direction)", depth, len(ops), len(ways)), len(ops)*len(ops)*len(ways)*2, func(c *C, sh int) {
			way, touched := ways[sh%len(ways)], sh/len(ways)%2 == 1
			sh /= 2 * len(ways)
			hist := []sideOp{ops[sh/len(ops)], ops[sh%len(ops)]}
			run := func() {
				c.Step(len(hist))
				c.Do(func() string { return fmt.Sprint(hist) }, func() {
					vs := [2]*jsonvalue.V{jsonvalue.NewObject()}
					vs[0].MustSet(1).At("k")
					vs[0].MustSet(2).At("x")
					if touched {
						touchCaseless(vs[0])
					}
					vs[1] = way(vs[0])
					curs := [2]map[string]int{{"k": 1, "x": 2}, {"k": 1, "x": 2}}
					for i, o := range hist {
						if o.side < 2 {
							o.op.apply(c, vs[o.side], curs[o.side], i+3)
							continue
						}
						from, to := o.side-2, 3-o.side
						vs[to] = way(vs[from])
						curs[to] = map[string]int{}
						for k, n := range curs[from] {
							curs[to][k] = n
						}
					}
					for i := range vs {
						clExact(c, vs[i], curs[i], "after the history", keys)
						for _, k := range []string{"k", "K", "X"} {
							clOp{'g', k}.lookup(c, vs[i], curs[i])
						}
					}
					clOp{'x', "X"}.apply(c, vs[0], curs[0], 0)
					clOp{'g', "X"}.lookup(c, vs[1], curs[1])
				})
			}
			var rec func()
			rec = func() {
				if len(hist) == depth {
					run()
					return
				}
				if c.Expired() {
					return
				}
				for _, o := range ops {
					hist = append(hist, o)
					rec()
					hist = hist[:len(hist)-1]
				}
			}
			rec()
		})
	}
	// larger objects
	r.Par("many spellings", "objects holding any subset of the 16 spellings of a 4-letter key plus 3 others x every request spelling, lookup and delete", 64, func(c *C, sh int) {
		sp := make([]string, 16)
		for i := range sp {
			b := []byte("word")
			for j := range b {
				if i&(1<<j) != 0 {
					b[j] -= 32
				}
			}
			sp[i] = string(b)
		}
		for m := sh; m < 1<<16; m += 64 {
			c.Do(func() string { return fmt.Sprintf("spelling set %016b", m) }, func() {
				v := jsonvalue.NewObject()
				cur := map[string]int{}
				for i, k := range append(append([]string{}, sp...), "wor", "words", "Wörd") {
					if i >= 16 || m&(1<<i) != 0 {
						v.MustSet(i).At(k)
						cur[k] = i
					}
				}
				for _, k := range sp {
					clOp{'g', k}.lookup(c, v, cur)
				}
				for i := range sp {
					clOp{'x', sp[(i*7+m)%16]}.apply(c, v, cur, 0)
				}
				clExact(c, v, cur, "after caseless deletes", sp)
			})
		}
	})
	// every character
	r.Par("characters", "every Unicode scalar value as a key (alone and inside x_y) x requests by itself, its lower/upper/title form and its folding orbit", 64, func(c *C, sh int) {
		for ru := rune(sh); ru <= unicode.MaxRune; ru += 64 {
			if ru >= 0xd800 && ru < 0xe000 {
				continue
			}
			req := map[rune]bool{ru: true, unicode.ToLower(ru): true, unicode.ToUpper(ru): true, unicode.ToTitle(ru): true, ru + 1: ru+1 < 0xd800}
			for f := unicode.SimpleFold(ru); f != ru; f = unicode.SimpleFold(f) {
				req[f] = true
			}
			for _, pre := range []string{"", "x"} {
				key := pre + string(ru) + pre
				c.Do(func() string { return fmt.Sprintf("key %q", key) }, func() {
					v := jsonvalue.NewObject()
					v.MustSet(1).At(key)
					v.MustSet(2).At("other")
					cur := map[string]int{key: 1, "other": 2}
					for f, ok := range req {
						if ok {
							clOp{'g', pre + string(f) + pre}.lookup(c, v, cur)
							clOp{'g', strings.ToUpper(pre) + string(f) + pre}.lookup(c, v, cur)
						}
					}
				})
			}
		}
	})
	// nested paths
	texts := []string{`{"a":{"b":[1,{"C":2}]},"A":{"B":3,"c":4},"b":{"A":[5]}}`, `[{"A":{"a":1}},{"a":[{"B":2},{"b":3,"B":4}]}]`, `{"B":{"a":{"A":{"c":[9]}}}}`}
	el := []pel{pk("a"), pk("A"), pk("b"), pk("B"), pk("c"), pk("C"), pi(0), pi(1), pi(-1), pi(2)}
	var lookup func(w *Val, p []pel) []*Val
	lookup = func(w *Val, p []pel) []*Val { // nil: an error
		if len(p) == 0 {
			return []*Val{w}
		}
		switch {
		case w.K == KObj && p[0].str:
			if x := w.get(p[0].s); x != nil {
				return lookup(x, p[1:])
			}
			var out []*Val
			for _, m := range w.O {
				if strings.EqualFold(m.K, p[0].s) {
					out = append(out, lookup(m.V, p[1:])...)
				}
			}
			if out == nil {
				return []*Val{nil}
			}
			return out
		case w.K == KArr && !p[0].str:
			if i := w.idx(p[0].i); i >= 0 {
				return lookup(w.A[i], p[1:])
			}
		}
		return []*Val{nil}
	}
	r.Par("paths", fmt.Sprintf("all paths of 1-%d elements over %d spellings and indices x %d documents: caseless lookup and delete, all map iteration orders", r.Pick(4, 5), len(el), len(texts)), len(texts)*len(el), func(c *C, sh int) {
		text := texts[sh/len(el)]
		w, _, _ := refParse([]byte(text), false)
		for n := 0; n <= r.Pick(3, 4); n++ {
			for _, rest := range pathsOver(el, n) {
				p := append([]pel{el[sh%len(el)]}, rest...)
				pa := pathAny(p)
				want := lookup(w, p)
				if n > 1 {
					if x := lookup(w, p[:n]); len(x) == 1 && x[0] == nil {
						continue
					}
				}
				c.Do(func() string { return fmt.Sprintf("%s caseless at %s", text, pathStr(p)) }, func() {
					c.Orders(100, func() {
						v := jsonvalue.MustUnmarshalString(text)
						x, err := v.Caseless().Get(pa[0], pa[1:]...)
						ok := false
						for _, y := range want {
							ok = ok || (y == nil && err != nil && x.ValueType() == jsonvalue.NotExist) || (y != nil && err == nil && sameContent(y, read(x)))
						}
						if !ok {
							c.Fail("caseless Get gives %s, %v", read(x), err)
						}
						if d := diff(w, v, "$"); d != "" {
							c.Fail("caseless Get changed the document: %s", d)
						}
						x, err = v.Caseless().Get(pa[0], pa[1:]...)
						_ = x
						has := err == nil
						err = v.Caseless().Delete(pa[0], pa[1:]...)
						if !(len(want) > 1) && has != (err == nil) {
							c.Fail("caseless Delete: %v, found before: %v", err, has)
						}
						got := read(v)
						removed := w.nodes() - got.nodes()
						if err != nil && removed != 0 {
							c.Fail("failed caseless Delete changed the document to %s", got)
						}
						if err == nil {
							ok := false
							for _, y := range want {
								ok = ok || (y != nil && removed == y.nodes())
							}
							if !ok {
								c.Fail("caseless Delete left %s", got)
							}
						}
					})
				})
			}
		}
	})
	// typed getters
	r.Par("typed getters", "every typed caseless getter x values of every type and spelling, present by another spelling: equal to the exact getter", 1, func(c *C, sh int) {
		vals := []string{`1`, `-1`, `1.5`, `18446744073709551615`, `"s"`, `"12"`, `"true"`, `""`, `"YWJj"`, `true`, `false`, `null`, `{}`, `[]`, `{"z":1}`, `[1]`, `"-3e2"`}
		names := []string{"Get", "MustGet", "GetBytes", "GetString", "GetInt", "GetUint", "GetInt64", "GetUint64", "GetInt32", "GetUint32", "GetFloat64", "GetFloat32", "GetBool", "GetNull", "GetObject", "GetArray"}
		for _, val := range vals {
			for _, req := range []struct {
				exact, cl []any
			}{{[]any{"Key"}, []any{"kEY"}}, {[]any{"Key"}, []any{"Key"}}, {[]any{"L", 0, "m"}, []any{"l", 0, "M"}}, {[]any{"no"}, []any{"NO"}}, {[]any{"L", 5}, []any{"l", 5}}} {
				for _, n := range names {
					c.Do(func() string { return fmt.Sprintf("%s of %s at %v", n, val, req.cl) }, func() {
						v := jsonvalue.MustUnmarshalString(`{"Key":` + val + `,"L":[{"m":` + val + `}],"z":0}`)
						call := func(recv any, p []any) []reflect.Value {
							var in []reflect.Value
							for _, x := range p {
								in = append(in, reflect.ValueOf(x))
							}
							return reflect.ValueOf(recv).MethodByName(n).Call(in)
						}
						show := func(out []reflect.Value) string {
							var s []string
							for _, o := range out {
								if x, ok := o.Interface().(*jsonvalue.V); ok {
									s = append(s, read(x).String())
								} else {
									s = append(s, fmt.Sprintf("%#v", o.Interface()))
								}
							}
							return strings.Join(s, ",")
						}
						a, b := show(call(v, req.exact)), show(call(v.Caseless(), req.cl))
						if a != b {
							c.Fail("caseless gives %s, exact gives %s", b, a)
						}
					})
				}
				c.Do(func() string { return fmt.Sprintf("MustDelete of %s at %v", val, req.cl) }, func() {
					mk := func() *jsonvalue.V {
						return jsonvalue.MustUnmarshalString(`{"Key":` + val + `,"L":[{"m":` + val + `}],"z":0}`)
					}
					a, b := mk(), mk()
					a.MustDelete(req.exact[0], req.exact[1:]...)
					b.Caseless().MustDelete(req.cl[0], req.cl[1:]...)
					if d := diff(read(a), b, "$"); d != "" {
						c.Fail("caseless MustDelete: %s", d)
					}
				})
			}
		}
	})
}
