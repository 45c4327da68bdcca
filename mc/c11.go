package main

import (
	"encoding/json"
	"fmt"
	"strings"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

func init() { checks["C11"] = c11 }

// seqText is the marshalled text in set sequence.
func seqText(c *C, v *jsonvalue.V) string {
	b, err := v.Marshal(jsonvalue.OptSetSequence())
	if err != nil {
		c.Fail("Marshal(OptSetSequence) fails: %v", err)
	}
	return string(b)
}

// checkSeq compares the set sequence of every object of v, by iteration and in the marshalled text.
func checkSeq(c *C, w *Val, v *jsonvalue.V, who string) {
	var rec func(w *Val, v *jsonvalue.V, path string)
	rec = func(w *Val, v *jsonvalue.V, path string) {
		switch w.K {
		case KObj:
			if d := seqDiff(w, v, path); d != "" {
				c.Fail("%s: %s", who, d)
			}
			i := 0
			v.RangeObjectsBySetSequence(func(k string, x *jsonvalue.V) bool { rec(w.O[i].V, x, path+"."+k); i++; return true })
		case KArr:
			if v.Len() != len(w.A) {
				c.Fail("%s: %s has %d elements, should have %d", who, path, v.Len(), len(w.A))
			}
			for i, x := range v.ForRangeArr() {
				rec(w.A[i], x, fmt.Sprintf("%s[%d]", path, i))
			}
		}
	}
	rec(w, v, "$")
	want := escStyle{}.format(w)
	if got := seqText(c, v); got != want {
		c.Fail("%s: marshalled in set sequence %s, should be %s", who, got, want)
	}
}

// doc11 is a pair of a real document and its model.
type doc11 struct {
	v *jsonvalue.V
	w *Val
}

type seqOp struct {
	name string
	do   func(c *C, d *[2]doc11, n int)
}

var copyWays = []struct {
	name string
	f    func(v *jsonvalue.V) *jsonvalue.V
}{
	{"New(v)", func(v *jsonvalue.V) *jsonvalue.V { return jsonvalue.New(v) }},
	{"Import(v)", func(v *jsonvalue.V) *jsonvalue.V { x, _ := jsonvalue.Import(v); return x }},
	{"Import(*v)", func(v *jsonvalue.V) *jsonvalue.V { x, _ := jsonvalue.Import(*v); return x }},
	{"Import([]*V{v})[0]", func(v *jsonvalue.V) *jsonvalue.V {
		x, _ := jsonvalue.Import([]*jsonvalue.V{v})
		return x.MustGet(0)
	}},
	{"Import(map{k:v}).k", func(v *jsonvalue.V) *jsonvalue.V {
		x, _ := jsonvalue.Import(map[string]*jsonvalue.V{"k": v})
		return x.MustGet("k")
	}},
	{"Import(struct{V}).V", func(v *jsonvalue.V) *jsonvalue.V {
		x, _ := jsonvalue.Import(struct{ V *jsonvalue.V }{v})
		return x.MustGet("V")
	}},
	{"Import(any)", func(v *jsonvalue.V) *jsonvalue.V { var a any = v; x, _ := jsonvalue.Import(&a); return x }},
}

func c11(r *Run) {
	setTo := func(t int, key string) seqOp {
		return seqOp{fmt.Sprintf("%c.Set(n).At(%q)", 'v'+t*2, key), func(c *C, d *[2]doc11, n int) {
			d[t].v.MustSet(n).At(key)
			d[t].w.del(key)
			d[t].w.set(key, vNum(fmt.Sprint(n)))
		}}
	}
	delFrom := func(t int, key string, caseless bool) seqOp {
		return seqOp{fmt.Sprintf("%c.Delete(%q) caseless=%v", 'v'+t*2, key, caseless), func(c *C, d *[2]doc11, n int) {
			if caseless {
				d[t].v.Caseless().MustDelete(strings.ToUpper(key))
			} else {
				d[t].v.MustDelete(key)
			}
			d[t].w.del(key)
		}}
	}
	copyOp := func(from, to int, way int) seqOp {
		return seqOp{fmt.Sprintf("%c = %s of %c", 'v'+to*2, copyWays[way].name, 'v'+from*2), func(c *C, d *[2]doc11, n int) {
			d[to] = doc11{copyWays[way].f(d[from].v), d[from].w.clone()}
		}}
	}
	reparse := func(t int) seqOp {
		return seqOp{fmt.Sprintf("%c.UnmarshalJSON(own text in set sequence)", 'v'+t*2), func(c *C, d *[2]doc11, n int) {
			if err := d[t].v.UnmarshalJSON([]byte(d[t].w.jsonText())); err != nil {
				c.Fail("%v", err)
			}
		}}
	}
	badSet := func(t int, key string) seqOp { // cannot be carried out: must not move the key
		return seqOp{fmt.Sprintf("failing calls at %c.%s", 'v'+t*2, key), func(c *C, d *[2]doc11, n int) {
			_, e1 := d[t].v.Set(make(chan int)).At(key)
			_, e2 := d[t].v.Set(1).At(key, "x", 5, "y")
			_, e3 := d[t].v.Set(1).At(key, 1.5)
			_, e4 := d[t].v.Append(1).InTheEnd(key, "x", 7)
			if e1 == nil || e2 == nil || e3 == nil || e4 == nil {
				c.Fail("calls that cannot be carried out succeed: %v %v %v %v", e1, e2, e3, e4)
			}
		}}
	}
	reads := func(t int) seqOp {
		return seqOp{fmt.Sprintf("reads of %c", 'v'+t*2), func(c *C, d *[2]doc11, n int) {
			v := d[t].v
			touchCaseless(v)
			v.RangeObjectsBySetSequence(func(string, *jsonvalue.V) bool { return false })
			_ = v.MustMarshal(jsonvalue.OptDefaultStringSequence())
			_ = v.MustMarshal(jsonvalue.OptKeySequence([]string{"b", "a"}))
			_ = v.String()
			_ = v.Equal(v)
			_ = v.ForRangeObj()
			v.MustGet("nokey")
		}}
	}
	histories := func(name string, ops []seqOp, depth int, starts []string) {
		r.Par(name, fmt.Sprintf("all histories of 1-%d calls from %d, %d starts, map iteration orders", depth, len(ops), len(starts)), len(ops)*len(ops), func(c *C, sh int) {
			first, second := sh/len(ops), sh%len(ops)
			var hist []int
			start := ""
			run := func() {
				c.Step(len(hist))
				c.Do(func() string {
					var s []string
					for _, i := range hist {
						s = append(s, ops[i].name)
					}
					return start + ": " + strings.Join(s, "; ")
				}, func() {
					once := true
					c.Orders(40, func() {
						w, _, _ := refParse([]byte(start), false)
						d := [2]doc11{{jsonvalue.MustUnmarshalString(start), w}}
						d[1] = doc11{jsonvalue.New(d[0].v), w.clone()}
						for i, o := range hist {
							ops[o].do(c, &d, i+1)
						}
						if once {
							c.State(hashStr(d[0].w.String() + "|" + d[1].w.String()))
							once = false
						}
						checkSeq(c, d[0].w, d[0].v, "v")
						checkSeq(c, d[1].w, d[1].v, "x")
					})
				})
			}
			var rec func()
			rec = func() {
				if c.Expired() {
					return
				}
				run()
				if len(hist) == depth {
					return
				}
				for i := range ops {
					if len(hist) == 1 && i != second {
						continue
					}
					hist = append(hist, i)
					rec()
					hist = hist[:len(hist)-1]
				}
			}
			for _, start = range starts {
				hist = []int{first}
				if second == 0 {
					rec()
				} else {
					hist = append(hist, second)
					rec()
				}
			}
		})
	}
	var one []seqOp
	for _, k := range []string{"a", "b", "c"} {
		one = append(one, setTo(0, k), delFrom(0, k, false))
	}
	again := func(key string) seqOp { // what is there already, set again
		return seqOp{fmt.Sprintf("v.Set(what is there, an equal one).At(%q)", key), func(c *C, d *[2]doc11, n int) {
			old, err := d[0].v.Get(key)
			if err != nil {
				return
			}
			if n%2 == 0 {
				old = jsonvalue.New(old)
			}
			d[0].v.MustSet(old).At(key)
			w := d[0].w.get(key)
			d[0].w.del(key)
			d[0].w.set(key, w)
		}}
	}
	one = append(one, again("a"), again("b"))
	one = append(one, delFrom(0, "b", true), reparse(0), badSet(0, "a"), reads(0), copyOp(0, 0, 0))
	histories("one object", one, r.Pick(4, 5), []string{`{}`, `{"c":1,"a":2,"c":3}`})
	two := []seqOp{setTo(0, "a"), setTo(0, "b"), setTo(1, "a"), setTo(1, "c"), delFrom(0, "a", false), delFrom(1, "b", false), copyOp(0, 1, 0), copyOp(1, 0, 1)}
	histories("original and copy", two, r.Pick(4, 5), []string{`{"b":1,"a":2}`})
	var ways []seqOp
	for i := range copyWays {
		ways = append(ways, copyOp(0, 1, i))
	}
	ways = append(ways, setTo(0, "a"), setTo(1, "a"), setTo(0, "z"), setTo(1, "y"), reparse(1), badSet(1, "z"))
	histories("ways of copying", ways, r.Pick(3, 4), []string{`{"b":1,"a":2,"q":[{"y":1,"x":{"f":1,"e":2,"d":3}}]}`, `{"z":{"b":0,"a":0}}`})
	// nested sets
	nested := []seqOp{}
	for _, p := range [][]pel{{pk("a")}, {pk("a"), pk("x")}, {pk("a"), pk("y")}, {pk("b"), pk("x")}, {pk("l"), pi(0), pk("k")}, {pk("l"), pi(0), pk("j")}, {pk("l"), pi(1), pk("j")}} {
		for _, kind := range []byte("sde") {
			if kind == 'e' && len(p) < 2 {
				continue
			}
			o := &mutOp{kind: kind, path: p, child: 0}
			o.pa = pathAny(p)
			nested = append(nested, seqOp{o.String(), func(c *C, d *[2]doc11, n int) {
				if kind == 's' {
					// the model moves a set key to the end only when the last step sets it
					if t, res := d[0].w.at(p[:len(p)-1]); res == mOK && t.K == KObj {
						t.del(p[len(p)-1].s)
					}
				}
				o.model(d[0].w)
				_, _, _ = o.real(d[0].v)
			}})
		}
	}
	nested = append(nested, copyOp(0, 0, 0))
	histories("nested sets", nested, r.Pick(3, 4), []string{`{}`, `{"b":{"y":1,"x":2},"a":{},"l":[{"j":1,"k":2},{}]}`})

	// parsing: duplicates, all orders
	keys := []string{"a", "b", "c", "\\u0061", "zz"}
	r.Par("parsed text", "all objects of up to 6 (thorough 7) members over 5 key spellings, two of the same key; also nested and decoded into a used value", 25, func(c *C, sh int) {
		for n := 0; n <= r.Pick(6, 7); n++ {
			tot := 1
			for i := 0; i < n; i++ {
				tot *= len(keys)
			}
			for x := sh; x < tot; x += 25 {
				var b strings.Builder
				b.WriteByte('{')
				w := &Val{K: KObj}
				for i, y := 0, x; i < n; i, y = i+1, y/len(keys) {
					if i > 0 {
						b.WriteByte(',')
					}
					k := keys[y%len(keys)]
					fmt.Fprintf(&b, `"%s":%d`, k, i)
					if k == "\\u0061" {
						k = "a"
					}
					w.del(k)
					w.set(k, vNum(fmt.Sprint(i)))
				}
				b.WriteByte('}')
				text := b.String()
				c.State(hashStr(text))
				c.Do(func() string { return text }, func() {
					v, err := jsonvalue.UnmarshalString(text)
					if err != nil {
						c.Fail("%v", err)
					}
					v2, err := jsonvalue.UnmarshalNoCopy([]byte(`[` + text + `,{"k":` + text + `}]`))
					if err != nil {
						c.Fail("%v", err)
					}
					v3 := jsonvalue.MustUnmarshalString(`{"zz":1,"a":2,"q":3}`)
					if err := json.Unmarshal([]byte(text), v3); err != nil {
						c.Fail("%v", err)
					}
					c.Orders(6, func() {
						checkSeq(c, w, v, "parsed")
						checkSeq(c, vArr(w, vObj("k", w)), v2, "parsed inside")
						checkSeq(c, w, v3, "decoded into")
					})
					v3.MustSet("new").At("q")
					w3 := w.clone()
					w3.set("q", vStr("new"))
					checkSeq(c, w3, v3, "set after decoding")
				})
			}
		}
	})
	r.Par("many keys", "objects of 1..200, 255..258, 1000 keys set in a mixed order, every 3rd deleted, every 5th set again, copied, continued", 20, func(c *C, sh int) {
		for n := 1; n <= 1000; n++ {
			if (n > 200 && n < 255) || (n > 258 && n < 1000) || n%20 != sh {
				continue
			}
			c.Do(func() string { return fmt.Sprintf("%d keys", n) }, func() {
				v, w := jsonvalue.NewObject(), &Val{K: KObj}
				set := func(v *jsonvalue.V, w *Val, i int) {
					k := fmt.Sprintf("k%d", i*7919%1009)
					v.MustSet(i).At(k)
					w.del(k)
					w.set(k, vNum(fmt.Sprint(i)))
				}
				for i := 0; i < n; i++ {
					set(v, w, i)
				}
				for i := 0; i < n; i += 3 {
					k := fmt.Sprintf("k%d", i*7919%1009)
					v.MustDelete(k)
					w.del(k)
				}
				for i := 0; i < n; i += 5 {
					set(v, w, i)
				}
				x, xw := jsonvalue.New(v), w.clone()
				for i := n - 1; i >= 0; i -= 4 {
					set(x, xw, i)
				}
				set(v, w, n/2)
				c.OrdersOf(perms, 6, func() {
					checkSeq(c, w, v, "v")
					checkSeq(c, xw, x, "copy")
				})
			})
		}
	})
	if r.thorough {
		r.Par("more than 2^32 sets", "one object, one key set once, another 2^32-1 times", 1, func(c *C, _ int) {
			c.Do(func() string { return "2^32 sets in all" }, func() {
				v := jsonvalue.NewObject()
				one := jsonvalue.NewInt(1)
				v.MustSet(one).At("b")
				for i := 0; i < 1<<32-1; i++ {
					v.MustSet(one).At("a")
					if i&0xfffff == 0 {
						if c.Alive(); c.Expired() {
							return
						}
					}
				}
				checkSeq(c, vObj("b", vNum("1"), "a", vNum("1")), v, "after 2^32 sets")
			})
		})
	}
}
