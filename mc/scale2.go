package main

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strings"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
	"github.com/Andrew-M-C/go.jsonvalue/beta"
)

// chain nests w n levels deep; kind 0 objects, 1 arrays, 2 alternating, each with siblings when sib is set.
func chain(w *Val, n, kind int, sib bool) *Val {
	for i := 0; i < n; i++ {
		if kind == 0 || kind == 2 && i%2 == 0 {
			o := &Val{K: KObj}
			if sib {
				o.O = append(o.O, Member{"b", vNum("1")})
			}
			o.O = append(o.O, Member{"a", w})
			if sib {
				o.O = append(o.O, Member{"c", vStr("s")})
			}
			w = o
		} else if sib {
			w = vArr(vNum("1"), w, vStr("s"))
		} else {
			w = vArr(w)
		}
	}
	return w
}

// wideArr and wideObj are containers of n numbers.
func wideArr(n int) *Val {
	w := &Val{K: KArr}
	for i := 0; i < n; i++ {
		w.A = append(w.A, vNum(fmt.Sprint(i)))
	}
	return w
}

func wideObj(n int) *Val {
	w := &Val{K: KObj}
	for i := 0; i < n; i++ {
		w.O = append(w.O, Member{fmt.Sprintf("k%d", i), vNum(fmt.Sprint(i))})
	}
	return w
}

func init() {
	scale["C10"] = func(r *Run) {
		sz := sizes(r.Pick(140, 400), r.Pick(12, 15))
		r.Par("wide", "objects of "+sizesText(r.Pick(140, 400), r.Pick(12, 15))+" keys: caseless lookups and deletes of every key by another spelling, deletes and sets in between", len(sz), func(c *C, sh int) {
			n := sz[sh]
			key := func(i int) string { return fmt.Sprintf("Key%dé", i) }
			for way := 0; way < 3; way++ {
				c.Do(func() string { return fmt.Sprintf("%d keys, way %d", n, way) }, func() {
					v := jsonvalue.NewObject()
					cur := map[string]int{}
					for i := 0; i < n; i++ {
						v.MustSet(i % 1000).At(key(i))
						cur[key(i)] = i % 1000
						if way == 1 && i == n/2 {
							touchCaseless(v)
						}
					}
					if way == 2 {
						v = jsonvalue.MustUnmarshalString(v.MustMarshalString())
					}
					step := 1 + n/200
					find := func(req, k string) {
						x, err := v.Caseless().Get(req)
						want, ok := cur[k]
						if ok != (err == nil) || (ok && x.Int() != want) {
							c.Fail("Caseless.Get(%q) gives %s, %v; key %q present: %v", req, x, err, k, ok)
						}
						c.Step(1)
					}
					all := func() {
						for i := 0; i < n; i += step {
							find(strings.ToUpper(key(i)), key(i))
							find(strings.ToLower(key(i)), key(i))
							find(key(i), key(i))
						}
						find("KEYé", "")
						find(fmt.Sprintf("KEY%dé", n), "")
					}
					all()
					for i := 0; i < n; i += 3 {
						if err := v.Caseless().Delete(strings.ToUpper(key(i))); err != nil {
							c.Fail("Caseless.Delete of key %d fails: %v", i, err)
						}
						delete(cur, key(i))
						if v.Caseless().Delete(strings.ToLower(key(i))) == nil {
							c.Fail("Caseless.Delete of the deleted key %d succeeds", i)
						}
					}
					for i := 1; i < n; i += 3 {
						if err := v.Delete(key(i)); err != nil {
							c.Fail("Delete of key %d fails: %v", i, err)
						}
						delete(cur, key(i))
					}
					all()
					for i := 0; i < n; i += 2 {
						v.MustSet(7).At(key(i))
						cur[key(i)] = 7
					}
					all()
					if n <= 300 {
						clExact(c, v, cur, "at the end", nil)
					} else if v.Len() != len(cur) {
						c.Fail("length is %d, should be %d", v.Len(), len(cur))
					}
				})
			}
		})
		long := sizes(40, r.Pick(16, 20))
		r.Par("many changes", "n times set and delete one spelling, n in "+sizesText(40, r.Pick(16, 20))+", then lookups by the others", len(long), func(c *C, sh int) {
			n := long[sh]
			for way := 0; way < 4; way++ {
				c.Do(func() string { return fmt.Sprintf("%d times, way %d", n, way) }, func() {
					v := jsonvalue.NewObject()
					v.MustSet(1).At("keep")
					cur := map[string]int{"keep": 1}
					touchCaseless(v)
					for i := 0; i < n; i++ {
						k := "aB"
						if way == 1 && i%2 == 1 {
							k = "Ab"
						}
						if way == 2 {
							k = fmt.Sprintf("aB%d", i)
						}
						v.MustSet(i % 1000).At(k)
						if way == 3 {
							v.Caseless().MustDelete("AB")
						} else {
							v.MustDelete(k)
						}
						if i&1023 == 0 {
							c.Alive()
						}
					}
					for _, req := range []string{"ab", "AB", "aB", "Keep", "aB0", "AB5"} {
						clOp{'g', req}.lookup(c, v, cur)
					}
					for i := 0; i < n%5; i++ {
						v.MustSet(3).At("Ab")
						cur["Ab"] = 3
					}
					for _, req := range []string{"ab", "AB", "aB", "Ab", "KEEP"} {
						clOp{'g', req}.lookup(c, v, cur)
					}
					clOp{'x', "KEEP"}.apply(c, v, cur, 0)
					clOp{'x', "ab"}.apply(c, v, cur, 0)
					clExact(c, v, cur, "at the end", []string{"aB", "Ab", "keep"})
				})
			}
		})
		ks := sizes(r.Pick(300, 600), r.Pick(12, 16))
		r.Par("long keys", "keys of each length, requests that differ in case or in a character at the ends and in the middle", len(ks), func(c *C, sh int) {
			n := ks[sh]
			if n == 0 {
				return
			}
			for _, u := range []string{"a", "É", "aBcDeFgHiJkLmNoPqRsTuVwXyZ"} {
				key := pattern(u, n)
				c.Do(func() string { return fmt.Sprintf("key of %d characters of %q", n, u) }, func() {
					cur := map[string]int{key: 1, key + "_": 2}
					v := jsonvalue.NewObject()
					v.MustSet(1).At(key)
					v.MustSet(2).At(key + "_")
					rs := []rune(key)
					for _, at := range []int{0, n / 2, n - 1} {
						for _, x := range []rune{'Q', '_', rs[at] ^ 0x20} {
							q := append([]rune{}, rs...)
							q[at] = x
							clOp{'g', string(q)}.lookup(c, v, cur)
						}
					}
					for _, req := range []string{key, strings.ToUpper(key), strings.ToLower(key), key + "_", strings.ToUpper(key) + "_", key + "__", string(rs[1:]), string(rs[:n-1])} {
						clOp{'g', req}.lookup(c, v, cur)
					}
					clOp{'x', strings.ToLower(key)}.apply(c, v, cur, 0)
					clExact(c, v, cur, "after a delete", []string{key, key + "_"})
				})
			}
		})
	}

	scale["C11"] = func(r *Run) {
		d, top := 40, r.Pick(17, 23)
		sz := sizes(d, top)
		r.Par("many sets", "n sets before the ones that count, n in "+sizesText(d, top), len(sz)*3, func(c *C, sh int) {
			n, way := sz[sh/3], sh%3
			c.Do(func() string { return fmt.Sprintf("%d sets, way %d", n, way) }, func() {
				v := jsonvalue.NewObject()
				w := &Val{K: KObj}
				v.MustSet(0).At("first")
				for i := 0; i < n; i++ {
					switch way {
					case 0:
						v.MustSet(1).At("x")
					case 1:
						v.MustSet(1).At([]string{"x", "y"}[i&1])
					default:
						v.MustSet(1).At("x")
						v.MustDelete("x")
					}
					if i&4095 == 0 {
						c.Alive()
					}
				}
				w.O = append(w.O, Member{"first", vNum("0")})
				switch {
				case way == 0 && n > 0:
					w.set("x", vNum("1"))
				case way == 1:
					for i := max(0, n-2); i < n; i++ {
						w.set([]string{"x", "y"}[i&1], vNum("1"))
					}
				}
				put := func(v *jsonvalue.V, w *Val, k string) {
					v.MustSet(2).At(k)
					w.del(k)
					w.set(k, vNum("2"))
				}
				for i := 0; i < 12; i++ {
					put(v, w, string(rune('m'-i)))
				}
				put(v, w, "x")
				put(v, w, "h")
				checkSeq(c, w, v, "the object")
				for _, cw := range copyWays {
					x, y := cw.f(v), w.clone()
					checkSeq(c, y, x, cw.name)
					put(x, y, "zz")
					put(x, y, "k")
					put(x, y, "aa")
					checkSeq(c, y, x, cw.name+" changed")
				}
				checkSeq(c, w, v, "the object in the end")
				if err := v.UnmarshalJSON([]byte(`{"k":1,"j":2,"x":3}`)); err != nil {
					c.Fail("%v", err)
				}
				w = vObj("k", vNum("1"), "j", vNum("2"), "x", vNum("3"))
				put(v, w, "k")
				checkSeq(c, w, v, "decoded into")
			})
		})
		ws := sizes(r.Pick(140, 400), r.Pick(13, 16))
		r.Par("wide", "objects of "+sizesText(r.Pick(140, 400), r.Pick(13, 16))+" keys set in mixed order or parsed, some set again, copied, changed on both sides", len(ws), func(c *C, sh int) {
			n := ws[sh]
			for way := 0; way < 2; way++ {
				c.Do(func() string { return fmt.Sprintf("%d keys, way %d", n, way) }, func() {
					w := &Val{K: KObj}
					v := jsonvalue.NewObject()
					for i := 0; i < n; i++ {
						j := i
						if n%7919 != 0 {
							j = i * 7919 % n
						}
						w.O = append(w.O, Member{fmt.Sprintf("k%d", j), vNum(fmt.Sprint(i))})
					}
					if way == 0 {
						for _, m := range w.O {
							v.MustSet(build(m.V)).At(m.K)
						}
					} else {
						v = jsonvalue.MustUnmarshalString(w.jsonText())
					}
					again := func(v *jsonvalue.V, w *Val, i int) {
						if n == 0 {
							return
						}
						k := w.O[i%n].K
						v.MustSet(5).At(k)
						w.del(k)
						w.set(k, vNum("5"))
					}
					again(v, w, n/3)
					again(v, w, n-1)
					checkSeq(c, w, v, "the object")
					x, y := copyWays[n%len(copyWays)].f(v), w.clone()
					again(x, y, 0)
					again(v, w, n/2)
					c.Alive()
					checkSeq(c, w, v, "the original")
					checkSeq(c, y, x, "the copy")
				})
			}
		})
	}

	scale["C12"] = func(r *Run) {
		sz := sizes(r.Pick(100, 300), r.Pick(14, 18))
		r.Par("sizes of inputs", "strings, keys, number lists and escapes of "+sizesText(r.Pick(100, 300), r.Pick(14, 18))+" bytes: the input is not modified, overwriting it changes nothing", len(sz), func(c *C, sh int) {
			n := sz[sh]
			s := pattern("abcdefghijklm", n)
			for ti, t := range []string{`"` + s + `"`, `{"` + s + `":"` + s + `","x":1}`, `["` + s + `\n",1.5,"é` + s + `"]`, `[` + strings.Repeat("1,", n/2) + `123456]`, "0." + strings.Repeat("7", n+1), strings.Repeat(" ", n) + `{"k":["v",12]}`} {
				w, err := refParseAny([]byte(t))
				if err != nil {
					panic(err)
				}
				for _, e := range entries {
					if strings.Contains(e.name, "NoCopy") || strings.Contains(e.name, "window") || e.must {
						continue
					}
					c.Do(func() string { return fmt.Sprintf("text %d of size %d, %s", ti, n, e.name) }, func() {
						b := heapBytes(t)
						var v *jsonvalue.V
						var err error
						switch e.name {
						case "Unmarshal":
							v, err = jsonvalue.Unmarshal(b)
						case "UnmarshalString":
							v, err = jsonvalue.UnmarshalString(unsafeString(b))
						case "UnmarshalJSON":
							v = &jsonvalue.V{}
							err = v.UnmarshalJSON(b)
						default:
							v = &jsonvalue.V{}
							err = v.UnmarshalBinary(b)
						}
						if err != nil {
							c.Fail("%v", err)
						}
						if string(b) != t {
							c.Fail("the input is modified")
						}
						for way := 0; way < 2; way++ {
							scribble(b, way)
							if d := diffSeq(w, v, "$"); d != "" {
								c.Fail("after overwriting the input: %s", clip(d, 300))
							}
						}
					})
				}
			}
		})
		outs := []struct {
			name string
			f    func(v *jsonvalue.V) []byte
		}{
			{"Marshal", func(v *jsonvalue.V) []byte { b, _ := v.Marshal(jsonvalue.OptSetSequence()); return b }},
			{"MustMarshal", func(v *jsonvalue.V) []byte { return v.MustMarshal(jsonvalue.OptSetSequence()) }},
			{"MarshalJSON", func(v *jsonvalue.V) []byte { b, _ := v.MarshalJSON(); return b }},
			{"MarshalBinary", func(v *jsonvalue.V) []byte { b, _ := v.MarshalBinary(); return b }},
			{"MustMarshalString", func(v *jsonvalue.V) []byte {
				s := v.MustMarshalString(jsonvalue.OptSetSequence())
				return []byte(s)
			}},
		}
		small := []int{0, 1, 5, 62, 63, 64, 500, 4094, 4095, 4096, 4097, 8192, 70000}
		r.Par("sizes of outputs", fmt.Sprintf("outputs of strings and arrays of sizes %v: every pair of sizes and calls in a row, every earlier output kept, compared, then overwritten", small), len(small)*len(small), func(c *C, sh int) {
			n, m := small[sh/len(small)], small[sh%len(small)]
			mk := func(n, k int) *jsonvalue.V {
				if k == 0 {
					return jsonvalue.NewString(pattern("xyz", n))
				}
				a := jsonvalue.NewArray()
				for i := 0; i < n/8; i++ {
					a.MustAppend(jsonvalue.NewString("abcde")).InTheEnd()
				}
				return a
			}
			for k := 0; k < 4; k++ {
				v, x := mk(n, k%2), mk(m, k/2)
				for i := range outs {
					for j := range outs {
						c.Do(func() string {
							return fmt.Sprintf("%s of size %d then %s of size %d, kinds %d", outs[i].name, n, outs[j].name, m, k)
						}, func() {
							a := outs[i].f(v)
							s := string(a)
							str := v.MustMarshalString(jsonvalue.OptSetSequence())
							keep := strings.Clone(str)
							b := outs[j].f(x)
							t := string(b)
							a2 := outs[i].f(v)
							if string(a) != s || string(a2) != s || string(b) != t || str != keep {
								c.Fail("an output changes by the next call")
							}
							scribble(a, 0)
							if string(a2) != s || string(b) != t || str != keep {
								c.Fail("overwriting one output changes another")
							}
							if e := append(b, "tail"...); string(a2) != s || str != keep || string(e[:len(b)]) != t {
								c.Fail("appending to one output changes another")
							}
							if string(outs[i].f(v)) != s || string(outs[j].f(x)) != t || string(a2) != s || str != keep {
								c.Fail("later outputs differ")
							}
						})
					}
				}
			}
		})
		bsz := sizes(r.Pick(200, 400), r.Pick(14, 18))
		r.Par("sizes of decoded bytes", "strings that spell bytes of each number in "+sizesText(r.Pick(200, 400), r.Pick(14, 18))+", built 4 ways: Bytes, GetBytes and Caseless.GetBytes called in every order of 3, each result overwritten and appended to before the next", len(bsz), func(c *C, sh int) {
			n := bsz[sh]
			raw := make([]byte, n)
			for i := range raw {
				raw[i] = byte(i*7 + n)
			}
			text := base64.StdEncoding.EncodeToString(raw)
			mks := []struct {
				name string
				f    func() *jsonvalue.V
			}{
				{"SetBytes", func() *jsonvalue.V { v := jsonvalue.NewObject(); v.MustSetBytes(bytes.Clone(raw)).At("k"); return v }},
				{"Import", func() *jsonvalue.V {
					v, _ := jsonvalue.Import(map[string]any{"k": bytes.Clone(raw)})
					return v
				}},
				{"parsed", func() *jsonvalue.V { return jsonvalue.MustUnmarshalString(`{"k":"` + text + `"}`) }},
				{"copied", func() *jsonvalue.V {
					v := jsonvalue.MustUnmarshalString(`{"k":"` + text + `"}`)
					_ = v.MustGet("k").Bytes()
					return jsonvalue.New(v)
				}},
			}
			gets := []struct {
				name string
				f    func(v *jsonvalue.V) []byte
			}{
				{"Bytes", func(v *jsonvalue.V) []byte { return v.MustGet("k").Bytes() }},
				{"GetBytes", func(v *jsonvalue.V) []byte { b, _ := v.GetBytes("k"); return b }},
				{"Caseless.GetBytes", func(v *jsonvalue.V) []byte { b, _ := v.Caseless().GetBytes("K"); return b }},
			}
			for _, mk := range mks {
				for code := 0; code < 27; code++ {
					order := []int{code % 3, code / 3 % 3, code / 9}
					c.Step(3)
					c.Do(func() string {
						return fmt.Sprintf("%d bytes, %s: %s, %s, %s", n, mk.name, gets[order[0]].name, gets[order[1]].name, gets[order[2]].name)
					}, func() {
						v := mk.f()
						cp := jsonvalue.New(v)
						for i, g := range order {
							b := gets[g].f(v)
							if !bytes.Equal(b, raw) {
								c.Fail("%s gives %x, should be %x", gets[g].name, clipBytes(b), clipBytes(raw))
							}
							if e := append(b, "tail"...); !bytes.Equal(gets[g].f(v), raw) || len(e) < 4 {
								c.Fail("appending to the result of %s changes the next", gets[g].name)
							}
							scribble(b, i%2)
						}
						if v.MustGet("k").String() != text || !bytes.Equal(cp.MustGet("k").Bytes(), raw) || !v.Equal(cp) {
							c.Fail("overwriting the results changes a value")
						}
					})
				}
			}
		})
	}

	scale["C13"] = func(r *Run) {
		sz := sizes(r.Pick(140, 400), r.Pick(12, 15))
		r.Par("sizes", "slices, arrays, maps, strings, byte slices, structs and nestings of "+sizesText(r.Pick(140, 400), r.Pick(12, 15)), len(sz), func(c *C, sh int) {
			n := sz[sh]
			do := func(name string, x any) {
				c.Do(func() string { return fmt.Sprintf("%s of size %d", name, n) }, func() { importCheck(c, x) })
			}
			is, bs, fs, ss, as, ps := make([]int, n), make([]byte, n), make([]float64, n), make([]string, n), make([]any, n), make([]*int, n)
			ms, mi, mu := map[string]int{}, map[int]string{}, map[uint8]bool{}
			for i := range is {
				is[i], bs[i], fs[i], ss[i] = i-3, byte(i*7), float64(i)/4, pattern("aé<", i%7)
				as[i] = []any{i, "s", nil, true, []int{i}, map[string]any{"k": i}}[i%6]
				if i%3 > 0 {
					ps[i] = &is[i]
				}
				ms[fmt.Sprintf("k%d", i)], mi[i*3-n], mu[uint8(i)] = i, ss[i], i%2 == 0
			}
			do("[]int", is)
			do("[]byte", bs)
			do("[]float64", fs)
			do("[]string", ss)
			do("[]any", as)
			do("[]*int", ps)
			do("map[string]int", ms)
			do("map[int]string", mi)
			do("map[uint8]bool", mu)
			do("[][]int", [][]int{is, {}, is})
			do("string", pattern("abc\"\n", n))
			do("string é", pattern("é😀\\", n))
			do("string of non-ASCII characters", strings.Repeat("é", n))
			do("key", map[string]int{pattern("aé\"", n): 1})
			if n <= 2100 {
				arr := reflect.New(reflect.ArrayOf(n, reflect.TypeOf(0))).Elem()
				barr := reflect.New(reflect.ArrayOf(n, reflect.TypeOf(byte(0)))).Elem()
				for i := 0; i < n; i++ {
					arr.Index(i).SetInt(int64(i))
					barr.Index(i).SetUint(uint64(byte(i)))
				}
				do("array", arr.Interface())
				do("array of bytes", barr.Interface())
				do("struct of arrays", struct {
					A any
					B []byte `json:"b,omitempty"`
				}{barr.Interface(), bs})
			}
			if n <= 600 {
				var fields []reflect.StructField
				for i := 0; i < n; i++ {
					f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: reflect.TypeOf(0)}
					switch i % 4 {
					case 1:
						f.Tag = reflect.StructTag(fmt.Sprintf(`json:"f_%d,omitempty"`, n-i))
					case 2:
						f.Tag = `json:",string"`
						f.Type = reflect.TypeOf("")
					case 3:
						f.Tag = `json:"-"`
					}
					fields = append(fields, f)
				}
				st := reflect.New(reflect.StructOf(fields)).Elem()
				for i := 0; i < n; i++ {
					if i%3 > 0 && st.Field(i).Kind() == reflect.Int {
						st.Field(i).SetInt(int64(i))
					}
				}
				do("struct", st.Interface())
				t := reflect.TypeOf(0)
				for i := 0; i < min(n, 200); i++ {
					t = reflect.PointerTo(t)
				}
				p := reflect.New(t).Elem()
				q := p
				for q.Kind() == reflect.Pointer {
					q.Set(reflect.New(q.Type().Elem()))
					q = q.Elem()
				}
				do("pointers", p.Interface())
				var x, y any = 1, map[string]any{}
				for i := 0; i < n; i++ {
					x, y = []any{x}, map[string]any{"k": y}
				}
				do("nested slices", x)
				do("nested maps", y)
			}
		})
	}

	scale["C14"] = func(r *Run) {
		sz := sizes(r.Pick(140, 300), r.Pick(12, 14))
		r.Par("sizes", "arrays, objects, strings, keys, nestings of "+sizesText(r.Pick(140, 300), r.Pick(12, 14))+" x destinations, and through encoding/json and gob interfaces", len(sz), func(c *C, sh int) {
			n := sz[sh]
			strs := &Val{K: KArr}
			for i := 0; i < n; i++ {
				strs.A = append(strs.A, vStr(pattern("é<a", i%5)))
			}
			ws := []*Val{wideArr(n), wideObj(n), strs, vStr(pattern("ab\"é", n)), vObj(pattern("k<", n), vNum("1"), "a", vArr(vNull())), vObj("a", wideArr(n), "b", wideObj(n))}
			if n < 300 {
				ws = append(ws, chain(vNum("1"), n, 0, false), chain(vNull(), n, 1, false), chain(vStr("x"), n, 2, true))
			}
			for wi, w := range ws {
				v := build(w)
				for k, mk := range exportTargets {
					if n > 70 && (k+n)%3 != 0 {
						continue
					}
					c.Do(func() string { return fmt.Sprintf("document %d of size %d into %T", wi, n, mk()) }, func() { exportCheck(c, v, w, mk) })
				}
				for k := range encs {
					if n > 70 && (k+n)%3 != 0 {
						continue
					}
					c.Do(func() string { return fmt.Sprintf("document %d of size %d as %s", wi, n, encs[k].name) }, func() { roundTrip(c, w, v, &encs[k]) })
				}
				c.Do(func() string { return fmt.Sprintf("document %d of size %d by MarshalBinary", wi, n) }, func() {
					b, err := v.MarshalBinary()
					if err != nil {
						c.Fail("%v", err)
					}
					x := jsonvalue.MustUnmarshalString(`{"old":[1,2,3],"k1":"x"}`)
					if err := x.UnmarshalBinary(b); err != nil {
						c.Fail("%v", err)
					}
					sameValue(c, "decoded", w, x, v)
					if n > 0 {
						bad := append([]byte{}, b[:len(b)-1]...)
						if bad[0] != '-' && (bad[0] < '0' || bad[0] > '9') {
							if x.UnmarshalBinary(bad) == nil || x.UnmarshalJSON(bad) == nil {
								c.Fail("a truncated text is accepted")
							}
							sameValue(c, "after failed decodes", w, x, v)
						}
					}
				})
			}
		})
	}

	scale["C15"] = func(r *Run) {
		hs := hugeNums(r.thorough)
		r.Par("huge exponents", fmt.Sprintf("all ordered pairs of %d numbers with exponents up to 10^40, alone, in an array and as a member, parsed and copied", len(hs)), len(hs), func(c *C, sh int) {
			x := hs[sh]
			wrap := func(s string, k int) *jsonvalue.V {
				return jsonvalue.MustUnmarshalString(strings.Replace([]string{"@", "[0,@]", `{"a":1,"b":@}`, `[[{"k":[@]}]]`}[k], "@", s, 1))
			}
			c.Do(func() string { return x.s + " compared with every number of a huge exponent" }, func() {
				for k := 0; k < 4; k++ {
					v := wrap(x.s, k)
					for _, y := range hs {
						w := wrap(y.s, k)
						c.Step(2)
						if want := cmpHuge(x, y) == 0; v.Equal(w) != want || w.Equal(v) != want {
							c.Fail("%v and %v: Equal is %v and %v, should be %v", v, w, v.Equal(w), w.Equal(v), want)
						}
					}
					cp, err := jsonvalue.Import(v)
					if err != nil || !cp.Equal(v) || !v.Equal(cp) {
						c.Fail("the copy %v of %v is not equal (%v)", cp, v, err)
					}
				}
			})
		})
		sz := sizes(r.Pick(140, 400), r.Pick(12, 15))
		r.Par("sizes", "arrays, objects, strings, keys, number texts and nestings of "+sizesText(r.Pick(140, 400), r.Pick(12, 15))+" equal and with one difference at the ends and in the middle", len(sz), func(c *C, sh int) {
			n := sz[sh]
			pair := func(name string, a, b *Val, want bool) {
				c.Do(func() string { return fmt.Sprintf("%s of size %d, should be %v", name, n, want) }, func() {
					for i, x := range []*jsonvalue.V{build(a), jsonvalue.MustUnmarshalString(a.jsonText())} {
						y := build(b)
						c.Step(2)
						if x.Equal(y) != want || y.Equal(x) != want {
							c.Fail("Equal is %v and %v (way %d)", x.Equal(y), y.Equal(x), i)
						}
						if !x.Equal(x) {
							c.Fail("not equal to itself")
						}
					}
				})
			}
			pair("arrays", wideArr(n), wideArr(n), true)
			pair("objects", wideObj(n), wideObj(n), true)
			ro := wideObj(n)
			for i := 0; i < n/2; i++ {
				ro.O[i], ro.O[n-1-i] = ro.O[n-1-i], ro.O[i]
			}
			pair("objects in reverse order", wideObj(n), ro, true)
			if n > 0 {
				for _, at := range []int{0, 1, n / 2, n - 2, n - 1} {
					if at < 0 || at >= n {
						continue
					}
					w := wideArr(n)
					w.A[at] = vNum("-7")
					pair(fmt.Sprintf("arrays different at %d", at), wideArr(n), w, false)
					w = wideArr(n)
					w.A[at] = vStr(w.A[at].S)
					pair(fmt.Sprintf("arrays with a string at %d", at), wideArr(n), w, false)
					w = wideArr(n)
					w.A[at] = vNum(w.A[at].S + ".0")
					pair(fmt.Sprintf("arrays with another spelling at %d", at), wideArr(n), w, true)
					if at > 0 {
						w = wideArr(n)
						w.A[at], w.A[at-1] = w.A[at-1], w.A[at]
						pair(fmt.Sprintf("arrays swapped at %d", at), wideArr(n), w, false)
					}
					w = wideObj(n)
					w.O[at].V = vNum("-7")
					pair(fmt.Sprintf("objects different at %d", at), wideObj(n), w, false)
					w = wideObj(n)
					w.O[at].K = "other"
					pair(fmt.Sprintf("objects with another key at %d", at), wideObj(n), w, false)
					for _, u := range []string{"a", "é", "abcdefgh"} {
						s := []rune(pattern(u, n))
						t := append([]rune{}, s...)
						t[at] = 'Z'
						pair(fmt.Sprintf("strings different at %d", at), vStr(string(s)), vStr(string(t)), false)
						pair(fmt.Sprintf("keys different at %d", at), vObj(string(s), vNum("1")), vObj(string(t), vNum("1")), false)
					}
					d := []byte(strings.Repeat("3", n))
					e := append([]byte{}, d...)
					e[at] = '4'
					if n < 3000 {
						pair(fmt.Sprintf("numbers different at %d", at), vNum("0."+string(d)), vNum("0."+string(e)), false)
						pair(fmt.Sprintf("negative numbers different at %d", at), vNum("-1."+string(d)), vNum("-1."+string(e)), false)
					}
				}
			}
			short, long := wideArr(n), wideArr(n+1)
			pair("arrays, one longer", short, long, false)
			pair("objects, one larger", wideObj(n), wideObj(n+1), false)
			pair("strings, one longer", vStr(pattern("ab", n)), vStr(pattern("ab", n+1)), false)
			if n < 3000 {
				z := strings.Repeat("0", n)
				pair("trailing zeros", vNum("1.5"+z), vNum("1.5"), true)
				pair("leading zeros of the fraction", vNum("0."+z+"1"), vNum("0."+z+"10"), true)
				pair("shifted", vNum("0."+z+"1"), vNum("0."+z+"01"), false)
				if n < 300 {
					pair("exponent", vNum("0."+z+"1"), vNum(fmt.Sprintf("1e-%d", n+1)), true)
					pair("other exponent", vNum("0."+z+"1"), vNum(fmt.Sprintf("1e-%d", n+2)), false)
					pair("large", vNum("1"+z+".0"), vNum(fmt.Sprintf("1e%d", n)), true)
					pair("larger", vNum("1"+z+".0"), vNum(fmt.Sprintf("10e%d", n)), false)
					pair("large plus a bit", vNum("1"+z+".0"), vNum("1"+z+".0000000001"), false)
				}
			}
			if n <= 1100 {
				for k := 0; k < 3; k++ {
					for _, sib := range []bool{false, true} {
						pair(fmt.Sprintf("nestings %d", k), chain(vNum("1"), n, k, sib), chain(vNum("1.0"), n, k, sib), true)
						pair(fmt.Sprintf("nestings %d, other leaf", k), chain(vNum("1"), n, k, sib), chain(vNum("2"), n, k, sib), false)
						pair(fmt.Sprintf("nestings %d, leaf null", k), chain(vStr(""), n, k, sib), chain(vNull(), n, k, sib), false)
					}
					pair(fmt.Sprintf("nestings %d, deeper", k), chain(vArr(), n, k, false), chain(vArr(vArr()), n, k, false), false)
				}
			}
		})
	}

	scale["C16"] = func(r *Run) {
		hs := hugeNums(r.thorough)
		r.Par("huge exponents", fmt.Sprintf("all ordered pairs of %d numbers with exponents up to 10^40", len(hs)), len(hs), func(c *C, sh int) {
			x := hs[sh]
			v := jsonvalue.MustUnmarshalString(x.s)
			c.Do(func() string { return x.s + " compared with every number of a huge exponent" }, func() {
				for _, y := range hs {
					w := jsonvalue.MustUnmarshalString(y.s)
					k := cmpHuge(x, y)
					c.Step(4)
					g := [4]bool{v.GreaterThan(w), v.GreaterThanOrEqual(w), v.LessThan(w), v.LessThanOrEqual(w)}
					if g != [4]bool{k > 0, k >= 0, k < 0, k <= 0} {
						c.Fail("against %s: >,>=,<,<= are %v", y.s, g)
					}
				}
				for _, f := range []float64{math.NaN(), math.Inf(1), math.Inf(-1)} {
					w := jsonvalue.NewFloat64(f)
					c.Step(4)
					g := [4]bool{v.GreaterThan(w), v.GreaterThanOrEqual(w), v.LessThan(w), v.LessThanOrEqual(w)}
					if g != [4]bool{0 > f, 0 >= f, 0 < f, 0 <= f} {
						c.Fail("against %v: >,>=,<,<= are %v", f, g)
					}
				}
			})
		})
		sz := sizes(r.Pick(140, 330), r.Pick(10, 12))
		r.Par("long literals", "pairs of literals of "+sizesText(r.Pick(140, 330), r.Pick(10, 12))+" digits that differ in one digit, in length or in spelling", len(sz), func(c *C, sh int) {
			n := sz[sh]
			var lits []string
			add := func(f string, a ...any) { lits = append(lits, fmt.Sprintf(f, a...)) }
			for _, d := range []string{"3", "9", "0"} {
				s := strings.Repeat(d, n)
				add("0.%s1", s)
				add("0.%s2", s)
				add("0.%s", s+"10")
				add("-0.%s1", s)
				add("-0.%s2", s)
				add("1.%s1", s)
				add("1.%s0", s)
				if n < 300 {
					add("1%s.5", s)
					add("1%s.50", s)
					add("1%s.25e0", s)
					add("-1%s.5", s)
					add("1%s.5e-%d", s, n)
					add("1.%s5e%d", s, n)
					add("1e%d", n)
					add("1e-%d", n)
					add("-1e%d", n)
					add("0.1e%d", n+1)
				}
			}
			rs := make([]*big.Rat, len(lits))
			vs := make([]*jsonvalue.V, len(lits))
			for i, l := range lits {
				rs[i], _ = new(big.Rat).SetString(l)
				v, err := jsonvalue.UnmarshalString(l)
				if err != nil {
					panic(l)
				}
				vs[i] = v
			}
			c.Do(func() string { return fmt.Sprintf("literals of %d digits", n) }, func() {
				for i := range lits {
					for j := range lits {
						k := rs[i].Cmp(rs[j])
						x, y := vs[i], vs[j]
						c.Step(4)
						g := [4]bool{x.GreaterThan(y), x.GreaterThanOrEqual(y), x.LessThan(y), x.LessThanOrEqual(y)}
						if g != [4]bool{k > 0, k >= 0, k < 0, k <= 0} {
							c.Fail("%s against %s: >,>=,<,<= are %v", lits[i], lits[j], g)
						}
					}
				}
			})
		})
	}

	scale["C20"] = func(r *Run) {
		sz := sizes(r.Pick(140, 300), r.Pick(9, 11))
		r.Par("sizes", "one non-finite number at the ends and middle of containers and below chains of "+sizesText(r.Pick(140, 300), r.Pick(9, 11)), len(sz), func(c *C, sh int) {
			n := sz[sh]
			maps := []struct {
				opts []jsonvalue.Option
				nan  string
				p, m string
			}{
				{nil, "", "", ""},
				{[]jsonvalue.Option{jsonvalue.OptFloatNaNToNull()}, "null", "", ""},
				{[]jsonvalue.Option{jsonvalue.OptFloatInfToStringInf()}, "", `"+Inf"`, `"-Inf"`},
				{[]jsonvalue.Option{jsonvalue.OptFloatInfToFloat(2.5), jsonvalue.OptFloatNaNToFloat(-1)}, "-1", "2.5", "-2.5"},
				{[]jsonvalue.Option{jsonvalue.OptFloatInfToNull(), jsonvalue.OptFloatNaNToStringNaN(), jsonvalue.OptIndent("", " ")}, `"NaN"`, "null", "null"},
			}
			judge := func(name string, mk func(x *jsonvalue.V) *jsonvalue.V) {
				for fi, f := range []float64{math.NaN(), math.Inf(1), math.Inf(-1)} {
					for _, m := range maps {
						c.Do(func() string { return fmt.Sprintf("%v in %s of size %d with %d options", f, name, n, len(m.opts)) }, func() {
							c.Step(1)
							want := []string{m.nan, m.p, m.m}[fi]
							v := mk(jsonvalue.NewFloat64(f))
							b, err := v.Marshal(append([]jsonvalue.Option{jsonvalue.OptSetSequence()}, m.opts...)...)
							if want == "" {
								if err == nil || b != nil {
									c.Fail("Marshal gives %s, should fail", clip(string(b), 200))
								}
								return
							}
							x := mk(jsonvalue.MustUnmarshalString(want))
							y := x.MustMarshalString(append([]jsonvalue.Option{jsonvalue.OptSetSequence()}, m.opts...)...)
							if err != nil || string(b) != y {
								c.Fail("Marshal gives %s, %v", clip(string(b), 500), err)
							}
						})
					}
				}
			}
			for _, at := range []int{0, n / 2, n - 1} {
				if n == 0 || n > 300 && at == n/2 {
					continue
				}
				judge(fmt.Sprintf("array at %d", at), func(x *jsonvalue.V) *jsonvalue.V {
					v := jsonvalue.NewArray()
					for i := 0; i < n; i++ {
						if i == at {
							v.MustAppend(x).InTheEnd()
						} else {
							v.MustAppend(i).InTheEnd()
						}
					}
					return v
				})
				judge(fmt.Sprintf("object at %d", at), func(x *jsonvalue.V) *jsonvalue.V {
					v := jsonvalue.NewObject()
					for i := 0; i < n; i++ {
						if i == at {
							v.MustSet(x).At(fmt.Sprintf("k%d", i))
						} else {
							v.MustSet(i).At(fmt.Sprintf("k%d", i))
						}
					}
					return v
				})
			}
			for k := 0; k < 3; k++ {
				judge(fmt.Sprintf("chain %d", k), func(x *jsonvalue.V) *jsonvalue.V {
					for i := 0; i < n; i++ {
						if k == 0 || k == 2 && i%2 == 0 {
							o := jsonvalue.NewObject()
							o.MustSet(1).At("b")
							o.MustSet(x).At("a")
							x = o
						} else {
							a := jsonvalue.NewArray()
							a.MustAppend(x).InTheEnd()
							a.MustAppend(1).InTheEnd()
							x = a
						}
					}
					return x
				})
			}
		})
	}

	scale["C21"] = func(r *Run) {
		sz := sizes(r.Pick(300, 500), r.Pick(10, 11))
		r.Par("sizes", "chains of depth, containers of size, strings of length and indent strings of length "+sizesText(r.Pick(300, 500), r.Pick(10, 11)), len(sz), func(c *C, sh int) {
			n := sz[sh]
			var docs []*Val
			for k := 0; k < 3; k++ {
				docs = append(docs, chain(vNum("1"), n, k, false), chain(vArr(), n, k, true))
			}
			docs = append(docs, wideArr(n), wideObj(n), vArr(vStr(pattern("a{\"", n)), vObj(pattern("k:", n), vArr(&Val{K: KObj}, vNum("1")))))
			judge := func(name string, w *Val, pre, per string, m optModel, opts ...jsonvalue.Option) {
				v := build(w)
				m.ind, m.pre, m.per = true, pre, per
				opts = append(opts, jsonvalue.OptIndent(pre, per))
				c.Do(func() string { return fmt.Sprintf("%s of size %d with %q %q", name, n, clip(pre, 20), clip(per, 20)) }, func() {
					c.Step(1)
					b, err := v.Marshal(opts...)
					if err != nil {
						c.Fail("%v", err)
					}
					if want := anyKey(m.outputs(w)); string(b) != want {
						c.Fail("Marshal gives\n%s\nshould be\n%s", clip(string(b), 1500), clip(want, 1500))
					}
				})
			}
			for i, w := range docs {
				judge(fmt.Sprintf("document %d", i), w, "", " ", optModel{order: "set"}, jsonvalue.OptSetSequence())
				if n <= 300 {
					judge(fmt.Sprintf("document %d", i), w, ">", "\t", optModel{order: "dict"}, jsonvalue.OptDefaultStringSequence())
					judge(fmt.Sprintf("document %d", i), w, "", "", optModel{order: "set", omit: true}, jsonvalue.OptSetSequence(), jsonvalue.OptOmitNull(true))
				}
			}
			small := vObj("a", vArr(vNum("1"), vObj("b", vNull())), "c", vArr())
			for _, u := range []string{" ", "\t", "ab"} {
				judge("long indent", small, "", pattern(u, n), optModel{order: "set"}, jsonvalue.OptSetSequence())
				judge("long prefix", small, pattern(u, n), " ", optModel{order: "set"}, jsonvalue.OptSetSequence())
			}
		})
	}

	scale["C22"] = func(r *Run) {
		sz := sizes(r.Pick(70, 140), r.Pick(9, 11))
		r.Par("sizes", "arrays of "+sizesText(r.Pick(70, 140), r.Pick(9, 11))+" (periodic, all equal but one, distinct, of objects) x sub-arrays at the ends, in the middle, overlapping false starts, with one change; objects and nestings of those sizes", len(sz), func(c *C, sh int) {
			n := sz[sh]
			eq := func(a, b *Val) bool { return eqKey(a) == eqKey(b) }
			try := func(name string, w, sub *Val, path ...pel) {
				c.Do(func() string { return fmt.Sprintf("%s of size %d: sub %s", name, n, clip(sub.String(), 200)) }, func() {
					c.Step(1)
					t, _ := w.at(path)
					want := t != nil && refContains(t, sub, eq)
					if got := beta.Contains(build(w), build(sub), pathAny(path)...); got != want {
						c.Fail("Contains is %v, should be %v", got, want)
					}
				})
			}
			kinds := []func(i int) *Val{
				func(i int) *Val { return vNum(fmt.Sprint(i % 2)) },
				func(i int) *Val { return vNum(fmt.Sprint(i % 3)) },
				func(i int) *Val {
					if i == n-1 {
						return vNum("1")
					}
					return vNum("0")
				},
				func(i int) *Val { return vNum(fmt.Sprint(i)) },
				func(i int) *Val { return vObj("a", vNum(fmt.Sprint(i%4))) },
				func(i int) *Val { return vStr(pattern("ab", i%5)) },
			}
			for k, f := range kinds {
				w := &Val{K: KArr}
				for i := 0; i < n; i++ {
					w.A = append(w.A, f(i))
				}
				sub := func(a, b int) *Val { return (&Val{K: KArr, A: w.A[a:b]}).clone() }
				for _, l := range []int{0, 1, 2, 3, 5, n / 2, n - 1, n} {
					if l < 0 || l > n {
						continue
					}
					for _, at := range []int{0, 1, n / 2, n - l - 1, n - l} {
						if at < 0 || at+l > n {
							continue
						}
						s := sub(at, at+l)
						name := fmt.Sprintf("array kind %d, %d elements from %d", k, l, at)
						try(name, w, s)
						if l > 0 {
							x := s.clone()
							x.A[l-1] = vStr("no")
							try(name+", last changed", w, x)
							x = s.clone()
							x.A[0] = f(at + 1)
							try(name+", first shifted", w, x)
							x = s.clone()
							x.A = append(x.A, f(at+l+1))
							try(name+", one more", w, x)
							x = s.clone()
							x.A = append(x.A, f(at+l))
							try(name+", one more right", w, x)
						}
						if n < 70 {
							try(name+", below", vObj("x", vArr(vNum("0"), w)), s, pk("x"), pi(1))
							try(name+", below from the end", vObj("x", vArr(vNum("0"), w)), s, pk("x"), pi(-1))
							try(name+", in an object", vObj("x", w, "y", vNum("1")), vObj("x", s))
						}
					}
				}
			}
			o := wideObj(n)
			for _, l := range []int{0, 1, n / 2, n - 1, n} {
				if l < 0 || l > n {
					continue
				}
				s := wideObj(l)
				try("object", o, s)
				s = s.clone()
				s.O = append(s.O, Member{"other", vNum("1")})
				try("object with another key", o, s)
				if l > 0 {
					s = wideObj(l)
					s.O[l-1].V = vNum("-1")
					try("object with another value", o, s)
					s.O[l-1].V = vNum(fmt.Sprintf("%d.0", l-1))
					try("object with another spelling", o, s)
				}
				try("objects in an array", vArr(o, wideObj(l)), vArr(wideObj(l)))
			}
			for k := 0; k < 3; k++ {
				for _, leaf := range []*Val{vNum("1"), vNum("2"), vArr(vNum("1")), vObj("x", vNum("1"))} {
					big := chain(vArr(vNum("0"), vNum("1")), n, k, true)
					try("chain", big, chain(leaf, n, k, true))
					try("chain without siblings", big, chain(leaf, n, k, false))
					big = chain(vObj("x", vNum("1"), "y", vNum("2")), n, k, true)
					try("chain of objects", big, chain(leaf, n, k, true))
					try("chain of objects without siblings", big, chain(leaf, n, k, false))
				}
			}
		})
	}

	scale["C23"] = func(r *Run) {
		sz := sizes(0, r.Pick(13, 17))
		r.Par("large", "arrays and objects of 2^k-2..2^k+2 members to 2^"+fmt.Sprint(r.Pick(13, 17))+", every form, stops at the ends and the middle", len(sz), func(c *C, sh int) {
			n := sz[sh]
			for k := 0; k < 2; k++ {
				w := wideArr(n)
				if k == 1 {
					w = wideObj(n)
				}
				for way := 0; way < 2; way++ {
					c.Do(func() string { return fmt.Sprintf("%d members, kind %d, way %d", n, k, way) }, func() {
						v := build(w)
						if way == 1 {
							v = jsonvalue.MustUnmarshalString(w.jsonText())
						}
						for _, s := range []int{-1, 1, n / 2, n - 1, n, n + 1} {
							checkIter(c, w, v, true, []int{s})
							c.Alive()
						}
					})
				}
			}
		})
	}

	scale["C26"] = func(r *Run) {
		sz := sizes(0, r.Pick(13, 17))
		r.Par("large arrays", "lengths 2^k-2..2^k+2 to 2^"+fmt.Sprint(r.Pick(13, 17))+": ascending, descending, equal, sawteeth, organ pipes, rotations, mixed", len(sz), func(c *C, sh int) {
			n := sz[sh]
			for k := 0; k < 8; k++ {
				keys := make([]int, n)
				for i := range keys {
					switch k {
					case 0:
						keys[i] = i
					case 1:
						keys[i] = -i
					case 2:
						keys[i] = 0
					case 3:
						keys[i] = i % 7
					case 4:
						keys[i] = min(i, n-i)
					case 5:
						keys[i] = (i + n/3) % n
					case 6:
						keys[i] = i * 7919 % (n + 1)
					case 7:
						keys[i] = i ^ 0x55
					}
				}
				for d := 0; d < 2; d++ {
					less := func(a, b int) bool { return a < b }
					if d == 1 {
						less = func(a, b int) bool { return a > b }
					}
					c.Do(func() string { return fmt.Sprintf("%d elements, pattern %d, order %d", n, k, d) }, func() { sortCheck(c, keys, less, k%3) })
				}
			}
		})
	}

	scale["C27"] = func(r *Run) {
		sz := sizes(r.Pick(140, 300), r.Pick(11, 13))
		r.Par("sizes", "objects of "+sizesText(r.Pick(140, 300), r.Pick(11, 13))+" members with none, one (ends, middle), alternate, all but one and all null; chains of such objects", len(sz), func(c *C, sh int) {
			n := sz[sh]
			modes := c27Modes()
			do := func(name string, w *Val) {
				v := build(w)
				short := w.dropNulls()
				for i := range modes {
					m := &modes[i]
					if n > 40 && i%3 != n%3 {
						continue
					}
					c.Do(func() string { return fmt.Sprintf("%s of size %d, %s", name, n, m.name) }, func() {
						for _, omit := range []bool{true, false} {
							c.Step(1)
							b, err := v.Marshal(append(append([]jsonvalue.Option{}, m.opts...), jsonvalue.OptOmitNull(omit))...)
							if err != nil {
								c.Fail("%v", err)
							}
							if omit {
								c27Judge(c, short, m, b)
							} else {
								c27Judge(c, w, m, b)
							}
						}
						if n < 70 {
							if d := diffSeq(w, v, "$"); d != "" {
								c.Fail("marshalling changed the value: %s", d)
							}
						}
					})
				}
			}
			obj := func(null func(i int) bool) *Val {
				w := wideObj(n)
				for i := range w.O {
					if null(i) {
						w.O[i].V = vNull()
					}
				}
				return w
			}
			do("no nulls", obj(func(int) bool { return false }))
			if n > 0 {
				for _, at := range []int{0, n / 2, n - 1} {
					do(fmt.Sprintf("null at %d", at), obj(func(i int) bool { return i == at }))
					do(fmt.Sprintf("null except %d", at), obj(func(i int) bool { return i != at }))
				}
			}
			do("alternating", obj(func(i int) bool { return i%2 == 0 }))
			do("alternating from the second", obj(func(i int) bool { return i%2 == 1 }))
			do("all null", obj(func(int) bool { return true }))
			do("all null in arrays", vArr(vNull(), obj(func(int) bool { return true }), vNull()))
			if n <= 300 {
				nul := vArr()
				for i := 0; i < n; i++ {
					nul.A = append(nul.A, vNull())
				}
				do("array of nulls", nul)
				do("member array of nulls", vObj("a", vNull(), "b", nul, "c", vNull()))
				for k := 0; k < 3; k++ {
					do(fmt.Sprintf("chain %d", k), chain(vObj("a", vNull(), "b", vNum("1"), "c", vNull()), n, k, true))
					do(fmt.Sprintf("chain %d with null", k), chain(vNull(), n, k, true))
					do(fmt.Sprintf("bare chain %d with null", k), chain(vNull(), n, k, false))
				}
			}
		})
	}

	scale["C29"] = func(r *Run) {
		sz := sizes(r.Pick(80, 200), r.Pick(9, 10))
		r.Par("sizes", "objects of "+sizesText(r.Pick(80, 200), r.Pick(9, 10))+" members and at the bottom of chains that deep", len(sz), func(c *C, sh int) {
			n := sz[sh]
			do := func(name string, w *Val) {
				w = numberLeaves(w)
				v := build(w)
				for d := 0; d < 2; d++ {
					less := byteLess
					if d == 1 {
						less = func(a, b string) bool { return a > b }
					}
					c.Do(func() string { return fmt.Sprintf("%s of size %d, order %d", name, n, d) }, func() { c29Run(c, w, v, less) })
				}
			}
			do("object", wideObj(n))
			do("object in containers", vArr(vNum("0"), vObj("p", vArr(vNum("1"), wideObj(n)), "q", vNum("1"))))
			if n <= 300 {
				for k := 0; k < 3; k++ {
					do(fmt.Sprintf("chain %d", k), chain(vObj("b", vNum("1"), "a", vNum("2"), "x", vObj("m", vNum("1"), "l", vNum("2"))), n, k, true))
				}
				a := &Val{K: KArr}
				for i := 0; i < n; i++ {
					a.A = append(a.A, vObj("b", vNum("1"), "a", vNum("2")))
				}
				do("array of objects", a)
				do("arrays in an object", vObj("z", a, "y", a.clone()))
			}
		})
	}
}

func clipBytes(b []byte) []byte { return b[:min(len(b), 100)] }
