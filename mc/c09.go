package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strings"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

func init() { checks["C09"] = c09 }

type (
	tInt    int
	tInt8   int8
	tInt16  int16
	tInt32  int32
	tInt64  int64
	tUint   uint
	tUint8  uint8
	tUint16 uint16
	tUint32 uint32
	tUint64 uint64
	tString string
	tPath   []any

	// types whose methods tell a different story than their values
	tIntName int
	tErrNo   int32
	tU8Text  uint8
	tStrName string
	tStrErr  string
)

func (tIntName) String() string              { return "a" }
func (tErrNo) Error() string                 { return "b" }
func (tU8Text) MarshalText() ([]byte, error) { return []byte("a"), nil }
func (tU8Text) MarshalJSON() ([]byte, error) { return []byte(`"a"`), nil }
func (tStrName) String() string              { return "b" }
func (tStrName) GoString() string            { return "0" }
func (tStrName) Int() int                    { return 0 }
func (tStrErr) Error() string                { return "0" }
func (tStrErr) MarshalText() ([]byte, error) { return nil, fmt.Errorf("no text") }

type (
	tStringer  struct{ s string }
	tTexter    struct{ s string }
	tPtrString struct{ s string }
	tFloatName float64
	tBoolName  bool
)

func (t tStringer) String() string             { return t.s }
func (t tTexter) MarshalText() ([]byte, error) { return []byte(t.s), nil }
func (t tTexter) MarshalJSON() ([]byte, error) { return []byte(`"` + t.s + `"`), nil }
func (t *tPtrString) String() string           { return "a" }
func (t *tPtrString) Error() string            { return "a" }
func (t tFloatName) String() string            { return "a" }
func (t tBoolName) String() string             { return "a" }

var intKinds = []reflect.Type{
	reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(tInt(0)), reflect.TypeOf(tInt8(0)), reflect.TypeOf(tInt16(0)), reflect.TypeOf(tInt32(0)), reflect.TypeOf(tInt64(0)),
	reflect.TypeOf(tUint(0)), reflect.TypeOf(tUint8(0)), reflect.TypeOf(tUint16(0)), reflect.TypeOf(tUint32(0)), reflect.TypeOf(tUint64(0)),
	reflect.TypeOf(tIntName(0)), reflect.TypeOf(tErrNo(0)), reflect.TypeOf(tU8Text(0)),
}

var strKinds = []reflect.Type{reflect.TypeOf(""), reflect.TypeOf(tString("")), reflect.TypeOf(json.Number("")), reflect.TypeOf(tStrName("")), reflect.TypeOf(tStrErr(""))}

// spell writes a path element with the k-th type of its class.
func spell(p pel, k int) (any, bool) {
	if p.str {
		if k >= len(strKinds) {
			return nil, false
		}
		return reflect.ValueOf(p.s).Convert(strKinds[k]).Interface(), true
	}
	if k >= len(intKinds) {
		return nil, false
	}
	t := intKinds[k]
	n := reflect.New(t).Elem()
	if n.CanInt() {
		if n.OverflowInt(int64(p.i)) {
			return nil, false
		}
		n.SetInt(int64(p.i))
	} else {
		if p.i < 0 || n.OverflowUint(uint64(p.i)) {
			return nil, false
		}
		n.SetUint(uint64(p.i))
	}
	return n.Interface(), true
}

const nContainers = 7

// contain packs the elements as the k-th kind of parameter list.
func contain(el []any, k int) ([]any, bool) {
	if k == 0 {
		return el, true
	}
	if len(el) == 0 {
		return nil, false
	}
	anyT := reflect.TypeOf((*any)(nil)).Elem()
	t := anyT
	if k >= 5 {
		t = reflect.TypeOf(el[0])
		for _, e := range el {
			if reflect.TypeOf(e) != t || t == nil {
				return nil, false
			}
		}
	}
	var c reflect.Value
	switch k {
	case 1:
		return []any{append([]any{}, el...)}, true
	case 2:
		return []any{tPath(append([]any{}, el...))}, true
	case 3, 5:
		c = reflect.New(reflect.ArrayOf(len(el), t)).Elem()
	case 4, 6:
		c = reflect.MakeSlice(reflect.SliceOf(t), len(el), len(el)+1)
	}
	for i, e := range el {
		if e != nil {
			c.Index(i).Set(reflect.ValueOf(e))
		}
	}
	return []any{c.Interface()}, true
}

func showParams(p []any) string {
	var s []string
	for _, x := range p {
		s = append(s, fmt.Sprintf("%T(%v)", x, x))
	}
	return strings.Join(s, ", ")
}

// readAt compares every reading call at the path with the model.
func readAt(c *C, v *jsonvalue.V, w *Val, path []pel, pa []any) {
	want, res := w.at(path)
	f, o := pa[0], pa[1:]
	got, err := v.Get(f, o...)
	if res != mOK {
		errClass(c, "Get", res, err)
	} else if err != nil {
		c.Fail("Get fails: %v", err)
	}
	chk := func(name string, got *jsonvalue.V) {
		switch {
		case got == nil:
			c.Fail("%s returns nil", name)
		case res != mOK:
			if got.ValueType() != jsonvalue.NotExist {
				c.Fail("%s returns %s, nothing should be there", name, read(got))
			}
		default:
			if d := diff(want, got, name); d != "" {
				c.Fail("%s: %s", name, d)
			}
		}
	}
	chk("Get", got)
	m := v.MustGet(f, o...)
	chk("MustGet", m)
	if res == mOK && m != got {
		c.Fail("Get and MustGet return different values")
	}
	cl, err := v.Caseless().Get(f, o...)
	if res == mOK && (err != nil || cl != got) {
		c.Fail("Caseless().Get returns %v, %v for an exact path", cl, err)
	}
	if s, err := v.GetString(f, o...); res == mOK && want.K == KStr {
		if s != want.S || err != nil {
			c.Fail("GetString returns %q, %v", s, err)
		}
	} else if res != mOK {
		errClass(c, "GetString", res, err)
	}
	if n, err := v.GetInt(f, o...); res == mOK && want.K == KNum {
		if fmt.Sprint(n) != want.S || err != nil {
			c.Fail("GetInt returns %d, %v", n, err)
		}
	} else if res != mOK {
		errClass(c, "GetInt", res, err)
	}
	for k, get := range []func(any, ...any) (*jsonvalue.V, error){v.GetObject, v.GetArray} {
		x, err := get(f, o...)
		if res == mOK && ((k == 0 && want.K == KObj) || (k == 1 && want.K == KArr)) {
			if x != got || err != nil {
				c.Fail("GetObject/GetArray returns %v, %v", x, err)
			}
		} else {
			errClass(c, "GetObject/GetArray", res, err)
			if x == nil || x.ValueType() != jsonvalue.NotExist {
				c.Fail("GetObject/GetArray returns %v with an error", x)
			}
		}
	}
	if d := diff(w, v, "$"); d != "" {
		c.Fail("document changed by reading: %s", d)
	}
}

func c09(r *Run) {
	r.Assume("64-bit int; uintptr and nested slices inside a path are not path spellings and are not decided")
	texts := []string{
		`{"a":{"b":{"c":1},"":2,"0":3},"b":[4,[5,6],{"a":7,"A":8}],"A":"x","":{"":[9]},"1":10}`,
		`[[11,12],{"a":[13,{"b":14}],"0":15},"s",[[[16]]],-17]`,
		`[0]`, `[]`, `{}`, `"str"`, `null`,
		`{"arr":[0,1,2,3,4,5,6,7,8,9,10,11]}`,
	}
	var docs []*Val
	for _, t := range texts {
		w, _, err := refParse([]byte(t), false)
		if err != nil {
			panic(err)
		}
		docs = append(docs, w)
	}
	mk := func(d int) *jsonvalue.V { return jsonvalue.MustUnmarshalString(texts[d]) }
	ext := []pel{pi(math.MaxInt64), pi(math.MinInt64), pi(math.MinInt64 + 1), pi(math.MaxInt64 - 1), pi(1 << 32), pi(-1 << 32), pi(1<<32 + 1), pi(-(1 << 32) - 1), pi(math.MaxInt32), pi(math.MinInt32),
		pi(math.MaxUint32), pi(255), pi(128), pi(-128), pi(65535), pi(256), pi(65536), pi(127), pi(12), pi(11), pi(-12), pi(-13)}
	keys := []pel{pk("a"), pk("b"), pk("A"), pk(""), pk("0"), pk("1"), pk("c"), pk("arr"), pk("no")}
	small := []pel{pi(0), pi(1), pi(2), pi(3), pi(4), pi(5), pi(6), pi(-1), pi(-2), pi(-3), pi(-5), pi(-6)}
	all := append(append(append([]pel{}, keys...), small...), ext...)
	ops := func(path []pel, pa []any) (out []*mutOp) {
		for _, k := range []byte("sbeijd") {
			out = append(out, &mutOp{kind: k, path: path, child: 1, pa: pa, class: true})
		}
		return
	}
	one := func(c *C, d int, path []pel, pa []any, mutate bool) {
		c.Step(9)
		c.Do(func() string { return fmt.Sprintf("read %s at %s", texts[d], showParams(pa)) }, func() { readAt(c, mk(d), docs[d], path, pa) })
		if mutate {
			c.Step(6)
			for _, o := range ops(path, pa) {
				c.Do(func() string { return fmt.Sprintf("%s: %s spelled %s", texts[d], o, showParams(pa)) }, func() { o.verify(c, mk(d), docs[d].clone()) })
			}
		}
	}
	plain := func(path []pel) []any { return pathAny(path) }
	// 1. every path, plainly spelled
	depth := r.Pick(3, 4)
	r.Par("paths", fmt.Sprintf("all paths of 1-%d elements over %d keys and indices x %d documents, reading; mutating up to depth 2", depth, len(all), len(docs)), len(all), func(c *C, sh int) {
		for d := range docs {
			var rec func(p []pel)
			rec = func(p []pel) {
				if c.Expired() {
					return
				}
				c.State(hashStr(pathStr(p)))
				one(c, d, append([]pel{}, p...), plain(p), len(p) <= 2)
				if len(p) == depth {
					return
				}
				// a failing prefix stays failing: extend it only by a few elements
				next := all
				if _, res := docs[d].at(p); res != mOK {
					next = []pel{pk("a"), pi(0), pi(-1)}
				}
				for _, e := range next {
					rec(append(p, e))
				}
			}
			rec([]pel{all[sh]})
		}
	})
	// 2. spellings
	r.Par("spellings", fmt.Sprintf("paths of 1-2 elements x every integer / string type of each element (%d/%d) x %d parameter containers, reading and mutating", len(intKinds), len(strKinds), nContainers), len(all), func(c *C, sh int) {
		for d := range docs {
			nx := []pel{{}}
			if _, res := docs[d].at([]pel{all[sh]}); res == mOK {
				nx = append(nx, pk("a"), pk("0"), pk("no"), pi(0), pi(1), pi(-1), pi(-2), pi(5), pi(255), pi(1<<32))
			}
			for ni, n := range nx {
				path := []pel{all[sh]}
				if ni > 0 {
					path = append(path, n)
				}
				for k1 := 0; k1 < len(intKinds); k1++ {
					e1, ok := spell(path[0], k1)
					if !ok {
						continue
					}
					for k2 := 0; k2 < len(intKinds); k2++ {
						el := []any{e1}
						if len(path) == 2 {
							e2, ok := spell(path[1], k2)
							if !ok {
								continue
							}
							el = append(el, e2)
						} else if k2 > 0 {
							break
						}
						for k := 0; k < nContainers; k++ {
							if pa, ok := contain(el, k); ok {
								one(c, d, path, pa, true)
							}
						}
					}
				}
			}
		}
	})
	r.Par("long spellings", "paths of 3-4 existing or missing elements x containers x (plain, all defined types, all 64-bit types)", len(docs), func(c *C, sh int) {
		for n := 3; n <= 4; n++ {
			for _, p := range pathsOver([]pel{pk("a"), pk("b"), pi(0), pi(1), pi(-1), pi(2), pk("")}, n) {
				for _, kk := range [][2]int{{0, 0}, {10, 1}, {14, 2}, {9, 0}, {5, 1}, {20, 3}, {21, 4}, {22, 3}} {
					var el []any
					ok := true
					for _, e := range p {
						k := kk[0]
						if e.str {
							k = kk[1]
						}
						x, o := spell(e, k)
						ok = ok && o
						el = append(el, x)
					}
					if !ok {
						continue
					}
					for k := 0; k < nContainers; k++ {
						if pa, ok := contain(el, k); ok {
							one(c, sh, p, pa, n == 3 || r.thorough)
						}
					}
				}
			}
		}
	})
	// 3. malformed parameters
	x, s := 0, "a"
	bad := []any{nil, 1.0, float32(0), true, false, &x, &s, struct{}{}, struct{ A int }{1}, map[string]int{"a": 1}, func() {}, make(chan int), complex(1, 0), fmt.Errorf("a"), (*int)(nil), (*string)(nil), jsonvalue.NewInt(0),
		jsonvalue.NewString("a"), *jsonvalue.NewInt(0), tStringer{"a"}, &tStringer{"a"}, tTexter{"a"}, &tPtrString{}, (*tPtrString)(nil), tFloatName(0), tBoolName(true)}
	// positions no integer of the machine can tell, some of which wrap to positions that exist
	for _, u := range []uint64{math.MaxUint64, math.MaxUint64 - 1, math.MaxUint64 - 2, 1 << 63, 1<<63 + 1, 1<<63 + 5} {
		bad = append(bad, u, uint(u), tUint64(u), tUint(u))
	}
	r.Par("malformed parameters", fmt.Sprintf("%d parameters of other types and positions beyond all integers at every position of paths of 1-3 elements x documents x containers", len(bad)), len(bad), func(c *C, sh int) {
		badRes := mOther
		for d := range docs {
			for n := 1; n <= 3; n++ {
				for _, p := range pathsOver([]pel{pk("a"), pk("b"), pi(0), pi(-1), pi(1)}, n-1) {
					for pos := 0; pos <= n-1; pos++ {
						el := append(append(append([]any{}, pathAny(p[:pos])...), bad[sh]), pathAny(p[pos:])...)
						for k := 0; k < nContainers; k++ {
							pa, ok := contain(el, k)
							if !ok {
								continue
							}
							c.Do(func() string { return fmt.Sprintf("%s with malformed path %s", texts[d], showParams(pa)) }, func() {
								v := mk(d)
								res := badRes
								if _, r := docs[d].at(p[:pos]); r != mOK {
									res = r
								}
								got, err := v.Get(pa[0], pa[1:]...)
								errClass(c, "Get", res, err)
								if got == nil || got.ValueType() != jsonvalue.NotExist {
									c.Fail("Get returns %v with an error", got)
								}
								if err := v.Delete(pa[0], pa[1:]...); err == nil {
									c.Fail("Delete accepts it")
								}
								for i, f := range []func() (*jsonvalue.V, error){
									func() (*jsonvalue.V, error) { return v.Set("new").At(pa[0], pa[1:]...) },
									func() (*jsonvalue.V, error) { return v.Insert("new").Before(pa[0], pa[1:]...) },
									func() (*jsonvalue.V, error) { return v.Insert("new").After(pa[0], pa[1:]...) },
									func() (*jsonvalue.V, error) { return v.Append("new").InTheBeginning(pa...) },
									func() (*jsonvalue.V, error) { return v.Append("new").InTheEnd(pa...) },
								} {
									ret, err := f()
									if err == nil {
										c.Fail("mutating call %d accepts it", i)
									}
									if ret == nil || ret.ValueType() != jsonvalue.NotExist {
										c.Fail("mutating call %d returns %v with an error", i, ret)
									}
								}
								if dd := diff(docs[d], v, "$"); dd != "" {
									c.Fail("the document changed: %s", dd)
								}
							})
						}
					}
				}
			}
		}
	})
	r.Par("empty and multiple lists", "empty parameter lists, and further parameters after a list, for every call", len(docs), func(c *C, sh int) {
		lists := []any{[]any{}, [0]any{}, []string{}, []int(nil), tPath{}}
		for _, l := range lists {
			c.Do(func() string { return fmt.Sprintf("%s with empty list %T", texts[sh], l) }, func() {
				v := mk(sh)
				got, err := v.Get(l)
				errClass(c, "Get", mOther, err)
				if got == nil || got.ValueType() != jsonvalue.NotExist {
					c.Fail("Get returns %v with an error", got)
				}
				if v.Delete(l) == nil {
					c.Fail("Delete accepts it")
				}
				if _, err := v.Set(1).At(l); err == nil {
					c.Fail("Set accepts it")
				}
				if _, err := v.Insert(1).Before(l); err == nil {
					c.Fail("Before accepts it")
				}
				if _, err := v.Insert(1).After(l); err == nil {
					c.Fail("After accepts it")
				}
				if dd := diff(docs[sh], v, "$"); dd != "" {
					c.Fail("the document changed: %s", dd)
				}
				for _, k := range []byte("be") {
					(&mutOp{kind: k, child: 1, pa: []any{l}, class: true}).verify(c, mk(sh), docs[sh].clone())
				}
			})
		}
		for _, l := range []any{[]any{"a"}, []any{0}, [1]string{"b"}, []int{0}, []any{}, []any{"a", "b"}} {
			for _, more := range [][]any{{"a"}, {0}, {nil}, {[]any{0}}, {"b", 0}} {
				pa := append([]any{l}, more...)
				c.Do(func() string { return fmt.Sprintf("%s with list and more: %s", texts[sh], showParams(pa)) }, func() {
					v := mk(sh)
					if _, err := v.Get(pa[0], pa[1:]...); err == nil {
						c.Fail("Get accepts it")
					}
					if err := v.Delete(pa[0], pa[1:]...); err == nil {
						c.Fail("Delete accepts it")
					}
					if _, err := v.Set(1).At(pa[0], pa[1:]...); err == nil {
						c.Fail("Set accepts it")
					}
					if _, err := v.Insert(1).Before(pa[0], pa[1:]...); err == nil {
						c.Fail("Before accepts it")
					}
					if _, err := v.Insert(1).After(pa[0], pa[1:]...); err == nil {
						c.Fail("After accepts it")
					}
					if _, err := v.Append(1).InTheEnd(pa...); err == nil {
						c.Fail("InTheEnd accepts it")
					}
					if _, err := v.Append(1).InTheBeginning(pa...); err == nil {
						c.Fail("InTheBeginning accepts it")
					}
					if dd := diff(docs[sh], v, "$"); dd != "" {
						c.Fail("the document changed: %s", dd)
					}
				})
			}
		}
	})
	// 4. array lengths
	r.Par("positions", "arrays of 0..40, 63..66, 127..130, 255..258 elements x every position from -len-2 to len+2 x every call", 40, func(c *C, sh int) {
		var lens []int
		for n := 0; n <= 258; n++ {
			if (n <= 40 || (n >= 63 && n <= 66) || (n >= 127 && n <= 130) || n >= 255) && n%40 == sh {
				lens = append(lens, n)
			}
		}
		for _, n := range lens {
			w := &Val{K: KArr}
			for i := 0; i < n; i++ {
				w.A = append(w.A, vNum(fmt.Sprint(i)))
			}
			for i := -n - 2; i <= n+2; i++ {
				path := []pel{pi(i)}
				c.Do(func() string { return fmt.Sprintf("array of %d, position %d", n, i) }, func() {
					readAt(c, build(w), w, path, []any{i})
					for _, o := range ops(path, []any{i}) {
						o.verify(c, build(w), w.clone())
					}
				})
			}
		}
	})
}
