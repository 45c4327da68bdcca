package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
	"github.com/Andrew-M-C/go.jsonvalue/beta"
)

// Calls of the library from inside its own callbacks: at every moment at which the library calls the user's code, every
// operation of the schedule explorer is run, and must give what it gives alone; so must the call around it.

type outerOp struct {
	name  string
	props string
	f     func(e *readEnv, cb func()) string
}

// marshalers and unmarshalers that call back
var cbNow func()

type cbJSON struct{ N int }

func (x cbJSON) MarshalJSON() ([]byte, error) {
	cbNow()
	return []byte(fmt.Sprintf(`{"cb":[%d]}`, x.N)), nil
}

type cbPtr struct{ N int }

func (x *cbPtr) MarshalJSON() ([]byte, error) { cbNow(); return []byte(fmt.Sprintf(`[%d]`, x.N)), nil }

type cbText struct{ N int }

func (x cbText) MarshalText() ([]byte, error) { cbNow(); return []byte(fmt.Sprintf(`t<%d`, x.N)), nil }

type cbUn struct{ Got string }

func (x *cbUn) UnmarshalJSON(b []byte) error {
	s := string(b)
	cbNow()
	if s != string(b) {
		x.Got = "changed: "
	}
	x.Got += canonOf(bytes.Clone(b), nil)
	return nil
}

type cbUnText struct{ Got string }

func (x *cbUnText) UnmarshalText(b []byte) error {
	s := string(b)
	cbNow()
	x.Got = fmt.Sprint(s, s == string(b))
	return nil
}

type cbStruct struct {
	A int            `json:"a"`
	B cbJSON         `json:"b,omitempty"`
	C *cbPtr         `json:"c"`
	D map[cbText]int `json:"d"`
	cbEmb
	E []any  `json:"e"`
	F string `json:"f,omitempty"`
}

type cbEmb struct {
	G cbText `json:"g"`
	H int    `json:"h,string"`
}

func cbData() any {
	return map[string]any{"x": cbStruct{1, cbJSON{2}, &cbPtr{3}, map[cbText]int{{4}: 5}, cbEmb{cbText{6}, 7}, []any{cbJSON{8}, "s", &cbJSON{9}}, "f"}}
}

func outerOps() []outerOp {
	doc := func() *jsonvalue.V {
		return jsonvalue.MustUnmarshalString(`{"b":[{"y":1,"x":2},[{"q":0,"p":9}]],"a":{"z":{"d":1,"c":"é<\n"}},"c":null}`)
	}
	keys := func(l []string) string { sort.Strings(l); return strings.Join(l, ",") }
	with := func(f func(e *readEnv) string) func(e *readEnv, cb func()) string {
		return func(e *readEnv, cb func()) string {
			old := cbNow
			defer func() { cbNow = old }()
			cbNow = cb
			return f(e)
		}
	}
	lessOpt := func(cb func()) jsonvalue.Option {
		return jsonvalue.OptKeySequenceWithLessFunc(func(p *jsonvalue.ParentInfo, a, b string, _, _ *jsonvalue.V) bool {
			path := ""
			if p != nil {
				path = p.KeyPath.String()
			}
			cb()
			if p != nil && path != p.KeyPath.String() {
				panic("the path changes under the less function")
			}
			return a < b
		})
	}
	ops := []outerOp{
		{"SortArray", "C26", func(e *readEnv, cb func()) string {
			v := jsonvalue.MustUnmarshalString(`[3,1,2,0,4]`)
			v.SortArray(func(a, b *jsonvalue.V) bool { x := a.Int(); cb(); return x < b.Int() && x == a.Int() })
			return v.MustMarshalString()
		}},
		{"SortArray of many", "C26", func(e *readEnv, cb func()) string {
			v := jsonvalue.NewArray()
			for i := 0; i < 14; i++ {
				v.MustAppend(map[string]int{"n": i * 5 % 14}).InTheEnd()
			}
			v.SortArray(func(a, b *jsonvalue.V) bool { cb(); return a.MustGet("n").Int() > b.MustGet("n").Int() })
			return v.MustMarshalString()
		}},
		{"Marshal with a less function", "C29 C07", func(e *readEnv, cb func()) string {
			s, err := doc().MarshalString(lessOpt(cb))
			return fmt.Sprint(s, err)
		}},
		{"Marshal of the shared value with a less function and more options", "C29 C07 C21", func(e *readEnv, cb func()) string {
			s, err := e.v.MarshalString(lessOpt(cb), jsonvalue.OptIndent("", "\t"), jsonvalue.OptUTF8(), jsonvalue.OptOmitNull(true))
			return fmt.Sprint(s, err)
		}},
		{"Marshal with a less function in Opt, in json.Marshal of a struct", "C29 C14", with(func(e *readEnv) string {
			b, err := json.Marshal(struct {
				A cbJSON
				V *jsonvalue.V
				W cbText
			}{V: e.v})
			return canonOf(b, err)
		})},
		{"RangeObjects", "C23", func(e *readEnv, cb func()) string {
			var l []string
			e.v.RangeObjects(func(k string, x *jsonvalue.V) bool { cb(); l = append(l, k+valOf(x, nil)); return true })
			return keys(l)
		}},
		{"RangeObjectsBySetSequence", "C23 C11", func(e *readEnv, cb func()) (s string) {
			e.v.RangeObjectsBySetSequence(func(k string, x *jsonvalue.V) bool { cb(); s += k + valOf(x, nil); return k != "o" })
			return
		}},
		{"RangeArray", "C23", func(e *readEnv, cb func()) (s string) {
			e.v.MustGet("a").RangeArray(func(i int, x *jsonvalue.V) bool { cb(); s += fmt.Sprint(i, valOf(x, nil)); return true })
			return
		}},
		{"ForRangeObj, ForRangeArr", "C23", func(e *readEnv, cb func()) string {
			var l []string
			for k, x := range e.v.ForRangeObj() {
				cb()
				l = append(l, k+valOf(x, nil))
			}
			for i, x := range e.v.MustGet("a").ForRangeArr() {
				cb()
				l = append(l, fmt.Sprint(i, valOf(x, nil)))
			}
			return keys(l)
		}},
		{"IterObjects, IterArray", "C23", func(e *readEnv, cb func()) string {
			var l []string
			for it := range e.v.IterObjects() {
				cb()
				l = append(l, it.K+valOf(it.V, nil))
			}
			for it := range e.v.MustGet("a").IterArray() {
				cb()
				l = append(l, fmt.Sprint(it.I, valOf(it.V, nil)))
			}
			return keys(l)
		}},
		{"Import", "C13", with(func(e *readEnv) string { return valOf(jsonvalue.Import(cbData())) })},
		{"Import ignoring omitempty", "C13", with(func(e *readEnv) string { return valOf(jsonvalue.Import(cbStruct{}, jsonvalue.OptIgnoreOmitempty())) })},
		{"New, NewObject", "C13", with(func(e *readEnv) string {
			return valOf(jsonvalue.New(cbJSON{1}), nil) + valOf(jsonvalue.NewObject(jsonvalue.M{"a": cbText{2}, "b": []any{&cbPtr{3}}}), nil)
		})},
		{"Set, Append, Insert of a marshaler", "C08 C13", with(func(e *readEnv) string {
			v := doc()
			v.MustSet(cbJSON{1}).At("b", 0, "n", "m")
			v.MustAppend(&cbPtr{2}).InTheEnd("b")
			v.MustInsert(cbText{3}).Before("b", 0)
			v.At("b", 1).Set(map[string]any{"k": cbJSON{4}})
			return valOf(v, nil)
		})},
		{"Export", "C14", with(func(e *readEnv) string {
			var x struct {
				A []cbUn
				O map[string]cbUn
				S cbUnText
				N int
			}
			err := e.v.Export(&x)
			return fmt.Sprint(x, err)
		})},
		{"json.Unmarshal around", "C14", with(func(e *readEnv) string {
			var x struct {
				A cbUn
				V *jsonvalue.V
				B cbUn
				W jsonvalue.V
				C cbUnText
			}
			err := json.Unmarshal([]byte(`{"A":[1],"V":{"q":[1,"é"]},"B":{"a":2},"W":"w","C":"text"}`), &x)
			return fmt.Sprint(x.A, x.B, x.C) + valOf(x.V, err) + valOf(&x.W, nil)
		})},
		{"Contains", "C22", with(func(e *readEnv) string {
			return fmt.Sprint(beta.Contains(jsonvalue.MustUnmarshalString(`{"b":{"cb":[2]},"x":[{"cb":[1]},"t<3"],"c":1}`), map[string]any{"b": cbJSON{2}}),
				beta.Contains(jsonvalue.MustUnmarshalString(`{"x":[0,{"cb":[1]},"t<3"]}`), []any{cbJSON{1}, cbText{3}}, "x"))
		})},
	}
	return ops
}

func reentrant(r *Run, id string) {
	var outers []outerOp
	for _, o := range outerOps() {
		if id == "C17" || strings.Contains(o.props, id) {
			outers = append(outers, o)
		}
	}
	if len(outers) == 0 {
		return
	}
	ops := readOps()
	for i := range ops {
		ops[i].name = strings.TrimSpace(ops[i].name)
	}
	all := outerOps()
	nin := len(ops)
	for _, o := range all { // the callbacks of the inner calls call the library too
		ops = append(ops, readOp{name: o.name + " (parsing, marshalling and importing in its callbacks)", f: func(e *readEnv) string {
			return o.f(e, func() {
				x := jsonvalue.MustUnmarshalString(`{"l":["é\n",{"m":1,"a":2}]}`)
				if s := x.MustMarshalString(jsonvalue.OptDefaultStringSequence(), jsonvalue.OptUTF8()); s != `{"l":["é\n",{"a":2,"m":1}]}` {
					panic("innermost marshal gives " + s)
				}
				if y, err := jsonvalue.Import(map[string]any{"k": schedStruct{S: "q"}}); err != nil || y.Len() != 1 {
					panic("innermost import fails")
				}
			})
		}})
	}
	reset := func(o readOp) *readEnv {
		freshOptions()
		e := &readEnv{}
		e.reset()
		if o.wide && !o.own {
			e.rich = jsonvalue.MustUnmarshalString(richText)
		}
		if o.big {
			e.big = jsonvalue.MustUnmarshalString(bigText)
		}
		if o.fresh {
			e.retype()
		}
		return e
	}
	// one at a time: what the callbacks call and the options are common
	r.Seq("calls from callbacks", fmt.Sprintf("%d calls with callbacks x %d operations of the schedule explorer and %d calls with callbacks that call again, at each of the first 6 callbacks, at the last and at every one", len(outers), nin, len(all)), func(c *C) {
		for _, o := range outers {
			n := 0
			want := runOp(func(e *readEnv) string { return o.f(e, func() { n++ }) }, reset(readOp{}))
			if strings.Contains(want, "panic") || n == 0 {
				c.Do(func() string { return o.name }, func() { c.Fail("gives %s with %d callbacks", want, n) })
				continue
			}
			for i, in := range ops {
				if c.Expired() {
					return
				}
				alone := runOp(in.f, reset(in))
				for k := -1; k < min(n, 6)+1; k++ {
					at := k
					if k >= 6 || k == n {
						at = n - 1
					}
					if k == -1 && i < nin && in.wide {
						continue // every moment only for the smaller ones
					}
					c.Step(1)
					c.Do(func() string {
						return fmt.Sprintf("%s in callback %d of %s", in.name, at, o.name)
					}, func() {
						e, m, bad := reset(in), 0, ""
						got := runOp(func(e *readEnv) string {
							return o.f(e, func() {
								if m == at || at == -1 {
									if g := runOp(in.f, e); g != alone && bad == "" {
										bad = fmt.Sprintf("the inner call gives\n%s\nalone it gives\n%s", clip(g, 600), clip(alone, 600))
									}
								}
								m++
							})
						}, e)
						if bad != "" {
							c.Fail("%s", bad)
						}
						if got != want {
							c.Fail("the outer call gives\n%s\nalone it gives\n%s", clip(got, 600), clip(want, 600))
						}
						c.State(hashStr(fmt.Sprint(o.name, i, m)))
					})
				}
			}
		}
	})
}

// defaultsFromInside changes the defaults from inside the callbacks of a running call.
func defaultsFromInside(r *Run) {
	changes := []struct {
		name string
		opts []jsonvalue.Option // nil: reset
	}{
		{"reset", nil},
		{"omit nulls", []jsonvalue.Option{jsonvalue.OptOmitNull(true), jsonvalue.OptDefaultStringSequence()}},
		{"indent, UTF8", []jsonvalue.Option{jsonvalue.OptIndent("", " "), jsonvalue.OptUTF8(), jsonvalue.OptDefaultStringSequence()}},
		{"no HTML escapes, key list", []jsonvalue.Option{jsonvalue.OptEscapeHTML(false), jsonvalue.OptKeySequence([]string{"z", "n", "s"})}},
		{"less function that marshals", []jsonvalue.Option{jsonvalue.OptKeySequenceWithLessFunc(func(p *jsonvalue.ParentInfo, a, b string, x, y *jsonvalue.V) bool {
			_ = x.MustMarshal(jsonvalue.OptSetSequence())
			return a < b
		})}},
	}
	apply := func(i int) {
		if changes[i].opts == nil {
			jsonvalue.ResetDefaultMarshalOptions()
		} else {
			jsonvalue.SetDefaultMarshalOptions(changes[i].opts...)
		}
	}
	doc := func() *jsonvalue.V {
		return jsonvalue.MustUnmarshalString(`{"s":"é<","n":{"y":null,"x":[{"b":1,"a":2}]},"z":null}`)
	}
	show := func(v *jsonvalue.V) string {
		return canonOf(v.Marshal(jsonvalue.OptDefaultStringSequence())) + v.MustMarshalString(jsonvalue.OptDefaultStringSequence())
	}
	outers := []struct {
		name string
		f    func(cb func()) string
	}{
		{"a less function", func(cb func()) string {
			return doc().MustMarshalString(jsonvalue.OptKeySequenceWithLessFunc(func(_ *jsonvalue.ParentInfo, a, b string, _, _ *jsonvalue.V) bool { cb(); return a < b }))
		}},
		{"the MarshalJSON of another part of the Go data", func(cb func()) string {
			old := cbNow
			defer func() { cbNow = old }()
			cbNow = cb
			b, err := json.Marshal([]any{cbJSON{1}, "x", cbJSON{2}})
			return fmt.Sprint(string(b), err) + valOf(jsonvalue.Import(cbData()))
		}},
		{"RangeObjects", func(cb func()) string {
			n := 0
			doc().RangeObjects(func(string, *jsonvalue.V) bool { cb(); n++; return true })
			return fmt.Sprint(n)
		}},
		{"SortArray", func(cb func()) string {
			v := jsonvalue.MustUnmarshalString(`[2,1,0]`)
			v.SortArray(func(a, b *jsonvalue.V) bool { cb(); return a.Int() < b.Int() })
			return fmt.Sprint(v.MustGet(0).Int(), v.MustGet(1).Int(), v.MustGet(2).Int())
		}},
	}
	r.Seq("changes of the defaults from callbacks", fmt.Sprintf("%d calls with callbacks, %d settings before x %d settings made at each callback (and another at the next): the running call keeps its options, the next calls use the new ones at once", len(outers), len(changes), len(changes)), func(c *C) {
		defer jsonvalue.ResetDefaultMarshalOptions()
		var direct []string
		for i := range changes {
			apply(i)
			direct = append(direct, show(doc()))
		}
		for _, o := range outers {
			for before := range changes {
				apply(before)
				n := 0
				want := o.f(func() { n++ })
				for k := 0; k < n; k++ {
					for i := range changes {
						for j := -1; j < len(changes); j++ {
							c.Step(2)
							c.Do(func() string {
								s := fmt.Sprintf("defaults %q, then %q in callback %d of %s", changes[before].name, changes[i].name, k, o.name)
								if j >= 0 {
									s += fmt.Sprintf(", %q in the next", changes[j].name)
								}
								return s
							}, func() {
								apply(before)
								m, cur, bad := 0, before, ""
								got := o.f(func() {
									if m == k {
										apply(i)
										cur = i
									} else if m == k+1 && j >= 0 {
										apply(j)
										cur = j
									}
									if s := show(doc()); s != direct[cur] && bad == "" {
										bad = fmt.Sprintf("callback %d: a marshal with defaults %q gives\n%s\nshould be\n%s", m, changes[cur].name, s, direct[cur])
									}
									m++
								})
								if bad != "" {
									c.Fail("%s", bad)
								}
								if got != want {
									c.Fail("the running call gives\n%s\nwith the defaults it started with it gives\n%s", got, want)
								}
								if s := show(doc()); s != direct[cur] {
									c.Fail("afterwards a marshal with defaults %q gives\n%s\nshould be\n%s", changes[cur].name, s, direct[cur])
								}
								c.State(hashStr(s2(got, cur)))
							})
						}
					}
				}
			}
		}
	})
}

func s2(s string, n int) string { return fmt.Sprint(s, n) }
