package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strings"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
	"github.com/Andrew-M-C/go.jsonvalue/beta"
)

// Histories with observation after every step: whatever was read from a value before it is changed, directly or through
// one of its descendants, must not influence what is read afterwards. Every observation of a property is made in every
// state of every history of one execution.

// obsOp is one change, of the model and of the library value.
type obsOp struct {
	name  string
	model func(w *Val)
	real  func(v *jsonvalue.V) error
	fails bool // the call must fail and change nothing
}

// obsMem is what a property keeps from earlier states of the history.
type obsMem struct {
	was  []*Val // content of earlier states
	kept []func(c *C)
}

type observation func(c *C, w *Val, v *jsonvalue.V, m *obsMem)

var observed = map[string]observation{}

// obsSpecials: the documents hold NaN and infinities.
var obsSpecials = map[string]bool{"C15": true, "C20": true}

var obsTexts = []string{
	`{"a":1,"b":[2,"é</&",{"c":3,"d":null}],"e":{"f":true,"G":[4,5]}}`,
	`[{"b":1,"a":2,"c":3},[3,1,2],"12"]`,
	`{"A":"x","b":{"x":1,"y":null,"z":3},"c":null}`,
	`[[[1,2],[3]],[],{}]`,
}

// obsNode gives the node of v at path as the library has it.
func obsNode(v *jsonvalue.V, p []pel) *jsonvalue.V {
	if len(p) == 0 {
		return v
	}
	return v.MustGet(p[0].any(), pathAny(p[1:])...)
}

// obsOps lists the changes possible in a document: at every node, through the root and through the node itself.
func obsOps(w *Val, special, small bool) (out []obsOp) {
	mut := func(at []pel, kind byte, last pel, child int) {
		for way := 0; way < 2; way++ {
			if way == 1 && len(at) == 0 {
				continue
			}
			full := append(at[:len(at):len(at)], last)
			o := &mutOp{kind: kind, path: full, child: child}
			l := &mutOp{kind: kind, path: []pel{last}, child: child}
			if kind == 'b' || kind == 'e' {
				o.path, l.path = at, nil
			}
			name := o.String()
			if way == 1 {
				name = "at " + pathStr(at) + ": " + l.String()
			}
			r := o.real
			if way == 1 {
				r = func(v *jsonvalue.V) (*jsonvalue.V, any, error) { return l.real(obsNode(v, at)) }
			}
			out = append(out, obsOp{name: name, model: func(w *Val) { o.model(w) }, real: func(v *jsonvalue.V) error { _, _, err := r(v); return err }})
		}
	}
	replace := func(at []pel, x *Val, text string) {
		x = x.clone()
		out = append(out, obsOp{name: fmt.Sprintf("at %s: UnmarshalJSON(%s)", pathStr(at), text), model: func(w *Val) { n, _ := w.at(at); *n = *x.clone() }, real: func(v *jsonvalue.V) error { return obsNode(v, at).UnmarshalJSON([]byte(text)) }})
	}
	var rec func(x *Val, at []pel)
	rec = func(x *Val, at []pel) {
		at = at[:len(at):len(at)]
		switch x.K {
		case KObj:
			if n := len(x.O); n > 0 {
				mut(at, 's', pk(x.O[0].K), 0)
				mut(at, 'd', pk(x.O[0].K), 0)
				if n > 1 {
					mut(at, 'd', pk(x.O[n-1].K), 0)
				}
				if !small {
					mut(at, 's', pk(x.O[n-1].K), 4)
					mut(at, 's', pk(x.O[n/2].K), 5)
				}
			}
			if x.get("n") == nil {
				mut(at, 's', pk("n"), 1)
			}
		case KArr:
			n := len(x.A)
			mut(at, 'e', pel{}, 0)
			if n > 0 {
				mut(at, 's', pi(0), 1)
				mut(at, 'd', pi(0), 0)
				if !small {
					mut(at, 's', pi(-1), 4)
					mut(at, 'b', pel{}, 3)
					mut(at, 'd', pi(-1), 0)
					mut(at, 'j', pi(0), 0)
				}
			}
			if n > 1 {
				out = append(out, obsOp{name: "at " + pathStr(at) + ": SortArray", model: func(w *Val) {
					m, _ := w.at(at)
					sort.SliceStable(m.A, func(i, j int) bool { return m.A[i].String() < m.A[j].String() })
				}, real: func(v *jsonvalue.V) error {
					obsNode(v, at).SortArray(func(a, b *jsonvalue.V) bool { return read(a).String() < read(b).String() })
					return nil
				}})
			}
		}
		replace(at, vNum("5"), `5`)
		if !small {
			replace(at, vObj("u", vNum("1"), "v", vArr(vNull())), `{"u":1,"v":[null]}`)
			replace(at, vArr(vStr("x"), vNum("2.50")), `["x",2.50]`)
			out = append(out, obsOp{name: fmt.Sprintf("at %s: UnmarshalJSON([1)", pathStr(at)), model: func(*Val) {}, fails: true, real: func(v *jsonvalue.V) error { return obsNode(v, at).UnmarshalJSON([]byte(`[1`)) }})
		}
		if special && len(at) > 0 {
			for _, s := range []string{"NaN", "-Inf"} {
				out = append(out, obsOp{name: fmt.Sprintf("Set(%s).At(%s)", s, pathStr(at)), model: func(w *Val) { w.mSet(at, vNum(s)) }, real: func(v *jsonvalue.V) error {
					_, err := v.Set(buildNum(s)).At(at[0].any(), pathAny(at[1:])...)
					return err
				}})
			}
		}
		for i, y := range x.A {
			rec(y, append(at, pi(i)))
		}
		for _, m := range x.O {
			rec(m.V, append(at, pk(m.K)))
		}
	}
	rec(w, nil)
	return
}

func obsRun(r *Run, id string, see observation) {
	special := obsSpecials[id]
	run := func(name string, depth int, small bool, texts []string) {
		var docs []*Val
		type start struct {
			d, op int
		}
		var starts []start
		for d, t := range texts {
			w, _, err := refParse([]byte(t), false)
			if err != nil {
				panic(err)
			}
			docs = append(docs, w)
			for i := range obsOps(w, special, small) {
				starts = append(starts, start{d, i})
			}
		}
		r.Par(name, fmt.Sprintf("every history of %d changes at any node of %d documents, through the root or through the node; everything observed in every state, in one execution", depth, len(docs)), len(starts), func(c *C, sh int) {
			s := starts[sh]
			hist := make([]obsOp, 0, depth)
			ws := make([]*Val, 0, depth)
			var rec func(w *Val)
			rec = func(w *Val) {
				if c.Expired() {
					return
				}
				if len(hist) == depth {
					for way := 0; way < 2; way++ {
						c.Do(func() string {
							var n []string
							for _, o := range hist {
								n = append(n, o.name)
							}
							return fmt.Sprintf("%s (construction %d), observed before and after each of: %s", texts[s.d], way, strings.Join(n, "; "))
						}, func() {
							v := build(docs[s.d])
							if way == 1 {
								v = jsonvalue.MustUnmarshalString(texts[s.d])
							}
							m := &obsMem{}
							see(c, docs[s.d], v, m)
							m.was = append(m.was, docs[s.d])
							for i, o := range hist {
								c.Step(1)
								if err := o.real(v); (err != nil) != o.fails {
									c.Fail("%s gives error %v", o.name, err)
								}
								see(c, ws[i], v, m)
								m.was = append(m.was, ws[i])
							}
							for _, f := range m.kept {
								f(c)
							}
						})
					}
					return
				}
				ops := obsOps(w, special, small)
				for i, o := range ops {
					if len(hist) == 0 && i != s.op {
						continue
					}
					nw := w.clone()
					o.model(nw)
					c.State(hashStr(nw.String()))
					hist, ws = append(hist, o), append(ws, nw)
					rec(nw)
					hist, ws = hist[:len(hist)-1], ws[:len(ws)-1]
				}
			}
			rec(docs[s.d])
		})
	}
	run("observed histories", 2, false, obsTexts)
	run("longer observed histories", 3, true, obsTexts[r.Pick(1, 0):r.Pick(3, 4)])
	if r.thorough && id != "C09" { // too many readings
		run("all longer observed histories", 3, false, obsTexts[1:3])
	}
}

// obsEach applies f to every node.
func obsEach(w *Val, v *jsonvalue.V, p []pel, f func(w *Val, v *jsonvalue.V, p []pel)) {
	f(w, v, p)
	p = p[:len(p):len(p)]
	for i, x := range w.A {
		obsEach(x, v.MustGet(i), append(p, pi(i)), f)
	}
	for _, m := range w.O {
		obsEach(m.V, v.MustGet(m.K), append(p, pk(m.K)), f)
	}
}

// obsModes is the options that give one order.
func obsModes() (out []optCase, ms []optModel) {
	for _, o := range []optCase{
		{"SetSequence", jsonvalue.OptSetSequence(), func(m *optModel) { m.order = "set" }},
		{"DefaultStringSequence", jsonvalue.OptDefaultStringSequence(), func(m *optModel) { m.order = "dict" }},
		{"LessFunc(reverse)", jsonvalue.OptKeySequenceWithLessFunc(reverseLess), func(m *optModel) { m.order = "reverse" }},
		{"KeySequence(c,zz,b)", jsonvalue.OptKeySequence([]string{"c", "zz", "b"}), func(m *optModel) { m.order = "seq:c zz b" }},
	} {
		m := optModel{}
		o.apply(&m)
		out, ms = append(out, o), append(ms, m)
	}
	return
}

func init() {
	observed["C05"] = func(c *C, w *Val, v *jsonvalue.V, m *obsMem) {
		for _, s := range obsOptSets {
			want := w
			if s.omit {
				want = w.dropNulls()
			}
			b, err := v.Marshal(s.opts...)
			if err != nil {
				c.Fail("%s: Marshal fails: %v", s.name, err)
			}
			g, err := refParseAny(b)
			if err != nil {
				c.Fail("%s: output is not JSON (%v): %s", s.name, err, b)
			}
			if !sameContent(g, want) || g.nodes() != want.nodes() {
				c.Fail("%s: output means %s, should mean %s", s.name, g.canon(), want.canon())
			}
		}
	}
	observed["C06"] = func(c *C, w *Val, v *jsonvalue.V, m *obsMem) {
		for e := 0; e < 8; e++ {
			es, eo := escOpts(e)
			want := es.format(w)
			if b, err := v.Marshal(append(eo, jsonvalue.OptSetSequence())...); err != nil || string(b) != want {
				c.Fail("escaping %d: output is %s (%v), should be %s", e, b, err, want)
			}
		}
	}
	orders, orderModels := obsModes()
	ordered := func(c *C, w *Val, v *jsonvalue.V, opts []jsonvalue.Option, change func(m *optModel)) {
		for i, o := range orders {
			om := orderModels[i]
			change(&om)
			want := om.outputs(w)
			b, err := v.Marshal(append(opts[:len(opts):len(opts)], o.opt)...)
			if err != nil || !want[string(b)] {
				c.Fail("%s: output is\n%s (%v), should be\n%s", o.name, b, err, anyKey(want))
			}
		}
	}
	observed["C07"] = func(c *C, w *Val, v *jsonvalue.V, m *obsMem) { ordered(c, w, v, nil, func(*optModel) {}) }
	observed["C21"] = func(c *C, w *Val, v *jsonvalue.V, m *obsMem) {
		ordered(c, w, v, []jsonvalue.Option{jsonvalue.OptIndent("", "  ")}, func(m *optModel) { m.ind, m.per = true, "  " })
		ordered(c, w, v, []jsonvalue.Option{jsonvalue.OptIndent(">", "\t")}, func(m *optModel) { m.ind, m.pre, m.per = true, ">", "\t" })
		ordered(c, w, v, nil, func(*optModel) {})
		obsEach(w, v, nil, func(w *Val, v *jsonvalue.V, p []pel) {
			if len(w.A)+len(w.O) > 0 {
				b, err := v.Marshal(jsonvalue.OptIndent("", " "), jsonvalue.OptSetSequence())
				if want := anyKey((&optModel{order: "set", ind: true, per: " "}).outputs(w)); err != nil || string(b) != want {
					c.Fail("the value at %s alone: output is\n%s (%v), should be\n%s", pathStr(p), b, err, want)
				}
			}
		})
	}
	observed["C27"] = func(c *C, w *Val, v *jsonvalue.V, m *obsMem) {
		ordered(c, w, v, []jsonvalue.Option{jsonvalue.OptOmitNull(true)}, func(m *optModel) { m.omit = true })
		ordered(c, w, v, []jsonvalue.Option{jsonvalue.OptOmitNull(false)}, func(m *optModel) {})
		b, err := v.Marshal(jsonvalue.OptOmitNull(true))
		if err != nil {
			c.Fail("Marshal fails: %v", err)
		}
		c27Judge(c, w.dropNulls(), &c27Mode{}, b)
	}
	observed["C29"] = func(c *C, w *Val, v *jsonvalue.V, m *obsMem) {
		c29Run(c, w, v, byteLess)
		c29Run(c, w, v, func(a, b string) bool { return a > b })
	}
	observed["C08"] = func(c *C, w *Val, v *jsonvalue.V, m *obsMem) {
		if d := diff(w, v, "$"); d != "" {
			c.Fail("%s", d)
		}
		for i, b := range [][]byte{v.MustMarshal(), v.MustMarshal(jsonvalue.OptDefaultStringSequence())} {
			if g, err := refParseAny(b); err != nil || !sameContent(g, w) {
				c.Fail("marshalled in way %d it is %s (%v), should be %s", i, b, err, w)
			}
		}
		if g, err := refParseAny(v.MustMarshal(jsonvalue.OptSetSequence())); err != nil || g.String() != w.String() {
			c.Fail("marshalled in set sequence it is %s (%v), should be %s", g, err, w)
		}
	}
	observed["C09"] = func(c *C, w *Val, v *jsonvalue.V, m *obsMem) {
		obsEach(w, v, nil, func(x *Val, xv *jsonvalue.V, p []pel) {
			try := func(last pel) {
				full := append(p[:len(p):len(p)], last)
				y, res := w.at(full)
				for way := 0; way < 4; way++ {
					var g *jsonvalue.V
					var err error
					switch way {
					case 0:
						g, err = v.Get(full[0].any(), pathAny(full[1:])...)
					case 1:
						g, err = v.Get(pathAny(full))
					case 2:
						g, err = xv.Get(last.any())
					case 3:
						g, err = v.Caseless().Get(full[0].any(), pathAny(full[1:])...)
						if res == mNotFound {
							continue
						}
					}
					if res != mOK {
						errClass(c, fmt.Sprintf("Get(%s), way %d", pathStr(full), way), res, err)
						if g == nil || g.ValueType() != jsonvalue.NotExist {
							c.Fail("Get(%s), way %d, fails and gives %v", pathStr(full), way, g)
						}
						continue
					}
					if err != nil {
						c.Fail("Get(%s), way %d: %v", pathStr(full), way, err)
					}
					if d := diff(y, g, pathStr(full)); d != "" {
						c.Fail("Get(%s), way %d: %s", pathStr(full), way, d)
					}
				}
			}
			for i := -len(x.A) - 1; i <= len(x.A); i++ {
				try(pi(i))
			}
			for _, k := range []string{"a", "b", "c", "n", "u"} {
				try(pk(k))
			}
			for _, m := range x.O {
				try(pk(m.K))
			}
		})
	}
	observed["C10"] = func(c *C, w *Val, v *jsonvalue.V, m *obsMem) {
		obsEach(w, v, nil, func(x *Val, xv *jsonvalue.V, p []pel) {
			if x.K != KObj {
				return
			}
			for _, k := range []string{"a", "A", "b", "B", "e", "G", "g", "n", "N", "u", "x", "Y"} {
				g, err := xv.Caseless().Get(k)
				ok, any := false, false
				for _, m := range x.O {
					if m.K == k {
						any, ok = true, err == nil && diff(m.V, g, "") == ""
						break
					}
					if strings.ToLower(m.K) == strings.ToLower(k) {
						any, ok = true, ok || err == nil && diff(m.V, g, "") == ""
					}
				}
				if any && !ok {
					c.Fail("caseless %q at %s gives %v, %v in %s", k, pathStr(p), g, err, x)
				}
				if !any && err == nil {
					c.Fail("caseless %q at %s gives %v in %s", k, pathStr(p), g, x)
				}
			}
		})
		if d := diff(w, v, "$"); d != "" {
			c.Fail("%s", d)
		}
	}
	observed["C11"] = func(c *C, w *Val, v *jsonvalue.V, m *obsMem) {
		for i := 0; i < 2; i++ {
			if d := diffSeq(w, v, "$"); d != "" {
				c.Fail("%s", d)
			}
			if b := v.MustMarshalString(jsonvalue.OptSetSequence()); b != (escStyle{}).format(w) {
				c.Fail("in set sequence it is %s, should be %s", b, escStyle{}.format(w))
			}
			_ = v.MustMarshal(jsonvalue.OptDefaultStringSequence())
		}
		cp, err := jsonvalue.Import(v)
		if err != nil {
			c.Fail("Import: %v", err)
		}
		if d := diffSeq(w, cp, "copy"); d != "" {
			c.Fail("%s", d)
		}
	}
	observed["C12"] = func(c *C, w *Val, v *jsonvalue.V, m *obsMem) {
		b, err := v.Marshal(jsonvalue.OptSetSequence())
		if err != nil {
			c.Fail("Marshal: %v", err)
		}
		s := v.MustMarshalString(jsonvalue.OptSetSequence())
		want := (escStyle{}).format(w)
		cp, err := jsonvalue.Import(v)
		if err != nil {
			c.Fail("Import: %v", err)
		}
		var x any
		if err := v.Export(&x); err != nil {
			c.Fail("Export: %v", err)
		}
		xs, _ := json.Marshal(x)
		arr, obj := v.ForRangeArr(), v.ForRangeObj()
		na, no := len(arr), len(obj)
		n := len(m.was)
		same := func(c *C) {
			if string(b) != want || s != want {
				c.Fail("the outputs of state %d became %s and %s, were %s", n, b, s, want)
			}
			if d := diffSeq(w, cp, fmt.Sprintf("copy made in state %d", n)); d != "" {
				c.Fail("%s", d)
			}
			if y, _ := json.Marshal(x); !bytes.Equal(y, xs) {
				c.Fail("what was exported in state %d became %s, was %s", n, y, xs)
			}
			if len(arr) != na || len(obj) != no {
				c.Fail("the snapshots of state %d have %d and %d members, had %d and %d", n, len(arr), len(obj), na, no)
			}
		}
		same(c)
		m.kept = append(m.kept, same)
	}
	observed["C14"] = func(c *C, w *Val, v *jsonvalue.V, m *obsMem) {
		exportCheck(c, v, w, func() any { return new(any) })
		exportCheck(c, v, w, func() any { return new(map[string]json.RawMessage) })
		exportCheck(c, v, w, func() any { return new(jsonvalue.V) })
		roundTrip(c, w, v, &encs[2])
		b, err := v.MarshalBinary()
		if g, err2 := refParseAny(b); err != nil || err2 != nil || !sameContent(g, w) {
			c.Fail("MarshalBinary gives %s (%v), should be %s", b, err, w)
		}
	}
	observed["C13"] = func(c *C, w *Val, v *jsonvalue.V, m *obsMem) {
		for i, src := range []any{v, map[string]any{"k": v}, []*jsonvalue.V{v}, struct {
			K *jsonvalue.V `json:"k,omitempty"`
		}{v}, encVal{V: *v, N: 3}} {
			g, err := jsonvalue.Import(src)
			if err != nil {
				c.Fail("Import of holder %d: %v", i, err)
			}
			switch i {
			case 1:
				g = g.MustGet("k")
			case 2:
				g = g.MustGet(0)
			case 3:
				g = g.MustGet("k")
			case 4:
				g = g.MustGet("v")
			}
			if d := diff(w, g, fmt.Sprintf("imported from holder %d", i)); d != "" && (i < 3 || len(w.A)+len(w.O) > 0) {
				c.Fail("%s", d)
			}
		}
	}
	observed["C15"] = func(c *C, w *Val, v *jsonvalue.V, m *obsMem) {
		key := eqKey(w)
		if !v.Equal(v) || !v.Equal(buildAny(w)) || !buildAny(w).Equal(v) {
			c.Fail("%s is not equal to one just built", w)
		}
		for i, x := range m.was {
			u, same := buildAny(x), eqKey(x) == key
			if v.Equal(u) != same || u.Equal(v) != same {
				c.Fail("Equal of %s and %s (as in state %d) is %v and %v", w, x, i, v.Equal(u), u.Equal(v))
			}
		}
		obsEach(w, v, nil, func(x *Val, xv *jsonvalue.V, p []pel) {
			u := buildAny(x)
			if !xv.Equal(u) || !u.Equal(xv) {
				c.Fail("the value at %s is not equal to %s", pathStr(p), x)
			}
		})
	}
	observed["C16"] = func(c *C, w *Val, v *jsonvalue.V, m *obsMem) {
		refs := []string{"1", "2", "4.5", "5", "7"}
		obsEach(w, v, nil, func(x *Val, xv *jsonvalue.V, p []pel) {
			for _, s := range refs {
				u := jsonvalue.MustUnmarshalString(s)
				lt, eq := false, false
				if x.K == KNum {
					k := numRat(x.S).Cmp(numRat(s))
					lt, eq = k < 0, k == 0
				}
				gt := x.K == KNum && !lt && !eq
				if xv.LessThan(u) != lt || xv.LessThanOrEqual(u) != (lt || eq) || xv.GreaterThan(u) != gt || xv.GreaterThanOrEqual(u) != (gt || eq) || u.LessThan(xv) != gt || u.GreaterThan(xv) != lt {
					c.Fail("%s at %s compared with %s: %v %v %v %v", x, pathStr(p), s, xv.LessThan(u), xv.LessThanOrEqual(u), xv.GreaterThan(u), xv.GreaterThanOrEqual(u))
				}
			}
		})
	}
	observed["C20"] = func(c *C, w *Val, v *jsonvalue.V, m *obsMem) {
		for i, o := range [][]jsonvalue.Option{
			{jsonvalue.OptSetSequence()},
			{jsonvalue.OptSetSequence(), jsonvalue.OptFloatNaNToNull()},
			{jsonvalue.OptSetSequence(), jsonvalue.OptFloatInfToFloat(3)},
			{jsonvalue.OptSetSequence(), jsonvalue.OptFloatNaNToFloat(0.5), jsonvalue.OptFloatInfToNull()},
			{jsonvalue.OptSetSequence(), jsonvalue.OptFloatNaNToString("n"), jsonvalue.OptFloatInfToStringInf()},
		} {
			om := optModel{order: "set"}
			switch i {
			case 1:
				om.nan = "null"
			case 2:
				om.inf, om.infN = "3", "-3"
			case 3:
				om.nan, om.inf, om.infN = "0.5", "null", "null"
			case 4:
				om.nan, om.inf, om.infN = qstr("n"), qstr("+Inf"), qstr("-Inf")
			}
			b, err := v.Marshal(o...)
			want := om.outputs(w)
			if want == nil {
				errs := map[error]bool{}
				expectErrs(w, &om, errs)
				ok := false
				for e := range errs {
					ok = ok || errors.Is(err, e)
				}
				if !ok || b != nil {
					c.Fail("options %d: %s marshalled gives %q, %v", i, w, b, err)
				}
			} else if err != nil || !want[string(b)] {
				c.Fail("options %d: output is %s (%v), should be %s", i, b, err, anyKey(want))
			}
		}
	}
	observed["C22"] = func(c *C, w *Val, v *jsonvalue.V, m *obsMem) {
		t := eqTable{}
		judge := func(sub *Val) {
			s := buildAny(sub)
			want, rev := refContains(w, sub, t.eq), refContains(sub, w, t.eq)
			if got := beta.Contains(v, s); got != want {
				c.Fail("Contains(%s, %s) is %v", w, sub, got)
			}
			if got := beta.Contains(s, v); got != rev {
				c.Fail("Contains(%s, %s) is %v", sub, w, got)
			}
		}
		judge(w)
		for _, x := range m.was {
			judge(x)
		}
		obsEach(w, v, nil, func(x *Val, xv *jsonvalue.V, p []pel) {
			if len(p) > 0 && !beta.Contains(v, buildAny(x), pathAny(p)...) {
				c.Fail("%s below %s does not contain %s", w, pathStr(p), x)
			}
			for i := 0; i+1 < len(x.A); i++ {
				if sub := vArr(x.A[i : i+2]...); !beta.Contains(xv, buildAny(sub)) {
					c.Fail("%s does not contain %s", x, sub)
				}
			}
		})
	}
	observed["C23"] = func(c *C, w *Val, v *jsonvalue.V, m *obsMem) {
		checkIterDeep(c, w, v, true)
	}
	observed["C24"] = func(c *C, w *Val, v *jsonvalue.V, m *obsMem) {
		obsEach(w, v, nil, func(x *Val, xv *jsonvalue.V, p []pel) { checkAccess(c, x, xv, false) })
	}
	observed["C26"] = func(c *C, w *Val, v *jsonvalue.V, m *obsMem) {
		// every array sorted in one direction, then the other way round, then put back into the order it had
		cp, err := jsonvalue.Import(v)
		if err != nil {
			c.Fail("Import: %v", err)
		}
		for _, x := range []*jsonvalue.V{v, cp} {
			obsEach(w, x, nil, func(x *Val, xv *jsonvalue.V, p []pel) {
				if x.K != KArr {
					return
				}
				before := xv.ForRangeArr()
				for _, sign := range []int{1, -1} {
					less := func(a, b *jsonvalue.V) bool { return strings.Compare(read(a).String(), read(b).String())*sign < 0 }
					xv.SortArray(less)
					after := xv.ForRangeArr()
					left := map[*jsonvalue.V]int{}
					for _, e := range before {
						left[e]++
					}
					for i, e := range after {
						left[e]--
						if left[e] < 0 || i > 0 && less(e, after[i-1]) {
							c.Fail("sorting %s gives %v", x, after)
						}
					}
					if len(after) != len(before) {
						c.Fail("sorting %s gives %v", x, after)
					}
				}
				pos := map[*jsonvalue.V]int{}
				for i, e := range before {
					pos[e] = i
				}
				xv.SortArray(func(a, b *jsonvalue.V) bool { return pos[a] < pos[b] })
			})
			if d := diff(w, x, "$"); d != "" {
				c.Fail("sorted back: %s", d)
			}
		}
	}
}

// obsOptSets is every order with and without omission and indent.
var obsOptSets = func() (out []optSet) {
	for _, s := range allOptSets([][2]string{{"", "  "}}) {
		if !s.esc.utf8 && !s.esc.noHTML && !s.esc.noSlash {
			out = append(out, s)
		}
	}
	return
}()
