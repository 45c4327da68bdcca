package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"strings"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

func init() { checks["C19"] = c19 }

// optModel is what a set of options means.
type optModel struct {
	omit     bool
	order    string // "", "dict", "reverse", "seq:...", "set"
	nan, inf string // "" error; otherwise the JSON of the replacement, or "bad"
	infN     string
	esc      escStyle
	ind      bool
	pre, per string
	ignore   bool
}

type optCase struct {
	name  string
	opt   jsonvalue.Option
	apply func(m *optModel)
}

func reverseLess(_ *jsonvalue.ParentInfo, a, b string, _, _ *jsonvalue.V) bool { return a > b }

// qstr marks a replacement that is a string, to be escaped as the options say.
func qstr(s string) string { return "s" + s }

func optAlphabet() []optCase {
	return []optCase{
		{"OmitNull(true)", jsonvalue.OptOmitNull(true), func(m *optModel) { m.omit = true }},
		{"OmitNull(false)", jsonvalue.OptOmitNull(false), func(m *optModel) { m.omit = false }},
		{"DefaultStringSequence", jsonvalue.OptDefaultStringSequence(), func(m *optModel) { m.order = "dict" }},
		{"LessFunc(reverse)", jsonvalue.OptKeySequenceWithLessFunc(reverseLess), func(m *optModel) { m.order = "reverse" }},
		{"LessFunc(nil)", jsonvalue.OptKeySequenceWithLessFunc(nil), func(m *optModel) {}},
		{"KeySequence(b,a)", jsonvalue.OptKeySequence([]string{"b", "zz", "a"}), func(m *optModel) { m.order = "seq:b a" }},
		{"KeySequence(d)", jsonvalue.OptKeySequence([]string{"d/é<"}), func(m *optModel) { m.order = "seq:d/é<" }},
		{"KeySequence(nil)", jsonvalue.OptKeySequence(nil), func(m *optModel) { m.order = "" }},
		{"SetSequence", jsonvalue.OptSetSequence(), func(m *optModel) { m.order = "set" }},
		{"NaNToFloat(0.5)", jsonvalue.OptFloatNaNToFloat(0.5), func(m *optModel) { m.nan = "0.5" }},
		{"NaNToFloat(NaN)", jsonvalue.OptFloatNaNToFloat(math.NaN()), func(m *optModel) { m.nan = "bad" }},
		{"NaNToNull", jsonvalue.OptFloatNaNToNull(), func(m *optModel) { m.nan = "null" }},
		{"NaNToStringNaN", jsonvalue.OptFloatNaNToStringNaN(), func(m *optModel) { m.nan = qstr("NaN") }},
		{"NaNToString(é/)", jsonvalue.OptFloatNaNToString("é/"), func(m *optModel) { m.nan = qstr("é/") }},
		{"InfToFloat(7)", jsonvalue.OptFloatInfToFloat(7), func(m *optModel) { m.inf, m.infN = "7", "-7" }},
		{"InfToFloat(Inf)", jsonvalue.OptFloatInfToFloat(math.Inf(1)), func(m *optModel) { m.inf, m.infN = "bad", "bad" }},
		{"InfToNull", jsonvalue.OptFloatInfToNull(), func(m *optModel) { m.inf, m.infN = "null", "null" }},
		{"InfToStringInf", jsonvalue.OptFloatInfToStringInf(), func(m *optModel) { m.inf, m.infN = qstr("+Inf"), qstr("-Inf") }},
		{"InfToString(+ö,)", jsonvalue.OptFloatInfToString("+ö", ""), func(m *optModel) { m.inf, m.infN = qstr("+ö"), qstr("-ö") }},
		{"InfToString(p,<n)", jsonvalue.OptFloatInfToString("p", "<n"), func(m *optModel) { m.inf, m.infN = qstr("p"), qstr("<n") }},
		{"EscapeHTML(false)", jsonvalue.OptEscapeHTML(false), func(m *optModel) { m.esc.noHTML = true }},
		{"EscapeHTML(true)", jsonvalue.OptEscapeHTML(true), func(m *optModel) { m.esc.noHTML = false }},
		{"UTF8", jsonvalue.OptUTF8(), func(m *optModel) { m.esc.utf8 = true }},
		{"EscapeSlash(false)", jsonvalue.OptEscapeSlash(false), func(m *optModel) { m.esc.noSlash = true }},
		{"EscapeSlash(true)", jsonvalue.OptEscapeSlash(true), func(m *optModel) { m.esc.noSlash = false }},
		{"Indent(,tab)", jsonvalue.OptIndent("", "\t"), func(m *optModel) { m.ind, m.pre, m.per = true, "", "\t" }},
		{"Indent(>,2)", jsonvalue.OptIndent(">", "  "), func(m *optModel) { m.ind, m.pre, m.per = true, ">", "  " }},
		{"IgnoreOmitempty", jsonvalue.OptIgnoreOmitempty(), func(m *optModel) { m.ignore = true }},
		{"Opt{}", jsonvalue.Opt{}, func(m *optModel) { *m = optModel{} }},
		{"Opt{OmitNull,NaN,Inf}", jsonvalue.Opt{OmitNull: true, FloatNaNHandleType: jsonvalue.FloatNaNConvertToString, FloatInfHandleType: jsonvalue.FloatInfNull}, func(m *optModel) {
			*m = optModel{omit: true, nan: qstr("NaN"), inf: "null", infN: "null"}
		}},
		{"Opt{Less,Seq}", jsonvalue.Opt{MarshalLessFunc: reverseLess, MarshalKeySequence: []string{"d/é<"}, FloatNaNHandleType: jsonvalue.FloatNaNConvertToFloat, FloatNaNToFloat: -1}, func(m *optModel) {
			*m = optModel{order: "reverse", nan: "-1"}
		}},
		{"Opt{Seq}", jsonvalue.Opt{MarshalKeySequence: []string{"b", "a"}, FloatInfHandleType: jsonvalue.FloatInfConvertToFloat, FloatInfToFloat: 2.5}, func(m *optModel) {
			*m = optModel{order: "seq:b a", inf: "2.5", infN: "-2.5"}
		}},
		{"Opt{defaults with strings}", jsonvalue.Opt{FloatNaNToString: "unused", FloatInfPositiveToString: "unused"}, func(m *optModel) { *m = optModel{} }},
	}
}

func specials(w *Val, m *optModel) (*Val, bool) {
	if w.K == KNum {
		rep := ""
		switch w.S {
		case "NaN":
			rep = m.nan
		case "+Inf":
			rep = m.inf
		case "-Inf":
			rep = m.infN
		default:
			return w, true
		}
		switch {
		case rep == "" || rep == "bad":
			return nil, false
		case rep[0] == 's':
			return vStr(rep[1:]), true
		}
		return vNum(rep), true // null is written verbatim as well, and is not an omitted null
	}
	x := &Val{K: w.K, S: w.S, B: w.B}
	for _, e := range w.A {
		y, ok := specials(e, m)
		if !ok {
			return nil, false
		}
		x.A = append(x.A, y)
	}
	for _, e := range w.O {
		y, ok := specials(e.V, m)
		if !ok {
			return nil, false
		}
		x.O = append(x.O, Member{e.K, y})
	}
	return x, true
}

// orderings lists w with the members of its objects in every order.
func orderings(w *Val) []*Val {
	switch w.K {
	case KArr:
		out := []*Val{vArr()}
		for _, e := range w.A {
			var next []*Val
			for _, o := range out {
				for _, y := range orderings(e) {
					next = append(next, &Val{K: KArr, A: append(o.A[:len(o.A):len(o.A)], y)})
				}
			}
			out = next
		}
		return out
	case KObj:
		var out []*Val
		for _, p := range perms(len(w.O)) {
			part := []*Val{{K: KObj}}
			for _, i := range p {
				var next []*Val
				for _, o := range part {
					for _, y := range orderings(w.O[i].V) {
						next = append(next, &Val{K: KObj, O: append(o.O[:len(o.O):len(o.O)], Member{w.O[i].K, y})})
					}
				}
				part = next
			}
			out = append(out, part...)
		}
		return out
	}
	return []*Val{w}
}

func (m *optModel) sorter() func(a, b string) bool {
	switch {
	case m.order == "dict":
		return func(a, b string) bool { return a < b }
	case m.order == "reverse":
		return func(a, b string) bool { return a > b }
	case strings.HasPrefix(m.order, "seq:"):
		pos := map[string]int{}
		for i, k := range strings.Split(m.order[4:], " ") {
			pos[k] = i + 1
		}
		return func(a, b string) bool {
			p, q := pos[a], pos[b]
			if p > 0 && q > 0 {
				return p < q
			}
			if p > 0 || q > 0 {
				return p > 0
			}
			return a < b
		}
	}
	return nil
}

// outputs is the set of texts the options allow for w; nil means an error.
func (m *optModel) outputs(w *Val) map[string]bool {
	if m.omit {
		w = w.dropNulls()
	}
	w, ok := specials(w, m)
	if !ok {
		return nil
	}
	ws := []*Val{w}
	if m.order == "" {
		ws = orderings(w)
	} else if s := m.sorter(); s != nil {
		ws = []*Val{w.reorder(s)}
	}
	out := map[string]bool{}
	for _, x := range ws {
		s := m.esc.format(x)
		if m.ind {
			var b bytes.Buffer
			if err := json.Indent(&b, []byte(s), m.pre, m.per); err != nil {
				panic(err)
			}
			s = b.String()
		}
		out[s] = true
	}
	return out
}

type optDoc struct {
	w     *Val
	v     *jsonvalue.V
	cache map[optModel]map[string]bool
}

// marshalAs marshals and judges the result by the model.
func (d *optDoc) marshalAs(c *C, m optModel, opts []jsonvalue.Option) {
	want, ok := d.cache[m]
	if !ok {
		want = m.outputs(d.w)
		d.cache[m] = want
	}
	c.Step(1)
	b, err := d.v.Marshal(opts...)
	if want == nil {
		if err == nil {
			c.Fail("Marshal gives %s, should fail", b)
		}
		if !errors.Is(err, jsonvalue.ErrUnsupportedFloat) && !errors.Is(err, jsonvalue.ErrUnsupportedFloatInOpt) {
			c.Fail("Marshal fails with %v", err)
		}
		return
	}
	if err != nil {
		c.Fail("Marshal fails: %v", err)
	}
	if !want[string(b)] {
		c.Fail("Marshal gives %s, should be %s", b, anyKey(want))
	}
}

func anyKey(m map[string]bool) string {
	for k := range m {
		if len(m) > 1 {
			return k + fmt.Sprintf(" (or %d others)", len(m)-1)
		}
		return k
	}
	return ""
}

type optImport struct {
	E int    `json:"e,omitempty"`
	F string `json:"f"`
}

func c19(r *Run) {
	alpha := optAlphabet()
	mk := func(w *Val) *optDoc { return &optDoc{w, buildAny(w), map[optModel]map[string]bool{}} }
	docs := []*optDoc{
		mk(vObj("b", vNull(), "c", vArr(vNum("1"), vObj("z", vStr("</é"), "y", vNull())), "d/é<", vStr("x"), "a", vNum("2"))),
		mk(vObj("b", vNum("NaN"), "a", vArr(vNum("+Inf"), vNum("-Inf")))),
		mk(vArr(vNum("NaN"), vNull())),
		mk(vArr(vNum("-Inf"))),
	}
	imp := func(c *C, m optModel, opts []jsonvalue.Option) {
		c.Step(1)
		v, err := jsonvalue.Import(optImport{}, opts...)
		if err != nil {
			c.Fail("Import fails: %v", err)
		}
		if got := v.Len() == 2; got != m.ignore {
			c.Fail("Import gives %v with ignore-omitempty %v", v, m.ignore)
		}
	}
	lists := func(n int) (out [][]int) {
		out = append(out, nil)
		start := 0
		for d := 0; d < n; d++ {
			end := len(out)
			for _, l := range out[start:end] {
				for i := range alpha {
					out = append(out, append(l[:len(l):len(l)], i))
				}
			}
			start = end
		}
		return
	}
	opts := func(l []int) (o []jsonvalue.Option) {
		for _, i := range l {
			o = append(o, alpha[i].opt)
		}
		return
	}
	names := func(l []int) string {
		var s []string
		for _, i := range l {
			s = append(s, alpha[i].name)
		}
		return strings.Join(s, ", ")
	}
	apply := func(m optModel, l []int) optModel {
		for _, i := range l {
			alpha[i].apply(&m)
		}
		return m
	}
	check := func(c *C, def, call []int, ds []*optDoc) {
		m := apply(apply(optModel{}, def), call)
		o := opts(call)
		for _, d := range ds {
			d.marshalAs(c, m, o)
		}
		imp(c, m, o)
	}
	jsonvalue.ResetDefaultMarshalOptions()
	all3 := lists(r.Pick(3, 3))
	r.Seq("call options", fmt.Sprintf("all lists of up to %d of %d options on %d documents", 3, len(alpha), len(docs)), func(c *C) {
		for _, l := range all3 {
			if c.Expired() {
				return
			}
			c.Do(func() string { return "Marshal with " + names(l) }, func() {
				check(c, nil, l, docs)
				check(c, nil, nil, docs) // nothing left behind
			})
		}
	})
	l2 := lists(2)
	r.Seq("defaults and call options", fmt.Sprintf("all default lists of up to %d options x all call lists of up to %d", 2, r.Pick(1, 2)), func(c *C) {
		calls := lists(r.Pick(1, 2))
		for _, def := range l2 {
			for ci, call := range calls {
				if c.Expired() {
					return
				}
				ds := docs
				if r.thorough {
					ds = docs[ci%2 : ci%2+1]
				}
				c.State(hashStr(fmt.Sprint(apply(optModel{}, def), call)))
				c.Do(func() string { return fmt.Sprintf("defaults %s; Marshal with %s", names(def), names(call)) }, func() {
					jsonvalue.SetDefaultMarshalOptions(opts(def)...)
					check(c, def, call, ds)
					check(c, def, nil, docs[:1])
				})
				c.Do(func() string { return fmt.Sprintf("defaults %s; Marshal with %s; reset", names(def), names(call)) }, func() {
					jsonvalue.ResetDefaultMarshalOptions()
					check(c, nil, nil, docs[ci%2:ci%2+1])
				})
			}
		}
	})
	// histories
	idx := func(ns ...string) (l []int) {
		for _, n := range ns {
			for i := range alpha {
				if alpha[i].name == n {
					l = append(l, i)
				}
			}
		}
		if len(l) != len(ns) {
			panic("option name")
		}
		return
	}
	sets := [][]int{nil, idx("OmitNull(true)"), idx("SetSequence"), idx("KeySequence(b,a)", "UTF8"), idx("NaNToNull", "InfToFloat(7)"), idx("Indent(>,2)", "EscapeHTML(false)", "IgnoreOmitempty"), idx("Opt{Less,Seq}", "EscapeSlash(false)"), idx("NaNToFloat(NaN)")}
	calls := [][]int{nil, idx("OmitNull(false)"), idx("DefaultStringSequence", "NaNToStringNaN"), idx("KeySequence(d)", "EscapeHTML(true)"), idx("Opt{Seq}"), idx("Indent(,tab)", "InfToFloat(Inf)"), idx("IgnoreOmitempty", "EscapeSlash(true)", "SetSequence")}
	type hop struct {
		name string
		do   func(c *C, def *[]int)
	}
	var ops []hop
	for _, s := range sets {
		ops = append(ops, hop{"SetDefault(" + names(s) + ")", func(c *C, def *[]int) {
			jsonvalue.SetDefaultMarshalOptions(opts(s)...)
			*def = s
		}})
	}
	ops = append(ops, hop{"Reset", func(c *C, def *[]int) { jsonvalue.ResetDefaultMarshalOptions(); *def = nil }})
	for _, s := range calls {
		for di := 0; di < 2; di++ {
			ops = append(ops, hop{fmt.Sprintf("Marshal(doc%d; %s)", di, names(s)), func(c *C, def *[]int) { check(c, *def, s, docs[di:di+1]) }})
		}
	}
	depth := r.Pick(4, 5)
	r.Seq("histories", fmt.Sprintf("all histories of %d calls out of %d (set defaults, reset, marshal, failing marshals), every output judged and the defaults judged at the end", depth, len(ops)), func(c *C) {
		var rec func(h []int)
		rec = func(h []int) {
			if len(h) == depth {
				c.Do(func() string {
					var s []string
					for _, i := range h {
						s = append(s, ops[i].name)
					}
					return strings.Join(s, "; ")
				}, func() {
					jsonvalue.ResetDefaultMarshalOptions()
					var def []int
					for _, i := range h {
						ops[i].do(c, &def)
					}
					check(c, def, nil, docs)
				})
				return
			}
			if c.Expired() {
				return
			}
			for i := range ops {
				rec(append(h[:len(h):len(h)], i))
			}
		}
		rec(nil)
	})
	r.Seq("one slice for all lists", fmt.Sprintf("all histories of %d of %d sets of defaults, calls and resets whose lists of options are all written into one slice, at every offset of it, and overwritten after each call", r.Pick(3, 4), len(sets)+len(calls)+1), func(c *C) {
		nop := len(sets) + len(calls) + 1
		n := r.Pick(3, 4)
		total := 1
		for i := 0; i < n; i++ {
			total *= nop
		}
		for h := 0; h < total && !c.Expired(); h++ {
			c.Do(func() string { return fmt.Sprintf("history %d in base %d: sets of defaults, calls, reset", h, nop) }, func() {
				jsonvalue.ResetDefaultMarshalOptions()
				var def []int
				buf := make([]jsonvalue.Option, 6)
				at := 0
				use := func(l []int) []jsonvalue.Option {
					o := buf[at%3 : at%3+len(l)]
					at++
					copy(o, opts(l))
					return o
				}
				for i, x := 0, h; i < n; i, x = i+1, x/nop {
					k := x % nop
					switch {
					case k < len(sets):
						def = sets[k]
						jsonvalue.SetDefaultMarshalOptions(use(def)...)
					case k < nop-1:
						call := calls[k-len(sets)]
						m, o := apply(apply(optModel{}, def), call), use(call)
						docs[i%2].marshalAs(c, m, o)
						for j, x := range opts(call) {
							if _, plain := x.(jsonvalue.Opt); !plain && o[j] != x {
								c.Fail("the call changes the slice of options handed to it")
							}
						}
					default:
						jsonvalue.ResetDefaultMarshalOptions()
						def = nil
					}
					other := opts(calls[5])
					for j := range buf {
						buf[j] = other[j%len(other)]
					}
				}
				check(c, def, nil, docs)
				jsonvalue.ResetDefaultMarshalOptions()
			})
		}
	})
	sz := sizes(r.Pick(70, 140), r.Pick(9, 12))
	r.Seq("long lists", "default lists and call lists of "+sizesText(r.Pick(70, 140), r.Pick(9, 12))+" options: cycles through all options from every start, one option repeated with others at the ends and in the middle", func(c *C) {
		for _, n := range sz {
			for st := 0; st < len(alpha)+4; st++ {
				if c.Expired() {
					return
				}
				l := make([]int, n)
				for i := range l {
					if st < len(alpha) {
						l[i] = (st + i) % len(alpha)
					} else {
						l[i] = st % 4
					}
				}
				if st >= len(alpha) && n > 0 {
					l[0], l[n/2], l[n-1] = 5+st%4, 12, 20
				}
				c.Do(func() string { return fmt.Sprintf("%d options from number %d in the call and as defaults", n, st) }, func() {
					check(c, nil, l, docs[:2])
					jsonvalue.SetDefaultMarshalOptions(opts(l)...)
					check(c, l, nil, docs[:2])
					check(c, l, l[:n/2], docs[:2])
					jsonvalue.ResetDefaultMarshalOptions()
					check(c, nil, nil, docs[:2])
				})
			}
		}
	})
	r.Seq("many calls", "n calls that set defaults, reset or marshal (alone and alternating), n in "+sizesText(40, r.Pick(12, 16))+", then outputs judged", func(c *C) {
		for _, n := range sizes(40, r.Pick(12, 16)) {
			for way := 0; way < 6; way++ {
				c.Do(func() string { return fmt.Sprintf("%d calls, way %d", n, way) }, func() {
					jsonvalue.ResetDefaultMarshalOptions()
					def := sets[2]
					jsonvalue.SetDefaultMarshalOptions(opts(def)...)
					small := mk(vObj("b", vNull(), "a", vNum("1")))
					o := opts(calls[2])
					for i := 0; i < n; i++ {
						switch way {
						case 0:
							jsonvalue.SetDefaultMarshalOptions(opts(sets[i%7])...)
							def = sets[i%7]
						case 1:
							jsonvalue.ResetDefaultMarshalOptions()
							def = nil
						case 2:
							small.v.MustMarshal()
						case 3:
							small.v.MustMarshal(o...)
						case 4:
							jsonvalue.SetDefaultMarshalOptions(opts(sets[1])...)
							jsonvalue.ResetDefaultMarshalOptions()
							def = nil
						default:
							jsonvalue.SetDefaultMarshalOptions(opts(sets[i%3])...)
							def = sets[i%3]
							small.marshalAs(c, apply(optModel{}, def), nil)
						}
						if i&1023 == 0 {
							c.Alive()
						}
					}
					check(c, def, nil, docs)
					check(c, def, calls[4], docs)
					jsonvalue.ResetDefaultMarshalOptions()
					check(c, nil, nil, docs)
				})
			}
		}
	})
	r.Seq("sequences changed later", "defaults with every key sequence of up to 3 keys out of 3, given by the option and by an Opt record, alone and before or after another option; the caller then overwrites its slice with every other sequence", func(c *C) { c19Later(c) })
	r.Seq("overriding orders", "all default lists of up to 2 and call lists of up to 2 of the options that order members (less functions, sequences incl. empty ones, whole Opt records): a less function is called iff it is the last word, and with owned map order every output is the one of the last word alone under the same map order", func(c *C) { c19Orders(c) })
	r.Seq("other output calls", "MarshalString, MustMarshal, MustMarshalString, MarshalJSON, String-keyed formats and Export follow the same defaults", func(c *C) {
		for _, def := range l2 {
			c.Do(func() string { return "defaults " + names(def) }, func() {
				jsonvalue.SetDefaultMarshalOptions(opts(def)...)
				defer jsonvalue.ResetDefaultMarshalOptions()
				m := apply(optModel{}, def)
				for di, d := range docs {
					c.Step(5)
					d.marshalAs(c, m, nil)
					want := d.cache[m]
					s, err := d.v.MarshalString()
					j, err2 := d.v.MarshalJSON()
					bin, err3 := d.v.MarshalBinary()
					ms, mb := d.v.MustMarshalString(), d.v.MustMarshal()
					var x any
					err4 := d.v.Export(&x)
					if want == nil {
						if err == nil || err2 == nil || err3 == nil || err4 == nil || s != "" || ms != "" || len(mb) != 0 || mb == nil {
							c.Fail("doc %d: not all output calls fail: %q %v, %v, %v, %v, %q, %q", di, s, err, err2, err3, err4, ms, mb)
						}
						continue
					}
					if err != nil || err2 != nil || err3 != nil || !want[s] || !want[string(j)] || !want[string(bin)] || !want[ms] || !want[string(mb)] {
						c.Fail("doc %d: %q %v, %q %v, %q %v, %q, %q, should be %s", di, s, err, j, err2, bin, err3, ms, mb, anyKey(want))
					}
					if !m.ind && err4 != nil {
						c.Fail("Export: %v", err4)
					}
				}
			})
		}
	})
}

// c19Orders judges which ordering option of several counts. Outputs in no particular order are compared under the same map order.
func c19Orders(c *C) {
	var called [2]int
	less := func(i int, f func(a, b string) bool) jsonvalue.MarshalLessFunc {
		return func(_ *jsonvalue.ParentInfo, a, b string, _, _ *jsonvalue.V) bool {
			called[i]++
			return f(a, b)
		}
	}
	lf := [2]jsonvalue.MarshalLessFunc{less(0, func(a, b string) bool { return a > b }), less(1, func(a, b string) bool { return len(a) > len(b) || len(a) == len(b) && a < b })}
	type ord struct {
		name string
		opt  jsonvalue.Option
		fn   int // the less function it sets, or -1
		keep bool
	}
	alpha := []ord{
		{"LessFunc(descending)", jsonvalue.OptKeySequenceWithLessFunc(lf[0]), 0, false},
		{"LessFunc(longest first)", jsonvalue.OptKeySequenceWithLessFunc(lf[1]), 1, false},
		{"LessFunc(nil)", jsonvalue.OptKeySequenceWithLessFunc(nil), -1, true},
		{"DefaultStringSequence", jsonvalue.OptDefaultStringSequence(), -1, false},
		{"KeySequence(ccc,a)", jsonvalue.OptKeySequence([]string{"ccc", "a"}), -1, false},
		{"KeySequence(one unknown)", jsonvalue.OptKeySequence([]string{"x"}), -1, false},
		{"KeySequence(nil)", jsonvalue.OptKeySequence(nil), -1, false},
		{"KeySequence(empty)", jsonvalue.OptKeySequence([]string{}), -1, false},
		{"SetSequence", jsonvalue.OptSetSequence(), -1, false},
		{"Opt{}", jsonvalue.Opt{}, -1, false},
		{"Opt{Less}", jsonvalue.Opt{MarshalLessFunc: lf[0]}, 0, false},
		{"Opt{Seq}", jsonvalue.Opt{MarshalKeySequence: []string{"bb", "a"}}, -1, false},
		{"Opt{empty Seq}", jsonvalue.Opt{MarshalKeySequence: []string{}}, -1, false},
		{"OmitNull(true)", jsonvalue.OptOmitNull(true), -1, true},
	}
	var lists [][]int
	lists = append(lists, nil)
	for i := range alpha {
		lists = append(lists, []int{i})
	}
	for i := range alpha {
		for j := range alpha {
			lists = append(lists, []int{i, j})
		}
	}
	v := buildAny(vObj("bb", vNum("1"), "a", vArr(vObj("z", vNum("1"), "yy", vNum("2"))), "ccc", vStr("x")))
	opts := func(l []int) (o []jsonvalue.Option) {
		for _, i := range l {
			o = append(o, alpha[i].opt)
		}
		return
	}
	names := func(l []int) string {
		var s []string
		for _, i := range l {
			s = append(s, alpha[i].name)
		}
		return strings.Join(s, ", ")
	}
	lastName := func(i int) string {
		if i == len(alpha) {
			return "none"
		}
		return alpha[i].name
	}
	// the outputs of one option alone, by map order
	alone := make([][]string, len(alpha)+1)
	jsonvalue.ResetDefaultMarshalOptions()
	owned := mapsOwned
	for again := 0; again < 5; again++ {
		for i := range alone {
			var o []jsonvalue.Option
			if i < len(alpha) {
				o = append(o, alpha[i].opt)
			}
			var out []string
			c.Orders(400, func() { out = append(out, v.MustMarshalString(o...)) })
			if again == 0 {
				alone[i] = out
			}
			// texts are compared only if the map order we ask for is all they depend on
			owned = owned && strings.Join(alone[i], "\n") == strings.Join(out, "\n")
		}
	}
	for _, def := range lists {
		for _, call := range lists {
			if c.Expired() {
				return
			}
			last := len(alpha)
			for _, i := range append(def[:len(def):len(def)], call...) {
				if !alpha[i].keep {
					last = i
				}
			}
			c.Do(func() string { return fmt.Sprintf("defaults %s; Marshal with %s", names(def), names(call)) }, func() {
				jsonvalue.SetDefaultMarshalOptions(opts(def)...)
				defer jsonvalue.ResetDefaultMarshalOptions()
				o := opts(call)
				n := 0
				c.Orders(400, func() {
					called = [2]int{}
					got := v.MustMarshalString(o...)
					for f := range called {
						if on := last < len(alpha) && alpha[last].fn == f; on != (called[f] > 0) {
							c.Fail("less function %d is called %d times; the last ordering option is %s", f, called[f], lastName(last))
						}
					}
					if owned {
						if n >= len(alone[last]) || alone[last][n] != got {
							c.Fail("Marshal gives %s, with the last ordering option alone another text under the same map order", got)
						}
					}
					n++
				})
			})
		}
	}
}

// c19Later changes the slice of keys behind the defaults after they are set.
func c19Later(c *C) {
	doc := jsonvalue.MustUnmarshalString(`{"c":1,"a":{"b":2,"c":3,"a":4},"b":[{"c":5,"b":6}]}`)
	var seqs [][]string
	var rec func(s []string)
	rec = func(s []string) {
		if len(s) > 0 {
			seqs = append(seqs, append([]string{}, s...))
		}
		if len(s) == 3 {
			return
		}
		for _, k := range []string{"a", "b", "c"} {
			if strings.Contains(strings.Join(s, ""), k) {
				continue
			}
			rec(append(s[:len(s):len(s)], k))
		}
	}
	rec(nil)
	for _, seq := range seqs {
		for _, later := range seqs {
			for form := 0; form < 4; form++ {
				for calls := 0; calls < 2; calls++ {
					c.Do(func() string {
						return fmt.Sprintf("defaults %d with the sequence %q, %d calls, then the slice is overwritten with %q", form, seq, calls, later)
					}, func() {
						defer jsonvalue.ResetDefaultMarshalOptions()
						want := doc.MustMarshalString(jsonvalue.OptKeySequence(append([]string{}, seq...)))
						mine := append([]string{}, seq...)
						switch form {
						case 0:
							jsonvalue.SetDefaultMarshalOptions(jsonvalue.OptKeySequence(mine))
						case 1:
							jsonvalue.SetDefaultMarshalOptions(jsonvalue.Opt{MarshalKeySequence: mine})
						case 2:
							jsonvalue.SetDefaultMarshalOptions(jsonvalue.OptKeySequence(mine), jsonvalue.OptOmitNull(true))
						case 3:
							jsonvalue.SetDefaultMarshalOptions(jsonvalue.OptUTF8(), jsonvalue.OptKeySequence(mine))
						}
						for i := 0; i < calls; i++ {
							doc.MustMarshalString()
						}
						for i := range mine {
							mine[i] = later[i%len(later)] + strings.Repeat("x", i/len(later))
						}
						c.Step(2)
						if got := doc.MustMarshalString(); got != want {
							c.Fail("the defaults now give %s, they were set to give %s", got, want)
						}
						if got := doc.MustMarshalString(jsonvalue.OptUTF8()); got != want {
							c.Fail("with an option of the call the defaults now give %s, they were set to give %s", got, want)
						}
						c.State(hashStr(want))
					})
				}
			}
		}
	}
}
