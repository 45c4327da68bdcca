package main

import (
	"fmt"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

// Histories with handles that are kept: what Set, Append and Insert return is used several times, for different paths,
// before and after other changes of the document.

type handleUse struct {
	name  string
	model func(w *Val) (mres, *Val)
	real  func(h *handles) (*jsonvalue.V, error)
	drop  bool
}

type handles struct {
	v   *jsonvalue.V
	set jsonvalue.Setter
	app jsonvalue.Appender
	ins jsonvalue.Inserter
	bad jsonvalue.Setter
}

func newHandles(v *jsonvalue.V) *handles {
	return &handles{v: v, set: v.Set("kept"), app: v.Append(jsonvalue.NewInt(1)), ins: v.Insert(nil), bad: v.Set(make(chan int))}
}

func handleUses(el []pel, depth int) (out []handleUse) {
	kept := map[byte]*Val{'s': vStr("kept"), 'b': vNum("1"), 'e': vNum("1"), 'i': vNull(), 'j': vNull()}
	for n := 0; n <= depth; n++ {
		for _, p := range pathsOver(el, n) {
			pa := pathAny(p)
			for _, k := range []byte("sbeij") {
				if n == 0 && (k == 's' || k == 'i' || k == 'j') {
					continue
				}
				if (k == 'i' || k == 'j') && p[n-1].str && n > 1 {
					continue
				}
				o := &mutOp{kind: k, path: p}
				out = append(out, handleUse{name: "kept handle " + string(k) + " at " + pathStr(p), model: func(w *Val) (mres, *Val) { return o.modelWith(w, kept[k]) }, real: func(h *handles) (*jsonvalue.V, error) {
					switch k {
					case 's':
						return h.set.At(pa[0], pa[1:]...)
					case 'b':
						return h.app.InTheBeginning(pa...)
					case 'e':
						return h.app.InTheEnd(pa...)
					case 'i':
						return h.ins.Before(pa[0], pa[1:]...)
					}
					return h.ins.After(pa[0], pa[1:]...)
				}})
			}
			if n == 0 {
				continue
			}
			// calls of their own in between
			if n == 1 {
				out = append(out, handleUse{name: "failing handle at " + pathStr(p), model: func(w *Val) (mres, *Val) { return mOther, nil }, real: func(h *handles) (*jsonvalue.V, error) { return h.bad.At(pa[0], pa[1:]...) }})
			}
			d := &mutOp{kind: 'd', path: p}
			out = append(out, handleUse{name: d.String(), drop: true, model: d.model, real: func(h *handles) (*jsonvalue.V, error) { return nil, h.v.Delete(pa[0], pa[1:]...) }})
			if n == 1 {
				o := &mutOp{kind: 's', path: p, child: 4}
				out = append(out, handleUse{name: o.String(), model: o.model, real: func(h *handles) (*jsonvalue.V, error) { r, _, err := o.real(h.v); return r, err }})
			}
		}
	}
	return
}

func handleFamily(r *Run) {
	uses := handleUses([]pel{pk("a"), pk("b"), pi(0), pi(-1)}[:r.Pick(4, 4)], 2)
	texts := []string{`{}`, `{"a":{"b":1},"b":{"a":[2]}}`, `[[1],{"a":2}]`, `[]`}
	depth := 3
	r.Par("kept handles", fmt.Sprintf("all histories of %d steps from %d on %d documents: one Setter, one Appender and one Inserter, made at the start, used again and again at every path, with other calls in between", depth, len(uses), r.Pick(3, 4)), len(uses)*r.Pick(3, 4), func(c *C, sh int) {
		text := texts[sh/len(uses)]
		w0, _, _ := refParse([]byte(text), false)
		var hist []handleUse
		var rec func(w *Val)
		rec = func(w *Val) {
			if c.Expired() {
				return
			}
			for i, u := range uses {
				if len(hist) == 0 && i != sh%len(uses) {
					continue
				}
				nw := w.clone()
				res, placed := u.model(nw)
				hist = append(hist, u)
				if len(hist) < depth {
					rec(nw)
				} else {
					c.Step(depth)
					c.Do(func() string {
						s := text + ":"
						for _, u := range hist {
							s += " " + u.name + ";"
						}
						return s
					}, func() {
						h := newHandles(build(w0))
						for _, u := range hist[:depth-1] {
							_, _ = u.real(h)
						}
						ret, err := u.real(h)
						if (err == nil) != (res == mOK) {
							c.Fail("%s gives error %v", u.name, err)
						}
						if d := diff(nw, h.v, "$"); d != "" {
							c.Fail("after %s (error %v): %s\ndocument is %s\nshould be   %s", u.name, err, d, read(h.v), nw)
						}
						if !u.drop {
							if res != mOK && (ret == nil || ret.ValueType() != jsonvalue.NotExist) {
								c.Fail("%s fails and returns %v", u.name, ret)
							}
							if res == mOK {
								if d := diff(placed, ret, "returned value"); d != "" {
									c.Fail("%s: %s", u.name, d)
								}
							}
						}
					})
				}
				hist = hist[:len(hist)-1]
			}
		}
		rec(w0)
	})
}

// voidFamily: calls on something that is no JSON value fail and leave it as it is.
func voidFamily(r *Run, ops []*mutOp) {
	voids := []struct {
		name string
		mk   func() *jsonvalue.V
	}{
		{"&V{}", func() *jsonvalue.V { return &jsonvalue.V{} }},
		{"result of a failed Get", func() *jsonvalue.V { v, _ := jsonvalue.NewObject().Get("x"); return v }},
		{"result of a failed Import", func() *jsonvalue.V { v, _ := jsonvalue.Import(make(chan int)); return v }},
		{"result of a failed parse", func() *jsonvalue.V { v, _ := jsonvalue.UnmarshalString("["); return v }},
		{"result of a failed Set", func() *jsonvalue.V { v, _ := jsonvalue.NewObject().Set(1).At(0); return v }},
	}
	r.Par("no value", fmt.Sprintf("all histories of 2 calls from %d on each of %d things that are no JSON value", len(ops), len(voids)), len(ops)*len(voids), func(c *C, sh int) {
		x, first := voids[sh%len(voids)], ops[sh/len(voids)]
		for _, second := range ops {
			c.Step(2)
			c.Do(func() string { return x.name + ": " + first.String() + "; " + second.String() }, func() {
				v := x.mk()
				for _, o := range []*mutOp{first, second} {
					ret, _, err := o.real(v)
					if err == nil {
						c.Fail("%s succeeds on %s", o, x.name)
					}
					if o.kind != 'd' && (ret == nil || ret.ValueType() != jsonvalue.NotExist || ret == v) {
						c.Fail("%s fails and returns %v", o, ret)
					}
					if v.ValueType() != jsonvalue.NotExist || v.Len() != 0 {
						c.Fail("%s makes %s a value: %v", o, x.name, v)
					}
				}
				if other := x.mk(); other.ValueType() != jsonvalue.NotExist {
					c.Fail("the calls change another %s: %v", x.name, other)
				}
			})
		}
	})
}
