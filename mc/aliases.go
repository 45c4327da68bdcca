package main

import (
	"encoding/json"
	"fmt"
	"strings"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

// Values that are equal are still different values: changing one changes no other, be it a sibling, or made by the same call at another time.

var aliasLeaves = []string{`0`, `1`, `-1`, `0.5`, `"x"`, `""`, `true`, `false`, `null`, `[]`, `{}`, `[0]`, `{"a":0}`, `[[]]`}

// aliasMakers make a document out of its text.
var aliasMakers = []struct {
	name string
	f    func(text string) *jsonvalue.V
}{
	{"UnmarshalString", func(s string) *jsonvalue.V { return jsonvalue.MustUnmarshalString(s) }},
	{"Unmarshal", func(s string) *jsonvalue.V { return jsonvalue.MustUnmarshal([]byte(s)) }},
	{"UnmarshalNoCopy", func(s string) *jsonvalue.V { return jsonvalue.MustUnmarshalNoCopy([]byte(s)) }},
	{"UnmarshalJSON", func(s string) *jsonvalue.V { v := &jsonvalue.V{}; _ = v.UnmarshalJSON([]byte(s)); return v }},
	{"Import of Go data", func(s string) *jsonvalue.V {
		var x any
		_ = json.Unmarshal([]byte(s), &x)
		v, _ := jsonvalue.Import(x)
		return v
	}},
	{"Import of a copy", func(s string) *jsonvalue.V {
		v, _ := jsonvalue.Import(jsonvalue.MustUnmarshalString(s))
		return v
	}},
	{"Import of a marshaler", func(s string) *jsonvalue.V { v, _ := jsonvalue.Import(json.RawMessage(s)); return v }},
	{"constructors", func(s string) *jsonvalue.V { w, _ := refParseAny([]byte(s)); return build(w) }},
	{"detours", func(s string) *jsonvalue.V { w, _ := refParseAny([]byte(s)); return buildMutated(w) }},
	{"Set of Go data", func(s string) *jsonvalue.V {
		var x any
		_ = json.Unmarshal([]byte(s), &x)
		v := jsonvalue.NewObject()
		v.MustSet(x).At("x")
		return v.MustGet("x")
	}},
}

func childrenOf(v *jsonvalue.V) (out []*jsonvalue.V) {
	v.RangeArray(func(_ int, x *jsonvalue.V) bool { out = append(out, x); return true })
	v.RangeObjectsBySetSequence(func(_ string, x *jsonvalue.V) bool { out = append(out, x); return true })
	return
}

// apart changes every node below the n-th child of one document and looks at its siblings and at another document.
func apart(c *C, text string, mi, at, mut int) {
	mk := aliasMakers[mi]
	c.Step(1)
	c.Do(func() string {
		short := text
		if len(short) > 200 {
			short = short[:200] + "…"
		}
		return fmt.Sprintf("%s of %s, twice; %s at member %d of the first", mk.name, short, scratchMutations[mut].name, at)
	}, func() {
		v, w := mk.f(text), mk.f(text)
		kids := childrenOf(v)
		if at >= len(kids) {
			return
		}
		before, other := make([]string, len(kids)), dump(w)
		for i, k := range kids {
			before[i] = dump(k)
		}
		for _, n := range nodesOf(kids[at]) {
			scratchMutations[mut].f(n)
		}
		for i, k := range kids {
			if i == at {
				continue
			}
			if d := dump(k); d != before[i] {
				c.Fail("its sibling %d changed: %s, was %s", i, d, before[i])
			}
		}
		for i, k := range childrenOf(v) {
			if k != kids[i] {
				c.Fail("its sibling %d was replaced", i)
			}
		}
		if d := dump(w); d != other {
			c.Fail("the second document changed: %s, was %s", d, other)
		}
		if d := dump(mk.f(text)); d != other && !strings.Contains(mk.name, "Go data") {
			c.Fail("the document made afterwards is %s, was %s", d, other)
		}
		c.State(hashStr(other))
	})
}

func aliasDoc(obj bool, parts []string) string {
	var b strings.Builder
	for i, p := range parts {
		if i > 0 {
			b.WriteByte(',')
		}
		if obj {
			fmt.Fprintf(&b, `"k%d":`, i)
		}
		b.WriteString(p)
	}
	if obj {
		return "{" + b.String() + "}"
	}
	return "[" + b.String() + "]"
}

func c12Siblings(r *Run) {
	k := len(aliasLeaves)
	r.Par("siblings", fmt.Sprintf("arrays and objects of all pairs and triples of %d small texts (triples with a repetition), made twice in each of %d ways: each of %d changes at each member leaves the siblings, the second document and later documents alone", k, len(aliasMakers), len(scratchMutations)), k*k, func(c *C, sh int) {
		a, b := aliasLeaves[sh%k], aliasLeaves[sh/k]
		lists := [][]string{{a, b}, {a, b, a}, {a, a, b}, {b, a, a}, {"[" + a + "," + a + "]", `{"z":` + b + `,"y":` + b + `}`}}
		for li, l := range lists {
			for obj := 0; obj < 2; obj++ {
				text := aliasDoc(obj == 1, l)
				for mi := range aliasMakers {
					for at := range l {
						for mut := range scratchMutations {
							if !r.thorough && li > 0 && mut > 0 && (mut+li+mi)%4 != 0 {
								continue
							}
							apart(c, text, mi, at, mut)
						}
					}
				}
			}
		}
	})
	sz := sizes(r.Pick(20, 40), r.Pick(9, 11))
	r.Par("equal elements", "arrays and objects of "+sizesText(r.Pick(20, 40), r.Pick(9, 11))+" equal members of each small text, the first, second, a middle and the last one changed", len(sz), func(c *C, sh int) {
		n := sz[sh]
		for _, leaf := range aliasLeaves {
			parts := make([]string, n)
			for i := range parts {
				parts[i] = leaf
			}
			for obj := 0; obj < 2; obj++ {
				text := aliasDoc(obj == 1, parts)
				for mi := range aliasMakers {
					for ai, at := range []int{0, 1, n / 2, n - 1} {
						if at < 0 || at >= n || !r.thorough && n > 40 && (mi+ai)%3 != 0 {
							continue
						}
						apart(c, text, mi, at, 0)
					}
				}
			}
		}
	})
	r.Seq("constructors again", "every constructor without arguments or of a small value called twice, with each change to the first result", func(c *C) {
		mks := map[string]func() *jsonvalue.V{
			"NewNull": jsonvalue.NewNull, "NewObject": func() *jsonvalue.V { return jsonvalue.NewObject() }, "NewArray": jsonvalue.NewArray,
			"NewBool":   func() *jsonvalue.V { return jsonvalue.NewBool(true) },
			"NewBool2":  func() *jsonvalue.V { return jsonvalue.NewBool(false) },
			"NewString": func() *jsonvalue.V { return jsonvalue.NewString("") }, "NewBytes": func() *jsonvalue.V { return jsonvalue.NewBytes(nil) },
			"NewInt": func() *jsonvalue.V { return jsonvalue.NewInt(0) }, "NewInt64": func() *jsonvalue.V { return jsonvalue.NewInt64(1) },
			"NewInt32": func() *jsonvalue.V { return jsonvalue.NewInt32(-1) }, "NewUint": func() *jsonvalue.V { return jsonvalue.NewUint(0) },
			"NewUint64": func() *jsonvalue.V { return jsonvalue.NewUint64(1) }, "NewUint32": func() *jsonvalue.V { return jsonvalue.NewUint32(2) },
			"NewFloat64": func() *jsonvalue.V { return jsonvalue.NewFloat64(0) }, "NewFloat32": func() *jsonvalue.V { return jsonvalue.NewFloat32(0.5) },
			"NewFloat64f": func() *jsonvalue.V { return jsonvalue.NewFloat64f(0, 'f', 1) }, "NewFloat32f": func() *jsonvalue.V { return jsonvalue.NewFloat32f(0, 'f', 1) },
			"New(nil)": func() *jsonvalue.V { return jsonvalue.New(nil) }, "New(map)": func() *jsonvalue.V { return jsonvalue.New(map[string]int(nil)) },
			"New(slice)": func() *jsonvalue.V { return jsonvalue.New([]int{}) }, "New(struct)": func() *jsonvalue.V { return jsonvalue.New(struct{}{}) },
			"not found": func() *jsonvalue.V { return jsonvalue.NewObject().MustGet("x") }, "failed": func() *jsonvalue.V { return jsonvalue.MustUnmarshalString("?") },
			"empty text": func() *jsonvalue.V { return jsonvalue.MustUnmarshalString("") }, "New(chan)": func() *jsonvalue.V { return jsonvalue.New(make(chan int)) },
			"deleted":    func() *jsonvalue.V { x := jsonvalue.NewArray(); _ = x.Delete(0); return x.MustGet(0) },
			"failed set": func() *jsonvalue.V { v, _ := jsonvalue.NewNull().Set(1).At("x"); return v },
		}
		names := make([]string, 0, len(mks))
		for n := range mks {
			names = append(names, n)
		}
		for _, n := range names {
			for mut := range scratchMutations {
				c.Do(func() string { return n + " twice; " + scratchMutations[mut].name + " at the first" }, func() {
					c.Step(1)
					v, w := mks[n](), mks[n]()
					d := dump(w)
					scratchMutations[mut].f(v)
					if x := dump(w); x != d {
						c.Fail("the second one changed: %s, was %s", x, d)
					}
					if x := dump(mks[n]()); x != d {
						c.Fail("one made later is %s, was %s", x, d)
					}
				})
			}
		}
	})
}

// c12Large overwrites the bytes of large inputs.
func c12Large(r *Run) {
	top := r.Pick(21, 25)
	var sz []int
	for k := 12; k <= top; k++ {
		sz = append(sz, 1<<k-3, 1<<k+3)
	}
	kinds := []struct {
		name, open, unit, close string
		probe                   func(v *jsonvalue.V) string
	}{
		{"one string", `["`, `a`, `"]`, func(v *jsonvalue.V) string { return v.MustGet(0).String() }},
		{"one string after an escape", `["\n`, `a`, `"]`, func(v *jsonvalue.V) string { return v.MustGet(0).String() }},
		{"one string before an escape", `["`, `a`, `\n"]`, func(v *jsonvalue.V) string { return v.MustGet(0).String() }},
		{"one key", `{"`, `k`, `":1}`, func(v *jsonvalue.V) string { return v.MustMarshalString() }},
		{"a bare string", `"`, `é`, `"`, func(v *jsonvalue.V) string { return v.String() }},
		{"blanks", `["x",`, ` `, `123]`, func(v *jsonvalue.V) string { return v.MustMarshalString() + v.MustGet(1).String() }},
		{"numbers", `[1`, `,12345678901234567890123456789.5e10`, `]`, func(v *jsonvalue.V) string { return v.MustMarshalString() }},
		{"strings", `[1`, `,"twenty-two characters!"`, `]`, func(v *jsonvalue.V) string { return v.MustMarshalString() }},
	}
	ways := []struct {
		name string
		f    func(b []byte) *jsonvalue.V
	}{
		{"Unmarshal", func(b []byte) *jsonvalue.V { return jsonvalue.MustUnmarshal(b) }},
		{"V.UnmarshalJSON", func(b []byte) *jsonvalue.V { v := &jsonvalue.V{}; _ = v.UnmarshalJSON(b); return v }},
		{"V.UnmarshalBinary", func(b []byte) *jsonvalue.V { v := &jsonvalue.V{}; _ = v.UnmarshalBinary(b); return v }},
		{"Import of json.RawMessage", func(b []byte) *jsonvalue.V { v, _ := jsonvalue.Import(json.RawMessage(b)); return v }},
	}
	r.Par("large inputs", fmt.Sprintf("texts of 2^k-3 and 2^k+3 bytes, k in 12..%d, of %d kinds, parsed in %d ways; the input is left alone, and overwriting it later changes nothing; nor does overwriting the output", top, len(kinds), len(ways)), len(sz)*len(kinds), func(c *C, sh int) {
		n, kind := sz[sh%len(sz)], kinds[sh/len(sz)]
		body := strings.Repeat(kind.unit, n/len(kind.unit)+1)
		text := kind.open + body + kind.close
		for _, w := range ways {
			c.Do(func() string { return fmt.Sprintf("%s of %d bytes: %s", w.name, len(text), kind.name) }, func() {
				c.Step(1)
				in := []byte(text)
				v := w.f(in)
				if string(in) != text {
					c.Fail("the input is modified")
				}
				want := kind.probe(v)
				for i := range in {
					in[i] = 'X'
				}
				if kind.probe(v) != want {
					c.Fail("the value changed with the input")
				}
				out := v.MustMarshal()
				keep := string(out)
				for i := range out {
					out[i] = 'Y'
				}
				if kind.probe(v) != want || v.MustMarshalString() != keep {
					c.Fail("the value changed with its output")
				}
				if strings.Contains(keep, "X") || len(keep) < 8 {
					c.Fail("the value is wrong: %.80q", keep)
				}
				c.State(uint64(n))
			})
		}
	})
}
