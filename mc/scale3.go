package main

import (
	"encoding/base64"
	"fmt"
	"strings"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

func init() {
	scale["C24"] = func(r *Run) {
		sz := sizes(r.Pick(140, 400), r.Pick(10, 13))
		r.Par("sizes", "strings of "+sizesText(r.Pick(140, 400), r.Pick(10, 13))+" characters: digits, fractions, blanks around numbers and booleans, base64 of that many bytes (right, cut, with a bad character), text; arrays and objects of that size", len(sz), func(c *C, sh int) {
			n := sz[sh]
			bl := strings.Repeat(" ", n)
			raw := []byte(pattern("\x00\xffabc\x10\xf8", n))
			b64 := base64.StdEncoding.EncodeToString(raw)
			list := []string{
				"1" + strings.Repeat("0", n), strings.Repeat("9", n), "-" + strings.Repeat("8", n), "0." + strings.Repeat("3", n), "1." + strings.Repeat("0", n), strings.Repeat("0", n) + "1",
				bl + "12", "12" + bl, bl + "-0.5e1" + bl, strings.Repeat("\t\n", n) + "7", bl + "true", "true" + bl, bl + "false" + bl, bl + "null", bl, strings.Repeat("true", n),
				"1e" + strings.Repeat("0", n) + "1", "1e-" + strings.Repeat("0", n) + "2", "12" + bl + "x", "x" + bl, "1" + bl + "1",
				b64, b64 + "=", strings.TrimRight(b64, "="), b64 + "\n" + b64, strings.ReplaceAll(b64, "/", "_"), pattern("ab é", n), pattern("\"\\/\n", n),
			}
			if len(b64) > 0 {
				list = append(list, b64[1:], b64[:len(b64)-1], b64[:len(b64)/2]+"*"+b64[len(b64)/2+1:], b64[:len(b64)/2]+"\n"+b64[len(b64)/2:], "*"+b64[1:])
			}
			for i, s := range list {
				for num := 0; num < 2; num++ {
					w := vStr(s)
					if num == 1 {
						k, fl, ok := scanNumber([]byte(s))
						if !ok || k != len(s) || !numberInRange(s, fl) {
							continue
						}
						w = vNum(s)
					}
					c.Do(func() string { return fmt.Sprintf("text %d of size %d, number: %v", i, n, num == 1) }, func() {
						v := build(w)
						if num == 1 {
							v = jsonvalue.MustUnmarshalString(s)
						}
						checkAccess(c, w, v, n < 300)
						checkAccess(c, w, jsonvalue.MustUnmarshalString((escStyle{}).format(w)), false)
					})
				}
			}
			for _, w := range []*Val{wideArr(n), wideObj(n), chain(vNum("1"), min(n, 500), 2, false)} {
				c.Do(func() string { return fmt.Sprintf("container of size %d", n) }, func() {
					checkAccess(c, w, build(w), n < 70)
					if got, want := build(w).Len(), len(w.A)+len(w.O); got != want {
						c.Fail("Len is %d, should be %d", got, want)
					}
				})
			}
		})
	}

	scale["C25"] = func(r *Run) {
		d, top := r.Pick(70, 200), r.Pick(9, 12)
		sz := sizes(d, top)
		idx := map[string]*short{}
		for i := range shorts {
			idx[shorts[i].name] = &shorts[i]
		}
		r.Par("sizes", "strings and byte slices of "+sizesText(d, top)+" bytes through every typed form, and typed forms on arrays, objects and paths of that size", len(sz), func(c *C, sh int) {
			n := sz[sh]
			args := map[string][]any{
				"String": {pattern("ab", n), pattern("é\"<\\", n)},
				"Bytes":  {[]byte(pattern("\x00\xff\x7f", n))},
			}
			for _, name := range []string{"String", "Bytes", "Int", "Bool", "Null", "Array", "Object", "Float64"} {
				s := idx[name]
				if s == nil {
					panic(name)
				}
				as := args[name]
				if as == nil {
					as = s.args[:1]
				}
				for _, x := range as {
					c.Do(func() string { return fmt.Sprintf("%s(%s) of size %d", name, clip(showAny(x), 100), n) }, func() {
						want := face(s.newV(x))
						if got := face(jsonvalue.New(s.general(x))); got != want {
							c.Fail("New gives %s, New%s %s", clip(got, 200), name, clip(want, 200))
						}
						if v, err := jsonvalue.Import(s.general(x)); err != nil || face(v) != want {
							c.Fail("Import gives %s (%v)", clip(face(v), 200), err)
						}
						if w := s.text(x); w != nil {
							if got := s.newV(x).MustMarshalString(); got != (escStyle{}).format(w) {
								c.Fail("the value is %s, should be %s", clip(got, 200), clip(w.String(), 200))
							}
						}
						docs := []*Val{vObj("a", wideArr(n), "o", wideObj(n))}
						m := min(n, 300)
						p, _ := deepPath(m, 2), 0
						for _, t := range []target25{
							{"At", []any{"a", 0}}, {"At", []any{"a", n - 1}}, {"At", []any{"a", n}}, {"At", []any{"a", n + 1}}, {"At", []any{"a", -n}}, {"At", []any{"o", "k0"}}, {"At", []any{"o", fmt.Sprintf("k%d", n)}},
							{"At", append([]any{"p"}, pathAny(p)...)}, {"InTheEnd", []any{"a"}}, {"InTheBeginning", []any{"a"}}, {"Before", []any{"a", n - 1}}, {"After", []any{"a", n - 1}}, {"Before", []any{"a", n / 2}}, {"After", []any{"a", -n}},
						} {
							if s.noInsert && (t.kind == "Before" || t.kind == "After") {
								continue
							}
							c.Step(1)
							pre := map[string]string{"At": "Set", "InTheEnd": "Append", "InTheBeginning": "Append", "Before": "Insert", "After": "Insert"}[t.kind]
							for _, d := range docs {
								run := func(f func(v *jsonvalue.V) (*jsonvalue.V, error)) string {
									v := build(d)
									ret, err := f(v)
									return fmt.Sprint(docText(v), face(ret), err)
								}
								gen := func(x any) func(v *jsonvalue.V) (*jsonvalue.V, error) {
									return func(v *jsonvalue.V) (*jsonvalue.V, error) {
										switch t.kind {
										case "At":
											return v.Set(x).At(t.p[0], t.p[1:]...)
										case "InTheBeginning":
											return v.Append(x).InTheBeginning(t.p...)
										case "InTheEnd":
											return v.Append(x).InTheEnd(t.p...)
										case "Before":
											return v.Insert(x).Before(t.p[0], t.p[1:]...)
										}
										return v.Insert(x).After(t.p[0], t.p[1:]...)
									}
								}
								a := run(gen(s.newV(x)))
								b := run(gen(s.general(x)))
								e := run(func(v *jsonvalue.V) (*jsonvalue.V, error) {
									out := callM(c, s.start(c, v, pre, x), t.kind, t.p...)
									ret, _ := out[0].Interface().(*jsonvalue.V)
									err, _ := out[1].Interface().(error)
									return ret, err
								})
								if a != b || a != e {
									c.Fail("%s %v: typed %s, general %s, general with the typed constructor %s", t.kind, t.p, clip(e, 300), clip(b, 300), clip(a, 300))
								}
							}
						}
					})
				}
			}
		})
	}
}
