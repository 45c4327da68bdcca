package main

import (
	"fmt"
	"strconv"
	"strings"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

func init() { checks["C01"] = c01 }

func c01(r *Run) {
	deepTexts(r, 0, 3)
	r.Assume("reference parser (mc/ref.go), cross-checked against encoding/json on every accepted word of family words")
	accept := func(c *C, word []byte, es []entry, cross bool) {
		c.Do(func() string { return string(word) }, func() {
			w, _, err := refParse(word, false)
			if err != nil {
				panic(fmt.Sprintf("internal: generator made a malformed text: %v", err))
			}
			if cross {
				crossCheck(c, word, w)
			}
			acceptAll(c, word, w, es)
			c.Out(hashStr(w.canon()))
		})
	}
	// 1. all well-formed token words
	alpha := []string{"{", "}", "[", "]", ",", ":", `""`, `"a"`, `"\u0062\n"`, "0", "-1.5e1", "true", "null"}
	n := r.Pick(11, 13)
	r.Par("words", fmt.Sprintf("every well-formed word of at most %d tokens over %q, all 10 entry points", n, alpha), len(alpha)*len(alpha), func(c *C, sh int) {
		pdaWords(c, alpha, sh, n, func(word []byte, p pda, toks []int) {
			if p.st == 'e' {
				accept(c, word, entries, len(toks) <= 7)
			}
		})
		if sh == 0 {
			for _, t := range []string{`""`, `"a"`, "0", "-1", "1.5", "true", "false", "null", `"\u0062\n"`} {
				accept(c, []byte(t), entries, true)
			}
		}
	})
	// 2. longer words over a smaller alphabet
	small := []string{"{", "}", "[", "]", ",", ":", `"k"`, `"\/"`, "1"}
	n2 := r.Pick(17, 20)
	r.Par("long words", fmt.Sprintf("every well-formed word of at most %d tokens over %q", n2, small), len(small)*len(small), func(c *C, sh int) {
		pdaWords(c, small, sh, n2, func(word []byte, p pda, toks []int) {
			if p.st == 'e' {
				accept(c, word, entries[:3], false)
			}
		})
	})
	// 3. white space: every subset of gaps blanked, and every single gap with every kind of blank
	ws := []string{"{", "}", "[", "]", ",", ":", `"k"`, "12", "false"}
	n3 := r.Pick(9, 10)
	blanks := []string{" ", "\t", "\r", "\n", "  ", "\r\n\t ", strings.Repeat(" ", 70)}
	r.Par("blanks", fmt.Sprintf("words of at most %d tokens over %q, a blank in every subset of gaps, and each of %d blanks in each gap", n3, ws, len(blanks)), len(ws)*len(ws), func(c *C, sh int) {
		pdaWords(c, ws, sh, n3, func(_ []byte, p pda, toks []int) {
			if p.st != 'e' {
				return
			}
			buf := make([]byte, 0, 256)
			gaps := len(toks) + 1
			mk := func(gap func(i int) string) []byte {
				buf = buf[:0]
				for i, t := range toks {
					buf = append(buf, gap(i)...)
					buf = append(buf, ws[t]...)
				}
				return append(buf, gap(len(toks))...)
			}
			for mask := 0; mask < 1<<gaps; mask++ {
				accept(c, mk(func(i int) string {
					if mask>>i&1 == 1 {
						return " "
					}
					return ""
				}), entries[:3], false)
			}
			for g := 0; g < gaps; g++ {
				for _, b := range blanks {
					accept(c, mk(func(i int) string {
						if i == g {
							return b
						}
						return ""
					}), entries[:3], false)
				}
			}
		})
	})
	r.Par("top-level blanks", "every scalar and empty container with every pair of surrounding blanks", len(blanks)+1, func(c *C, sh int) {
		bl := append([]string{""}, blanks...)
		for _, t := range []string{"0", "-7", "1.5", "1e3", "true", "false", "null", `""`, `"x"`, `"\""`, "{}", "[]", "18446744073709551615", "-9223372036854775808"} {
			for _, e := range bl {
				accept(c, []byte(bl[sh]+t+e), entries, true)
			}
		}
	})
	// 4. member counts around the internal capacities
	vals := []string{"0", "-12", "2.50", `"s"`, `"\t"`, "true", "false", "null", "[]", "{}", "[1]", `{"q":1}`, `""`}
	lens := []int{}
	for i := 0; i <= r.Pick(70, 140); i++ {
		lens = append(lens, i)
	}
	lens = append(lens, 255, 256, 257, 1000, 4095, 4096, 4097)
	if r.thorough {
		lens = append(lens, 65535, 65536, 65537, 300000)
	}
	r.Par("member counts", fmt.Sprintf("arrays and objects of 0..%d, 255-257, 1000, 4095-4097 members of each of %d values and of all values cycling", lens[len(lens)-8], len(vals)), len(lens), func(c *C, sh int) {
		ln := lens[sh]
		for vi := -1; vi < len(vals); vi++ {
			val := func(i int) string {
				if vi < 0 {
					return vals[i%len(vals)]
				}
				return vals[vi]
			}
			for shape := 0; shape < 4; shape++ {
				var b strings.Builder
				b.WriteString([]string{"[", "{", `{"in":[`, `[{`}[shape])
				for i := 0; i < ln; i++ {
					if i > 0 {
						b.WriteByte(',')
					}
					if shape&1 == 1 {
						b.WriteString(`"k` + strconv.Itoa(i) + `":`)
					}
					b.WriteString(val(i))
				}
				b.WriteString([]string{"]", "}", `],"after":1}`, `},2]`}[shape])
				accept(c, []byte(b.String()), entries[:3], false)
			}
		}
	})
	// 5. value density: the pre-allocation pool running out at every point
	r.Par("pool", "arrays of n short values followed by m long strings, n 0..40, m 0..6 (pre-allocation short, exact and in excess)", 41, func(c *C, sh int) {
		for m := 0; m <= 6; m++ {
			for _, short := range []string{"1", "[]", "{}", `{"a":[]}`} {
				for pos := 0; pos < 2; pos++ {
					var parts []string
					for i := 0; i < sh; i++ {
						parts = append(parts, short)
					}
					var long []string
					for i := 0; i < m; i++ {
						long = append(long, `"`+strings.Repeat("x", 20+7*i)+`"`)
					}
					if pos == 0 {
						parts = append(parts, long...)
					} else {
						parts = append(long, parts...)
					}
					accept(c, []byte("["+strings.Join(parts, ",")+"]"), entries[:3], false)
				}
			}
		}
	})
	// 6. nesting
	nd := r.Pick(10, 14)
	r.Par("nesting", fmt.Sprintf("every pattern of arrays and objects to depth %d, each with and without siblings before and after", nd), 1<<nd, func(c *C, sh int) {
		for d := 1; d <= nd; d++ {
			if sh>>d != 0 {
				continue
			}
			for variant := 0; variant < 4; variant++ {
				open, cl := "", ""
				for i := 0; i < d; i++ {
					if sh>>i&1 == 0 {
						open += []string{"[", "[0,", "[", `["p",`}[variant]
						cl = []string{"]", "]", ",0]", `,null]`}[variant] + cl
					} else {
						open += []string{`{"a":`, `{"z":0,"a":`, `{"a":`, `{"":{},"a":`}[variant]
						cl = []string{"}", "}", `,"z":0}`, `,"b":[]}`}[variant] + cl
					}
				}
				accept(c, []byte(open+`"leaf"`+cl), entries[:3], false)
			}
		}
	})
	r.Par("deep nesting", "arrays, objects and alternations nested 1..300, 1000, 5000, 9999..10002, 16383..16386, 65535..65538 and 100000 deep", 315, func(c *C, sh int) {
		d := sh + 1
		if sh == 300 {
			d = 1000
		} else if sh == 301 {
			d = 5000
		} else if sh > 301 {
			d = []int{9999, 10000, 10001, 10002, 16383, 16384, 16385, 16386, 65535, 65536, 65537, 65538, 100000}[sh-302]
		}
		if d > 5000 { // walked down, since printing the model of such a text takes memory in the square of its depth
			for _, t := range [][3]string{{"[", "", "]"}, {`{"a":`, "1", "}"}, {`[{"a":`, "null", "}]"}, {`[0,`, `"x"`, "]"}} {
				text := strings.Repeat(t[0], d) + t[1] + strings.Repeat(t[2], d)
				c.Do(func() string { return fmt.Sprintf("%d x %s", d, t[0]) }, func() {
					for _, f := range []func() (*jsonvalue.V, error){
						func() (*jsonvalue.V, error) { return jsonvalue.UnmarshalString(text) },
						func() (*jsonvalue.V, error) { return jsonvalue.UnmarshalNoCopy([]byte(text)) },
						func() (*jsonvalue.V, error) { v := &jsonvalue.V{}; return v, v.UnmarshalJSON([]byte(text)) },
					} {
						root, err := f()
						if err != nil {
							c.Fail("well-formed text is rejected: %v", err)
						}
						levels := 0
						for v := root; ; levels++ {
							next := (*jsonvalue.V)(nil)
							if v.IsArray() && v.Len() > 0 {
								a := v.ForRangeArr()
								next = a[len(a)-1]
							} else if v.IsObject() {
								next = v.ForRangeObj()["a"]
							}
							if next == nil {
								if s := v.MustMarshalString(); s != t[1] && s != "[]" {
									c.Fail("at the bottom is %s", s)
								}
								break
							}
							v = next
						}
						want := d
						switch t[0] {
						case "[":
							want = d - 1
						case `[{"a":`:
							want = 2 * d
						}
						if levels != want {
							c.Fail("there are %d levels, should be %d", levels, want)
						}
						if s := root.MustMarshalString(jsonvalue.OptSetSequence()); s != text {
							c.Fail("it marshals as another text of length %d, should be %d", len(s), len(text))
						}
					}
				})
			}
			return
		}
		accept(c, []byte(strings.Repeat("[", d)+strings.Repeat("]", d)), entries[:3], false)
		accept(c, []byte(strings.Repeat(`{"a":`, d)+"1"+strings.Repeat("}", d)), entries[:3], false)
		accept(c, []byte(strings.Repeat(`[{"a":`, d)+"null"+strings.Repeat("}]", d)), entries[:3], false)
	})
	// 7. lengths of strings, with an escape at each place
	r.Par("string lengths", "strings and keys of length 0..300, 4090-4100, 65530-65540, and with an escape at every place up to length 48", 323, func(c *C, sh int) {
		l := sh
		if sh > 300 {
			l = 4090 + sh - 301
			if sh > 311 {
				l = 65530 + sh - 312
			}
		}
		s := strings.Repeat("abcdefgh", l/8+1)[:l]
		for _, t := range []string{`"%"`, `["%"]`, `{"%":1}`, `{"k":"%","%":"%"}`, `["%","%"]`} {
			accept(c, []byte(strings.ReplaceAll(t, "%", s)), entries[:3], false)
		}
		if l <= 48 {
			for i := 0; i <= l; i++ {
				for _, esc := range []string{`\n`, `\u00e9`, `\ud83d\ude00`, "é", "😀"} {
					e := s[:i] + esc + s[i:]
					accept(c, []byte(strings.ReplaceAll(`{"%":["%",1],"x":"%"}`, "%", e)), entries[:3], false)
				}
			}
		}
	})
	// 8. duplicate keys
	keys := []string{`"a"`, `"\u0061"`, `"b"`, `""`, `"A"`}
	nk := r.Pick(6, 8)
	r.Par("duplicate keys", fmt.Sprintf("every sequence of at most %d keys over %q with distinct values", nk, keys), len(keys), func(c *C, sh int) {
		var rec func(seq []string)
		rec = func(seq []string) {
			for _, t := range []string{"{%}", `[0,{%}]`, `{"o":{%},"a":9}`} {
				accept(c, []byte(strings.Replace(t, "%", strings.Join(seq, ","), 1)), entries[:3], false)
			}
			if len(seq) == nk {
				return
			}
			for _, k := range keys {
				rec(append(append([]string{}, seq...), k+":"+[]string{strconv.Itoa(len(seq)), `"s` + strconv.Itoa(len(seq)) + `"`, "[" + strconv.Itoa(len(seq)) + "]"}[len(seq)%3]))
			}
		}
		rec([]string{keys[sh] + ":-1"})
	})
}
