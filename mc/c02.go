package main

import (
	"fmt"
	"strings"
)

func init() { checks["C02"] = c02 }

var richDocs = []string{
	`{"a":[1,-2.5e+3,true],"b":{"c":null,"":"x\u00e9\n"}}`,
	`[[],{},"",0,-0,false]`,
	`{"k":"\ud83d\ude00é😀€","l":[[[1]]]}`,
	` [ "a\\b" , 1.0 ,{ "x" : "y" } ] `,
	`"\"\\\/\b\f\n\r\t\u12aB"`,
	`-12.034E-5`,
	`18446744073709551615`,
	`-9223372036854775808`,
	`true`, `false`, `null`, `{}`, `[]`, `""`, `0`,
	`{"true":true,"null":null,"false":false}`,
	`[{"a":{"b":{"c":[{"d":[]}]}}}]`,
}

// marks begin, end or interrupt texts of formats that are no JSON.
var marks = []string{"\xEF\xBB\xBF", "\xFE\xFF", "\xFF\xFE", "\xFF\xFE\x00\x00", "\x00\x00\xFE\xFF", "\xEF\xBB", "\xEF", "\u0085", "\u00a0", "\u1680", "\u2003", "\u200b", "\u2028", "\u2029", "\u202f", "\u3000",
	"\x1e", "\x00", "\v", "\f", "\x1f", "\x7f", "//", "// x\n", "/* */", "/**/", "#", "# x\n", "<!-- -->", "--", ")]}'\n", ")]}',\n", "while(1);", "for(;;);", "{}&&", ";", "=", "(", ")", "'", "`", "$", "@", "_", "~", "!", "undefined", "NaN", "Infinity", "-Infinity", "None", "True", "NULL", "nil",
	"0x1", "1_0", "+1", ".5", "5.", "1n", "1f", "\\n", "\\", "\\u0020", "&quot;", "...", ",", ",,", ":", "\x1b[0m", "\x04", "\x1a"}

func c02(r *Run) {
	deepTexts(r, 3, len(deepKinds))
	r.Assume("strict and lenient reference parsers (mc/ref.go); acceptances that only a listed leniency class explains are known findings")
	try := func(c *C, word []byte, es []entry) {
		c.Do(func() string { return fmt.Sprintf("%q", word) }, func() { judge(c, word, es) })
	}
	// 1. raw bytes in contexts
	ctx := []string{"%", "[%]", `"%"`, `{"a":%}`, "[1%]", `{"a"%1}`, `{%:1}`, `["a"%]`, `[%`, `{"%":[]}`, `"\u%A1"`, `"\u00%"`, `1%`, `-%`, `{"a":1%}`}
	r.Par("all bytes", fmt.Sprintf("every byte string of length 0..2 in each of %d contexts", len(ctx)), 257, func(c *C, sh int) {
		for _, t := range ctx {
			pre, post, _ := strings.Cut(t, "%")
			mk := func(bs ...byte) []byte { return append(append(append(make([]byte, 0, 32), pre...), bs...), post...) }
			if sh == 256 {
				try(c, mk(), entries)
				continue
			}
			try(c, mk(byte(sh)), entries)
			for b := 0; b < 256; b++ {
				try(c, mk(byte(sh), byte(b)), entries[:4])
			}
		}
	})
	if r.thorough {
		r.Par("all bytes 3", "every byte string of length 3, bare and inside a string and an array", 256*3, func(c *C, sh int) {
			t := []string{"%", `"%"`, "[%]"}[sh%3]
			pre, post, _ := strings.Cut(t, "%")
			w := append(append([]byte(pre), byte(sh/3), 0, 0), post...)
			k := len(pre)
			for i := 0; i < 65536; i++ {
				w[k+1], w[k+2] = byte(i>>8), byte(i)
				try(c, w, entries[:1])
			}
		})
	}
	// 2. words over the bytes the grammar distinguishes
	syn := []string{"{", "}", "[", "]", ":", ",", `"`, `\`, "u", "0", "1", "-", "+", ".", "e", "t", "r", "a", "n", "l", " ", "\x01", "\b", "\x80", "\xC3", "\xED", "\xFF", "'"}
	nb := r.Pick(4, 5)
	r.Par("byte words", fmt.Sprintf("every word of 1..%d bytes over %d grammar-relevant bytes", nb, len(syn)), len(syn)*len(syn), func(c *C, sh int) {
		var rec func(w []byte, n int)
		rec = func(w []byte, n int) {
			if n >= 2 || sh%len(syn) == 0 {
				es := entries[:4]
				if n >= 4 {
					es = entries[:2]
				}
				try(c, w, es)
			}
			if n == nb {
				return
			}
			for i, t := range syn {
				if n == 1 && i != sh%len(syn) {
					continue
				}
				rec(append(w, t...), n+1)
			}
		}
		rec(append(make([]byte, 0, 16), syn[sh/len(syn)]...), 1)
	})
	// 3. words over tokens
	toks := []string{"{", "}", "[", "]", ",", ":", `""`, `"a"`, `"\n"`, "0", "-1.5", "true", "null", " ", `"`, "tru", "01"}
	nt := r.Pick(5, 6)
	r.Par("token words", fmt.Sprintf("every word of 1..%d tokens over %q", nt, toks), len(toks)*len(toks), func(c *C, sh int) {
		var rec func(w []byte, n int)
		rec = func(w []byte, n int) {
			if n >= 2 || sh%len(toks) == 0 {
				es := entries[:1]
				if n <= 3 {
					es = entries
				}
				try(c, w, es)
			}
			if n == nt {
				return
			}
			for i, t := range toks {
				if n == 1 && i != sh%len(toks) {
					continue
				}
				rec(append(w, t...), n+1)
			}
		}
		rec(append(make([]byte, 0, 64), toks[sh/len(toks)]...), 1)
	})
	// 4. every viable prefix, cut there, and with one token that does not belong there
	alpha := []string{"{", "}", "[", "]", ",", ":", `"k"`, "1", "null"}
	bad := []string{"{", "}", "[", "]", ",", ":", `"x"`, "2", "true", `"`, "nul", "-", "1.", "x", "\x00", `\`, "/", "'a'"}
	n4 := r.Pick(7, 9)
	r.Par("prefix and bad token", fmt.Sprintf("every viable prefix of at most %d tokens: cut, completed, and with each of %d misplaced tokens with and without completion", n4, len(bad)), len(alpha)*len(alpha), func(c *C, sh int) {
		cls := make([]byte, len(alpha))
		for i, t := range alpha {
			cls[i] = tokClass(t)
		}
		var rec func(w []byte, p pda, n int)
		rec = func(w []byte, p pda, n int) {
			if n > 0 {
				c.State(p.hash())
			}
			if n >= 2 || sh%len(alpha) == 0 {
				es := entries[:1]
				if n <= 5 {
					es = entries
				}
				try(c, w, es)
				buf := append(append(make([]byte, 0, 128), w...), p.closing()...)
				try(c, buf, es)
				for _, b := range bad {
					buf = append(append(buf[:0], w...), b...)
					try(c, buf, es[:1])
					buf = append(buf, p.closing()...)
					try(c, buf, es)
				}
			}
			if n == n4 {
				return
			}
			for i, t := range alpha {
				if n == 0 && i != sh/len(alpha) || n == 1 && i != sh%len(alpha) {
					continue
				}
				c.Step(1)
				if q, ok := p.step(cls[i]); ok {
					rec(append(w, t...), q, n+1)
				}
			}
		}
		rec(make([]byte, 0, 128), pdaStart, 0)
	})
	// 5. every edit of rich documents
	r.Par("edits", fmt.Sprintf("every truncation, byte deletion, insertion and substitution (all 256 bytes) and transposition of %d documents", len(richDocs)), len(richDocs), func(c *C, sh int) {
		d := []byte(richDocs[sh])
		for i := 0; i <= len(d); i++ {
			try(c, append([]byte{}, d[:i]...), entries)
			try(c, append([]byte{}, d[i:]...), entries)
			if i < len(d) {
				try(c, append(append([]byte{}, d[:i]...), d[i+1:]...), entries)
			}
			if i+1 < len(d) {
				t := append([]byte{}, d...)
				t[i], t[i+1] = t[i+1], t[i]
				try(c, t, entries)
			}
			for b := 0; b < 256; b++ {
				try(c, append(append(append([]byte{}, d[:i]...), byte(b)), d[i:]...), entries[:4])
				if i < len(d) {
					t := append([]byte{}, d...)
					t[i] = byte(b)
					try(c, t, entries[:4])
				}
			}
		}
	})
	r.Par("foreign marks", fmt.Sprintf("each of %d marks of other formats (byte order marks, white space of Unicode, comments, separators, guards) and each pair of them before, after and at every place of %d documents", len(marks), len(richDocs)), len(marks), func(c *C, sh int) {
		for _, d := range richDocs {
			for i := 0; i <= len(d); i++ {
				try(c, []byte(d[:i]+marks[sh]+d[i:]), entries[:4])
				if i > 0 && i < len(d) {
					continue
				}
				for _, m := range marks {
					try(c, []byte(d[:i]+marks[sh]+m+d[i:]), entries[:2])
					try(c, []byte(d[:i]+" "+marks[sh]+" "+m+"\n"+d[i:]), entries[:2])
					if i == 0 {
						try(c, []byte(marks[sh]+d+m), entries[:2])
					}
				}
			}
			for n := 1; n < 6; n++ {
				try(c, []byte(strings.Repeat(marks[sh], n)), entries[:4])
			}
		}
	})
	edit := "{}[]:,\"\\ 0-.eutn"
	r.Par("double edits", fmt.Sprintf("every pair of one-byte substitutions by %q and deletions in %d documents", edit, len(richDocs)), len(richDocs)*20, func(c *C, sh int) {
		d := []byte(richDocs[sh/20])
		if len(d) > 26 && !r.thorough {
			return
		}
		one := func(t []byte, i, e int) []byte {
			if e == len(edit) {
				return append(append([]byte{}, t[:i]...), t[i+1:]...)
			}
			u := append([]byte{}, t...)
			u[i] = edit[e]
			return u
		}
		for i := 0; i < len(d); i++ {
			if i%20 != sh%20 {
				continue
			}
			for e := 0; e <= len(edit); e++ {
				t := one(d, i, e)
				for j := i; j < len(t); j++ {
					for f := 0; f <= len(edit); f++ {
						try(c, one(t, j, f), entries[:2])
					}
				}
			}
		}
	})
	// 6. unbalanced nesting
	r.Par("unbalanced", "n openers with m closers, n 1..120 and 3000, m 0..n+2, four shapes", 121, func(c *C, sh int) {
		n := sh + 1
		if sh == 120 {
			n = 3000
		}
		for m := 0; m <= n+2; m++ {
			if n == 3000 && m > 3 && m < n-3 {
				continue
			}
			if m == n {
				continue
			}
			for _, s := range [][2]string{{"[", "]"}, {`{"a":`, "}"}, {`[{"a":`, "}]"}, {`[1,`, "2]"}} {
				try(c, []byte(strings.Repeat(s[0], n)+strings.Repeat(s[1], m)), entries[:2])
				try(c, []byte(strings.Repeat(s[0], n)+"null"+strings.Repeat(s[1], m)), entries[:2])
			}
		}
	})
}
