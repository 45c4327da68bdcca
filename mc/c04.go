package main

import (
	"fmt"
	"strings"
	"unicode/utf16"
	"unicode/utf8"
)

func init() { checks["C04"] = c04 }

// strDoc puts one spelled string in the positions that matter: key, value, element, with plain, multi-byte and escaped neighbours.
func strDoc(buf []byte, sp string) []byte {
	buf = append(buf[:0], `{"`...)
	buf = append(buf, sp...)
	buf = append(buf, `":["`...)
	buf = append(buf, sp...)
	buf = append(buf, `","a`...)
	buf = append(buf, sp...)
	buf = append(buf, `b","\n`...)
	buf = append(buf, sp...)
	buf = append(buf, `é\u00e9","`...)
	buf = append(buf, sp...)
	buf = append(buf, sp...)
	return append(buf, `","tail"]}`...)
}

func c04(r *Run) {
	r.Assume("oracle: unicode/utf8 and unicode/utf16; reference parser for rejected texts")
	// 1. every code point in every spelling
	const per = 0x1000
	r.Par("code points", "all 0x110000 code points x all spellings (raw, \\u in 3 hex cases, surrogate pairs in 4 hex cases, short escapes) x 6 positions", 0x110000/per, func(c *C, sh int) {
		var buf []byte
		short := map[rune]string{'"': `\"`, '\\': `\\`, '/': `\/`, 8: `\b`, 12: `\f`, 10: `\n`, 13: `\r`, 9: `\t`}
		for x := rune(sh * per); x < rune((sh+1)*per); x++ {
			if x >= 0xD800 && x <= 0xDFFF {
				continue
			}
			sps := make([]string, 0, 8)
			if x >= 0x20 && x != '"' && x != '\\' {
				sps = append(sps, string(x))
			}
			if x < 0x10000 {
				sps = append(sps, fmt.Sprintf(`\u%04x`, x), fmt.Sprintf(`\u%04X`, x), mixHex(fmt.Sprintf(`\u%04x`, x)))
			} else {
				h, l := utf16.EncodeRune(x)
				sps = append(sps, fmt.Sprintf(`\u%04x\u%04x`, h, l), fmt.Sprintf(`\u%04X\u%04X`, h, l), fmt.Sprintf(`\u%04x\u%04X`, h, l), mixHex(fmt.Sprintf(`\u%04x\u%04x`, h, l)))
			}
			if s, ok := short[x]; ok {
				sps = append(sps, s)
			}
			s := string(x)
			w := vObj(s, vArr(vStr(s), vStr("a"+s+"b"), vStr("\n"+s+"éé"), vStr(s+s), vStr("tail")))
			c.State(uint64(x) * 0x9e3779b97f4a7c15)
			for _, sp := range sps {
				buf = strDoc(buf, sp)
				c.Step(1)
				c.Do(func() string { return string(buf) }, func() { acceptAll(c, buf, w, entries[:3]) })
			}
		}
	})
	// 2. surrogates and hex digits
	seconds := []string{"", "x", `\n`, `\\`, `\u0041`, `\uD7FF`, `\uD800`, `\uDBFF`, `\uDC00`, `\udc37`, `\uDFFF`, `\uE000`, `\uFFFF`, `\u`, `\uD`, `\uDC0`, `\uDC0g`, `uDC00`, `\xDC00`, "\u00e9"}
	judgeStr := func(c *C, s string) {
		if endsString(s) {
			return // the text after an unescaped quote is a matter of document structure, not of string spelling (C02)
		}
		for _, t := range [...]string{`"` + s + `"`, `{"` + s + `":"t"}`, `["z` + s + `","t"]`} {
			c.Do(func() string { return fmt.Sprintf("%q", t) }, func() { judge(c, []byte(t), entries[:3]) })
		}
	}
	r.Par("surrogates", fmt.Sprintf("all 65536 \\u escapes followed by each of %d continuations", len(seconds)), 256, func(c *C, sh int) {
		for x := sh * 256; x < (sh+1)*256; x++ {
			if x >= 0x800 && (x < 0xD700 || x > 0xE100) && !r.thorough && x&0xff != 0x41 {
				continue
			}
			for _, s := range seconds {
				judgeStr(c, fmt.Sprintf(`\u%04X`, x)+s)
			}
		}
	})
	r.Par("second surrogates", "D800, D83D, DBFF followed by all 65536 \\u escapes", 256, func(c *C, sh int) {
		for x := sh * 256; x < (sh+1)*256; x++ {
			for _, h := range []int{0xD800, 0xD83D, 0xDBFF} {
				judgeStr(c, fmt.Sprintf(`\u%04x\u%04x`, h, x))
			}
		}
	})
	r.Par("hex digits", "every byte in every hex position of \\uXXXX and of a surrogate pair, and every pair of bytes in the low two positions", 256, func(c *C, sh int) {
		for _, base := range []string{`\u00e9`, `\uD83D\uDE00`, `\u0041`} {
			for i := 0; i < len(base); i++ {
				judgeStr(c, base[:i]+string([]byte{byte(sh)})+base[i+1:])
			}
		}
		for b := 0; b < 256; b++ {
			judgeStr(c, `\u00`+string([]byte{byte(sh), byte(b)}))
			judgeStr(c, `\u`+string([]byte{byte(sh), byte(b)})+"4a")
		}
		judgeStr(c, `\`+string([]byte{byte(sh)}))
		judgeStr(c, `\`+string([]byte{byte(sh)})+"0041")
		judgeStr(c, `\\`+string([]byte{byte(sh)}))
	})
	// 3. UTF-8
	tails := []string{"", "a", "\x80", "é", `\n`}
	r.Par("UTF-8 two bytes", fmt.Sprintf("every pair of bytes followed by each of %q", tails), 256, func(c *C, sh int) {
		for b := 0; b < 256; b++ {
			for _, t := range tails {
				judgeStr(c, string([]byte{byte(sh), byte(b)})+t)
			}
		}
		for _, t := range tails {
			judgeStr(c, string([]byte{byte(sh)})+t)
		}
	})
	r.Par("UTF-8 three bytes", "lead bytes C0-FF x every two bytes (quick: every second byte, boundary third bytes)", 64, func(c *C, sh int) {
		third := []int{0, 0x22, 0x5c, 0x7f, 0x80, 0x81, 0xbf, 0xc0, 0xff}
		for b := 0; b < 256; b++ {
			if r.thorough {
				for t := 0; t < 256; t++ {
					judgeStr(c, string([]byte{byte(0xC0 + sh), byte(b), byte(t)}))
				}
				continue
			}
			for _, t := range third {
				judgeStr(c, string([]byte{byte(0xC0 + sh), byte(b), byte(t)}))
			}
		}
	})
	r.Par("UTF-8 four bytes", "lead bytes E0-FF x every second byte x boundary third and fourth bytes", 32, func(c *C, sh int) {
		bd := []byte{0x22, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0xa0, 0xbf, 0xc0, 0xff}
		for b := 0; b < 256; b++ {
			for _, t := range bd {
				for _, u := range bd {
					judgeStr(c, string([]byte{byte(0xE0 + sh), byte(b), t, u}))
				}
			}
		}
	})
	// cut inside a string: must be rejected without reading past the end
	r.Par("cut", "every cut of strings ending in each partial escape or partial UTF-8 sequence, in a window that would complete it", 64, func(c *C, sh int) {
		full := []string{`\ud83d\ude00"`, `\u00e9"`, `\n"`, "é\"", "€\"", "😀\"", `\\"`, `a\u20ac"`}
		f := `["` + full[sh%8]
		for pre := 0; pre < 3; pre++ {
			t := strings.Repeat("p", pre) + f
			if pre > 0 {
				t = `["` + strings.Repeat("é", pre) + full[sh%8]
			}
			for i := 0; i <= len(t); i++ {
				word := []byte(t[:i])
				c.Do(func() string { return fmt.Sprintf("%q", word) }, func() {
					judge(c, word, entries)
					// the same text as a window into the completed text
					big := []byte(t + `"]`)
					v, err := jvNoCopy(big[:i])
					if err == nil || v == nil {
						c.Fail("window accepted")
					}
				})
			}
		}
	})
	// 4. words of fragments
	fr := []string{"a", `\n`, `\"`, `\\`, `\/`, `\u0041`, `\u00e9`, `\u20AC`, `\ud83d\ude00`, "é", "€", "😀", `\u0000`, `\uFFFF`, "\x7f"}
	dec := []string{"a", "\n", `"`, `\`, "/", "A", "é", "€", "😀", "é", "€", "😀", "\x00", "\uFFFF", "\x7f"}
	n := r.Pick(5, 6)
	r.Par("fragment words", fmt.Sprintf("every word of 1..%d fragments over %q as key, value, and element next to others", n, fr), len(fr)*len(fr), func(c *C, sh int) {
		var buf []byte
		var rec func(w, d string, k int)
		rec = func(w, d string, k int) {
			if k >= 2 || sh%len(fr) == 0 {
				buf = append(buf[:0], `{"`...)
				buf = append(buf, w...)
				buf = append(buf, `":"`...)
				buf = append(buf, w...)
				buf = append(buf, `","`...)
				buf = append(buf, w...)
				buf = append(buf, `k":["`...)
				buf = append(buf, w...)
				buf = append(buf, `","t"]}`...)
				m := &Val{K: KObj, O: []Member{{d, vStr(d)}, {d + "k", vArr(vStr(d), vStr("t"))}}}
				c.Step(k)
				c.Do(func() string { return string(buf) }, func() {
					if !utf8.ValidString(d) {
						panic("internal")
					}
					acceptAll(c, buf, m, entries[:2])
					c.Out(hashStr(d))
				})
			}
			if k == n {
				return
			}
			for i := range fr {
				if k == 1 && i != sh%len(fr) {
					continue
				}
				rec(w+fr[i], d+dec[i], k+1)
			}
		}
		rec(fr[sh/len(fr)], dec[sh/len(fr)], 1)
	})
	// 5. lengths: a spelling after a run of characters and before another, at every distance
	runs := []func(n int) string{
		func(n int) string {
			b := make([]byte, n)
			for i := range b {
				b[i] = "abcdefghijklmnopqrstuvwxyz0123456789{}[],: "[i%43]
			}
			return string(b)
		},
		func(n int) string { return pattern("éñöü", n) },
		func(n int) string { return pattern("€一二三", n) },
		func(n int) string { return pattern("😀😁🚀", n) },
		func(n int) string { return pattern("aé€😀z", n) },
	}
	spell := func(c *C, sp, d string) {
		t := []byte(`{"k":["` + sp + `","n"],"` + sp + `":"` + sp + `"}`)
		w := vObj("k", vArr(vStr(d), vStr("n")))
		if d == "k" {
			w = vObj("k", vStr(d))
		} else {
			w.O = append(w.O, Member{d, vStr(d)})
		}
		c.Step(1)
		c.Do(func() string { return string(t) }, func() { acceptAll(c, t, w, entries[:2]) })
	}
	maxRun := r.Pick(150, 600)
	r.Par("runs", fmt.Sprintf("fragment, run of 0..%d characters of 5 kinds, fragment, run of 0..2", maxRun), len(fr)*len(runs), func(c *C, sh int) {
		a, run := sh%len(fr), runs[sh/len(fr)]
		for n := 0; n <= maxRun; n++ {
			m := run(n)
			for b := range fr {
				spell(c, fr[a]+m+fr[b], dec[a]+m+dec[b])
				spell(c, fr[a]+m+fr[b]+"yz", dec[a]+m+dec[b]+"yz")
			}
			spell(c, fr[a]+m, dec[a]+m)
			spell(c, m+fr[a], m+dec[a])
		}
	})
	two := r.Pick(40, 100)
	r.Par("two runs", fmt.Sprintf("run of 0..%d, fragment, run of 0..%d, fragment, one character", two, two), (two+1)*5, func(c *C, sh int) {
		n, run := sh/5, runs[sh%5]
		p := run(n)
		for k := 0; k <= two; k++ {
			m := runs[0](k)
			for a := 1; a < len(fr); a += 2 {
				for b := 1; b < len(fr); b += 3 {
					spell(c, p+fr[a]+m+fr[b]+"q", p+dec[a]+m+dec[b]+"q")
				}
			}
		}
	})
	// 6. words of the machine: something special, well-formed or not, with every number of plain characters before and after
	var marks []string
	for b := 0; b < 256; b++ {
		marks = append(marks, string([]byte{byte(b)}))
	}
	marks = append(marks, fr...)
	odd := []string{`\x`, `\`, `\u12G4`, `\u004`, `\ud800`, `\udc00`, `\ud800\u0041`, "\xe2\x82", "\xf0\x9f\x98", "\xc3\xc3", "\xc0\xaf", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\x80\x80", "\xc3\"", "\xe2\x82\"", "\xc3\\n"}
	marks = append(marks, odd...)
	side := r.Pick(18, 40)
	r.Par("one mark", fmt.Sprintf("every byte, %d spellings and %d malformed ones after 0..%d plain characters and before 0..%d, as value and key", len(fr), len(odd), side, side), len(marks), func(c *C, sh int) {
		plain := "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz"
		for n := 0; n <= side; n++ {
			for m := 0; m <= side; m++ {
				x := plain[:n] + marks[sh] + plain[:m]
				for _, t := range [][]byte{[]byte(`"` + x + `"`), []byte(`{"` + x + `":"` + x + `"}`), []byte(`["` + x + `",1]`)} {
					c.Step(1)
					c.Do(func() string { return fmt.Sprintf("%q", t) }, func() { judge(c, t, entries[:3]) })
				}
			}
		}
	})
	gap := r.Pick(9, 17)
	two2 := append(append([]string{}, fr[1:]...), "\xc3", "\xa2", "\xff", "\x01", `\q`, "\xe2\x82")
	r.Par("two marks", fmt.Sprintf("every pair of %d well-formed and malformed spellings with 0..%d plain characters before, between and after", len(two2), gap), len(two2)*len(two2), func(c *C, sh int) {
		plain := "abcdefghijklmnopqrstuvwxyz"
		a, b := two2[sh/len(two2)], two2[sh%len(two2)]
		for n := 0; n <= gap; n++ {
			for m := 0; m <= gap; m++ {
				for k := 0; k <= gap; k++ {
					t := []byte(`["` + plain[:n] + a + plain[:m] + b + plain[:k] + `"]`)
					c.Step(1)
					c.Do(func() string { return fmt.Sprintf("%q", t) }, func() { judge(c, t, entries[:2]) })
				}
			}
		}
	})
	top := r.Pick(16, 20)
	r.Par("long runs", fmt.Sprintf("fragment, run of 2^k-3..2^k+3 characters (k to %d), fragment", top), (top-7)*len(runs), func(c *C, sh int) {
		run, k := runs[sh%len(runs)], 8+sh/len(runs)
		for n := 1<<k - 3; n <= 1<<k+3; n++ {
			m := run(n)
			for _, a := range []int{1, 6, 8, 10} {
				spell(c, fr[a]+m+fr[a], dec[a]+m+dec[a])
				spell(c, m+fr[a]+"t", m+dec[a]+"t")
			}
		}
	})
}

// pattern cycles through the characters of s, n of them.
func pattern(s string, n int) string {
	rs := []rune(s)
	o := make([]rune, n)
	for i := range o {
		o[i] = rs[i%len(rs)]
	}
	return string(o)
}

func mixHex(s string) string {
	b := []byte(s)
	for i := range b {
		if i%2 == 1 && b[i] >= 'a' && b[i] <= 'f' {
			b[i] -= 32
		}
	}
	return string(b)
}

// endsString tells whether s has an unescaped quote.
func endsString(s string) bool {
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\\':
			i++
		case '"':
			return true
		}
	}
	return len(s) > 0 && strings.HasSuffix(s, "\\") && (len(s)-len(strings.TrimRight(s, "\\")))%2 == 1 // escapes the closing quote
}
