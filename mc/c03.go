package main

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

func init() { checks["C03"] = c03 }

// numCheck decides one literal in all contexts.
func numCheck(c *C, lit string, full bool) {
	c.Do(func() string { return lit }, func() {
		n, floated, ok := scanNumber([]byte(lit))
		c.Step(len(lit))
		ok = ok && n == len(lit) && numberInRange(lit, floated)
		ctxs := [...]string{"", "[", `{"a":`, `[0,`}
		ends := [...]string{"", "]", "}", `,"x"]`}
		if !ok {
			c.Out(1)
			for i := range ctxs {
				if !full && i > 1 {
					break
				}
				w := []byte(ctxs[i] + lit + ends[i])
				rejectAll(c, w, entries[:3])
			}
			return
		}
		c.Out(hashStr(lit))
		for i := range ctxs {
			if !full && i > 1 {
				break
			}
			w := []byte(ctxs[i] + lit + ends[i])
			for _, e := range entries[:3] {
				v, err := e.f(w)
				if err != nil {
					c.Fail("%s rejects %s: %v", e.name, w, err)
				}
				if out, err := v.MarshalString(); err != nil || out != string(w) {
					c.Fail("%s then Marshal: %s becomes %s (%v)", e.name, w, out, err)
				}
				x := v
				switch i {
				case 1:
					x, err = v.Get(0)
				case 2:
					x, err = v.Get("a")
				case 3:
					x, err = v.Get(1)
				}
				c.Check(err == nil, "Get: %v", err)
				numAccess(c, lit, floated, x)
				if !full {
					break
				}
			}
		}
		if full {
			v := jsonvalue.MustUnmarshalString("[" + lit + "]")
			cp, err := jsonvalue.Import(v)
			c.Check(err == nil && cp.MustMarshalString() == "["+lit+"]", "copy by Import prints as %s (%v)", cp.MustMarshalString(), err)
			numAccess(c, lit, floated, cp.MustGet(0))
			out := v.MustMarshalString(jsonvalue.OptIndent("", " "), jsonvalue.OptUTF8(), jsonvalue.OptSetSequence())
			c.Check(out == "[\n "+lit+"\n]", "marshalled with options: %q", out)
			i64, e1 := v.GetInt64(0)
			u64, e2 := v.GetUint64(0)
			f64, e3 := v.GetFloat64(0)
			c.Check(e1 == nil && e2 == nil && e3 == nil, "typed getters fail: %v %v %v", e1, e2, e3)
			m := v.MustGet(0)
			c.Check(i64 == m.Int64() && u64 == m.Uint64() && f64 == m.Float64(), "typed getters give %d %d %v", i64, u64, f64)
		}
	})
}

// numAccess compares every accessor and predicate of a parsed number with the literal.
func numAccess(c *C, lit string, floated bool, v *jsonvalue.V) {
	c.Check(v.IsNumber() && v.ValueType() == jsonvalue.Number, "type is %v", v.ValueType())
	c.Check(v.String() == lit, "String() is %q", v.String())
	c.Check(v.IsFloat() == floated && v.IsInteger() == !floated, "IsFloat is %v, IsInteger is %v", v.IsFloat(), v.IsInteger())
	f, err := strconv.ParseFloat(lit, 64)
	if err != nil {
		panic(err)
	}
	c.Check(v.Float64() == f, "Float64() is %v, the nearest double is %v", v.Float64(), f)
	c.Check(v.Float32() == float32(f) || v.Float32() == f32of(lit), "Float32() is %v", v.Float32())
	if mant, _, _ := strings.Cut(strings.ToLower(lit), "e"); strings.Trim(mant, "-0.") != "" {
		c.Check(v.IsNegative() == (lit[0] == '-') && v.IsPositive() == (lit[0] != '-'), "IsNegative is %v, IsPositive is %v", v.IsNegative(), v.IsPositive())
	}
	if floated {
		if f < math.MaxInt64/2 {
			c.Check(!v.GreaterThanInt64Max(), "GreaterThanInt64Max is true")
		}
		return
	}
	x, _ := new(big.Int).SetString(lit, 10)
	big63 := new(big.Int).Lsh(big.NewInt(1), 63)
	c.Check(v.GreaterThanInt64Max() == (x.Cmp(big63) >= 0), "GreaterThanInt64Max is %v", v.GreaterThanInt64Max())
	if x.IsInt64() {
		i := x.Int64()
		c.Check(v.Int64() == i && v.Int() == int(i), "Int64() is %d, Int() is %d", v.Int64(), v.Int())
		if int64(int32(i)) == i {
			c.Check(v.Int32() == int32(i), "Int32() is %d", v.Int32())
		}
	}
	if x.IsUint64() {
		u := x.Uint64()
		c.Check(v.Uint64() == u && v.Uint() == uint(u), "Uint64() is %d, Uint() is %d", v.Uint64(), v.Uint())
		if uint64(uint32(u)) == u {
			c.Check(v.Uint32() == uint32(u), "Uint32() is %d", v.Uint32())
		}
	}
}

func f32of(lit string) float32 {
	f, _ := strconv.ParseFloat(lit, 32)
	return float32(f)
}

func c03(r *Run) {
	r.Assume("oracles: JSON number grammar (mc/ref.go), math/big, strconv.ParseFloat")
	r.Assume("sign predicates of zero are not decided; GreaterThanInt64Max of literals with fraction or exponent is only decided below 2^62")
	// 0. exponents beyond those of machine integers
	hs := hugeNums(r.thorough)
	for _, h := range hs {
		if !strings.Contains(h.s, "e-") && !strings.HasSuffix(h.s, "e") || strings.HasPrefix(strings.Trim(h.s, "-0."), "e") {
			continue
		}
		hs = append(hs, hugeNum{s: strings.Replace(h.s, "e-", "e", 1)}, hugeNum{s: strings.Replace(h.s, "e-", "E+", 1)})
	}
	r.Par("huge exponents", fmt.Sprintf("%d literals with exponents up to 10^40 in both directions", len(hs)), len(hs), func(c *C, sh int) { numCheck(c, hs[sh].s, true) })
	// 1. words
	al := "0159-+.eE"
	n := r.Pick(7, 8)
	r.Par("words", fmt.Sprintf("every word of 1..%d characters over %q, bare and inside containers", n, al), len(al)*len(al), func(c *C, sh int) {
		var rec func(w []byte)
		rec = func(w []byte) {
			if len(w) >= 2 || sh%len(al) == 0 {
				c.State(numState(w))
				numCheck(c, string(w), len(w) <= 5)
			}
			if len(w) == n {
				return
			}
			for i := range al {
				if len(w) == 1 && i != sh%len(al) {
					continue
				}
				rec(append(w, al[i]))
			}
		}
		rec(append(make([]byte, 0, 16), al[sh/len(al)]))
	})
	// 2. neighbourhoods of integer limits
	forms := []string{"%", "-%", "%.0", "-%.0", "%e0", "%E+00", "%.5", "-%.25", "0.%", "%e1", "%e-1", "0%", "-0%", "%0", "-%0", "+%", "%.", ".%", "%e", "%0.5", "%00e2"}
	var bases []*big.Int
	for k := 0; k <= 70; k++ {
		bases = append(bases, new(big.Int).Lsh(big.NewInt(1), uint(k)))
	}
	for k := 0; k <= 25; k++ {
		bases = append(bases, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(k)), nil))
	}
	two64 := new(big.Int).Lsh(big.NewInt(1), 64)
	for m := int64(2); m <= 60; m++ {
		bases = append(bases, new(big.Int).Mul(two64, big.NewInt(m)))
		bases = append(bases, new(big.Int).Add(new(big.Int).Mul(two64, big.NewInt(m)), new(big.Int).Lsh(big.NewInt(1), 63)))
	}
	win := int64(r.Pick(12, 300))
	r.Par("integer limits", fmt.Sprintf("2^0..2^70, 10^0..10^25, m*2^64 and m*2^64+2^63 for m 2..60, each +-%d, in %d spellings", win, len(forms)), len(bases), func(c *C, sh int) {
		for d := -win; d <= win; d++ {
			x := new(big.Int).Add(bases[sh], big.NewInt(d))
			if x.Sign() < 0 {
				continue
			}
			for _, f := range forms {
				numCheck(c, strings.Replace(f, "%", x.String(), 1), true)
			}
		}
	})
	// 3. digit perturbations of the limits
	lims := []string{"18446744073709551615", "18446744073709551616", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "4294967295", "-2147483648", "9007199254740993", "184467440737095516150", "10000000000000000000", "99999999999999999999"}
	r.Par("digit changes", fmt.Sprintf("every change of one or two digits of %d limits", len(lims)), len(lims), func(c *C, sh int) {
		l := lims[sh]
		w := []byte(l)
		for i := range w {
			for j := i; j < len(w); j++ {
				if l[i] == '-' || l[j] == '-' {
					continue
				}
				for a := byte('0'); a <= '9'; a++ {
					for b := byte('0'); b <= '9'; b++ {
						w[i], w[j] = a, b
						numCheck(c, string(w), i == j)
						w[i], w[j] = l[i], l[j]
						if i == j && b == '9' {
							break
						}
					}
				}
			}
		}
	})
	// 4. digit counts
	r.Par("lengths", "digit strings 1..400 digits long of 1, 9, 10..0, 0..., 99..., with sign, fraction, exponent", 400, func(c *C, sh int) {
		for _, s := range []string{strings.Repeat("1", sh+1), strings.Repeat("9", sh+1), "1" + strings.Repeat("0", sh), "5" + strings.Repeat("0", sh/2) + strings.Repeat("7", sh-sh/2), strings.Repeat("0", sh+1)} {
			for _, f := range []string{"%", "-%", "%.0", "0.%", "-0.%", "1.%e5", "1e%", "1e-%", "%e-10", "%e-300", "0.%e300"} {
				numCheck(c, strings.Replace(f, "%", s, 1), true)
			}
		}
	})
	// 5. exponents
	mant := []string{"0", "1", "9", "-1", "1.5", "0.0", "-0", "-0.0", "1.7976931348623157", "1.7976931348623158", "1.7976931348623159", "4.9", "2.4", "2.5", "123456789.125", "0.000001", "17976931348623157", "99999999999999999999999", "4.940656458412465", "2.2250738585072011", "-1.7976931348623159"}
	r.Par("exponents", fmt.Sprintf("exponents -420..420 in five spellings for %d mantissas", len(mant)), 841, func(c *C, sh int) {
		e := sh - 420
		a, sg := e, ""
		if e < 0 {
			a, sg = -e, "-"
		}
		for _, m := range mant {
			for _, f := range []string{"e%s%d", "E%s%d", "e%s0%d", "e%s000%d"} {
				numCheck(c, m+fmt.Sprintf(f, sg, a), true)
			}
			if e >= 0 {
				numCheck(c, m+fmt.Sprintf("e+%d", a), true)
			}
		}
	})
	// 6. doubles: shortest texts and midpoints around powers of two
	r.Par("doubles", "neighbours of 2^-1074..2^1023 (5 each): shortest, exact and midpoint decimal texts", 2098, func(c *C, sh int) {
		e := sh - 1074
		f := math.Ldexp(1, e)
		for k := 0; k < 2; k++ {
			f = math.Nextafter(f, 0)
		}
		for k := 0; k < 5; k++ {
			g := math.Nextafter(f, math.Inf(1))
			if math.IsInf(g, 0) || f == 0 {
				f = g
				continue
			}
			numCheck(c, strconv.FormatFloat(f, 'e', -1, 64), true)
			numCheck(c, strconv.FormatFloat(-f, 'e', 20, 64), true)
			mid := new(big.Float).SetPrec(2200).Add(big.NewFloat(f), big.NewFloat(g))
			mid.Quo(mid, big.NewFloat(2))
			numCheck(c, mid.Text('e', 770), true)
			f = g
		}
	})
}

// numState is the state of the number grammar after w (model state).
func numState(w []byte) uint64 {
	st := 0
	for _, b := range w {
		k := 0
		switch {
		case b == '0':
			k = 1
		case b >= '1' && b <= '9':
			k = 2
		case b == '-':
			k = 3
		case b == '+':
			k = 4
		case b == '.':
			k = 5
		default:
			k = 6
		}
		next := [...][7]int{ // start, minus, zero, int, dot, frac, exp, expsign, expdigits, dead
			{0, 2, 3, 1, 9, 9, 9}, {0, 2, 3, 9, 9, 9, 9}, {0, 9, 9, 9, 9, 4, 6}, {0, 3, 3, 9, 9, 4, 6}, {0, 5, 5, 9, 9, 9, 9},
			{0, 5, 5, 9, 9, 9, 6}, {0, 8, 8, 7, 7, 9, 9}, {0, 8, 8, 9, 9, 9, 9}, {0, 8, 8, 9, 9, 9, 9}, {0, 9, 9, 9, 9, 9, 9}}
		st = next[st][k]
	}
	return mix(uint64(st), uint64(len(w)))
}
