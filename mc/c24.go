package main

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

func init() { checks["C24"] = c24 }

// getters is what *V and Caseless have in common.
type getters interface {
	jsonvalue.Caseless
}

type accessor struct {
	name string
	get  func(g getters, p any, ps ...any) (any, error)
	must func(v *jsonvalue.V) any // the error-less accessor
	zero any
}

func getObj(v *jsonvalue.V, err error) (any, error) {
	if v == nil {
		return "nil", err
	}
	return v, err
}

var accessors = []accessor{
	{"Int", func(g getters, p any, ps ...any) (any, error) { return g.GetInt(p, ps...) }, func(v *jsonvalue.V) any { return v.Int() }, int(0)},
	{"Uint", func(g getters, p any, ps ...any) (any, error) { return g.GetUint(p, ps...) }, func(v *jsonvalue.V) any { return v.Uint() }, uint(0)},
	{"Int64", func(g getters, p any, ps ...any) (any, error) { return g.GetInt64(p, ps...) }, func(v *jsonvalue.V) any { return v.Int64() }, int64(0)},
	{"Uint64", func(g getters, p any, ps ...any) (any, error) { return g.GetUint64(p, ps...) }, func(v *jsonvalue.V) any { return v.Uint64() }, uint64(0)},
	{"Int32", func(g getters, p any, ps ...any) (any, error) { return g.GetInt32(p, ps...) }, func(v *jsonvalue.V) any { return v.Int32() }, int32(0)},
	{"Uint32", func(g getters, p any, ps ...any) (any, error) { return g.GetUint32(p, ps...) }, func(v *jsonvalue.V) any { return v.Uint32() }, uint32(0)},
	{"Float64", func(g getters, p any, ps ...any) (any, error) { return g.GetFloat64(p, ps...) }, func(v *jsonvalue.V) any { return v.Float64() }, float64(0)},
	{"Float32", func(g getters, p any, ps ...any) (any, error) { return g.GetFloat32(p, ps...) }, func(v *jsonvalue.V) any { return v.Float32() }, float32(0)},
	{"Bool", func(g getters, p any, ps ...any) (any, error) { return g.GetBool(p, ps...) }, func(v *jsonvalue.V) any { return v.Bool() }, false},
	{"String", func(g getters, p any, ps ...any) (any, error) { return g.GetString(p, ps...) }, func(v *jsonvalue.V) any { return v.String() }, ""},
	{"Bytes", func(g getters, p any, ps ...any) (any, error) {
		b, err := g.GetBytes(p, ps...)
		return string(b), err
	}, func(v *jsonvalue.V) any { return string(v.Bytes()) }, ""},
}

const (
	acInt = iota
	acUint
	acInt64
	acUint64
	acInt32
	acUint32
	acFloat64
	acFloat32
	acBool
	acString
	acBytes
)

// sameScalar compares results, NaN being the same as NaN.
func sameScalar(a, b any) bool {
	switch x := a.(type) {
	case float64:
		if y, ok := b.(float64); ok && x != x && y != y {
			return true
		}
	case float32:
		if y, ok := b.(float32); ok && x != x && y != y {
			return true
		}
	}
	return a == b
}

// numText is the number a value denotes for the numeric getters and the error they give; known is false if they
// give zero.
func numText(w *Val) (text string, known bool, err error) {
	switch w.K {
	case KNum:
		return w.S, true, nil
	case KStr:
		t := strings.TrimSpace(w.S)
		n, floated, ok := scanNumber([]byte(t))
		if t != "" && ok && n == len(t) && numberInRange(t, floated) {
			return t, true, jsonvalue.ErrTypeNotMatch
		}
		return "", false, jsonvalue.ErrParseNumberFromString
	}
	return "", false, jsonvalue.ErrTypeNotMatch
}

// numAs is what the numeric accessor k gives for the number; decided is false where the conversion loses.
func numAs(k int, text string) (want any, decided bool) {
	switch text {
	case "NaN", "+Inf", "-Inf":
		f := map[string]float64{"NaN": math.NaN(), "+Inf": math.Inf(1), "-Inf": math.Inf(-1)}[text]
		switch k {
		case acFloat64:
			return f, true
		case acFloat32:
			return float32(f), true
		}
		return nil, false
	}
	f := numFloat(text)
	switch k {
	case acFloat64:
		return f, true
	case acFloat32:
		if float32(f) == f32of(text) {
			return float32(f), true
		}
		return nil, false
	}
	_, floated, _ := scanNumber([]byte(text))
	var x *big.Int
	if floated {
		if math.Abs(f) >= 1<<53 {
			return nil, false
		}
		x = big.NewInt(int64(math.Trunc(f)))
	} else {
		x, _ = new(big.Int).SetString(text, 10)
	}
	lim := func(bits uint, signed bool) bool {
		if signed {
			return x.IsInt64() && x.Int64() >= -(1<<(bits-1)) && x.Int64() <= 1<<(bits-1)-1
		}
		return x.IsUint64() && (bits == 64 || x.Uint64() < 1<<bits) && !(floated && f < 0)
	}
	switch k {
	case acInt:
		if lim(64, true) {
			return int(x.Int64()), true
		}
	case acInt64:
		if lim(64, true) {
			return x.Int64(), true
		}
	case acInt32:
		if lim(32, true) {
			return int32(x.Int64()), true
		}
	case acUint:
		if lim(64, false) {
			return uint(x.Uint64()), true
		}
	case acUint64:
		if lim(64, false) {
			return x.Uint64(), true
		}
	case acUint32:
		if lim(32, false) {
			return uint32(x.Uint64()), true
		}
	}
	return nil, false
}

// anyErr stands for some error.
var anyErr = errors.New("any error")

// wantAccess is what accessor k gives for w: by the getter, with its error, and by the error-less accessor.
func wantAccess(k int, w *Val) (val any, decided bool, err error, mustVal any, mustDecided bool) {
	a := &accessors[k]
	switch {
	case k <= acFloat32:
		t, known, e := numText(w)
		err = e
		if known {
			val, decided = numAs(k, t)
		} else {
			val, decided = a.zero, true
		}
		return val, decided, err, val, decided
	case k == acBool:
		b := false
		switch w.K {
		case KBool:
			b = w.B
		case KNum:
			err = jsonvalue.ErrTypeNotMatch
			switch w.S {
			case "NaN", "+Inf", "-Inf":
				b = true
			default:
				if numFloat(w.S) == 0 && numRat(w.S).Sign() != 0 {
					return nil, false, err, nil, false // underflow
				}
				b = numFloat(w.S) != 0
			}
		case KStr:
			b, err = w.S == "true", jsonvalue.ErrTypeNotMatch
		default:
			err = jsonvalue.ErrTypeNotMatch
		}
		return b, true, err, b, true
	case k == acString:
		if w.K == KStr {
			return w.S, true, nil, w.S, true
		}
		switch w.K {
		case KNum:
			mustVal = w.S
		case KBool:
			mustVal = fmt.Sprint(w.B)
		case KNull:
			mustVal = "null"
		}
		return "", true, jsonvalue.ErrTypeNotMatch, mustVal, mustVal != nil && !hasSpecial(w)
	default: // Bytes
		if w.K != KStr {
			return "", true, jsonvalue.ErrTypeNotMatch, "", true
		}
		b, e := base64.StdEncoding.DecodeString(w.S)
		if e != nil {
			return "", true, anyErr, "", true
		}
		return string(b), true, nil, string(b), true
	}
}

func sameErr(got, want error) bool {
	if want == nil || got == nil {
		return got == nil && want == nil
	}
	return want == anyErr || errors.Is(got, want)
}

// descr are the texts String() may give for a value.
func descr(w *Val) map[string]bool {
	out := map[string]bool{}
	switch w.K {
	case KStr:
		out[w.S] = true
	case KNum:
		out[w.S] = true
	case KBool:
		out[fmt.Sprint(w.B)] = true
	case KNull:
		out["null"] = true
	case KArr, KObj:
		parts := []string{""}
		join := func(pre string, o *Val) {
			var next []string
			for _, p := range parts {
				for d := range descr(o) {
					if p != "" {
						next = append(next, p+", "+pre+d)
					} else {
						next = append(next, "\x01"+pre+d)
					}
				}
			}
			parts = next
		}
		fin := func(l, r string) {
			for _, p := range parts {
				out[l+strings.TrimPrefix(p, "\x01")+r] = true
			}
		}
		if w.K == KArr {
			for _, x := range w.A {
				join("", x)
			}
			fin("[", "]")
			break
		}
		for _, p := range perms(len(w.O)) {
			parts = []string{""}
			for _, i := range p {
				join(w.O[i].K+": ", w.O[i].V)
			}
			fin("{", "}")
		}
	}
	return out
}

// checkAccess applies every accessor to v (content w) directly and every getter to it inside containers.
func checkAccess(c *C, w *Val, v *jsonvalue.V, deep bool) {
	o, a := jsonvalue.NewObject(), jsonvalue.NewArray()
	o.MustSet(v).At("k")
	a.MustAppend(1).InTheEnd()
	a.MustAppend(v).InTheEnd()
	for k := range accessors {
		ac := &accessors[k]
		val, dec, wantErr, mv, mdec := wantAccess(k, w)
		m := ac.must(v)
		c.Step(3)
		if mdec && !sameScalar(m, mv) {
			c.Fail("%s() is %#v, should be %#v", ac.name, m, mv)
		}
		for form := 0; form < 6; form++ {
			if form > 1 && !deep {
				break
			}
			var g any
			var err error
			how := ""
			switch form {
			case 0:
				how = "(k)"
				g, err = ac.get(o, "k")
			case 1:
				how = "(1)"
				g, err = ac.get(a, 1)
			case 2:
				how = "(-1) of Caseless()"
				g, err = ac.get(a.Caseless(), -1)
			case 3:
				how = "(K) of Caseless()"
				g, err = ac.get(o.Caseless(), "K")
			case 4:
				how = "([]string{k})"
				g, err = ac.get(o, []string{"k"})
			case 5:
				how = "(0, k)"
				g, err = ac.get(jsonvalue.New([]*jsonvalue.V{o}), 0, "k")
			}
			if !sameErr(err, wantErr) {
				c.Fail("Get%s%s gives the error %v, should be %v", ac.name, how, err, wantErr)
			}
			if dec && !sameScalar(g, val) {
				c.Fail("Get%s%s is %#v, should be %#v", ac.name, how, g, val)
			}
			if k != acString && !sameScalar(g, m) {
				c.Fail("Get%s%s is %#v, %s() is %#v", ac.name, how, g, ac.name, m)
			}
		}
		// a string is converted like the number it contains
		if k <= acFloat32 && w.K == KStr && deep {
			if t, known, _ := numText(w); known {
				if x := ac.must(jsonvalue.MustUnmarshalString(t)); !sameScalar(x, m) {
					c.Fail("%s() of the string is %#v, of the number %#v", ac.name, m, x)
				}
			}
		}
	}
	if b := v.Bytes(); b == nil {
		c.Fail("Bytes() is nil")
	}
	if bs, _ := o.GetBytes("k"); bs == nil {
		c.Fail("GetBytes() is nil")
	}
	for form := 0; form < 2; form++ {
		var g getters = o
		if form == 1 {
			if !deep {
				break
			}
			g = o.Caseless()
		}
		x, err := g.GetObject("k")
		if (w.K == KObj) != (err == nil && x == v) || w.K != KObj && (!errors.Is(err, jsonvalue.ErrTypeNotMatch) || x == nil || x.ValueType() != jsonvalue.NotExist) {
			c.Fail("GetObject gives %v, %v", x, err)
		}
		x, err = g.GetArray("k")
		if (w.K == KArr) != (err == nil && x == v) || w.K != KArr && (!errors.Is(err, jsonvalue.ErrTypeNotMatch) || x == nil || x.ValueType() != jsonvalue.NotExist) {
			c.Fail("GetArray gives %v, %v", x, err)
		}
		err = g.GetNull("k")
		if (w.K == KNull) != (err == nil) || err != nil && !errors.Is(err, jsonvalue.ErrTypeNotMatch) {
			c.Fail("GetNull gives %v", err)
		}
		x, err = g.Get("k")
		if err != nil || x != v || g.MustGet("k") != v {
			c.Fail("Get gives %v, %v", x, err)
		}
	}
	if v.ValueType() != valueTypeOf(w) {
		c.Fail("ValueType is %v", v.ValueType())
	}
	if v.IsString() != (w.K == KStr) || v.IsNumber() != (w.K == KNum) || v.IsBoolean() != (w.K == KBool) || v.IsNull() != (w.K == KNull) || v.IsArray() != (w.K == KArr) || v.IsObject() != (w.K == KObj) {
		c.Fail("type predicates disagree with %s", w)
	}
	if w.K != KNum && (v.IsFloat() || v.IsInteger() || v.IsNegative() || v.IsPositive() || v.GreaterThanInt64Max()) {
		c.Fail("number predicates of %s", w)
	}
}

func c24(r *Run) {
	r.Assume("oracles: JSON number grammar (mc/ref.go), math/big, strconv.ParseFloat, encoding/base64; conversions that lose (out of range, fraction of a huge number) are only compared between getter and accessor")
	words := func(name string, al []string, n int, deepLen int, f func(s string) *Val) {
		r.Par(name, fmt.Sprintf("every string of up to %d elements over %q x %d accessors and getters", n, al, len(accessors)+4), len(al)*len(al), func(c *C, sh int) {
			buf := make([]string, 0, n)
			var rec func()
			rec = func() {
				if len(buf) >= 2 || sh%len(al) == 0 && (len(buf) == 1 || sh == 0) {
					s := strings.Join(buf, "")
					c.State(hashStr(s))
					c.Do(func() string { return fmt.Sprintf("string %q", s) }, func() {
						w := f(s)
						checkAccess(c, w, jsonvalue.NewString(s), len(buf) <= deepLen)
						if len(buf) <= deepLen {
							checkAccess(c, w, jsonvalue.MustUnmarshalString(escStyle{}.format(w)), false)
						}
						_, known, _ := numText(w)
						c.Out(hashStr(fmt.Sprint(known, len(s))))
					})
				}
				if len(buf) == n {
					return
				}
				for i := range al {
					if len(buf) == 1 && i != sh%len(al) {
						continue
					}
					buf = append(buf, al[i])
					rec()
					buf = buf[:len(buf)-1]
				}
			}
			c.Alive()
			if sh == 0 {
				rec0(c, f)
			}
			buf = append(buf, al[sh/len(al)])
			rec()
		})
	}
	words("number strings", []string{"0", "1", "9", "-", "+", ".", "e", " ", "\t"}, r.Pick(6, 7), r.Pick(4, 5), func(s string) *Val { return vStr(s) })
	words("boolean strings", []string{"t", "r", "u", "e", "T", " ", "true", "false", "1", "\x00"}, r.Pick(5, 6), 4, func(s string) *Val { return vStr(s) })
	words("base64 strings", []string{"A", "/", "+", "=", "-", "_", "\n", "Q"}, r.Pick(6, 7), 4, func(s string) *Val { return vStr(s) })
	words("base64 blocks", []string{"QUJD", "AA==", "AAA=", "QQ", "=", "\r\n", "//8=", " "}, r.Pick(5, 6), 3, func(s string) *Val { return vStr(s) })
	special := []string{"", " ", "null", "[]", "{}", "1", "1,", "1]", "1}", "1\"", "\"1\"", "0x10", "1_000", "Infinity", "NaN", "+Inf", "-Inf", "١", "１", "1\u00a0", "\u20001", "\u0085 1", "\ufeff1", "1\x00", "\x001", "\v1\f", "1/2", "1e5", "1E+5", "1e400", "-1e400", "1e-400", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809", "9223372036854775807", "9223372036854775808", "4294967295", "4294967296", "2147483647", "2147483648", "-2147483648", "-2147483649", "0.1", "-0", "-0.0", "00", "01", "-01", "1.", ".5", "1.5.5", "1e", "1e+", "--1", "TRUE", "True", "true", "true ", "\ttrue", "false", "yes", strings.Repeat("1", 19), strings.Repeat("1", 20), strings.Repeat("1", 400), "0." + strings.Repeat("3", 400), strings.Repeat(" ", 300) + "12", "1 2", "1\n", "\"", "tru", "trues"}
	lits := numLiterals(r.thorough)
	r.Par("special strings", fmt.Sprintf("%d strings, %d number literals bare, as strings and as padded strings", len(special), len(lits)), len(special)+len(lits), func(c *C, sh int) {
		var vals []*Val
		if sh < len(special) {
			vals = []*Val{vStr(special[sh])}
		} else {
			l := lits[sh-len(special)].name
			if l == "NaN" || strings.HasSuffix(l, "Inf") || lits[sh-len(special)].r == nil {
				return
			}
			if n, fl, ok := scanNumber([]byte(l)); !ok || n != len(l) || !numberInRange(l, fl) {
				return
			}
			vals = []*Val{vNum(l), vStr(l), vStr(" " + l + "\n"), vStr(l + "x"), vStr("+" + l), vStr("\"" + l), vStr(l + ",")}
		}
		for _, w := range vals {
			c.State(hashStr(w.String()))
			c.Do(func() string { return w.String() }, func() {
				checkAccess(c, w, build(w), true)
				checkAccess(c, w, jsonvalue.MustUnmarshalString(escStyle{}.format(w)), true)
			})
		}
	})
	madeNumbers(r)
	g := newTreeGen([]*Val{vNum("1"), vNum("-2.5"), vNum("NaN"), vNum("+Inf"), vNum("-Inf"), vStr("1"), vStr("true"), vStr(""), vBool(true), vBool(false), vNull()}, []string{"a", "k"})
	trees := g.upTo(r.Pick(4, 5))
	const chunk = 32
	r.Par("all types", fmt.Sprintf("%d values of all types x all accessors, getters and constructions", len(trees)), (len(trees)+chunk-1)/chunk, func(c *C, sh int) {
		for _, w := range trees[sh*chunk : min(len(trees), (sh+1)*chunk)] {
			c.State(hashStr(w.String()))
			for _, way := range eqWays {
				c.Do(func() string { return fmt.Sprintf("%s (%s)", w, way.name) }, func() {
					if v := way.make(w); v != nil {
						checkAccess(c, w, v, true)
						if !hasSpecial(w) {
							if d := descr(w); !d[v.String()] {
								c.Fail("String() is %q, should be %q", v.String(), anyKey(d))
							}
						}
					}
				})
			}
		}
	})
	// Paths that lead nowhere.
	doc := vObj("k", vNum("7"), "a", vArr(vStr("8"), vObj("x", vBool(true))), "s", vStr("str"), "n", vNull())
	seg := []any{"k", "a", "s", "n", "none", "", 0, 1, 2, -1, -2, -3, 1.5, nil, []string{"k"}, []any{"a", 1}, true}
	var paths [][]any
	for _, x := range seg {
		paths = append(paths, []any{x})
		for _, y := range seg {
			paths = append(paths, []any{x, y})
			for _, z := range []any{"x", 0, "none", -1, []any{"x"}} {
				paths = append(paths, []any{x, y, z})
			}
		}
	}
	r.Par("paths", fmt.Sprintf("%d paths, existing, missing and malformed, on 3 documents: typed getters give zero and the error of Get, exact and caseless", len(paths)), len(paths), func(c *C, sh int) {
		p := paths[sh]
		for di, mk := range []func() *jsonvalue.V{
			func() *jsonvalue.V { return buildAny(doc) },
			func() *jsonvalue.V { return buildAny(vArr(doc, vNum("5"))) },
			func() *jsonvalue.V { return jsonvalue.NewString("12") },
			func() *jsonvalue.V { return &jsonvalue.V{} },
		} {
			for caseless := 0; caseless < 2; caseless++ {
				c.Do(func() string { return fmt.Sprintf("document %d, path %v, caseless %d", di, p, caseless) }, func() {
					v := mk()
					var g getters = v
					if caseless == 1 {
						g = v.Caseless()
					}
					x, err := g.Get(p[0], p[1:]...)
					if x == nil || (err != nil) != (x.ValueType() == jsonvalue.NotExist) {
						c.Fail("Get gives %v, %v", x, err)
					}
					if y := g.MustGet(p[0], p[1:]...); y == nil || err == nil && y != x || err != nil && y.ValueType() != jsonvalue.NotExist {
						c.Fail("MustGet gives %v, Get %v, %v", y, x, err)
					}
					for k := range accessors {
						ac := &accessors[k]
						c.Step(1)
						a, e := ac.get(g, p[0], p[1:]...)
						if err != nil {
							if e == nil || e.Error() != err.Error() || !sameScalar(a, ac.zero) {
								c.Fail("Get%s gives %#v, %v; Get gives %v", ac.name, a, e, err)
							}
							continue
						}
						w := read(x)
						val, dec, wantErr, _, _ := wantAccess(k, w)
						if !sameErr(e, wantErr) || dec && !sameScalar(a, val) {
							c.Fail("Get%s gives %#v, %v; should be %#v, %v", ac.name, a, e, val, wantErr)
						}
					}
					if err != nil {
						ob, e1 := g.GetObject(p[0], p[1:]...)
						ar, e2 := g.GetArray(p[0], p[1:]...)
						e3 := g.GetNull(p[0], p[1:]...)
						if ob == nil || ar == nil || ob.ValueType() != jsonvalue.NotExist || ar.ValueType() != jsonvalue.NotExist || e1 == nil || e2 == nil || e3 == nil {
							c.Fail("GetObject, GetArray, GetNull give %v %v, %v %v, %v", ob, e1, ar, e2, e3)
						}
						for _, s := range []error{jsonvalue.ErrNotFound, jsonvalue.ErrOutOfRange} {
							if errors.Is(err, s) && (!errors.Is(e1, s) || !errors.Is(e2, s) || !errors.Is(e3, s)) {
								c.Fail("errors %v, %v, %v, of Get %v", e1, e2, e3, err)
							}
						}
					}
				})
			}
		}
	})
	r.Seq("values that do not exist", "every accessor, getter, predicate, iteration, comparison and output on not-exist values of every origin", func(c *C) {
		mut := func() *jsonvalue.V { v := jsonvalue.NewObject(); x, _ := v.Set(make(chan int)).At("a"); return x }
		var zero jsonvalue.V
		bad, _ := jsonvalue.UnmarshalString("]")
		imp, _ := jsonvalue.Import(func() {})
		wrap := jsonvalue.NewArray()
		for i, v := range []*jsonvalue.V{{}, &zero, bad, imp, mut(), wrap.MustGet(5), jsonvalue.NewObject().MustGet("x"), jsonvalue.New(make(chan int)), jsonvalue.MustUnmarshal(nil), new(jsonvalue.V).MustGet("a").MustGet(1)} {
			for k := range accessors {
				ac := &accessors[k]
				c.Do(func() string { return fmt.Sprintf("not-exist value %d, %s", i, ac.name) }, func() {
					c.Step(1)
					if m := ac.must(v); !sameScalar(m, ac.zero) {
						c.Fail("%s() is %#v", ac.name, m)
					}
					for _, g := range []getters{v, v.Caseless()} {
						for _, p := range []any{"a", 0, nil, []int{1}} {
							if x, err := ac.get(g, p); err == nil || !sameScalar(x, ac.zero) {
								c.Fail("Get%s(%v) is %#v, %v", ac.name, p, x, err)
							}
						}
					}
				})
			}
			c.Do(func() string { return fmt.Sprintf("not-exist value %d", i) }, func() {
				c.Step(1)
				if v.ValueType() != jsonvalue.NotExist || v.Len() != 0 || v.IsNull() || v.IsString() || v.IsNumber() || v.IsBoolean() || v.IsArray() || v.IsObject() || v.IsFloat() || v.IsInteger() || v.IsNegative() || v.IsPositive() || v.GreaterThanInt64Max() {
					c.Fail("type %v", v.ValueType())
				}
				if v.Equal(v) || v.Equal(&jsonvalue.V{}) || v.GreaterThan(v) || v.LessThanOrEqual(v) {
					c.Fail("compares as equal")
				}
				if b, err := v.Marshal(); b != nil || err == nil {
					c.Fail("Marshal gives %s, %v", b, err)
				}
				v.SortArray(func(a, b *jsonvalue.V) bool { return true })
				if v.String() != "" || !bytes.Equal(v.MustMarshal(), nil) {
					c.Fail("String() %q", v.String())
				}
				v.MustDelete("a")
				v.Caseless().MustDelete("a")
				if _, err := v.Set(1).At("a"); err == nil {
					c.Fail("Set on a not-exist value succeeds")
				}
				if _, err := v.Append(1).InTheEnd(); err == nil {
					c.Fail("Append on a not-exist value succeeds")
				}
				if v.GetNull("a") == nil {
					c.Fail("GetNull succeeds")
				}
			})
		}
	})
}

// rec0 is the empty string.
func rec0(c *C, f func(s string) *Val) {
	c.Do(func() string { return `string ""` }, func() { checkAccess(c, f(""), jsonvalue.NewString(""), true) })
}

// madeNumbers judges the accessors and predicates of numbers that come from Go numbers instead of texts.
func madeNumbers(r *Run) {
	var ints []*big.Int
	for e := uint(0); e <= 64; e++ {
		for d := int64(-3); d <= 3; d++ {
			x := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), e), big.NewInt(d))
			ints = append(ints, x, new(big.Int).Neg(x))
		}
	}
	for x := int64(10); x < math.MaxInt64/10; x *= 10 {
		ints = append(ints, big.NewInt(x), big.NewInt(x-1), big.NewInt(x+1), big.NewInt(-x), big.NewInt(1-x))
	}
	floats := []float64{0, math.Copysign(0, -1), 1e20, 1e21, 1e22, -1e20, -1e21, 123456789.25, 1e-6, 1e-7, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, math.NaN(), math.Inf(1), math.Inf(-1)}
	for e := -1074; e <= 1023; e++ {
		if f := math.Ldexp(1, e); e > -70 && e < 70 || e%16 == 0 {
			floats = append(floats, f, -f, math.Nextafter(f, 0), math.Nextafter(f, 1e308), 1.5*f, f+1, f+0.5)
		}
	}
	// common judges what holds for every made number. x is the exact value, nil if there is none.
	common := func(c *C, name string, v *jsonvalue.V, x *big.Rat, f float64) {
		c.Step(12)
		s := v.String()
		b, err := v.Marshal()
		if !v.IsNumber() || v.ValueType() != jsonvalue.Number || v.IsInteger() == v.IsFloat() {
			c.Fail("%s: IsNumber is %v, IsInteger and IsFloat are %v and %v", name, v.IsNumber(), v.IsInteger(), v.IsFloat())
		}
		if x == nil {
			if err == nil || v.IsInteger() || math.IsNaN(f) && v.GreaterThanInt64Max() || f < 0 && (!v.IsNegative() || v.IsPositive() || v.GreaterThanInt64Max()) || f > 0 && (v.IsNegative() || !v.IsPositive()) {
				c.Fail("%s: text %q, %v; IsInteger %v, IsNegative %v, IsPositive %v, above int64 %v", name, b, err, v.IsInteger(), v.IsNegative(), v.IsPositive(), v.GreaterThanInt64Max())
			}
			if g := v.Float64(); g != f && !(math.IsNaN(f) && math.IsNaN(g)) {
				c.Fail("%s: Float64 is %v", name, g)
			}
			return
		}
		n, floated, ok := scanNumber(b)
		if err != nil || !ok || n != len(b) || s != string(b) {
			c.Fail("%s: String %q, Marshal %q, %v", name, s, b, err)
		}
		if v.IsFloat() != floated {
			c.Fail("%s: IsFloat of %s is %v", name, s, v.IsFloat())
		}
		if x.Sign() != 0 && (v.IsNegative() != (x.Sign() < 0) || v.IsPositive() != (x.Sign() > 0)) {
			c.Fail("%s: IsNegative and IsPositive of %s are %v and %v", name, s, v.IsNegative(), v.IsPositive())
		}
		t := numRat(s)
		p63 := new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 63)) // the number and its text may lie on different sides
		if above := x.Cmp(p63) >= 0; !floated && above == (t.Cmp(p63) >= 0) && v.GreaterThanInt64Max() != above {
			c.Fail("%s: GreaterThanInt64Max of %s is %v", name, s, v.GreaterThanInt64Max())
		}
		if g := v.Float64(); g != f {
			if h, _ := strconv.ParseFloat(s, 64); g != h {
				c.Fail("%s: Float64 of %s is %v", name, s, g)
			}
		}
		if g := v.Float32(); g != float32(f) {
			if h, _ := strconv.ParseFloat(s, 32); g != float32(h) {
				c.Fail("%s: Float32 of %s is %v", name, s, g)
			}
		}
		if x.IsInt() && t.Cmp(x) == 0 {
			if x.Num().IsInt64() {
				i := x.Num().Int64()
				if v.Int64() != i || v.Int() != int(i) || int64(int32(i)) == i && v.Int32() != int32(i) {
					c.Fail("%s: Int64 %d, Int %d, Int32 %d of %s", name, v.Int64(), v.Int(), v.Int32(), s)
				}
			}
			if x.Num().IsUint64() {
				u := x.Num().Uint64()
				if v.Uint64() != u || v.Uint() != uint(u) || uint64(uint32(u)) == u && v.Uint32() != uint32(u) {
					c.Fail("%s: Uint64 %d, Uint %d, Uint32 %d of %s", name, v.Uint64(), v.Uint(), v.Uint32(), s)
				}
			}
		}
		// the text is what a parser sees
		p, err := jsonvalue.UnmarshalString(s)
		if _, e := strconv.ParseFloat(s, 64); e != nil || !floated && err != nil && len(s) > 19 {
			return // too large for the parser
		}
		if err != nil || p.String() != s || p.IsFloat() != floated || !p.Equal(v) || !v.Equal(p) {
			c.Fail("%s: %s parsed again is %v, float %v, %v", name, s, p, p.IsFloat(), err)
		}
	}
	type namedI int16
	type namedF float32
	r.Par("numbers made from Go numbers", fmt.Sprintf("%d integers and %d floating-point numbers through every constructor, Import and Set of each Go type that holds them, floats in 6 formats x 6 precisions: all accessors and predicates", len(ints), len(floats)), len(ints)+len(floats), func(c *C, sh int) {
		in := func(x any) *jsonvalue.V {
			v, err := jsonvalue.Import(x)
			if err != nil {
				c.Fail("Import(%T %v): %v", x, x, err)
			}
			o := jsonvalue.NewArray()
			w, err := o.Append(x).InTheEnd()
			if err != nil || w.String() != v.String() || w.IsFloat() != v.IsFloat() {
				c.Fail("Append(%T %v): %v, %v", x, x, w, err)
			}
			return v
		}
		if sh < len(ints) {
			x := ints[sh]
			c.Do(func() string { return "integer " + x.String() }, func() {
				q := new(big.Rat).SetInt(x)
				f, _ := new(big.Float).SetInt(x).Float64()
				judge := func(name string, v *jsonvalue.V) {
					common(c, name, v, q, f)
					if v.String() != x.String() || v.IsFloat() {
						c.Fail("%s: text %s, IsFloat %v", name, v, v.IsFloat())
					}
				}
				if x.IsInt64() {
					i := x.Int64()
					judge("NewInt64", jsonvalue.NewInt64(i))
					judge("NewInt", jsonvalue.NewInt(int(i)))
					judge("Import(int64)", in(i))
					judge("Import(int)", in(int(i)))
					judge("New", jsonvalue.New(i))
					if int64(int32(i)) == i {
						judge("NewInt32", jsonvalue.NewInt32(int32(i)))
						judge("Import(int32)", in(int32(i)))
					}
					if int64(int16(i)) == i {
						judge("Import(int16)", in(int16(i)))
						judge("Import(defined int16)", in(namedI(i)))
					}
					if int64(int8(i)) == i {
						judge("Import(int8)", in(int8(i)))
					}
				}
				if x.IsUint64() {
					u := x.Uint64()
					judge("NewUint64", jsonvalue.NewUint64(u))
					judge("NewUint", jsonvalue.NewUint(uint(u)))
					judge("Import(uint64)", in(u))
					judge("Import(uint)", in(uint(u)))
					judge("Import(uintptr)", in(uintptr(u)))
					if uint64(uint32(u)) == u {
						judge("NewUint32", jsonvalue.NewUint32(uint32(u)))
						judge("Import(uint32)", in(uint32(u)))
					}
					if uint64(uint16(u)) == u {
						judge("Import(uint16)", in(uint16(u)))
					}
					if uint64(uint8(u)) == u {
						judge("Import(uint8)", in(uint8(u)))
					}
				}
			})
			return
		}
		f := floats[sh-len(ints)]
		c.Do(func() string { return fmt.Sprintf("floating-point number %v", f) }, func() {
			rat := func(f float64) *big.Rat {
				if math.IsNaN(f) || math.IsInf(f, 0) {
					return nil
				}
				return new(big.Rat).SetFloat64(f)
			}
			common(c, "NewFloat64", jsonvalue.NewFloat64(f), rat(f), f)
			common(c, "Import(float64)", in(f), rat(f), f)
			g := float64(float32(f))
			common(c, "NewFloat32", jsonvalue.NewFloat32(float32(f)), rat(g), g)
			common(c, "Import(float32)", in(float32(f)), rat(g), g)
			common(c, "Import(defined float32)", in(namedF(f)), rat(g), g)
			for _, format := range []byte("fgeGEx") {
				for _, prec := range []int{-1, 0, 1, 2, 17, 40} {
					common(c, fmt.Sprintf("NewFloat64f(%c,%d)", format, prec), jsonvalue.NewFloat64f(f, format, prec), rat(f), f)
					common(c, fmt.Sprintf("NewFloat32f(%c,%d)", format, prec), jsonvalue.NewFloat32f(float32(f), format, prec), rat(g), g)
				}
			}
		})
	})
}
