package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

func init() {
	checks["C15"] = c15
	checks["C16"] = c16
}

// numKey identifies a number by its value.
func numKey(s string) string {
	switch s {
	case "NaN", "+Inf", "-Inf":
		return s
	}
	return numRat(s).RatString()
}

// eqKey is the same for two values exactly if they are equal.
func eqKey(w *Val) string {
	switch w.K {
	case KNum:
		return "n" + numKey(w.S)
	case KArr:
		var b strings.Builder
		b.WriteString("[")
		for _, x := range w.A {
			b.WriteString(eqKey(x) + ",")
		}
		return b.String() + "]"
	case KObj:
		var ks []string
		for _, m := range w.O {
			ks = append(ks, strconv.Quote(m.K)+":"+eqKey(m.V))
		}
		sort.Strings(ks)
		return "{" + strings.Join(ks, ",") + "}"
	}
	return w.canon()
}

// buildNum makes numbers the parser cannot make, too.
func buildNum(s string) *jsonvalue.V {
	switch s {
	case "NaN":
		return jsonvalue.NewFloat64(math.NaN())
	case "+Inf":
		return jsonvalue.NewFloat64(math.Inf(1))
	case "-Inf":
		return jsonvalue.NewFloat32(float32(math.Inf(-1)))
	}
	return jsonvalue.MustUnmarshalString(s)
}

func hasSpecial(w *Val) bool {
	if w.K == KNum && (w.S == "NaN" || strings.HasSuffix(w.S, "Inf")) {
		return true
	}
	for _, x := range w.A {
		if hasSpecial(x) {
			return true
		}
	}
	for _, m := range w.O {
		if hasSpecial(m.V) {
			return true
		}
	}
	return false
}

func buildAny(w *Val) *jsonvalue.V {
	switch w.K {
	case KNum:
		return buildNum(w.S)
	case KArr:
		a := jsonvalue.NewArray()
		for _, x := range w.A {
			a.MustAppend(buildAny(x)).InTheEnd()
		}
		return a
	case KObj:
		o := jsonvalue.NewObject()
		for _, m := range w.O {
			o.MustSet(buildAny(m.V)).At(m.K)
		}
		return o
	}
	return build(w)
}

// eqWays are ways to come to the same content; nil if a way does not apply.
var eqWays = []struct {
	name string
	make func(w *Val) *jsonvalue.V
}{
	{"built", buildAny},
	{"parsed", func(w *Val) *jsonvalue.V {
		if hasSpecial(w) {
			return nil
		}
		return jsonvalue.MustUnmarshalString(w.jsonText())
	}},
	{"parsed from escapes", func(w *Val) *jsonvalue.V {
		if hasSpecial(w) {
			return nil
		}
		return jsonvalue.MustUnmarshalString(" " + escStyle{}.format(w) + " ")
	}},
	{"mutated", func(w *Val) *jsonvalue.V {
		if hasSpecial(w) {
			return nil
		}
		return buildMutated(w)
	}},
	{"caseless table present", func(w *Val) *jsonvalue.V { v := buildAny(w); touchCaseless(v); return v }},
	{"copied", func(w *Val) *jsonvalue.V {
		v, err := jsonvalue.Import(buildAny(w))
		if err != nil {
			return nil
		}
		return v
	}},
}

func c15(r *Run) {
	leaves := []*Val{vNum("1"), vNum("1.0"), vNum("10e-1"), vNum("-1"), vNum("0"), vNum("-0.0"), vNum("NaN"), vNum("+Inf"), vNum("-Inf"), vStr("1"), vStr(""), vStr("a"), vStr("A"), vBool(true), vBool(false), vNull()}
	few := []*Val{vNum("1"), vNum("1.0"), vStr("1"), vNull()}
	type item struct {
		w   *Val
		key string
		v   *jsonvalue.V
		how string
	}
	var items []item
	add := func(ws []*Val, ways int) {
		for _, w := range ws {
			for _, way := range eqWays[:ways] {
				if v := way.make(w); v != nil {
					items = append(items, item{w, eqKey(w), v, way.name})
				}
			}
		}
	}
	g := newTreeGen(leaves, []string{"a", "A", ""})
	add(g.upTo(2), len(eqWays))
	fg := newTreeGen(few, []string{"a", "b"})
	add(fg.upTo(r.Pick(4, 5)), 2)
	if r.thorough {
		add(fg.upTo(4), len(eqWays))
		add(g.exactly(3), 1)
	}
	r.Par("all pairs", fmt.Sprintf("all ordered pairs of %d values (16 leaves to 2 nodes in 6 constructions, 4 leaves to %d nodes)", len(items), r.Pick(4, 5)), len(items), func(c *C, sh int) {
		x := &items[sh]
		c.State(hashStr(x.key))
		c.Do(func() string { return fmt.Sprintf("%s (%s) against all", x.w, x.how) }, func() {
			for i := range items {
				y := &items[i]
				c.Step(1)
				if got := x.v.Equal(y.v); got != (x.key == y.key) {
					c.Fail("Equal to %s (%s) is %v", y.w, y.how, got)
				}
			}
			if !x.v.Equal(x.v) {
				c.Fail("not equal to itself")
			}
			for _, n := range []*jsonvalue.V{nil, {}} {
				if x.v.Equal(n) || n.Equal(x.v) {
					c.Fail("equal to a value that does not exist (nil=%v)", n == nil)
				}
			}
			if e := read(x.v); !hasSpecial(x.w) && !sameContent(e, x.w) {
				c.Fail("comparing changed it to %s", e)
			}
		})
	})
	r.Seq("values that do not exist", "nil, zero V, results of failed calls, in both positions and in containers", func(c *C) {
		_, _ = jsonvalue.UnmarshalString("[")
		bad, _ := jsonvalue.UnmarshalString("[")
		miss, _ := jsonvalue.NewObject().Get("x")
		imp, _ := jsonvalue.Import(make(chan int))
		ns := []*jsonvalue.V{nil, {}, bad, miss, imp, jsonvalue.NewInt(5).MustGet("q")}
		for i, a := range ns {
			for j, b := range ns {
				c.Do(func() string { return fmt.Sprintf("not-exist %d Equal not-exist %d", i, j) }, func() {
					c.Step(1)
					if a.Equal(b) {
						c.Fail("Equal is true")
					}
				})
			}
		}
	})
	// members one by one different
	r.Par("one difference", "arrays and objects of 1..40 members, nested to depth 6: a copy with exactly one leaf, key, type, position or member changed", 40, func(c *C, sh int) {
		n := sh + 1
		mkA := func() *Val {
			a := vArr()
			for i := 0; i < n; i++ {
				a.A = append(a.A, []*Val{vNum(strconv.Itoa(i)), vStr("s" + strconv.Itoa(i)), vArr(vNum("1"), vObj("k", vNull())), vObj("x", vNum("1"), "y", vArr()), vBool(true)}[i%5].clone())
			}
			return a
		}
		mkO := func() *Val {
			o := &Val{K: KObj}
			for i, x := range mkA().A {
				o.O = append(o.O, Member{"k" + strconv.Itoa(i), x})
			}
			return o
		}
		wrap := func(w *Val, d int) *Val {
			for i := 0; i < d; i++ {
				if i%2 == 0 {
					w = vArr(vNull(), w)
				} else {
					w = vObj("w", w, "z", vNum("1"))
				}
			}
			return w
		}
		for _, d := range []int{0, 1, 2, 6} {
			for _, base := range []*Val{mkA(), mkO()} {
				muts := oneChange(base)
				v := build(wrap(base, d))
				for _, m := range append(muts, base.clone()) {
					w := wrap(m, d)
					c.Do(func() string { return fmt.Sprintf("%s Equal %s", clip(base.String(), 300), clip(m.String(), 300)) }, func() {
						c.Step(2)
						x := build(w)
						want := eqKey(m) == eqKey(base)
						if v.Equal(x) != want || x.Equal(v) != want {
							c.Fail("Equal is %v and %v", v.Equal(x), x.Equal(v))
						}
					})
				}
			}
		}
	})
	og := newTreeGen([]*Val{vNum("1"), vNum("2")}, []string{"a", "b", "c"})
	og.sorted = true
	var objs []*Val
	for _, w := range og.upTo(r.Pick(4, 5)) {
		if w.K == KObj {
			objs = append(objs, w)
		}
	}
	r.Par("map iteration orders", fmt.Sprintf("all pairs of %d objects, every map iteration order", len(objs)), len(objs), func(c *C, sh int) {
		x := build(objs[sh])
		for _, w := range objs {
			y := build(w)
			c.Do(func() string { return fmt.Sprintf("%s Equal %s (some map order)", objs[sh], w) }, func() {
				want := eqKey(w) == eqKey(objs[sh])
				c.Orders(2000, func() {
					c.Step(1)
					if x.Equal(y) != want {
						c.Fail("Equal is %v", !want)
					}
				})
			})
		}
	})
	lits := numLiterals(r.thorough)
	var in [2][]*jsonvalue.V
	for i := range lits {
		a, o := jsonvalue.NewArray(), jsonvalue.NewObject()
		a.MustAppend(lits[i].v).InTheEnd()
		o.MustSet(lits[i].v).At("a")
		o.MustSetBool(true).At("b")
		in[0], in[1] = append(in[0], a), append(in[1], o)
	}
	r.Par("numbers", fmt.Sprintf("all ordered pairs of %d numbers, alone and in arrays and objects", len(lits)), len(lits), func(c *C, sh int) {
		x := lits[sh]
		c.Do(func() string { return x.name + " Equal every number" }, func() {
			for i := range lits {
				y := &lits[i]
				c.Step(1)
				want := x.special == y.special
				if want && x.special == "" {
					want = x.r.Cmp(y.r) == 0
				}
				if x.v.Equal(y.v) != want {
					c.Fail("Equal to %s is %v", y.name, !want)
				}
				c.Step(2)
				if in[0][sh].Equal(in[0][i]) != want || in[1][sh].Equal(in[1][i]) != want {
					c.Fail("Equal to %s is %v in an array or object", y.name, !want)
				}
			}
		})
	})
}

// oneChange lists the values that differ from w in one place.
func oneChange(w *Val) (out []*Val) {
	switch w.K {
	case KNum:
		out = append(out, vNum("777"), vNum(w.S+".0"), vStr(w.S))
	case KStr:
		out = append(out, vStr(w.S+"x"), vStr(""), vNull())
	case KBool:
		out = append(out, vBool(!w.B), vNull())
	case KNull:
		out = append(out, vBool(false), vObj())
	case KArr:
		for i := range w.A {
			for _, m := range oneChange(w.A[i]) {
				x := w.clone()
				x.A[i] = m
				out = append(out, x)
			}
			x := w.clone()
			x.A = append(x.A[:i], x.A[i+1:]...)
			out = append(out, x)
			if i > 0 {
				x = w.clone()
				x.A[i-1], x.A[i] = x.A[i], x.A[i-1]
				out = append(out, x)
			}
		}
		x := w.clone()
		x.A = append(x.A, vNull())
		out = append(out, x, vObj())
	case KObj:
		for i := range w.O {
			for _, m := range oneChange(w.O[i].V) {
				x := w.clone()
				x.O[i].V = m
				out = append(out, x)
			}
			x := w.clone()
			x.O[i].K += "'"
			out = append(out, x)
			x = w.clone()
			x.O = append(x.O[:i], x.O[i+1:]...)
			out = append(out, x)
			if i > 0 {
				x = w.clone()
				x.O[i-1], x.O[i] = x.O[i], x.O[i-1] // same content
				out = append(out, x)
				x = w.clone()
				x.O[i-1].V, x.O[i].V = x.O[i].V, x.O[i-1].V
				out = append(out, x)
			}
		}
		x := w.clone()
		x.O = append(x.O, Member{"extra", vNull()})
		out = append(out, x, vArr())
	}
	return
}

// numLit is a number with its exact value.
type numLit struct {
	name    string
	v       *jsonvalue.V
	r       *big.Rat
	special string
	f       float64
}

func numLiterals(thorough bool) (out []numLit) {
	seen := map[string]bool{}
	lit := func(s string) {
		v, err := jsonvalue.UnmarshalString(s)
		if err != nil || seen[s] {
			return
		}
		seen[s] = true
		out = append(out, numLit{name: s, v: v, r: numRat(s)})
	}
	pm := func(s string) { lit(s); lit("-" + s) }
	// spellings of small values
	for _, m := range []string{"0", "1", "2", "9", "10", "12", "99", "100"} {
		pm(m)
		for _, f := range []string{".0", ".00", ".5", ".50", ".05", ".49", ".9", ".99999999999999999999", ".00000000000000000001"} {
			pm(m + f)
		}
		for _, e := range []string{"e0", "E+0", "e1", "e-1", "e2", "E-2", "e+10", "e-10", "e20", "e-20"} {
			pm(m + e)
			pm(m + ".5" + e)
			if thorough {
				pm(m + ".50" + e)
				pm(m + ".05" + e)
			}
		}
	}
	// neighbourhoods of the limits
	for _, e := range []uint{7, 8, 15, 16, 24, 31, 32, 52, 53, 54, 62, 63, 64} {
		x := new(big.Int).Lsh(big.NewInt(1), e)
		for d := int64(-2); d <= 2; d++ {
			s := new(big.Int).Add(x, big.NewInt(d)).String()
			pm(s)
			pm(s + ".0")
			pm(s + ".5")
			pm(s + "e0")
			pm(s[:1] + "." + s[1:] + "e" + strconv.Itoa(len(s)-1))
			if thorough {
				pm(s + ".25")
				pm(s + "0e-1")
				pm("0." + s + "e" + strconv.Itoa(len(s)))
			}
		}
	}
	for _, s := range []string{"1e15", "1e16", "1e17", "1e18", "1e19", "1e20", "1e21", "1e22", "1e23", "1e38", "1e39", "1e100", "1e307", "1e308", "1.7976931348623157e308", "1.7976931348623158e308", "4.9e-324", "5e-324", "2.2250738585072014e-308", "2.2250738585072011e-308", "1e-100", "1e-307", "1e-308", "3.4028234663852886e38", "123456789012345678", "1234567890123456789", "12345678901234567890", "1234567890123456789.0", "0.1", "0.10000000000000001", "0.1000000000000000055511151231257827", "0.3", "0.30000000000000004", "1e-6", "1e-7", "0.000001", "0.0000001", "100000000000000000000.0", "123456789.123456789123456789", "123456789.123456789123456788", "0e10", "1e-323", "1e-324", "2e-324", "2.5e-324", "3e-324", "1e-400", "1.0e-400", "2e-400", "10e-401", "0.1e-399", "1e-1000", "0e-400", "0.0e-5", "-0", "-0.0e3"} {
		pm(s)
	}
	// constructed numbers
	con := func(name string, v *jsonvalue.V) {
		b, err := v.Marshal()
		if err != nil {
			panic(err)
		}
		out = append(out, numLit{name: name, v: v, r: numRat(string(b))})
	}
	con("NewInt64(min)", jsonvalue.NewInt64(math.MinInt64))
	con("NewInt64(max)", jsonvalue.NewInt64(math.MaxInt64))
	con("NewUint64(max)", jsonvalue.NewUint64(math.MaxUint64))
	con("NewUint64(0)", jsonvalue.NewUint64(0))
	con("NewInt(1)", jsonvalue.NewInt(1))
	con("NewFloat64(1)", jsonvalue.NewFloat64(1))
	con("NewFloat64(-0)", jsonvalue.NewFloat64(math.Copysign(0, -1)))
	con("NewFloat64(0.1)", jsonvalue.NewFloat64(0.1))
	con("NewFloat32(0.1)", jsonvalue.NewFloat32(0.1))
	con("NewFloat64(max)", jsonvalue.NewFloat64(math.MaxFloat64))
	con("NewFloat64(smallest)", jsonvalue.NewFloat64(math.SmallestNonzeroFloat64))
	con("NewFloat32(max)", jsonvalue.NewFloat32(math.MaxFloat32))
	con("NewFloat64(1e20)", jsonvalue.NewFloat64(1e20))
	con("NewFloat64(1e21)", jsonvalue.NewFloat64(1e21))
	con("NewFloat64(2^64)", jsonvalue.NewFloat64(1<<64))
	con("NewFloat64(2^63)", jsonvalue.NewFloat64(1<<63))
	con("NewFloat64f(1.25,f,1)", jsonvalue.NewFloat64f(1.25, 'f', 1))
	con("NewFloat64f(0.1,E,20)", jsonvalue.NewFloat64f(0.1, 'E', 20))
	con("NewFloat64f(1e300,f,-1)", jsonvalue.NewFloat64f(1e300, 'f', -1))
	for _, sp := range []string{"NaN", "+Inf", "-Inf"} {
		f, _ := strconv.ParseFloat(sp, 64)
		out = append(out, numLit{name: sp, v: jsonvalue.NewFloat64(f), special: sp, f: f}, numLit{name: sp + " float32", v: jsonvalue.NewFloat32(float32(f)), special: sp, f: f})
	}
	return
}

func c16(r *Run) {
	lits := numLiterals(r.thorough)
	cmp := func(c *C, x, y *numLit) {
		c.Step(4)
		var gt, ge, lt, le bool
		switch {
		case x.special == "NaN" || y.special == "NaN":
		case x.special != "" || y.special != "":
			a, b := x.f, y.f // 0 stands for the finite one
			gt, ge, lt, le = a > b, a >= b, a < b, a <= b
		default:
			k := x.r.Cmp(y.r)
			gt, ge, lt, le = k > 0, k >= 0, k < 0, k <= 0
		}
		g := [4]bool{x.v.GreaterThan(y.v), x.v.GreaterThanOrEqual(y.v), x.v.LessThan(y.v), x.v.LessThanOrEqual(y.v)}
		if g != [4]bool{gt, ge, lt, le} {
			c.Fail("against %s: >,>=,<,<= are %v, should be %v", y.name, g, [4]bool{gt, ge, lt, le})
		}
	}
	r.Par("all pairs", fmt.Sprintf("all ordered pairs of %d numbers: spellings of small values, neighbourhoods of 2^7..2^64, limits of doubles, constructed numbers, NaN, infinities", len(lits)), len(lits), func(c *C, sh int) {
		x := &lits[sh]
		c.State(hashStr(x.name))
		c.Do(func() string { return x.name + " compared with every number" }, func() {
			for i := range lits {
				cmp(c, x, &lits[i])
			}
			cmp(c, x, x)
		})
	})
	// all short literals
	alpha := "0159.e-"
	if r.thorough {
		alpha = "012459.eE+-"
	}
	var short []numLit
	var rec func(s string)
	n := 5
	rec = func(s string) {
		if end, _, ok := scanNumber([]byte(s)); ok && end == len(s) && s != "" {
			if v, err := jsonvalue.UnmarshalString(s); err == nil {
				short = append(short, numLit{name: s, v: v, r: numRat(s)})
			}
		}
		if len(s) < n {
			for _, a := range alpha {
				rec(s + string(a))
			}
		}
	}
	rec("")
	r.Par("short literals", fmt.Sprintf("all ordered pairs of the %d literals of up to %d characters over %q", len(short), n, alpha), len(short), func(c *C, sh int) {
		x := &short[sh]
		c.Do(func() string { return x.name + " compared with every short literal" }, func() {
			for i := range short {
				cmp(c, x, &short[i])
			}
		})
	})
	others := []*jsonvalue.V{{}, jsonvalue.NewString("1"), jsonvalue.NewString(""), jsonvalue.NewString("NaN"), jsonvalue.NewBool(true), jsonvalue.NewBool(false), jsonvalue.NewNull(), jsonvalue.NewArray(), jsonvalue.NewObject(), jsonvalue.MustUnmarshalString(`[1]`), jsonvalue.MustUnmarshalString(`{"a":1}`), jsonvalue.NewBytes([]byte("1"))}
	r.Par("non-numbers", fmt.Sprintf("every pair of %d non-numbers, and of a non-number and a number, in both orders", len(others)), len(others), func(c *C, sh int) {
		x := others[sh]
		do := func(name string, y *jsonvalue.V) {
			c.Do(func() string { return fmt.Sprintf("non-number %d compared with %s", sh, name) }, func() {
				c.Step(8)
				for _, p := range [][2]*jsonvalue.V{{x, y}, {y, x}} {
					if p[0].GreaterThan(p[1]) || p[0].GreaterThanOrEqual(p[1]) || p[0].LessThan(p[1]) || p[0].LessThanOrEqual(p[1]) {
						c.Fail("a comparison is true")
					}
				}
			})
		}
		for i, y := range others {
			do(fmt.Sprintf("non-number %d", i), y)
		}
		for i := range lits {
			do(lits[i].name, lits[i].v)
		}
	})
}
