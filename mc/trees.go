package main

import (
	"fmt"
	"sort"
	"strings"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

// treeGen enumerates JSON trees by number of nodes. Objects list their members in every order of distinct keys.
type treeGen struct {
	leaves     []*Val
	keys       []string
	sorted     bool // only ascending key order
	noEmpty    bool // no empty containers
	memo       map[int][]*Val
	memoForest map[[2]int][][]*Val
}

func newTreeGen(leaves []*Val, keys []string) *treeGen {
	return &treeGen{leaves: leaves, keys: keys, memo: map[int][]*Val{}, memoForest: map[[2]int][][]*Val{}}
}

// exactly returns all trees with n nodes.
func (g *treeGen) exactly(n int) []*Val {
	if n <= 0 {
		return nil
	}
	if r, ok := g.memo[n]; ok {
		return r
	}
	var out []*Val
	if n == 1 {
		out = append(out, g.leaves...)
		if !g.noEmpty {
			out = append(out, vArr(), &Val{K: KObj})
		}
	} else {
		for k := 1; k < n; k++ {
			for _, f := range g.forests(n-1, k) {
				out = append(out, &Val{K: KArr, A: f})
				if k <= len(g.keys) {
					for _, ks := range keyLists(g.keys, k, g.sorted) {
						o := &Val{K: KObj}
						for i, c := range f {
							o.O = append(o.O, Member{ks[i], c})
						}
						out = append(out, o)
					}
				}
			}
		}
	}
	g.memo[n] = out
	return out
}

func (g *treeGen) upTo(n int) (out []*Val) {
	for i := 1; i <= n; i++ {
		out = append(out, g.exactly(i)...)
	}
	return
}

// forests returns all lists of k trees with n nodes in total.
func (g *treeGen) forests(n, k int) [][]*Val {
	if k == 0 {
		if n == 0 {
			return [][]*Val{nil}
		}
		return nil
	}
	if r, ok := g.memoForest[[2]int{n, k}]; ok {
		return r
	}
	var out [][]*Val
	for m := 1; m <= n-k+1; m++ {
		rest := g.forests(n-m, k-1)
		if len(rest) == 0 {
			continue
		}
		for _, t := range g.exactly(m) {
			for _, r := range rest {
				out = append(out, append([]*Val{t}, r...))
			}
		}
	}
	g.memoForest[[2]int{n, k}] = out
	return out
}

// keyLists returns all lists of k distinct keys (or only those in ascending order).
func keyLists(keys []string, k int, sorted bool) (out [][]string) {
	var rec func(cur []string, used int)
	rec = func(cur []string, used int) {
		if len(cur) == k {
			out = append(out, append([]string{}, cur...))
			return
		}
		for i, x := range keys {
			if used&(1<<i) != 0 || (sorted && len(cur) > 0 && x < cur[len(cur)-1]) {
				continue
			}
			rec(append(cur, x), used|1<<i)
		}
	}
	rec(nil, 0)
	return
}

func (v *Val) nodes() int {
	n := 1
	for _, c := range v.A {
		n += c.nodes()
	}
	for _, m := range v.O {
		n += m.V.nodes()
	}
	return n
}

func (v *Val) maxWidth() int {
	n := len(v.O)
	for _, c := range v.A {
		n = max(n, c.maxWidth())
	}
	for _, m := range v.O {
		n = max(n, m.V.maxWidth())
	}
	return n
}

// dropNulls removes the null members of objects at every level.
func (v *Val) dropNulls() *Val {
	c := &Val{K: v.K, S: v.S, B: v.B}
	for _, x := range v.A {
		c.A = append(c.A, x.dropNulls())
	}
	for _, m := range v.O {
		if m.V.K != KNull {
			c.O = append(c.O, Member{m.K, m.V.dropNulls()})
		}
	}
	return c
}

// reorder sorts the members of every object.
func (v *Val) reorder(less func(a, b string) bool) *Val {
	c := &Val{K: v.K, S: v.S, B: v.B}
	for _, x := range v.A {
		c.A = append(c.A, x.reorder(less))
	}
	for _, m := range v.O {
		c.O = append(c.O, Member{m.K, m.V.reorder(less)})
	}
	if less != nil {
		sort.SliceStable(c.O, func(i, j int) bool { return less(c.O[i].K, c.O[j].K) })
	}
	return c
}

// ---- reference writer ----

type escStyle struct{ utf8, noHTML, noSlash bool }

func (e escStyle) quote(b *strings.Builder, s string) {
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r == '\b':
			b.WriteString(`\b`)
		case r == '\f':
			b.WriteString(`\f`)
		case r == '\n':
			b.WriteString(`\n`)
		case r == '\r':
			b.WriteString(`\r`)
		case r == '\t':
			b.WriteString(`\t`)
		case r < 0x20 || r == 0x7f:
			fmt.Fprintf(b, `\u%04X`, r)
		case r == '/':
			if !e.noSlash {
				b.WriteByte('\\')
			}
			b.WriteByte('/')
		case r == '<' || r == '>' || r == '&':
			if e.noHTML {
				b.WriteRune(r)
			} else {
				fmt.Fprintf(b, `\u%04X`, r)
			}
		case r < 0x80:
			b.WriteRune(r)
		case e.utf8 && r != 0x2028 && r != 0x2029:
			b.WriteRune(r)
		case r > 0xffff:
			x := r - 0x10000
			fmt.Fprintf(b, `\u%04X\u%04X`, 0xD800+x>>10, 0xDC00+x&0x3ff)
		default:
			fmt.Fprintf(b, `\u%04X`, r)
		}
	}
	b.WriteByte('"')
}

// format renders v compactly in the order of its members.
func (e escStyle) format(v *Val) string {
	var b strings.Builder
	e.write(&b, v)
	return b.String()
}

func (e escStyle) write(b *strings.Builder, v *Val) {
	switch v.K {
	case KStr:
		e.quote(b, v.S)
	case KArr:
		b.WriteByte('[')
		for i, x := range v.A {
			if i > 0 {
				b.WriteByte(',')
			}
			e.write(b, x)
		}
		b.WriteByte(']')
	case KObj:
		b.WriteByte('{')
		for i, m := range v.O {
			if i > 0 {
				b.WriteByte(',')
			}
			e.quote(b, m.K)
			b.WriteByte(':')
			e.write(b, m.V)
		}
		b.WriteByte('}')
	default:
		v.write(b, false)
	}
}

// ---- several ways to construct the same value ----

type construction struct {
	name string
	make func(w *Val) *jsonvalue.V
}

// exactOrder constructions give every object the member order of the model; the others may not.
var constructions = []construction{
	{"constructors", build},
	{"parsed", func(w *Val) *jsonvalue.V { return jsonvalue.MustUnmarshalString(w.jsonText()) }},
	{"mutated", buildMutated},
	{"copied", func(w *Val) *jsonvalue.V { return jsonvalue.New(buildMutated(w)) }},
	{"decoded into", func(w *Val) *jsonvalue.V {
		v := jsonvalue.MustUnmarshalString(oldContent)
		if err := v.UnmarshalJSON([]byte(w.jsonText())); err != nil {
			panic(err)
		}
		return v
	}},
	{"caseless used", func(w *Val) *jsonvalue.V { v := build(w); touchCaseless(v); return v }},
}

// jsonText is strict JSON in member order.
func (v *Val) jsonText() string { return escStyle{noHTML: true, noSlash: true}.format(v) }

func touchCaseless(v *jsonvalue.V) {
	_, _ = v.Caseless().Get("No Such Key")
	if v.IsArray() {
		v.RangeArray(func(_ int, c *jsonvalue.V) bool { touchCaseless(c); return true })
	}
	v.RangeObjects(func(_ string, c *jsonvalue.V) bool { touchCaseless(c); return true })
}

// buildMutated reaches the value through detours: members set twice, extra members and elements set and deleted again,
// elements inserted at the front.
func buildMutated(w *Val) *jsonvalue.V {
	switch w.K {
	case KArr:
		a := jsonvalue.NewArray()
		a.MustAppendString("detour").InTheEnd()
		for i := len(w.A) - 1; i >= 0; i-- {
			a.MustAppend(buildMutated(w.A[i])).InTheBeginning()
		}
		a.MustDelete(-1)
		if len(w.A) > 1 {
			a.MustInsertNull().Before(1)
			a.MustDelete(1)
		}
		return a
	case KObj:
		o := jsonvalue.NewObject()
		o.MustSetInt(7).At("detour")
		for i := len(w.O) - 1; i >= 0; i-- {
			o.MustSetBool(true).At(w.O[i].K)
		}
		for _, m := range w.O {
			o.MustDelete(m.K)
			o.MustSet(buildMutated(m.V)).At(m.K)
		}
		if w.get("detour") == nil {
			o.MustDelete("detour")
		}
		return o
	}
	return build(w)
}
