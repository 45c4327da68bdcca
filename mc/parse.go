package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"strings"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

// entry is one way to parse a text.
type entry struct {
	name string
	must bool
	f    func(b []byte) (*jsonvalue.V, error)
}

var errMust = errors.New("not-exist value returned")

func mustErr(v *jsonvalue.V) (*jsonvalue.V, error) {
	if v == nil || v.ValueType() == jsonvalue.NotExist {
		return v, errMust
	}
	return v, nil
}

func exact(b []byte) []byte { // a private copy whose capacity ends with the text: reading past the end panics
	c := make([]byte, len(b))
	copy(c, b)
	return c[:len(c):len(c)]
}

var entries = []entry{
	{"Unmarshal", false, func(b []byte) (*jsonvalue.V, error) { return jsonvalue.Unmarshal(exact(b)) }},
	{"UnmarshalString", false, func(b []byte) (*jsonvalue.V, error) { return jsonvalue.UnmarshalString(string(b)) }},
	{"UnmarshalNoCopy", false, func(b []byte) (*jsonvalue.V, error) { return jsonvalue.UnmarshalNoCopy(exact(b)) }},
	{"UnmarshalNoCopy(window)", false, func(b []byte) (*jsonvalue.V, error) {
		return jsonvalue.UnmarshalNoCopy(window(b))
	}},
	{"Unmarshal(window)", false, func(b []byte) (*jsonvalue.V, error) {
		return jsonvalue.Unmarshal(window(b))
	}},
	{"MustUnmarshal", true, func(b []byte) (*jsonvalue.V, error) { return mustErr(jsonvalue.MustUnmarshal(exact(b))) }},
	{"MustUnmarshalString", true, func(b []byte) (*jsonvalue.V, error) { return mustErr(jsonvalue.MustUnmarshalString(string(b))) }},
	{"MustUnmarshalNoCopy", true, func(b []byte) (*jsonvalue.V, error) { return mustErr(jsonvalue.MustUnmarshalNoCopy(exact(b))) }},
	{"UnmarshalJSON", false, func(b []byte) (*jsonvalue.V, error) { return decodeInto(b, (*jsonvalue.V).UnmarshalJSON) }},
	{"UnmarshalBinary", false, func(b []byte) (*jsonvalue.V, error) { return decodeInto(b, (*jsonvalue.V).UnmarshalBinary) }},
}

// window embeds the text in a larger buffer that would complete truncated literals, numbers, strings and containers.
func window(b []byte) []byte {
	tail := "5e\"]}"
	switch {
	case hasSuffixes(b, "t", "tr", "tru"):
		tail = "true"[lastLen(b, "t", "tr", "tru"):]
	case hasSuffixes(b, "f", "fa", "fal", "fals"):
		tail = "false"[lastLen(b, "f", "fa", "fal", "fals"):]
	case hasSuffixes(b, "n", "nu", "nul"):
		tail = "null"[lastLen(b, "n", "nu", "nul"):]
	}
	c := make([]byte, 0, len(b)+16)
	c = append(c, b...)
	c = append(c, tail...)
	return c[:len(b)]
}

func lastLen(b []byte, ss ...string) (n int) {
	for _, s := range ss {
		if strings.HasSuffix(string(b), s) && len(s) > n {
			n = len(s)
		}
	}
	return
}

func hasSuffixes(b []byte, ss ...string) bool { return lastLen(b, ss...) > 0 }

const oldContent = `{"keep":[1,{"x":"y"},null]}`

// decodeInto decodes into a value that already has content; on failure the content must still be there.
func decodeInto(b []byte, f func(*jsonvalue.V, []byte) error) (*jsonvalue.V, error) {
	v := jsonvalue.MustUnmarshalString(oldContent)
	in := exact(b)
	err := f(v, in)
	if err == nil {
		return v, nil
	}
	if d := diff(oldVal, v, "target"); d != "" {
		panic("failed decode changed its target: " + d)
	}
	return &jsonvalue.V{}, err
}

var oldVal = vObj("keep", vArr(vNum("1"), vObj("x", vStr("y")), vNull()))

// acceptAll requires every entry point to parse word as w.
func acceptAll(c *C, word []byte, w *Val, es []entry) {
	for _, e := range es {
		v, err := e.f(word)
		if err != nil {
			c.Fail("%s rejects it: %v", e.name, err)
		}
		if d := diff(w, v, "$"); d != "" {
			c.Fail("%s: %s", e.name, d)
		}
	}
}

// rejectAll requires every entry point to reject word with an error and a harmless value.
func rejectAll(c *C, word []byte, es []entry) {
	for _, e := range es {
		v, err := e.f(word)
		if err == nil {
			c.Fail("%s accepts it as %v", e.name, read(v))
		}
		if v == nil {
			c.Fail("%s returns a nil value with error %v", e.name, err)
		}
		if v.ValueType() != jsonvalue.NotExist {
			c.Fail("%s returns %v together with error %v", e.name, v.ValueType(), err)
		}
	}
}

// judge compares all entry points with the strict and the lenient reference parser.
func judge(c *C, word []byte, es []entry) {
	w, _, err := refParse(word, false)
	c.Step(len(word))
	if err == nil {
		c.Out(hashStr(w.canon()))
		acceptAll(c, word, w, es)
		return
	}
	lw, used, lerr := refParse(word, true)
	if lerr != nil {
		c.Out(hashStr(err.Error() + "/" + lerr.Error()))
		rejectAll(c, word, es)
		return
	}
	acc := 0
	for _, e := range es {
		v, err := e.f(word)
		if err != nil {
			if v == nil || v.ValueType() != jsonvalue.NotExist {
				c.Fail("%s returns %v together with error %v", e.name, v, err)
			}
			continue
		}
		acc++
		if d := diff(lw, v, "$"); d != "" {
			c.Fail("%s accepts malformed text and reads it strangely: %s", e.name, d)
		}
	}
	if acc > 0 {
		for class := range used {
			c.Known(class, "malformed text is accepted: %v", err)
		}
	}
}

// ---- token level push-down automaton ----

// pda is a configuration of the strict JSON grammar at token level. st: v value, a after '[', c after array element,
// k after '{', K after ',' in an object, : after key, o after object member, e end.
type pda struct {
	st    byte
	stack string
}

var pdaStart = pda{'v', ""}

func (p pda) afterValue() pda {
	if p.stack == "" {
		return pda{'e', ""}
	}
	if p.stack[len(p.stack)-1] == '[' {
		return pda{'c', p.stack}
	}
	return pda{'o', p.stack}
}

// step consumes a token class: { } [ ] , : s(tring) n(umber or other scalar).
func (p pda) step(t byte) (pda, bool) {
	switch p.st {
	case 'v', 'a':
		switch t {
		case 's', 'n':
			return p.afterValue(), true
		case '{':
			return pda{'k', p.stack + "{"}, true
		case '[':
			return pda{'a', p.stack + "["}, true
		case ']':
			if p.st == 'a' {
				return pda{'v', p.stack[:len(p.stack)-1]}.afterValue(), true
			}
		}
	case 'c':
		switch t {
		case ',':
			return pda{'v', p.stack}, true
		case ']':
			return pda{'v', p.stack[:len(p.stack)-1]}.afterValue(), true
		}
	case 'k', 'K':
		switch t {
		case 's':
			return pda{':', p.stack}, true
		case '}':
			if p.st == 'k' {
				return pda{'v', p.stack[:len(p.stack)-1]}.afterValue(), true
			}
		}
	case ':':
		if t == ':' {
			return pda{'v', p.stack}, true
		}
	case 'o':
		switch t {
		case ',':
			return pda{'K', p.stack}, true
		case '}':
			return pda{'v', p.stack[:len(p.stack)-1]}.afterValue(), true
		}
	}
	return p, false
}

// minTokens is the least number of tokens that completes the text.
func (p pda) minTokens() int {
	n := len(p.stack)
	switch p.st {
	case 'v':
		return n + 1
	case 'K':
		return n + 3
	case ':':
		return n + 2
	}
	return n
}

// closing is a shortest completion.
func (p pda) closing() string {
	s := ""
	switch p.st {
	case 'v':
		s = "7"
	case 'K':
		s = `"z":7`
	case ':':
		s = ":7"
	}
	for i := len(p.stack) - 1; i >= 0; i-- {
		if p.stack[i] == '[' {
			s += "]"
		} else {
			s += "}"
		}
	}
	return s
}

func (p pda) hash() uint64 { return mix(hashStr(p.stack), uint64(p.st)) }

func tokClass(t string) byte {
	switch t[0] {
	case '{', '}', '[', ']', ',', ':':
		return t[0]
	case '"':
		return 's'
	}
	return 'n'
}

// pdaWords walks all viable token prefixes up to n tokens; visit is called for each, after its last token.
// Shards split on the first two tokens.
func pdaWords(c *C, alpha []string, shard, n int, visit func(word []byte, p pda, toks []int)) {
	cls := make([]byte, len(alpha))
	for i, t := range alpha {
		cls[i] = tokClass(t)
	}
	var rec func(word []byte, p pda, toks []int)
	rec = func(word []byte, p pda, toks []int) {
		if c.Expired() {
			return
		}
		if len(toks) > 0 {
			c.State(p.hash())
			visit(word, p, toks)
		}
		if len(toks) == n {
			return
		}
		for i, t := range alpha {
			if len(toks) == 0 && i != shard/len(alpha) {
				continue
			}
			if len(toks) == 1 && i != shard%len(alpha) {
				continue
			}
			q, ok := p.step(cls[i])
			c.trans++
			if !ok || q.minTokens() > n-len(toks)-1 {
				continue
			}
			rec(append(word, t...), q, append(toks, i))
		}
	}
	if shard < len(alpha)*len(alpha) {
		rec(make([]byte, 0, 256), pdaStart, make([]int, 0, 64))
	}
}

// crossCheck validates the strict reference parser against encoding/json on a well-formed text.
func crossCheck(c *C, word []byte, w *Val) {
	dec := json.NewDecoder(strings.NewReader(string(word)))
	dec.UseNumber()
	var x any
	if err := dec.Decode(&x); err != nil {
		panic(fmt.Sprintf("reference parsers disagree: %v", err))
	}
	if g := fromAny(x); !sameContent(g, w) {
		panic(fmt.Sprintf("reference parsers disagree: %s vs %s", g.canon(), w.canon()))
	}
}

// fromAny converts the generic decoding of encoding/json (with UseNumber).
func fromAny(x any) *Val {
	switch t := x.(type) {
	case nil:
		return vNull()
	case bool:
		return vBool(t)
	case string:
		return vStr(t)
	case json.Number:
		return vNum(string(t))
	case float64:
		b, _ := json.Marshal(t)
		return vNum(string(b))
	case []any:
		a := &Val{K: KArr}
		for _, y := range t {
			a.A = append(a.A, fromAny(y))
		}
		return a
	case map[string]any:
		o := &Val{K: KObj}
		for k, y := range t {
			o.O = append(o.O, Member{k, fromAny(y)})
		}
		return o
	}
	panic(fmt.Sprintf("unexpected %T", x))
}

func jvNoCopy(b []byte) (*jsonvalue.V, error) { return jsonvalue.UnmarshalNoCopy(b) }
