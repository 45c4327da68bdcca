package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

// Reference document model: documented effect of the mutating calls.

type pel struct {
	str bool
	s   string
	i   int
}

func pk(s string) pel { return pel{str: true, s: s} }
func pi(i int) pel    { return pel{i: i} }

func (p pel) any() any {
	if p.str {
		return p.s
	}
	return p.i
}

func pathAny(p []pel) []any {
	out := make([]any, len(p))
	for i := range p {
		out[i] = p[i].any()
	}
	return out
}

func pathStr(p []pel) string {
	var s []string
	for _, x := range p {
		if x.str {
			s = append(s, fmt.Sprintf("%q", x.s))
		} else {
			s = append(s, fmt.Sprint(x.i))
		}
	}
	return strings.Join(s, ",")
}

// idx resolves an array position, -1 when outside.
func (v *Val) idx(i int) int {
	if i < 0 {
		i += len(v.A)
	}
	if i < 0 || i >= len(v.A) {
		return -1
	}
	return i
}

type mres int

const (
	mOK mres = iota
	mNotFound
	mOutOfRange
	mOther // some other error
)

func (v *Val) at(path []pel) (*Val, mres) {
	for _, p := range path {
		switch v.K {
		case KObj:
			if !p.str {
				return nil, mOther
			}
			c := v.get(p.s)
			if c == nil {
				return nil, mNotFound
			}
			v = c
		case KArr:
			if p.str {
				return nil, mOther
			}
			i := v.idx(p.i)
			if i < 0 {
				return nil, mOutOfRange
			}
			v = v.A[i]
		default:
			return nil, mOther
		}
	}
	return v, mOK
}

// mSet places child at path; nothing changes unless the result is mOK.
func (v *Val) mSet(path []pel, child *Val) mres {
	p := path[0]
	switch v.K {
	case KObj:
		if !p.str {
			return mOther
		}
		if len(path) == 1 {
			v.set(p.s, child)
			return mOK
		}
		c := v.get(p.s)
		if c != nil {
			return c.mSet(path[1:], child)
		}
		c, r := newParent(path[1:], child)
		if r == mOK {
			v.set(p.s, c)
		}
		return r
	case KArr:
		if p.str {
			return mOther
		}
		i := v.idx(p.i)
		if p.i != len(v.A) && i < 0 {
			return mOutOfRange
		}
		if len(path) == 1 {
			if i < 0 {
				v.A = append(v.A, child)
			} else {
				v.A[i] = child
			}
			return mOK
		}
		if i >= 0 {
			return v.A[i].mSet(path[1:], child)
		}
		c, r := newParent(path[1:], child)
		if r == mOK {
			v.A = append(v.A, c)
		}
		return r
	}
	return mOther
}

func newParent(path []pel, child *Val) (*Val, mres) {
	c := &Val{K: KArr}
	if path[0].str {
		c = &Val{K: KObj}
	} else if path[0].i != 0 {
		return nil, mOutOfRange
	}
	return c, c.mSet(path, child)
}

func (v *Val) insertAt(i int, child *Val) {
	v.A = append(v.A[:i:i], append([]*Val{child}, v.A[i:]...)...)
}

func (v *Val) mAppend(path []pel, begin bool, child *Val) mres {
	t, r := v.at(path)
	switch {
	case r == mNotFound:
		arr := &Val{K: KArr, A: []*Val{child}}
		return v.mSet(path, arr)
	case r != mOK:
		return r
	case t.K != KArr:
		return mOther
	}
	if begin {
		t.insertAt(0, child)
	} else {
		t.A = append(t.A[:len(t.A):len(t.A)], child)
	}
	return mOK
}

func (v *Val) mInsert(path []pel, after bool, child *Val) mres {
	t, r := v.at(path[:len(path)-1])
	if r != mOK {
		return r
	}
	p := path[len(path)-1]
	if t.K != KArr || p.str {
		return mOther
	}
	i := t.idx(p.i)
	if i < 0 {
		return mOutOfRange
	}
	if after {
		i++
	}
	t.insertAt(i, child)
	return mOK
}

func (v *Val) mDelete(path []pel) mres {
	t, r := v.at(path[:len(path)-1])
	if r != mOK {
		return r
	}
	p := path[len(path)-1]
	switch {
	case t.K == KObj && p.str:
		if !t.del(p.s) {
			return mNotFound
		}
		return mOK
	case t.K == KArr && !p.str:
		i := t.idx(p.i)
		if i < 0 {
			return mOutOfRange
		}
		t.A = append(t.A[:i:i], t.A[i+1:]...)
		return mOK
	}
	return mOther
}

// mutOp is one mutating call.
type mutOp struct {
	kind  byte // s set, b append in the beginning, e append in the end, i insert before, j insert after, d delete
	path  []pel
	child int // index in mutChildren
	pa    []any
	class bool // the error must be of the documented kind
}

type mutChild struct {
	name string
	w    *Val // nil: the call must fail
	mk   func() any
}

var mutChildren = []mutChild{
	{"7", vNum("7"), func() any { return 7 }},
	{`*V "s"`, vStr("s"), func() any { return jsonvalue.NewString("s") }},
	{"*V {}", &Val{K: KObj}, func() any { return jsonvalue.NewObject() }},
	{"*V []", &Val{K: KArr}, func() any { return jsonvalue.NewArray() }},
	{`*V {"a":[1,2]}`, vObj("a", vArr(vNum("1"), vNum("2"))), func() any { return jsonvalue.MustUnmarshalString(`{"a":[1,2]}`) }},
	{"nil", vNull(), func() any { return nil }},
	{"[]int{1,2}", vArr(vNum("1"), vNum("2")), func() any { return []int{1, 2} }},
	{"NotExist", nil, func() any { return &jsonvalue.V{} }},
	{"(*V)(nil)", nil, func() any { return (*jsonvalue.V)(nil) }},
	{"chan", nil, func() any { return make(chan int) }},
}

func (o *mutOp) String() string {
	p := pathStr(o.path)
	if o.kind == 'd' {
		return "Delete(" + p + ")"
	}
	ch := mutChildren[o.child].name
	switch o.kind {
	case 's':
		return fmt.Sprintf("Set(%s).At(%s)", ch, p)
	case 'b':
		return fmt.Sprintf("Append(%s).InTheBeginning(%s)", ch, p)
	case 'e':
		return fmt.Sprintf("Append(%s).InTheEnd(%s)", ch, p)
	case 'i':
		return fmt.Sprintf("Insert(%s).Before(%s)", ch, p)
	}
	return fmt.Sprintf("Insert(%s).After(%s)", ch, p)
}

// model applies the call to w in place and returns the outcome and the placed content.
func (o *mutOp) model(w *Val) (mres, *Val) {
	if o.kind == 'd' {
		return w.mDelete(o.path), nil
	}
	ch := mutChildren[o.child].w
	if ch == nil {
		return mOther, nil
	}
	return o.modelWith(w, ch)
}

// modelWith places ch instead of the child of the call.
func (o *mutOp) modelWith(w, ch *Val) (mres, *Val) {
	ch = ch.clone()
	placed := ch
	var r mres
	switch o.kind {
	case 's':
		r = w.mSet(o.path, ch)
	case 'b', 'e':
		r = w.mAppend(o.path, o.kind == 'b', ch)
	default:
		r = w.mInsert(o.path, o.kind == 'j', ch)
	}
	return r, placed
}

// real performs the call. given is the child passed.
func (o *mutOp) real(v *jsonvalue.V) (ret *jsonvalue.V, given any, err error) {
	if o.pa == nil && len(o.path) > 0 {
		o.pa = pathAny(o.path)
	}
	p := o.pa
	if o.kind == 'd' {
		return nil, nil, v.Delete(p[0], p[1:]...)
	}
	given = mutChildren[o.child].mk()
	switch o.kind {
	case 's':
		ret, err = v.Set(given).At(p[0], p[1:]...)
	case 'b':
		ret, err = v.Append(given).InTheBeginning(p...)
	case 'e':
		ret, err = v.Append(given).InTheEnd(p...)
	case 'i':
		ret, err = v.Insert(given).Before(p[0], p[1:]...)
	default:
		ret, err = v.Insert(given).After(p[0], p[1:]...)
	}
	return
}

// verify performs the call on both sides and compares everything.
func (o *mutOp) verify(c *C, v *jsonvalue.V, w *Val) mres {
	r, placed := o.model(w)
	ret, given, err := o.real(v)
	if r == mOK {
		if err != nil {
			c.Fail("%s fails: %v", o, err)
		}
		if o.kind != 'd' {
			if ret == nil {
				c.Fail("%s returns nil", o)
			}
			if d := diff(placed, ret, "returned value"); d != "" {
				c.Fail("%s: %s", o, d)
			}
			if g, ok := given.(*jsonvalue.V); ok && g != ret {
				c.Fail("%s returns another value than the one it was given", o)
			}
		}
	} else {
		if err == nil {
			c.Fail("%s succeeds, should fail; document is %s", o, read(v))
		}
		if o.class {
			errClass(c, o.String(), r, err)
		}
		if o.kind != 'd' && (ret == nil || ret.ValueType() != jsonvalue.NotExist) {
			c.Fail("%s fails but returns %v", o, ret)
		}
	}
	if d := diff(w, v, "$"); d != "" {
		c.Fail("%s (error %v): %s\ndocument is %s\nshould be   %s", o, err, d, read(v), w)
	}
	return r
}

// replay performs the calls on the library only.
func replayOps(v *jsonvalue.V, ops []*mutOp) {
	for _, o := range ops {
		_, _, _ = o.real(v)
	}
}

func opsStr(ops []*mutOp) string {
	var s []string
	for _, o := range ops {
		s = append(s, o.String())
	}
	return strings.Join(s, "; ")
}

// pathsOver returns all paths of n elements over el.
func pathsOver(el []pel, n int) (out [][]pel) {
	if n == 0 {
		return [][]pel{nil}
	}
	for _, p := range pathsOver(el, n-1) {
		for _, e := range el {
			out = append(out, append(append([]pel{}, p...), e))
		}
	}
	return
}

func sortNodes[T any](s []T, less func(i, j int) bool) { sort.SliceStable(s, less) }

func errClass(c *C, what string, r mres, err error) {
	switch {
	case err == nil:
		c.Fail("%s succeeds, should fail", what)
	case r == mNotFound && !errors.Is(err, jsonvalue.ErrNotFound):
		c.Fail("%s: error %q, should be the not-found error", what, err)
	case r == mOutOfRange && !errors.Is(err, jsonvalue.ErrOutOfRange):
		c.Fail("%s: error %q, should be the out-of-range error", what, err)
	}
}
