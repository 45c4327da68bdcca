package main

import (
	"fmt"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

// Go data that contains itself, which encoding/json refuses, and data that is only deep or shared, which it does not.

type cycStruct struct {
	V    int        `json:"v"`
	Next any        `json:"next,omitempty"`
	Ptr  *cycStruct `json:"ptr,omitempty"`
}

type cycSlice []cycSlice

type cycMap map[string]cycMap

type cycIntMap map[int]any

// cycNodes make a node and tell how to put the next one below it.
var cycNodes = []struct {
	name string
	mk   func(i int) (node any, link func(next any))
}{
	{"*struct", func(i int) (any, func(any)) { s := &cycStruct{V: i}; return s, func(x any) { s.Next = x } }},
	{"map", func(i int) (any, func(any)) {
		m := map[string]any{"v": i}
		return m, func(x any) { m["next"] = x }
	}},
	{"slice", func(i int) (any, func(any)) { s := []any{i, nil}; return s, func(x any) { s[1] = x } }},
	{"*any", func(i int) (any, func(any)) { var p any = i; return &p, func(x any) { p = x } }},
	{"*[1]any", func(i int) (any, func(any)) { a := [1]any{i}; return &a, func(x any) { a[0] = x } }},
	{"map[int]any", func(i int) (any, func(any)) { m := cycIntMap{1: i}; return m, func(x any) { m[0] = x } }},
	{"struct in any", func(i int) (any, func(any)) {
		p := &cycStruct{V: i}
		return struct{ In any }{p}, func(x any) { p.Next = x }
	}},
	{"slice of the same slice", func(i int) (any, func(any)) {
		s := make([]any, 3)
		s[2] = i
		return s[:2:2], func(x any) { s[0], s[1] = x, 7 }
	}},
}

// refused tells whether data that contains itself is refused. encoding/json of Go 1.27 itself dies of some of it.
func refused(c *C, x any) {
	c.Step(1)
	v, err := jsonvalue.Import(x)
	if err == nil {
		c.Fail("the import of data that contains itself gives no error")
	}
	if v == nil || v.ValueType() != jsonvalue.NotExist {
		c.Fail("the failed import gives %v", v)
	}
	v = jsonvalue.New(x)
	if v == nil || v.ValueType() != jsonvalue.NotExist {
		c.Fail("New of data that contains itself gives %v", v)
	}
}

func c13Cycles(r *Run) {
	k := len(cycNodes)
	depth := r.Pick(3, 4)
	r.Par("data that contains itself", fmt.Sprintf("all chains of 1..%d nodes of %d kinds whose last node leads to nothing, to a scalar or to any of them", depth, k), k*k, func(c *C, sh int) {
		var rec func(idx []int)
		rec = func(idx []int) {
			for back := -2; back < len(idx); back++ {
				c.Do(func() string {
					s := ""
					for _, i := range idx {
						s += cycNodes[i].name + " -> "
					}
					return s + []string{"scalar", "nothing", "node 0", "node 1", "node 2", "node 3"}[back+2]
				}, func() {
					nodes := make([]any, len(idx))
					links := make([]func(any), len(idx))
					for i, n := range idx {
						nodes[i], links[i] = cycNodes[n].mk(i)
					}
					for i := 0; i+1 < len(idx); i++ {
						links[i](nodes[i+1])
					}
					switch back {
					case -2:
						links[len(idx)-1]("end")
					case -1:
					default:
						links[len(idx)-1](nodes[back])
					}
					if back >= 0 {
						refused(c, nodes[0])
						return
					}
					importCheck(c, nodes[0])
				})
			}
			if len(idx) == depth {
				return
			}
			for i := range cycNodes {
				if len(idx) == 1 && i != sh%k {
					continue
				}
				rec(append(append([]int{}, idx...), i))
			}
		}
		rec([]int{sh / k})
	})
	r.Seq("typed cycles", "pointers, slices and maps of types that name themselves, closed after 1..5 of them", func(c *C) {
		for n := 1; n <= 5; n++ {
			c.Do(func() string { return fmt.Sprintf("%d typed pointers in a ring", n) }, func() {
				ring := make([]*cycStruct, n)
				for i := range ring {
					ring[i] = &cycStruct{V: i}
				}
				for i := range ring {
					ring[i].Ptr = ring[(i+1)%n]
				}
				refused(c, ring[0])
				refused(c, *ring[0])
				refused(c, map[string]any{"a": 1, "r": ring})
			})
			c.Do(func() string { return fmt.Sprintf("%d slices of slices in a ring", n) }, func() {
				ring := make([]cycSlice, n)
				for i := range ring {
					ring[i] = make(cycSlice, 2)
				}
				for i := range ring {
					ring[i][0] = cycSlice{}
					ring[i][1] = ring[(i+1)%n]
				}
				refused(c, ring[0])
			})
			c.Do(func() string { return fmt.Sprintf("%d maps of maps in a ring", n) }, func() {
				ring := make([]cycMap, n)
				for i := range ring {
					ring[i] = cycMap{}
				}
				for i := range ring {
					ring[i]["x"] = cycMap{}
					ring[i]["y"] = ring[(i+1)%n]
				}
				refused(c, ring[0])
			})
			c.Do(func() string { return fmt.Sprintf("%d pointers to interfaces in a ring", n) }, func() {
				ring := make([]any, n)
				for i := range ring {
					ring[i] = &ring[(i+1)%n]
				}
				refused(c, ring[0])
				refused(c, ring)
			})
		}
	})
	lens := sizes(r.Pick(20, 60), r.Pick(11, 13))
	lens = append(lens, 998, 999, 1000, 1001, 1002, 1003)
	r.Par("deep and shared data", fmt.Sprintf("chains of %d lengths to %d of each of %d kinds of nodes, with one node met many times at the bottom and beside each node", len(lens), lens[len(lens)-7], k), len(lens), func(c *C, sh int) {
		n := lens[sh]
		if n == 0 {
			return
		}
		for ki, kind := range cycNodes {
			for shared := 0; shared < 3; shared++ {
				c.Do(func() string { return fmt.Sprintf("%d %s, shared %d", n, kind.name, shared) }, func() {
					leaf := &cycStruct{V: -1}
					lm := map[string]any{"l": leaf}
					var bottom any = []any{leaf, leaf, lm, lm, []any{lm, leaf}}
					x := bottom
					for i := 0; i < n; i++ {
						node, link := kind.mk(i)
						if shared == 1 && i%3 == 0 {
							x = []any{leaf, x, leaf, lm}
						}
						if shared == 2 && i%3 == 0 {
							x = &cycStruct{V: i, Next: x, Ptr: leaf}
						}
						link(x)
						x = node
						if ki == 3 && shared == 0 && n > 1024 {
							break
						}
					}
					importCheck(c, x)
				})
			}
		}
	})
	r.Seq("diamonds", "towers of 1..12 levels whose every level is met twice", func(c *C) {
		for n := 1; n <= 12; n++ {
			for ki := range cycNodes {
				c.Do(func() string { return fmt.Sprintf("%d levels of %s", n, cycNodes[ki].name) }, func() {
					var x any = "leaf"
					for i := 0; i < n; i++ {
						node, link := cycNodes[ki].mk(i)
						link([]any{x, x})
						x = node
					}
					importCheck(c, x)
				})
			}
		}
	})
}
