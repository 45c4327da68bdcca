package main

import (
	"fmt"
	"sync"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

func init() { checks["C08"] = c08 }

// opAlphabet builds all calls over the given path elements: paths up to the given depth for each kind.
func opAlphabet(el []pel, depth int, children []int) (out []*mutOp) {
	for n := 0; n <= depth; n++ {
		for _, p := range pathsOver(el, n) {
			for _, ch := range children {
				if n > 0 {
					out = append(out, &mutOp{kind: 's', path: p, child: ch})
					if !p[n-1].str || n == 1 {
						out = append(out, &mutOp{kind: 'i', path: p, child: ch}, &mutOp{kind: 'j', path: p, child: ch})
					}
				}
				out = append(out, &mutOp{kind: 'b', path: p, child: ch}, &mutOp{kind: 'e', path: p, child: ch})
			}
			if n > 0 {
				out = append(out, &mutOp{kind: 'd', path: p})
			}
		}
	}
	for _, o := range out {
		o.pa = pathAny(o.path)
	}
	return
}

var c08Docs = []string{`{}`, `[]`, `{"a":1}`, `{"a":{},"b":[]}`, `[1,2,3]`, `[[1],{"a":2}]`, `{"a":[1,2],"b":{"a":[3]}}`, `7`, `{"a":null,"b":"x"}`, `[null,[[4]]]`,
	`[0,1,2,3,4,5,6,7]`}

func c08(r *Run) {
	r.Assume("reference document model in mutmodel.go (documented effect of each call); children are fresh values")
	docs := map[string]*Val{}
	for _, d := range append([]string{`[1,2]`}, c08Docs...) {
		w, _, err := refParse([]byte(d), false)
		if err != nil {
			panic(err)
		}
		docs[d] = w
	}
	start := func(d string, way int) *jsonvalue.V {
		if way == 0 {
			return jsonvalue.MustUnmarshalString(d)
		}
		return build(docs[d])
	}
	// all histories of n calls, nothing merged; the last call of each is verified completely
	full := func(name string, ops []*mutOp, n int, ds []string) {
		r.Par(name, fmt.Sprintf("all histories of %d calls from %d different calls, %d starting documents built 2 ways", n, len(ops), len(ds)), len(ops)*len(ds), func(c *C, sh int) {
			d := ds[sh%len(ds)]
			hist := make([]*mutOp, 0, n)
			var rec func(w *Val)
			rec = func(w *Val) {
				if len(hist) == n || c.Expired() {
					return
				}
				for _, o := range ops {
					if len(hist) == 0 && o != ops[sh/len(ds)] {
						continue
					}
					nw := w.clone()
					nw0 := nw
					hist = append(hist, o)
					c.Step(1)
					if len(hist) == n || len(hist) > 1 || n == 1 {
						for way := 0; way < 2; way++ {
							if way == 1 && len(hist) == n && n > 2 {
								continue
							}
							nw = w.clone()
							nw0 = nw
							c.Do(func() string { return fmt.Sprintf("%s (construction %d): %s", d, way, opsStr(hist)) }, func() {
								v := start(d, way)
								replayOps(v, hist[:len(hist)-1])
								o.verify(c, v, nw)
							})
						}
					} else {
						o.model(nw)
					}
					s := nw0.String()
					h := hashStr(s)
					c.State(h)
					if len(hist) < n {
						rec(nw0)
					}
					hist = hist[:len(hist)-1]
				}
			}
			rec(docs[d].clone())
		})
	}
	el1 := []pel{pk("a"), pk("b"), pi(0), pi(1), pi(-1), pi(2), pi(-3), pi(3), pi(-4), pi(8), pi(-9), pi(7)}
	full("single calls", opAlphabet(el1, 2, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}), 1, c08Docs)
	el0 := []pel{pk("a"), pk("b"), pi(0), pi(1), pi(-1), pi(2)}
	full("single calls, long paths", opAlphabet(el0, 4, []int{0, 7}), 1, c08Docs)
	full("pairs of calls", opAlphabet(el0, 2, []int{0, 3, 4}), 2, c08Docs[:7])
	elS := []pel{pk("a"), pi(0), pi(1), pi(-1)}
	full("triples of calls", opAlphabet(elS, r.Pick(1, 2), []int{0, 3}), 3, []string{`{}`, `[]`, `{"a":[1,2],"b":{"a":[3]}}`, `[[1],{"a":2}]`})
	full("four calls", opAlphabet(elS, 1, []int{0, 2}), 4, []string{`{}`, `[1,2]`, `[]`}[:r.Pick(2, 3)])
	handleFamily(r)
	voidFamily(r, opAlphabet([]pel{pk("a"), pk(""), pi(0), pi(-1)}, 2, []int{0, 2, 4, 5, 7}))
	// breadth-first search with merging of equal documents
	bfs := func(name string, ops []*mutOp, depth, maxNodes int, d string) {
		type node struct {
			w    *Val
			hist []*mutOp
		}
		var seen sync.Map
		level := []node{{docs[d].clone(), nil}}
		seen.Store(docs[d].String(), true)
		for k := 1; k <= depth && len(level) > 0; k++ {
			var mu sync.Mutex
			var next []node
			r.Par(fmt.Sprintf("%s depth %d", name, k), fmt.Sprintf("%d reachable documents of up to %d nodes x %d calls, start %s", len(level), maxNodes, len(ops), d), len(level), func(c *C, sh int) {
				n := level[sh]
				c.State(hashStr(n.w.String()))
				for _, o := range ops {
					nw := n.w.clone()
					var res mres
					ok := false
					c.Step(1)
					c.Do(func() string { return fmt.Sprintf("%s: %s; %s", d, opsStr(n.hist), o) }, func() {
						v := jsonvalue.MustUnmarshalString(d)
						replayOps(v, n.hist)
						res = o.verify(c, v, nw)
						ok = true
					})
					if !ok {
						if res, _ = o.model(nw); res != mOK {
							continue
						}
					}
					if res != mOK || k == depth || nw.nodes() > maxNodes {
						continue
					}
					if _, dup := seen.LoadOrStore(nw.String(), true); !dup {
						h := append(append([]*mutOp{}, n.hist...), o)
						mu.Lock()
						next = append(next, node{nw, h})
						mu.Unlock()
					}
				}
			})
			sortNodes(next, func(i, j int) bool { return next[i].w.String() < next[j].w.String() })
			level = next
			if r.expired.Load() {
				return
			}
		}
	}
	opsB := opAlphabet([]pel{pk("a"), pk("b"), pi(0), pi(-1), pi(1)}, 2, []int{0, 3})
	bfs("search from {}", opsB, r.Pick(4, 6), 7, `{}`)
	bfs("search from []", opsB, r.Pick(4, 6), 7, `[]`)
	bfs("arrays only", opAlphabet([]pel{pi(0), pi(1), pi(-1), pi(2), pi(-2), pi(3)}, 1, []int{0, 5}), r.Pick(6, 8), 8, `[]`)
}
