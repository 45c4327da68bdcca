package main

import (
	"runtime"
	"sync/atomic"
	"syscall"
)

// Ownership of map iteration order: in a build with tag zzvmaps every range over a map inside the library asks
// mapOrder for the permutation of the sorted keys. Orders enumerates all answers.

var mapsOwned bool

type orderCtl struct {
	choices []int // answers given so far in this execution
	sizes   []int // number of alternatives of each
	prefix  []int
	off     bool
	perms   func(n int) [][]int
}

type orderSlot struct {
	tid atomic.Int64
	ctl atomic.Pointer[orderCtl]
	_   [48]byte
}

var orderSlots [256]orderSlot

func gettid() int64 {
	t, _, _ := syscall.RawSyscall(syscall.SYS_GETTID, 0, 0, 0)
	return int64(t)
}

var orderUsers atomic.Int32

func mapOrder(n int) []int {
	if orderUsers.Load() == 0 {
		return nil
	}
	t := gettid()
	for i := range orderSlots {
		s := &orderSlots[i]
		x := s.tid.Load()
		if x == 0 {
			return nil
		}
		if x == t {
			if c := s.ctl.Load(); c != nil && !c.off {
				return c.choose(n)
			}
			return nil
		}
	}
	return nil
}

func (c *orderCtl) choose(n int) []int {
	ps := c.perms(n)
	i := 0
	if k := len(c.choices); k < len(c.prefix) {
		i = c.prefix[k]
	}
	c.choices = append(c.choices, i)
	c.sizes = append(c.sizes, len(ps))
	return ps[i%len(ps)]
}

var permCache [64][][]int

func init() {
	for n := range permCache {
		permCache[n] = makePerms(n)
	}
}

// perms gives all permutations of up to 4 keys; for larger maps ascending, descending, odd-even, rotated and swapped orders.
func perms(n int) [][]int {
	if n < len(permCache) {
		return permCache[n]
	}
	return makePerms(n)
}

func makePerms(n int) [][]int {
	id := make([]int, n)
	for i := range id {
		id[i] = i
	}
	if n <= 4 {
		return allPerms(n)
	}
	rev, odd, rot, zig := make([]int, n), make([]int, 0, n), make([]int, n), make([]int, 0, n)
	for i := range id {
		rev[i] = n - 1 - i
		rot[i] = (i + n/2) % n
		if i%2 == 1 {
			odd = append(odd, i)
		}
	}
	for i := 0; i < n; i += 2 {
		odd = append(odd, i)
	}
	for i, j := 0, n-1; i <= j; i, j = i+1, j-1 {
		zig = append(zig, i)
		if i != j {
			zig = append(zig, j)
		}
	}
	return [][]int{id, rev, odd, rot, zig}
}

func allPerms(n int) (out [][]int) {
	if n == 0 {
		return [][]int{{}}
	}
	for _, p := range allPerms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return
}

// Orders runs body once for every combination of answers to the map-order questions the library asks, up to limit
// executions. It returns the number of executions and whether all combinations were covered.
func (c *C) Orders(limit int, body func()) (int, bool) { return c.OrdersOf(perms, limit, body) }

func (c *C) OrdersOf(perms func(n int) [][]int, limit int, body func()) (int, bool) {
	if !mapsOwned {
		body()
		return 1, false
	}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	ctl := &orderCtl{perms: perms}
	s := claimSlot()
	orderUsers.Add(1)
	defer func() { s.ctl.Store(nil); s.tid.Store(-1); orderUsers.Add(-1) }()
	n := 0
	for {
		ctl.choices, ctl.sizes = ctl.choices[:0], ctl.sizes[:0]
		s.ctl.Store(ctl)
		body()
		n++
		c.trans += int64(len(ctl.choices)) + 1
		c.traces++
		i := len(ctl.choices) - 1
		for i >= 0 && ctl.choices[i]+1 >= ctl.sizes[i] {
			i--
		}
		if i < 0 {
			return n, true
		}
		if n >= limit {
			c.r.capped.Add(1)
			return n, false
		}
		ctl.prefix = append(append([]int{}, ctl.choices[:i]...), ctl.choices[i]+1)
	}
}

func claimSlot() *orderSlot {
	t := gettid()
	for i := range orderSlots {
		s := &orderSlots[i]
		if s.tid.CompareAndSwap(0, t) || s.tid.CompareAndSwap(-1, t) {
			return s
		}
	}
	panic("mc: internal error: no order slot")
}
