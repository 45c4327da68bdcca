package main

import (
	"fmt"
	"os"
	"strings"
	"sync/atomic"
	"time"
)

func init() { checks["C17"] = c17; checks["C18"] = c18 }

type schedStats struct {
	execs, points, stalls, diverged, capped atomic.Int64
	families                                int // still to come
}

func (s *schedStats) note(r *Run, suffix string) {
	r.Note("schedules"+suffix, s.execs.Load())
	r.Note("scheduling points passed"+suffix, s.points.Load())
	r.Note("hand-overs forced by a blocked goroutine"+suffix, s.stalls.Load())
	r.Note("choices that could not be repeated"+suffix, s.diverged.Load())
	r.Note("programs cut off"+suffix, s.capped.Load())
}

func schedBin(kind string) string {
	return os.Getenv("MC_BUILD") + "/sched." + kind
}

// programs explores a list of programs, one process each.
func (r *Run) programs(check, fam, bound, kind string, preempt, visits int, limit int64, specs []string, name func(spec string) string, st *schedStats) {
	// the thorough tier gives each family its share of the time that is left, each program four times its share of that
	left := time.Until(r.deadline)
	if r.thorough && st.families > 1 {
		left /= time.Duration(st.families)
	}
	st.families--
	end := time.Now().Add(left)
	each := 4 * left * time.Duration(r.workers) / time.Duration(max(len(specs), 1))
	var cut atomic.Int64
	r.Par(fam, fmt.Sprintf("%d programs, %s%s", len(specs), bound, map[bool]string{true: fmt.Sprintf(" (the first %d visits of each statement by each goroutine)", visits)}[visits > 0]), len(specs), func(c *C, sh int) {
		c.Do(func() string { return name(specs[sh]) }, func() {
			until := time.Now().Add(max(each, time.Second))
			if r.only != nil || !r.thorough {
				until = r.deadline
			} else if until.After(end) {
				until = end
			}
			out := c.explore(check, schedBin(kind), specs[sh], preempt, visits, limit, until)
			st.execs.Add(out.Execs)
			st.points.Add(out.Points)
			st.stalls.Add(out.Stalls)
			st.diverged.Add(out.Diverged)
			if out.Capped {
				st.capped.Add(1)
				cut.Add(1)
			}
			c.State(hashStr(specs[sh] + fmt.Sprint(out.Execs)))
		})
	})
	if f := r.fams[len(r.fams)-1]; f.Name == fam && cut.Load() > 0 {
		f.Done = false
		f.Bound += fmt.Sprintf("; %d programs cut off by the time limit", cut.Load())
	}
}

func c17(r *Run) {
	ops := readOps()
	instrumented := os.Getenv("MC_SCHED") == "points"
	r.Note("scheduling points", map[bool]string{true: "before every statement of the library and after every atomic operation", false: "none: the sources could not be instrumented; only the ends of operations"}[instrumented])
	r.Assume("caseless access to a shared value is not a read: it builds an index in the value")
	name := func(spec string) string {
		var s []string
		for _, t := range parseThreads(spec) {
			var l []string
			for _, i := range t {
				l = append(l, ops[i].name)
			}
			s = append(s, strings.Join(l, "; "))
		}
		return strings.Join(s, "  ||  ")
	}
	visits := r.Pick(2, 0)
	st := schedStats{families: 9}
	var plain, spawn, twice, three, wide, self []string
	for i := range ops {
		for j := i; j < len(ops); j++ {
			s := fmt.Sprintf("%d|%d", i, j)
			if ops[i].wide || ops[j].wide {
				wide = append(wide, s)
				if i == j && !ops[i].spawns {
					self = append(self, s)
				}
			} else if ops[i].spawns || ops[j].spawns {
				spawn = append(spawn, s)
			} else {
				plain = append(plain, s)
			}
		}
	}
	idx := func(names ...string) (out []int) {
		for _, n := range names {
			for i := range ops {
				if ops[i].name == n {
					out = append(out, i)
				}
			}
		}
		return
	}
	core := idx("Marshal ", "Marshal KeySequence", "Marshal Opt", "parse", "build", "Import", "Equal", "Get", "RangeObjectsBySetSequence", "Export")
	for _, i := range core {
		for _, j := range core {
			if i <= j {
				for _, k := range core {
					if j <= k {
						three = append(three, fmt.Sprintf("%d|%d|%d", i, j, k))
					}
				}
			}
			for _, k := range core {
				twice = append(twice, fmt.Sprintf("%d %d|%d", i, k, j))
			}
		}
	}
	r.programs("C17", "pairs", "every pair of operations, one preemption at every point, race detector", "race", 1, visits, 0, plain, name, &st)
	r.programs("C17", "pairs with channel iterators", "every pair, both orders, race detector", "race", 0, visits, 0, spawn, name, &st)
	r.programs("C17", "wide pairs", "20 operations that pass through all of the API, each with every operation, both orders, race detector", "race", 0, 1, 0, wide, name, &st)
	r.programs("C17", "wide operations against themselves", "one preemption at every point", r.pickS("plain", "race"), 1, r.Pick(1, 2), 0, self, name, &st)
	r.programs("C17", "three goroutines", "all triples of 10 core operations, all orders without preemption, race detector", "race", 0, visits, 0, three, name, &st)
	if r.thorough {
		r.programs("C17", "three goroutines, preempted", "all triples of 10 core operations, one preemption, race detector", "race", 1, visits, 0, three, name, &st)
		r.programs("C17", "two operations each side", "all pairs of core operations against each, one preemption, race detector", "race", 1, visits, 0, twice, name, &st)
		r.programs("C17", "pairs, two preemptions", "every pair, two preemptions at every pair of points", "plain", 2, 1, 0, plain, name, &st)
	}
	{
		var small []string
		for _, i := range core {
			for _, j := range core {
				if i <= j {
					small = append(small, fmt.Sprintf("%d|%d", i, j))
				}
			}
		}
		r.programs("C17", "core pairs, two preemptions", "pairs of 10 core operations, two preemptions at every pair of points", "plain", 2, 1, 0, small, name, &st)
	}
	st.note(r, "")
}

func c18(r *Run) {
	defaultsFromInside(r)
	ops := optOps()
	name := func(spec string) string {
		var s []string
		for _, t := range parseThreads(spec) {
			var l []string
			for _, i := range t {
				l = append(l, ops[i].name)
			}
			s = append(s, strings.Join(l, "; "))
		}
		return strings.Join(s, "  ||  ")
	}
	visits := r.Pick(2, 0)
	st := schedStats{families: 7}
	var sets, marsh, one []int
	for i := range ops {
		if ops[i].set >= 0 {
			sets = append(sets, i)
		} else {
			marsh = append(marsh, i)
		}
		one = append(one, i)
	}
	m := marsh[0]
	var pairs, two, three []string
	for _, i := range one {
		for _, j := range one {
			if i <= j {
				pairs = append(pairs, fmt.Sprintf("%d|%d", i, j))
			}
		}
	}
	// every two changes by one goroutine against one or two marshals, and against another change
	for _, a := range sets {
		for _, b := range sets {
			for _, x := range marsh {
				two = append(two, fmt.Sprintf("%d %d|%d", a, b, x))
			}
			two = append(two, fmt.Sprintf("%d %d|%d %d", a, b, m, m), fmt.Sprintf("%d %d|%d %d", a, m, b, m), fmt.Sprintf("%d|%d %d", a, b, m))
			for _, c := range sets {
				two = append(two, fmt.Sprintf("%d %d|%d", a, b, c))
				if a <= b {
					three = append(three, fmt.Sprintf("%d|%d|%d", a, b, c))
				}
			}
			if a <= b {
				for _, x := range marsh {
					three = append(three, fmt.Sprintf("%d|%d|%d", a, b, x))
				}
				three = append(three, fmt.Sprintf("%d|%d|%d %d", a, b, m, m))
			}
		}
		for _, x := range marsh {
			for _, y := range marsh {
				if x <= y {
					three = append(three, fmt.Sprintf("%d|%d|%d", a, x, y))
				}
			}
		}
	}
	r.programs("C18", "pairs", "every pair of calls, one preemption at every point, race detector", "race", 1, visits, 0, pairs, name, &st)
	r.programs("C18", "sequences against sequences", "two changes, change and marshal, two marshals, one preemption at every point, race detector", "race", 1, visits, 0, two, name, &st)
	r.programs("C18", "three goroutines", "changes and marshals, one preemption at every point, race detector", "race", 1, visits, 0, three, name, &st)
	r.programs("C18", "pairs, two preemptions", "every pair of calls, two preemptions", "plain", 2, r.Pick(1, 2), 0, pairs, name, &st)
	if r.thorough {
		r.programs("C18", "sequences, two preemptions", "two preemptions at every pair of points", "plain", 2, 2, 0, two, name, &st)
		r.programs("C18", "pairs, three preemptions", "every pair of calls, three preemptions", "plain", 3, 2, 3000000, pairs, name, &st)
		r.programs("C18", "three goroutines, two preemptions", "two preemptions at every pair of points", "plain", 2, 2, 2000000, three, name, &st)
	}
	st.note(r, "")
}
