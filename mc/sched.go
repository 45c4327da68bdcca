//go:build zzvsched

package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"sync"
	"time"
	"unsafe"
)

// The schedule explorer. Each program is a few threads, each a list of operations on the library. Exactly one thread
// runs at a time: before every statement of the library (points put there by the instrumented copy of the sources) the
// running thread may hand over to another. All hand-overs up to a preemption bound are enumerated depth first. The
// hand-over itself is a plain variable in functions the race detector does not see, so in a -race build the detector
// knows only the synchronization of the library itself, and judges every schedule by it.

//go:linkname getLabel runtime/pprof.runtime_getProfLabel
func getLabel() unsafe.Pointer

const (
	maxThreads = 4
	maxChoices = 1 << 17
	maxIDs     = 8192
)

type scheduler struct {
	on      bool
	n       int
	turn    int
	label   [maxThreads]unsafe.Pointer
	done    [maxThreads]bool
	blocked [maxThreads]bool
	points  int64
	tpoints [maxThreads]int64
	stalls  int64
	preempt int

	maxVisits uint16 // how many visits of one statement by one thread are preemption points, 0: all
	visits    [maxThreads][maxIDs]uint16

	clock int64

	choice, nopt [maxChoices]uint8
	ci, prefix   int
	diverged     int64
}

var sc scheduler

//go:norace
func schedReset(n, bound, prefix int) {
	sc.on, sc.n, sc.turn, sc.preempt, sc.ci, sc.prefix, sc.clock = false, n, -1, bound, 0, prefix, 0
	for i := 0; i < maxThreads; i++ {
		sc.visits[i] = [maxIDs]uint16{}
		sc.label[i], sc.done[i], sc.blocked[i] = nil, false, false
	}
}

//go:norace
func schedChoose(n int) int {
	i := sc.ci
	if i >= maxChoices {
		return 0
	}
	sc.ci++
	k := 0
	if i < sc.prefix {
		k = int(sc.choice[i])
		if k >= n || (i+1 < sc.prefix && int(sc.nopt[i]) != n) {
			sc.diverged++
			if k >= n {
				k = 0
			}
		}
	}
	sc.choice[i], sc.nopt[i] = uint8(k), uint8(n)
	return k
}

//go:norace
func schedPoint(id int) {
	if !sc.on {
		return
	}
	l := getLabel()
	if l == nil {
		return
	}
	me := -1
	for i := 0; i < sc.n; i++ {
		if sc.label[i] == l {
			me = i
		}
	}
	if me < 0 {
		return
	}
	if sc.turn != me { // it was blocked when others went on
		sc.blocked[me] = false
		schedWait(me)
		return
	}
	sc.points++
	sc.tpoints[me]++
	if sc.preempt == 0 {
		return
	}
	if sc.maxVisits > 0 {
		if x := &sc.visits[me][id%maxIDs]; *x >= sc.maxVisits {
			return
		} else {
			*x++
		}
	}
	n := 1
	for i := 0; i < sc.n; i++ {
		if i != me && !sc.done[i] && !sc.blocked[i] {
			n++
		}
	}
	if n == 1 {
		return
	}
	k := schedChoose(n)
	if k == 0 {
		return
	}
	sc.preempt--
	for i := 0; i < sc.n; i++ {
		if i != me && !sc.done[i] && !sc.blocked[i] {
			if k--; k == 0 {
				sc.turn = i
				break
			}
		}
	}
	schedWait(me)
}

//go:norace
func schedWait(me int) {
	spins, last := 0, sc.points
	for sc.turn != me {
		runtime.Gosched()
		spins++
		if spins > 400 {
			if sc.turn >= 0 && sc.points == last { // whoever has the turn waits for something else
				sc.blocked[sc.turn] = true
				sc.turn = me
				sc.stalls++
				return
			}
			spins, last = 0, sc.points
		}
	}
}

//go:norace
func schedBegin(me int) {
	sc.label[me] = getLabel()
	for sc.turn != me {
		if sc.turn < 0 { // not everyone is here
			runtime.Gosched()
			continue
		}
		schedWait(me)
	}
}

//go:norace
func schedReady() bool {
	for i := 0; i < sc.n; i++ {
		if sc.label[i] == nil {
			return false
		}
	}
	sc.on = true
	sc.turn = schedChoose(sc.n)
	return true
}

//go:norace
func schedEnd(me int) {
	sc.done[me] = true
	if sc.turn != me {
		return
	}
	n := 0
	for i := 0; i < sc.n; i++ {
		if !sc.done[i] {
			n++
		}
	}
	if n == 0 {
		return
	}
	k := 0
	if n > 1 {
		k = schedChoose(n)
	}
	for i := 0; i < sc.n; i++ {
		if !sc.done[i] {
			if k == 0 {
				sc.turn = i
				return
			}
			k--
		}
	}
}

// stamp is the number of the next event of the execution.
//
//go:norace
func schedStamp() int64 { sc.clock++; return sc.clock }

//go:norace
func schedOff() { sc.on = false }

//go:norace
func schedNext() bool {
	i := sc.ci - 1
	for i >= 0 && int(sc.choice[i])+1 >= int(sc.nopt[i]) {
		i--
	}
	if i < 0 {
		return false
	}
	sc.choice[i]++
	sc.prefix = i + 1
	return true
}

// schedule renders the choices that were not "go on".
//
//go:norace
func schedText() (s []int) {
	for i := 0; i < sc.ci; i++ {
		if sc.choice[i] != 0 {
			s = append(s, i, int(sc.choice[i]))
		}
	}
	return
}

type schedOut struct {
	Execs, Points, Choices, Stalls, Diverged int64
	MaxPoints                                int64
	Detail                                   string
	Capped                                   bool
}

// schedMain explores one program: mc sched CHECK PROGRAM BOUND LIMIT VISITS
func schedMain(args []string) {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	spec := args[1]
	bound, _ := strconv.Atoi(args[2])
	limit, _ := strconv.ParseInt(args[3], 10, 64)
	visits, _ := strconv.Atoi(args[4])
	sc.maxVisits = uint16(visits)
	until, _ := strconv.ParseInt(args[5], 10, 64)
	var out schedOut
	p := schedPrograms[args[0]](spec)
	n := len(p.threads)
	var ctxs []context.Context
	for i := 0; i < n; i++ {
		ctxs = append(ctxs, pprof.WithLabels(context.Background(), pprof.Labels("thread", strconv.Itoa(i))))
	}
	if schedSetPoint != nil {
		schedSetPoint(schedPoint)
	}
	prefix := 0
	errs0 := raceErrors()
	for {
		schedReset(n, bound, prefix)
		x := p.start()
		before := sc.points
		var wg sync.WaitGroup
		wg.Add(n)
		for i := 0; i < n; i++ {
			go func() {
				defer wg.Done()
				pprof.SetGoroutineLabels(ctxs[i])
				schedBegin(i)
				x.run(i)
				schedEnd(i)
			}()
		}
		for !schedReady() {
			runtime.Gosched()
		}
		wg.Wait()
		schedOff()
		x.settle()
		if out.Execs == 0 { // the first execution found the library as its initialization left it
			p.warm()
		}
		out.Execs++
		out.MaxPoints = max(out.MaxPoints, sc.points-before)
		out.Choices += int64(sc.ci)
		if d := x.judge(); d != "" {
			out.Detail = fmt.Sprintf("%s\nschedule: at choice, option: %v of %d choices", d, schedText(), sc.ci)
			break
		}
		if raceErrors() > errs0 {
			out.Detail = fmt.Sprintf("data race\nschedule: at choice, option: %v of %d choices", schedText(), sc.ci)
			break
		}
		if !schedNext() {
			break
		}
		prefix = sc.prefix
		if limit > 0 && out.Execs >= limit {
			out.Capped = true
			break
		}
		if out.Execs%256 == 0 {
			runtime.GC()
			if time.Now().Unix() >= until {
				out.Capped = true
				break
			}
		}
	}
	out.Points, out.Stalls, out.Diverged = sc.points, sc.stalls, sc.diverged
	b, _ := json.Marshal(out)
	_, _ = os.Stdout.Write(append(b, '\n'))
}

func init() { schedEntry, stampFn = schedMain, schedStamp }
