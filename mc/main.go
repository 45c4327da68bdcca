// Command mc is the model checker for go.jsonvalue: it enumerates bounded spaces of inputs, operation
// histories, environment answers and schedules, executes every one of them on the real library and
// compares with reference models. See /verif/DESIGN.md.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// checks maps a property id to its check; filled by the init functions of cNN.go.
var checks = map[string]func(r *Run){}

// ---- run ----

type Run struct {
	id       string
	thorough bool
	start    time.Time
	deadline time.Time
	expired  atomic.Bool
	workers  int

	mu      sync.Mutex
	fams    []*Fam
	states  stateSet
	trans   atomic.Int64
	traces  atomic.Int64
	capped  atomic.Int64 // order enumerations stopped by their limit
	outs    stateSet     // distinct observed outcomes
	samples []string
	fails   []failure
	known   map[string]*knownHit
	assume  []string
	notes   map[string]any

	only  *caseID // replay mode
	slots []byte  // shared with the supervisor: the case each worker is executing
	slotN atomic.Int32
}

type caseID struct {
	Fam    string `json:"family"`
	Shard  int    `json:"shard"`
	Serial int64  `json:"serial"`
}

type failure struct {
	ID     caseID `json:"case"`
	Desc   string `json:"input"`
	Detail string `json:"detail"`
}

type knownHit struct {
	count int64
	what  string
}

// Fam is one enumerated family with its own counts.
type Fam struct {
	Name   string `json:"family"`
	Bound  string `json:"bound"`
	Cases  int64  `json:"executions"`
	Done   bool   `json:"complete"`
	Ms     int64  `json:"ms"`
	nodes  atomic.Int64
	cases  atomic.Int64
	hangMs int64
}

// C is the context of one worker working on one shard of a family.
type C struct {
	r      *Run
	fam    *Fam
	shard  int
	n      int64
	slot   []byte
	trans  int64
	traces int64
	outs   int
	desc   func() string
	failed bool
	kept   map[*jsonvalue.V]jsonvalue.Caseless // C10: handles made once
}

type abort struct{}

const slotSize = 64

func (r *Run) newSlot() []byte {
	i := int(r.slotN.Add(1)-1) % (len(r.slots) / slotSize)
	return r.slots[i*slotSize : (i+1)*slotSize]
}

// Par runs f for every shard in parallel.
func (r *Run) Par(name, bound string, shards int, f func(c *C, shard int)) {
	if r.only != nil && r.only.Fam != name {
		return
	}
	if len(r.fails) > 0 && maxFails <= 8 {
		return // report the first family that fails; later ones may depend on it
	}
	fam := &Fam{Name: name, Bound: bound}
	r.mu.Lock()
	r.fams = append(r.fams, fam)
	r.mu.Unlock()
	t0 := time.Now()
	var next atomic.Int64
	var wg sync.WaitGroup
	w := r.workers
	if w > shards {
		w = shards
	}
	for i := 0; i < w; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			slot := r.newSlot()
			for {
				sh := int(next.Add(1) - 1)
				if sh >= shards || r.expired.Load() {
					binary.LittleEndian.PutUint64(slot, 0)
					return
				}
				if r.only != nil && r.only.Shard != sh {
					continue
				}
				c := &C{r: r, fam: fam, shard: sh, slot: slot}
				copy(slot[24:], name+"\x00")
				f(c, sh)
				r.trans.Add(c.trans)
				r.traces.Add(c.traces)
				fam.cases.Add(c.n)
			}
		}()
	}
	wg.Wait()
	fam.Done = !r.expired.Load()
	fam.Ms = time.Since(t0).Milliseconds()
	fam.Cases = fam.cases.Load()
}

// Seq is Par with one shard.
func (r *Run) Seq(name, bound string, f func(c *C)) {
	r.Par(name, bound, 1, func(c *C, _ int) { f(c) })
}

// Do executes one case: body runs the library and compares with the model. desc renders the case.
func (c *C) Do(desc func() string, body func()) {
	c.n++
	if o := c.r.only; o != nil {
		if o.Serial != c.n {
			return
		}
	} else if c.n&63 == 0 && (time.Now().After(c.r.deadline)) {
		c.r.expired.Store(true)
	}
	if c.r.expired.Load() {
		return
	}
	binary.LittleEndian.PutUint64(c.slot[8:], uint64(c.shard))
	binary.LittleEndian.PutUint64(c.slot, uint64(c.n))
	c.desc = desc
	c.traces++
	c.failed = false
	c.guard(body)
	if c.n == 3 || (c.n < 5000000 && c.n&(c.n-1) == 0 && c.n > 1000) {
		c.r.sample(c.fam.Name + ": " + clip(desc(), 300))
	}
}

func (c *C) guard(body func()) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(abort); ok {
				return
			}
			c.record(fmt.Sprintf("panic: %v\n%s", e, trimStack(debug.Stack())))
		}
	}()
	body()
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "jsonvalue") || strings.Contains(l, "/mc/") {
			out = append(out, l)
		}
		if len(out) > 14 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (c *C) record(detail string) {
	c.failed = true
	f := failure{ID: caseID{c.fam.Name, c.shard, c.n}, Desc: clip(c.desc(), 4000), Detail: clip(detail, 4000)}
	c.r.mu.Lock()
	defer c.r.mu.Unlock()
	c.r.fails = append(c.r.fails, f)
	if len(c.r.fails) >= maxFails {
		c.r.expired.Store(true)
	}
}

// Fail records a violation for the current case and abandons it.
func (c *C) Fail(format string, a ...any) {
	c.record(fmt.Sprintf(format, a...))
	panic(abort{})
}

// Check fails the case unless ok.
func (c *C) Check(ok bool, format string, a ...any) {
	if !ok {
		c.Fail(format, a...)
	}
}

// Known reports a deviation whose class is listed in the known-findings file; any other class is a violation.
func (c *C) Known(class, format string, a ...any) {
	what, ok := knownFindings[c.r.id+"/"+class]
	if !ok {
		c.Fail("[class %s] "+format, append([]any{class}, a...)...)
	}
	c.r.mu.Lock()
	h := c.r.known[class]
	if h == nil {
		h = &knownHit{what: what}
		c.r.known[class] = h
	}
	h.count++
	c.r.mu.Unlock()
}

func (c *C) Step(n int) { c.trans += int64(n) }

// Alive tells the watchdog that a long execution makes progress.
func (c *C) Alive() {
	binary.LittleEndian.PutUint64(c.slot[16:], binary.LittleEndian.Uint64(c.slot[16:])+1)
}
func (c *C) State(h uint64) { c.r.states.add(h) }
func (c *C) Out(h uint64) {
	if c.outs < 200000 {
		c.outs++
		c.r.outs.add(h)
	}
}
func (c *C) Expired() bool  { return c.r.expired.Load() }
func (c *C) Thorough() bool { return c.r.thorough }

func (r *Run) sample(s string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) < 40 {
		r.samples = append(r.samples, s)
	}
}

func (r *Run) Assume(s string)      { r.assume = append(r.assume, s) }
func (r *Run) Note(k string, v any) { r.mu.Lock(); r.notes[k] = v; r.mu.Unlock() }
func (r *Run) pickS(quick, thorough string) string {
	if r.thorough {
		return thorough
	}
	return quick
}

func (r *Run) Pick(quick, thorough int) int {
	if r.thorough {
		return thorough
	}
	return quick
}

// ---- state set ----

type stateSet struct {
	sh [64]struct {
		mu sync.Mutex
		m  map[uint64]struct{}
	}
}

func (s *stateSet) add(h uint64) bool {
	p := &s.sh[h>>58]
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.m == nil {
		p.m = make(map[uint64]struct{})
	}
	if _, ok := p.m[h]; ok {
		return false
	}
	p.m[h] = struct{}{}
	return true
}

func (s *stateSet) len() (n int) {
	for i := range s.sh {
		n += len(s.sh[i].m)
	}
	return
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	h ^= h >> 29
	h *= 0xbf58476d1ce4e5b9
	h ^= h >> 32
	return h
}

func mix(h, x uint64) uint64 {
	h ^= x + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xbf58476d1ce4e5b9
	return h ^ (h >> 31)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

// ---- known findings ----

var maxFails = func() int { n, _ := strconv.Atoi(env("MC_MAXFAIL", "8")); return n }() // development: show more

var knownFindings = map[string]string{} // property/class -> what fails

func loadKnown(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for _, l := range bytes.Split(b, []byte("\n")) {
		var k struct{ Property, Class, Status, What string }
		if len(bytes.TrimSpace(l)) == 0 || json.Unmarshal(l, &k) != nil {
			continue
		}
		if k.Status == "known" {
			knownFindings[k.Property+"/"+k.Class] = k.What
		}
	}
}

// ---- main ----

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func main() {
	if len(os.Args) == 4 && os.Args[1] == "deep" {
		deepMain(os.Args[2], os.Args[3])
		return
	}
	if len(os.Args) == 3 && os.Args[1] == "hist" {
		histMain(os.Args[2])
		return
	}
	if len(os.Args) > 3 && os.Args[1] == "sched" && schedEntry != nil {
		schedEntry(os.Args[2:])
		return
	}
	if len(os.Args) < 3 || (os.Args[1] != "check" && os.Args[1] != "child" && os.Args[1] != "replay") {
		fmt.Fprintln(os.Stderr, "usage: mc check ID | mc replay FILE")
		os.Exit(2)
	}
	if os.Args[1] == "child" {
		child(os.Args[2])
		return
	}
	id, only := os.Args[2], ""
	if os.Args[1] == "replay" {
		b, err := os.ReadFile(os.Args[2])
		var f struct {
			Property string
			Tier     string
			Failure  failure
		}
		if err != nil || json.Unmarshal(b, &f) != nil {
			fmt.Fprintln(os.Stderr, "bad replay file", err)
			os.Exit(2)
		}
		id = f.Property
		if f.Tier != "" {
			os.Setenv("VERIF_TIER", f.Tier)
		}
		o, _ := json.Marshal(f.Failure.ID)
		only = string(o)
	}
	if checks[id] == nil {
		fmt.Fprintln(os.Stderr, "unknown check", id)
		os.Exit(2)
	}
	supervise(id, only)
}

// supervise runs the check in a child process, so that a fatal crash of the library is a verdict, not an accident.
func supervise(id, only string) {
	dir, err := os.MkdirTemp("", "mcsup")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer os.RemoveAll(dir)
	slots := filepath.Join(dir, "slots")
	runChild := func(only, workers string) (int, string) {
		_ = os.WriteFile(slots, make([]byte, 64*slotSize), 0o600)
		cmd := exec.Command(os.Args[0], "child", id)
		cmd.Env = append(os.Environ(), "MC_SLOTS="+slots, "MC_ONLY="+only, "MC_WORKERS="+workers)
		var errBuf tailBuf
		cmd.Stdout = os.Stdout
		cmd.Stderr = &errBuf
		err := cmd.Run()
		if err == nil {
			return 0, errBuf.String()
		}
		if ee, ok := err.(*exec.ExitError); ok && ee.Exited() {
			return ee.ExitCode(), errBuf.String()
		}
		return -1, errBuf.String() + "\n" + err.Error()
	}
	code, text := runChild(only, "")
	if code != 0 && code != 1 {
		if strings.Contains(text, "mc: internal error") {
			fmt.Fprint(os.Stderr, text)
			os.RemoveAll(dir)
			os.Exit(2)
		}
		first := text
		ids := readSlots(slots)
		confirmed := false
		for _, o := range ids {
			b, _ := json.Marshal(o)
			c2, t2 := runChild(string(b), "1")
			if c2 == 1 {
				os.RemoveAll(dir)
				os.Exit(1)
			}
			if c2 != 0 {
				reportViolation(id, failure{ID: o, Detail: "the process dies while executing this case:\n" + clip(t2, 3000)})
				confirmed = true
				code = 1
				break
			}
		}
		if !confirmed {
			code, text = runChild(only, "2")
			if code != 0 && code != 1 {
				reportViolation(id, failure{Detail: "the process dies while running the check:\n" + clip(first+"\n----\n"+text, 3500)})
				code = 1
			}
		}
	} else if text != "" {
		fmt.Fprint(os.Stderr, text)
	}
	os.RemoveAll(dir)
	os.Exit(code)
}

type tailBuf struct{ b []byte }

func (t *tailBuf) Write(p []byte) (int, error) {
	if len(t.b) < 20000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tailBuf) String() string { return string(t.b) }

func readSlots(path string) (ids []caseID) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for i := 0; i+slotSize <= len(b); i += slotSize {
		s := b[i : i+slotSize]
		n := binary.LittleEndian.Uint64(s)
		if n == 0 {
			continue
		}
		name := s[24:]
		if z := bytes.IndexByte(name, 0); z >= 0 {
			name = name[:z]
		}
		ids = append(ids, caseID{string(name), int(binary.LittleEndian.Uint64(s[8:])), int64(n)})
	}
	return
}

func reportViolation(id string, f failure) {
	dir := env("MC_REPLAYS", "/verif/replays")
	_ = os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", id, time.Now().UnixNano()))
	b, _ := json.MarshalIndent(map[string]any{"property": id, "tier": env("VERIF_TIER", "quick"), "failure": f,
		"how": "bash run.sh replay " + p}, "", " ")
	_ = os.WriteFile(p, append(b, '\n'), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
	fmt.Printf("  family: %s\n  input: %s\n  %s\n", f.ID.Fam, clip(f.Desc, 1500), strings.ReplaceAll(clip(f.Detail, 2000), "\n", "\n  "))
}

func child(id string) {
	debug.SetGCPercent(300)
	debug.SetMaxStack(512 << 20)
	tier := env("VERIF_TIER", "quick")
	r := &Run{id: id, thorough: tier == "thorough", start: time.Now(), known: map[string]*knownHit{}, notes: map[string]any{}}
	limit := 240 * time.Second
	if r.thorough {
		limit = 780 * time.Second
	}
	if s := os.Getenv("MC_LIMIT"); s != "" {
		n, _ := strconv.Atoi(s)
		limit = time.Duration(n) * time.Second
	}
	r.deadline = r.start.Add(limit)
	r.workers = runtime.NumCPU()
	if n, _ := strconv.Atoi(os.Getenv("MC_WORKERS")); n > 0 {
		r.workers = n
	}
	if s := os.Getenv("MC_ONLY"); s != "" {
		r.only = &caseID{}
		if err := json.Unmarshal([]byte(s), r.only); err != nil {
			panic(err)
		}
	}
	loadKnown(env("MC_KNOWN", "/verif/known_findings.jsonl"))
	r.slots = mapSlots(os.Getenv("MC_SLOTS"))
	go r.watchdog()
	checks[id](r)
	if f := scale[id]; f != nil {
		f(r)
	}
	reentrant(r, id)
	if f := observed[id]; f != nil {
		obsRun(r, id, f)
	}
	r.finish(tier)
}

func mapSlots(path string) []byte {
	if path == "" {
		return make([]byte, 64*slotSize)
	}
	f, err := os.OpenFile(path, os.O_RDWR, 0)
	if err != nil {
		return make([]byte, 64*slotSize)
	}
	defer f.Close()
	b, err := syscall.Mmap(int(f.Fd()), 0, 64*slotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return make([]byte, 64*slotSize)
	}
	return b
}

// watchdog turns a hang (one execution taking minutes) or a memory blow-up into a violation.
func (r *Run) watchdog() {
	type seen struct {
		n, s, b uint64
		t       time.Time
	}
	last := make([]seen, len(r.slots)/slotSize)
	m := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(500 * time.Millisecond)
		metrics.Read(m)
		big := m[0].Value.Uint64() > 20<<30
		for i := range last {
			sl := r.slots[i*slotSize:]
			n, s, b := binary.LittleEndian.Uint64(sl), binary.LittleEndian.Uint64(sl[8:]), binary.LittleEndian.Uint64(sl[16:])
			if n == 0 || n != last[i].n || s != last[i].s || b != last[i].b {
				last[i] = seen{n, s, b, time.Now()}
				continue
			}
			stuck := time.Since(last[i].t)
			if stuck > hangLimit || (big && stuck > 2*time.Second) {
				name := sl[24:slotSize]
				if z := bytes.IndexByte(name, 0); z >= 0 {
					name = name[:z]
				}
				why := fmt.Sprintf("one execution has not finished after %v", stuck.Round(time.Second))
				if big {
					why = "one execution makes memory grow without bound"
				}
				reportViolation(r.id, failure{ID: caseID{string(name), int(s), int64(n)}, Detail: why})
				os.Exit(1)
			}
		}
	}
}

var hangLimit = 120 * time.Second

func (r *Run) finish(tier string) {
	complete := !r.expired.Load() || len(r.fails) > 0
	for _, f := range r.fams {
		complete = complete && f.Done
	}
	if r.only != nil {
		if len(r.fails) > 0 {
			reportViolation(r.id, r.fails[0])
			os.Exit(1)
		}
		fmt.Println("replayed case does not fail")
		os.Exit(0)
	}
	var kl []string
	for class, h := range r.known {
		kl = append(kl, class)
		_ = h
	}
	sort.Strings(kl)
	knownOut := map[string]int64{}
	for _, k := range kl {
		knownOut[k] = r.known[k].count
	}
	cov := map[string]any{
		"states":                        r.states.len(),
		"transitions":                   r.trans.Load(),
		"traces_validated_against_impl": r.traces.Load(),
		"distinct_outcomes":             r.outs.len(),
		"samples":                       r.samples,
		"exhaustive":                    complete,
		"families":                      r.fams,
		"known_findings_seen":           knownOut,
	}
	if mapsOwned {
		cov["map_iteration_order"] = "owned: every range over a map in the library takes the order the checker chooses"
		cov["order_enumerations_cut"] = r.capped.Load()
	}
	for k, v := range r.notes {
		cov[k] = v
	}
	seed, _ := strconv.Atoi(env("VERIF_SEED", "0"))
	ev := map[string]any{
		"property": r.id, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"wall_s": time.Since(r.start).Seconds(), "violations": len(r.fails), "assumptions": r.assume,
	}
	if r.assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := env("MC_EVIDENCE", "/verif/evidence")
	_ = os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, r.id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "mc: internal error:", err)
		os.Exit(2)
	}
	fmt.Printf("%s: states=%d transitions=%d executions=%d outcomes=%d exhaustive=%v wall=%.1fs\n", r.id, r.states.len(), r.trans.Load(),
		r.traces.Load(), r.outs.len(), complete, time.Since(r.start).Seconds())
	for _, f := range r.fams {
		fmt.Printf("  %-28s %10d executions %6d ms  complete=%v  (%s)\n", f.Name, f.Cases, f.Ms, f.Done, f.Bound)
	}
	for _, k := range kl {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s (%d executions)\n", r.id, k, r.known[k].what, r.known[k].count)
	}
	if len(r.fails) > 0 {
		sort.SliceStable(r.fails, func(i, j int) bool { return len(r.fails[i].Desc) < len(r.fails[j].Desc) })
		for i, f := range r.fails {
			if i < 3 || maxFails > 8 {
				reportViolation(r.id, f)
			}
		}
		os.Exit(1)
	}
	os.Exit(0)
}
