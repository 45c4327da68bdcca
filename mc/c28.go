package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

func init() { checks["C28"] = c28 }

// The histories of C28 run in fresh processes: "mc hist WORDS" executes a list of steps, in order, checking each result
// against the reference parser and, at the end, that earlier results are still what they were.
//
//	cN   parse document class N (entry point by N)
//	fN   parse short text N
//	aN   parse all short texts from N on
//	gN   parse N bytes that are not JSON (rejected at the first byte)
//	wN   parse N bytes of white space and a number
//	sN   parse a string of N characters
//	dN   parse N bytes of nested array openings and their closings, at most 20000 deep, side by side in an array
//	tN   like g, with the size that brings the number of bytes parsed so far, plus 16, to N modulo 2^32
//	xN*W repeat step W N times

type histDoc struct {
	name string
	text []byte
	w    *Val // nil: rejected
}

var histDocs = sync.OnceValue(func() []histDoc {
	rep := func(s string, n int) string { return strings.TrimSuffix(strings.Repeat(s+",", n), ",") }
	members := func(n int) string {
		var b strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, `"k%d":{"a":[%d,null,true,"x\u0041\ud83d\ude00"],"b":-%d.5e3},`, i, i, i)
		}
		return "{" + strings.TrimSuffix(b.String(), ",") + "}"
	}
	ds := []histDoc{
		{name: "tiny", text: []byte(`7`)},
		{name: "dense", text: []byte("[" + rep("1", 300) + "]")},
		{name: "sparse", text: []byte(`"` + strings.Repeat("é", 3000) + `"`)},
		{name: "members", text: []byte(members(30))},
		{name: "deep", text: []byte(strings.Repeat("[", 200) + strings.Repeat("]", 200))},
		{name: "unfinished", text: []byte("[" + rep("1", 300))},
		{name: "not JSON", text: []byte("x" + strings.Repeat(" ", 4000))},
		{name: "padded", text: []byte(strings.Repeat(" ", 4000) + "{}")},
		{name: "bad number inside", text: []byte("[" + rep("{}", 100) + ",1e,2]")},
		{name: "containers", text: []byte("[" + rep(`[],{},[{"a":{}}]`, 60) + "]")},
		{name: "empty", text: nil},
		{name: "one open bracket", text: []byte("[")},
		{name: "escapes", text: []byte(`{"\u0061\n":"\"\\\/\b\f\n\r\t\u00e9` + strings.Repeat(`\u0041`, 40) + `"}`)},
		{name: "long number", text: []byte("0." + strings.Repeat("1", 700))},
	}
	for i := range ds {
		d := &ds[i]
		if w, err := refParseAny(d.text); err == nil {
			d.w = w
		}
	}
	return ds
})

// shortTexts stop at every state a parser can be in.
var shortTexts = sync.OnceValue(func() (out []histDoc) {
	for _, t := range []string{`[1`, `[`, `[1,`, `[[[[`, `[{`, `{`, `{"a"`, `{"a":`, `{"a":1`, `{"a":1,`, `{"a":[`, `{"a":{"b":[{`, `"x`, `"\`, `"\u12`, `"\ud83d`, "\"\xc3", `[tru`, `[1.`, `[-`, `[1e`, `{}x`, `[]]`, `[1}`, `{"a":1]`, `{1:2}`, `{"a" 1}`, `["a" "b`, "[\x00]", `nul`, "", " ", `01`,
		`[]`, `{}`, `[1]`, `{"a":1}`, `[[[[]]]]`, `"x"`, `"\u0041\n"`, `0`, `-1.5e3`, `null`, `true`, ` [ { "a" : [ ] } ] `, `{"a":{"a":{"a":{}}}}`, `["a",["b",{"c":"d"}]]`, `{"a":1,"a":2}`} {
		d := histDoc{name: t, text: []byte(t)}
		if w, err := refParseAny(d.text); err == nil {
			d.w = w
		}
		out = append(out, d)
	}
	return
})

type histRun struct {
	total uint64
	kept  []struct {
		v *jsonvalue.V
		w *Val
		b []byte
	}
	buf []byte
	at  string
	all bool // keep every result

	shorts int
}

func (h *histRun) fail(f string, a ...any) error {
	return fmt.Errorf("step %s: %s", h.at, fmt.Sprintf(f, a...))
}

func (h *histRun) expect(v *jsonvalue.V, err error, w *Val, keep bool) error {
	if v == nil {
		return h.fail("the result is nil")
	}
	if w == nil {
		if err == nil {
			return h.fail("malformed text is accepted")
		}
		if v.ValueType() != jsonvalue.NotExist {
			return h.fail("malformed text gives a value of type %v", v.ValueType())
		}
		return nil
	}
	if err != nil {
		return h.fail("well-formed text is rejected: %v", err)
	}
	if d := diffSeq(w, v, ""); d != "" {
		return h.fail("%s", d)
	}
	if keep && len(h.kept) < 40 || h.all {
		h.kept = append(h.kept, struct {
			v *jsonvalue.V
			w *Val
			b []byte
		}{v, w, v.MustMarshal(jsonvalue.OptSetSequence())})
	}
	return nil
}

func (h *histRun) class(i int) error {
	d := &histDocs()[i]
	b := append([]byte{}, d.text...)
	h.total += uint64(len(b))
	var v *jsonvalue.V
	var err error
	switch i % 5 {
	case 0:
		v, err = jsonvalue.Unmarshal(b)
		if !bytes.Equal(b, d.text) {
			return h.fail("Unmarshal changes its input")
		}
	case 1:
		v, err = jsonvalue.UnmarshalNoCopy(b)
	case 2:
		v, err = jsonvalue.UnmarshalString(string(b))
	case 3:
		v, err = jsonvalue.MustUnmarshalString(string(b)), nil
		if d.w == nil {
			err = fmt.Errorf("hidden")
		}
	case 4:
		v = &jsonvalue.V{}
		err = v.UnmarshalJSON(b)
	}
	return h.expect(v, err, d.w, true)
}

func (h *histRun) space(n uint64) []byte {
	if uint64(cap(h.buf)) < n {
		h.buf = make([]byte, n)
	}
	return h.buf[:n]
}

func (h *histRun) garbage(n uint64) error {
	if n == 0 {
		return nil
	}
	b := h.space(n)
	b[0] = 'x'
	h.total += n
	v, err := jsonvalue.UnmarshalNoCopy(b)
	return h.expect(v, err, nil, false)
}

func (h *histRun) step(s string) error {
	h.at = s
	arg := strings.TrimLeft(s[1:], "")
	if s[0] == 'x' {
		cnt, w, _ := strings.Cut(arg, "*")
		n, _ := strconv.Atoi(cnt)
		for i := 0; i < n; i++ {
			if err := h.step(w); err != nil {
				return fmt.Errorf("repetition %d: %w", i+1, err)
			}
		}
		return nil
	}
	n, err := strconv.ParseUint(arg, 10, 64)
	if err != nil {
		return err
	}
	switch s[0] {
	case 'c':
		return h.class(int(n))
	case 'a':
		for i := int(n); i < len(shortTexts()); i++ {
			if err := h.step(fmt.Sprintf("f%d", i)); err != nil {
				return err
			}
		}
		return nil
	case 'f':
		d := &shortTexts()[n]
		h.total += uint64(len(d.text))
		var v *jsonvalue.V
		var err error
		switch h.shorts++; h.shorts % 3 {
		case 0:
			v, err = jsonvalue.Unmarshal(d.text)
		case 1:
			v, err = jsonvalue.UnmarshalString(d.name)
		case 2:
			v = &jsonvalue.V{}
			err = v.UnmarshalJSON(d.text)
		}
		if h.shorts > 100 && h.shorts%1000 > 2 && (err == nil) == (d.w != nil) {
			return nil
		}
		return h.expect(v, err, d.w, false)
	case 'g':
		return h.garbage(n)
	case 't':
		return h.garbage((n - (16 + h.total)) & 0xFFFFFFFF)
	case 'w', 's':
		b := h.space(n)
		fill, w := byte(' '), vNum("5")
		if s[0] == 's' {
			fill = 'a'
		}
		b[0] = fill
		for i := 1; i < len(b); i *= 2 {
			copy(b[i:], b[:i])
		}
		if s[0] == 's' {
			b[0], b[len(b)-1] = '"', '"'
			w = vStr(string(b[1 : len(b)-1]))
		} else {
			b[len(b)-1] = '5'
		}
		h.total += n
		v, err := jsonvalue.UnmarshalNoCopy(b)
		if s[0] == 's' { // compared here, the buffer is used again
			if err != nil || !v.IsString() || v.String() != w.S {
				return h.fail("a string of %d characters gives %v of length %d, %v", n-2, v.ValueType(), len(v.String()), err)
			}
			return nil
		}
		return h.expect(v, err, w, false)
	case 'd':
		var b []byte
		b = append(b, '[')
		k := 0
		for uint64(len(b)) < n {
			m := min(20000, (int(n)-len(b)+1)/2)
			b = append(b, bytes.Repeat([]byte("["), m)...)
			b = append(b, bytes.Repeat([]byte("]"), m)...)
			b = append(b, ',')
			k++
		}
		b[len(b)-1] = ']'
		h.total += uint64(len(b))
		v, err := jsonvalue.UnmarshalNoCopy(b)
		if err != nil || !v.IsArray() || v.Len() != k {
			return h.fail("an array of %d nested arrays gives %v of length %d, %v", k, v.ValueType(), v.Len(), err)
		}
		return nil
	}
	return h.fail("unknown step")
}

func (h *histRun) finish() error {
	h.at = "end of the history"
	for i, k := range h.kept {
		if d := diffSeq(k.w, k.v, ""); d != "" {
			return h.fail("result %d changed: %s", i, d)
		}
		if b := k.v.MustMarshal(jsonvalue.OptSetSequence()); !bytes.Equal(b, k.b) {
			return h.fail("result %d marshals differently: %s", i, clip(string(b), 200))
		}
	}
	// changing one result leaves the others alone
	for i, k := range h.kept {
		switch {
		case k.v.IsArray():
			k.v.MustAppendInt(1).InTheBeginning()
			_, _ = k.v.SetString("changed").At(1)
		case k.v.IsObject():
			k.v.MustSetInt(1).At("added")
		}
		for j := i + 1; j < len(h.kept); j++ {
			if d := diffSeq(h.kept[j].w, h.kept[j].v, ""); d != "" {
				return h.fail("changing result %d changes result %d: %s", i, j, d)
			}
		}
	}
	return nil
}

// histMain is the process that runs the histories given on its standard input's behalf, one argument each.
func histMain(words string) {
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(3 << 30)
	h := &histRun{}
	for _, s := range strings.Fields(words) {
		if err := h.step(s); err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
	}
	if err := h.finish(); err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	fmt.Println("ok")
}

func (c *C) history(words string) {
	c.Step(len(strings.Fields(words)))
	cmd := exec.Command(os.Args[0], "hist", words)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := c.wait(cmd)
	s := strings.TrimSpace(out.String())
	if err == nil && s == "ok" {
		return
	}
	if s == "" {
		s = "the process dies: " + clip(errb.String(), 1500)
	}
	c.Fail("%s", s)
}

// wait runs a command for at most ten minutes.
func (c *C) wait(cmd *exec.Cmd) error {
	if err := cmd.Start(); err != nil {
		panic("mc: internal error: " + err.Error())
	}
	done := make(chan error)
	go func() { done <- cmd.Wait() }()
	for i := 0; ; i++ {
		select {
		case err := <-done:
			return err
		case <-time.After(10 * time.Second):
			if i > 60 {
				_ = cmd.Process.Kill()
				<-done
				c.Fail("not finished after 10 minutes")
			}
			c.Alive()
		}
	}
}

func c28(r *Run) {
	ds := histDocs()
	k := len(ds)
	names := func(idx []int) string {
		var s []string
		for _, i := range idx {
			s = append(s, ds[i].name)
		}
		return strings.Join(s, ", ")
	}
	word := func(idx []int) string {
		var s []string
		for _, i := range idx {
			s = append(s, fmt.Sprintf("c%d", i))
		}
		return strings.Join(s, " ")
	}
	// 1. all short histories in a fresh process each
	n := r.Pick(3, 4)
	total := 1
	for i := 0; i < n; i++ {
		total *= k
	}
	r.Par("fresh processes", fmt.Sprintf("all %d histories of %d parses of %d document classes, each in a process of its own", total, n, k), k*k, func(c *C, sh int) {
		for t := sh; t < total; t += k * k {
			idx := make([]int, n)
			for i, x := 0, t; i < n; i++ {
				idx[i] = x % k
				x /= k
			}
			c.State(hashStr(word(idx)))
			c.Do(func() string { return "fresh process: " + names(idx) }, func() { c.history(word(idx)) })
		}
	})
	// 2. long cycles: every pair of classes, repeated in every proportion
	reps := [][2]int{{1, 1}, {1, 40}, {40, 1}, {300, 300}}
	r.Par("cycles", fmt.Sprintf("every pair of %d classes in %d proportions, repeated, then every class", k, len(reps)), k*k, func(c *C, sh int) {
		all := ""
		for i := range ds {
			all += fmt.Sprintf(" c%d", i)
		}
		for _, rp := range reps {
			w := fmt.Sprintf("x%d*c%d x%d*c%d", rp[0], sh/k, rp[1], sh%k)
			if r.thorough {
				w = strings.TrimSpace(strings.Repeat(w+" ", 3))
			}
			c.Do(func() string { return fmt.Sprintf("%s x %s, proportion %v", ds[sh/k].name, ds[sh%k].name, rp) }, func() { c.history(w + all) })
		}
	})
	// 3. the statistics of size and number roll over
	tail := func(rot int) string {
		var s []string
		for i := range ds {
			s = append(s, fmt.Sprintf("c%d", (i+rot)%k))
		}
		return strings.Join(s, " ")
	}
	const M = 1 << 20
	bulk := []string{
		"x33*g67108864",
		"g67108864 x40*g67108864 x40*g67108864 x40*g67108864", // several times
		"x3000*c1 x32*g67108864 g67000000",
		"x3000*c4 x33*g67108864",
		"x2*w67108864 x31*g67108864 w67108864",
		"x2*s67108864 x31*g67108864 s67108864",
		"d4000000 x33*g67108864 d4000000",
		"c6 x33*g67108864 x200*c1 x33*g67108864 x200*c4",
	}
	if r.thorough {
		heavy := []string{"x34*w67108864", "x34*s67108864", "x2200*d1000000", "x70*g67108864 x34*w67108864", "x1100*d1000000 x17*g67108864 x3000*c3", "x600*c3 x20*s67108864 x20*g67108864 x70*d1000000"}
		r.Par("roll over with content", fmt.Sprintf("%d histories of more than 2 GiB of well-formed text, then every class", len(heavy)), len(heavy), func(c *C, sh int) {
			w := heavy[sh] + " " + tail(sh)
			c.Do(func() string { return "history " + w }, func() { c.history(w) })
		})
	}
	r.Par("roll over", fmt.Sprintf("%d histories of more than 2 GiB in different proportions of bytes to values, then every class in %d rotations", len(bulk), r.Pick(2, k)), len(bulk)*r.Pick(2, k), func(c *C, sh int) {
		b := bulk[sh%len(bulk)]
		w := b + " " + tail(sh/len(bulk)*(k/2+1)) + " " + tail(sh/len(bulk))
		c.State(hashStr(w))
		c.Do(func() string { return "history " + w }, func() { c.history(w) })
	})
	// 4. totals that end exactly around the limits of 31, 32 and 33 bits, with few and with many values before
	var exacts []string
	for _, base := range []uint64{0x7FFFFFFF, 1 << 31, 1<<32 - 1, 1 << 32} {
		for _, off := range []int{-2, -1, 0, 1, 2, 17, 300} {
			for _, before := range []string{"", "c1", "x20*c4", "x200*c1"} {
				n := (base + uint64(off)) & 0xFFFFFFFF
				g := "x30*g67108864" // 1.9 GiB
				if base > 1<<31 {
					g = "x62*g67108864"
				}
				exacts = append(exacts, strings.TrimSpace(fmt.Sprintf("%s %s t%d", before, g, n)))
			}
		}
	}
	r.Par("exact totals", fmt.Sprintf("%d histories whose size ends within a few bytes of 2^31-1, 2^31, 2^32-1 and 2^32, after 1 to 60000 values, then every class", len(exacts)), len(exacts), func(c *C, sh int) {
		w := exacts[sh] + " " + tail(sh)
		c.State(hashStr(w))
		c.Do(func() string { return "history " + w }, func() { c.history(w) })
	})
	// the number of parses, not their size
	ft := shortTexts()
	times := r.Pick(300000, 20000000)
	r.Par("many parses", fmt.Sprintf("each of %d short texts that stop a parser in every state, %d times in a process of its own, then all of them and every class; and all of them in turn", len(ft), times), len(ft)+1, func(c *C, sh int) {
		w := fmt.Sprintf("x%d*f%d", times, sh)
		if sh == len(ft) {
			w = fmt.Sprintf("x%d*a0", times/100)
		}
		w += " a0 " + tail(sh)
		c.State(hashStr(w))
		c.Do(func() string { return "history " + w }, func() { c.history(w) })
	})
	// 5. the same process, all results kept: long runs over de Bruijn sequences of classes
	r.Par("kept results", fmt.Sprintf("de Bruijn sequences: every %d consecutive classes, all results kept and compared at the end", 3), r.Pick(4, 8), func(c *C, sh int) {
		seq := deBruijn(k-6, 3)
		h := &histRun{all: true}
		c.Do(func() string { return "one process, all results kept" }, func() {
			for i := range seq {
				x := seq[(i+sh*37)%len(seq)]
				h.at = ds[x].name
				if err := h.class(x); err != nil {
					c.Fail("%v", err)
				}
				c.Step(1)
			}
			for _, kk := range h.kept {
				if d := diffSeq(kk.w, kk.v, ""); d != "" {
					c.Fail("a result changed: %s", d)
				}
			}
		})
	})
	// 6. texts that differ in one place, one after the other
	type shape struct {
		name, pre, post string
		num             bool
	}
	shapes := []shape{
		{"string", `"`, `"`, false}, {"key", `{"`, `":1}`, false}, {"number", "", "", true}, {"number in an array", "[", ",0]", true}, {"fraction", "0.", "", true}, {"exponent", "1e-", "", true},
		{"value and key", `{"a":"x","`, `":"y","b":[2]}`, false}, {"string in nesting", `[[{"k":["`, `"]}],5]`, false}, {"escaped string", `"\n`, `"`, false},
	}
	maxN := r.Pick(20, 44)
	r.Par("near twins", fmt.Sprintf("%d shapes of documents with a run of 1..%d characters in them: two texts that differ at one place, at two places, or in the order of two characters (every place and pair of places), parsed one after the other by every pair of entry points", len(shapes), maxN), len(shapes)*maxN, func(c *C, sh int) {
		s, n := shapes[sh%len(shapes)], sh/len(shapes)+1
		if s.num && n > 19 || s.name == "exponent" && n > 2 {
			return
		}
		base := strings.Repeat("a", n)
		x, y := byte('b'), byte('c')
		if s.num {
			base, x, y = strings.Repeat("5", n), '6', '7'
		}
		var twins []string
		for i := 0; i < n; i++ {
			b := []byte(base)
			b[i] = x
			twins = append(twins, string(b))
			for j := i + 1; j < n; j++ {
				b := []byte(base)
				b[i], b[j] = x, y
				twins = append(twins, string(b))
				b[i], b[j] = y, x
				twins = append(twins, string(b))
			}
			if !s.num {
				b[i] = 'A'
				twins = append(twins, string(b), base[:i]+"é"+base[i+1:], base[:i])
			}
		}
		h := &histRun{}
		c.Do(func() string { return fmt.Sprintf("%s, %d characters", s.name, n) }, func() {
			one := func(k int, t string) {
				text := s.pre + t + s.post
				w, err := refParseAny([]byte(text))
				if err != nil {
					panic("mc: internal error: " + text)
				}
				h.at = clip(text, 200)
				v, perr := parseBy(k, []byte(text))
				if e := h.expect(v, perr, w, false); e != nil {
					c.Fail("%v", e)
				}
				c.Step(1)
			}
			for i, t := range twins {
				one(i%4, base)
				one((i/4)%4, t)
				one((i/2)%4, base)
			}
			for i, t := range twins { // and next to each other
				one(i%4, t)
			}
		})
	})
}

// parseBy parses by entry point k of 4.
func parseBy(k int, b []byte) (*jsonvalue.V, error) {
	switch k {
	case 0:
		return jsonvalue.Unmarshal(b)
	case 1:
		return jsonvalue.UnmarshalNoCopy(b)
	case 2:
		return jsonvalue.UnmarshalString(string(b))
	}
	v := &jsonvalue.V{}
	return v, v.UnmarshalJSON(b)
}

func deBruijn(k, n int) []int {
	a := make([]int, k*n)
	var seq []int
	var db func(t, p int)
	db = func(t, p int) {
		if t > n {
			if n%p == 0 {
				seq = append(seq, a[1:p+1]...)
			}
			return
		}
		a[t] = a[t-p]
		db(t+1, p)
		for j := a[t-p] + 1; j < k; j++ {
			a[t] = j
			db(t+1, t)
		}
	}
	db(1, 1)
	return seq
}
