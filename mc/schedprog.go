package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
	"github.com/Andrew-M-C/go.jsonvalue/beta"
)

// Programs for the schedule explorer (sched.go) and the coordinators that start one process per program.

type schedExec interface {
	run(thread int)
	settle() // right after the goroutines have ended
	judge() string
}

type schedProgram struct {
	threads [][]int          // operations by index
	warm    func()           // finds what each operation gives alone; called after the first execution
	start   func() schedExec // makes the shared values and options anew
}

var (
	schedEntry    func(args []string)
	schedSetPoint func(func(id int))
	schedPrograms = map[string]func(spec string) *schedProgram{"C17": c17Program, "C18": c18Program}
)

func parseThreads(spec string) (t [][]int) {
	for _, s := range strings.Split(spec, "|") {
		var l []int
		for _, x := range strings.Fields(s) {
			n, _ := strconv.Atoi(x)
			l = append(l, n)
		}
		t = append(t, l)
	}
	return
}

// ---- C17 ----

type readEnv struct {
	v, w *jsonvalue.V // shared documents
	num  *jsonvalue.V // a shared number, -1.5e3
	rich *jsonvalue.V // a shared document of all kinds of values, for the wide operations

	big   *jsonvalue.V // a shared document of long strings, keys, lists and numbers and of deep nesting
	typed any          // a struct of a type that is new to the library
}

const (
	readDocText = `{"s":"é\/\n<\u0001\u001f😀","n":12,"b":true,"z":null,"a":[3,{"k":"7","j":[2]}],"o":{"q":1}}`
	otherText   = `{"o":{"q":1.0},"a":[3,{"j":[2e0],"k":"7"}],"z":null,"b":true,"n":12,"s":"é/\n<\u0001\u001f😀"}`
)

func (e *readEnv) reset() {
	e.v = jsonvalue.MustUnmarshalString(readDocText)
	e.w = jsonvalue.MustUnmarshalString(otherText)
	e.num = jsonvalue.MustUnmarshalString("-1.5e3")
}

var newTypes int

// retype makes a struct type that did not exist before: the marker makes it another type for reflect, nothing else.
func (e *readEnv) retype() {
	newTypes++
	f := func(name, tag string, x any) reflect.StructField {
		return reflect.StructField{Name: name, Type: reflect.TypeOf(x), Tag: reflect.StructTag(tag)}
	}
	inner := reflect.StructOf([]reflect.StructField{
		f("X", fmt.Sprintf(`json:"-" n:"%d"`, newTypes), 0),
		f("A", `json:"a,omitempty"`, 0), f("B", `json:"b,string"`, 0), f("C", "", ""),
	})
	t := reflect.StructOf([]reflect.StructField{
		f("M", fmt.Sprintf(`json:"m" n:"%d"`, newTypes), reflect.Zero(inner).Interface()),
		f("L", `json:"l"`, reflect.Zero(reflect.SliceOf(inner)).Interface()),
		f("D", `json:"d,omitempty"`, ""),
	})
	v := reflect.New(t).Elem()
	v.Field(0).Field(1).SetInt(7)
	v.Field(1).Set(reflect.MakeSlice(reflect.SliceOf(inner), 2, 2))
	e.typed = v.Interface()
}

func canonOf(b []byte, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	w, perr := refParseAny(b)
	if perr != nil {
		return "not JSON: " + string(b)
	}
	return w.canon()
}

func valOf(v *jsonvalue.V, err error) string {
	if v == nil {
		return fmt.Sprintf("nil, %v", err)
	}
	if err != nil {
		return fmt.Sprintf("%v, error %v", v.ValueType(), err)
	}
	return read(v).canon()
}

type readOp struct {
	name   string
	wide   bool // passes through much of the library
	own    bool // uses no shared value
	big    bool // uses the shared big document
	fresh  bool // uses a type that no execution before has used
	spawns bool // the library starts goroutines: only the hand-over when an operation ends is explored
	f      func(e *readEnv) string
}

// Options shared by all goroutines, new ones for each execution.
var (
	sharedSeq, sharedLess, sharedDict, sharedIndent, sharedUTF8, sharedOmit, sharedNaN, sharedInf jsonvalue.Option
	sharedSet, sharedOpt, sharedNoHTML, sharedNoSl, sharedSeqB, sharedIgnore                      jsonvalue.Option
	sharedPath                                                                                    []any
)

func freshOptions() {
	sharedSeq = jsonvalue.OptKeySequence([]string{"o", "n", "q"})
	sharedLess = jsonvalue.OptKeySequenceWithLessFunc(func(p *jsonvalue.ParentInfo, a, b string, _, _ *jsonvalue.V) bool {
		return a > b
	})
	sharedDict = jsonvalue.OptDefaultStringSequence()
	sharedIndent = jsonvalue.OptIndent(" ", "  ")
	sharedUTF8 = jsonvalue.OptUTF8()
	sharedOmit = jsonvalue.OptOmitNull(true)
	sharedNaN = jsonvalue.OptFloatNaNToString("nan")
	sharedInf = jsonvalue.OptFloatInfToString("inf", "")
	sharedSet = jsonvalue.OptSetSequence()
	sharedOpt = jsonvalue.Opt{OmitNull: true, MarshalKeySequence: []string{"z", "n", "s"}}
	sharedNoHTML = jsonvalue.OptEscapeHTML(false)
	sharedNoSl = jsonvalue.OptEscapeSlash(false)
	sharedSeqB = jsonvalue.OptKeySequence([]string{"s", "y", "n"})
	sharedIgnore = jsonvalue.OptIgnoreOmitempty()
	sharedPath = []any{"a", -1, "j", 0}
}

type schedStruct struct {
	S string         `json:"s"`
	N *int           `json:"n,omitempty"`
	A []any          `json:"a"`
	O map[string]int `json:"o"`
	E int            `json:"e,omitempty"`
}

func marshalOp(name string, v func(e *readEnv) *jsonvalue.V, ordered bool, opts func() []jsonvalue.Option) readOp {
	return readOp{name: "Marshal " + name, f: func(e *readEnv) string {
		b, err := v(e).Marshal(opts()...)
		if ordered && err == nil {
			return string(b)
		}
		return canonOf(b, err)
	}}
}

var goSource = map[string]any{"s": "x\u00e9", "i": -5, "f": 2.5, "l": []int{1, 2}, "t": schedStruct{S: "q", O: map[string]int{"z": 1}}, "n": nil, "b": []byte("ab")}

func readOps() []readOp {
	shared := func(e *readEnv) *jsonvalue.V { return e.v }
	ops := []readOp{
		{name: "Get", f: func(e *readEnv) string { return valOf(e.v.Get("a", 1, "j")) }},
		{name: "Get with a shared path slice", f: func(e *readEnv) string { return valOf(e.v.Get(sharedPath)) }},
		{name: "Get missing", f: func(e *readEnv) string { return valOf(e.v.Get("a", 7)) + valOf(e.v.Get("nope")) }},
		{name: "typed getters", f: func(e *readEnv) string {
			s, e1 := e.v.GetString("s")
			n, e2 := e.v.GetInt("n")
			b, e3 := e.v.GetBool("b")
			return fmt.Sprint(s, e1, n, e2, b, e3, e.v.GetNull("z"))
		}},
		{name: "number in a string", f: func(e *readEnv) string {
			n, e1 := e.v.GetUint64("a", 1, "k")
			f, e2 := e.v.GetFloat64("a", 1, "k")
			return fmt.Sprint(n, e1, f, e2, e.v.MustGet("a", 1, "k").Int64())
		}},
		{name: "number accessors", f: func(e *readEnv) string {
			x := e.num
			return fmt.Sprint(x.Float64(), x.Int64(), x.Uint64(), x.Float32(), x.IsInteger(), x.IsFloat(), x.IsNegative(), x.GreaterThanInt64Max(), x.Bool(), x.String())
		}},
		{name: "GetObject, GetArray, GetBytes", f: func(e *readEnv) string {
			o, e1 := e.v.GetObject("o")
			a, e2 := e.v.GetArray("a")
			_, e3 := e.v.GetBytes("s")
			return valOf(o, e1) + valOf(a, e2) + fmt.Sprint(e3 != nil)
		}},
		{name: "Len, types", f: func(e *readEnv) string {
			return fmt.Sprint(e.v.Len(), e.v.ValueType(), e.v.IsObject(), e.v.MustGet("a").Len(), e.v.MustGet("z").IsNull())
		}},
		{name: "String", f: func(e *readEnv) string { return fmt.Sprint(len(e.v.String()), e.v.MustGet("s").String()) }},
		{name: "RangeObjects", f: func(e *readEnv) string {
			var l []string
			e.v.RangeObjects(func(k string, x *jsonvalue.V) bool { l = append(l, k+x.ValueType().String()); return true })
			sort.Strings(l)
			return strings.Join(l, ",")
		}},
		{name: "RangeObjectsBySetSequence", f: func(e *readEnv) (s string) {
			e.v.RangeObjectsBySetSequence(func(k string, x *jsonvalue.V) bool { s += k + x.ValueType().String(); return true })
			return
		}},
		{name: "RangeArray", f: func(e *readEnv) (s string) {
			e.v.MustGet("a").RangeArray(func(i int, x *jsonvalue.V) bool { s += fmt.Sprint(i, x.ValueType()); return true })
			return
		}},
		{name: "ForRangeObj, ForRangeArr", f: func(e *readEnv) string {
			m := e.v.ForRangeObj()
			a := e.v.MustGet("a").ForRangeArr()
			r := fmt.Sprint(len(m), len(a), m["n"].Int(), a[0].Int())
			delete(m, "n") // the snapshot is the caller's
			a[0] = nil
			return r
		}},
		{name: "IterObjects", spawns: true, f: func(e *readEnv) string {
			var l []string
			for it := range e.v.IterObjects() {
				l = append(l, it.K+it.V.ValueType().String())
			}
			sort.Strings(l)
			return strings.Join(l, ",")
		}},
		{name: "IterArray", spawns: true, f: func(e *readEnv) (s string) {
			for it := range e.v.MustGet("a").IterArray() {
				s += fmt.Sprint(it.I, it.V.ValueType())
			}
			return
		}},
		{name: "Equal", f: func(e *readEnv) string { return fmt.Sprint(e.v.Equal(e.w)) }},
		{name: "Equal, other way", f: func(e *readEnv) string { return fmt.Sprint(e.w.Equal(e.v), e.v.Equal(e.num)) }},
		{name: "comparisons", f: func(e *readEnv) string {
			a, b := e.num, e.v.MustGet("n")
			return fmt.Sprint(a.LessThan(b), a.GreaterThan(b), b.GreaterThanOrEqual(a), a.LessThanOrEqual(a))
		}},
		{name: "Contains", f: func(e *readEnv) string {
			return fmt.Sprint(beta.Contains(e.v, e.w), beta.Contains(e.v, jsonvalue.M{"q": 1}, "o"), beta.Contains(e.v, e.num))
		}},
		marshalOp("", shared, false, func() []jsonvalue.Option { return nil }),
		marshalOp("SetSequence", shared, true, func() []jsonvalue.Option { return []jsonvalue.Option{sharedSet} }),
		marshalOp("DefaultStringSequence", shared, true, func() []jsonvalue.Option { return []jsonvalue.Option{sharedDict} }),
		marshalOp("KeySequence", shared, true, func() []jsonvalue.Option { return []jsonvalue.Option{sharedSeq} }),
		marshalOp("LessFunc", shared, true, func() []jsonvalue.Option { return []jsonvalue.Option{sharedLess} }),
		marshalOp("Opt", shared, true, func() []jsonvalue.Option { return []jsonvalue.Option{sharedOpt} }),
		marshalOp("Indent, KeySequence", shared, true, func() []jsonvalue.Option { return []jsonvalue.Option{sharedIndent, sharedSeq} }),
		marshalOp("OmitNull, UTF8, EscapeHTML, EscapeSlash", shared, false, func() []jsonvalue.Option {
			return []jsonvalue.Option{sharedOmit, sharedUTF8, sharedNoHTML, sharedNoSl, sharedNaN, sharedInf}
		}),
		{name: "MarshalString, MustMarshal", f: func(e *readEnv) string {
			s, err := e.v.MarshalString(sharedUTF8)
			return canonOf([]byte(s), err) + canonOf(e.w.MustMarshal(), nil) + canonOf([]byte(e.num.MustMarshalString()), nil)
		}},
		{name: "json.Marshal", f: func(e *readEnv) string { return canonOf(json.Marshal(map[string]any{"v": e.v})) }},
		{name: "MarshalBinary", f: func(e *readEnv) string { return canonOf(e.v.MarshalBinary()) }},
		{name: "Export", f: func(e *readEnv) string {
			var x any
			var s schedStruct
			e1, e2 := e.v.Export(&x), e.v.Export(&s)
			return fmt.Sprint(x, e1, s.S, *s.N, s.O, e2 != nil)
		}},
		{name: "Import", f: func(e *readEnv) string { return valOf(jsonvalue.Import(e.v)) }},
		{name: "Import inside Go data", f: func(e *readEnv) string {
			return valOf(jsonvalue.Import(map[string]any{"x": []*jsonvalue.V{e.v.MustGet("a"), e.num}}))
		}},
		{name: "import and change the copy", f: func(e *readEnv) string {
			x, err := jsonvalue.Import(e.v)
			if err != nil {
				return err.Error()
			}
			x.MustSet("changed").At("n")
			x.MustAppend(1).InTheEnd("a")
			_ = x.Delete("o", "q")
			return valOf(x, nil)
		}},
		// separate values
		{name: "parse", own: true, f: func(e *readEnv) string { return valOf(jsonvalue.UnmarshalString(otherText)) }},
		{name: "parse bytes", own: true, f: func(e *readEnv) string {
			return valOf(jsonvalue.Unmarshal([]byte(`["\u00e9\ud83d\ude00\/",1e2,[],{}]`)))
		}},
		{name: "parse without copy", own: true, f: func(e *readEnv) string { return valOf(jsonvalue.UnmarshalNoCopy([]byte(`{"\n":"\\","b":[true]}`))) }},
		{name: "failing parses", own: true, f: func(e *readEnv) string {
			_, e1 := jsonvalue.UnmarshalString(`{"a":[1,{"b":`)
			_, e2 := jsonvalue.UnmarshalString(`[1e999]`)
			return fmt.Sprint(e1, e2)
		}},
		{name: "json.Unmarshal", own: true, f: func(e *readEnv) string {
			var x struct{ A *jsonvalue.V }
			err := json.Unmarshal([]byte(`{"A":[1,"x"]}`), &x)
			return valOf(x.A, err)
		}},
		{name: "import Go data", own: true, f: func(e *readEnv) string { return valOf(jsonvalue.Import(goSource)) }},
		{name: "import a struct with omitempty ignored", own: true, f: func(e *readEnv) string {
			return valOf(jsonvalue.Import(schedStruct{S: "q"}, sharedIgnore))
		}},
		{name: "import a struct of a new type", own: true, fresh: true, f: func(e *readEnv) string { return valOf(jsonvalue.Import(e.typed)) }},
		{name: "import errors", own: true, f: func(e *readEnv) string {
			_, e1 := jsonvalue.Import(make(chan int))
			return fmt.Sprint(e1 != nil, jsonvalue.New(complex(1, 2)).ValueType())
		}},
		{name: "build", own: true, f: func(e *readEnv) string {
			x := jsonvalue.NewObject()
			x.MustSet(1).At("a", "b")
			x.MustAppend("é").InTheEnd("l")
			x.MustInsert(2.5).Before("l", 0)
			_ = x.Delete("a", "b")
			return valOf(x, nil)
		}},
		{name: "build and marshal", own: true, f: func(e *readEnv) string {
			x := jsonvalue.NewArray()
			x.MustAppend(map[string]int{"b": 1, "a": 2}).InTheEnd()
			x.MustAppendFloat64(0.1).InTheBeginning()
			b, err := x.Marshal(sharedSeq, sharedIndent)
			return canonOf(b, err)
		}},
		{name: "NaN and infinity", own: true, f: func(e *readEnv) string {
			x := jsonvalue.New([]float64{math.NaN(), math.Inf(-1)})
			b, e1 := x.Marshal(sharedNaN, sharedInf)
			_, e2 := x.Marshal()
			return string(b) + fmt.Sprint(e1, errors.Is(e2, jsonvalue.ErrUnsupportedFloat))
		}},
		{name: "sort", own: true, f: func(e *readEnv) string {
			x := jsonvalue.MustUnmarshalString("[3,1,2]")
			x.SortArray(func(a, b *jsonvalue.V) bool { return a.Int() < b.Int() })
			return x.MustMarshalString()
		}},
		{name: "caseless on a value of its own", own: true, f: func(e *readEnv) string {
			x := jsonvalue.MustUnmarshalString(`{"Ab":1,"c":{"D":2}}`)
			a, e1 := x.Caseless().Get("aB")
			e2 := x.Caseless().Delete("C", "d")
			return valOf(a, e1) + fmt.Sprint(e2) + valOf(x, nil)
		}},
		{name: "decode into a value of its own", own: true, f: func(e *readEnv) string {
			x := jsonvalue.NewObject()
			err := x.UnmarshalBinary([]byte(`{"q":[1,2]}`))
			return valOf(x, err)
		}},
	}
	for _, o := range wideOps() {
		o.wide = true
		ops = append(ops, o)
	}
	return ops
}

type readExec struct {
	env  readEnv
	p    *schedProgram
	ops  []readOp
	want *[][]string
	got  [][]string
}

func runOp(f func(*readEnv) string, e *readEnv) (s string) {
	defer func() {
		if x := recover(); x != nil {
			s = fmt.Sprintf("panic: %v", x)
		}
	}()
	return f(e)
}

func (x *readExec) run(t int) {
	for _, i := range x.p.threads[t] {
		x.got[t] = append(x.got[t], runOp(x.ops[i].f, &x.env))
	}
}

func (x *readExec) settle() {}

func (x *readExec) judge() string {
	for t, l := range x.p.threads {
		for j, i := range l {
			if x.got[t][j] != (*x.want)[t][j] {
				return fmt.Sprintf("%q in goroutine %d gives\n%s\nwhen run alone it gives\n%s", x.ops[i].name, t, x.got[t][j], (*x.want)[t][j])
			}
		}
	}
	for _, s := range []struct {
		v    *jsonvalue.V
		text string
	}{{x.env.v, readDocText}, {x.env.w, otherText}, {x.env.rich, richText}, {x.env.big, bigText}} {
		if s.v == nil {
			continue
		}
		w, _ := refParseAny([]byte(s.text))
		if d := diffSeq(w, s.v, ""); d != "" {
			return "the shared value changed: " + d
		}
	}
	return ""
}

func c17Program(spec string) *schedProgram {
	p := &schedProgram{threads: parseThreads(spec)}
	ops := readOps()
	shared, fresh, rich, big := false, false, false, false
	for _, l := range p.threads {
		for _, i := range l {
			shared = shared || !ops[i].own
			fresh = fresh || ops[i].fresh
			rich = rich || ops[i].wide && !ops[i].own
			big = big || ops[i].big
		}
	}
	reset := func(e *readEnv) {
		freshOptions()
		if shared { // else the first execution finds the library as its initialization leaves it
			e.reset()
		}
		if rich {
			e.rich = jsonvalue.MustUnmarshalString(richText)
		}
		if big {
			e.big = jsonvalue.MustUnmarshalString(bigText)
		}
		if fresh {
			e.retype()
		}
	}
	var want [][]string
	p.warm = func() {
		for _, l := range p.threads {
			var r []string
			for _, i := range l {
				var e readEnv
				reset(&e)
				r = append(r, runOp(ops[i].f, &e))
			}
			want = append(want, r)
		}
	}
	p.start = func() schedExec {
		x := &readExec{p: p, ops: ops, want: &want, got: make([][]string, len(p.threads))}
		reset(&x.env)
		return x
	}
	return p
}

// ---- C18 ----

const (
	optDocText = `{"n":null,"s":"é/<\u0001","a":[{"y":1,"x":2}]}`
)

type optOp struct {
	name string
	set  int // >= 0: the configuration it puts in force
	f    func(v *jsonvalue.V) string
}

var optConfigs = []struct {
	name string
	do   func()
}{
	{"Reset", func() { jsonvalue.ResetDefaultMarshalOptions() }},
	{"Set A", func() {
		jsonvalue.SetDefaultMarshalOptions(sharedOmit, sharedDict, sharedUTF8, jsonvalue.OptEscapeSlash(false), jsonvalue.OptIgnoreOmitempty(), jsonvalue.OptFloatNaNToNull())
	}},
	{"Set B", func() {
		jsonvalue.SetDefaultMarshalOptions(sharedIndent, sharedSeqB, sharedNoHTML, jsonvalue.OptFloatNaNToString("nan"), jsonvalue.OptFloatInfToNull())
	}},
	{"Set C", func() { jsonvalue.SetDefaultMarshalOptions(sharedSet) }},
}

func optOps() []optOp {
	text := func(b []byte, err error) string {
		if err != nil {
			return "error " + err.Error()
		}
		return string(b)
	}
	var ops []optOp
	for i := range optConfigs {
		ops = append(ops, optOp{optConfigs[i].name, i, func(*jsonvalue.V) string { optConfigs[i].do(); return "" }})
	}
	return append(ops,
		optOp{"Marshal", -1, func(v *jsonvalue.V) string { return text(v.Marshal()) }},
		optOp{"Marshal with own OmitNull(false) and EscapeSlash(true)", -1, func(v *jsonvalue.V) string {
			return text(v.Marshal(jsonvalue.OptOmitNull(false), jsonvalue.OptEscapeSlash(true)))
		}},
		optOp{"MarshalJSON", -1, func(v *jsonvalue.V) string { return text(v.MarshalJSON()) }},
		optOp{"Marshal NaN", -1, func(v *jsonvalue.V) string { return text(jsonvalue.New(math.NaN()).Marshal()) }},
		optOp{"Import", -1, func(v *jsonvalue.V) string { return valOf(jsonvalue.Import(schedStruct{S: "q"})) }},
	)
}

type optEvent struct {
	op, thread int
	start, end int64
	got        string
}

type optExec struct {
	p     *schedProgram
	v     *jsonvalue.V
	ops   []optOp
	want  map[int][]map[string]bool // marshal operation -> configuration -> outputs
	ev    []optEvent                // by thread, preallocated
	first []int
	last  map[int]string // what marshal operations give after the end
}

func (x *optExec) run(t int) {
	for j, i := range x.p.threads[t] {
		e := &x.ev[x.first[t]+j]
		e.op, e.thread = i, t
		e.start = stampFn()
		e.got = runOp(func(*readEnv) string { return x.ops[i].f(x.v) }, nil)
		e.end = stampFn()
	}
}

var stampFn func() int64

func (x *optExec) settle() {
	x.last = map[int]string{}
	for i := range x.ops {
		if x.ops[i].set < 0 {
			x.last[i] = x.ops[i].f(x.v)
		}
	}
	jsonvalue.ResetDefaultMarshalOptions()
}

// judge looks for an order of the operations that respects real time and explains every result.
func (x *optExec) judge() string {
	final := optEvent{op: -1, start: 1 << 40, end: 1 << 41}
	fgot := x.last
	ev := append(append([]optEvent{}, x.ev...), final)
	done := make([]bool, len(ev))
	var rec func(left, cfg int) bool
	rec = func(left, cfg int) bool {
		if left == 0 {
			return true
		}
		for i := range ev {
			if done[i] {
				continue
			}
			ok := true
			for j := range ev {
				if !done[j] && j != i && ev[j].end < ev[i].start {
					ok = false
				}
			}
			if !ok {
				continue
			}
			next := cfg
			if ev[i].op < 0 {
				for k, g := range fgot {
					ok = ok && x.want[k][cfg][g]
				}
			} else if s := x.ops[ev[i].op].set; s >= 0 {
				ok = ev[i].got == ""
				next = s
			} else {
				ok = x.want[ev[i].op][cfg][ev[i].got]
			}
			if !ok {
				continue
			}
			done[i] = true
			if rec(left-1, next) {
				return true
			}
			done[i] = false
		}
		return false
	}
	if rec(len(ev), 0) {
		return ""
	}
	var b strings.Builder
	b.WriteString("no order of the calls explains the results:\n")
	for _, e := range x.ev {
		fmt.Fprintf(&b, "goroutine %d, events %d to %d: %s", e.thread, e.start, e.end, x.ops[e.op].name)
		if x.ops[e.op].set < 0 {
			which := "as under none of the defaults"
			for c, w := range x.want[e.op] {
				if w[e.got] {
					which = "as after " + optConfigs[c].name
					break
				}
			}
			fmt.Fprintf(&b, " gives %s (%s)", strings.ReplaceAll(e.got, "\n", "\\n"), which)
		} else if e.got != "" {
			fmt.Fprintf(&b, " %s", e.got)
		}
		b.WriteByte('\n')
	}
	fmt.Fprintf(&b, "afterwards Marshal gives %s", strings.ReplaceAll(fgot[len(optConfigs)], "\n", "\\n"))
	return b.String()
}

func c18Program(spec string) *schedProgram {
	p := &schedProgram{threads: parseThreads(spec)}
	ops := optOps()
	want := map[int][]map[string]bool{}
	doc := func() *jsonvalue.V { return jsonvalue.MustUnmarshalString(optDocText) }
	p.warm = func() {
		freshOptions()
		v := doc()
		for i := range ops {
			if ops[i].set >= 0 {
				continue
			}
			for c := range optConfigs {
				optConfigs[c].do()
				set := map[string]bool{}
				for k := 0; k < 400; k++ { // without an ordering option the order of keys is free
					set[ops[i].f(v)] = true
					if schedSetPoint != nil && k > 2 {
						break
					}
				}
				want[i] = append(want[i], set)
			}
			jsonvalue.ResetDefaultMarshalOptions()
		}
	}
	p.start = func() schedExec {
		freshOptions()
		x := &optExec{p: p, v: doc(), ops: ops, want: want}
		n := 0
		for _, l := range p.threads {
			x.first = append(x.first, n)
			n += len(l)
		}
		x.ev = make([]optEvent, n)
		return x
	}
	return p
}

// ---- coordinator ----

// explore runs one program in a process of its own and reports what it finds.
func (c *C) explore(check, bin, spec string, bound, visits int, limit int64, until time.Time) (out struct {
	Execs, Points, Choices, Stalls, Diverged int64
	MaxPoints                                int64
	Detail                                   string
	Capped                                   bool
}) {
	dir, err := os.MkdirTemp("", "mcsched")
	if err != nil {
		panic("mc: internal error: " + err.Error())
	}
	defer os.RemoveAll(dir)
	cmd := exec.Command(bin, "sched", check, spec, fmt.Sprint(bound), fmt.Sprint(limit), fmt.Sprint(visits), fmt.Sprint(until.Unix()))
	cmd.Env = append(os.Environ(), "GORACE=atexit_sleep_ms=0 exitcode=0 log_path="+filepath.Join(dir, "race"))
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	c.wait(cmd)
	if json.Unmarshal(so.Bytes(), &out) != nil {
		c.Fail("the process dies: %s", clip(se.String(), 2500))
	}
	c.Step(int(out.Choices))
	c.traces += out.Execs - 1
	if out.Detail != "" {
		var race []byte
		if fs, _ := filepath.Glob(filepath.Join(dir, "race*")); len(fs) > 0 {
			race, _ = os.ReadFile(fs[0])
		}
		os.RemoveAll(dir)
		c.Fail("%s\n%s", out.Detail, clip(string(race), 2500))
	}
	return
}
