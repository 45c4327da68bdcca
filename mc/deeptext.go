package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"runtime/debug"
	"strconv"
	"strings"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

// Texts nested so deeply that the recursive parser may run out of stack are parsed in a process of their own ("mc deep KIND LEVELS").

var deepKinds = []struct{ name, open, bottom, close string }{
	{"arrays", "[", "", "]"},
	{"objects", `{"a":`, "1", "}"},
	{"arrays and objects", `[{"a":`, "[]", "}]"},
	{"arrays, unterminated", "[", "", ""},
	{"objects, unterminated", `{"a":`, "", ""},
	{"arrays, closed wrongly", "[", "1", "}"},
}

func deepMain(kind, levels string) {
	debug.SetMaxStack(1000000000) // the default of the runtime on 64-bit systems
	k, _ := strconv.Atoi(kind)
	n, _ := strconv.Atoi(levels)
	d := deepKinds[k]
	text := []byte(strings.Repeat(d.open, n) + d.bottom + strings.Repeat(d.close, n))
	v, err := jsonvalue.Unmarshal(text)
	switch {
	case v == nil:
		fmt.Println("the parser returns nil")
	case k >= 3 && err == nil:
		fmt.Println("no error")
	case k >= 3 && v.ValueType() != jsonvalue.NotExist:
		fmt.Println("a failed parse returns an existing value")
	case k < 3 && err != nil:
		fmt.Println("rejected:", err)
	case k < 3:
		got := 0
		for v.Len() > 0 {
			if got++; v.IsArray() {
				v = v.MustGet(0)
			} else {
				v = v.MustGet("a")
			}
		}
		// a pair of brackets without content and [[]] at the bottom are not counted by the walk
		want := []int{n - 1, n, 2 * n}[k]
		if got != want {
			fmt.Printf("%d levels have content, should be %d\n", got, want)
			return
		}
		fmt.Println("ok")
	default:
		fmt.Println("ok")
	}
	os.Exit(0)
}

func deepTexts(r *Run, from, to int) {
	r.Seq("stack", "texts nested 2^16, 2^18 and 2^23 levels deep, each parsed in a process of its own: "+deepKinds[from].name+" and so on", func(c *C) {
		for k := from; k < to; k++ {
			for _, n := range []int{1 << 16, 1 << 18, 1 << 23} {
				c.Do(func() string { return fmt.Sprintf("%s, %d times", deepKinds[k].name, n) }, func() {
					c.Step(1)
					c.State(uint64(k)<<32 | uint64(n))
					cmd := exec.Command(os.Args[0], "deep", strconv.Itoa(k), strconv.Itoa(n))
					cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
					var out, errb bytes.Buffer
					cmd.Stdout, cmd.Stderr = &out, &errb
					err := c.wait(cmd)
					s := strings.TrimSpace(out.String())
					if err == nil && s == "ok" {
						return
					}
					if s == "" && errb.Len() == 0 && n >= 1<<23 {
						return // ended from outside, by the lack of memory
					}
					if s == "" {
						s = "the process dies: " + clip(errb.String(), 600)
						if n >= 1<<23 && strings.Contains(errb.String(), "stack overflow") {
							c.Known("stack-exhaustion", "%s", s)
							return
						}
					}
					c.Fail("%s", s)
				})
			}
		}
	})
}
