// Package nd is the interface between a harness and the checker. Under the symbolic
// executor every function here is interpreted: inputs are fresh symbolic variables,
// Assert is a query. Compiled natively the inputs come from a file of concrete values,
// which is how counterexamples are replayed and passing paths are validated.
package nd

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"sync"
	"time"
)

type inputVal struct {
	Kind string `json:"k"`
	Name string `json:"n"`
	I    int64  `json:"i"`
	S    []int  `json:"s"`
}

type obsVal struct {
	Name string `json:"n"`
	Val  string `json:"v"`
}

type runCase struct {
	Harness string           `json:"harness"`
	Inputs  []inputVal       `json:"inputs"`
	Params  map[string]int64 `json:"params"`
	Repeat  int              `json:"repeat"`
	BudgetS float64          `json:"budget_s"`
}

type result struct {
	Case    int      `json:"case"`
	Outcome string   `json:"outcome"` // ok, assert, panic, assume, mismatch
	Msg     string   `json:"msg"`
	Obs     []obsVal `json:"obs"`
	Runs    int      `json:"runs"`
}

type stopAssert struct{ msg string }
type stopAssume struct{}
type stopMismatch struct{ msg string }

var (
	cur    *runCase
	pos    int
	obs    []obsVal
	covers = map[string]int{}
	inPar  bool
)

func next(kind, name string) inputVal {
	if pos >= len(cur.Inputs) {
		panic(stopMismatch{"more inputs requested than recorded: " + name})
	}
	v := cur.Inputs[pos]
	pos++
	if v.Name != name {
		panic(stopMismatch{fmt.Sprintf("input %q requested, %q recorded", name, v.Name)})
	}
	return v
}

// Bool is an arbitrary boolean.
func Bool(name string) bool { return next("bool", name).I != 0 }

// Int is an arbitrary integer in lo..hi.
func Int(name string, lo, hi int) int { return int(next("int", name).I) }

// Byte is an arbitrary byte.
func Byte(name string) byte { return byte(next("int", name).I) }

// Choice is an arbitrary integer in 0..n-1, explored case by case.
func Choice(name string, n int) int { return int(next("int", name).I) }

func str(v inputVal) string {
	b := make([]byte, len(v.S))
	for i, x := range v.S {
		b[i] = byte(x)
	}
	return string(b)
}

// Str is an arbitrary byte string of length 0..max.
func Str(name string, max int) string { return str(next("str", name)) }

// Pick is an arbitrary element of the list.
func Pick(name string, of ...string) string { return str(next("str", name)) }

// Assume restricts the explored inputs.
func Assume(c bool) {
	if !c {
		panic(stopAssume{})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		panic(stopAssert{msg})
	}
}

// Cover is a reachability witness: the checker requires every one to be reached.
func Cover(name string) {}

// CoverIf is a witness that the condition can hold here.
func CoverIf(c bool, name string) {}

// Observe records a value that must agree between the encoding and the real run.
func Observe(name string, v any) {
	s := ""
	switch x := v.(type) {
	case string:
		s = strconv.Quote(x)
	default:
		s = fmt.Sprint(x)
	}
	obs = append(obs, obsVal{name, s})
}

// MapOrder chooses how map iteration is explored: 0 insertion order, 1 insertion order or
// its reverse (chosen once), 2 every order of every iteration.
func MapOrder(mode int) {}

// P is a bound of the harness, set per tier.
func P(name string, def int) int {
	if v, ok := cur.Params[name]; ok {
		return int(v)
	}
	return def
}

// Symbolic tells whether the harness runs under the symbolic executor.
func Symbolic() bool { return false }

// Advance moves the clock.
func Advance(d time.Duration) { time.Sleep(d) }

// Par runs the functions concurrently; the checker explores every schedule with at most
// preempt preemptive switches at synchronisation operations.
func Par(preempt int, fs ...func()) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	pans := make([]any, len(fs))
	for i, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { pans[i] = recover() }()
			<-start
			if i%2 == 1 {
				runtime.Gosched()
			}
			f()
		}()
	}
	close(start)
	wg.Wait()
	for _, p := range pans {
		if p != nil {
			panic(p)
		}
	}
}

func once(f func()) (outcome, msg string) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case stopAssert:
				outcome, msg = "assert", x.msg
			case stopAssume:
				outcome = "assume"
			case stopMismatch:
				outcome, msg = "mismatch", x.msg
			default:
				outcome, msg = "panic", fmt.Sprint(r)
			}
		}
	}()
	pos = 0
	obs = []obsVal{}
	f()
	return "ok", ""
}

// Main replays recorded cases natively.
func Main(hs map[string]func()) {
	data, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var cases []runCase
	if err := json.Unmarshal(data, &cases); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	out, err := os.Create(os.Args[2])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	for i := range cases {
		cur = &cases[i]
		f := hs[cur.Harness]
		if f == nil {
			fmt.Fprintln(os.Stderr, "no harness", cur.Harness)
			os.Exit(3)
		}
		res := result{Case: i}
		t0 := time.Now()
		for r := 0; r == 0 || r < cur.Repeat; r++ {
			res.Runs++
			res.Outcome, res.Msg = once(f)
			if res.Outcome != "ok" {
				break
			}
			if cur.BudgetS > 0 && time.Since(t0).Seconds() > cur.BudgetS {
				break
			}
		}
		res.Obs = obs
		b, _ := json.Marshal(res)
		fmt.Fprintln(out, string(b))
	}
	out.Close()
}

// One: s is one of the values.
func One(s string, values ...string) bool {
	r := false
	for _, v := range values {
		e := s == v
		r = r || e
	}
	return r
}
