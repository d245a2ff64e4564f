// Package nd is the interface between harnesses and their two executions. In
// the symbolic execution every function below is replaced by the checker. In
// the native execution, which replays counterexamples on the real code, values
// are read from recorded inputs.
package nd

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"sync"
	"time"
)

type state struct {
	m       sync.Mutex
	index   int
	runs    int
	inputs  map[string]string
	count   map[string]int
	trace   []string
	reached map[string]bool
}

var cur = &state{}

type result struct {
	Index   int      `json:"index"`
	Status  string   `json:"status"`
	Label   string   `json:"label"`
	Detail  string   `json:"detail"`
	Trace   []string `json:"trace"`
	Reached []string `json:"reached"`
	Runs    int      `json:"runs"`
}

func emit(status, label, detail string) {
	r := result{Index: cur.index, Status: status, Label: label, Detail: detail, Trace: cur.trace, Runs: cur.runs}
	for l := range cur.reached {
		r.Reached = append(r.Reached, l)
	}
	b, _ := json.Marshal(r)
	os.Stdout.WriteString("@RESULT " + string(b) + "\n")
}

func raw(name string) (string, bool) {
	cur.m.Lock()
	defer cur.m.Unlock()
	n := cur.count[name]
	cur.count[name] = n + 1
	v, ok := cur.inputs[fmt.Sprintf("%s#%d", name, n)]
	return v, ok
}

func rawInt(name string) (int64, bool) {
	v, ok := raw(name)
	if !ok {
		return 0, false
	}
	n, err := strconv.ParseInt(v, 10, 64)
	return n, err == nil
}

// Symbolic tells whether the harness is executed symbolically.
func Symbolic() bool { return false }

// Bool is an arbitrary boolean.
func Bool(name string) bool { v, _ := raw(name); return v == "true" }

// Flip is an arbitrary boolean, explored separately for each value.
func Flip(name string) bool { return Bool(name) }

// Int is an arbitrary integer in [lo, hi].
func Int(name string, lo, hi int) int {
	n, ok := rawInt(name)
	if !ok {
		return lo
	}
	if int(n) < lo || int(n) > hi {
		// the input was recorded for another call
		Assume(false)
	}
	return int(n)
}

// Pick is an arbitrary integer in [0, n), explored separately for each value.
func Pick(name string, n int) int { return Int(name, 0, n-1) }

// Str is an arbitrary one of the given strings.
func Str(name string, choices ...string) string {
	return choices[Int(name, 0, len(choices)-1)]
}

// Time is an arbitrary time between 1970 and 2106 with nanosecond precision.
func Time(name string) time.Time {
	s, _ := rawInt(name + ".sec")
	n, _ := rawInt(name + ".nsec")
	return time.Unix(s, n).UTC()
}

// Assume restricts the executions considered.
func Assume(cond bool) {
	if !cond {
		cur.m.Lock()
		emit("assume", "", "")
		os.Exit(0)
	}
}

// Assert states a property that must hold in every execution.
func Assert(cond bool, label string, detail ...any) {
	if !cond {
		cur.m.Lock()
		emit("violation", label, fmt.Sprintln(detail...))
		os.Exit(0)
	}
}

// Field returns the exported field of a struct or of what it points to, or nil.
func Field(v any, name string) any {
	x := reflect.ValueOf(v)
	if x.Kind() == reflect.Pointer {
		x = x.Elem()
	}
	if x.Kind() != reflect.Struct {
		return nil
	}
	f := x.FieldByName(name)
	if !f.IsValid() || !f.CanInterface() {
		return nil
	}
	return f.Interface()
}

// Reach marks a point that must be reachable (vacuity guard).
func Reach(label string) {
	cur.m.Lock()
	defer cur.m.Unlock()
	cur.reached[label] = true
}

// Trace records values compared between the two executions.
func Trace(label string, vals ...any) {
	s := label
	for _, v := range vals {
		s += " " + fmt.Sprint(v)
	}
	cur.m.Lock()
	defer cur.m.Unlock()
	cur.trace = append(cur.trace, s)
}

// Yield is a point where another goroutine may run.
func Yield() {
	switch rand() % 4 {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(time.Duration(rand()%50) * time.Microsecond)
	case 2:
		time.Sleep(time.Duration(rand()%3) * time.Millisecond)
	}
}

// MapOrders considers insertion order and its reverse for map iteration.
func MapOrders() {}

// AllMapOrders considers every order of each iteration over a map of up to four
// entries in the code under test, and two orders for larger maps.
func AllMapOrders() {}

// Choose returns the nth of the given strings, n being within bounds.
func Choose(n int, choices ...string) string { return choices[n] }

// Texts sets the number of different values a symbolic text may have before
// it is no longer modelled.
func Texts(n int) {}

// Render makes messages in reports be rendered in full.
func Render() {}

// Preemptions sets the number of preemptive context switches considered.
func Preemptions(n int) {}

// Race turns on happens-before race detection.
func Race() {}

// And, Or and Iff build conditions without exploring their parts separately.
func And(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}

func Or(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}

func Iff(a, b bool) bool { return a == b }

// IteInt selects without exploring the condition separately.
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Goexited runs f in its own goroutine and reports how it ended: 0 returned,
// 1 panicked (with the value), 2 called runtime.Goexit.
func Goexited(f func()) (how int, v any) {
	how = 2
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if how != 0 {
				if r := recover(); r != nil {
					how, v = 1, r
				}
			}
		}()
		f()
		how = 0
	}()
	<-done
	return how, v
}

var rs uint64 = 88172645463325252

var rsm sync.Mutex

func rand() uint64 {
	rsm.Lock()
	defer rsm.Unlock()
	rs ^= rs << 13
	rs ^= rs >> 7
	rs ^= rs << 17
	return rs
}

type request struct {
	Inputs map[string]string `json:"inputs"`
	Repeat int               `json:"repeat"`
}

// Main runs recorded inputs natively: ARGS harness requests.json.
func Main(hs map[string]func()) {
	h := hs[os.Args[1]]
	if h == nil {
		fmt.Fprintln(os.Stderr, "unknown harness", os.Args[1])
		os.Exit(3)
	}
	b, err := os.ReadFile(os.Args[2])
	if err != nil {
		panic(err)
	}
	var reqs []request
	if err := json.Unmarshal(b, &reqs); err != nil {
		panic(err)
	}
	rs += uint64(os.Getpid())
	for i, r := range reqs {
		os.Stdout.WriteString(fmt.Sprintf("@START %d\n", i))
		t0 := time.Now()
		for n := 0; n == 0 || n < r.Repeat && time.Since(t0) < 20*time.Second; n++ {
			cur = &state{index: i, runs: n + 1, inputs: r.Inputs, count: map[string]int{}, reached: map[string]bool{}}
			done := make(chan string)
			go func() {
				msg := "goexit"
				defer func() {
					if msg != "" {
						if p := recover(); p != nil {
							msg = fmt.Sprint("panic: ", p)
							buf := make([]byte, 4096)
							msg += "\n" + string(buf[:runtime.Stack(buf, false)])
						}
					}
					done <- msg
				}()
				h()
				msg = ""
			}()
			if msg := <-done; msg != "" {
				emit("violation", "unexpected-panic", msg)
				os.Exit(0)
			}
		}
		cur.m.Lock()
		emit("ok", "", "")
		cur.m.Unlock()
	}
}
