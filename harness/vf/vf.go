// Package vf is the harness library. Under the symbolic engine the functions that draw inputs, assume and assert are
// intercepted; compiled natively they read a recorded counterexample and check it against the real build.
package vf

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Input struct {
	Name  string `json:"name"`
	Kind  string `json:"kind"`
	Value string `json:"value"`
}

type Obs struct {
	Label string `json:"label"`
	Value string `json:"value"`
}

type Outcome struct {
	Status  string   `json:"status"` // ok, violated, assume, panic, missing
	Label   string   `json:"label"`
	Labels  []string `json:"labels"`
	Obs     []Obs    `json:"obs"`
	Reached []string `json:"reached"`
}

var (
	mu      sync.Mutex
	inputs  map[string]Input
	counts  map[string]int
	out     *Outcome
	thor    bool
	missing []string
)

type stop struct{ status, label string }

// ReplayMain runs f with the recorded inputs of the file and returns what happened.
func ReplayMain(data []byte, f func()) (o Outcome) {
	var in struct {
		Inputs   []Input `json:"inputs"`
		Thorough bool    `json:"thorough"`
	}
	if err := json.Unmarshal(data, &in); err != nil {
		return Outcome{Status: "missing", Label: err.Error()}
	}
	inputs, counts, out = map[string]Input{}, map[string]int{}, &o
	missing = nil
	thor = in.Thorough
	for _, i := range in.Inputs {
		inputs[i.Name] = i
	}
	o.Status = "ok"
	func() {
		defer func() {
			if r := recover(); r != nil {
				if s, ok := r.(stop); ok {
					if s.status != "done" {
						o.Status, o.Label = s.status, s.label
					}
					return
				}
				buf := make([]byte, 8192)
				buf = buf[:runtime.Stack(buf, false)]
				o.Status, o.Label = "panic", fmt.Sprintf("%v\n%s", r, buf)
			}
		}()
		f()
	}()
	if o.Status == "ok" && len(o.Labels) > 0 {
		o.Status, o.Label = "violated", o.Labels[0]
	}
	if len(missing) > 0 && o.Status == "ok" {
		o.Status, o.Label = "missing", strings.Join(missing, ",")
	}
	return o
}

func draw(name string) (Input, bool) {
	mu.Lock()
	defer mu.Unlock()
	n := counts[name]
	counts[name] = n + 1
	if n > 0 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	i, ok := inputs[name]
	if !ok {
		missing = append(missing, name)
	}
	return i, ok
}

// Symbolic reports whether the harness runs under the symbolic engine.
func Symbolic() bool { return false }

// Thorough reports whether the deep bounds are asked for.
func Thorough() bool { return thor }

func Bool(name string) bool { i, _ := draw(name); return i.Value == "true" }

// Int draws an integer in [lo, hi].
func Int(name string, lo, hi int) int {
	i, ok := draw(name)
	if !ok {
		return lo
	}
	v, _ := strconv.ParseInt(i.Value, 10, 64)
	return int(v)
}

func Int64(name string, lo, hi int64) int64 {
	i, ok := draw(name)
	if !ok {
		return lo
	}
	v, _ := strconv.ParseInt(i.Value, 10, 64)
	return v
}

// Choose picks one of 0..n-1; every alternative is explored as a path of its own.
func Choose(name string, n int) int {
	if n <= 1 {
		return chooseOne(name)
	}
	i, _ := draw(name)
	v, _ := strconv.Atoi(i.Value)
	return v
}

func chooseOne(name string) int { draw(name); return 0 }

// Big draws an integer in [lo, hi] of arbitrary size.
func Big(name, lo, hi string) *big.Int {
	i, ok := draw(name)
	if !ok {
		v, _ := new(big.Int).SetString(lo, 10)
		return v
	}
	v, _ := new(big.Int).SetString(i.Value, 10)
	return v
}

// Decimal draws the float64 nearest to m/10^k with lo <= m <= hi (at most 15 digits).
func Decimal(name string, lo, hi int64, k int) float64 {
	i, ok := draw(name)
	if !ok {
		i.Value = fmt.Sprintf("%d/%d", lo, k)
	}
	m, e, _ := strings.Cut(i.Value, "/")
	f, _ := strconv.ParseFloat(m+"e-"+e, 64)
	return f
}

// DecimalM is Decimal together with m.
func DecimalM(name string, lo, hi int64, k int) (float64, *big.Int) {
	i, ok := draw(name)
	if !ok {
		i.Value = fmt.Sprintf("%d/%d", lo, k)
	}
	m, e, _ := strings.Cut(i.Value, "/")
	f, _ := strconv.ParseFloat(m+"e-"+e, 64)
	v, _ := new(big.Int).SetString(m, 10)
	return f, v
}

// Str draws a string of lo..hi bytes from the character set (ranges such as "a-z0-9_"; empty: any byte).
func Str(name string, lo, hi int, set string) string {
	i, _ := draw(name)
	b := make([]byte, len(i.Value)/2)
	for k := range b {
		v, _ := strconv.ParseUint(i.Value[2*k:2*k+2], 16, 8)
		b[k] = byte(v)
	}
	return string(b)
}

func Assume(c bool) {
	if !c {
		panic(stop{"assume", ""})
	}
}

func Assert(c bool, label string) {
	if !c {
		mu.Lock()
		if out != nil {
			out.Labels = append(out.Labels, label)
		}
		mu.Unlock()
	}
}

func Reach(label string) {
	mu.Lock()
	defer mu.Unlock()
	if out != nil {
		out.Reached = append(out.Reached, label)
	}
}

// Observe records a value; native and symbolic runs of the same inputs must agree on it.
func Observe(label string, v any) {
	mu.Lock()
	defer mu.Unlock()
	if out != nil {
		out.Obs = append(out.Obs, Obs{label, render(v)})
	}
}

func render(v any) string {
	switch x := v.(type) {
	case *big.Int:
		if x == nil {
			return "<nil>"
		}
		return x.String()
	case nil:
		return "<nil>"
	}
	return fmt.Sprint(v)
}

func Debug(label string, v any) {
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Println("DEBUG", label, v)
	}
}
func MapOrder(on bool) {}

// Inconclusive ends the path without a verdict.
func Inconclusive(why string) { panic(stop{"inconclusive", why}) }

// Stop ends the path.
func Stop() { panic(stop{"done", ""}) }

func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Not(a bool) bool        { return !a }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }
func IteBig(c bool, a, b *big.Int) *big.Int {
	if c {
		return new(big.Int).Set(a)
	}
	return new(big.Int).Set(b)
}
func StrEq(a, b string) bool { return a == b }

// Big comparisons that do not fork the path.
func BigEq(a, b *big.Int) bool { return a.Cmp(b) == 0 }
func BigLe(a, b *big.Int) bool { return a.Cmp(b) <= 0 }
func BigLt(a, b *big.Int) bool { return a.Cmp(b) < 0 }

func IsConcrete(s string) bool { return true }

func gid() int {
	var buf [64]byte
	n := runtime.Stack(buf[:], false)
	f := strings.Fields(string(buf[:n]))
	if len(f) < 2 {
		return -1
	}
	v, _ := strconv.Atoi(f[1])
	return v
}

// Sum adds integers without touching its arguments.
func Sum(xs ...*big.Int) *big.Int {
	r := new(big.Int)
	for _, x := range xs {
		r.Add(r, x)
	}
	return r
}

// ---- cooperative schedules

type task struct {
	wake  chan bool
	done  bool
	ready func() bool
	id    int
	pan   any
}

type sched struct {
	tasks  []*task
	cur    *task
	back   chan bool
	budget int
	free   bool // the running task asked to be descheduled
	steps  int
}

var active *sched

// Par runs the functions as tasks that switch only at Yield, Block and Busy; which task runs next is a choice that is
// explored exhaustively, with at most budget preemptions. It reports false when no task can make progress any more.
func Par(budget int, fs ...func()) bool {
	s := &sched{back: make(chan bool), budget: budget}
	prev := active
	active = s
	for _, f := range fs {
		t := &task{wake: make(chan bool)}
		s.tasks = append(s.tasks, t)
		f := f
		go func() {
			<-t.wake
			t.id = gid()
			defer func() {
				t.pan = recover()
				t.done = true
				s.back <- true
			}()
			f()
		}()
	}
	ok := true
	for {
		var run []*task
		if s.cur != nil && !s.cur.done && !s.free && (s.cur.ready == nil || s.cur.ready()) {
			run = append(run, s.cur)
		}
		preempt := len(run) > 0
		left := false
		for _, t := range s.tasks {
			if t.done {
				continue
			}
			left = true
			if preempt && t == s.cur {
				continue
			}
			if t.ready == nil || t.ready() {
				if s.free && t == s.cur {
					continue
				}
				run = append(run, t)
			}
		}
		if len(run) == 0 && s.free && !s.cur.done {
			run = append(run, s.cur)
		}
		if !left {
			break
		}
		if len(run) == 0 {
			ok = false
			break
		}
		s.steps++
		if s.steps > 4000 {
			Inconclusive("schedule too long")
		}
		k := 0
		if len(run) > 1 && (!preempt || s.budget > 0) {
			k = Choose("sched", len(run))
			if preempt && k > 0 {
				s.budget--
			}
		}
		s.free = false
		s.cur = run[k]
		s.cur.wake <- true
		<-s.back
		if s.cur.pan != nil {
			active = prev
			panic(s.cur.pan)
		}
	}
	active = prev
	return ok
}

// Yield is a possible switch point.
func Yield() { pause(nil, false) }

// Busy is a switch point of a task that found it cannot make progress now.
func Busy() { pause(nil, true) }

// Block suspends the task until ready holds.
func Block(ready func() bool) {
	if ready() {
		return
	}
	pause(ready, true)
}

// InPar reports whether tasks are being scheduled.
func InPar() bool { return active != nil }

func pause(ready func() bool, free bool) {
	s := active
	if s == nil || s.cur == nil {
		return
	}
	t := s.cur
	if gid() != t.id {
		return // a goroutine of the code under test, not a task
	}
	t.ready = ready
	s.free = free
	s.back <- true
	<-t.wake
	t.ready = nil
}

// TaskID is the index of the running task.
func TaskID() int {
	if active == nil {
		return -1
	}
	for i, t := range active.tasks {
		if t == active.cur {
			return i
		}
	}
	return -1
}

// Field reads an unexported field of the struct behind a pointer (symbolic runs only).
func Field(p any, name string) any { panic("vf.Field: symbolic runs only") }

// WaitAll waits until every other goroutine has finished or waits for something.
func WaitAll() { time.Sleep(50 * time.Millisecond) }
