// Package sched is a controlled scheduler for stateless model checking of real
// Go code.  Threads are real goroutines, but exactly one runs at a time; the
// running thread gives control away only at scheduling points, which the
// msync/matomic shims place before every visible synchronisation operation.
// The package is compiled WITHOUT race instrumentation (see check.py), so the
// hand-over itself creates no happens-before edge: under -race the detector
// sees only the edges the program under test creates.
package sched

import (
	"fmt"
	"runtime"
	"strings"
)

// Waiter is a condition a blocked thread waits for.
type Waiter interface{ Ready() bool }

// Thread is one controlled goroutine.
type Thread struct {
	ID    int
	turn  uint32
	done  bool
	wait  Waiter
	why   string
	panic interface{}
	stack string
	// CallPending asks the next scheduling step to stamp the call time.
	CallPending bool
	CallTime    int
}

// point is a decision taken during an execution.
type point struct {
	opts    int // number of alternatives (1 => forced)
	chosen  int
	cost    []uint8 // preemption cost of each alternative
	env     bool
	preempt int // preemptions used before this point
}

// Exec is one execution of a scenario under one schedule.
type Exec struct {
	threads  []*Thread
	cur      *Thread
	prefix   []int
	points   []point
	preempt  int
	bound    int
	clock    int
	Trace    []string
	Deadlock string
	diverged bool
	steps    int
	maxSteps int
	Overrun  bool
	trace    bool
	aborting bool
}

var cur *Exec

// Active reports whether a controlled execution is running.
//
//go:noinline
func Active() bool { return cur != nil && cur.cur != nil }

// Clock returns the logical time and advances it.
//
//go:noinline
func Clock() int {
	if cur == nil {
		return 0
	}
	cur.clock++
	return cur.clock
}

// BeginOp marks the start of an operation of the running thread: its call
// time is stamped at its first visible step.
//
//go:noinline
func BeginOp() { cur.cur.CallPending = true }

// EndOp returns the call and return time of the operation begun last.
//
//go:noinline
func EndOp() (call, ret int) {
	t := cur.cur
	if t.CallPending { // no visible step inside
		t.CallPending = false
		t.CallTime = Clock()
	}
	return t.CallTime, Clock()
}

// Me returns the running thread.
//
//go:noinline
func Me() *Thread {
	if cur == nil {
		return nil
	}
	return cur.cur
}

//go:noinline
func (t *Thread) enabled() bool {
	return !t.done && (t.wait == nil || t.wait.Ready())
}

type abortSignal struct{}

// Point is a scheduling point before a visible operation described by what.
//
//go:noinline
func Point(what string) {
	e := cur
	if e == nil || e.cur == nil {
		return
	}
	t := e.cur
	e.step(t, what)
	if t.CallPending {
		t.CallPending = false
		e.clock++
		t.CallTime = e.clock
	}
}

// Block waits until w is ready; it is a scheduling point.
//
//go:noinline
func Block(w Waiter, what string) {
	e := cur
	if e == nil || e.cur == nil {
		if !w.Ready() {
			panic("verif: blocking operation outside a controlled execution: " + what)
		}
		return
	}
	t := e.cur
	t.wait = w
	t.why = what
	e.step(t, what)
	t.wait = nil
	if t.CallPending {
		t.CallPending = false
		e.clock++
		t.CallTime = e.clock
	}
}

// Choose is an environment choice among n alternatives.
//
//go:noinline
func Choose(n int, what string) int {
	e := cur
	if e == nil || e.cur == nil || n <= 1 {
		return 0
	}
	c := e.decide(n, nil, true)
	if e.trace {
		e.Trace = append(e.Trace, fmt.Sprintf("env %s=%d", what, c))
	}
	return c
}

//go:noinline
func (e *Exec) decide(n int, cost []uint8, env bool) int {
	i := len(e.points)
	c := 0
	if i < len(e.prefix) {
		c = e.prefix[i]
		if c >= n {
			e.diverged = true
			c = 0
		}
	}
	e.points = append(e.points, point{opts: n, chosen: c, cost: cost, env: env, preempt: e.preempt})
	if cost != nil {
		e.preempt += int(cost[c])
	}
	return c
}

// step lets the schedule pick who runs next; it returns when t runs again.
//
//go:noinline
func (e *Exec) step(t *Thread, what string) {
	if e.aborting {
		panic(abortSignal{})
	}
	e.steps++
	if e.steps > e.maxSteps {
		e.Overrun = true
		e.abort(t)
	}
	var opts [16]*Thread
	n := 0
	selfEnabled := t.enabled()
	if selfEnabled {
		opts[n] = t
		n++
	}
	for _, o := range e.threads {
		if o != t && o.enabled() {
			opts[n] = o
			n++
		}
	}
	if n == 0 {
		var sb strings.Builder
		for _, o := range e.threads {
			if !o.done {
				fmt.Fprintf(&sb, "T%d waits in %s; ", o.ID, o.why)
			}
		}
		if !t.done {
			e.Deadlock = "deadlock: " + sb.String()
			e.abort(t)
		}
		return
	}
	c := 0
	if n > 1 {
		cost := make([]uint8, n)
		if selfEnabled {
			for i := 1; i < n; i++ {
				cost[i] = 1
			}
		}
		c = e.decide(n, cost, false)
	}
	next := opts[c]
	if e.trace && !t.done {
		e.Trace = append(e.Trace, fmt.Sprintf("T%d at %s -> run T%d", t.ID, what, next.ID))
	}
	if next == t {
		return
	}
	e.switchTo(t, next)
}

//go:noinline
func (e *Exec) switchTo(t, next *Thread) {
	e.cur = next
	next.turn = 1
	if t.done {
		return
	}
	for t.turn == 0 {
		runtime.Gosched()
	}
	t.turn = 0
	if e.aborting {
		panic(abortSignal{})
	}
}

// abort unwinds the whole execution from thread t.
//
//go:noinline
func (e *Exec) abort(t *Thread) {
	e.aborting = true
	panic(abortSignal{})
}

// Result of one execution.
type Result struct {
	Deadlock string
	Overrun  bool
	Panics   []string
	Trace    []string
	Choices  []int
}

// Scenario builds fresh state and returns thread bodies plus a final check.
type Scenario struct {
	Name string
	// Setup returns the thread bodies and a check run after all finished;
	// check returns "" or a description of the violation.
	Setup func() (bodies []func(), check func() string)
}

// Stats of an exploration.
type Stats struct {
	Schedules   int
	Transitions int
	Exhaustive  bool
	Bound       int
	MaxPoints   int
}

// Violation found during an exploration.
type Violation struct {
	Kind    string
	Msg     string
	Choices []int
	Trace   []string
}

// RaceErrors is set in race builds.
var RaceErrors = func() int { return 0 }

// RaceJoin/RaceMerge create the join edge from finished threads to the checker.
var (
	RaceMerge   = func() {}
	RaceJoinAll = func() {}
	RaceFlush   = func() string { return "" }
)

//go:noinline
func runOnce(sc *Scenario, prefix []int, bound int, trace bool) (*Exec, Result, func() string) {
	cur = nil
	bodies, check := sc.Setup()
	e := &Exec{prefix: prefix, bound: bound, maxSteps: 20000, trace: trace}
	for i := range bodies {
		e.threads = append(e.threads, &Thread{ID: i})
	}
	for i := range bodies {
		startThread(e, e.threads[i], bodies[i])
	}
	// first decision: who starts
	cur = e
	c := 0
	if len(bodies) > 1 {
		c = e.decide(len(bodies), make([]uint8, len(bodies)), false)
	}
	first := e.threads[c]
	if trace {
		e.Trace = append(e.Trace, fmt.Sprintf("start T%d", first.ID))
	}
	e.cur = first
	first.turn = 1
	for {
		all := true
		for _, t := range e.threads {
			if !t.done {
				all = false
			}
		}
		if all {
			break
		}
		runtime.Gosched()
	}
	RaceJoinAll()
	cur = nil
	r := Result{Deadlock: e.Deadlock, Overrun: e.Overrun, Trace: e.Trace}
	for _, t := range e.threads {
		if t.panic != nil {
			r.Panics = append(r.Panics, fmt.Sprintf("T%d panicked: %v\n%s", t.ID, t.panic, t.stack))
		}
	}
	for _, p := range e.points {
		r.Choices = append(r.Choices, p.chosen)
	}
	return e, r, check
}

//go:noinline
func startThread(e *Exec, t *Thread, body func()) {
	go func() {
		for t.turn == 0 {
			runtime.Gosched()
		}
		t.turn = 0
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(abortSignal); !ok {
					t.panic = p
					buf := make([]byte, 8192)
					t.stack = string(buf[:runtime.Stack(buf, false)])
					e.aborting = true // stop the others at their next point
				}
			}
			t.why = "finished"
			RaceMerge()
			t.done = true
			finish(e, t)
		}()
		if !e.aborting {
			body()
		}
	}()
}

// finish hands control to another thread after t ended.
//
//go:noinline
func finish(e *Exec, t *Thread) {
	if e.aborting {
		// wake the remaining threads one at a time so that they unwind
		for _, o := range e.threads {
			if !o.done {
				e.cur = o
				o.turn = 1
				return
			}
		}
		e.cur = nil
		return
	}
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(abortSignal); !ok {
				panic(p)
			}
		}
	}()
	live := false
	for _, o := range e.threads {
		if !o.done {
			live = true
		}
	}
	if !live {
		e.cur = nil
		return
	}
	anyEnabled := false
	for _, o := range e.threads {
		if o.enabled() {
			anyEnabled = true
		}
	}
	if !anyEnabled {
		var sb strings.Builder
		for _, o := range e.threads {
			if !o.done {
				fmt.Fprintf(&sb, "T%d waits in %s; ", o.ID, o.why)
			}
		}
		e.Deadlock = "deadlock: " + sb.String()
		e.aborting = true
		finish(e, t)
		return
	}
	e.step(t, "exit")
}

// Explore enumerates every schedule of sc with at most bound preemptions
// (bound < 0: no bound).  stop is polled between executions.
//
//go:noinline
func Explore(sc *Scenario, bound int, stop func() bool) (Stats, *Violation) {
	st := Stats{Exhaustive: true, Bound: bound}
	var prefix []int
	races := RaceErrors()
	for {
		if stop != nil && stop() {
			st.Exhaustive = false
			return st, nil
		}
		e, r, check := runOnce(sc, prefix, bound, false)
		st.Schedules++
		st.Transitions += e.steps
		if len(e.points) > st.MaxPoints {
			st.MaxPoints = len(e.points)
		}
		v := judge(r, check)
		if v == nil && RaceErrors() > races {
			v = &Violation{Kind: "race", Msg: "data race: " + RaceFlush(), Choices: r.Choices}
		}
		if v != nil {
			_, r2, _ := runOnce(sc, r.Choices, bound, true)
			v.Trace = r2.Trace
			return st, v
		}
		if e.diverged {
			return st, &Violation{Kind: "internal", Msg: "schedule replay diverged (nondeterministic scenario)", Choices: r.Choices}
		}
		// backtrack
		i := len(e.points) - 1
		found := false
		for ; i >= 0 && !found; i-- {
			p := e.points[i]
			for c := p.chosen + 1; c < p.opts; c++ {
				if bound >= 0 && p.cost != nil && p.preempt+int(p.cost[c]) > bound {
					continue
				}
				prefix = prefix[:0]
				for k := 0; k < i; k++ {
					prefix = append(prefix, e.points[k].chosen)
				}
				prefix = append(prefix, c)
				found = true
				break
			}
		}
		if !found {
			return st, nil
		}
	}
}

//go:noinline
func judge(r Result, check func() string) *Violation {
	if len(r.Panics) > 0 {
		return &Violation{Kind: "panic", Msg: strings.Join(r.Panics, "\n"), Choices: r.Choices}
	}
	if r.Deadlock != "" {
		return &Violation{Kind: "deadlock", Msg: r.Deadlock, Choices: r.Choices}
	}
	if r.Overrun {
		return &Violation{Kind: "livelock", Msg: "execution exceeded the step bound", Choices: r.Choices}
	}
	if check != nil {
		if m := safeCheck(check); m != "" {
			return &Violation{Kind: "check", Msg: m, Choices: r.Choices}
		}
	}
	return nil
}

//go:noinline
func safeCheck(f func() string) (m string) {
	defer func() {
		if p := recover(); p != nil {
			buf := make([]byte, 4096)
			m = fmt.Sprintf("panic in the final observation: %v\n%s", p, buf[:runtime.Stack(buf, false)])
		}
	}()
	return f()
}
