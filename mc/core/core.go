// Package core holds the shared parts of the checks: registration, result
// fragments, exhaustive-enumeration helpers, the hang watchdog.
package core

import (
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Violation is one failing case.
type Violation struct {
	Sig    string      `json:"sig"`
	Msg    string      `json:"msg"`
	Replay interface{} `json:"replay,omitempty"`
}

// Frag is what one check process reports to the driver.
type Frag struct {
	ID          string                 `json:"id"`
	States      int64                  `json:"states"`
	Transitions int64                  `json:"transitions"`
	Schedules   int64                  `json:"schedules"`
	Traces      int64                  `json:"traces"`
	Nontrivial  int64                  `json:"nontrivial"`
	Exhaustive  bool                   `json:"exhaustive"`
	Bounds      map[string]interface{} `json:"bounds"`
	Samples     []string               `json:"samples"`
	Violations  []Violation            `json:"violations"`
	Parts       map[string]int64       `json:"parts"`
	WallS       float64                `json:"wall_s"`
}

// Run is the context of one check.
type Run struct {
	ID       string
	Thorough bool
	Shard    int
	Shards   int
	deadline time.Time
	mu       sync.Mutex
	f        Frag
	perSig   map[string]int
	states   atomic.Int64
	trans    atomic.Int64
	nontriv  atomic.Int64
	traces   atomic.Int64
	active   sync.Map // worker key -> *caseRec
	expired  atomic.Bool
	out      string
}

type caseRec struct {
	label atomic.Pointer[string]
	since atomic.Int64
}

// Func is a check body.
type Func func(r *Run)

var props = map[string]Func{}

// Register adds a check.
func Register(id string, f Func) {
	if _, dup := props[id]; dup {
		panic("duplicate check " + id)
	}
	props[id] = f
}

// Main runs the check named on the command line.
func Main() {
	id := flag.String("id", "", "property id")
	tier := flag.String("tier", "quick", "quick|thorough")
	out := flag.String("out", "", "fragment path")
	shard := flag.Int("shard", 0, "")
	shards := flag.Int("shards", 1, "")
	dl := flag.Float64("deadline", 300, "seconds")
	list := flag.Bool("list", false, "")
	flag.Parse()
	if *list {
		var ids []string
		for k := range props {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	f, ok := props[*id]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such check in this binary:", *id)
		os.Exit(3)
	}
	r := &Run{ID: *id, Thorough: *tier == "thorough", Shard: *shard, Shards: *shards,
		deadline: time.Now().Add(time.Duration(*dl * float64(time.Second))), perSig: map[string]int{}, out: *out}
	r.f = Frag{ID: *id, Exhaustive: true, Bounds: map[string]interface{}{}, Parts: map[string]int64{}}
	start := time.Now()
	go r.watchdog()
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if p := recover(); p != nil {
				buf := make([]byte, 16384)
				n := runtime.Stack(buf, false)
				r.Fail("panic:"+firstLine(fmt.Sprint(p)), fmt.Sprintf("panic: %v\n%s", p, buf[:n]), nil)
			}
		}()
		f(r)
	}()
	<-done
	r.finish(start)
}

func (r *Run) finish(start time.Time) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.f.States = r.states.Load()
	r.f.Transitions = r.trans.Load()
	r.f.Nontrivial = r.nontriv.Load()
	r.f.Traces = r.traces.Load()
	if r.expired.Load() {
		r.f.Exhaustive = false
	}
	r.f.WallS = time.Since(start).Seconds()
	b, err := json.Marshal(sanitize(r.f))
	if err != nil {
		fmt.Fprintln(os.Stderr, "marshal:", err)
		os.Exit(3)
	}
	if r.out == "" {
		fmt.Println(string(b))
	} else if err := os.WriteFile(r.out, b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	os.Exit(0)
}

func sanitize(f Frag) Frag {
	for i := range f.Violations {
		if _, err := json.Marshal(f.Violations[i].Replay); err != nil {
			f.Violations[i].Replay = fmt.Sprintf("%+v", f.Violations[i].Replay)
		}
	}
	return f
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return s
}

// Expired reports that the time budget is used up; the run is then marked
// non-exhaustive.
func (r *Run) Expired() bool {
	if r.expired.Load() {
		return true
	}
	if time.Now().After(r.deadline) {
		r.expired.Store(true)
		return true
	}
	return false
}

// Fail records a violation (at most 3 per signature).
func (r *Run) Fail(sig, msg string, replay interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.perSig[sig]++
	if r.perSig[sig] > 3 {
		return
	}
	if len(msg) > 6000 {
		msg = msg[:6000]
	}
	r.f.Violations = append(r.f.Violations, Violation{sig, msg, replay})
}

// Failed reports whether sig already failed often enough to stop looking.
func (r *Run) Failed(sig string) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.perSig[sig] >= 3
}

// Count adds explored states, transitions.
func (r *Run) Count(states, trans int64) { r.states.Add(states); r.trans.Add(trans) }

// Nontrivial counts distinct cases in which the property had something to say.
func (r *Run) Nontrivial(n int64) { r.nontriv.Add(n) }

// Trace counts executions compared with a reference model step by step.
func (r *Run) Trace(n int64) { r.traces.Add(n) }

// Schedules adds explored schedules.
func (r *Run) Schedules(n int64) {
	r.mu.Lock()
	r.f.Schedules += n
	r.mu.Unlock()
}

// Inexact marks the run as not exhaustive.
func (r *Run) Inexact() { r.expired.Store(true) }

// Bound documents a bound.
func (r *Run) Bound(k string, v interface{}) {
	r.mu.Lock()
	r.f.Bounds[k] = v
	r.mu.Unlock()
}

// Part adds to a named sub-counter.
func (r *Run) Part(k string, n int64) {
	r.mu.Lock()
	r.f.Parts[k] += n
	r.mu.Unlock()
}

// Sample keeps a few example cases for the evidence.
func (r *Run) Sample(s string) {
	r.mu.Lock()
	if len(r.f.Samples) < 8 {
		r.f.Samples = append(r.f.Samples, s)
	}
	r.mu.Unlock()
}

// Pick selects quick or thorough bound.
func (r *Run) Pick(q, t int) int {
	if r.Thorough {
		return t
	}
	return q
}

var workerSeq atomic.Int64

// Guard runs f for one case: a panic or a hang becomes a violation of sig.
func (r *Run) Guard(sig string, label func() string, f func()) {
	defer func() {
		if p := recover(); p != nil {
			buf := make([]byte, 8192)
			n := runtime.Stack(buf, false)
			r.Fail(sig+":panic", fmt.Sprintf("%s: panic: %v\n%s", label(), p, trimStack(string(buf[:n]))), map[string]string{"case": label(), "panic": fmt.Sprint(p)})
		}
	}()
	f()
}

func trimStack(s string) string {
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "/core/core.go") || strings.Contains(l, "runtime/") {
			continue
		}
		keep = append(keep, l)
	}
	return strings.Join(keep, "\n")
}

// Worker is a handle used to label what a goroutine is doing for the watchdog.
type Worker struct {
	r   *Run
	rec *caseRec
}

// At notes that the worker starts the given case.
func (w *Worker) At(label string) {
	w.rec.label.Store(&label)
	w.rec.since.Store(time.Now().UnixNano())
}

func (r *Run) newWorker() *Worker {
	rec := &caseRec{}
	s := "start"
	rec.label.Store(&s)
	rec.since.Store(time.Now().UnixNano())
	r.active.Store(workerSeq.Add(1), rec)
	return &Worker{r, rec}
}

// HangAfter is how long one labelled case may run before it counts as a hang.
var HangAfter = 60 * time.Second

// StallAfter is how long nothing may be counted before the run is searched
// for a goroutine that never leaves a function of the library.
var StallAfter = 90 * time.Second

func (r *Run) watchdog() {
	var last int64
	since := time.Now()
	for {
		time.Sleep(time.Second)
		if n := r.states.Load() + r.trans.Load() + r.traces.Load() + r.nontriv.Load(); n != last {
			last, since = n, time.Now()
		} else if time.Since(since) > StallAfter {
			if fn := stuckIn(); fn != "" {
				r.Fail("hang:"+fn, "a call of "+fn+" does not return", map[string]string{"function": fn})
				r.finish(time.Now())
			}
			since = time.Now()
		}
		now := time.Now().UnixNano()
		r.active.Range(func(k, v any) bool {
			rec := v.(*caseRec)
			if s := rec.since.Load(); s != 0 && now-s > int64(HangAfter) {
				l := *rec.label.Load()
				r.Fail("hang:"+l, "case does not terminate: "+l, map[string]string{"case": l})
				r.finish(time.Now())
			}
			return true
		})
	}
}

// Each runs f(i, w) for i in [0,n) on all cores.  f must label long cases.
func (r *Run) Each(n int, label func(i int) string, f func(i int, w *Worker)) {
	workers := runtime.GOMAXPROCS(0)
	if workers > n {
		workers = n
	}
	var next atomic.Int64
	first, step := 0, 1
	if Divided && r.Shards > 1 {
		first, step, workers = r.Shard, r.Shards, 1
	}
	var wg sync.WaitGroup
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := r.newWorker()
			defer w.rec.since.Store(0)
			for {
				i := first + step*(int(next.Add(1))-1)
				if i >= n || r.Expired() {
					return
				}
				l := label(i)
				w.At(l)
				func() {
					defer func() {
						if p := recover(); p != nil {
							buf := make([]byte, 8192)
							m := runtime.Stack(buf, false)
							r.Fail("panic:"+l, fmt.Sprintf("%s: panic: %v\n%s", l, p, trimStack(string(buf[:m]))), map[string]string{"case": l, "panic": fmt.Sprint(p)})
						}
					}()
					f(i, w)
				}()
			}
		}()
	}
	wg.Wait()
}

// Tuples calls f with every vector of length n over [0,k); stops when f
// returns false.
func Tuples(n, k int, f func(v []int) bool) {
	v := make([]int, n)
	for {
		if !f(v) {
			return
		}
		i := n - 1
		for ; i >= 0; i-- {
			v[i]++
			if v[i] < k {
				break
			}
			v[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

// Compositions calls f with every way to write n as an ordered sum of parts
// of size >= 1.
func Compositions(n int, f func(parts []int)) {
	var rec func(rest int, acc []int)
	rec = func(rest int, acc []int) {
		if rest == 0 {
			f(acc)
			return
		}
		for k := 1; k <= rest; k++ {
			rec(rest-k, append(acc, k))
		}
	}
	rec(n, nil)
}

// Close compares with absolute and relative tolerance; equal infinities and
// two NaNs are close.
func Close(a, b, tol float64) bool {
	if a == b {
		return true
	}
	if math.IsNaN(a) && math.IsNaN(b) {
		return true
	}
	if math.IsNaN(a) || math.IsNaN(b) || math.IsInf(a, 0) || math.IsInf(b, 0) {
		return false
	}
	return math.Abs(a-b) <= tol*math.Max(1, math.Max(math.Abs(a), math.Abs(b)))
}

// Finite reports a finite number.
func Finite(x float64) bool { return !math.IsNaN(x) && !math.IsInf(x, 0) }

// Failf records a violation with a formatted message.
func (r *Run) Failf(sig, format string, args ...any) {
	m := fmt.Sprintf(format, args...)
	r.Fail(sig, m, map[string]string{"case": m})
}

// Divided makes Each share its cases among the processes instead of among
// threads of one.
var Divided bool

// Once runs f as one case.
func (r *Run) Once(label string, f func()) {
	r.Each(1, func(int) string { return label }, func(int, *Worker) { f() })
}

// Shard0 reports whether this process is the one that runs undivided work.
func (r *Run) Shard0() bool { return r.Shard == 0 }

// stuckIn looks ten times, a second apart, for goroutines inside the library
// and answers with the library function the same goroutine was in all ten
// times (the outermost one), if any.
func stuckIn() string {
	var held map[string]string
	for i := 0; i < 10; i++ {
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		now := map[string]string{}
		for _, g := range strings.Split(string(buf), "\n\n") {
			lines := strings.Split(g, "\n")
			fn := ""
			for _, l := range lines[1:] {
				if strings.HasPrefix(l, "github.com/justyntemme/vst3go/pkg/") {
					fn = l[:strings.LastIndexByte(l, '(')]
				}
			}
			if h := strings.SplitN(lines[0], " [", 2); fn != "" && len(h) == 2 && strings.HasPrefix(h[1], "run") {
				now[h[0]] = fn
			}
		}
		if i == 0 {
			held = now
		}
		for g, fn := range held {
			if now[g] != fn {
				delete(held, g)
			}
		}
		time.Sleep(time.Second)
	}
	for _, fn := range held {
		return fn
	}
	return ""
}
