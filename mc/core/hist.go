package core

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
)

// HOp is one operation of a history: Do acts on the implementation, Spec on
// the reference model; both answer with a canonical observation.
type HOp[I, M any] struct {
	Name string
	Do   func(i I) string
	Spec func(m M) string
	// Same, if set, compares the two answers (default: equality).
	Same func(got, want string) bool
}

// Hist is a family of operation histories compared step by step with a model.
type Hist[I, M any] struct {
	Name    string
	New     func() I
	Model   func() M
	Ops     []HOp[I, M]
	Obs     func(i I) string
	ObsSpec func(m M) string
	Inv     func(i I, m M) string // extra invariant after every step
	// Allow, if set, prunes histories: op may be taken in this model state.
	Allow func(m M, op int) bool
}

// Run explores every history of up to depth operations.
func (h *Hist[I, M]) Run(r *Run, depth int) {
	k := len(h.Ops)
	split := 1
	if depth >= 2 {
		split = 2
	}
	chunks := 1
	for i := 0; i < split; i++ {
		chunks *= k
	}
	outcomes := sync.Map{}
	var distinct atomic.Int64
	workers := runtime.GOMAXPROCS(0)
	var next atomic.Int64
	var wg sync.WaitGroup
	for wk := 0; wk < workers; wk++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := r.newWorker()
			defer w.rec.since.Store(0)
			for {
				c := int(next.Add(1)) - 1
				if c >= chunks || r.Failed(h.Name) {
					return
				}
				seq := make([]int, depth)
				x := c
				for i := split - 1; i >= 0; i-- {
					seq[i] = x % k
					x /= k
				}
				first := true
				prevLen := 0
				for {
					if r.Expired() || r.Failed(h.Name) {
						return
					}
					// from = first position whose prefix was not checked yet
					from := prevLen
					if first {
						from = 0
					}
					w.At(h.Name)
					cut := h.one(r, seq, from, &outcomes, &distinct)
					first = false
					// advance to the next sequence (skip below a cut)
					i := depth - 1
					if cut >= 0 && cut < i {
						i = cut
					}
					for j := i + 1; j < depth; j++ {
						seq[j] = 0
					}
					for ; i >= split; i-- {
						seq[i]++
						if seq[i] < k {
							break
						}
						seq[i] = 0
					}
					if i < split {
						break
					}
					prevLen = i
				}
			}
		}()
	}
	wg.Wait()
	r.Part(h.Name+"_distinct_observations", distinct.Load())
	r.Nontrivial(distinct.Load())
	r.Bound(h.Name+"_depth", depth)
	r.Bound(h.Name+"_alphabet", k)
}

// one runs seq on a fresh pair; returns the position where the history was
// cut by Allow, or -1.
func (h *Hist[I, M]) one(r *Run, seq []int, from int, outcomes *sync.Map, distinct *atomic.Int64) (cut int) {
	cut = -1
	pos := 0
	names := func(n int) string {
		var s []string
		for i := 0; i < n && i < len(seq); i++ {
			s = append(s, h.Ops[seq[i]].Name)
		}
		return h.Name + ": " + strings.Join(s, "; ")
	}
	fail := func(kind, msg string) {
		r.Fail(h.Name, names(pos+1)+"\n"+kind+": "+msg, map[string]any{"family": h.Name, "history": names(pos + 1), "ops": append([]int(nil), seq[:min(pos+1, len(seq))]...)})
	}
	defer func() {
		if p := recover(); p != nil {
			buf := make([]byte, 6000)
			n := runtime.Stack(buf, false)
			fail("panic", fmt.Sprintf("%v\n%s", p, trimStack(string(buf[:n]))))
			cut = pos
		}
	}()
	i, m := h.New(), h.Model()
	for pos = 0; pos < len(seq); pos++ {
		op := &h.Ops[seq[pos]]
		if h.Allow != nil && !h.Allow(m, seq[pos]) {
			return pos
		}
		got := op.Do(i)
		want := op.Spec(m)
		if pos < from {
			continue
		}
		r.Count(1, 1)
		same := got == want
		if op.Same != nil {
			same = op.Same(got, want)
		}
		if !same {
			fail("result", fmt.Sprintf("got %s, model says %s", got, want))
			return pos
		}
		if h.Inv != nil {
			if s := h.Inv(i, m); s != "" {
				fail("invariant", s)
				return pos
			}
		}
		if h.Obs != nil {
			g, s := h.Obs(i), h.ObsSpec(m)
			if g != s {
				fail("state", fmt.Sprintf("observed %s\nmodel    %s", g, s))
				return pos
			}
			if _, dup := outcomes.LoadOrStore(g, true); !dup && distinct.Load() < 200000 {
				distinct.Add(1)
			}
		}
	}
	r.Trace(1)
	if r.traces.Load() == 5 {
		r.Sample(names(len(seq)))
	}
	return -1
}
