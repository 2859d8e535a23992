package seq

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/justyntemme/vst3go/verifmc/core"
)

// nop is one operation of a numeric history: do acts on the implementation
// and spec on the reference; both answer with the numbers observed.
type nop[I, M any] struct {
	name string
	do   func(I) []float64
	spec func(M) []float64
}

// nhist explores every history of operations on an implementation and its
// reference and compares every observation within a tolerance.
type nhist[I, M any] struct {
	name  string
	mk    func() I
	model func() M
	ops   []nop[I, M]
	tol   float64
	inv   func(I, M) string
}

func (h *nhist[I, M]) run(r *core.Run, depth int) {
	k := len(h.ops)
	total := 1
	for i := 0; i < depth; i++ {
		total *= k
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	const chunk = 64
	for w := 0; w < runtime.GOMAXPROCS(0); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			seq := make([]int, depth)
			for {
				c := int(next.Add(chunk)) - chunk
				if c >= total || r.Failed(h.name) || r.Expired() {
					return
				}
				for n := c; n < min(c+chunk, total); n++ {
					x := n
					for i := depth - 1; i >= 0; i-- {
						seq[i] = x % k
						x /= k
					}
					h.one(r, seq)
				}
			}
		}()
	}
	wg.Wait()
	r.Bound(h.name+"_depth", depth)
	r.Bound(h.name+"_alphabet", k)
}

// deep explores deeper histories of only the named operations.
func (h nhist[I, M]) deep(r *core.Run, depth int, names ...string) {
	all := h.ops
	h.ops = nil
	h.name += "_deep"
	for _, n := range names {
		found := false
		for _, o := range all {
			if o.name == n {
				h.ops = append(h.ops, o)
				found = true
			}
		}
		if !found {
			panic("no operation " + n)
		}
	}
	h.run(r, depth)
}

func (h *nhist[I, M]) one(r *core.Run, seq []int) {
	pos := 0
	names := func() string {
		var s []string
		for i := 0; i <= pos && i < len(seq); i++ {
			s = append(s, h.ops[seq[i]].name)
		}
		return h.name + ": " + strings.Join(s, "; ")
	}
	r.Guard(h.name, names, func() {
		i, m := h.mk(), h.model()
		for pos = 0; pos < len(seq); pos++ {
			op := &h.ops[seq[pos]]
			got, want := op.do(i), op.spec(m)
			if len(got) != len(want) {
				r.Failf(h.name, "%s: %d numbers, want %d", names(), len(got), len(want))
				return
			}
			for j := range got {
				if !core.Close(got[j], want[j], h.tol) {
					r.Failf(h.name, "%s: value %d is %v, reference %v", names(), j, got[j], want[j])
					return
				}
			}
			if h.inv != nil {
				if e := h.inv(i, m); e != "" {
					r.Failf(h.name, "%s: %s", names(), e)
					return
				}
			}
		}
		r.Count(int64(len(seq)), int64(len(seq)))
		r.Nontrivial(1)
		r.Trace(1)
	})
	if seq[0] == 0 && seq[len(seq)-1] == len(h.ops)-1 {
		pos = len(seq) - 1
		r.Sample(names())
	}
}

// f64s converts samples.
func f64s(b []float32) []float64 {
	o := make([]float64, len(b))
	for i, x := range b {
		o[i] = float64(x)
	}
	return o
}

func times(n int, f func() float64) []float64 {
	o := make([]float64, n)
	for i := range o {
		o[i] = f()
	}
	return o
}

func sets[I, M any](name string, do func(I), spec func(M)) nop[I, M] {
	return nop[I, M]{name, func(i I) []float64 { do(i); return nil }, func(m M) []float64 { spec(m); return nil }}
}

var _ = fmt.Sprint

// tuples lists every sequence of n numbers below k.
func tuples(k, n int) [][]int {
	var o [][]int
	core.Tuples(n, k, func(v []int) bool { o = append(o, append([]int{}, v...)); return true })
	return o
}

// compositions lists every way to write n as an ordered sum.
func compositions(n int) [][]int {
	var o [][]int
	core.Compositions(n, func(v []int) { o = append(o, append([]int{}, v...)) })
	return o
}
