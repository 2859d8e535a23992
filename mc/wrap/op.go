package wrap

import (
	"fmt"
	"strings"

	"github.com/justyntemme/vst3go/verifmc/core"
)

// op is one host call of a history: it performs the call and compares the
// outcome with the model it keeps in s; it returns what is wrong, or "".
type op[S any] struct {
	name string
	f    func(s S) string
}

// histories runs every sequence of ops to the given depth.
func histories[S any](r *core.Run, name string, mk func() S, done func(S) string, ops []op[S], depth int) {
	k := len(ops)
	total := 1
	for i := 0; i < depth; i++ {
		total *= k
	}
	r.Each(total, func(n int) string { return fmt.Sprintf("%s history %d", name, n) }, func(n int, _ *core.Worker) {
		if r.Failed(name) {
			return
		}
		s := mk()
		var names []string
		x := n
		for d := 0; d < depth; d++ {
			o := &ops[x%k]
			x /= k
			names = append(names, o.name)
			if e := o.f(s); e != "" {
				r.Failf(name, "%s: %s: %s", name, strings.Join(names, "; "), e)
				return
			}
		}
		if e := done(s); e != "" {
			r.Failf(name, "%s: %s: %s", name, strings.Join(names, "; "), e)
			return
		}
		if n == total/2 {
			r.Sample(name + ": " + strings.Join(names, "; "))
		}
		r.Count(int64(depth), int64(depth))
		r.Nontrivial(1)
		r.Trace(1)
	})
	r.Bound(name+"_depth", depth)
	r.Bound(name+"_alphabet", k)
}
