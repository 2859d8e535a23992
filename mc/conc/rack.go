package conc

import (
	"fmt"
	"math"

	"github.com/justyntemme/vst3go/verifmc/core"
	"github.com/justyntemme/vst3go/verifmc/lin"
	"github.com/justyntemme/vst3go/verifmc/rack"
)

func init() { core.Register("P69", p69) }

// p69: two threads, each with an instance of its own.
func p69(r *core.Run) {
	const n = 16
	for _, k := range rack.Kinds(8000) {
		f := &lin.Family{Name: k.Name, New: func() any { return nil }, Model: func() any { return nil },
			Final: func(any) string { return "" }, FinalSpec: func(any) string { return "" }, Bound: r.Pick(1, 2)}
		ops := len(k.Mk().Ops)
		step := 1
		if !r.Thorough {
			step = 1 + ops/8
		}
		for s := -1; s < ops; s += step {
			name := "run"
			if s >= 0 {
				name = k.Mk().Ops[s].Name + "; run"
			}
			f.Alphabet = append(f.Alphabet, same(name, func(any) string {
				in := k.Mk()
				l, rr := make([]float32, n), make([]float32, n)
				out := ""
				for b := 0; b < 2; b++ {
					for i := range l {
						l[i], rr[i] = float32(math.Sin(float64(i)*0.7)), float32(math.Cos(float64(i)*0.3))
					}
					in.Run(l, rr)
					if !k.Random {
						out += fmt.Sprint(l, rr)
					}
					if s >= 0 && b == 0 {
						in.Ops[s].Do()
					}
				}
				return out
			}))
		}
		f.Programs(r, []int{1, 1})
	}
}
