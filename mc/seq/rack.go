package seq

import (
	"fmt"
	"math"
	"runtime"

	"github.com/justyntemme/vst3go/verifmc/core"
	"github.com/justyntemme/vst3go/verifmc/rack"
)

func init() {
	core.Register("P68", p68)
	core.Register("P69", p69)
	core.Register("P70", p70)
}

// finite is whether every sample is a number.
func finite(b ...[]float32) bool {
	for _, c := range b {
		for _, v := range c {
			if v-v != 0 {
				return false
			}
		}
	}
	return true
}

// rackSound makes a stereo sound of the given length.
func rackSound(n int, f func(i int) (float32, float32)) (m [2][]float32) {
	m = [2][]float32{make([]float32, n), make([]float32, n)}
	for i := range m[0] {
		m[0][i], m[1][i] = f(i)
	}
	return
}

// settings enumerates the sequences of up to depth settings out of n.
func settings(n, depth, x int) (seq []int) {
	for d, size := 0, 1; d <= depth; d, size = d+1, size*n {
		if x < size {
			for ; d > 0; d-- {
				seq = append(seq, x%n)
				x /= n
			}
			return
		}
		x -= size
	}
	panic("settings")
}

func countSettings(n, depth int) (c int) {
	for d, size := 0, 1; d <= depth; d, size = d+1, size*n {
		c += size
	}
	return
}

// p68: no processor allocates, whatever its settings and the sizes of its blocks.
func p68(r *core.Run) {
	src := rackSound(rack.Max, func(i int) (float32, float32) {
		return float32(math.Sin(float64(i) * 0.7)), float32(math.Cos(float64(i) * 0.3))
	})
	l, rr := make([]float32, rack.Max), make([]float32, rack.Max)
	sizes := []int{1, 64, 7, rack.Max, 0, 513}
	var cuts []int // every ordered pair of sizes follows one another
	for _, p := range sizes {
		for _, q := range sizes {
			cuts = append(cuts, p, q)
		}
	}
	play := func(in *rack.Inst) {
		for _, n := range cuts {
			copy(l[:n], src[0])
			copy(rr[:n], src[1])
			in.Run(l[:n], rr[:n])
		}
	}
	for _, k := range rack.Kinds(8000) {
		n := len(k.Mk().Ops)
		depth := r.Pick(1, 2)
		r.Once("allocations of "+k.Name, func() {
			for x := 0; x < countSettings(n, depth); x++ {
				seq := settings(n, depth, x)
				in := k.Mk()
				hist := ""
				for _, j := range seq {
					in.Ops[j].Do()
					hist += in.Ops[j].Name + "; "
				}
				in.Run(l, rr) // the first block may size buffers
				least := uint64(math.MaxUint64)
				for try := 0; try < 4 && least > 0; try++ { // a collection or a timer may allocate
					var a, b runtime.MemStats
					runtime.ReadMemStats(&a)
					play(in)
					runtime.ReadMemStats(&b)
					least = min(least, b.Mallocs-a.Mallocs)
				}
				if least > 0 {
					r.Failf("allocation:"+k.Name, "%s: %s%d blocks of sizes %v: at least %d allocations", k.Name, hist, len(cuts), cuts, least)
					return
				}
				r.Count(1, int64(len(cuts)))
				r.Nontrivial(1)
			}
		})
	}
	r.Bound("settings_in_sequence", r.Pick(1, 2))
}

// p69: what an instance does has no effect on another.
func p69(r *core.Run) {
	const n = 24
	loud := rackSound(n, func(i int) (float32, float32) {
		return float32(math.Sin(float64(i) * 0.7)), float32(math.Cos(float64(i) * 0.3))
	})
	soft := rackSound(n, func(i int) (float32, float32) { return 0.2 - float32(i%5)*0.1, float32(i%3) * 0.1 })
	none := rackSound(n, func(i int) (float32, float32) { return 0, 0 })
	// the four steps of an instance: two blocks, a setting, a block
	type side struct {
		in   *rack.Inst
		set  int
		src  [2][]float32
		step int
		out  []float32
	}
	step := func(s *side) {
		if s.step == 2 {
			if s.set >= 0 {
				s.in.Ops[s.set].Do()
			}
		} else {
			m := n - s.step*5
			l, rr := append([]float32{}, s.src[0][:m]...), append([]float32{}, s.src[1][:m]...)
			s.in.Run(l, rr)
			s.out = append(append(s.out, l...), rr...)
		}
		s.step++
	}
	solo := func(k *rack.Kind, set int, src [2][]float32) []float32 {
		s := &side{in: k.Mk(), set: set, src: src}
		for s.step < 4 {
			step(s)
		}
		return s.out
	}
	same := func(a, b []float32) bool {
		for i := range a {
			if a[i] != b[i] && (a[i] == a[i] || b[i] == b[i]) {
				return false
			}
		}
		return len(a) == len(b)
	}
	// every order in which the two take their turns; the second instance is made
	// before or after the first one's first block
	var orders [][]bool
	core.Tuples(8, 2, func(v []int) bool {
		c := 0
		for _, x := range v {
			c += x
		}
		if c == 4 {
			o := make([]bool, 8)
			for i, x := range v {
				o[i] = x == 1
			}
			orders = append(orders, o)
		}
		return true
	})
	ks := rack.Kinds(8000)
	// play interleaves the two and says what is wrong
	play := func(ka, kb *rack.Kind, sa, sb int, wantA, wantB []float32) string {
		for _, o := range orders {
			for _, late := range []bool{false, true} {
				sides := [2]*side{{in: ka.Mk(), set: sa, src: loud}, {set: sb, src: soft}}
				if ka.Random {
					sides[0].src = none
				}
				if !late {
					sides[1].in = kb.Mk()
				}
				for _, second := range o {
					s := sides[0]
					if second {
						s = sides[1]
						if s.in == nil {
							s.in = kb.Mk()
						}
					}
					step(s)
				}
				who := ""
				if !same(sides[0].out, wantA) {
					who = "first"
				} else if !kb.Random && !same(sides[1].out, wantB) {
					who = "second"
				}
				if who != "" {
					turns := ""
					for _, second := range o {
						if second {
							turns += "2"
						} else {
							turns += "1"
						}
					}
					return fmt.Sprintf("with turns %s the %s differs from itself alone", turns, who)
				}
			}
		}
		return ""
	}
	alone := func(k *rack.Kind, set int, first bool) []float32 {
		if k.Random {
			return make([]float32, 2*(n+n-5+n-15)) // it is given silence, and leaves it so
		}
		if first {
			return solo(k, set, loud)
		}
		return solo(k, set, soft)
	}
	name := func(k *rack.Kind, set int) string {
		if set < 0 {
			return k.Name
		}
		return k.Name + "." + k.Mk().Ops[set].Name
	}
	for ki := range ks {
		k := &ks[ki]
		if k.Random && k.Source {
			continue
		}
		ops := len(k.Mk().Ops)
		as, bs := make([][]float32, ops+1), make([][]float32, ops+1)
		for s := -1; s < ops; s++ {
			as[s+1], bs[s+1] = alone(k, s, true), alone(k, s, false)
		}
		r.Each((ops+1)*(ops+1), func(x int) string { return fmt.Sprint("two of ", k.Name, ", settings ", x) }, func(x int, _ *core.Worker) {
			sa, sb := x%(ops+1)-1, x/(ops+1)-1
			if !r.Thorough && (sb+1)%(1+ops/4) != 0 {
				return
			}
			if e := play(k, k, sa, sb, as[sa+1], bs[sb+1]); e != "" {
				r.Failf("isolation:"+k.Name, "%s and another %s: %s", name(k, sa), name(k, sb), e)
			}
			r.Count(int64(2*len(orders)), int64(16*len(orders)))
			r.Nontrivial(1)
		})
	}
	r.Each(len(ks)*len(ks), func(x int) string { return fmt.Sprint(ks[x%len(ks)].Name, " and ", ks[x/len(ks)].Name) }, func(x int, _ *core.Worker) {
		ka, kb := &ks[x%len(ks)], &ks[x/len(ks)]
		if ka.Random && ka.Source {
			return
		}
		if e := play(ka, kb, -1, -1, alone(ka, -1, true), alone(kb, -1, false)); e != "" {
			r.Failf("isolation:"+ka.Name, "%s and %s: %s", ka.Name, kb.Name, e)
		}
		r.Count(int64(2*len(orders)), int64(16*len(orders)))
		r.Nontrivial(1)
	})
	r.Bound("interleavings", 2*len(orders))
	r.Bound("processors", len(ks))
}

// p70: finite sound stays finite, and bounded.
func p70(r *core.Run) {
	ks := rack.Kinds(8000)
	base := len(ks)
	mats := [][2][]float32{}
	for _, f := range []func(i int) (float32, float32){
		func(i int) (float32, float32) {
			return float32(math.Sin(float64(i) * 0.7)), float32(math.Cos(float64(i) * 0.3))
		},
		func(i int) (float32, float32) { return 0, 0 },
		func(i int) (float32, float32) { return 1, -1 },
		func(i int) (float32, float32) { return float32(1 - i%2*2), 0 },
		func(i int) (float32, float32) { return 1e-40, -1e-40 },
		func(i int) (float32, float32) { return 100, 1e-3 },
	} {
		mats = append(mats, rackSound(512, f))
	}
	depth := r.Pick(2, 3)
	n := r.Pick(200, 60)
	// other sample rates with single settings
	for _, sr := range []float64{44100, 192000, 22050, 11025} {
		for _, k := range rack.Kinds(sr) {
			k.Name += fmt.Sprintf(" at %v Hz", sr)
			ks = append(ks, k)
		}
	}
	for x, k := range ks {
		if x >= base {
			depth = r.Pick(1, 2)
		}
		ops := len(k.Mk().Ops)
		if ops == 0 {
			ops = 1
			depth = 0
		}
		r.Each(countSettings(ops, depth), func(x int) string { return fmt.Sprint(k.Name, " case ", x) }, func(x int, _ *core.Worker) {
			in := k.Mk()
			hist := ""
			seq := settings(ops, depth, x)
			l, rr := make([]float32, n), make([]float32, n)
			for s := 0; s <= len(seq); s++ {
				for mi, m := range mats {
					copy(l, m[0])
					copy(rr, m[1])
					in.Run(l, rr)
					if !finite(l, rr) {
						r.Failf("finite:"+k.Name, "%s: %sblock of material %d: not finite", k.Name, hist, mi)
						return
					}
				}
				if s < len(seq) {
					in.Ops[seq[s]].Do()
					hist += in.Ops[seq[s]].Name + "; "
				}
			}
			blocks := int64(len(seq)+1) * int64(len(mats))
			if len(seq) <= r.Pick(1, 2) { // and it does not run away in the long run
				for b := 0; b < 40; b++ {
					m := mats[b%3]
					in.Run(append(l[:0], m[0]...), append(rr[:0], m[1]...))
				}
				l, rr = append(l[:0], mats[0][0]...), append(rr[:0], mats[0][1]...)
				in.Run(l, rr)
				blocks += 41
				for i := range l {
					if !k.Meter && !(math.Abs(float64(l[i])) < 1e4 && math.Abs(float64(rr[i])) < 1e4) {
						r.Failf("bounded:"+k.Name, "%s: %safter 20000 samples within 1 the output is %v, %v", k.Name, hist, l[i], rr[i])
						return
					}
				}
			}
			r.Count(1, blocks)
			r.Nontrivial(1)
		})
		depth = r.Pick(2, 3)
	}
	r.Bound("settings_in_sequence", depth)
	r.Bound("processors", len(ks))
}
