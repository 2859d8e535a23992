package seq

import (
	"fmt"
	"math"
	"testing"

	"github.com/justyntemme/vst3go/pkg/dsp/dynamics"
	"github.com/justyntemme/vst3go/pkg/dsp/utility"
	fdsp "github.com/justyntemme/vst3go/pkg/framework/dsp"
	"github.com/justyntemme/vst3go/verifmc/core"
)

func init() { core.Register("P44", p44) }

// spy is a stage with state: out = a*x + b + d*(previous input), and the
// number of the stage leaves its mark so that order matters.
type spy struct {
	a, b, d, prev float32
	resets        int
}

func (s *spy) Process(b []float32) {
	for i, x := range b {
		b[i] = s.a*x + s.b + s.d*s.prev
		s.prev = x
	}
}
func (s *spy) Reset() { s.prev = 0; s.resets++ }

func (s *spy) ProcessStereo(l, r []float32) {
	for i := range l {
		x, y := l[i], r[i]
		l[i] = s.a*x + s.b + s.d*s.prev
		r[i] = s.a*y - s.b + s.d*x
		s.prev = x
	}
}

func newSpy(k int) *spy {
	return []*spy{{a: 2}, {a: 1, b: 1}, {a: 1, d: 0.5}, {a: -1, b: 0.25, d: -2}}[k]
}

// cnode is the reference: a tree of stages.
type cnode struct {
	s        *spy
	f        bool // stateless function: x -> x/2 + 3
	kids     []*cnode
	gains    []float32
	parallel bool
	bypass   bool
}

func (n *cnode) run(b []float32) {
	switch {
	case n.s != nil:
		n.s.Process(b)
	case n.f:
		half(b)
	case n.bypass:
	case n.parallel:
		if len(n.kids) == 0 {
			return
		}
		sum := make([]float64, len(b))
		for k, c := range n.kids {
			t := append([]float32(nil), b...)
			c.run(t)
			for i := range t {
				sum[i] += float64(t[i]) * float64(n.gains[k])
			}
		}
		for i := range b {
			b[i] = float32(sum[i])
		}
	default:
		for _, c := range n.kids {
			c.run(b)
		}
	}
}

func (n *cnode) reset() {
	if n.s != nil {
		n.s.Reset()
	}
	for _, c := range n.kids {
		c.reset()
	}
}

func half(b []float32) {
	for i := range b {
		b[i] = b[i]/2 + 3
	}
}

// cimpl is the chain under test: the top chain and the chain inside it.
type cimpl struct {
	top   *fdsp.Chain
	par   *fdsp.ParallelChain
	sub   *fdsp.Chain
	subIn bool
	phase int
	spies []*spy
}

type cmodel struct {
	top, sub *cnode
	subIn    bool
	phase    int
	spies    []*spy
}

func (i *cimpl) root() fdsp.Processor {
	if i.par != nil {
		return i.par
	}
	return i.top
}

func p44(r *core.Run) {
	if !r.Shard0() {
		return
	}
	type op = nop[*cimpl, *cmodel]
	state := func(sp []*spy) []float64 {
		var o []float64
		for _, s := range sp {
			o = append(o, float64(s.prev), float64(s.resets))
		}
		return o
	}
	gains := []float32{0, -1, 2, 0.5, 1}
	mkOps := func(par bool) []op {
		var ops []op
		add := func(i *cimpl, p fdsp.Processor) {
			if par {
				g := gains[len(i.spies)%len(gains)]
				if i.par.Add(p, g) != i.par {
					panic("Add does not return the chain")
				}
			} else if i.top.Add(p) != i.top {
				panic("Add does not return the chain")
			}
		}
		madd := func(m *cmodel, n *cnode) {
			m.top.kids = append(m.top.kids, n)
			m.top.gains = append(m.top.gains, gains[len(m.spies)%len(gains)])
		}
		for k := 0; k < 4; k++ {
			k := k
			ops = append(ops, op{fmt.Sprintf("Add(stage %d)", k), func(i *cimpl) []float64 {
				s := newSpy(k)
				add(i, s)
				i.spies = append(i.spies, s)
				return nil
			}, func(m *cmodel) []float64 {
				s := newSpy(k)
				madd(m, &cnode{s: s})
				m.spies = append(m.spies, s)
				return nil
			}})
		}
		ops = append(ops, op{"Add(sub-chain)", func(i *cimpl) []float64 {
			if !i.subIn {
				i.subIn = true
				add(i, i.sub)
			}
			return nil
		}, func(m *cmodel) []float64 {
			if !m.subIn {
				m.subIn = true
				madd(m, m.sub)
			}
			return nil
		}}, op{"sub-chain.Add(stage 2)", func(i *cimpl) []float64 {
			s := newSpy(2)
			i.sub.Add(s)
			i.spies = append(i.spies, s)
			return nil
		}, func(m *cmodel) []float64 {
			s := newSpy(2)
			m.sub.kids = append(m.sub.kids, &cnode{s: s})
			m.spies = append(m.spies, s)
			return nil
		}}, op{"sub-chain.AddFunc", func(i *cimpl) []float64 {
			i.sub.AddFunc("half", half)
			return nil
		}, func(m *cmodel) []float64 {
			m.sub.kids = append(m.sub.kids, &cnode{f: true})
			return nil
		}})
		for _, n := range []int{0, 1, 3, 1500} {
			n := n
			ops = append(ops, op{fmt.Sprintf("Process(%d)", n), func(i *cimpl) []float64 {
				b := buf(n, i.phase)
				i.phase++
				i.root().Process(b)
				if !tailOK(b) {
					panic("wrote past the block")
				}
				return append(f64s(b), state(i.spies)...)
			}, func(m *cmodel) []float64 {
				b := buf(n, m.phase)
				m.phase++
				m.top.run(b)
				return append(f64s(b), state(m.spies)...)
			}})
		}
		for _, on := range []bool{true, false} {
			on := on
			ops = append(ops, op{fmt.Sprintf("SetBypass(%v)", on), func(i *cimpl) []float64 {
				if par {
					i.par.SetBypass(on)
				} else {
					i.top.SetBypass(on)
				}
				return nil
			}, func(m *cmodel) []float64 { m.top.bypass = on; return nil }},
				op{fmt.Sprintf("sub-chain.SetBypass(%v)", on), func(i *cimpl) []float64 { i.sub.SetBypass(on); return nil },
					func(m *cmodel) []float64 { m.sub.bypass = on; return nil }})
		}
		ops = append(ops, op{"Reset", func(i *cimpl) []float64 { i.root().Reset(); return state(i.spies) },
			func(m *cmodel) []float64 { m.top.reset(); return state(m.spies) }})
		return ops
	}
	for _, par := range []bool{false, true} {
		par := par
		h := &nhist[*cimpl, *cmodel]{name: map[bool]string{false: "chain", true: "parallel chain"}[par], tol: 1e-6, ops: mkOps(par),
			mk: func() *cimpl {
				i := &cimpl{sub: fdsp.NewChain("sub")}
				if par {
					i.par = fdsp.NewParallelChain("p")
				} else {
					i.top = fdsp.NewChain("top")
				}
				return i
			},
			model: func() *cmodel { return &cmodel{top: &cnode{parallel: par}, sub: &cnode{}} }}
		if !par {
			h.inv = func(i *cimpl, m *cmodel) string {
				if i.top.Count() != len(m.top.kids) || i.top.IsEmpty() != (len(m.top.kids) == 0) {
					return fmt.Sprintf("Count %d IsEmpty %v with %d processors", i.top.Count(), i.top.IsEmpty(), len(m.top.kids))
				}
				return ""
			}
		}
		h.run(r, r.Pick(4, 6))
	}
	p44stereo(r)
	p44builder(r)
	p44adapters(r)
}

// ---- stereo chains ----

type schain struct {
	c     *fdsp.StereoChain
	spies []*spy
	byp   bool
	phase int
}

func p44stereo(r *core.Run) {
	type op = nop[*schain, *schain]
	var ops []op
	for k := 0; k < 4; k++ {
		k := k
		ops = append(ops, op{fmt.Sprintf("Add(stage %d)", k),
			func(i *schain) []float64 { s := newSpy(k); i.c.Add(s); i.spies = append(i.spies, s); return nil },
			func(m *schain) []float64 { m.spies = append(m.spies, newSpy(k)); return nil }})
	}
	out := func(s *schain, l, q []float32) []float64 {
		o := append(f64s(l), f64s(q)...)
		for _, p := range s.spies {
			o = append(o, float64(p.prev), float64(p.resets))
		}
		return o
	}
	for _, n := range []int{0, 1, 3} {
		n := n
		ops = append(ops, op{fmt.Sprintf("ProcessStereo(%d)", n), func(i *schain) []float64 {
			l, q := buf(n, i.phase), buf(n, i.phase+1)
			i.phase++
			i.c.ProcessStereo(l, q)
			if !tailOK(l) || !tailOK(q) {
				panic("wrote past the block")
			}
			return out(i, l, q)
		}, func(m *schain) []float64 {
			l, q := buf(n, m.phase), buf(n, m.phase+1)
			m.phase++
			if !m.byp {
				for _, s := range m.spies {
					s.ProcessStereo(l, q)
				}
			}
			return out(m, l, q)
		}})
	}
	for _, on := range []bool{true, false} {
		on := on
		ops = append(ops, op{fmt.Sprintf("SetBypass(%v)", on), func(i *schain) []float64 { i.c.SetBypass(on); return nil },
			func(m *schain) []float64 { m.byp = on; return nil }})
	}
	ops = append(ops, op{"Reset", func(i *schain) []float64 { i.c.Reset(); return out(i, nil, nil) }, func(m *schain) []float64 {
		for _, s := range m.spies {
			s.Reset()
		}
		return out(m, nil, nil)
	}})
	(&nhist[*schain, *schain]{name: "stereo chain", tol: 1e-6, ops: ops,
		mk: func() *schain { return &schain{c: fdsp.NewStereoChain("s")} }, model: func() *schain { return &schain{} }}).run(r, r.Pick(5, 7))
}

// ---- builders ----

func p44builder(r *core.Run) {
	// every sequence of builder calls: processors, functions, nil ones
	names := []string{"WithProcessor", "WithFunc", "WithProcessor(nil)", "WithFunc(nil)"}
	for n := 0; n <= r.Pick(6, 8); n++ {
		core.Tuples(n, 4, func(v []int) bool {
			lab := func() string {
				s := "builder"
				for _, k := range v {
					s += " " + names[k]
				}
				return s
			}
			r.Guard("builder", lab, func() {
				b := fdsp.NewBuilder("b")
				sb := fdsp.NewStereoBuilder("b")
				want := &cnode{}
				bad, sbad := false, false
				var sp, ssp []*spy
				for pos, k := range v {
					switch k {
					case 0:
						s := newSpy(pos % 4)
						b.WithProcessor(s)
						want.kids = append(want.kids, &cnode{s: newSpy(pos % 4)})
						s2 := newSpy(pos % 4)
						sb.WithProcessor(s2)
						sp, ssp = append(sp, s), append(ssp, newSpy(pos%4))
					case 1:
						b.WithFunc("half", half)
						want.kids = append(want.kids, &cnode{f: true})
					case 2:
						b.WithProcessor(nil)
						sb.WithProcessor(nil)
						bad, sbad = true, true
					case 3:
						b.WithFunc("nil", nil)
						bad = true
					}
				}
				c, err := b.Build()
				if wantErr := bad || len(want.kids) == 0; (err != nil) != wantErr || (c == nil) != wantErr {
					r.Failf("builder", "%s: Build gives chain %v and error %v", lab(), c != nil, err)
					return
				}
				sc, err := sb.Build()
				if wantErr := sbad || len(sp) == 0; (err != nil) != wantErr || (sc == nil) != wantErr {
					r.Failf("builder", "%s: stereo Build gives chain %v and error %v", lab(), sc != nil, err)
					return
				}
				r.Count(int64(len(v)), int64(len(v)))
				r.Nontrivial(1)
				if c != nil {
					x, y := buf(5, 1), buf(5, 1)
					c.Process(x)
					want.run(y)
					if !near(x, y) || c.Count() != len(want.kids) {
						r.Failf("builder", "%s: the chain built gives %v, want %v", lab(), x, y)
					}
				}
				if sc != nil {
					x, x2, y, y2 := buf(5, 1), buf(5, 2), buf(5, 1), buf(5, 2)
					sc.ProcessStereo(x, x2)
					for _, s := range ssp {
						s.ProcessStereo(y, y2)
					}
					if !near(x, y) || !near(x2, y2) {
						r.Failf("builder", "%s: the stereo chain built gives %v %v, want %v %v", lab(), x, x2, y, y2)
					}
				}
			})
			return true
		})
	}
	// a builder's error names every fault
	if _, err := fdsp.NewBuilder("b").WithProcessor(nil).WithFunc("f", nil).WithProcessor(newSpy(0)).Build(); err == nil {
		r.Failf("builder", "faults are forgotten")
	}
	r.Bound("builder_calls", r.Pick(6, 8))
}

func near(a, b []float32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !core.Close(float64(a[i]), float64(b[i]), 1e-6) {
			return false
		}
	}
	return true
}

// ---- adapters: exactly the adapted processor, sample by sample ----

type adp struct {
	p     fdsp.Processor
	one   func(float32) float32
	reset func()
	pos   int
}

func loud(i int) float32 {
	// bursts that open and close a gate and drive a compressor
	a := []float32{0.9, 0.001, 0.3, 0, 0.05, 1.5}[(i/40)%6]
	return a * wavef(i)
}

func wavef(i int) float32 { return []float32{1, 0.6, -0.2, -1, -0.7, 0.3}[i%6] }

func p44adapters(r *core.Run) {
	comp := func(sr float64, k int) *dynamics.Compressor {
		c := dynamics.NewCompressor(sr)
		c.SetThreshold([]float64{-20, -6}[k])
		c.SetRatio([]float64{4, 2}[k])
		c.SetAttack([]float64{0.001, 0.01}[k])
		c.SetRelease([]float64{0.005, 0.1}[k])
		return c
	}
	gate := func(sr float64, k int) *dynamics.Gate {
		g := dynamics.NewGate(sr)
		g.SetThreshold([]float64{-40, -12}[k])
		g.SetRange([]float64{-60, -20}[k])
		g.SetHold([]float64{0.0005, 0.01}[k])
		return g
	}
	type mkf struct {
		name string
		mk   func() *adp // processor under test and the reference
	}
	var ms []mkf
	for _, sr := range []float64{8000, 48000} {
		for k := 0; k < 2; k++ {
			sr, k := sr, k
			ms = append(ms, mkf{fmt.Sprintf("compressor adapter %v/%d", sr, k), func() *adp {
				c := comp(sr, k)
				return &adp{p: fdsp.NewCompressorAdapter(comp(sr, k)), one: c.Process, reset: c.Reset}
			}}, mkf{fmt.Sprintf("gate adapter %v/%d", sr, k), func() *adp {
				g := gate(sr, k)
				return &adp{p: fdsp.NewGateAdapter(gate(sr, k)), one: g.Process, reset: g.Reset}
			}})
		}
		sr := sr
		ms = append(ms, mkf{fmt.Sprintf("DC blocker adapter %v", sr), func() *adp {
			d := utility.NewSimpleDCBlocker(sr)
			return &adp{p: fdsp.NewDCBlockerAdapter(sr), one: d.Process, reset: d.Reset}
		}}, mkf{fmt.Sprintf("simple chain %v", sr), func() *adp {
			d := utility.NewSimpleDCBlocker(sr)
			c, err := fdsp.CreateSimpleChain(sr)
			if err != nil {
				panic(err)
			}
			return &adp{p: c, one: d.Process, reset: d.Reset}
		}}, mkf{fmt.Sprintf("dynamics chain %v", sr), func() *adp {
			g := dynamics.NewGate(sr)
			g.SetThreshold(-40)
			g.SetRange(-60)
			cp := dynamics.NewCompressor(sr)
			cp.SetThreshold(-20)
			cp.SetRatio(4)
			cp.SetAttack(0.010)
			cp.SetRelease(0.100)
			c, err := fdsp.CreateDynamicsChain(sr)
			if err != nil {
				panic(err)
			}
			return &adp{p: c, one: func(x float32) float32 { return cp.Process(g.Process(x)) }, reset: func() { g.Reset(); cp.Reset() }}
		}})
	}
	type op = nop[*adp, *adp]
	var ops []op
	for _, n := range []int{0, 1, 64, 300} {
		n := n
		in := func(pos int) []float32 {
			b := make([]float32, n)
			for i := range b {
				b[i] = loud(pos+i) + 0.1
			}
			return b
		}
		ops = append(ops, op{fmt.Sprintf("Process(%d)", n), func(i *adp) []float64 {
			b := in(i.pos)
			i.pos += n
			i.p.Process(b)
			return f64s(b)
		}, func(m *adp) []float64 {
			b := in(m.pos)
			m.pos += n
			for i := range b {
				b[i] = m.one(b[i])
			}
			return f64s(b)
		}})
	}
	ops = append(ops, op{"Reset", func(i *adp) []float64 { i.p.Reset(); return nil }, func(m *adp) []float64 { m.reset(); return nil }})
	for _, m := range ms {
		(&nhist[*adp, *adp]{name: m.name, mk: m.mk, model: m.mk, ops: ops, tol: 1e-6}).run(r, r.Pick(4, 5))
	}
	// noise is added to the signal in proportion to the mix, nothing else
	for t := 0; t < 5; t++ {
		for _, mix := range []float32{0, 0.25, 1} {
			a := fdsp.NewNoiseAdapter(utility.NoiseType(t), mix)
			for step, m2 := range []float32{mix, 0, 0.5, 2, 0} {
				if step > 0 {
					a.SetMix(m2)
				}
				b := buf(64, step)
				o := append([]float32(nil), b...)
				a.Process(b)
				diff := 0
				for i := range b {
					d := float64(b[i]) - float64(o[i])
					if d > float64(m2)+1e-5 || d < -float64(m2)-1e-5 {
						r.Failf("noise adapter", "type %d mix %v: sample %v became %v", t, m2, o[i], b[i])
					}
					if d != 0 {
						diff++
					}
				}
				if m2 > 0 && diff < 32 || !tailOK(b) {
					r.Failf("noise adapter", "type %d mix %v: only %d of 64 samples changed", t, m2, diff)
				}
				if step >= 2 {
					a.Reset()
				}
				loud := 0
				b = make([]float32, 64)
				a.Process(b)
				for _, x := range b {
					if math.Abs(float64(x)) > 0.6*float64(m2) {
						loud++
					}
				}
				if t == 0 && m2 > 0 && loud == 0 { // white noise fills its range
					r.Failf("noise adapter", "mix %v: 64 samples of white noise stay below %v", m2, 0.6*m2)
				}
				r.Count(1, 64)
			}
		}
	}
	// steady processing does not allocate
	sub := fdsp.NewChain("sub").Add(newSpy(2)).AddFunc("half", half)
	for name, p := range map[string]fdsp.Processor{
		"chain":          fdsp.NewChain("c").Add(newSpy(0)).Add(sub),
		"parallel chain": fdsp.NewParallelChain("p").Add(newSpy(0), 0.5).Add(sub, 1).Add(fdsp.NewParallelChain("q").Add(newSpy(1), 1), 2),
		"compressor":     fdsp.NewCompressorAdapter(comp(48000, 0)),
		"gate":           fdsp.NewGateAdapter(gate(48000, 0)),
		"DC blocker":     fdsp.NewDCBlockerAdapter(48000),
		"noise":          fdsp.NewNoiseAdapter(utility.PinkNoise, 1),
	} {
		b := make([]float32, 256)
		p.Process(b)
		if n := testing.AllocsPerRun(20, func() { p.Process(b); p.Process(b[:100]); p.Process(b[:7]) }); n != 0 {
			r.Failf("allocation", "%s allocates %v times per block", name, n)
		}
		r.Count(1, 20)
	}
}
