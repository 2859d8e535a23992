package seq

import (
	"fmt"
	"math"
	"strings"

	"github.com/justyntemme/vst3go/pkg/dsp/reverb"
	"github.com/justyntemme/vst3go/verifmc/core"
)

func init() { core.Register("P43", p43) }

// combm is a feedback comb with a one-pole lowpass in its loop; apm is
// Freeverb's all-pass section.
type combm struct {
	d        int
	h        []float64
	fb, damp float64
	st       float64
}

func (c *combm) step(x float64) float64 {
	y := 0.0
	if len(c.h) >= c.d {
		y = c.h[len(c.h)-c.d]
	}
	c.st = y*(1-c.damp) + c.st*c.damp
	c.h = append(c.h, x+c.fb*c.st)
	return y
}

type apm struct {
	d int
	h []float64
}

func (c *apm) step(x float64) float64 {
	y := 0.0
	if len(c.h) >= c.d {
		y = c.h[len(c.h)-c.d]
	}
	c.h = append(c.h, x+0.5*y)
	return y - x
}

type bankm struct {
	c []*combm
	a []*apm
}

func (b *bankm) step(x float64) float64 {
	y := 0.0
	for _, c := range b.c {
		y += c.step(x)
	}
	for _, a := range b.a {
		y = a.step(y)
	}
	return y
}

func (b *bankm) reset() {
	for _, c := range b.c {
		c.h, c.st = nil, 0
	}
	for _, a := range b.a {
		a.h = nil
	}
}

func newBank(c, a []float64) *bankm {
	b := &bankm{}
	for _, d := range c {
		b.c = append(b.c, &combm{d: int(d)})
	}
	for _, d := range a {
		b.a = append(b.a, &apm{d: int(d)})
	}
	return b
}

type fvm struct {
	l, r                                *bankm
	room, damp, wet, dry, width, freeze float64
}

func newFvm(sr float64) *fvm {
	mk := func(off float64) *bankm {
		var c, a []float64
		for _, t := range []float64{1116, 1188, 1277, 1356, 1422, 1491, 1557, 1617} {
			c = append(c, (t+off)*(sr/44100))
		}
		for _, t := range []float64{556, 441, 341, 225} {
			a = append(a, (t+off)*(sr/44100))
		}
		return newBank(c, a)
	}
	return &fvm{l: mk(0), r: mk(23), room: 0.5, damp: 0.5, wet: 1.0 / 3, width: 1}
}

func (m *fvm) step(a, b float64) (float64, float64) {
	fb, damp, x := m.room*0.28+0.7, m.damp*0.4, (a+b)*0.015
	if m.freeze >= 0.5 {
		fb, damp, x = 1, 0, 0
	}
	for _, k := range []*bankm{m.l, m.r} {
		for _, c := range k.c {
			c.fb, c.damp = fb, damp
		}
	}
	l, r := m.l.step(x), m.r.step(x)
	w1, w2 := m.wet*(1+m.width)/2, m.wet*(1-m.width)/2
	return l*w1 + r*w2 + a*m.dry, r*w1 + l*w2 + b*m.dry
}

type schm struct {
	b                           *bankm
	room, damp, wet, dry, width float64
}

func (m *schm) step(a, b float64, mono bool) (float64, float64) {
	for _, c := range m.b.c {
		c.fb, c.damp = 0.28+0.7*m.room, m.damp
	}
	x := (a + b) / 2
	y := 0.0
	for _, c := range m.b.c {
		y += c.step(x)
	}
	y /= 4
	for _, c := range m.b.a {
		y = c.step(y)
	}
	if !mono {
		y *= (1 + m.width) / 2
	}
	return a*m.dry + y*m.wet, b*m.dry + y*m.wet
}

type fdnm struct {
	sr                               float64
	n                                int
	d                                []int
	h                                [][]float64
	st, ph                           []float64
	out                              []float64
	decay, damp, diff, mod, wet, dry float64
}

func newFdnm(n int, sr float64) *fdnm {
	m := &fdnm{sr: sr, n: n, decay: 0.5, damp: 0.5, diff: 0.5, wet: 0.3, dry: 0.7}
	pr := []int{23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89}
	for i := 0; i < n; i++ {
		m.d = append(m.d, int(sr*0.01)*pr[i]/23)
	}
	m.reset()
	return m
}

func (m *fdnm) reset() {
	m.h, m.st, m.ph, m.out = make([][]float64, m.n), make([]float64, m.n), make([]float64, m.n), make([]float64, m.n)
	for i := range m.ph {
		m.ph[i] = 2 * math.Pi * float64(i) / float64(m.n)
	}
}

func (m *fdnm) had(i, j int) float64 {
	if m.n == 4 { // rows in sequency order 0 1 2 3 of {++++ +-+- ++-- +--+}
		return [4][4]float64{{1, 1, 1, 1}, {1, -1, 1, -1}, {1, 1, -1, -1}, {1, -1, -1, 1}}[i][j] / 2
	}
	s := 1.0
	for k := i & j; k > 0; k &= k - 1 {
		s = -s
	}
	return s / math.Sqrt(float64(m.n))
}

func (m *fdnm) wetOut(x float64) float64 {
	for i := range m.out {
		mo := 0.0
		if m.mod > 0 {
			mo = math.Sin(m.ph[i]) * 5 * m.mod
			m.ph[i] += math.Pi / m.sr
		}
		m.out[i] = ago(m.h[i], float64(m.d[i])+mo-1)
	}
	g := 0.4 + 0.58*m.decay
	sum := 0.0
	for i := range m.out {
		f := (1 - m.diff) * m.out[i]
		for j := range m.out {
			f += m.diff * m.had(i, j) * m.out[j]
		}
		m.st[i] += (x/math.Sqrt(float64(m.n)) + g*f - m.st[i]) * (1 - m.damp)
		m.h[i] = append(m.h[i], m.st[i])
		sum += m.out[i] / math.Sqrt(float64(m.n))
	}
	return sum
}

// rev is what the reverbs have in common.
type rev interface {
	Process(float32) float32
	ProcessStereo(l, r float32) (float32, float32)
	Reset()
}

type revm interface {
	mono(x float64) float64
	stereo(a, b float64) (float64, float64)
	reset()
}

func (m *fvm) mono(x float64) float64                  { y, _ := m.step(x, x); return y }
func (m *fvm) stereo(a, b float64) (float64, float64)  { return m.step(a, b) }
func (m *fvm) reset()                                  { m.l.reset(); m.r.reset() }
func (m *schm) mono(x float64) float64                 { y, _ := m.step(x, x, true); return y }
func (m *schm) stereo(a, b float64) (float64, float64) { return m.step(a, b, false) }
func (m *schm) reset()                                 { m.b.reset() }
func (m *fdnm) mono(x float64) float64                 { return x*m.dry + m.wetOut(x)*m.wet }
func (m *fdnm) stereo(a, b float64) (float64, float64) {
	w := m.wetOut((a + b) / 2)
	if m.n < 2 {
		return a*m.dry + w*m.wet, b*m.dry + w*m.wet
	}
	return a*m.dry + (w+0.3*m.out[0])*m.wet, b*m.dry + (w+0.3*m.out[1])*m.wet
}

func revOps[I rev, M revm](mono, stereo []int) (ops []nop[I, M]) {
	for k, n := range mono {
		k, n := k, n
		ops = append(ops, nop[I, M]{fmt.Sprint("mono ", n), func(i I) []float64 {
			b := buf(n, k)
			for j := range b {
				b[j] = i.Process(b[j])
			}
			return f64s(b)
		}, func(m M) []float64 {
			b := f64s(buf(n, k))
			for j := range b {
				b[j] = m.mono(b[j])
			}
			return b
		}})
	}
	for k, n := range stereo {
		k, n := k, n
		ops = append(ops, nop[I, M]{fmt.Sprint("stereo ", n), func(i I) []float64 {
			a, b := buf(n, k), buf(n, k+1)
			for j := range b {
				a[j], b[j] = i.ProcessStereo(a[j], b[j])
			}
			return append(f64s(a), f64s(b)...)
		}, func(m M) []float64 {
			a, b := f64s(buf(n, k)), f64s(buf(n, k+1))
			for j := range b {
				a[j], b[j] = m.stereo(a[j], b[j])
			}
			return append(a, b...)
		}})
	}
	return append(ops, sets("reset", func(i I) { i.Reset() }, func(m M) { m.reset() }))
}

func p43(r *core.Run) {
	if !r.Shard0() {
		return
	}
	{
		type I = *reverb.Freeverb
		type M = *fvm
		ops := revOps[I, M]([]int{1, 90}, []int{1, 60, 200})
		add := func(name string, vals []float64, do func(I, float64), f func(M) *float64) {
			for _, v := range vals {
				v := v
				ops = append(ops, sets(fmt.Sprint(name, " ", v), func(i I) { do(i, v) }, func(m M) { *f(m) = clampf(v, 0, 1) }))
			}
		}
		add("room", []float64{0.9, 7}, I.SetRoomSize, func(m M) *float64 { return &m.room })
		add("damping", []float64{0, 3}, I.SetDamping, func(m M) *float64 { return &m.damp })
		add("wet", []float64{1, -1}, I.SetWetLevel, func(m M) *float64 { return &m.wet })
		add("dry", []float64{0.5, 9}, I.SetDryLevel, func(m M) *float64 { return &m.dry })
		add("width", []float64{0, 0.4}, I.SetWidth, func(m M) *float64 { return &m.width })
		add("freeze", []float64{1, 0.3, 0.5}, I.SetMode, func(m M) *float64 { return &m.freeze })
		for _, p := range []struct {
			n  string
			do func(I)
			v  [5]float64
		}{{"small room", I.SetPresetSmallRoom, [5]float64{0.3, 0.75, 0.25, 0.75, 0.5}}, {"medium hall", I.SetPresetMediumHall, [5]float64{0.6, 0.5, 0.35, 0.65, 0.75}},
			{"large hall", I.SetPresetLargeHall, [5]float64{0.85, 0.3, 0.4, 0.6, 1}}, {"cathedral", I.SetPresetCathedral, [5]float64{0.95, 0.1, 0.5, 0.5, 1}}} {
			p := p
			ops = append(ops, sets(p.n, func(i I) { p.do(i) }, func(m M) { m.room, m.damp, m.wet, m.dry, m.width = p.v[0], p.v[1], p.v[2], p.v[3], p.v[4] }))
		}
		h := nhist[I, M]{name: "freeverb", tol: 2e-5, ops: ops, mk: func() I { return reverb.NewFreeverb(2205) }, model: func() M { return newFvm(2205) }}
		h.run(r, r.Pick(4, 4))
	}
	{
		type I = *reverb.Schroeder
		type M = *schm
		const sr = 2000.0
		ops := revOps[I, M]([]int{1, 90}, []int{1, 60, 150})
		add := func(name string, vals []float64, do func(I, float64), f func(M) *float64) {
			for _, v := range vals {
				v := v
				ops = append(ops, sets(fmt.Sprint(name, " ", v), func(i I) { do(i, v) }, func(m M) { *f(m) = clampf(v, 0, 1) }))
			}
		}
		add("room", []float64{0.9, 7, -1}, I.SetRoomSize, func(m M) *float64 { return &m.room })
		add("damping", []float64{0, 3, 0.2}, I.SetDamping, func(m M) *float64 { return &m.damp })
		add("wet", []float64{1, -1}, I.SetWetLevel, func(m M) *float64 { return &m.wet })
		add("dry", []float64{0.5, 9}, I.SetDryLevel, func(m M) *float64 { return &m.dry })
		add("width", []float64{0, 0.4, 2}, I.SetWidth, func(m M) *float64 { return &m.width })
		h := nhist[I, M]{name: "schroeder", tol: 2e-5, ops: ops, mk: func() I { return reverb.NewSchroeder(sr) }, model: func() M {
			return &schm{b: newBank([]float64{29.7 * 2, 37.1 * 2, 41.1 * 2, 43.7 * 2}, []float64{10, 3.4}), room: 0.5, damp: 0.5, wet: 0.3, dry: 0.7, width: 1}
		}}
		h.run(r, r.Pick(4, 5))
	}
	{
		type I = *reverb.FDN
		type M = *fdnm
		const sr = 1000.0
		ops := revOps[I, M]([]int{1, 40}, []int{1, 30, 120})
		add := func(name string, vals []float64, do func(I, float64), f func(M) *float64) {
			for _, v := range vals {
				v := v
				ops = append(ops, sets(fmt.Sprint(name, " ", v), func(i I) { do(i, v) }, func(m M) { *f(m) = clampf(v, 0, 1) }))
			}
		}
		add("decay", []float64{0.2, 7, -1}, I.SetDecay, func(m M) *float64 { return &m.decay })
		add("damping", []float64{0, 3, 0.2}, I.SetDamping, func(m M) *float64 { return &m.damp })
		add("diffusion", []float64{0, 3}, I.SetDiffusion, func(m M) *float64 { return &m.diff })
		add("modulation", []float64{0, 0.8}, I.SetModulation, func(m M) *float64 { return &m.mod })
		add("wet", []float64{1, -1}, I.SetWetLevel, func(m M) *float64 { return &m.wet })
		add("dry", []float64{0.5, 9}, I.SetDryLevel, func(m M) *float64 { return &m.dry })
		for _, p := range []struct {
			n  string
			do func(I)
			v  [6]float64
		}{{"small room", I.SetPresetSmallRoom, [6]float64{0.2, 0.8, 0.7, 0.1, 0.25, 0.75}}, {"medium hall", I.SetPresetMediumHall, [6]float64{0.5, 0.5, 0.85, 0.15, 0.35, 0.65}},
			{"large hall", I.SetPresetLargeHall, [6]float64{0.8, 0.3, 0.9, 0.2, 0.4, 0.6}}, {"cathedral", I.SetPresetCathedral, [6]float64{0.95, 0.1, 0.95, 0.25, 0.5, 0.5}}} {
			p := p
			ops = append(ops, sets(p.n, func(i I) { p.do(i) }, func(m M) {
				m.decay, m.damp, m.diff, m.mod, m.wet, m.dry = p.v[0], p.v[1], p.v[2], p.v[3], p.v[4], p.v[5]
			}))
		}
		// other sizes mix their lines by a matrix chosen at random, so those are
		// followed with the mixing turned off
		var plain []nop[I, M]
		for _, o := range ops {
			if !strings.HasPrefix(o.name, "diffusion") && !strings.Contains(o.name, "room") && !strings.Contains(o.name, "hall") && o.name != "cathedral" {
				plain = append(plain, o)
			}
		}
		for _, n := range []int{1, 2, 6} {
			n := n
			h := nhist[I, M]{name: fmt.Sprint("fdn_", n), tol: 1e-4, ops: plain, mk: func() I { f := reverb.NewFDN(n, sr); f.SetDiffusion(0); return f },
				model: func() M { m := newFdnm(n, sr); m.diff = 0; return m }}
			h.run(r, r.Pick(3, 4))
		}
		for _, n := range []int{4, 8} {
			n := n
			h := nhist[I, M]{name: fmt.Sprint("fdn_", n), tol: 1e-4, ops: ops, mk: func() I { return reverb.NewFDN(n, sr) }, model: func() M { return newFdnm(n, sr) }}
			h.run(r, r.Pick(3, 4))
		}
	}
	revDecay(r)
	revFreeze(r)
	revParts(r)
}

// revDecay: every setting of every reverb stays bounded under the loudest
// input and decays as fast as its settings promise.
func revDecay(r *core.Run) {
	type cs struct {
		name string
		mk   func() rev
		loop float64 // samples
		gain float64
	}
	var cases []cs
	grid := []float64{0, 0.5, 1}
	if r.Thorough {
		grid = []float64{0, 0.25, 0.5, 0.75, 0.9, 1}
	}
	const sr = 1000.0
	for _, n := range []int{1, 2, 3, 4, 5, 6, 8, 12, 16} {
		for _, dec := range grid {
			for _, damp := range grid {
				for _, diff := range grid {
					for _, mod := range []float64{0, 1} {
						n, dec, damp, diff, mod := n, dec, damp, diff, mod
						cases = append(cases, cs{fmt.Sprintf("FDN of %d, decay %v damping %v diffusion %v modulation %v", n, dec, damp, diff, mod), func() rev {
							f := reverb.NewFDN(n, sr)
							f.SetDecay(dec)
							f.SetDamping(damp)
							f.SetDiffusion(diff)
							f.SetModulation(mod)
							f.SetWetLevel(1)
							f.SetDryLevel(0)
							return f
						}, 10*89.0/23 + 6, 0.4 + 0.58*dec})
					}
				}
			}
		}
	}
	for _, room := range grid {
		for _, damp := range grid {
			room, damp := room, damp
			cases = append(cases, cs{fmt.Sprintf("Freeverb, room %v damping %v", room, damp), func() rev {
				f := reverb.NewFreeverb(sr)
				f.SetRoomSize(room)
				f.SetDamping(damp)
				f.SetWetLevel(1)
				return f
			}, 1640 * sr / 44100, 0.7 + 0.28*room}, cs{fmt.Sprintf("Schroeder, room %v damping %v", room, damp), func() rev {
				f := reverb.NewSchroeder(sr)
				f.SetRoomSize(room)
				f.SetDamping(damp)
				f.SetWetLevel(1)
				f.SetDryLevel(0)
				return f
			}, 44, 0.28 + 0.7*room})
		}
	}
	r.Bound("decay_cases", len(cases))
	r.Each(len(cases), func(i int) string { return cases[i].name }, func(i int, w *core.Worker) {
		c := cases[i]
		v := c.mk()
		x := v.ProcessStereo
		for j := 0; j < 3000; j++ {
			a := float32(1)
			if j%97 > 48 && j > 2000 {
				a = -1
			}
			l, q := x(a, a)
			if !(math.Abs(float64(l)) < 400 && math.Abs(float64(q)) < 400) {
				r.Failf("decay", "%s: output %v, %v after %d full-scale samples", c.name, l, q, j)
				return
			}
		}
		n := int(math.Log(1e-7)/math.Log(c.gain)*c.loop) + 500
		if c.gain < 1e-3 {
			n = 1000
		}
		tail := 0.0
		for j := 0; j < n; j++ {
			l, q := x(0, 0)
			if j >= n-200 {
				tail = math.Max(tail, math.Max(math.Abs(float64(l)), math.Abs(float64(q))))
			}
		}
		if !(tail < 0.002) {
			r.Failf("decay", "%s: still at %v after %d samples of silence", c.name, tail, n)
		}
		v.Reset()
		if l, q := x(0, 0); l != 0 || q != 0 {
			r.Failf("decay", "%s: %v, %v after a reset", c.name, l, q)
		}
		r.Count(int64(n), 1)
		r.Nontrivial(1)
	})
	// more decay never means a shorter tail
	tail := func(v rev) float64 {
		e := 0.0
		for j := 0; j < 2000; j++ {
			a := float32(0)
			if j == 0 {
				a = 1
			}
			l, q := v.ProcessStereo(a, a)
			if j > 1000 {
				e += float64(l)*float64(l) + float64(q)*float64(q)
			}
		}
		return e
	}
	for _, n := range []int{4, 8} {
		prev := -1.0
		for k := 0; k <= 20; k++ {
			f := reverb.NewFDN(n, sr)
			f.SetDamping(0.2)
			f.SetDecay(float64(k) / 20)
			e := tail(f)
			if e < prev {
				r.Failf("longer", "FDN of %d: tail energy falls from %v to %v as the decay rises to %v", n, prev, e, float64(k)/20)
			}
			prev = e
		}
	}
	pf, ps := -1.0, -1.0
	for k := 0; k <= 20; k++ {
		f, s := reverb.NewFreeverb(sr), reverb.NewSchroeder(sr)
		f.SetRoomSize(float64(k) / 20)
		s.SetRoomSize(float64(k) / 20)
		ef, es := tail(f), tail(s)
		if ef < pf || es < ps {
			r.Failf("longer", "tail energy falls as the room grows to %v", float64(k)/20)
		}
		pf, ps = ef, es
	}
}

// revFreeze: a frozen Freeverb keeps its energy and ignores new input.
func revFreeze(r *core.Run) {
	for _, sr := range []float64{2205, 8000} {
		for _, damp := range []float64{0, 0.5, 1} {
			a, b := reverb.NewFreeverb(sr), reverb.NewFreeverb(sr)
			for _, f := range []*reverb.Freeverb{a, b} {
				f.SetDamping(damp)
				for j := 0; j < 1500; j++ {
					f.ProcessStereo(material[j%len(material)], material[(j*3)%len(material)])
				}
				f.SetMode(1)
			}
			win := int(sr)
			first := 0.0
			for k := 0; k < r.Pick(60, 300); k++ {
				e := 0.0
				for j := 0; j < win; j++ {
					l, q := a.ProcessStereo(0, 0)
					l2, q2 := b.ProcessStereo(material[j%len(material)], 1)
					if l != l2 || q != q2 {
						r.Failf("freeze", "frozen at %v Hz: new input changes the output from %v, %v to %v, %v", sr, l, q, l2, q2)
						return
					}
					e += float64(l) * float64(l)
				}
				if k == 1 {
					first = e
				}
				if k > 1 && (e < 0.5*first || e > 2*first) {
					r.Failf("freeze", "frozen at %v Hz, damping %v: energy per second goes from %v to %v in %d s", sr, damp, first, e, k)
					return
				}
			}
			r.Count(int64(win*60), 1)
		}
	}
}

func revParts(r *core.Run) {
	type I = *reverb.CombFilter
	type M = *combm
	run := func(n int) nop[I, M] {
		return nop[I, M]{fmt.Sprint("run ", n), func(i I) []float64 {
			b := buf(n, 0)
			for j := range b {
				b[j] = i.Process(b[j])
			}
			return f64s(b)
		}, func(m M) []float64 {
			b := f64s(buf(n, 0))
			for j := range b {
				b[j] = m.step(b[j])
			}
			return b
		}}
	}
	for _, d := range []int{1, 2, 7} {
		d := d
		h := nhist[I, M]{name: fmt.Sprint("comb_", d), tol: 1e-5, mk: func() I { return reverb.NewCombFilter(d) }, model: func() M { return &combm{d: d, fb: 0.5, damp: 0.5} },
			ops: []nop[I, M]{run(1), run(5), run(16), sets("reset", func(i I) { i.Reset() }, func(m M) { m.h, m.st = nil, 0 }),
				sets("feedback 0.9", func(i I) { i.SetFeedback(0.9) }, func(m M) { m.fb = 0.9 }), sets("feedback 2", func(i I) { i.SetFeedback(2) }, func(m M) { m.fb = 1 }),
				sets("feedback -1", func(i I) { i.SetFeedback(-1) }, func(m M) { m.fb = 0 }), sets("damping 0", func(i I) { i.SetDamping(0) }, func(m M) { m.damp = 0 }),
				sets("damping 0.8", func(i I) { i.SetDamping(0.8) }, func(m M) { m.damp = 0.8 })}}
		h.run(r, r.Pick(5, 6))
	}
	for _, damp := range []float64{-1, 0, 0.25, 0.9, 1, 3} {
		f := reverb.NewDampingFilter()
		f.SetDamping(damp)
		y := 0.0
		for k := 0; k < 2; k++ {
			for j := 0; j < 40; j++ {
				x := material[j%len(material)]
				y += (float64(x) - y) * (1 - clampf(damp, 0, 1))
				if g := float64(f.Process(x)); !core.Close(g, y, 1e-5) {
					r.Failf("damping", "damping %v: sample %d is %v, want %v", damp, j, g, y)
				}
			}
			f.Reset()
			y = 0
		}
		r.Count(80, 80)
	}
}
