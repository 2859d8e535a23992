package seq

import (
	"fmt"
	"math"
	"math/cmplx"

	"github.com/justyntemme/vst3go/pkg/dsp/modulation"
	"github.com/justyntemme/vst3go/verifmc/core"
)

func init() {
	core.Register("P41", p41)
	core.Register("P42", p42)
}

func clampf(x, lo, hi float64) float64 { return math.Max(lo, math.Min(hi, x)) }
func frac(x float64) float64           { return x - math.Floor(x) }

// wave is a bipolar waveform over one cycle.
func wave(w modulation.Waveform, p float64) float64 {
	switch w {
	case modulation.WaveformTriangle:
		return oscTri(p)
	case modulation.WaveformSquare:
		return oscPulse(0.5)(p)
	case modulation.WaveformSawtooth:
		return 2*p - 1
	}
	return oscSine(p)
}

var waveNames = []string{"sine", "triangle", "square", "sawtooth"}

// lfom is the reference LFO.
type lfom struct {
	sr, f, ph, depth, off float64
	w                     modulation.Waveform
	sync                  bool
	syncPh                float64
}

func newLfom(sr, f float64, w modulation.Waveform) *lfom {
	return &lfom{sr: sr, f: f, depth: 1, w: w}
}

func (m *lfom) next() float64 {
	y := clampf(wave(m.w, m.ph)*m.depth+m.off, -1, 1)
	m.ph += m.f / m.sr
	if m.ph >= 1 {
		m.ph--
	}
	return y
}

func p41(r *core.Run) {
	if !r.Shard0() {
		return
	}
	lfoHist(r)
	lfoRandom(r)
	tremoloHist(r)
	ringHist(r)
}

func lfoHist(r *core.Run) {
	type I = *modulation.LFO
	type M = *lfom
	const sr = 1024.0
	ops := []nop[I, M]{
		{"next", func(i I) []float64 { return []float64{i.Process()} }, func(m M) []float64 { return []float64{m.next()} }},
		{"run 37", func(i I) []float64 { return times(37, i.Process) }, func(m M) []float64 { return times(37, m.next) }},
		{"buffer 700", func(i I) []float64 { b := make([]float64, 700); i.ProcessBuffer(b); return b }, func(m M) []float64 { return times(700, m.next) }},
		sets("reset", func(i I) { i.Reset() }, func(m M) { m.ph = 0 }),
		sets("sync", func(i I) { i.Sync() }, func(m M) {
			if m.sync {
				m.ph = m.syncPh
			}
		}),
		sets("sync at 0.25", func(i I) { i.EnableSync(true, 0.25) }, func(m M) { m.sync, m.syncPh = true, 0.25 }),
		sets("sync off", func(i I) { i.EnableSync(false, 0.5) }, func(m M) { m.sync, m.syncPh = false, 0.5 }),
	}
	for _, f := range []float64{0.5, 8, 100, -1} {
		f := f
		ops = append(ops, sets(fmt.Sprint("frequency ", f), func(i I) { i.SetFrequency(f) }, func(m M) { m.f = clampf(f, 0.01, 20) }))
	}
	for w := range waveNames {
		w := modulation.Waveform(w)
		ops = append(ops, sets(waveNames[w], func(i I) { i.SetWaveform(w) }, func(m M) { m.w = w }))
	}
	for _, d := range []float64{0.5, 2, -1} {
		d := d
		ops = append(ops, sets(fmt.Sprint("depth ", d), func(i I) { i.SetDepth(d) }, func(m M) { m.depth = clampf(d, 0, 1) }))
	}
	for _, d := range []float64{0.25, -2} {
		d := d
		ops = append(ops, sets(fmt.Sprint("offset ", d), func(i I) { i.SetOffset(d) }, func(m M) { m.off = clampf(d, -1, 1) }))
	}
	for _, d := range []float64{0.75, -0.25, 3.5} {
		d := d
		ops = append(ops, sets(fmt.Sprint("phase ", d), func(i I) { i.SetPhase(d) }, func(m M) { m.ph = frac(d) }))
	}
	h := nhist[I, M]{name: "lfo", tol: 1e-9, ops: ops, mk: func() I { return modulation.NewLFO(sr) }, model: func() M { return newLfom(sr, 1, 0) },
		inv: func(i I, m M) string {
			if !core.Close(i.GetPhase(), m.ph, 1e-9) {
				return fmt.Sprintf("phase %v, reference %v", i.GetPhase(), m.ph)
			}
			return ""
		}}
	h.run(r, r.Pick(3, 4))
	// with the random waveform the values are free but the phase goes on
	h.name = "lfo_random"
	rnd := h
	rnd.mk = func() I { l := modulation.NewLFO(sr); l.SetWaveform(modulation.WaveformRandom); return l }
	rnd.ops = []nop[I, M]{sets("random", func(i I) { i.SetWaveform(modulation.WaveformRandom) }, func(M) {})}
	for _, o := range ops {
		o := o
		switch o.name {
		case "next", "run 37", "buffer 700":
			rnd.ops = append(rnd.ops, nop[I, M]{o.name, func(i I) []float64 {
				for _, y := range o.do(i) {
					if !(math.Abs(y) <= 1) {
						return []float64{y}
					}
				}
				return nil
			}, func(m M) []float64 { o.spec(m); return nil }})
		case "sine", "triangle", "square", "sawtooth":
		default:
			rnd.ops = append(rnd.ops, o)
		}
	}
	rnd.run(r, r.Pick(4, 5))
	for _, off := range []float64{0, 0.5} {
		l := modulation.NewLFO(sr)
		l.SetOffset(off)
		l.SetWaveform(modulation.WaveformRandom + 5)
		for _, y := range times(100, l.Process) {
			if y != off {
				r.Failf("lfo", "a waveform that does not exist comes out as %v with offset %v", y, off)
				break
			}
		}
	}
}

// lfoRandom: the random waveform holds each value for one period.
func lfoRandom(r *core.Run) {
	for _, sr := range []float64{100, 1000, 44100} {
		for _, f := range []float64{0.5, 3, 7.3, 20} {
			for _, depth := range []float64{1, 0.25} {
				l := modulation.NewLFO(sr)
				l.SetFrequency(f)
				l.SetDepth(depth)
				off := 0.5 * (1 - depth) // no clamping
				l.SetOffset(off)
				l.SetWaveform(modulation.WaveformRandom)
				period := sr / f
				prev, since, changes := math.NaN(), 0, 0
				n := int(period * 40)
				seen := map[float64]bool{}
				for j := 0; j < n; j++ {
					y := l.Process()
					if !(math.Abs(y-off) <= depth+1e-12) {
						r.Failf("random", "random LFO at %v Hz of %v: sample %d is %v", f, sr, j, y)
						return
					}
					if y != prev {
						if changes > 0 && math.Abs(float64(since)-period) > 1 {
							r.Failf("random", "random LFO at %v Hz of %v held a value for %d samples, period %v", f, sr, since, period)
							return
						}
						changes++
						since = 0
						seen[y] = true
					}
					prev = y
					since++
				}
				lo, hi := 0.0, 0.0
				for y := range seen {
					lo, hi = math.Min(lo, y-off), math.Max(hi, y-off)
				}
				if lo > -0.3*depth || hi < 0.3*depth {
					r.Failf("random", "random LFO at %v Hz of %v: %d values lie between %v and %v, depth %v", f, sr, len(seen), lo, hi, depth)
				}
				// after a reset the first value is held for a whole period
				for _, k := range []int{1, int(period / 2), int(period) - 1} {
					for j := 0; j < k; j++ {
						l.Process()
					}
					l.Reset()
					y, held := l.Process(), 1
					for l.Process() == y && held <= 2*int(period) {
						held++
					}
					if math.Abs(float64(held)-period) > 1 {
						r.Failf("random", "random LFO at %v Hz of %v: after a reset the first value is held for %d samples, period %v", f, sr, held, period)
					}
				}
				if changes < 38 || len(seen) < 30 {
					r.Failf("random", "random LFO at %v Hz of %v changed %d times in 40 periods (%d values)", f, sr, changes, len(seen))
				}
				r.Count(int64(n), int64(n))
			}
		}
	}
}

type tremm struct {
	l               *lfom
	depth, off      float64
	mode            int
	stereo, smooth  bool
	k, gl, gr, last float64
}

func (m *tremm) gain(lfo float64) float64 {
	if m.mode == 1 {
		return 1 - m.depth*math.Abs(lfo)
	}
	return 1 - m.depth*(1-lfo)/2
}

func (m *tremm) step() (float64, float64) {
	p := m.l.ph
	a := m.gain(m.l.next())
	b := a
	if m.stereo {
		b = m.gain(wave(m.l.w, frac(p+m.off)))
	}
	if m.smooth {
		a += (m.gl - a) * m.k
		b += (m.gr - b) * m.k
	}
	m.gl, m.gr = a, b
	return a, b
}

func tremoloHist(r *core.Run) {
	type I = *modulation.Tremolo
	type M = *tremm
	const sr = 1024.0
	for _, mono := range []bool{true, false} {
		mono := mono
		var ops []nop[I, M]
		for _, n := range []int{1, 50, 333} {
			n := n
			if mono {
				ops = append(ops, nop[I, M]{fmt.Sprint("mono ", n), func(i I) []float64 {
					o := make([]float32, n)
					i.ProcessBuffer(buf(n, 0), o)
					return f64s(o)
				}, func(m M) []float64 {
					o := f64s(buf(n, 0))
					for j := range o {
						g, _ := m.step()
						o[j] *= g
					}
					return o
				}})
				continue
			}
			ops = append(ops, nop[I, M]{fmt.Sprint("stereo ", n), func(i I) []float64 {
				a, b := buf(n, 0), buf(n, 1)
				i.ProcessStereoBuffer(a, b, a, b)
				return append(f64s(a), f64s(b)...)
			}, func(m M) []float64 {
				a, b := f64s(buf(n, 0)), f64s(buf(n, 1))
				for j := range a {
					g, h := m.step()
					a[j] *= g
					b[j] *= h
				}
				return append(a, b...)
			}})
		}
		if mono {
			ops = append(ops, nop[I, M]{"mono sample", func(i I) []float64 { return []float64{float64(i.Process(0.5))} },
				func(m M) []float64 { g, _ := m.step(); return []float64{0.5 * g} }})
		}
		ops = append(ops, sets("reset", func(i I) { i.Reset() }, func(m M) { m.l.ph, m.gl, m.gr = 0, 1, 1 }))
		for _, f := range []float64{2, 100, -1} {
			f := f
			ops = append(ops, sets(fmt.Sprint("rate ", f), func(i I) { i.SetRate(f) }, func(m M) { m.l.f = clampf(f, 0.01, 20) }))
		}
		for _, f := range []float64{1, 0.25, -3} {
			f := f
			ops = append(ops, sets(fmt.Sprint("depth ", f), func(i I) { i.SetDepth(f) }, func(m M) { m.depth = clampf(f, 0, 1) }))
		}
		for w := range waveNames {
			w := modulation.Waveform(w)
			ops = append(ops, sets(waveNames[w], func(i I) { i.SetWaveform(w) }, func(m M) { m.l.w = w; m.smooth = w == modulation.WaveformSquare }))
		}
		for k, n := range []string{"normal", "harmonic"} {
			k := k
			ops = append(ops, sets(n+" mode", func(i I) { i.SetMode(modulation.TremoloMode(k)) }, func(m M) { m.mode = k }))
		}
		for _, b := range []bool{true, false} {
			b := b
			ops = append(ops, sets(fmt.Sprint("smoothing ", b), func(i I) { i.EnableSmoothing(b) }, func(m M) { m.smooth = b }))
			if !mono {
				ops = append(ops, sets(fmt.Sprint("stereo ", b), func(i I) { i.SetStereo(b) }, func(m M) { m.stereo = b }))
			}
		}
		if !mono {
			for _, p := range []float64{0.25, 1, 7} {
				p := p
				ops = append(ops, sets(fmt.Sprint("stereo phase ", p), func(i I) { i.SetStereoPhase(p) }, func(m M) { m.off = clampf(p, 0, 1) }))
			}
		}
		h := nhist[I, M]{name: fmt.Sprint("tremolo_mono_", mono), tol: 1e-6, ops: ops, mk: func() I { return modulation.NewTremolo(sr) },
			model: func() M { return &tremm{l: newLfom(sr, 5, 0), depth: 0.5, k: tc(0.005, sr), gl: 1, gr: 1} },
			inv: func(i I, m M) string {
				if !core.Close(i.GetCurrentGain(), m.gl, 1e-6) {
					return fmt.Sprintf("current gain %v, applied %v", i.GetCurrentGain(), m.gl)
				}
				return ""
			}}
		h.run(r, r.Pick(4, 5))
	}
}

type ringm struct {
	sr, f, mix, ph, depth float64
	w                     modulation.Waveform
	on                    bool
	l                     *lfom
}

func (m *ringm) carrier() float64 {
	f := m.f
	if m.on {
		f *= 1 + m.l.next()*m.depth
	}
	c := wave(m.w, m.ph)
	m.ph += f / m.sr
	if m.ph >= 1 {
		m.ph--
	}
	return c
}

func ringHist(r *core.Run) {
	type I = *modulation.RingModulator
	type M = *ringm
	const sr = 1024.0
	ops := []nop[I, M]{}
	for _, n := range []int{1, 9, 64} {
		n := n
		ops = append(ops, nop[I, M]{fmt.Sprint("mono ", n), func(i I) []float64 {
			b := buf(n, 0)
			i.ProcessBuffer(b, b)
			return f64s(b)
		}, func(m M) []float64 {
			b := f64s(buf(n, 0))
			for j := range b {
				c := m.carrier()
				b[j] = b[j]*(1-m.mix) + b[j]*c*m.mix
			}
			return b
		}}, nop[I, M]{fmt.Sprint("stereo ", n), func(i I) []float64 {
			a, b := buf(n, 1), buf(n, 2)
			i.ProcessStereoBuffer(a, b, a, b)
			return append(f64s(a), f64s(b)...)
		}, func(m M) []float64 {
			a, b := f64s(buf(n, 1)), f64s(buf(n, 2))
			for j := range b {
				c := m.carrier()
				a[j] = a[j]*(1-m.mix) + a[j]*c*m.mix
				b[j] = b[j]*(1-m.mix) + b[j]*c*m.mix
			}
			return append(a, b...)
		}})
	}
	ops = append(ops, sets("reset", func(i I) { i.Reset() }, func(m M) { m.ph, m.l.ph = 0, 0 }),
		sets("lfo on", func(i I) { i.EnableLFO(true) }, func(m M) { m.on = true }),
		sets("lfo off", func(i I) { i.EnableLFO(false) }, func(m M) { m.on = false }))
	for _, f := range []float64{64, 200, 1e5, -5} {
		f := f
		ops = append(ops, sets(fmt.Sprint("frequency ", f), func(i I) { i.SetFrequency(f) }, func(m M) { m.f = clampf(f, 0.1, sr/2) }))
	}
	for _, f := range []float64{1, 0, 1.5} {
		f := f
		ops = append(ops, sets(fmt.Sprint("mix ", f), func(i I) { i.SetMix(f) }, func(m M) { m.mix = clampf(f, 0, 1) }),
			sets(fmt.Sprint("lfo depth ", f), func(i I) { i.SetLFODepth(f) }, func(m M) { m.depth = clampf(f, 0, 1) }))
	}
	ops = append(ops, sets("lfo rate 15", func(i I) { i.SetLFORate(15) }, func(m M) { m.l.f = 15 }))
	for w := range waveNames {
		w := modulation.Waveform(w)
		ops = append(ops, sets(waveNames[w], func(i I) { i.SetWaveform(w) }, func(m M) { m.w = w }))
	}
	ops = append(ops, sets("random", func(i I) { i.SetWaveform(modulation.WaveformRandom) }, func(m M) { m.w = modulation.WaveformSine }))
	h := nhist[I, M]{name: "ring_modulator", tol: 1e-6, ops: ops, mk: func() I { return modulation.NewRingModulator(sr) },
		model: func() M { return &ringm{sr: sr, f: 440, mix: 0.5, depth: 0.1, l: newLfom(sr, 0.5, 0)} }}
	h.run(r, r.Pick(4, 5))
}

func p42(r *core.Run) {
	if !r.Shard0() {
		return
	}
	chorusHist(r)
	flangerHist(r)
	phaserHist(r)
	phaserShift(r)
}

// ago interpolates the history of delay-line inputs d samples before the
// latest one; before the beginning there is silence.
func ago(h []float64, d float64) float64 {
	at := func(k int) float64 {
		if i := len(h) - 1 - k; i >= 0 {
			return h[i]
		}
		return 0
	}
	k := int(math.Floor(d))
	f := d - math.Floor(d)
	return at(k)*(1-f) + at(k+1)*f
}

type chom struct {
	sr, rate, depth, delay, mix, fb, spread float64
	ls                                      []*lfom
	l, r                                    []float64
	fl, fr                                  float64
}

func (m *chom) voices(n int) {
	m.ls = nil
	for i := 0; i < n; i++ {
		m.ls = append(m.ls, newLfom(m.sr, m.rate, 0))
	}
	m.reset()
}

func (m *chom) reset() {
	for i, l := range m.ls {
		l.ph = float64(i) / float64(len(m.ls))
	}
	m.l, m.r, m.fl, m.fr = nil, nil, 0, 0
}

func (m *chom) step(a, b float64) (float64, float64) {
	m.l, m.r = append(m.l, a+m.fl*m.fb), append(m.r, b+m.fr*m.fb)
	var wl, wr float64
	n := len(m.ls)
	for v, l := range m.ls {
		d := math.Max(1, (m.delay+m.depth*l.next())*m.sr/1000)
		x, y := ago(m.l, d), ago(m.r, d)
		if n > 1 {
			p := ((float64(v)/float64(n-1)-0.5)*m.spread + 0.5) * math.Pi / 2
			x *= math.Cos(p) / float64(n)
			y *= math.Sin(p) / float64(n)
		}
		wl += x
		wr += y
	}
	m.fl, m.fr = wl, wr
	return a*(1-m.mix) + wl*m.mix, b*(1-m.mix) + wr*m.mix
}

func chorusHist(r *core.Run) {
	type I = *modulation.Chorus
	type M = *chom
	const sr = 1000.0
	var ops []nop[I, M]
	for _, n := range []int{1, 40, 150} {
		n := n
		ops = append(ops, nop[I, M]{fmt.Sprint("stereo ", n), func(i I) []float64 {
			a, b := buf(n, 1), buf(n, 2)
			i.ProcessStereoBuffer(a, b, a, b)
			return append(f64s(a), f64s(b)...)
		}, func(m M) []float64 {
			a, b := f64s(buf(n, 1)), f64s(buf(n, 2))
			for j := range a {
				a[j], b[j] = m.step(a[j], b[j])
			}
			return append(a, b...)
		}})
	}
	ops = append(ops, nop[I, M]{"mono 25", func(i I) []float64 {
		a, b := make([]float32, 25), make([]float32, 25)
		i.ProcessBuffer(buf(25, 3), a, b)
		return append(f64s(a), f64s(b)...)
	}, func(m M) []float64 {
		a, b := f64s(buf(25, 3)), f64s(buf(25, 3))
		for j := range a {
			a[j], b[j] = m.step(a[j], b[j])
		}
		return append(a, b...)
	}}, sets("reset", func(i I) { i.Reset() }, func(m M) { m.reset() }))
	add := func(name string, vals []float64, do func(I, float64), spec func(M, float64)) {
		for _, v := range vals {
			v := v
			ops = append(ops, sets(fmt.Sprint(name, " ", v), func(i I) { do(i, v) }, func(m M) { spec(m, v) }))
		}
	}
	add("rate", []float64{4, 99}, I.SetRate, func(m M, v float64) {
		m.rate = clampf(v, 0.01, 10)
		for _, l := range m.ls {
			l.f = m.rate
		}
	})
	add("depth", []float64{0, 9.5, 20}, I.SetDepth, func(m M, v float64) { m.depth = clampf(v, 0, 10) })
	add("delay", []float64{0, 7.3, 50, 80}, I.SetDelay, func(m M, v float64) { m.delay = clampf(v, 1, 50) })
	add("mix", []float64{1, -1}, I.SetMix, func(m M, v float64) { m.mix = clampf(v, 0, 1) })
	add("feedback", []float64{0.4, 3}, I.SetFeedback, func(m M, v float64) { m.fb = clampf(v, 0, 0.5) })
	add("spread", []float64{0, 0.6, -0.5}, I.SetSpread, func(m M, v float64) { m.spread = clampf(v, 0, 1) })
	add("voices", []float64{0, 3, 9}, func(i I, v float64) { i.SetVoices(int(v)) }, func(m M, v float64) { m.voices(int(clampf(v, 1, 4))) })
	h := nhist[I, M]{name: "chorus", tol: 2e-5, ops: ops, mk: func() I { return modulation.NewChorus(sr) }, model: func() M {
		m := &chom{sr: sr, rate: 0.5, depth: 2, delay: 20, mix: 0.5, spread: 1}
		m.voices(2)
		return m
	}}
	h.run(r, r.Pick(4, 5))
	h.name, h.mk = "chorus_wet", func() I {
		c := modulation.NewChorus(sr)
		c.SetMix(1)
		c.SetFeedback(0.5)
		c.SetRate(6)
		c.SetVoices(4)
		return c
	}
	h.model = func() M {
		m := &chom{sr: sr, rate: 6, depth: 2, delay: 20, mix: 1, fb: 0.5, spread: 1}
		m.voices(4)
		return m
	}
	h.run(r, r.Pick(4, 5))
}

type flam struct {
	sr, depth, delay, fb, mix, manual float64
	man                               bool
	l                                 *lfom
	h                                 []float64
	last                              float64
}

func (m *flam) step(x float64) (wet float64) {
	m.h = append(m.h, clampf(x+m.last*m.fb, -1, 1))
	mod := 2*m.manual - 1
	if !m.man {
		mod = m.l.next()
	}
	m.last = ago(m.h, math.Max(0.1, (m.delay+m.depth*mod)*m.sr/1000))
	return m.last * m.mix
}

func flangerHist(r *core.Run) {
	type I = *modulation.Flanger
	type M = *flam
	const sr = 2000.0
	var ops []nop[I, M]
	for _, n := range []int{1, 30, 120} {
		n := n
		ops = append(ops, nop[I, M]{fmt.Sprint("mono ", n), func(i I) []float64 {
			b := buf(n, 1)
			i.ProcessBuffer(b, b)
			return f64s(b)
		}, func(m M) []float64 {
			b := f64s(buf(n, 1))
			for j := range b {
				b[j] = b[j]*(1-m.mix) + m.step(b[j])
			}
			return b
		}})
	}
	ops = append(ops, nop[I, M]{"stereo 20", func(i I) []float64 {
		a, b := buf(20, 2), buf(20, 3)
		i.ProcessStereoBuffer(a, b, a, b)
		return append(f64s(a), f64s(b)...)
	}, func(m M) []float64 {
		a, b := f64s(buf(20, 2)), f64s(buf(20, 3))
		for j := range b {
			w := m.step(a[j])
			a[j], b[j] = a[j]*(1-m.mix)+w, b[j]*(1-m.mix)-w
		}
		return append(a, b...)
	}}, sets("reset", func(i I) { i.Reset() }, func(m M) { m.h, m.last, m.l.ph = nil, 0, 0 }))
	add := func(name string, vals []float64, do func(I, float64), spec func(M, float64)) {
		for _, v := range vals {
			v := v
			ops = append(ops, sets(fmt.Sprint(name, " ", v), func(i I) { do(i, v) }, func(m M) { spec(m, v) }))
		}
	}
	add("rate", []float64{4, 99}, I.SetRate, func(m M, v float64) { m.l.f = clampf(v, 0.01, 20) })
	add("depth", []float64{0, 9.5, 20}, I.SetDepth, func(m M, v float64) { m.depth = clampf(v, 0, 10) })
	add("delay", []float64{0, 3.3, 20}, I.SetDelay, func(m M, v float64) { m.delay = clampf(v, 0.1, 10) })
	add("mix", []float64{1, -1, 0.25}, I.SetMix, func(m M, v float64) { m.mix = clampf(v, 0, 1) })
	add("feedback", []float64{0, 3, -0.7, -5}, I.SetFeedback, func(m M, v float64) { m.fb = clampf(v, -0.99, 0.99) })
	add("manual", []float64{1, 0, 0.3}, I.SetManual, func(m M, v float64) { m.manual = clampf(v, 0, 1) })
	add("manual mode", []float64{1, 0}, func(i I, v float64) { i.SetManualMode(v > 0) }, func(m M, v float64) { m.man = v > 0 })
	h := nhist[I, M]{name: "flanger", tol: 5e-5, ops: ops, mk: func() I { return modulation.NewFlanger(sr) },
		model: func() M {
			return &flam{sr: sr, depth: 2, delay: 5, fb: 0.5, mix: 0.5, manual: 0.5, l: newLfom(sr, 0.5, 1)}
		}}
	h.run(r, r.Pick(4, 5))
}

type pham struct {
	sr, lo, hi, centre, depth, fb, mix, last float64
	st                                       []float64
	l                                        *lfom
}

func (m *pham) rng() {
	m.lo, m.hi = math.Max(20, m.centre*(1-m.depth/2)), math.Min(m.sr/4, m.centre*(1+m.depth/2))
}

func (m *pham) step(x float64) float64 {
	f := m.lo * math.Pow(m.hi/m.lo, (m.l.next()+1)/2)
	t := math.Tan(math.Pi * f / m.sr)
	c := (t - 1) / (t + 1)
	y := clampf(x+m.last*m.fb, -1, 1)
	for i := range m.st {
		o := c*y + m.st[i]
		m.st[i] = y - c*o
		y = o
	}
	m.last = y
	return y * m.mix
}

func phaserHist(r *core.Run) {
	type I = *modulation.Phaser
	type M = *pham
	const sr = 16000.0
	var ops []nop[I, M]
	for _, n := range []int{1, 40, 300} {
		n := n
		ops = append(ops, nop[I, M]{fmt.Sprint("mono ", n), func(i I) []float64 {
			b := buf(n, 1)
			i.ProcessBuffer(b, b)
			return f64s(b)
		}, func(m M) []float64 {
			b := f64s(buf(n, 1))
			for j := range b {
				b[j] = b[j]*(1-m.mix) + m.step(b[j])
			}
			return b
		}})
	}
	ops = append(ops, nop[I, M]{"stereo 20", func(i I) []float64 {
		a, b := buf(20, 2), buf(20, 3)
		i.ProcessStereoBuffer(a, b, a, b)
		return append(f64s(a), f64s(b)...)
	}, func(m M) []float64 {
		a, b := f64s(buf(20, 2)), f64s(buf(20, 3))
		for j := range b {
			w := m.step(a[j])
			a[j], b[j] = a[j]*(1-m.mix)+w, b[j]*(1-m.mix)-w
		}
		return append(a, b...)
	}}, sets("reset", func(i I) { i.Reset() }, func(m M) { clear(m.st); m.last, m.l.ph = 0, 0 }))
	add := func(name string, vals []float64, do func(I, float64), spec func(M, float64)) {
		for _, v := range vals {
			v := v
			ops = append(ops, sets(fmt.Sprint(name, " ", v), func(i I) { do(i, v) }, func(m M) { spec(m, v) }))
		}
	}
	add("rate", []float64{8, 99}, I.SetRate, func(m M, v float64) { m.l.f = clampf(v, 0.01, 10) })
	add("depth", []float64{0, 0.9, 20}, I.SetDepth, func(m M, v float64) { m.depth = clampf(v, 0, 1); m.rng() })
	add("centre", []float64{0, 300, 3800}, I.SetCenterFrequency, func(m M, v float64) { m.centre = clampf(v, 100, 4000); m.rng() })
	add("mix", []float64{1, -1, 0.25}, I.SetMix, func(m M, v float64) { m.mix = clampf(v, 0, 1) })
	add("feedback", []float64{0, 3, -0.7, -5}, I.SetFeedback, func(m M, v float64) { m.fb = clampf(v, -0.99, 0.99) })
	add("stages", []float64{1, 5, 8, 20}, func(i I, v float64) { i.SetStages(int(v)) }, func(m M, v float64) {
		n := int(clampf(v, 2, 8))
		m.st = make([]float64, n-n%2)
	})
	for _, p := range [][2]float64{{300, 3000}, {1, 50}, {5000, 100}, {500, 16000}} {
		p := p
		ops = append(ops, sets(fmt.Sprint("range ", p), func(i I) { i.SetFrequencyRange(p[0], p[1]) }, func(m M) {
			m.lo = clampf(p[0], 20, sr/4)
			m.hi = math.Max(m.lo+100, math.Min(sr/2, p[1]))
			m.centre = (m.lo + m.hi) / 2
		}))
	}
	h := nhist[I, M]{name: "phaser", tol: 1e-4, ops: ops, mk: func() I { return modulation.NewPhaser(sr) },
		model: func() M {
			m := &pham{sr: sr, centre: 1000, depth: 0.5, fb: 0.5, mix: 0.5, st: make([]float64, 4), l: newLfom(sr, 0.5, 0)}
			m.rng()
			return m
		}}
	h.run(r, r.Pick(4, 5))
}

// phaserShift measures that a still phaser passes every frequency at its full
// level and turns the centre frequency by a quarter cycle per stage.
func phaserShift(r *core.Run) {
	for _, sr := range []float64{16000, 48000, 96000} {
		for _, f := range []float64{100, 440, 1000, 3000} {
			for _, stages := range []int{2, 4, 6, 8} {
				p := modulation.NewPhaser(sr)
				p.SetStages(stages)
				p.SetDepth(0)
				p.SetCenterFrequency(f)
				p.SetFeedback(0)
				p.SetMix(1)
				b := make([]float32, int(sr/f*60)+100)
				b[0] = 1
				p.ProcessBuffer(b, b)
				for _, g := range []float64{f, f / 3, math.Min(4*f, 0.45*sr)} {
					var h complex128
					for j, x := range b {
						h += complex(float64(x), 0) * cmplx.Exp(complex(0, -2*math.Pi*g/sr*float64(j)))
					}
					t := math.Tan(math.Pi*g/sr) / math.Tan(math.Pi*f/sr)
					want := cmplx.Exp(complex(0, -2*float64(stages)*math.Atan(t)))
					if cmplx.Abs(h-want) > 0.01 {
						r.Failf("phase", "phaser, %d stages at %v Hz of %v: response at %v Hz is %v, want %v", stages, f, sr, g, h, want)
						return
					}
				}
				a := modulation.NewAllPassFilter()
				a.SetFrequency(f, sr)
				e := 0.0
				for j := 0; j < len(b); j++ {
					x := float32(0)
					if j == 0 {
						x = 1
					}
					y := float64(a.Process(x))
					e += y * y
				}
				if math.Abs(e-1) > 1e-3 {
					r.Failf("phase", "all-pass at %v Hz of %v: impulse energy %v", f, sr, e)
				}
				a.Reset()
				if y := a.Process(0); y != 0 {
					r.Failf("phase", "all-pass at %v Hz of %v: %v after reset", f, sr, y)
				}
				r.Count(int64(len(b)), 3)
				r.Nontrivial(1)
			}
		}
	}
}
