package seq

import (
	"fmt"
	"math"
	"math/cmplx"

	"github.com/justyntemme/vst3go/pkg/dsp/oscillator"
	"github.com/justyntemme/vst3go/verifmc/core"
)

func init() { core.Register("P40", p40) }

type oscm struct{ ph, inc float64 }

func (m *oscm) next() float64 {
	p := m.ph
	m.ph += m.inc
	m.ph -= math.Floor(m.ph)
	return p
}

func oscSine(p float64) float64 { return math.Sin(2 * math.Pi * p) }
func oscSaw(p float64) float64  { return 2*p - 1 }
func oscPulse(w float64) func(float64) float64 {
	return func(p float64) float64 {
		if p < w {
			return 1
		}
		return -1
	}
}
func oscTri(p float64) float64 { return 1 - 2*math.Abs(2*p-1) }

func p40(r *core.Run) {
	if !r.Shard0() {
		return
	}
	type I = *oscillator.Oscillator
	type M = *oscm
	const sr = 14080.0 // the default 440 Hz and every frequency below advance by an exact binary fraction
	blk := func(name string, n int, do func(I, []float32), wave func(float64) float64) nop[I, M] {
		return nop[I, M]{fmt.Sprintf("%d %s samples", n, name), func(i I) []float64 {
			b := buf(n, 0)
			do(i, b)
			if !tailOK(b) {
				return nil
			}
			return f64s(b)
		}, func(m M) []float64 { return times(n, func() float64 { return wave(m.next()) }) }}
	}
	one := func(name string, do func(I) float32, wave func(float64) float64) nop[I, M] {
		return nop[I, M]{name, func(i I) []float64 { return []float64{float64(do(i))} }, func(m M) []float64 { return []float64{wave(m.next())} }}
	}
	ops := []nop[I, M]{
		blk("sine", 9, func(i I, b []float32) { i.ProcessSine(b) }, oscSine),
		blk("saw", 70, func(i I, b []float32) { i.ProcessSaw(b) }, oscSaw),
		blk("square", 40, func(i I, b []float32) { i.ProcessSquare(b) }, oscPulse(0.5)),
		blk("triangle", 33, func(i I, b []float32) { i.ProcessTriangle(b) }, oscTri),
		blk("sine", 0, func(i I, b []float32) { i.ProcessSine(b) }, oscSine),
		one("sine", I.Sine, oscSine), one("saw", I.Saw, oscSaw), one("square", I.Square, oscPulse(0.5)), one("triangle", I.Triangle, oscTri),
		one("pulse 0.3125", func(i I) float32 { return i.Pulse(0.3125) }, oscPulse(0.3125)),
	}
	for _, w := range []float64{0.25, 1, 0, -0.25, 1.5} {
		w := w
		ops = append(ops, blk(fmt.Sprint("pulse ", w), 20, func(i I, b []float32) { i.ProcessPulse(b, w) }, oscPulse(w)))
	}
	for _, f := range []float64{220, 1320, 6930, 0, -440, 20240, -16720} {
		f := f
		ops = append(ops, sets(fmt.Sprint("frequency ", f), func(i I) { i.SetFrequency(f) }, func(m M) { m.inc = f / sr }))
	}
	for _, p := range []float64{0.25, -0.3125, 5.75, 1} {
		p := p
		ops = append(ops, sets(fmt.Sprint("phase ", p), func(i I) { i.SetPhase(p) }, func(m M) { m.ph = p - math.Floor(p) }))
	}
	ops = append(ops, sets("reset", func(i I) { i.Reset() }, func(m M) { m.ph = 0 }))
	h := nhist[I, M]{name: "oscillator", tol: 1e-6, ops: ops, mk: func() I { return oscillator.New(sr) }, model: func() M { return &oscm{inc: 1.0 / 32} }}
	h.run(r, r.Pick(4, 5))
	drift(r)
	blit(r)
	blsaw(r)
}

// drift: over long runs the phase stays where frequency and time put it, and
// every waveform stays within -1..1.
func drift(r *core.Run) {
	srs := []float64{8000, 44100, 48000, 96000}
	fs := []float64{0.1, 1, 27.5, 440, 999.9, 7040, 15000, 30000, -3, -440.5, -50000}
	r.Each(len(srs)*len(fs), func(k int) string { return fmt.Sprintf("long run at %v Hz of %v", fs[k%len(fs)], srs[k/len(fs)]) }, func(k int, w *core.Worker) {
		sr, f := srs[k/len(fs)], fs[k%len(fs)]
		n := r.Pick(200000, 2000000)
		o, q, t := oscillator.New(sr), oscillator.New(sr), oscillator.New(sr)
		for _, x := range []*oscillator.Oscillator{o, q, t} {
			x.SetFrequency(f)
		}
		for j := 0; j < n; j++ {
			y := float64(o.Saw())
			if !(math.Abs(y) <= 1) {
				r.Failf("range", "saw at %v Hz of %v: sample %d is %v", f, sr, j, y)
				return
			}
			want := float64(j) * f / sr
			d := (y+1)/2 - want
			d -= math.Round(d)
			if math.Abs(d) > 1e-6 {
				r.Failf("drift", "saw at %v Hz of %v: sample %d has phase %v, want %v", f, sr, j, (y+1)/2, want-math.Floor(want))
				return
			}
			want -= math.Floor(want)
			if y := float64(q.Sine()); math.Abs(y-oscSine(want)) > 1e-5 {
				r.Failf("drift", "sine at %v Hz of %v: sample %d is %v, want %v", f, sr, j, y, oscSine(want))
				return
			}
			if y := float64(t.Triangle()); math.Abs(y-oscTri(want)) > 1e-5 {
				r.Failf("drift", "triangle at %v Hz of %v: sample %d is %v, want %v", f, sr, j, y, oscTri(want))
				return
			}
		}
		r.Count(int64(n), int64(n))
		r.Nontrivial(1)
	})
}

// blit: every sample is the sum of the harmonics below the Nyquist frequency.
func blit(r *core.Run) {
	type I = *oscillator.BLITOscillator
	type M = *blm
	for _, sr := range []float64{8000, 48000} {
		sr := sr
		run := func(n int) nop[I, M] {
			return nop[I, M]{fmt.Sprintf("%d impulse train samples", n), func(i I) []float64 {
				return times(n, func() float64 { return float64(i.BLIT()) })
			}, func(m M) []float64 { return times(n, m.next) }}
		}
		ops := []nop[I, M]{run(1), run(25), run(300)}
		for _, f := range []float64{110, 441.7, 1000, 2600, 3999} {
			f := f
			ops = append(ops, sets(fmt.Sprint("frequency ", f), func(i I) { i.SetFrequency(f) }, func(m M) { m.f = f }))
		}
		h := nhist[I, M]{name: fmt.Sprint("blit_", sr), tol: 1e-4, ops: ops, mk: func() I { return oscillator.NewBLIT(sr) }, model: func() M { return &blm{sr: sr, f: 440} }}
		h.run(r, r.Pick(3, 4))
	}
}

type blm struct{ sr, f, ph float64 }

func (m *blm) next() float64 {
	k := math.Floor(m.sr / 2 / m.f)
	// Dirichlet kernel by summing the harmonics
	c := cmplx.Exp(complex(0, 2*math.Pi*m.ph))
	z, sum := c, 1.0
	for j := 1.0; j <= k; j++ {
		sum += 2 * real(z)
		z *= c
	}
	m.ph += m.f / m.sr
	m.ph -= math.Floor(m.ph)
	return sum / (2*k + 1)
}

// blsaw: the spectrum of the band-limited sawtooth has the harmonics of a
// sawtooth and nothing between them, and stays bounded through any history
// of frequencies.
func blsaw(r *core.Run) {
	type pq struct{ p, q int }
	var cases []pq
	for _, q := range []int{97, 128, 441, 1000, 2203} {
		for _, p := range []int{1, 3, 7, 10, 23, 31} {
			if p*2 < q && q/p < r.Pick(1000, 3000) {
				cases = append(cases, pq{p, q})
			}
		}
	}
	r.Each(len(cases), func(i int) string {
		return fmt.Sprintf("band-limited saw, %d cycles in %d samples", cases[i].p, cases[i].q)
	}, func(i int, w *core.Worker) {
		p, q := cases[i].p, cases[i].q
		g := gcd(p, q)
		p, q = p/g, q/g
		const sr = 48000.0
		s := oscillator.NewBandLimitedSaw(sr)
		f := sr * float64(p) / float64(q)
		s.SetFrequency(f)
		n := (40000/q + 1) * q
		b := make([]float32, n)
		s.Process(b[:n/2])
		s.Process(b[n/2:])
		b = b[n-q:]
		for j := 0; j <= q/2; j++ {
			var x complex128
			for t, v := range b {
				x += complex(float64(v), 0) * cmplx.Exp(complex(0, -2*math.Pi*float64(j*t%q)/float64(q)))
			}
			a := 2 * cmplx.Abs(x) / float64(q)
			k := j / p
			if j%p != 0 || j == 0 {
				if a > 2e-3 {
					r.Failf("saw", "band-limited saw at %v Hz: %v at %v Hz, which is no harmonic", f, a, float64(j)*sr/float64(q))
					return
				}
				continue
			}
			if 2*j == q {
				continue // a harmonic exactly at the Nyquist frequency
			}
			want := 2 / (math.Pi * float64(k))
			// impulses integrated sample by sample are a little brighter
			top := 2 * float64(p) / float64(q) / math.Sin(math.Pi*float64(j)/float64(q))
			if a > top*1.05 || a < want/1.1 {
				r.Failf("saw", "band-limited saw at %v Hz: harmonic %d has amplitude %v, a sawtooth has %v", f, k, a, want)
				return
			}
		}
		r.Count(int64(n), int64(n))
		r.Nontrivial(1)
	})
	// a new frequency in the middle of the ramp carries on from there
	for _, f := range []float64{20, 100, 440, 1000} {
		for _, g := range []float64{20, 100, 440, 1000, 3000} {
			for _, at := range []float64{0.3, 0.5, 0.7} {
				const sr = 48000.0
				s := oscillator.NewBandLimitedSaw(sr)
				s.SetFrequency(f)
				n := int((3 + at) * sr / f)
				var a float32
				for j := 0; j < n; j++ {
					a = s.Next()
				}
				s.SetFrequency(g)
				b := s.Next()
				r.Count(int64(n), int64(n))
				if d := math.Abs(float64(b - a)); !(d <= 5*math.Max(f, g)/sr+0.002) {
					r.Failf("saw", "band-limited saw from %v to %v Hz at %v of a cycle jumps from %v to %v", f, g, at, a, b)
				}
			}
		}
	}
	fs := []float64{55, 440, 1234.5, 5000, 12000}
	depth := r.Pick(3, 4)
	tot := 1
	for i := 0; i < depth; i++ {
		tot *= len(fs)
	}
	r.Each(tot, func(i int) string { return fmt.Sprint("band-limited saw frequencies ", i) }, func(i int, w *core.Worker) {
		s := oscillator.NewBandLimitedSaw(48000)
		lo, hi := 0.0, 0.0
		h := ""
		for d, x := 0, i; d < depth; d, x = d+1, x/len(fs) {
			f := fs[x%len(fs)]
			h += fmt.Sprint(f, " ")
			s.SetFrequency(f)
			prev, falls := 0.0, 0
			n := 9600
			for j := 0; j < n; j++ {
				y := float64(s.Next())
				if !(math.Abs(y) < 2.4) {
					r.Failf("saw", "band-limited saw through frequencies %s: sample %d is %v", h, j, y)
					return
				}
				if j > n/2 {
					lo, hi = math.Min(lo, y), math.Max(hi, y)
				}
				if y < prev {
					falls++
				}
				prev = y
			}
			if lo < -1.5 || hi > 1.5 {
				r.Failf("saw", "band-limited saw through frequencies %s ranges from %v to %v", h, lo, hi)
				return
			}
			lo, hi = 0, 0
		}
		r.Count(int64(9600*depth), 1)
	})
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
