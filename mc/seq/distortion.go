package seq

import (
	"fmt"
	"math"
	"testing"

	"github.com/justyntemme/vst3go/pkg/dsp/distortion"
	"github.com/justyntemme/vst3go/verifmc/core"
)

func init() {
	core.Register("P47", p47)
	core.Register("P48", p48)
}

func mat64(n, phase int) []float64 { return f64s(buf(n, phase)) }

// fold64 is the triangle wave that folds x into -t..t, by its Fourier-free
// closed form.
func fold64(x, t float64) float64 {
	if t <= 0 {
		return 0
	}
	return 2 * t / math.Pi * math.Asin(math.Sin(math.Pi/2*x/t))
}

// proc64 is what all distortions share.
type proc64 interface {
	Process(float64) float64
	ProcessBlock(in, out []float64)
	ProcessStereo(il, ir, ol, or []float64)
}

// procOps drive any distortion in every way it can be driven; one computes the
// reference for one sample of one channel.
func procOps[I proc64, M any](mkIn func(n, phase int) []float64, ph func(I, int) int, phm func(M, int) int, one func(m M, x float64, c int) float64) []nop[I, M] {
	type op = nop[I, M]
	var ops []op
	ops = append(ops, op{"Process", func(i I) []float64 {
		x := mkIn(1, ph(i, 1))
		return []float64{i.Process(x[0])}
	}, func(m M) []float64 {
		x := mkIn(1, phm(m, 1))
		return []float64{one(m, x[0], 0)}
	}})
	for _, inplace := range []bool{false, true} {
		inplace := inplace
		ops = append(ops, op{fmt.Sprintf("ProcessBlock(5, in place %v)", inplace), func(i I) []float64 {
			x := mkIn(5, ph(i, 1))
			y := make([]float64, 5)
			if inplace {
				y = x
			}
			i.ProcessBlock(x, y)
			return y
		}, func(m M) []float64 {
			x := mkIn(5, phm(m, 1))
			for k := range x {
				x[k] = one(m, x[k], 0)
			}
			return x
		}}, op{fmt.Sprintf("ProcessStereo(4, in place %v)", inplace), func(i I) []float64 {
			p := ph(i, 1)
			a, b := mkIn(4, p), mkIn(4, p+5)
			c, d := make([]float64, 4), make([]float64, 4)
			if inplace {
				c, d = a, b
			}
			i.ProcessStereo(a, b, c, d)
			return append(append([]float64{}, c...), d...)
		}, func(m M) []float64 {
			p := phm(m, 1)
			a, b := mkIn(4, p), mkIn(4, p+5)
			for k := range a {
				a[k] = one(m, a[k], 0)
			}
			for k := range b {
				b[k] = one(m, b[k], 1)
			}
			return append(a, b...)
		}})
	}
	return ops
}

// ---- waveshaper ----

type wsi struct {
	*distortion.Waveshaper
	phase int
}

type wsm struct {
	c                     int
	drive, mix, out, asym float64
	phase                 int
}

func (m *wsm) curve(x float64) float64 {
	switch m.c {
	case 0:
		return clampf(x, -1, 1)
	case 1:
		return math.Tanh(x)
	case 2:
		return math.Atan(x*math.Pi/2) * 2 / math.Pi
	case 3:
		return fold64(x, 1)
	case 4:
		if x >= 0 {
			return math.Tanh(x * (1 + m.asym))
		}
		return math.Tanh(x * (1 - m.asym))
	case 5:
		return math.Sin(clampf(x, -1, 1) * math.Pi / 2)
	case 6:
		if math.Abs(x) > 1 {
			return math.Copysign(1, x)
		}
		return math.Copysign(1-math.Exp(-3*math.Abs(x)), x)
	}
	return x
}

func (m *wsm) one(x float64) float64 { return (m.curve(x*m.drive)*m.mix + x*(1-m.mix)) * m.out }

func p47(r *core.Run) {
	if !r.Shard0() {
		return
	}
	type op = nop[*wsi, *wsm]
	ops := procOps[*wsi, *wsm](mat64, func(i *wsi, n int) int { i.phase += n; return i.phase }, func(m *wsm, n int) int { m.phase += n; return m.phase },
		func(m *wsm, x float64, c int) float64 { return m.one(x) })
	for c := 0; c <= 7; c++ {
		c := c
		ops = append(ops, op{fmt.Sprintf("SetCurveType(%d)", c), func(i *wsi) []float64 { i.SetCurveType(distortion.CurveType(c)); return nil },
			func(m *wsm) []float64 { m.c = c; return nil }})
	}
	set := func(name string, v float64, do func(*distortion.Waveshaper, float64), spec func(*wsm, float64)) {
		ops = append(ops, op{fmt.Sprintf("%s(%v)", name, v), func(i *wsi) []float64 { do(i.Waveshaper, v); return nil }, func(m *wsm) []float64 { spec(m, v); return nil }})
	}
	for _, v := range []float64{0, 3.3, 1000} {
		set("SetDrive", v, (*distortion.Waveshaper).SetDrive, func(m *wsm, v float64) { m.drive = clampf(v, 1, 100) })
	}
	for _, v := range []float64{-1, 0.25, 2} {
		set("SetMix", v, (*distortion.Waveshaper).SetMix, func(m *wsm, v float64) { m.mix = clampf(v, 0, 1) })
	}
	for _, v := range []float64{-1, 0.5, 5} {
		set("SetOutput", v, (*distortion.Waveshaper).SetOutput, func(m *wsm, v float64) { m.out = clampf(v, 0, 2) })
	}
	for _, v := range []float64{-3, 0.5, 9} {
		set("SetAsymmetry", v, (*distortion.Waveshaper).SetAsymmetry, func(m *wsm, v float64) { m.asym = clampf(v, -1, 1) })
	}
	(&nhist[*wsi, *wsm]{name: "waveshaper", tol: 1e-9, ops: ops, mk: func() *wsi { return &wsi{Waveshaper: distortion.NewWaveshaper()} },
		model: func() *wsm { return &wsm{c: 1, drive: 1, mix: 1, out: 1} }}).run(r, r.Pick(4, 5))
	p47curves(r)
	p47crusher(r)
	p47dither(r)
	p47utils(r)
}

func p47curves(r *core.Run) {
	N := r.Pick(4001, 40001)
	for c := 0; c <= 7; c++ {
		for _, drive := range []float64{1, 2.5, 100} {
			for _, asym := range []float64{-1, -0.5, 0, 0.3, 1} {
				if c != 4 && asym != 0 {
					continue
				}
				w := distortion.NewWaveshaper()
				m := &wsm{c: c, drive: drive, mix: 1, out: 1, asym: asym}
				w.SetCurveType(distortion.CurveType(c))
				w.SetDrive(drive)
				w.SetAsymmetry(asym)
				lab := fmt.Sprintf("curve %d drive %v asymmetry %v", c, drive, asym)
				prev := math.NaN()
				for k := 0; k < N; k++ {
					x := (float64(k)/float64(N-1)*2 - 1) * 4
					y := w.Process(x)
					if c <= 6 && !(y >= -1 && y <= 1) {
						r.Failf("curve", "%s: %v becomes %v", lab, x, y)
						break
					}
					if !core.Close(y, m.one(x), 1e-9) {
						r.Failf("curve", "%s: %v becomes %v, want %v", lab, x, y, m.one(x))
						break
					}
					if (c != 4 || asym == 0) && !core.Close(w.Process(-x), -y, 1e-12) {
						r.Failf("curve", "%s: not symmetric at %v", lab, x)
						break
					}
					if c != 3 && y < prev-1e-12 {
						r.Failf("curve", "%s: falls at %v", lab, x)
						break
					}
					prev = y
				}
				// extreme values give an answer at once, bounded, and only NaN gives NaN
				for _, x := range []float64{0, 1e-300, 1e6, 1e15, 1e16, 1e17, 1e100, 1e300, math.MaxFloat64, math.Inf(1), math.NaN()} {
					for _, s := range []float64{1, -1} {
						y := w.Process(s * x)
						if c <= 6 && !math.IsNaN(x) && !math.IsInf(x*drive, 0) && !(y >= -1 && y <= 1) {
							r.Failf("curve", "%s: %v becomes %v", lab, s*x, y)
						}
					}
				}
				r.Count(int64(N), int64(N))
				r.Nontrivial(1)
			}
		}
	}
	r.Bound("curve_grid", N)
}

// ---- bitcrusher ----

type bci struct {
	*distortion.Bitcrusher
	phase int
}

type bcm struct {
	sr, bits, red, mix, out float64
	aa                      bool
	cnt, last, f            [2]float64
	phase                   int
}

func newBcm(sr float64) *bcm { return &bcm{sr: sr, bits: 16, red: 1, aa: true, mix: 1, out: 1} }

func (m *bcm) one(x float64, c int) float64 {
	p := x
	if m.red > 1 {
		if m.aa {
			w := 2 * math.Pi * 0.45 / m.red
			m.f[c] += w / (1 + w) * (p - m.f[c])
			p = m.f[c]
		}
		if m.cnt[c] < 1 {
			m.last[c] = p
		}
		m.cnt[c]++
		if m.cnt[c] >= m.red {
			m.cnt[c] = math.Mod(m.cnt[c], m.red)
		}
		p = m.last[c]
	}
	if m.bits < 32 {
		half := math.Exp2(m.bits - 1)
		p = clampf(math.Round(p*half)/half, -1, 1)
	}
	return (p*m.mix + x*(1-m.mix)) * m.out
}

func p47crusher(r *core.Run) {
	type op = nop[*bci, *bcm]
	in := func(n, p int) []float64 {
		b := mat64(n, p)
		for i := range b {
			b[i] = b[i]*0.37 + 0.0123*float64(i+p%7)
		}
		return b
	}
	base := procOps[*bci, *bcm](in, func(i *bci, n int) int { i.phase += n; return i.phase }, func(m *bcm, n int) int { m.phase += n; return m.phase }, (*bcm).one)
	ops := append([]op{}, base...)
	set := func(name string, v float64, do func(*distortion.Bitcrusher, float64), spec func(*bcm, float64)) {
		ops = append(ops, op{fmt.Sprintf("%s(%v)", name, v), func(i *bci) []float64 { do(i.Bitcrusher, v); return nil }, func(m *bcm) []float64 { spec(m, v); return nil }})
	}
	for _, v := range []float64{0, 1, 4.5, 8, 32, 99} {
		set("SetBitDepth", v, (*distortion.Bitcrusher).SetBitDepth, func(m *bcm, v float64) { m.bits = clampf(v, 1, 32) })
	}
	for _, v := range []float64{0, 1.1, 2, 2.5, 3, 1000} {
		set("SetSampleRateReduction", v, (*distortion.Bitcrusher).SetSampleRateReduction, func(m *bcm, v float64) { m.red = clampf(v, 1, 100) })
	}
	for _, v := range []float64{-1, 0.25, 2} {
		set("SetMix", v, (*distortion.Bitcrusher).SetMix, func(m *bcm, v float64) { m.mix = clampf(v, 0, 1) })
	}
	for _, v := range []float64{0.5, 5} {
		set("SetOutput", v, (*distortion.Bitcrusher).SetOutput, func(m *bcm, v float64) { m.out = clampf(v, 0, 2) })
	}
	for _, on := range []bool{false, true} {
		on := on
		ops = append(ops, op{fmt.Sprintf("SetAntiAlias(%v)", on), func(i *bci) []float64 { i.SetAntiAlias(on); return nil }, func(m *bcm) []float64 { m.aa = on; return nil }})
	}
	ops = append(ops, op{"Reset", func(i *bci) []float64 { i.Reset(); return nil }, func(m *bcm) []float64 {
		m.cnt, m.last, m.f = [2]float64{}, [2]float64{}, [2]float64{}
		return nil
	}})
	(&nhist[*bci, *bcm]{name: "bitcrusher", tol: 1e-9, ops: ops, mk: func() *bci { return &bci{Bitcrusher: distortion.NewBitcrusher(44100)} },
		model: func() *bcm { return newBcm(44100) }}).run(r, r.Pick(4, 5))
	// every reduction factor: held for that many samples on average, stable,
	// and the held values are those of the filtered or plain input
	facs := []float64{}
	for k := 0; k <= r.Pick(120, 990); k++ {
		facs = append(facs, 1+float64(k)*r47(r))
	}
	r.Each(len(facs), func(i int) string { return fmt.Sprint("reduction ", facs[i]) }, func(i int, w *core.Worker) {
		for _, aa := range []bool{false, true} {
			b := distortion.NewBitcrusher(48000)
			b.SetBitDepth(32)
			b.SetSampleRateReduction(facs[i])
			b.SetAntiAlias(aa)
			n := 20000
			steps, run, longest := 0, 0, 0
			prev := math.NaN()
			peak := 0.0
			for k := 0; k < n; k++ {
				x := math.Sin(float64(k) * 0.7654321)
				if k%2 == 1 {
					x = -x
				}
				y := b.Process(x)
				peak = math.Max(peak, math.Abs(y))
				if y != prev {
					steps++
					run = 0
				}
				run++
				longest = max(longest, run)
				prev = y
			}
			if peak > 1+1e-9 || math.IsNaN(prev) {
				r.Failf("reduction", "factor %v, anti-alias %v: full-scale input gives %v", facs[i], aa, peak)
			}
			if math.Abs(float64(steps)-float64(n)/facs[i]) > 2 || longest > int(math.Ceil(facs[i])) {
				r.Failf("reduction", "factor %v, anti-alias %v: %d values in %d samples, held up to %d", facs[i], aa, steps, n, longest)
			}
			// constant input comes through at full level
			var y float64
			b.Reset()
			for k := 0; k < 4000; k++ {
				y = b.Process(0.6)
			}
			if !core.Close(y, 0.6, 1e-3) {
				r.Failf("reduction", "factor %v, anti-alias %v: constant 0.6 gives %v", facs[i], aa, y)
			}
			r.Count(1, int64(n))
			r.Nontrivial(1)
		}
	})
}

func r47(r *core.Run) float64 {
	if r.Thorough {
		return 0.1
	}
	return 0.825
}

func p47dither(r *core.Run) {
	N := r.Pick(20000, 100000)
	type dc struct {
		t    int
		bits float64
	}
	var cs []dc
	for t := 0; t <= 2; t++ {
		for _, bits := range []float64{2, 4, 8, 12, 16, 24} {
			cs = append(cs, dc{t, bits})
		}
	}
	r.Each(len(cs), func(i int) string { return fmt.Sprint("dither ", cs[i]) }, func(i int, w *core.Worker) {
		c := cs[i]
		step := 2 / math.Exp2(c.bits)
		for _, x := range []float64{0, 0.3 * step, 0.5 + 0.25*step, -0.37, 0.49 * step, -0.125} {
			mk := func() *distortion.Bitcrusher {
				b := distortion.NewBitcrusher(48000)
				b.SetBitDepth(c.bits)
				b.SetDither(distortion.DitherType(c.t))
				return b
			}
			b := mk()
			lim := 0.5
			if c.t > 0 {
				lim = 1.5
			}
			sum := 0.0
			vals := map[float64]int{}
			var first []float64
			for k := 0; k < N; k++ {
				y := b.Process(x)
				if k < 50 {
					first = append(first, y)
				}
				if !(math.Abs(y-x) <= lim*step+1e-12) || math.Abs(y/step-math.Round(y/step)) > 1e-9 {
					r.Failf("dither", "type %d, %v bits: %v becomes %v (step %v)", c.t, c.bits, x, y, step)
					break
				}
				sum += y
				vals[y]++
			}
			mean := sum / float64(N)
			if c.t > 0 && math.Abs(mean-x) > 6*step/math.Sqrt(float64(N)) {
				r.Failf("dither", "type %d, %v bits: %v is %v on average (step %v)", c.t, c.bits, x, mean, step)
			}
			if (c.t == 0) != (len(vals) == 1) {
				r.Failf("dither", "type %d, %v bits: %d different values from constant %v", c.t, c.bits, len(vals), x)
			}
			// after a reset everything starts again; other instances change nothing
			b.Reset()
			o := mk()
			for k := range first {
				o.Process(0.3)
				if y := b.Process(x); y != first[k] {
					r.Failf("dither", "type %d, %v bits: sample %d after a reset is %v, at first it was %v", c.t, c.bits, k, y, first[k])
					break
				}
			}
			r.Count(1, int64(N))
			r.Nontrivial(1)
		}
	})
}

func p47utils(r *core.Run) {
	bad := func(f string, a ...interface{}) { r.Failf("utility", f, a...) }
	N := r.Pick(801, 8001)
	for k := 0; k < N; k++ {
		x := (float64(k)/float64(N-1)*2 - 1) * 3
		for _, t := range []float64{0.1, 0.25, 0.5, 1, 2, 10} {
			if y := distortion.FoldbackDistortion(x, t); !core.Close(y, fold64(x, t), 1e-7) || math.Abs(y) > t {
				bad("FoldbackDistortion(%v, %v) = %v, want %v", x, t, y, fold64(x, t))
			}
			want := x
			if math.Abs(x) < t {
				want = 0
			}
			if y := distortion.GateEffect(x, t); y != want {
				bad("GateEffect(%v, %v) = %v", x, t, y)
			}
		}
		for steps := -1; steps <= 20; steps++ {
			y := distortion.QuantizeToSteps(x/3, steps)
			if steps <= 1 {
				if y != 0 {
					bad("QuantizeToSteps(%v, %d) = %v", x/3, steps, y)
				}
				continue
			}
			st := 2 / float64(steps-1)
			if math.Abs(y-x/3) > st/2+1e-12 || math.Abs((y+1)/st-math.Round((y+1)/st)) > 1e-9 || math.Abs(y) > 1+1e-12 {
				bad("QuantizeToSteps(%v, %d) = %v is not the nearest level", x/3, steps, y)
			}
		}
		if math.Abs(x) <= 1.5 {
			for n := 0; n <= 8; n++ {
				want := math.Cos(float64(n) * math.Acos(clampf(x, -1, 1)))
				if math.Abs(x) <= 1 {
					if y := distortion.ChebyshevPolynomial(x, n); !core.Close(y, want, 1e-9) {
						bad("ChebyshevPolynomial(%v, %d) = %v, want %v", x, n, y, want)
					}
				}
			}
		}
		for _, g := range []float64{0, 0.1, 1, 3, 10, 99} {
			kk := clampf(g, 0.1, 10)
			if y := distortion.Sigmoid(x, g); !core.Close(y, clampf(math.Tanh(kk*x/2), -0.999999, 0.999999), 1e-9) {
				bad("Sigmoid(%v, %v) = %v", x, g, y)
			}
		}
		co := []float64{0.5, -1, 0, 2}
		if y := distortion.Polynomial(x, co); !core.Close(y, 0.5-x+2*x*x*x, 1e-9) || distortion.Polynomial(x, nil) != 0 {
			bad("Polynomial(%v) = %v", x, y)
		}
		r.Count(1, 40)
	}
	for _, t := range []float64{0, 0.25, 0.5, 1} {
		for _, x := range []float64{t, -t} {
			if y := distortion.GateEffect(x, t); y != x {
				bad("GateEffect(%v, %v) = %v: a sample at the threshold passes", x, t, y)
			}
		}
	}
	for n := 0; n <= 30; n++ {
		for k := 0; k <= 200; k++ {
			x := float64(k)/100 - 1
			if y, want := distortion.ChebyshevPolynomial(x, n), math.Cos(float64(n)*math.Acos(x)); !core.Close(y, want, 1e-6) {
				bad("ChebyshevPolynomial(%v, %d) = %v, want %v", x, n, y, want)
			}
		}
	}
	// quantisation treats both signs alike, exactly between two levels too
	for bits := 1.0; bits <= 12; bits++ {
		b := distortion.NewBitcrusher(48000)
		b.SetBitDepth(bits)
		n := int(math.Exp2(bits))
		for k := 0; k <= 4*n; k++ {
			x := float64(k) / float64(2*n)
			if p, m := b.Process(x), b.Process(-x); p != -m || math.Abs(p-math.Min(x, 1)) > 1/float64(n)+1e-12 && x <= 1 {
				bad("%v bits: %v becomes %v, %v becomes %v", bits, x, p, -x, m)
			}
		}
	}
	for _, x := range []float64{1e17, -1e17, 1e300, 5} {
		for _, t := range []float64{0, -1, 1e-12, 0.5} {
			if y := distortion.FoldbackDistortion(x, t); !(math.Abs(y) <= math.Max(t, 0)) {
				bad("FoldbackDistortion(%v, %v) = %v", x, t, y)
			}
		}
	}
	w, b := distortion.NewWaveshaper(), distortion.NewBitcrusher(48000)
	b.SetDither(distortion.DitherTriangular)
	b.SetSampleRateReduction(2.5)
	x, y := make([]float64, 64), make([]float64, 64)
	if n := testing.AllocsPerRun(20, func() { w.ProcessStereo(x, y, x, y); b.ProcessStereo(x, y, x, y); b.ProcessBlock(x, y) }); n != 0 {
		bad("processing allocates %v times", n)
	}
}

// ---- P48: tube and tape ----

type tbi struct {
	*distortion.TubeSaturation
	phase int
}

type tbm struct {
	warmth, harm, bias, hyst, mix, out float64
	pre, de, pin, pout                 [2]float64
	phase                              int
}

func knee(x float64) float64 {
	a := math.Abs(x)
	switch {
	case a <= 0.7:
		return x
	case a < 0.8:
		s := (a - 0.7) / 0.1
		return math.Copysign(0.7+0.1*(s+(s*s*s-2*s*s)*2/3), x)
	}
	return math.Copysign(0.7+(a-0.7)/3, x)
}

func (m *tbm) one(x float64, c int) float64 {
	hp := x - m.pre[c]
	m.pre[c] += hp * (0.1 + 0.4*m.warmth)
	v := x + hp*m.warmth*0.5 + m.bias*0.1
	k := 0.5
	if v > m.pin[c] {
		k = 0.3
	}
	m.pout[c] += (v - m.pout[c]) * (1 - m.hyst*k)
	m.pin[c] = v
	h := m.pout[c]
	a := math.Abs(h)
	even := a - 0.1*a*a + 0.05*math.Pow(a, 4)
	if h < 0 {
		even = -(a - 0.15*a*a + 0.08*math.Pow(a, 4))
	}
	odd := h - 0.15*math.Pow(h, 3) + 0.05*math.Pow(h, 5)
	y := knee(even*(1-m.harm/2) + odd*m.harm/2)
	m.de[c] += (y - m.de[c]) * (0.9 - 0.6*m.warmth)
	return (m.de[c]*m.mix + x*(1-m.mix)) * m.out
}

// tpi drives a tape; the reference answers with bounds, since hiss and flutter
// are random.
type tpi struct {
	*distortion.TapeSaturation
	phase int
}

type iv struct{ lo, hi float64 }

type tpm struct {
	sat, comp, flut, warmth, mix, out float64
	pre, env                          [2]float64
	de                                [2]iv
	line                              [2][]float64 // newest last
	phase                             int
}

func newTpm() *tpm { return &tpm{sat: 0.5, comp: 0.5, warmth: 0.5, mix: 1, out: 1} }

func (m *tpm) one(x float64, c int) iv {
	hp := x - m.pre[c]
	m.pre[c] += hp * (0.15 + 0.1*m.warmth)
	v := x + hp*m.warmth*0.3
	a := math.Abs(v)
	k := 0.1
	if a > m.env[c] {
		k = 0.01
	}
	m.env[c] += (a - m.env[c]) * k
	if e := m.env[c]; e > 0.5 {
		v *= (0.5 + (e-0.5)/(2+3*m.comp)) / e
	}
	d := v * (1 + 4*m.sat)
	l := clampf(d, -1/math.Sqrt(0.3), 1/math.Sqrt(0.3))
	s := math.Tanh(d*0.7)*0.8 + (l-0.1*l*l*l)*0.2*m.sat
	r := iv{s, s}
	if m.flut >= 0.01 {
		m.line[c] = append(m.line[c], s)
		n := len(m.line[c])
		r = iv{math.Inf(1), math.Inf(-1)}
		for age := int(5-3.9*m.flut) - 1; age <= int(5+3.9*m.flut); age++ {
			v := 0.0
			if age < n {
				v = m.line[c][n-1-age]
			}
			r.lo, r.hi = math.Min(r.lo, v), math.Max(r.hi, v)
		}
	}
	g := 0.8 - 0.5*m.warmth
	hiss := 0.0001 * m.sat
	m.de[c].lo += (r.lo - hiss - m.de[c].lo) * g
	m.de[c].hi += (r.hi + hiss - m.de[c].hi) * g
	return iv{(m.de[c].lo*m.mix + x*(1-m.mix)) * m.out, (m.de[c].hi*m.mix + x*(1-m.mix)) * m.out}
}

func p48(r *core.Run) {
	if !r.Shard0() {
		return
	}
	in := func(n, p int) []float64 {
		b := mat64(n, p)
		for i := range b {
			b[i] = clampf(b[i], -1.5, 1.5)
		}
		return b
	}
	type op = nop[*tbi, *tbm]
	ops := procOps[*tbi, *tbm](in, func(i *tbi, n int) int { i.phase += n; return i.phase }, func(m *tbm, n int) int { m.phase += n; return m.phase }, (*tbm).one)
	set := func(name string, vs []float64, do func(*distortion.TubeSaturation, float64), spec func(*tbm, float64)) {
		for _, v := range vs {
			v := v
			ops = append(ops, op{fmt.Sprintf("%s(%v)", name, v), func(i *tbi) []float64 { do(i.TubeSaturation, v); return nil }, func(m *tbm) []float64 { spec(m, v); return nil }})
		}
	}
	set("SetWarmth", []float64{-1, 0.3, 7}, (*distortion.TubeSaturation).SetWarmth, func(m *tbm, v float64) { m.warmth = clampf(v, 0, 1) })
	set("SetHarmonics", []float64{-1, 9}, (*distortion.TubeSaturation).SetHarmonics, func(m *tbm, v float64) { m.harm = clampf(v, 0, 1) })
	set("SetBias", []float64{-3, 0.5}, (*distortion.TubeSaturation).SetBias, func(m *tbm, v float64) { m.bias = clampf(v, -1, 1) })
	set("SetHysteresis", []float64{0, 0.7, 4}, (*distortion.TubeSaturation).SetHysteresis, func(m *tbm, v float64) { m.hyst = clampf(v, 0, 1) })
	set("SetMix", []float64{-1, 0.25, 2}, (*distortion.TubeSaturation).SetMix, func(m *tbm, v float64) { m.mix = clampf(v, 0, 1) })
	set("SetOutput", []float64{-1, 0.5, 5}, (*distortion.TubeSaturation).SetOutput, func(m *tbm, v float64) { m.out = clampf(v, 0, 2) })
	ops = append(ops, op{"Reset", func(i *tbi) []float64 { i.Reset(); return nil }, func(m *tbm) []float64 {
		m.pre, m.de, m.pin, m.pout = [2]float64{}, [2]float64{}, [2]float64{}, [2]float64{}
		return nil
	}})
	(&nhist[*tbi, *tbm]{name: "tube", tol: 1e-9, ops: ops, mk: func() *tbi { return &tbi{TubeSaturation: distortion.NewTubeSaturation()} },
		model: func() *tbm { return &tbm{warmth: 0.5, harm: 0.5, hyst: 0.1, mix: 1, out: 1} }}).run(r, r.Pick(4, 5))
	p48tape(r, in)
	p48static(r)
	p48flutter(r)
}

func p48tape(r *core.Run, in func(n, p int) []float64) {
	type hop struct {
		name string
		do   func(*tpi) []float64
		spec func(*tpm) []iv
	}
	var ops []hop
	for _, inplace := range []bool{false, true} {
		inplace := inplace
		ops = append(ops, hop{fmt.Sprintf("ProcessBlock(7, in place %v)", inplace), func(i *tpi) []float64 {
			i.phase++
			x := in(7, i.phase)
			y := make([]float64, 7)
			if inplace {
				y = x
			}
			i.ProcessBlock(x, y)
			return y
		}, func(m *tpm) []iv {
			m.phase++
			var o []iv
			for _, x := range in(7, m.phase) {
				o = append(o, m.one(x, 0))
			}
			return o
		}}, hop{fmt.Sprintf("ProcessStereo(12, in place %v)", inplace), func(i *tpi) []float64 {
			i.phase++
			a, b := in(12, i.phase), in(12, i.phase+5)
			c, d := make([]float64, 12), make([]float64, 12)
			if inplace {
				c, d = a, b
			}
			i.ProcessStereo(a, b, c, d)
			return append(append([]float64{}, c...), d...)
		}, func(m *tpm) []iv {
			m.phase++
			var o []iv
			for _, x := range in(12, m.phase) {
				o = append(o, m.one(x, 0))
			}
			for _, x := range in(12, m.phase+5) {
				o = append(o, m.one(x, 1))
			}
			return o
		}})
	}
	ops = append(ops, hop{"Process", func(i *tpi) []float64 { i.phase++; return []float64{i.Process(in(1, i.phase)[0])} },
		func(m *tpm) []iv { m.phase++; return []iv{m.one(in(1, m.phase)[0], 0)} }})
	// long enough for the level of one channel to be compressed
	for loud := 0; loud < 2; loud++ {
		loud := loud
		sig := func() (ch [2][]float64) {
			for c := range ch {
				g := 0.1
				if c == loud {
					g = 1.5
				}
				for j := 0; j < 120; j++ {
					ch[c] = append(ch[c], g*float64(1-2*(j/7%2)))
				}
			}
			return
		}
		ops = append(ops, hop{fmt.Sprintf("ProcessStereo(120, channel %d loud)", loud), func(i *tpi) []float64 {
			ch := sig()
			i.ProcessStereo(ch[0], ch[1], ch[0], ch[1])
			return append(ch[0], ch[1]...)
		}, func(m *tpm) []iv {
			var o []iv
			for c, b := range sig() {
				for _, x := range b {
					o = append(o, m.one(x, c))
				}
			}
			return o
		}})
	}
	set := func(name string, vs []float64, do func(*distortion.TapeSaturation, float64), spec func(*tpm, float64)) {
		for _, v := range vs {
			v := v
			ops = append(ops, hop{fmt.Sprintf("%s(%v)", name, v), func(i *tpi) []float64 { do(i.TapeSaturation, v); return nil }, func(m *tpm) []iv { spec(m, v); return nil }})
		}
	}
	set("SetSaturation", []float64{-1, 5}, (*distortion.TapeSaturation).SetSaturation, func(m *tpm, v float64) { m.sat = clampf(v, 0, 1) })
	set("SetCompression", []float64{-1, 5}, (*distortion.TapeSaturation).SetCompression, func(m *tpm, v float64) { m.comp = clampf(v, 0, 1) })
	set("SetFlutter", []float64{-1, 0.2, 5}, (*distortion.TapeSaturation).SetFlutter, func(m *tpm, v float64) { m.flut = clampf(v, 0, 1) })
	set("SetWarmth", []float64{-1, 5}, (*distortion.TapeSaturation).SetWarmth, func(m *tpm, v float64) { m.warmth = clampf(v, 0, 1) })
	set("SetMix", []float64{-1, 0.25, 2}, (*distortion.TapeSaturation).SetMix, func(m *tpm, v float64) { m.mix = clampf(v, 0, 1) })
	set("SetOutput", []float64{0.5, 5}, (*distortion.TapeSaturation).SetOutput, func(m *tpm, v float64) { m.out = clampf(v, 0, 2) })
	ops = append(ops, hop{"Reset", func(i *tpi) []float64 { i.Reset(); return nil }, func(m *tpm) []iv {
		m.pre, m.env, m.de, m.line = [2]float64{}, [2]float64{}, [2]iv{}, [2][]float64{}
		return nil
	}})
	depth := r.Pick(4, 5)
	n := 1
	for d := 0; d < depth-2; d++ {
		n *= len(ops)
	}
	k := len(ops)
	r.Each(k*k, func(i int) string { return fmt.Sprintf("tape: %s; %s; ...", ops[i%k].name, ops[i/k].name) }, func(i int, w *core.Worker) {
		for rest := 0; rest < n; rest++ {
			if r.Failed("tape") {
				return
			}
			seq := []int{i % k, i / k}
			for x, d := rest, 0; d < depth-2; d++ {
				seq = append(seq, x%k)
				x /= k
			}
			im, m := &tpi{TapeSaturation: distortion.NewTapeSaturation(8000)}, newTpm()
			names := "tape"
			for _, o := range seq {
				names += "; " + ops[o].name
				got, want := ops[o].do(im), ops[o].spec(m)
				for j := range got {
					if !(got[j] >= want[j].lo-1e-9 && got[j] <= want[j].hi+1e-9) {
						r.Failf("tape", "%s: sample %d is %v, must be in %v..%v", names, j, got[j], want[j].lo, want[j].hi)
						break
					}
				}
			}
			r.Count(int64(depth), int64(depth))
			r.Nontrivial(1)
			r.Trace(1)
		}
	})
	r.Bound("tape_depth", depth)
	r.Bound("tape_alphabet", k)
}

// p48static: the transfer curves rise everywhere, keep the sign, have no
// jumps, and every setting stays bounded and comes back to rest.
func p48static(r *core.Run) {
	N := r.Pick(2001, 20001)
	type cfg struct {
		name  string
		mk    func() (proc64, func())
		max   float64
		hiss  float64
		rest  float64
		sym   bool
		sweep float64
	}
	var cs []cfg
	g := []float64{0, 0.5, 1}
	for _, h := range g {
		for _, w := range g {
			for _, b := range []float64{-1, 0, 1} {
				for _, y := range g {
					h, w, b, y := h, w, b, y
					cs = append(cs, cfg{fmt.Sprintf("tube harmonics %v warmth %v bias %v hysteresis %v", h, w, b, y), func() (proc64, func()) {
						t := distortion.NewTubeSaturation()
						t.SetHarmonics(h)
						t.SetWarmth(w)
						t.SetBias(b)
						t.SetHysteresis(y)
						return t, t.Reset
					}, 1.6, 0, math.Abs(b) * 0.11, false, 2})
				}
			}
		}
	}
	for _, s := range g {
		for _, c := range g {
			for _, w := range g {
				s, c, w := s, c, w
				cs = append(cs, cfg{fmt.Sprintf("tape saturation %v compression %v warmth %v", s, c, w), func() (proc64, func()) {
					t := distortion.NewTapeSaturation(48000)
					t.SetSaturation(s)
					t.SetCompression(c)
					t.SetWarmth(w)
					return t, t.Reset
				}, 1.06, 1.1e-4 * s, 0, true, 8})
			}
		}
	}
	r.Each(len(cs), func(i int) string { return cs[i].name }, func(i int, w *core.Worker) {
		c := cs[i]
		p, reset := c.mk()
		prev, px := math.Inf(-1), 0.0
		for k := 0; k < N; k++ {
			x := (float64(k)/float64(N-1)*2 - 1) * c.sweep
			reset()
			y := p.Process(x)
			if y < prev-2*c.hiss-1e-12 {
				r.Failf("static", "%s: falls from %v at %v to %v at %v", c.name, prev, px, y, x)
				break
			}
			if k > 0 && y-prev > (x-px)*12+2*c.hiss {
				r.Failf("static", "%s: jumps from %v at %v to %v at %v", c.name, prev, px, y, x)
				break
			}
			if c.sym && math.Abs(x) > 0.01 && (x > 0) != (y > 0) {
				r.Failf("static", "%s: %v comes out as %v", c.name, x, y)
				break
			}
			prev, px = y, x
		}
		// loud input of every kind, then silence
		for _, period := range []int{0, 1, 2, 3, 7, 40, 400} {
			p, _ := c.mk()
			for k := 0; k < 3000; k++ {
				x := 1.0
				if period > 0 && k/period%2 == 1 {
					x = -1
				}
				if y := p.Process(x); !(math.Abs(y) <= c.max) {
					r.Failf("static", "%s: square wave of half-period %d gives %v", c.name, period, y)
					break
				}
			}
			y := 0.0
			for k := 0; k < 3000; k++ {
				y = p.Process(0)
			}
			if math.Abs(y) > c.rest+c.hiss+1e-6 {
				r.Failf("static", "%s: rests at %v", c.name, y)
			}
		}
		r.Count(int64(N), int64(N+7*6000))
		r.Nontrivial(1)
	})
	r.Bound("saturation_settings", len(cs))
	tube, tape := distortion.NewTubeSaturation(), distortion.NewTapeSaturation(48000)
	tape.SetFlutter(1)
	x, y := make([]float64, 64), make([]float64, 64)
	if n := testing.AllocsPerRun(20, func() { tube.ProcessStereo(x, y, x, y); tape.ProcessStereo(x, y, x, y); tape.ProcessBlock(x, y) }); n != 0 {
		r.Failf("allocation", "processing allocates %v times", n)
	}
}

// p48flutter: a slow ramp through the tape shows the delay of every moment; it
// must swing by the set depth around the same centre at the tape's rate, for
// mono and stereo alike.
func p48flutter(r *core.Run) {
	type fc struct {
		sr, f  float64
		stereo bool
	}
	var cs []fc
	for _, sr := range []float64{8000, 48000} {
		for _, f := range []float64{0.2, 0.5, 1} {
			cs = append(cs, fc{sr, f, false}, fc{sr, f, true})
		}
	}
	r.Each(len(cs), func(i int) string { return fmt.Sprint("flutter ", cs[i]) }, func(i int, w *core.Worker) {
		c := cs[i]
		t := distortion.NewTapeSaturation(c.sr)
		t.SetSaturation(0)
		t.SetWarmth(0)
		t.SetFlutter(c.f)
		secs := 14.0
		n := int(secs * c.sr)
		const eps = 1e-10 // so small that the saturation is straight up to the last sample
		win := int(c.sr / 20)
		acc := [2]float64{}
		var avg [2][]float64
		x, y, a, b := make([]float64, 1), make([]float64, 1), make([]float64, 1), make([]float64, 1)
		for k := 0; k < n; k++ {
			x[0], y[0] = eps*float64(k), -eps*float64(k)
			if c.stereo {
				t.ProcessStereo(x, y, a, b)
			} else {
				a[0] = t.Process(x[0])
			}
			// small signals pass with gain 0.56 and a lag of a quarter sample
			acc[0] += float64(k) - a[0]/(0.56*eps) - 0.25
			acc[1] += float64(k) + b[0]/(0.56*eps) - 0.25
			if (k+1)%win == 0 {
				for ch := range acc {
					avg[ch] = append(avg[ch], acc[ch]/float64(win))
					acc[ch] = 0
				}
			}
		}
		for ch := 0; ch < 2; ch++ {
			if ch == 1 && !c.stereo {
				break
			}
			v := avg[ch][4:]
			lo, hi := math.Inf(1), math.Inf(-1)
			cross := []int{}
			for k, d := range v {
				lo, hi = math.Min(lo, d), math.Max(hi, d)
				if k > 0 && v[k-1] < 4 && d >= 4 {
					cross = append(cross, k)
				}
			}
			// noise can cross several times around the centre
			var starts []int
			for _, k := range cross {
				if len(starts) == 0 || k-starts[len(starts)-1] > 15 {
					starts = append(starts, k)
				}
			}
			lab := fmt.Sprintf("flutter %v at %v, stereo %v, channel %d", c.f, c.sr, c.stereo, ch)
			if math.Abs(lo-(4-3*c.f)) > 0.25*c.f || math.Abs(hi-(4+3*c.f)) > 0.25*c.f {
				r.Failf("flutter", "%s: delay swings %v..%v, want %v..%v", lab, lo, hi, 4-3*c.f, 4+3*c.f)
				continue
			}
			for k := 1; k < len(starts); k++ {
				if p := float64(starts[k]-starts[k-1]) / 20; p < 1.8 || p > 3.6 {
					r.Failf("flutter", "%s: period %v s, want 2 to 3.3", lab, p)
				}
			}
			if len(starts) < 3 {
				r.Failf("flutter", "%s: only %d cycles in %v s", lab, len(starts), secs)
			}
		}
		r.Count(1, int64(n))
		r.Nontrivial(1)
	})
}
