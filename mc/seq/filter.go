package seq

import (
	"fmt"
	"math"
	"math/cmplx"

	"github.com/justyntemme/vst3go/pkg/dsp/filter"
	"github.com/justyntemme/vst3go/verifmc/core"
)

func init() { core.Register("P39", p39) }

// proto is an analog prototype (n2 s^2 + n1 s + n0)/(d2 s^2 + d1 s + d0) in
// units of the filter's frequency.
type proto struct{ n2, n1, n0, d2, d1, d0 float64 }

func protoOf(kind string, q, db float64) proto {
	a := math.Pow(10, db/40)
	ra := math.Sqrt(a)
	switch kind {
	case "lowpass":
		return proto{0, 0, 1, 1, 1 / q, 1}
	case "highpass":
		return proto{1, 0, 0, 1, 1 / q, 1}
	case "bandpass":
		return proto{0, 1 / q, 0, 1, 1 / q, 1}
	case "notch":
		return proto{1, 0, 1, 1, 1 / q, 1}
	case "allpass":
		return proto{1, -1 / q, 1, 1, 1 / q, 1}
	case "peak":
		return proto{1, a / q, 1, 1, 1 / (a * q), 1}
	case "lowshelf":
		return proto{a, a * ra / q, a * a, a, ra / q, 1}
	case "highshelf":
		return proto{a * a, a * ra / q, a, 1, ra / q, a}
	}
	panic(kind)
}

// at is the response of the bilinear transform of p (tuned to f0) at f.
func (p proto) at(f, f0, sr float64) complex128 {
	s := complex(0, math.Tan(math.Pi*f/sr)/math.Tan(math.Pi*f0/sr))
	return (complex(p.n2, 0)*s*s + complex(p.n1, 0)*s + complex(p.n0, 0)) / (complex(p.d2, 0)*s*s + complex(p.d1, 0)*s + complex(p.d0, 0))
}

// digital is the bilinear transform of p tuned to f0: b0 b1 b2 a1 a2.
func (p proto) digital(f0, sr float64) (c [5]float64) {
	k := math.Tan(math.Pi * f0 / sr)
	conv := func(x2, x1, x0 float64) [3]float64 {
		return [3]float64{x2 + x1*k + x0*k*k, 2 * (x0*k*k - x2), x2 - x1*k + x0*k*k}
	}
	n, d := conv(p.n2, p.n1, p.n0), conv(p.d2, p.d1, p.d0)
	return [5]float64{n[0] / d[0], n[1] / d[0], n[2] / d[0], d[1] / d[0], d[2] / d[0]}
}

func designBQ(b *filter.Biquad, kind string, sr, f, q, db float64) {
	switch kind {
	case "lowpass":
		b.SetLowpass(sr, f, q)
	case "highpass":
		b.SetHighpass(sr, f, q)
	case "bandpass":
		b.SetBandpass(sr, f, q)
	case "notch":
		b.SetNotch(sr, f, q)
	case "allpass":
		b.SetAllpass(sr, f, q)
	case "peak":
		b.SetPeakingEQ(sr, f, q, db)
	case "lowshelf":
		b.SetLowShelf(sr, f, q, db)
	case "highshelf":
		b.SetHighShelf(sr, f, q, db)
	}
}

var bqKinds = []string{"lowpass", "highpass", "bandpass", "notch", "allpass", "peak", "lowshelf", "highshelf"}

type bqm struct {
	c [5]float64
	s [4][4]float64 // x1 x2 y1 y2
}

func (m *bqm) step(ch int, x float64) float64 {
	s := &m.s[ch]
	y := m.c[0]*x + m.c[1]*s[0] + m.c[2]*s[1] - m.c[3]*s[2] - m.c[4]*s[3]
	*s = [4]float64{x, s[0], y, s[2]}
	return y
}

type svfm struct {
	g, k, mode float64
	s          [4][2]float64
}

func (m *svfm) step(ch int, x float64) (lp, hp, bp, notch float64) {
	s := &m.s[ch]
	hp = (x - (m.k+m.g)*s[0] - s[1]) / (1 + m.g*(m.g+m.k))
	bp = m.g*hp + s[0]
	lp = m.g*bp + s[1]
	s[0], s[1] = m.g*hp+bp, m.g*bp+lp
	return lp, hp, bp, x - m.k*bp
}

func (m *svfm) morph(ch int, x float64) float64 {
	lp, hp, bp, no := m.step(ch, x)
	seg := []float64{lp, bp, hp, no, lp}
	i := math.Min(3, math.Floor(m.mode*4))
	f := m.mode*4 - i
	return seg[int(i)]*(1-f) + seg[int(i)+1]*f
}

func p39(r *core.Run) {
	if !r.Shard0() {
		return
	}
	biquadHist(r)
	svfHist(r)
	responses(r)
}

func biquadHist(r *core.Run) {
	type I = *filter.Biquad
	type M = *bqm
	const sr = 8000.0
	blk := func(n, ph, ch int) nop[I, M] {
		return nop[I, M]{fmt.Sprintf("process %d samples on channel %d", n, ch), func(i I) []float64 {
			b := buf(n, ph)
			i.Process(b, ch)
			if !tailOK(b) {
				return nil
			}
			return f64s(b)
		}, func(m M) []float64 {
			b := f64s(buf(n, ph))
			for j := range b {
				b[j] = m.step(ch, b[j])
			}
			return b
		}}
	}
	ops := []nop[I, M]{blk(7, 0, 0), blk(5, 1, 1), blk(1, 2, 0), blk(0, 0, 1)}
	ops = append(ops, nop[I, M]{"process three channels of a two-channel filter", func(i I) []float64 {
		bs := [][]float32{buf(6, 3), buf(4, 4), buf(3, 5)}
		i.ProcessMulti(bs)
		return append(append(f64s(bs[0]), f64s(bs[1])...), f64s(bs[2])...)
	}, func(m M) []float64 {
		bs := [][]float64{f64s(buf(6, 3)), f64s(buf(4, 4)), f64s(buf(3, 5))}
		for c := 0; c < 2; c++ {
			for j := range bs[c] {
				bs[c][j] = m.step(c, bs[c][j])
			}
		}
		return append(append(bs[0], bs[1]...), bs[2]...)
	}}, nop[I, M]{"process one channel list", func(i I) []float64 {
		bs := [][]float32{buf(3, 6)}
		i.ProcessMulti(bs)
		return f64s(bs[0])
	}, func(m M) []float64 {
		b := f64s(buf(3, 6))
		for j := range b {
			b[j] = m.step(0, b[j])
		}
		return b
	}})
	ops = append(ops, sets("reset", func(i I) { i.Reset() }, func(m M) { m.s = [4][4]float64{} }))
	for n, kind := range bqKinds {
		kind, n := kind, n
		f, q, db := 600+300*float64(n), 0.5+float64(n%4), float64(9*(n%2*2-1))
		ops = append(ops, sets(fmt.Sprintf("%s %v Hz q %v %v dB", kind, f, q, db),
			func(i I) { designBQ(i, kind, sr, f, q, db) }, func(m M) { m.c = protoOf(kind, q, db).digital(f, sr) }))
	}
	ops = append(ops, sets("coefficients", func(i I) { i.SetCoefficients(1, 0.5, -0.25, 2, -0.4, 0.6) },
		func(m M) { m.c = [5]float64{0.5, 0.25, -0.125, -0.2, 0.3} }))
	h := nhist[I, M]{name: "biquad", tol: 1e-3, ops: ops, mk: func() I { b := filter.NewBiquad(2); b.SetLowpass(sr, 1000, 0.8); return b },
		model: func() M { return &bqm{c: protoOf("lowpass", 0.8, 0).digital(1000, sr)} }}
	h.run(r, r.Pick(4, 5))
	h.name, h.mk = "biquad_peak", func() I { b := filter.NewBiquad(2); b.SetPeakingEQ(sr, 700, 3, 12); return b }
	h.model = func() M { return &bqm{c: protoOf("peak", 3, 12).digital(700, sr)} }
	h.run(r, r.Pick(4, 5))
	// more channels
	h.name, h.mk = "biquad_4_channels", func() I { b := filter.NewBiquad(4); b.SetPeakingEQ(sr, 700, 3, 12); return b }
	reset := ops[len(ops)-len(bqKinds)-2]
	h.ops = []nop[I, M]{blk(5, 0, 0), blk(4, 1, 1), blk(5, 2, 2), blk(3, 3, 3), reset, ops[len(ops)-1], {"process four channels", func(i I) []float64 {
		bs := [][]float32{buf(6, 3), buf(4, 4), buf(3, 5), buf(7, 6)}
		i.ProcessMulti(bs)
		return append(append(append(f64s(bs[0]), f64s(bs[1])...), f64s(bs[2])...), f64s(bs[3])...)
	}, func(m M) []float64 {
		var o []float64
		for c, b := range [][]float32{buf(6, 3), buf(4, 4), buf(3, 5), buf(7, 6)} {
			for _, x := range b {
				o = append(o, m.step(c, float64(x)))
			}
		}
		return o
	}}}
	h.run(r, r.Pick(5, 6))
}

func svfHist(r *core.Run) {
	type I = *filter.MultiModeSVF
	type M = *svfm
	const sr = 8000.0
	blk := func(name string, n, ph, ch int, do func(i I, b []float32, ch int), pick func(m M, x float64, ch int) float64) nop[I, M] {
		return nop[I, M]{fmt.Sprintf("%s of %d samples on channel %d", name, n, ch), func(i I) []float64 {
			b := buf(n, ph)
			do(i, b, ch)
			if !tailOK(b) {
				return nil
			}
			return f64s(b)
		}, func(m M) []float64 {
			b := f64s(buf(n, ph))
			for j := range b {
				b[j] = pick(m, b[j], ch)
			}
			return b
		}}
	}
	lp := func(m M, x float64, ch int) float64 { l, _, _, _ := m.step(ch, x); return l }
	hp := func(m M, x float64, ch int) float64 { _, l, _, _ := m.step(ch, x); return l }
	bp := func(m M, x float64, ch int) float64 { _, _, l, _ := m.step(ch, x); return l }
	no := func(m M, x float64, ch int) float64 { _, _, _, l := m.step(ch, x); return l }
	mixed := func(m M, x float64, ch int) float64 {
		a, b, c, d := m.step(ch, x)
		return 0.5*a - 2*b + 0.75*c + 0.25*d
	}
	mixed2 := func(m M, x float64, ch int) float64 {
		a, b, c, d := m.step(ch, x)
		return -0.5*a + b - 0.75*c - 1.25*d
	}
	ops := []nop[I, M]{
		blk("mix 2", 4, 4, 1, func(i I, b []float32, ch int) { i.ProcessMixed(b, ch, -0.5, 1, -0.75, -1.25) }, mixed2),
		blk("lowpass", 6, 0, 0, func(i I, b []float32, ch int) { i.ProcessLowpass(b, ch) }, lp),
		blk("highpass", 5, 1, 1, func(i I, b []float32, ch int) { i.ProcessHighpass(b, ch) }, hp),
		blk("bandpass", 4, 2, 0, func(i I, b []float32, ch int) { i.ProcessBandpass(b, ch) }, bp),
		blk("notch", 3, 3, 1, func(i I, b []float32, ch int) { i.ProcessNotch(b, ch) }, no),
		blk("mix", 4, 4, 0, func(i I, b []float32, ch int) { i.ProcessMixed(b, ch, 0.5, -2, 0.75, 0.25) }, mixed),
		blk("morph", 6, 5, 0, func(i I, b []float32, ch int) { i.Process(b, ch) }, func(m M, x float64, ch int) float64 { return m.morph(ch, x) }),
		blk("morph", 0, 5, 1, func(i I, b []float32, ch int) { i.Process(b, ch) }, func(m M, x float64, ch int) float64 { return 0 }),
		{"single sample", func(i I) []float64 {
			o := i.ProcessSample(0.75, 1)
			return []float64{float64(o.Lowpass), float64(o.Highpass), float64(o.Bandpass), float64(o.Notch)}
		}, func(m M) []float64 { a, b, c, d := m.step(1, 0.75); return []float64{a, b, c, d} }},
		sets("reset", func(i I) { i.Reset() }, func(m M) { m.s = [4][2]float64{} }),
	}
	for _, f := range []float64{150, 2500, 3900} {
		f := f
		ops = append(ops, sets(fmt.Sprint("frequency ", f), func(i I) { i.SetFrequency(sr, f) }, func(m M) { m.g = math.Tan(math.Pi * f / sr) }))
	}
	ops = append(ops, sets("q 4", func(i I) { i.SetQ(4) }, func(m M) { m.k = 0.25 }),
		sets("800 Hz q 0.6", func(i I) { i.SetFrequencyAndQ(sr, 800, 0.6) }, func(m M) { m.g, m.k = math.Tan(math.Pi*0.1), 1/0.6 }))
	for _, md := range []float64{0.1, 0.45, 0.7, 0.9, 1.3, -0.2, 1} {
		md := md
		ops = append(ops, sets(fmt.Sprint("mode ", md), func(i I) { i.SetMode(md) }, func(m M) { m.mode = md - math.Floor(md) }))
	}
	h := nhist[I, M]{name: "svf", tol: 1e-4, ops: ops,
		mk:    func() I { s := filter.NewMultiModeSVF(2); s.SetFrequencyAndQ(sr, 1000, 1); return s },
		model: func() M { return &svfm{g: math.Tan(math.Pi / 8), k: 1} }}
	h.run(r, r.Pick(4, 5))
	h.name, h.mk = "svf_4_channels", func() I { s := filter.NewMultiModeSVF(4); s.SetFrequencyAndQ(sr, 1000, 1); return s }
	h.ops = nil
	for ch := 0; ch < 4; ch++ {
		h.ops = append(h.ops, blk("lowpass", 5, ch, ch, func(i I, b []float32, ch int) { i.ProcessLowpass(b, ch) }, lp),
			blk("morph", 3, ch+1, ch, func(i I, b []float32, ch int) { i.Process(b, ch) }, func(m M, x float64, ch int) float64 { return m.morph(ch, x) }))
	}
	for _, o := range ops {
		if o.name == "reset" || o.name == "mode 0.9" || o.name == "q 4" {
			h.ops = append(h.ops, o)
		}
	}
	h.run(r, r.Pick(4, 5))
	// the morph is continuous around the whole circle
	n := r.Pick(2000, 20000)
	prev := math.NaN()
	for k := 0; k <= n; k++ {
		s := filter.NewMultiModeSVF(1)
		s.SetFrequencyAndQ(sr, 1000, 1)
		s.SetMode(float64(k) / float64(n))
		b := buf(8, 0)
		s.Process(b, 0)
		y := float64(b[7])
		if math.Abs(y-prev) > 100/float64(n) {
			r.Failf("morph", "morph position %d of %d: output jumps from %v to %v", k, n, prev, y)
		}
		prev = y
		r.Count(1, 1)
	}
}

// responses compares the measured frequency response of every design with
// the bilinear transform of its prototype and checks that it rings out.
func responses(r *core.Run) {
	type cs struct {
		kind      string
		sr, f0    float64
		q, db     float64
		state     bool // state variable filter
		pole, len float64
	}
	var cases []cs
	srs := []float64{44100, 96000}
	fr := []float64{0.01, 0.03, 0.08, 0.2, 0.35, 0.45, 0.49}
	qs := []float64{0.3, 0.7071, 2, 10, 40}
	dbs := []float64{-40, -24, -6, 0, 6, 24, 40}
	if r.Thorough {
		srs = append(srs, 8000, 22050, 48000, 192000)
		fr = append(fr, 0.006, 0.02, 0.05, 0.12, 0.25, 0.3, 0.4, 0.47)
		qs = append(qs, 0.1, 0.5, 1, 5, 30)
		dbs = append(dbs, -18, -12, -1, 1, 3, 12, 18)
	}
	for _, sr := range srs {
		for _, f := range fr {
			for _, q := range qs {
				for _, k := range bqKinds {
					if k == "peak" || k == "lowshelf" || k == "highshelf" {
						for _, db := range dbs {
							cases = append(cases, cs{kind: k, sr: sr, f0: f * sr, q: q, db: db})
						}
						continue
					}
					cases = append(cases, cs{kind: k, sr: sr, f0: f * sr, q: q})
				}
				for _, k := range []string{"lowpass", "highpass", "bandpass", "notch"} {
					cases = append(cases, cs{kind: k, sr: sr, f0: f * sr, q: q, state: true})
				}
			}
		}
	}
	r.Bound("response_cases", len(cases))
	name := func(c cs) string {
		t := "biquad"
		if c.state {
			t = "state variable"
		}
		return fmt.Sprintf("%s %s at %v Hz of %v, q %v, %v dB", t, c.kind, c.f0, c.sr, c.q, c.db)
	}
	r.Each(len(cases), func(i int) string { return name(cases[i]) }, func(i int, w *core.Worker) {
		c := cases[i]
		p := protoOf(c.kind, c.q, c.db)
		if c.state && c.kind == "bandpass" {
			p.n1 = 1
		}
		d := p.digital(c.f0, c.sr)
		// slowest pole decides the length
		disc := cmplx.Sqrt(complex(d[3]*d[3]/4-d[4], 0))
		pm := math.Max(cmplx.Abs(-complex(d[3]/2, 0)+disc), cmplx.Abs(-complex(d[3]/2, 0)-disc))
		n := int(math.Log(1e-6)/math.Log(pm)) + 64
		if n > 200000 {
			return
		}
		b := make([]float32, n)
		b[0] = 1
		if c.state {
			s := filter.NewSVF(1)
			s.SetFrequencyAndQ(c.sr, c.f0, c.q)
			switch c.kind {
			case "lowpass":
				s.ProcessLowpass(b, 0)
			case "highpass":
				s.ProcessHighpass(b, 0)
			case "bandpass":
				s.ProcessBandpass(b, 0)
			case "notch":
				s.ProcessNotch(b, 0)
			}
		} else {
			s := filter.NewBiquad(1)
			designBQ(s, c.kind, c.sr, c.f0, c.q, c.db)
			s.Process(b, 0)
		}
		peak, tail := 0.0, 0.0
		for j, x := range b {
			if !core.Finite(float64(x)) {
				r.Failf("response", "%s: not finite", name(c))
				return
			}
			peak = math.Max(peak, math.Abs(float64(x)))
			if j >= n-8 {
				tail = math.Max(tail, math.Abs(float64(x)))
			}
		}
		if tail > 1e-3*peak {
			r.Failf("stability", "%s: still rings at %v of its peak after %d samples", name(c), tail/peak, n)
		}
		top := 0.0
		for _, f := range []float64{c.f0, 0.4999 * c.sr} {
			top = math.Max(top, cmplx.Abs(p.at(f, c.f0, c.sr)))
		}
		for f := c.f0 / 1000; f < c.sr/2; f *= 1.01 {
			top = math.Max(top, cmplx.Abs(p.at(f, c.f0, c.sr)))
		}
		// a coefficient rounded to 32 bits detunes a narrow low resonance a little
		sn := math.Sin(2 * math.Pi * c.f0 / c.sr)
		tol := 0.01 + 1.2e-7*2*c.q*math.Pow(10, math.Abs(c.db)/40)/(sn*sn)
		for _, f := range []float64{0.001 * c.sr, c.f0 / 4, c.f0 / 2, c.f0 * 0.9, c.f0, math.Min(c.f0*1.1, 0.499*c.sr), math.Min(2*c.f0, 0.45*c.sr), math.Min(8*c.f0, 0.48*c.sr), 0.4999 * c.sr} {
			var h complex128
			z, e := complex(1, 0), cmplx.Exp(complex(0, -2*math.Pi*f/c.sr))
			for _, x := range b {
				h += complex(float64(x), 0) * z
				z *= e
			}
			want := p.at(f, c.f0, c.sr)
			if cmplx.Abs(h-want) > tol*math.Max(top, 0.2) {
				r.Failf("response", "%s: response at %v Hz is %v (%.3f), prototype says %v (%.3f)", name(c), f, h, cmplx.Abs(h), want, cmplx.Abs(want))
				break
			}
		}
		r.Count(int64(n), 9)
		r.Nontrivial(1)
		r.Trace(1)
	})
}
