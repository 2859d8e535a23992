package seq

import (
	"fmt"
	"math"
	"testing"

	"github.com/justyntemme/vst3go/pkg/dsp/analysis"
	"github.com/justyntemme/vst3go/verifmc/core"
)

func dbinf(x float64) float64 {
	if x > 0 {
		return 20 * math.Log10(x)
	}
	return math.Inf(-1)
}

// ---- P60: level meters ----

type pkm struct {
	sr, peak, hold, holdTime, decay float64
	left                            int
}

func (m *pkm) process(x []float64) {
	b := 0.0
	for _, v := range x {
		b = math.Max(b, math.Abs(v))
	}
	m.peak = math.Max(b, m.peak*math.Pow(10, -m.decay*float64(len(x))/m.sr/20))
	if b >= m.hold {
		m.hold, m.left = b, int(m.holdTime*m.sr)
		return
	}
	if m.left -= len(x); m.left <= 0 {
		m.hold, m.left = m.peak, 0
	}
}

type rmm struct {
	n  int
	in []float64
}

func (m *rmm) rms() float64 {
	w := m.in[max(0, len(m.in)-m.n):]
	if len(w) == 0 {
		return 0
	}
	s := 0.0
	for _, x := range w {
		s += x * x
	}
	return math.Sqrt(s / float64(len(w)))
}

func p60(r *core.Run) {
	if !r.Shard0() {
		return
	}
	blocks := [][]float64{{}, {0.5}, {-0.8, 0.1}, {1, 0, 0}, make([]float64, 7), {0.2, -0.2}, make([]float64, 2)}
	{
		type op = nop[*analysis.PeakMeter, *pkm]
		see := func(i *analysis.PeakMeter) []float64 {
			return []float64{i.GetPeak(), i.GetHold(), i.GetPeakDB(), i.GetHoldDB()}
		}
		seem := func(m *pkm) []float64 { return []float64{m.peak, m.hold, dbinf(m.peak), dbinf(m.hold)} }
		var ops []op
		for _, b := range blocks {
			b := b
			ops = append(ops, op{fmt.Sprint("Process", b), func(i *analysis.PeakMeter) []float64 { i.Process(b); return see(i) }, func(m *pkm) []float64 { m.process(b); return seem(m) }})
		}
		for _, t := range []float64{0, 0.05, 0.5} {
			t := t
			ops = append(ops, sets(fmt.Sprintf("SetHoldTime(%v)", t), func(i *analysis.PeakMeter) { i.SetHoldTime(t) }, func(m *pkm) { m.holdTime = t }))
		}
		for _, d := range []float64{0, 60} {
			d := d
			ops = append(ops, sets(fmt.Sprintf("SetDecayRate(%v)", d), func(i *analysis.PeakMeter) { i.SetDecayRate(d) }, func(m *pkm) { m.decay = d }))
		}
		ops = append(ops, op{"Reset", func(i *analysis.PeakMeter) []float64 { i.Reset(); return see(i) }, func(m *pkm) []float64 { m.peak, m.hold, m.left = 0, 0, 0; return seem(m) }})
		h := &nhist[*analysis.PeakMeter, *pkm]{"peak meter", func() *analysis.PeakMeter { return analysis.NewPeakMeter(100) }, func() *pkm { return &pkm{sr: 100, holdTime: 3, decay: 20} }, ops, 1e-9,
			func(i *analysis.PeakMeter, m *pkm) string {
				if p, h := i.GetPeak(), i.GetHold(); h < p*(1-1e-12) {
					return fmt.Sprintf("held peak %v below the current peak %v", h, p)
				}
				return ""
			}}
		h.run(r, r.Pick(5, 7))
	}
	// the decay is the set number of decibels per second whatever the blocks,
	// and the maximum is held for the set time: every way to cut the silence
	comps := compositions(r.Pick(11, 14))
	type cfg struct{ sr, decay, hold float64 }
	var cs []cfg
	for _, sr := range []float64{10, 44100} {
		for _, d := range []float64{6, 20, 200} {
			for _, h := range []float64{0, 5 / sr, 100 / sr} {
				cs = append(cs, cfg{sr, d, h})
			}
		}
	}
	r.Each(len(comps)*len(cs), func(i int) string { return fmt.Sprint("decay ", i) }, func(i int, w *core.Worker) {
		c, parts := cs[i%len(cs)], comps[i/len(cs)]
		p := analysis.NewPeakMeter(c.sr)
		p.SetDecayRate(c.decay)
		p.SetHoldTime(c.hold)
		p.Process([]float64{0.3, -0.9})
		n := 0
		for _, k := range parts {
			p.Process(make([]float64, k))
			n += k
			want := dbinf(0.9) - c.decay*float64(n)/c.sr
			if math.Abs(p.GetPeakDB()-want) > 1e-6 {
				r.Failf("decay", "peak meter %+v, silence in blocks of %v: %v dB after %d samples, want %v", c, parts, p.GetPeakDB(), n, want)
				return
			}
			held := p.GetHold() == 0.9
			if exp := n < int(c.hold*c.sr); held != exp && n != int(c.hold*c.sr) {
				r.Failf("hold", "peak meter %+v, silence in blocks of %v: the maximum is held %v after %d samples", c, parts, held, n)
				return
			}
		}
		r.Count(int64(len(parts)), int64(len(parts)))
		r.Nontrivial(1)
		r.Trace(1)
	})

	for _, n := range []int{1, 2, 3, 5} {
		n := n
		type op = nop[*analysis.RMSMeter, *rmm]
		var ops []op
		for _, b := range append(blocks, []float64{0.1, 0.7, 0.1, 0.3, 0.1}) {
			b := b
			ops = append(ops, op{fmt.Sprint("Process", b), func(i *analysis.RMSMeter) []float64 { i.Process(b); return []float64{i.GetRMS()} }, func(m *rmm) []float64 { m.in = append(m.in, b...); return []float64{m.rms()} }})
		}
		ops = append(ops, op{"GetRMSDB", func(i *analysis.RMSMeter) []float64 { return []float64{math.Max(i.GetRMSDB(), -120)} }, func(m *rmm) []float64 { return []float64{math.Max(dbinf(m.rms()), -120)} }},
			op{"Reset", func(i *analysis.RMSMeter) []float64 { i.Reset(); return []float64{i.GetRMS()} }, func(m *rmm) []float64 { m.in = nil; return []float64{0} }})
		h := &nhist[*analysis.RMSMeter, *rmm]{fmt.Sprintf("RMS meter of %d samples", n), func() *analysis.RMSMeter { return analysis.NewRMSMeter(n) }, func() *rmm { return &rmm{n: n} }, ops, 1e-6, nil}
		h.run(r, r.Pick(4, 5))
		// silence reads as silence after every sequence: rounding errors
		// neither remain nor turn the sum negative
		vals := []float64{0, 0.1, 0.7, 1e3}
		seqs := tuples(len(vals), r.Pick(7, 9))
		r.Each(len(seqs), func(i int) string { return fmt.Sprint("RMS rounding ", i) }, func(i int, w *core.Worker) {
			m := analysis.NewRMSMeter(n)
			for k, v := range seqs[i] {
				m.Process([]float64{vals[v]})
				if x := m.GetRMS(); !(x >= 0) {
					r.Failf("RMS rounding", "window of %d, samples %v of %v: RMS %v", n, seqs[i][:k+1], vals, x)
					return
				}
			}
			for k := 0; k < 2*n; k++ {
				m.Process([]float64{0})
				if x := m.GetRMS(); !(x >= 0) {
					r.Failf("RMS rounding", "window of %d, samples %v of %v and %d of silence: RMS %v", n, seqs[i], vals, k+1, x)
					return
				}
			}
			if x := m.GetRMS(); x != 0 {
				r.Failf("RMS rounding", "window of %d, samples %v of %v and two windows of silence: RMS %v", n, seqs[i], vals, x)
			}
			r.Count(int64(len(seqs[i])), int64(len(seqs[i])))
			r.Nontrivial(1)
			r.Trace(1)
		})
	}
	// long runs
	long := r.Pick(2_000_000, 50_000_000)
	m := analysis.NewRMSMeter(1000)
	x := mat64(997, 0)
	for k := 0; k < long; k += len(x) {
		m.Process(x)
	}
	ref := &rmm{n: 1000, in: append(append([]float64{}, x...), x...)}
	if g, want := m.GetRMS(), ref.rms(); math.Abs(g-want) > 1e-12 {
		r.Failf("RMS drift", "after %d samples the RMS is %v, want %v", long, g, want)
	}
	r.Bound("long_run", long)
	pk := analysis.NewPeakMeter(48000)
	if a := testing.AllocsPerRun(100, func() { m.Process(x); pk.Process(x); m.GetRMS(); pk.GetHoldDB() }); a != 0 {
		r.Failf("allocation", "peak and RMS meters allocate %v times per block", a)
	}
}

// ---- P61: loudness ----

// kweight is the K-weighting of BS.1770: the two biquads at 48 kHz as printed
// in the recommendation, elsewhere the same analogue prototype.
type kweight struct {
	b, a [2][3]float64
	x, y [2][2]float64
}

func newK(sr float64) *kweight {
	k := &kweight{}
	if sr == 48000 {
		k.b = [2][3]float64{{1.53512485958697, -2.69169618940638, 1.19839281085285}, {1, -2, 1}}
		k.a = [2][3]float64{{1, -1.69065929318241, 0.73248077421585}, {1, -1.99004745483398, 0.99007225036621}}
		return k
	}
	w := math.Tan(math.Pi * 1681.974450955533 / sr)
	q := 0.7071752369554196
	vh := math.Pow(10, 3.999843853973347/20)
	vb := math.Pow(vh, 0.4996667741545416)
	d := 1 + w/q + w*w
	k.b[0] = [3]float64{(vh + vb*w/q + w*w) / d, 2 * (w*w - vh) / d, (vh - vb*w/q + w*w) / d}
	k.a[0] = [3]float64{1, 2 * (w*w - 1) / d, (1 - w/q + w*w) / d}
	w = math.Tan(math.Pi * 38.13547087602444 / sr)
	q = 0.5003270373238773
	d = 1 + w/q + w*w
	k.b[1] = [3]float64{1, -2, 1}
	k.a[1] = [3]float64{1, 2 * (w*w - 1) / d, (1 - w/q + w*w) / d}
	return k
}

func (k *kweight) next(v float64) float64 {
	for s := 0; s < 2; s++ {
		o := k.b[s][0]*v + k.b[s][1]*k.x[s][0] + k.b[s][2]*k.x[s][1] - k.a[s][1]*k.y[s][0] - k.a[s][2]*k.y[s][1]
		k.x[s][1], k.x[s][0] = k.x[s][0], v
		k.y[s][1], k.y[s][0] = k.y[s][0], o
		v = o
	}
	return v
}

// response is the gain of the K-weighting at frequency f.
func (k *kweight) response(f, sr float64) float64 {
	g := 1.0
	for s := 0; s < 2; s++ {
		z := complex(math.Cos(2*math.Pi*f/sr), -math.Sin(2*math.Pi*f/sr))
		p := func(c [3]float64) float64 {
			v := complex(c[0], 0) + complex(c[1], 0)*z + complex(c[2], 0)*z*z
			return math.Hypot(real(v), imag(v))
		}
		g *= p(k.b[s]) / p(k.a[s])
	}
	return g
}

func chWeight(ch, channels int) float64 {
	switch {
	case channels > 5 && ch == 3: // low-frequency effects
		return 0
	case channels > 5 && (ch == 4 || ch == 5), (channels == 4 || channels == 5) && ch >= 3: // side
		return 1.41
	}
	return 1
}

// lufs is the measurement by its definition, over all the input so far.
type lufs struct {
	sr    float64
	ch    int
	k     []*kweight
	power []float64 // weighted power of every frame
}

func newLufs(sr float64, ch int) *lufs {
	m := &lufs{sr: sr, ch: ch}
	for i := 0; i < ch; i++ {
		m.k = append(m.k, newK(sr))
	}
	return m
}

func (m *lufs) process(x []float64) {
	for i := 0; i < len(x); i += m.ch {
		p := 0.0
		for c := 0; c < m.ch; c++ {
			v := m.k[c].next(x[i+c])
			p += chWeight(c, m.ch) * v * v
		}
		m.power = append(m.power, p)
	}
}

func lkfs(p float64) float64 { return -0.691 + 10*math.Log10(p) }

// blocks is the mean power of every window of the given length, 100 ms apart.
func (m *lufs) blocks(seconds float64) []float64 {
	n, hop := int(math.Round(seconds*m.sr)), int(math.Round(0.1*m.sr))
	var o []float64
	for s := 0; s+n <= len(m.power); s += hop {
		t := 0.0
		for _, p := range m.power[s : s+n] {
			t += p
		}
		o = append(o, t/float64(n))
	}
	return o
}

func (m *lufs) last(seconds float64) float64 {
	b := m.blocks(seconds)
	if len(b) == 0 {
		return math.Inf(-1)
	}
	return lkfs(b[len(b)-1])
}

func (m *lufs) integrated() float64 {
	mean := func(above float64) float64 {
		s, n := 0.0, 0.0
		for _, b := range m.blocks(0.4) {
			if lkfs(b) >= above && lkfs(b) >= -70 {
				s += b
				n++
			}
		}
		if n == 0 {
			return math.Inf(-1)
		}
		return lkfs(s / n)
	}
	return mean(mean(-70) - 10 - 1e-9)
}

func sine(n int, f, sr, amp float64, ch, active int) []float64 {
	x := make([]float64, n*ch)
	for i := 0; i < n; i++ {
		x[i*ch+active] = amp * math.Sin(2*math.Pi*f*float64(i)/sr)
	}
	return x
}

func p61(r *core.Run) {
	if !r.Shard0() {
		return
	}
	// a sine in any one channel reads its K-weighted level on every scale
	type cfg struct {
		sr, f, amp float64
		ch, on     int
	}
	var cs []cfg
	layouts := sets2(r.Pick(0, 1))
	for _, sr := range []float64{16000, 44100, 48000, 96000} {
		for _, f := range []float64{0, 20, 40, 100, 500, 997, 2000, 4000, 7000} {
			for _, l := range layouts {
				amps := []float64{0.5}
				if l == [2]int{2, 0} || r.Pick(0, 1) == 1 {
					amps = []float64{1, 0.5, 0.01}
				}
				for _, a := range amps {
					cs = append(cs, cfg{sr, f, a, l[0], l[1]})
				}
			}
		}
	}
	r.Each(len(cs), func(i int) string { return fmt.Sprintf("loudness of %+v", cs[i]) }, func(i int, w *core.Worker) {
		c := cs[i]
		m := analysis.NewLUFSMeter(c.sr, c.ch)
		n := int(c.sr * 3.5)
		x := sine(n, c.f, c.sr, c.amp, c.ch, c.on)
		if c.f == 0 {
			for k := 0; k < n; k++ {
				x[k*c.ch+c.on] = c.amp
			}
		}
		for s := 0; s < n; s += 512 {
			m.Process(x[s*c.ch : min(n, s+512)*c.ch])
		}
		want := lkfs(c.amp * c.amp / 2 * chWeight(c.on, c.ch) * math.Pow(newK(48000).response(c.f, 48000), 2))
		tol := 0.03
		if c.f <= 40 {
			tol = 0.6 // onset and fractional periods
		}
		if c.sr < 44100 {
			tol += 0.15 + 0.5*c.f/2000 // bilinear warping at low sample rates
		} else if c.f > 3000 {
			tol += 0.1
		}
		for name, got := range map[string]float64{"momentary": m.GetMomentaryLUFS(), "short-term": m.GetShortTermLUFS(), "integrated": m.GetIntegratedLUFS()} {
			if c.f == 0 && name != "momentary" {
				continue // the onset of a constant is heard
			}
			if want < -69 || math.IsInf(want, -1) {
				if got > -60 {
					r.Failf("level", "%s loudness of %+v is %v, want silence", name, c, got)
					return
				}
				continue
			}
			if !(math.Abs(got-want) <= tol) {
				r.Failf("level", "%s loudness of %+v is %v, want %v", name, c, got, want)
				return
			}
		}
		r.Count(1, 3)
		r.Nontrivial(1)
		r.Trace(1)
	})

	// every programme of segments, in blocks of several sizes: windows and
	// gates against the measurement by definition
	const sr = 4000.0
	levels := []float64{-10, -24, -40, -65, -75, math.Inf(-1)}
	progs := tuples(len(levels), r.Pick(4, 5))
	segs := []int{1700, 2800}
	sizes := []int{1, 33, 400, 1 << 20}
	r.Each(len(progs), func(i int) string { return fmt.Sprint("programme ", progs[i]) }, func(i int, w *core.Worker) {
		m := analysis.NewLUFSMeter(sr, 2)
		ref := newLufs(sr, 2)
		size := sizes[i%len(sizes)]
		n := 0
		for k, l := range progs[i] {
			amp := 0.0
			if !math.IsInf(levels[l], -1) {
				amp = math.Pow(10, levels[l]/20)
			}
			seg := segs[(i+k)%2]
			x := make([]float64, 2*seg)
			for j := 0; j < seg; j++ {
				x[2*j] = amp * math.Sin(2*math.Pi*400*float64(n+j)/sr)
				x[2*j+1] = amp * math.Cos(2*math.Pi*400*float64(n+j)/sr)
			}
			n += seg
			for s := 0; s < seg; s += size {
				m.Process(x[2*s : 2*min(seg, s+size)])
			}
			ref.process(x)
			got := []float64{m.GetMomentaryLUFS(), m.GetShortTermLUFS(), m.GetIntegratedLUFS()}
			want := []float64{ref.last(0.4), ref.last(3), ref.integrated()}
			for j := range got {
				if math.Max(got[j], -150) != math.Max(want[j], -150) && !(math.Abs(math.Max(got[j], -150)-math.Max(want[j], -150)) < 1e-3) {
					r.Failf("programme", "levels %v (segments of %v samples at %v Hz) in blocks of %d, after segment %d: momentary, short-term, integrated are %v, want %v", progs[i], segs, sr, size, k, got, want)
					return
				}
			}
			if lra := m.GetLoudnessRange(); !(lra >= 0 && lra <= 70) {
				r.Failf("range", "loudness range %v", lra)
				return
			}
			r.Count(1, 1)
		}
		r.Nontrivial(1)
		r.Trace(1)
	})
	r.Bound("programme_segments", len(progs[0]))

	// histories with resets
	type ins struct {
		*analysis.LUFSMeter
		pos int
	}
	type mod struct {
		*lufs
		pos int
	}
	type op = nop[*ins, *mod]
	const low = 200.0 // a low rate keeps windows short
	wave := func(n, ph int, amp float64) []float64 {
		x := make([]float64, 2*n)
		for i := 0; i < n; i++ {
			x[2*i] = amp * math.Sin(float64(ph+i))
			x[2*i+1] = amp * math.Cos(1.7*float64(ph+i))
		}
		return x
	}
	// K-weighting needs rates above 3.4 kHz, so the history runs at 3500 Hz
	const hr = 3500.0
	_ = low
	see := func(a, b, c float64) []float64 {
		return []float64{math.Max(a, -150), math.Max(b, -150), math.Max(c, -150)}
	}
	var ops []op
	for _, p := range []struct {
		n   int
		amp float64
	}{{350, 0.5}, {1000, 0.05}, {1400, 0}, {2100, 0.2}, {11000, 0.1}} {
		p := p
		ops = append(ops, op{fmt.Sprintf("Process(%d frames at %v)", p.n, p.amp), func(i *ins) []float64 {
			i.Process(wave(p.n, i.pos, p.amp))
			i.pos += p.n
			return see(i.GetMomentaryLUFS(), i.GetShortTermLUFS(), i.GetIntegratedLUFS())
		}, func(m *mod) []float64 {
			m.process(wave(p.n, m.pos, p.amp))
			m.pos += p.n
			return see(m.last(0.4), m.last(3), m.integrated())
		}})
	}
	ops = append(ops, op{"Reset", func(i *ins) []float64 {
		i.LUFSMeter.Reset()
		return see(i.GetMomentaryLUFS(), i.GetShortTermLUFS(), i.GetIntegratedLUFS())
	}, func(m *mod) []float64 {
		m.lufs = newLufs(hr, 2)
		return see(math.Inf(-1), math.Inf(-1), math.Inf(-1))
	}})
	h := &nhist[*ins, *mod]{"loudness", func() *ins { return &ins{analysis.NewLUFSMeter(hr, 2), 0} }, func() *mod { return &mod{newLufs(hr, 2), 0} }, ops, 1e-4, nil}
	h.run(r, r.Pick(4, 5))

	// the loudness range of two levels is their difference; of one, none
	for _, d := range []float64{0, 3, 12, 30} {
		m := analysis.NewLUFSMeter(4000, 1)
		for _, g := range []float64{0, -d} {
			m.Process(sine(4000*6, 400, 4000, 0.5*math.Pow(10, g/20), 1, 0))
		}
		if l := m.GetLoudnessRange(); math.Abs(l-d) > 0.5 {
			r.Failf("range", "programme of two levels %v dB apart has a loudness range of %v", d, l)
		}
	}
	// and it is that between the 10th and the 95th percentile: level steps in
	// the given shares of a short or a long programme
	for _, secs := range []int{4, 30, 120} {
		for _, c := range []struct {
			low, high int // percent below and above the middle level
			want      float64
		}{{20, 0, 10}, {13, 0, 10}, {3, 0, 0}, {7, 0, 0}, {0, 2, 0}, {0, 8, 6}, {0, 15, 6}, {20, 15, 16}} {
			if secs == 4 && c.low != 20 && c.high != 15 {
				continue // a block and its overlaps are more than a few percent
			}
			m := analysis.NewLUFSMeter(4000, 1)
			n := 4000 * secs
			for s := 0; s < n; s += 400 {
				g := 0.0
				if s*100 < c.low*n {
					g = -10
				} else if (n-s)*100 <= c.high*n {
					g = 6
				}
				m.Process(sine(400, 400, 4000, 0.4*math.Pow(10, g/20), 1, 0))
			}
			if l := m.GetLoudnessRange(); math.Abs(l-c.want) > 1.5 {
				r.Failf("range", "%d s, %d%% at -10 dB and %d%% at +6 dB: loudness range of %v, want %v", secs, c.low, c.high, l, c.want)
			}
			r.Count(1, int64(n/400))
		}
	}
	// minutes of programme: every block counts for the integrated loudness
	for _, secs := range [][2]int{{150, 150}, {500, 300}} {
		m := analysis.NewLUFSMeter(4000, 1)
		for k, g := range []float64{0.1, 0.3} {
			for s := 0; s < secs[k]; s++ {
				m.Process(sine(4000, 400, 4000, g, 1, 0))
			}
		}
		p := (0.01*float64(secs[0]) + 0.09*float64(secs[1])) / float64(secs[0]+secs[1]) / 2
		if want := lkfs(p * math.Pow(newK(4000).response(400, 4000), 2)); math.Abs(m.GetIntegratedLUFS()-want) > 0.1 {
			r.Failf("integrated", "%d s at 0.1, then %d s at 0.3: %v LUFS, want %v", secs[0], secs[1], m.GetIntegratedLUFS(), want)
		}
		r.Count(1, int64(secs[0]+secs[1]))
	}
	m := analysis.NewLUFSMeter(48000, 2)
	x := mat64(960, 0)
	if a := testing.AllocsPerRun(200, func() { m.Process(x); m.GetMomentaryLUFS(); m.GetShortTermLUFS(); m.GetIntegratedLUFS() }); a != 0 {
		r.Failf("allocation", "the loudness meter allocates %v times per block", a)
	}
}

func sets2(all int) [][2]int {
	o := [][2]int{{1, 0}, {2, 0}, {2, 1}, {3, 2}, {5, 0}, {5, 2}, {5, 3}, {5, 4}, {6, 0}, {6, 2}, {6, 3}, {6, 4}, {6, 5}, {4, 2}, {4, 3}, {7, 3}, {7, 4}, {7, 6}, {8, 3}, {8, 5}, {8, 6}, {8, 7}}
	if all == 0 {
		return o[1:]
	}
	return o
}
