package seq

import (
	"fmt"
	"math"
	"math/cmplx"
	"sort"
	"testing"

	"github.com/justyntemme/vst3go/pkg/dsp/analysis"
	"github.com/justyntemme/vst3go/verifmc/core"
)

func init() {
	core.Register("P58", p58)
	core.Register("P59", p59)
	core.Register("P60", p60)
	core.Register("P61", p61)
	core.Register("P62", p62)
}

// ---- P58: Fourier transform ----

var winNames = []string{"rectangular", "Hann", "Hamming", "Blackman", "Blackman-Harris", "Kaiser", "flat top"}

// i0 is the modified Bessel function by its power series.
func i0(x float64) float64 {
	s, t := 1.0, 1.0
	for k := 1.0; k < 200; k++ {
		t *= (x / 2 / k) * (x / 2 / k)
		s += t
	}
	return s
}

// window is the textbook symmetric window of n points.
func window(kind, n int) []float64 {
	coef := [][]float64{{1}, {0.5, 0.5}, {0.54, 0.46}, {0.42, 0.5, 0.08}, {0.35875, 0.48829, 0.14128, 0.01168}, nil,
		{0.21557895, 0.41663158, 0.277263158, 0.083578947, 0.006947368}}[kind]
	w := make([]float64, n)
	for i := range w {
		switch {
		case n == 1:
			w[i] = 1
		case coef == nil:
			x := 2*float64(i)/float64(n-1) - 1
			w[i] = i0(8.6*math.Sqrt(math.Max(0, 1-x*x))) / i0(8.6)
		default:
			sign := 1.0
			for k, a := range coef {
				w[i] += sign * a * math.Cos(2*math.Pi*float64(k*i)/float64(n-1))
				sign = -sign
			}
			if kind == 3 || kind == 6 {
				w[i] = math.Max(0, w[i])
			}
		}
	}
	return w
}

// dft is the discrete Fourier transform by its definition.
func dft(x []complex128) []complex128 {
	n := len(x)
	y := make([]complex128, n)
	for k := range y {
		for i, v := range x {
			if v != 0 {
				y[k] += v * cmplx.Rect(1, -2*math.Pi*float64(k*i%n)/float64(n))
			}
		}
	}
	return y
}

type fftm struct {
	n, phase int
	win      []float64
	mag      []float64
}

func (m *fftm) spectrum(x []complex128) []complex128 {
	y := make([]complex128, m.n)
	for i := 0; i < m.n && i < len(x); i++ {
		y[i] = x[i] * complex(m.win[i], 0)
	}
	return dft(y)
}

func cplx(a, b []float64) []complex128 {
	o := make([]complex128, len(a))
	for i := range o {
		o[i] = complex(a[i], b[i])
	}
	return o
}

func flat(c []complex128) []float64 {
	var o []float64
	for _, x := range c {
		o = append(o, real(x), imag(x))
	}
	return o
}

func polar(mag, ph []float64) []float64 {
	var o []float64
	for i := range mag {
		c := cmplx.Rect(mag[i], ph[i])
		o = append(o, real(c), imag(c))
	}
	return o
}

type ffti struct {
	*analysis.FFT
	phase int
}

func todb120(x float64) float64 {
	if x <= 1e-6 {
		return -120
	}
	return 20 * math.Log10(x)
}

func p58(r *core.Run) {
	if !r.Shard0() {
		return
	}
	maxN := r.Pick(64, 256)
	sizes := []int{}
	for n := 1; n <= maxN; n *= 2 {
		sizes = append(sizes, n)
	}
	// the transform is linear: every unit impulse, real and imaginary, decides
	// it for every input; every window
	type cfg struct{ n, win int }
	var cs []cfg
	for _, n := range sizes {
		for w := range winNames {
			cs = append(cs, cfg{n, w})
		}
	}
	r.Each(len(cs), func(i int) string { return fmt.Sprint("FFT of ", cs[i].n, " points, window ", winNames[cs[i].win]) }, func(i int, w *core.Worker) {
		c := cs[i]
		f := analysis.NewFFT(c.n, analysis.WindowFunc(c.win))
		m := &fftm{n: c.n, win: window(c.win, c.n)}
		name := fmt.Sprintf("FFT of %d points, %s window", c.n, winNames[c.win])
		tol := 1e-12 * float64(c.n) * 4
		if c.win == 5 {
			tol += 1e-6 // the Bessel function is a polynomial fit
		}
		for p := 0; p < c.n; p++ {
			x, ix := make([]float64, c.n), make([]complex128, c.n)
			x[p], ix[p] = 1, 1i
			want := m.spectrum(cplx(x, make([]float64, c.n)))
			got := polar(f.Forward(x))
			exp := flat(want[:c.n/2+1])
			for k := range exp {
				if math.Abs(got[k]-exp[k]) > tol || got[k] != got[k] {
					r.Failf("transform", "%s: Forward of the impulse at %d: component %d is %v, the transform's is %v", name, p, k, got[k], exp[k])
					return
				}
			}
			db := f.GetMagnitudeDB()
			for k := range db {
				if d := todb120(cmplx.Abs(want[k])); cmplx.Abs(want[k]) > 1e-4 && math.Abs(db[k]-d) > 0.01 || db[k] < -120 {
					r.Failf("decibels", "%s: impulse at %d: bin %d has %v dB, want %v", name, p, k, db[k], d)
					return
				}
			}
			for _, in := range [][]complex128{cplx(x, make([]float64, c.n)), ix} {
				got := flat(f.ForwardComplex(in))
				exp := flat(m.spectrum(in))
				for k := range exp {
					if math.Abs(got[k]-exp[k]) > tol || got[k] != got[k] {
						r.Failf("complex transform", "%s: ForwardComplex of the impulse %v at %d: component %d is %v, the transform's is %v", name, in[p], p, k, got[k], exp[k])
						return
					}
				}
				// the inverse of a spectrum is its sequence (the real part)
				y := dft(in)
				back := f.Inverse(reals(y), imags(y))
				for k := range back {
					if math.Abs(back[k]-real(in[k])) > 1e-12*float64(c.n)*4 {
						r.Failf("inverse", "%s: the inverse of the spectrum of the impulse %v at %d has %v at %d", name, in[p], p, back[k], k)
						return
					}
				}
			}
			r.Count(4, 4)
			r.Nontrivial(1)
			r.Trace(3)
		}
	})
	r.Bound("largest_transform", maxN)

	// no transform depends on the ones before: every history, with inputs
	// shorter and longer than the transform
	type op = nop[*ffti, *fftm]
	var ops []op
	for _, l := range []int{0, 3, 8, 11} {
		l := l
		ops = append(ops, op{fmt.Sprintf("Forward(%d samples)", l), func(i *ffti) []float64 {
			i.phase++
			return polar(i.Forward(mat64(l, i.phase)))
		}, func(m *fftm) []float64 {
			m.phase++
			s := m.spectrum(cplx(mat64(l, m.phase), make([]float64, l)))
			return flat(s[:m.n/2+1])
		}}, op{fmt.Sprintf("ForwardComplex(%d)", l), func(i *ffti) []float64 {
			i.phase++
			return flat(i.ForwardComplex(cplx(mat64(l, i.phase), mat64(l, i.phase+3))))
		}, func(m *fftm) []float64 {
			m.phase++
			return flat(m.spectrum(cplx(mat64(l, m.phase), mat64(l, m.phase+3))))
		}})
	}
	for _, l := range [][2]int{{8, 8}, {3, 8}, {8, 2}, {0, 0}} {
		l := l
		ops = append(ops, op{fmt.Sprintf("Inverse(%d, %d)", l[0], l[1]), func(i *ffti) []float64 {
			i.phase++
			return i.Inverse(mat64(l[0], i.phase), mat64(l[1], i.phase+3))
		}, func(m *fftm) []float64 {
			m.phase++
			a, b := make([]float64, m.n), make([]float64, m.n)
			copy(a, mat64(l[0], m.phase))
			copy(b, mat64(l[1], m.phase+3))
			x := cplx(a, b)
			for i := range x {
				x[i] = cmplx.Conj(x[i])
			}
			o := reals(dft(x))
			for i := range o {
				o[i] /= float64(m.n)
			}
			return o
		}})
	}
	for _, win := range []int{0, 1, 3} {
		win := win
		h := &nhist[*ffti, *fftm]{"FFT history with window " + winNames[win], func() *ffti { return &ffti{analysis.NewFFT(8, analysis.WindowFunc(win)), 0} },
			func() *fftm { return &fftm{n: 8, win: window(win, 8)} }, ops, 1e-11, nil}
		h.run(r, r.Pick(3, 4))
	}

	// every small sequence, and every pair of them correlated
	for n := 1; n <= r.Pick(4, 5); n++ {
		seqs := tuples(3, n)
		r.Each(len(seqs)*len(seqs), func(i int) string { return fmt.Sprint("cross-correlation ", n, " ", i) }, func(i int, w *core.Worker) {
			a, b := make([]float64, n), make([]float64, n)
			for k := range a {
				a[k] = float64(seqs[i%len(seqs)][k] - 1)
				b[k] = float64(seqs[i/len(seqs)][k] - 1)
			}
			if e := correlated(a, b); e != "" {
				r.Failf("cross-correlation", "%v against %v: %s", a, b, e)
			}
			r.Count(1, 1)
			r.Nontrivial(1)
			r.Trace(1)
		})
		r.Bound("correlated_length", n)
	}
	lens := r.Pick(33, 80)
	r.Each(lens, func(i int) string { return fmt.Sprint("cross-correlation of length ", i+1) }, func(i int, w *core.Worker) {
		n := i + 1
		for p := 0; p < n; p++ {
			for q := 0; q < n; q++ {
				a, b := make([]float64, n), make([]float64, n)
				a[p], b[q] = 1, 2
				if e := correlated(a, b); e != "" {
					r.Failf("cross-correlation", "impulses at %d and %d of %d: %s", p, q, n, e)
					return
				}
				r.Count(1, 1)
				r.Nontrivial(1)
			}
		}
		if e := correlated(mat64(n, 1), mat64(n, 7)); e != "" {
			r.Failf("cross-correlation", "length %d: %s", n, e)
		}
		// helpers
		x := mat64(n, 3)
		y := analysis.ApplyHannWindow(x)
		pw := analysis.PowerSpectrum(x)
		h := window(1, n)
		for k := range x {
			if math.Abs(y[k]-x[k]*h[k]) > 1e-12 || y[k] != y[k] {
				r.Failf("ApplyHannWindow", "length %d: sample %d is %v, want %v", n, k, y[k], x[k]*h[k])
				return
			}
			if pw[k] != x[k]*x[k] {
				r.Failf("PowerSpectrum", "%v gives %v", x[k], pw[k])
				return
			}
		}
	})
	for _, c := range []struct {
		n, b int
		sr   float64
	}{{256, 3, 48000}, {1024, 512, 44100}, {2, 1, 96000}} {
		f := analysis.NewFFT(c.n, 0)
		if got, want := f.GetFrequencyBin(c.b, c.sr), float64(c.b)*c.sr/float64(c.n); math.Abs(got-want) > 1e-9 {
			r.Failf("GetFrequencyBin", "bin %d of %d at %v is %v Hz", c.b, c.n, c.sr, got)
		}
	}
}

func reals(c []complex128) []float64 {
	o := make([]float64, len(c))
	for i := range c {
		o[i] = real(c[i])
	}
	return o
}

func imags(c []complex128) []float64 {
	o := make([]float64, len(c))
	for i := range c {
		o[i] = imag(c[i])
	}
	return o
}

// correlated compares CrossCorrelation with its definition: the value at lag
// k (index len-1+k) is the sum of a[i]*b[i+k].
func correlated(a, b []float64) string {
	n := len(a)
	got := analysis.CrossCorrelation(a, b)
	if len(got) != 2*n-1 {
		return fmt.Sprint(len(got), " lags")
	}
	for k := -(n - 1); k < n; k++ {
		want := 0.0
		for i := range a {
			if i+k >= 0 && i+k < n {
				want += a[i] * b[i+k]
			}
		}
		if g := got[n-1+k]; !(math.Abs(g-want) < 1e-9*float64(n)) {
			return fmt.Sprintf("lag %d is %v, want %v", k, g, want)
		}
	}
	return ""
}

// ---- P59: spectrum analyzer ----

type sai struct {
	*analysis.SpectrumAnalyzer
	pos int
}

type sam struct {
	n      int
	sr     float64
	win    []float64
	pos    int // input position
	in     []float64
	hop    int
	avg    int
	size   int
	hist   [][]float64
	smooth float64
	lo, hi float64
	out    []float64
}

func (m *sam) reset() {
	m.in = nil
	m.hist = nil
	m.out = make([]float64, m.n/2+1)
}

func (m *sam) process(x []float64) float64 {
	ready := 0.0
	for _, s := range x {
		m.in = append(m.in, s)
		if len(m.in) < m.n {
			continue
		}
		c := make([]complex128, m.n)
		for i := range c {
			c[i] = complex(m.in[i]*m.win[i], 0)
		}
		m.in = append([]float64{}, m.in[m.hop:]...)
		ready = 1
		mag := make([]float64, m.n/2+1)
		for i, v := range dft(c)[:m.n/2+1] {
			mag[i] = cmplx.Abs(v)
		}
		switch m.avg {
		case 0:
			m.out = mag
		case 1:
			for i := range mag {
				m.out[i] = m.out[i]*m.smooth + mag[i]*(1-m.smooth)
			}
		case 2:
			m.hist = append(m.hist, mag)
			if len(m.hist) > m.size {
				m.hist = m.hist[1:]
			}
			m.out = make([]float64, len(mag))
			for _, h := range m.hist {
				for i := range h {
					m.out[i] += h[i] / float64(len(m.hist))
				}
			}
		case 3:
			o := append([]float64{}, m.out...)
			for i := range o {
				o[i] = math.Max(o[i], mag[i])
			}
			m.out = o
		}
	}
	return ready
}

func (m *sam) bins() (int, int) { // first bin of the range and one past the last
	bw := m.sr / float64(m.n)
	a, b := int(m.lo/bw), int(m.hi/bw)+1
	if b > m.n/2+1 {
		b = m.n/2 + 1
	}
	return a, b
}

// observe is everything a spectrum analyzer answers; peak frequencies are
// compared only where a single bin is highest.
func (i *sai) observe(octaves []float64) []float64 {
	o := append([]float64{}, i.GetSpectrum()...)
	in := i.GetSpectrumInRange()
	o = append(append(o, float64(len(in))), in...)
	for _, d := range append(i.GetSpectrumDB(), i.GetSpectrumDBInRange()...) {
		o = append(o, math.Pow(10, math.Max(d, -60)/20))
		if d < -120 {
			o = append(o, math.NaN())
		}
	}
	o = append(o, i.GetOctaveBands(octaves)...)
	o = append(o, i.GetBandEnergy(700, 2500), i.GetBandEnergy(-5, 1e9), i.GetBandEnergy(3000, 100))
	_, mag := i.GetPeakFrequency()
	return append(o, mag)
}

func (m *sam) observe(octaves []float64) []float64 {
	o := append([]float64{}, m.out...)
	a, b := m.bins()
	var in []float64
	if a < b {
		in = m.out[a:b]
	}
	o = append(append(o, float64(len(in))), in...)
	for _, d := range append(append([]float64{}, m.out...), in...) {
		o = append(o, math.Max(d, 1e-3))
	}
	bin := func(f float64) int { return int(f * float64(m.n) / m.sr) }
	for _, f := range octaves {
		e, c := 0.0, 0
		for k := bin(f / math.Sqrt2); k <= bin(f*math.Sqrt2) && k < len(m.out); k++ {
			e += m.out[k] * m.out[k]
			c++
		}
		if c > 0 {
			e = math.Sqrt(e / float64(c))
		}
		o = append(o, e)
	}
	band := func(lo, hi int) float64 {
		e := 0.0
		for k := max(lo, 0); k <= hi && k < len(m.out); k++ {
			e += m.out[k] * m.out[k]
		}
		return e
	}
	o = append(o, band(bin(700), bin(2500)), band(0, m.n), band(bin(3000), bin(100)))
	peak := 0.0
	for _, x := range in {
		peak = math.Max(peak, x)
	}
	return append(o, peak)
}

func p59(r *core.Run) {
	if !r.Shard0() {
		return
	}
	const sr = 8000
	oct := []float64{300, 1000, 2000, 5000, 20000}
	type op = nop[*sai, *sam]
	proc := func(n int) op {
		return op{fmt.Sprintf("Process(%d)", n), func(i *sai) []float64 {
			x := mat64(n, i.pos)
			i.pos += n
			return append([]float64{b2f(i.Process(x))}, i.observe(oct)...)
		}, func(m *sam) []float64 {
			x := mat64(n, m.pos)
			m.pos += n
			return append([]float64{m.process(x)}, m.observe(oct)...)
		}}
	}
	faint := op{"Process(8, faint)", func(i *sai) []float64 {
		x := mat64(8, i.pos)
		i.pos += 8
		for k := range x {
			x[k] *= 3e-7
		}
		return append([]float64{b2f(i.Process(x))}, i.observe(oct)...)
	}, func(m *sam) []float64 {
		x := mat64(8, m.pos)
		m.pos += 8
		for k := range x {
			x[k] *= 3e-7
		}
		return append([]float64{m.process(x)}, m.observe(oct)...)
	}}
	ops := []op{proc(0), proc(1), proc(3), proc(8), proc(21), proc(90), faint}
	for _, h := range []int{1, 3, 8, 0, 9} {
		h := h
		ops = append(ops, sets(fmt.Sprintf("SetHopSize(%d)", h), func(i *sai) { i.SetHopSize(h) }, func(m *sam) {
			if h > 0 && h <= m.n {
				m.hop = h
			}
		}))
	}
	for _, a := range [][2]int{{0, 0}, {1, 0}, {2, 1}, {2, 3}, {2, 12}, {3, 0}} {
		a := a
		ops = append(ops, sets(fmt.Sprintf("SetAveraging(%d, %d)", a[0], a[1]), func(i *sai) { i.SetAveraging(analysis.AveragingMode(a[0]), a[1]) }, func(m *sam) {
			m.avg = a[0]
			if a[1] > 0 {
				m.size, m.hist = a[1], nil
			}
		}))
	}
	for _, s := range []float64{0, 0.5, 1.5} {
		s := s
		ops = append(ops, sets(fmt.Sprintf("SetSmoothing(%v)", s), func(i *sai) { i.SetSmoothing(s) }, func(m *sam) {
			if s >= 0 && s <= 1 {
				m.smooth = s
			}
		}))
	}
	for _, f := range [][2]float64{{0, 4000}, {900, 2100}, {-3, 1e6}, {3000, 1000}, {5000, 6000}} {
		f := f
		ops = append(ops, op{fmt.Sprintf("SetFrequencyRange%v", f), func(i *sai) []float64 { i.SetFrequencyRange(f[0], f[1]); return i.observe(oct) }, func(m *sam) []float64 {
			m.lo, m.hi = math.Max(0, f[0]), math.Min(sr/2, f[1])
			return m.observe(oct)
		}})
	}
	ops = append(ops, op{"Reset", func(i *sai) []float64 { i.SpectrumAnalyzer.Reset(); return i.observe(oct) }, func(m *sam) []float64 { m.reset(); return m.observe(oct) }})
	h := &nhist[*sai, *sam]{"spectrum", func() *sai { return &sai{analysis.NewSpectrumAnalyzer(8, sr, analysis.HannWindow), 0} }, func() *sam {
		m := &sam{n: 8, sr: sr, win: window(1, 8), hop: 4, smooth: 0.9, lo: 20, hi: sr / 2}
		m.reset()
		return m
	}, ops, 1e-9, nil}
	h.run(r, r.Pick(4, 5))

	// a tone centred on any bin, the first and last too, is found at its
	// frequency and its level, whatever the window and sample rate
	rates := []float64{8000, 44100, 48000, 96000}
	const n = 64
	r.Each(len(rates)*len(winNames)*(n/2+1), func(i int) string { return fmt.Sprint("tone ", i) }, func(i int, w *core.Worker) {
		rate, win, bin := rates[i%len(rates)], i/len(rates)%len(winNames), i/len(rates)/len(winNames)
		s := analysis.NewSpectrumAnalyzer(n, rate, analysis.WindowFunc(win))
		s.SetFrequencyRange(0, rate)
		x := make([]float64, n)
		for k := range x {
			x[k] = math.Cos(2 * math.Pi * float64(bin*k%n) / n)
		}
		s.Process(x)
		f, mag := s.GetPeakFrequency()
		slack := 0.01
		if bin > 0 && bin <= 5 || bin < n/2 && bin >= n/2-5 {
			slack = 5 // the lobes of wide windows meet their mirror images
		}
		if want := float64(bin) * rate / n; math.Abs(f-want) > slack*rate/n {
			r.Failf("peak", "a tone of %v Hz (bin %d of %d at %v Hz, %s window) peaks at %v Hz", want, bin, n, rate, winNames[win], f)
			return
		}
		if b := s.GetBinForFrequency(s.GetFrequencyForBin(bin)); b != bin {
			r.Failf("bins", "bin %d of %d at %v Hz has frequency %v, which is in bin %d", bin, n, rate, s.GetFrequencyForBin(bin), b)
			return
		}
		sum := 0.0
		for _, v := range window(win, n) {
			sum += v
		}
		want := sum / 2
		if bin == 0 || bin == n/2 {
			want = sum
		}
		if bin > 5 && bin < n/2-5 && math.Abs(mag-want) > 0.02*want {
			r.Failf("level", "a unit tone in bin %d, %s window: magnitude %v, want %v", bin, winNames[win], mag, want)
		}
		r.Count(1, 1)
		r.Nontrivial(1)
		r.Trace(1)
	})

	for _, o := range []struct {
		name  string
		f     []float64
		ratio float64
		tol   float64
	}{{"octave", analysis.StandardOctaveBands(), 2, 0.02}, {"third octave", analysis.StandardThirdOctaveBands(), math.Cbrt(2), 1e-9}} {
		if !sort.Float64sAreSorted(o.f) || o.f[0] < 20 || o.f[len(o.f)-1] > 20000 || o.f[0]/o.ratio >= 20*o.ratio || o.f[len(o.f)-1]*o.ratio < 20000 {
			r.Failf("bands", "%s bands %v", o.name, o.f)
		}
		for k := 1; k < len(o.f); k++ {
			if q := o.f[k] / o.f[k-1]; math.Abs(q-o.ratio) > o.tol*o.ratio {
				r.Failf("bands", "%s bands %v and %v", o.name, o.f[k-1], o.f[k])
			}
		}
	}
	s := analysis.NewSpectrumAnalyzer(64, 48000, analysis.HannWindow)
	x := mat64(100, 0)
	s.SetAveraging(analysis.LinearAveraging, 4)
	if a := testing.AllocsPerRun(100, func() { s.Process(x) }); a != 0 {
		r.Failf("allocation", "SpectrumAnalyzer.Process allocates %v times", a)
	}
}
