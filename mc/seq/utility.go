package seq

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"unsafe"

	"github.com/justyntemme/vst3go/pkg/dsp/utility"
	"github.com/justyntemme/vst3go/verifmc/core"
)

func init() {
	core.Register("P45", p45)
	core.Register("P46", p46)
}

// ---- P45: noise ----

var noiseNames = []string{"white", "pink", "brown", "blue", "violet"}

func p45(r *core.Run) {
	if !r.Shard0() {
		return
	}
	// equal seeds give equal noise, whatever the two generators did before:
	// every pair of histories before the seed
	type op struct {
		name string
		do   func(*utility.NoiseGenerator) []float32
	}
	ops := []op{}
	for t := 0; t < 5; t++ {
		t := t
		ops = append(ops, op{"SetType(" + noiseNames[t] + ")", func(g *utility.NoiseGenerator) []float32 { g.SetType(utility.NoiseType(t)); return nil }})
	}
	ops = append(ops,
		op{"Next", func(g *utility.NoiseGenerator) []float32 { return []float32{g.Next()} }},
		op{"Generate(3)", func(g *utility.NoiseGenerator) []float32 { b := make([]float32, 3); g.Generate(b); return b }},
		op{"GenerateAdd(5)", func(g *utility.NoiseGenerator) []float32 { b := make([]float32, 5); g.GenerateAdd(b, 2); return b }},
		op{"SetSeed(7)", func(g *utility.NoiseGenerator) []float32 { g.SetSeed(7); return nil }},
		op{"Reset", func(g *utility.NoiseGenerator) []float32 { g.Reset(); return nil }})
	k := len(ops)
	pre := r.Pick(2, 3)
	n := 1
	for i := 0; i < pre; i++ {
		n *= k
	}
	r.Each(n, func(i int) string { return fmt.Sprint("noise history ", i) }, func(i int, w *core.Worker) {
		var names string
		mk := func(t0 int) *utility.NoiseGenerator {
			g := utility.NewNoiseGenerator(utility.NoiseType(t0))
			names = noiseNames[t0]
			for x, c := i, 0; c < pre; c++ {
				ops[x%k].do(g)
				names += "; " + ops[x%k].name
				x /= k
			}
			return g
		}
		for t0 := 0; t0 < 5; t0++ {
			for seed := int64(-1); seed <= 2; seed++ {
				for post := 0; post < k*k; post++ {
					a := mk(t0)
					b := utility.NewNoiseGenerator(utility.WhiteNoise)
					a.SetType(utility.PinkNoise)
					b.SetType(utility.PinkNoise)
					a.SetSeed(seed)
					b.SetSeed(seed)
					for _, o := range []op{ops[post%k], ops[post/k]} {
						o.do(a)
						o.do(b)
					}
					for t := 0; t < 5; t++ {
						a.SetType(utility.NoiseType(t))
						b.SetType(utility.NoiseType(t))
						for s := 0; s < 20; s++ {
							x, y := a.Next(), b.Next()
							if x != y && !r.Failed("seed") {
								r.Failf("seed", "%s; SetSeed(%d); %s; %s: %s sample %d is %v, a fresh generator with the same seed gives %v", names, seed, ops[post%k].name, ops[post/k].name, noiseNames[t], s, x, y)
							}
						}
					}
					r.Count(1, 100)
					r.Nontrivial(1)
				}
			}
		}
	})
	r.Bound("histories_before_seed", n)
	// the kinds of noise are what they are called: blue and violet are the
	// first and second difference of the white noise of the same seed, brown
	// is its leaky integral
	N := r.Pick(4096, 20000)
	r.Each(r.Pick(64, 1024), func(i int) string { return fmt.Sprint("seed ", i) }, func(seed int, w *core.Worker) {
		gen := func(t int) []float64 {
			g := utility.NewNoiseGenerator(utility.NoiseType(t))
			g.SetSeed(int64(seed))
			if seed%2 == 1 {
				g.Reset()
			}
			b := make([]float32, N)
			// single samples, buffers and added buffers alike
			for i := 0; i < 50; i++ {
				b[i] = g.Next()
			}
			g.Generate(b[50:500])
			g.GenerateAdd(b[500:], 1)
			for i, x := range b {
				if !(x >= -1 && x <= 1) {
					r.Failf("range", "%s noise, seed %d: sample %d is %v", noiseNames[t], seed, i, x)
					break
				}
			}
			return f64s(b)
		}
		gen(1)
		wh, br, bl, vi := gen(0), gen(2), gen(3), gen(4)
		var y, p1, b1 float64
		for i := range wh {
			y = math.Max(-1, math.Min(1, (y+wh[i]*0.0625)*0.997))
			blue := (wh[i] - p1) * 0.5
			p1 = wh[i]
			vio := (blue - b1) * 0.25
			b1 = blue
			for _, c := range []struct {
				n    string
				g, w float64
			}{{"brown", br[i], y}, {"blue", bl[i], blue}, {"violet", vi[i], vio}} {
				if !core.Close(c.g, c.w, 1e-4) && !r.Failed("colour:"+c.n) {
					r.Failf("colour:"+c.n, "%s noise, seed %d: sample %d is %v, from the white noise of that seed %v", c.n, seed, i, c.g, c.w)
				}
			}
		}
		r.Count(5, int64(5*N))
		r.Nontrivial(1)
		r.Trace(3)
	})
	r.Bound("seeds", r.Pick(64, 1024))
	p45spectrum(r)
	p45source(r)
}

// p45spectrum checks second-order statistics over a fixed, enumerated set of
// seeds: the numbers are deterministic, the tolerances wide.
func p45spectrum(r *core.Run) {
	seeds := r.Pick(4000, 20000)
	lags := []int{1, 2, 4, 16, 64, 256, 1024}
	if r.Thorough {
		lags = append(lags, 4096)
	}
	L := lags[len(lags)-1] + 1
	starts := []int{0, 37}
	parts := make([][]float64, 64)
	r.Each(64, func(i int) string { return fmt.Sprint("spectrum part ", i) }, func(part int, w *core.Worker) {
		out := make([]float64, 0)
		for _, st := range starts {
			sum := make([]float64, 2*len(lags)+2)
			for s := part; s < seeds; s += 64 {
				g := utility.NewNoiseGenerator(utility.PinkNoise)
				g.SetSeed(int64(s))
				b := make([]float32, st+L)
				g.Generate(b)
				x := float64(b[st])
				sum[0] += x
				sum[1] += x * x
				for k, l := range lags {
					sum[2+2*k] += float64(b[st+l])
					sum[3+2*k] += x * float64(b[st+l])
				}
			}
			out = append(out, sum...)
		}
		parts[part] = out
		r.Count(int64(seeds/64), int64(seeds/64*L))
	})
	for si, st := range starts {
		per := 2*len(lags) + 2
		sum := make([]float64, per)
		for _, p := range parts {
			if len(p) == 0 {
				return // budget used up
			}
			for k := range sum {
				sum[k] += p[si*per+k] / float64(seeds)
			}
		}
		// 16 rows and one white value, each uniform in -1..1, scaled by 1/20:
		// after a lag of 2^k samples k+1 rows have changed, so that every
		// octave carries the same energy
		vr := 1.0 / 3 / 400
		tol := 6 * 17 * vr / math.Sqrt(float64(seeds))
		if mtol := 6 * math.Sqrt(17*vr/float64(seeds)); math.Abs(sum[0]) > mtol {
			r.Failf("pink", "mean over %d seeds at sample %d is %v", seeds, st, sum[0])
		}
		if math.Abs(sum[1]-17*vr) > tol*1.5 {
			r.Failf("pink", "variance over %d seeds at sample %d is %v, want %v", seeds, st, sum[1], 17*vr)
		}
		for k, l := range lags {
			changed := 0
			for row := 0; row < 16; row++ {
				// row changes at samples whose number (from 1) has exactly row trailing zeros
				p := 1 << (row + 1)
				cnt := func(n int) int { return (n + p/2) / p }
				if cnt(st+1+l) != cnt(st+1) {
					changed++
				}
			}
			want := float64(16-changed) * vr
			if math.Abs(sum[3+2*k]-want) > tol {
				r.Failf("pink", "correlation over %d seeds between samples %d and %d is %v, want %v", seeds, st, st+l, sum[3+2*k], want)
			}
		}
		r.Nontrivial(int64(len(lags)))
	}
	r.Bound("pink_seeds", seeds)
	p45long(r)
}

// p45long follows pink noise past the period of its slowest row: every octave
// up to there loses correlation, and it never stops.
func p45long(r *core.Run) {
	const st, seeds = 29, 24000
	lags := []int{2048, 8192, 20000, 40000, 66000, 70000}
	parts := make([][]float64, 64)
	r.Each(64, func(i int) string { return fmt.Sprint("long pink part ", i) }, func(part int, w *core.Worker) {
		sum := make([]float64, len(lags))
		b := make([]float32, st+lags[len(lags)-1]+1)
		for s := part; s < seeds; s += 64 {
			g := utility.NewNoiseGenerator(utility.PinkNoise)
			g.SetSeed(int64(s))
			g.Generate(b)
			for k, l := range lags {
				sum[k] += float64(b[st]) * float64(b[st+l])
			}
		}
		parts[part] = sum
		r.Count(seeds/64, int64(seeds/64*len(b)))
	})
	vr := 1.0 / 3 / 400
	for k, l := range lags {
		c := 0.0
		for _, p := range parts {
			if len(p) == 0 {
				return // budget used up
			}
			c += p[k] / seeds
		}
		left := 0
		for row := 0; row < 16; row++ {
			if p := 1 << (row + 1); (st+1+l+p/2)/p == (st+1+p/2)/p {
				left++
			}
		}
		// six standard deviations of the mean of that many products
		if math.Abs(c-float64(left)*vr) > 6*17*vr/math.Sqrt(seeds) {
			r.Failf("pink", "correlation over %d seeds between samples %d and %d is %v, want %v", seeds, st, st+l, c, float64(left)*vr)
		}
	}
	r.Nontrivial(int64(len(lags)))
}

// fixed is a random source that repeats the given values.
type fixed struct {
	v []int64
	i int
}

func (f *fixed) Int63() int64 { f.i++; return f.v[(f.i-1)%len(f.v)] }
func (f *fixed) Seed(int64)   {}

// setSource makes every *rand.Rand inside *p draw from src.
func setSource(p interface{}, src rand.Source) bool {
	v := reflect.ValueOf(p).Elem()
	ok := false
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == reflect.TypeOf((*rand.Rand)(nil)) {
			*(**rand.Rand)(unsafe.Pointer(v.Field(i).UnsafeAddr())) = rand.New(src)
			ok = true
		}
	}
	return ok
}

// p45source drives the generators with every short sequence of extreme values
// of the random source.
func p45source(r *core.Run) {
	ext := []int64{0, 1, 1 << 62, 1<<62 - 1, 1<<63 - 1<<11, 1 << 40}
	for n := 1; n <= r.Pick(4, 6); n++ {
		core.Tuples(n, len(ext), func(v []int) bool {
			var vals []int64
			for _, k := range v {
				vals = append(vals, ext[k])
			}
			ga := utility.NewGaussianNoise()
			if setSource(ga, &fixed{v: vals}) {
				for i := 0; i < 2*n+2; i++ {
					if x := float64(ga.Next()); math.IsNaN(x) || math.IsInf(x, 0) {
						r.Failf("gaussian", "source %v: sample %d is %v", vals, i, x)
						return !r.Failed("gaussian")
					}
				}
				r.Nontrivial(1)
			}
			for t := 0; t < 5; t++ {
				g := utility.NewNoiseGenerator(utility.NoiseType(t))
				if setSource(g, &fixed{v: vals}) {
					g.Reset()
					for i := 0; i < 40; i++ {
						if x := g.Next(); !(x >= -1 && x <= 1) {
							r.Failf("range", "%s noise, source %v: sample %d is %v", noiseNames[t], vals, i, x)
							return !r.Failed("range")
						}
					}
				}
			}
			r.Count(6, 200)
			return true
		})
	}
	// Gaussian noise: moments over an enumerated set of global seeds
	var m1, m2, m4, c1 float64
	N := r.Pick(200000, 2000000)
	ga := utility.NewGaussianNoise()
	b := make([]float32, N)
	if !setSource(ga, rand.NewSource(1)) {
		rand.Seed(1)
		ga = utility.NewGaussianNoise()
	}
	ga.Generate(b)
	prev := 0.0
	for _, x32 := range b {
		x := float64(x32) / 0.3
		m1 += x
		m2 += x * x
		m4 += x * x * x * x
		c1 += x * prev
		prev = x
	}
	f := float64(N)
	if math.Abs(m1/f) > 6/math.Sqrt(f) || math.Abs(m2/f-1) > 9/math.Sqrt(f) || math.Abs(m4/f-3) > 60/math.Sqrt(f) || math.Abs(c1/f) > 6/math.Sqrt(f) {
		r.Failf("gaussian", "moments of %d samples: mean %v, variance %v, fourth %v, successive %v (want 0, 1, 3, 0)", N, m1/f, m2/f, m4/f, c1/f)
	}
	w := make([]float32, 1000)
	utility.WhiteNoiseBuffer(w)
	distinct := map[float32]bool{}
	for _, x := range append(w, utility.WhiteNoiseSample()) {
		if !(x >= -1 && x <= 1) {
			r.Failf("range", "white sample %v", x)
		}
		distinct[x] = true
	}
	if len(distinct) < 900 {
		r.Failf("range", "only %d distinct white samples of 1001", len(distinct))
	}
	// generators are independent of each other: two fresh ones differ
	g1, g2 := utility.NewNoiseGenerator(utility.WhiteNoise), utility.NewNoiseGenerator(utility.WhiteNoise)
	same := 0
	for i := 0; i < 100; i++ {
		if g1.Next() == g2.Next() {
			same++
		}
	}
	if same > 10 {
		r.Failf("independent", "two generators gave %d of 100 equal samples", same)
	}
}

// ---- P46: DC blocking and parameter arithmetic ----

type dcm struct {
	ch     int
	x, y   []float64
	r      float64
	simple bool
}

func dcR(fc, sr float64) float64 {
	return math.Max(0.9, math.Min(0.999, float64(float32(1-2*math.Pi*fc/sr))))
}

func (m *dcm) one(x float64, c int) float64 {
	if c >= m.ch {
		return x
	}
	y := x - m.x[c] + m.r*m.y[c]
	m.x[c], m.y[c] = x, y
	return y
}

type dci struct {
	d     *utility.DCBlocker
	phase int
}

type dcModel struct {
	dcm
	phase int
}

func p46(r *core.Run) {
	if !r.Shard0() {
		return
	}
	type op = nop[*dci, *dcModel]
	for ch := 0; ch <= 3; ch++ {
		ch := ch
		var ops []op
		for c := 0; c <= 3; c++ {
			c := c
			ops = append(ops, op{fmt.Sprintf("Process(ch %d)", c), func(i *dci) []float64 {
				i.phase++
				return []float64{float64(i.d.Process(material[i.phase%16], c))}
			}, func(m *dcModel) []float64 {
				m.phase++
				return []float64{m.one(float64(material[m.phase%16]), c)}
			}})
		}
		mono := func(n, c int) op {
			return op{fmt.Sprintf("ProcessBuffer(%d, ch %d)", n, c), func(i *dci) []float64 {
				b := buf(n, i.phase)
				i.phase++
				i.d.ProcessBuffer(b, c)
				if !tailOK(b) {
					panic("wrote past the block")
				}
				return f64s(b)
			}, func(m *dcModel) []float64 {
				b := f64s(buf(n, m.phase))
				m.phase++
				for k := range b {
					b[k] = m.one(b[k], c)
				}
				return b
			}}
		}
		ops = append(ops, mono(0, 0), mono(5, 0), mono(5, 2))
		ops = append(ops, op{"ProcessStereo(4)", func(i *dci) []float64 {
			a, b := buf(4, i.phase), buf(4, i.phase+1)
			i.phase++
			i.d.ProcessStereo(a, b)
			return append(f64s(a), f64s(b)...)
		}, func(m *dcModel) []float64 {
			a, b := f64s(buf(4, m.phase)), f64s(buf(4, m.phase+1))
			m.phase++
			if m.ch >= 2 {
				for k := range a {
					a[k], b[k] = m.one(a[k], 0), m.one(b[k], 1)
				}
			}
			return append(a, b...)
		}})
		for _, n := range []int{0, 1, 4} {
			n := n
			ops = append(ops, op{fmt.Sprintf("ProcessMultiChannel(%d)", n), func(i *dci) []float64 {
				var bs [][]float32
				for c := 0; c < n; c++ {
					bs = append(bs, buf(3+c, i.phase+c))
				}
				i.phase++
				i.d.ProcessMultiChannel(bs)
				var o []float64
				for _, b := range bs {
					o = append(o, f64s(b)...)
				}
				return o
			}, func(m *dcModel) []float64 {
				var o []float64
				for c := 0; c < n; c++ {
					for _, x := range buf(3+c, m.phase+c) {
						o = append(o, m.one(float64(x), c))
					}
				}
				m.phase++
				return o
			}})
		}
		for _, fc := range []float32{5, 40, 5000} {
			fc := fc
			ops = append(ops, op{fmt.Sprintf("SetCutoff(%v)", fc), func(i *dci) []float64 { i.d.SetCutoff(fc, 44100); return nil },
				func(m *dcModel) []float64 { m.r = dcR(float64(fc), 44100); return nil }})
		}
		ops = append(ops, op{"Reset", func(i *dci) []float64 { i.d.Reset(); return nil }, func(m *dcModel) []float64 {
			clear(m.x)
			clear(m.y)
			return nil
		}})
		(&nhist[*dci, *dcModel]{name: fmt.Sprintf("DC blocker %d channels", ch), tol: 1e-4, ops: ops,
			mk: func() *dci { return &dci{d: utility.NewDCBlocker(ch, 20, 48000)} },
			model: func() *dcModel {
				return &dcModel{dcm: dcm{ch: ch, x: make([]float64, ch), y: make([]float64, ch), r: dcR(20, 48000)}}
			},
		}).run(r, r.Pick(4, 5))
	}
	// every cutoff and rate: DC goes, the sound stays
	type dcf struct {
		name   string
		fc, sr float64
		mk     func() func([]float32)
	}
	var all []dcf
	for _, sr := range []float64{8000, 44100, 48000, 96000, 192000} {
		sr := sr
		all = append(all, dcf{"simple", 10, sr, func() func([]float32) { return utility.NewSimpleDCBlocker(sr).ProcessBuffer }})
		for _, fc := range []float64{5, 10, 20, 100} {
			fc := fc
			all = append(all, dcf{"blocker", fc, sr, func() func([]float32) {
				d := utility.NewDCBlocker(1, float32(fc), sr)
				return func(b []float32) { d.ProcessBuffer(b, 0) }
			}}, dcf{"blocker after SetCutoff", fc, sr, func() func([]float32) {
				d := utility.NewDCBlocker(1, 77, 22050)
				d.SetCutoff(float32(fc), sr)
				return func(b []float32) { d.ProcessBuffer(b, 0) }
			}})
		}
	}
	r.Each(len(all), func(i int) string { return fmt.Sprint(all[i].name, all[i].fc, all[i].sr) }, func(i int, w *core.Worker) {
		c := all[i]
		for _, dc := range []float64{1, -0.5, 0.001} {
			for _, f := range []float64{0, 200, 1000, 3000} {
				if f > 0 && f < 8*c.fc {
					continue
				}
				p := c.mk()
				n := int(c.sr * 1.2)
				b := make([]float32, n)
				x := make([]float64, n)
				for k := range b {
					x[k] = 0.5 * math.Sin(2*math.Pi*f*float64(k)/c.sr)
					if f == 0 {
						x[k] = 0
					}
					b[k] = float32(dc + x[k])
				}
				p(b)
				// the last fifth of a second holds whole periods of f
				var mean, e, e0 float64
				s := n - int(c.sr/5)
				for k := s; k < n; k++ {
					mean += float64(b[k])
					e += float64(b[k]) * float64(b[k])
					e0 += x[k] * x[k]
				}
				mean /= float64(n - s)
				if math.Abs(mean) > 2e-3*math.Abs(dc)+1e-4 {
					r.Failf("dc", "%s cutoff %v at %v: %v of DC leaves %v after a second", c.name, c.fc, c.sr, dc, mean)
				}
				if f > 0 {
					g := math.Sqrt(e / e0)
					fe := math.Max(c.fc, 0.001*c.sr/2/math.Pi) // lowest cutoff the design allows
					want := 1 / math.Sqrt(1+fe/f*fe/f)
					if math.Abs(g-want) > 0.02+fe/f*fe/f/2+2*f/c.sr*fe/f {
						r.Failf("dc", "%s cutoff %v at %v: %v Hz passes with gain %v, want about %v", c.name, c.fc, c.sr, f, g, want)
					}
				}
				r.Count(1, int64(n))
				r.Nontrivial(1)
			}
		}
	})
	p46params(r)
	p46smooth(r)
}

func p46params(r *core.Run) {
	ranges := [][2]float64{{0, 1}, {20, 20000}, {-60, 12}, {0.001, 10}, {5, 5}, {1, -1}, {-3, -1}, {100, 1}, {0, 5}}
	N := r.Pick(257, 2049)
	bad := func(f string, a ...interface{}) { r.Failf("parameter", f, a...) }
	for _, g := range ranges {
		lo, hi := g[0], g[1]
		pe, pc := math.NaN(), math.NaN()
		for k := 0; k < N; k++ {
			n := float64(k) / float64(N-1)
			v := utility.ScaleParameter(n, lo, hi)
			if !core.Close(v, lo+n*(hi-lo), 1e-12) {
				bad("ScaleParameter(%v, %v, %v) = %v", n, lo, hi, v)
			}
			e := utility.ScaleParameterExp(n, lo, hi)
			want := lo + n*(hi-lo)
			if lo > 0 && hi > 0 {
				want = math.Exp(math.Log(lo) + n*(math.Log(hi)-math.Log(lo)))
			}
			if !core.Close(e, want, 1e-9) {
				bad("ScaleParameterExp(%v, %v, %v) = %v, want %v", n, lo, hi, e, want)
			}
			back, backe := utility.UnscaleParameter(v, lo, hi), utility.UnscaleParameterExp(e, lo, hi)
			wb := n
			if lo == hi {
				wb = 0
			}
			if !core.Close(back, wb, 1e-9) || !core.Close(backe, wb, 1e-9) {
				bad("%v in %v..%v comes back as %v (linear), %v (exponential)", n, lo, hi, back, backe)
			}
			for _, c := range []float64{0.25, 0.5, 1, 2, 3} {
				if x := utility.ScaleParameterWithCurve(n, lo, hi, c); !core.Close(x, lo+math.Pow(n, c)*(hi-lo), 1e-9) {
					bad("ScaleParameterWithCurve(%v, %v, %v, %v) = %v", n, lo, hi, c, x)
				}
			}
			if k > 0 && ((hi-lo)*(e-pe) < -1e-9 || (hi-lo)*(v-pc) < -1e-9) {
				bad("scaling to %v..%v is not monotonic at %v", lo, hi, n)
			}
			pe, pc = e, v
			if lo <= hi {
				for _, x := range []float64{v, lo - 1, hi + 1, lo, hi, math.Inf(1), math.Inf(-1)} {
					want := math.Max(lo, math.Min(hi, x))
					if utility.ClampParameter(x, lo, hi) != want {
						bad("ClampParameter(%v, %v, %v) = %v", x, lo, hi, utility.ClampParameter(x, lo, hi))
					}
				}
			}
			r.Count(1, 8)
		}
		r.Nontrivial(int64(N))
	}
	for steps := -1; steps <= r.Pick(40, 200); steps++ {
		for k := 0; k < N; k++ {
			x := float64(k) / float64(N-1)
			q := utility.QuantizeParameter(x, steps)
			if steps <= 1 {
				if q != x {
					bad("QuantizeParameter(%v, %d) = %v", x, steps, q)
				}
				continue
			}
			s := q * float64(steps-1)
			if math.Abs(s-math.Round(s)) > 1e-9 || math.Abs(q-x) > 0.5/float64(steps-1)+1e-9 || q < 0 || q > 1+1e-12 {
				bad("QuantizeParameter(%v, %d) = %v is not the nearest of %d steps", x, steps, q, steps)
			}
			if qq := utility.QuantizeParameter(q, steps); !core.Close(q, qq, 1e-12) {
				bad("quantizing %v to %d steps again moves it to %v", q, steps, qq)
			}
			r.Count(1, 2)
		}
	}
	// just off the middle between two steps
	for steps := 2; steps <= r.Pick(60, 400); steps++ {
		for k := 0; k < steps-1; k++ {
			for _, e := range []float64{-1e-8, 1e-8} {
				x := (float64(k) + 0.5 + e) / float64(steps-1)
				want := float64(k) / float64(steps-1)
				if e > 0 {
					want = float64(k+1) / float64(steps-1)
				}
				if q := utility.QuantizeParameter(x, steps); !core.Close(q, want, 1e-9) {
					bad("QuantizeParameter(%v, %d) = %v, the nearest is %v", x, steps, q, want)
				}
			}
		}
	}
	for k := 0; k < N; k++ {
		u := float64(k) / float64(N-1)
		b := utility.UnipolarToBipolar(u)
		if !core.Close(b, 2*u-1, 1e-12) || !core.Close(utility.BipolarToUnipolar(b), u, 1e-12) {
			bad("%v to bipolar is %v and back %v", u, b, utility.BipolarToUnipolar(b))
		}
		for _, s := range []float64{0.02, 0.2, 0.5, 1, 2, 5, 12, 50} {
			x := utility.SkewParameter(u, s)
			if x < 0 || x > 1 || (u == 0) != (x == 0) || u == 1 && x != 1 || s == 1 && x != u || !core.Close(utility.SkewParameter(x, 1/s), u, 1e-9) {
				bad("SkewParameter(%v, %v) = %v, undone %v", u, s, x, utility.SkewParameter(x, 1/s))
			}
		}
	}
}

type smm struct{ cur, tgt, k float64 }

func p46smooth(r *core.Run) {
	for _, c := range [][2]float64{{0.01, 1000}, {0.1, 48000}, {0, 48000}, {0.0001, 1000}} {
		c := c
		type op = nop[*utility.SmoothParameter, *smm]
		var ops []op
		for _, v := range []float64{0, 1, -0.5, 1e-7, 3e-6} {
			v := v
			ops = append(ops, op{fmt.Sprintf("SetTarget(%v)", v), func(s *utility.SmoothParameter) []float64 { s.SetTarget(v); return nil }, func(m *smm) []float64 { m.tgt = v; return nil }},
				op{fmt.Sprintf("SetImmediate(%v)", v), func(s *utility.SmoothParameter) []float64 { s.SetImmediate(v); return nil }, func(m *smm) []float64 { m.cur, m.tgt = v, v; return nil }})
		}
		for _, n := range []int{1, 10, 500} {
			n := n
			ops = append(ops, op{fmt.Sprintf("Process x%d", n), func(s *utility.SmoothParameter) []float64 { return times(n, s.Process) },
				func(m *smm) []float64 {
					// distance to the target shrinks by e over the smoothing time
					return times(n, func() float64 { m.cur = m.tgt + (m.cur-m.tgt)*m.k; return m.cur })
				}})
		}
		k := 0.0
		if c[0] > 0 {
			k = math.Exp(-1 / (c[0] * c[1]))
		}
		(&nhist[*utility.SmoothParameter, *smm]{name: fmt.Sprintf("smoother %vs at %v", c[0], c[1]), tol: 1e-9, ops: ops,
			mk: func() *utility.SmoothParameter { return utility.NewSmoothParameter(c[0], c[1]) }, model: func() *smm { return &smm{k: k} },
			inv: func(s *utility.SmoothParameter, m *smm) string {
				d := math.Abs(m.cur - m.tgt)
				if math.Abs(d-1e-6) > 1e-10 && s.IsSmoothing() != (d > 1e-6) {
					return fmt.Sprintf("IsSmoothing is %v at distance %v", s.IsSmoothing(), d)
				}
				if !core.Close(s.GetCurrent(), m.cur, 1e-9) {
					return fmt.Sprintf("GetCurrent is %v, want %v", s.GetCurrent(), m.cur)
				}
				return ""
			}}).run(r, r.Pick(4, 5))
	}
}
