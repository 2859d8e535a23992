package seq

import (
	"fmt"
	"math"

	"github.com/justyntemme/vst3go/pkg/dsp"
	"github.com/justyntemme/vst3go/pkg/dsp/gain"
	"github.com/justyntemme/vst3go/pkg/dsp/mix"
	"github.com/justyntemme/vst3go/pkg/dsp/pan"
	"github.com/justyntemme/vst3go/verifmc/core"
)

func init() {
	core.Register("P30", p30)
	core.Register("P31", p31)
}

const sentinel = float32(123456)

// pool makes deterministic sample material.
var material = []float32{0, 1, -1, 0.5, -0.25, 2, -3, 1e-6, 0.999, -0.7071, 1e-30, 0.1, -1.5, 0.3333, 8, -0.01}

func buf(n, phase int) []float32 {
	b := make([]float32, n, n+4)
	for i := range b {
		b[i] = material[(i*5+phase*3+i/16)%len(material)]
	}
	e := b[:n+4]
	for i := n; i < n+4; i++ {
		e[i] = sentinel
	}
	return b
}

func tailOK(b []float32) bool {
	e := b[:cap(b)]
	for i := len(b); i < len(e); i++ {
		if e[i] != sentinel {
			return false
		}
	}
	return true
}

// bufCase checks one buffer function: args[0] is the destination.
type bufCase struct {
	name string
	n    int // number of buffers
	run  func(b [][]float32, p []float32)
	// want[i] for the destination, from copies of the buffers as they were
	want   func(b [][]float32, p []float32, i int) float64
	common bool // destination written only up to the shortest buffer
	params [][]float32
	alias  bool // destination may be one of the sources
}

func runBufCases(r *core.Run, sig string, cases []bufCase) {
	for _, c := range cases {
		c := c
		one := func(lens []int, alias int, p []float32, ph int) {
			bs := make([][]float32, c.n)
			for k := range bs {
				bs[k] = buf(lens[k], ph+k)
			}
			if alias > 0 {
				bs[alias] = bs[0]
			}
			orig := make([][]float32, c.n)
			for k := range bs {
				orig[k] = append([]float32(nil), bs[k]...)
			}
			lab := func() string { return fmt.Sprintf("%s lengths %v alias %d params %v", c.name, lens, alias, p) }
			r.Guard(sig+":"+c.name, lab, func() {
				c.run(bs, p)
				m := len(bs[0])
				tol := 2e-5 + 1.5e-7*float64(m) // a running 32 bit sum drifts
				for _, b := range bs {
					if c.common && len(b) < m {
						m = len(b)
					}
				}
				for i := range bs[0] {
					w := float64(orig[0][i])
					if i < m {
						w = c.want(orig, p, i)
					}
					if !core.Close(float64(bs[0][i]), w, tol) {
						r.Failf(sig+":"+c.name, "%s: sample %d is %v, want %v", lab(), i, bs[0][i], w)
						return
					}
				}
				for k := range bs {
					if !tailOK(bs[k]) {
						r.Failf(sig+":"+c.name, "%s: wrote past the end of buffer %d", lab(), k)
					}
					if k > 0 && alias != k {
						for i := range bs[k] {
							if bs[k][i] != orig[k][i] {
								r.Failf(sig+":"+c.name, "%s: changed source %d", lab(), k)
								return
							}
						}
					}
				}
			})
			r.Count(1, int64(lens[0]))
			r.Nontrivial(1)
		}
		for _, p := range c.params {
			top := r.Pick(72, 300)
			for _, n := range append(upTo(top), 255, 256, 257, 300, 1000, 1024, 4097) {
				lens := make([]int, c.n)
				for k := range lens {
					lens[k] = n
				}
				for ph := 0; ph < 4 && (n <= top || ph == 0); ph++ {
					one(lens, 0, p, ph)
					if c.alias {
						for a := 1; a < c.n; a++ {
							one(lens, a, p, ph)
						}
					}
				}
			}
			if c.common {
				core.Tuples(c.n, 6, func(v []int) bool {
					for _, add := range []int{0, 7} {
						l := append([]int(nil), v...)
						for i := range l {
							l[i] += add
						}
						one(l, 0, p, 1)
					}
					return true
				})
			}
		}
	}
}

func upTo(n int) []int {
	var o []int
	for i := 0; i <= n; i++ {
		o = append(o, i)
	}
	return o
}

func f32s(v ...float32) [][]float32 {
	var o [][]float32
	for _, x := range v {
		o = append(o, []float32{x})
	}
	return o
}

var noParam = [][]float32{nil}

func dbToLin(db float64) float64 {
	if db <= -200 {
		return 0
	}
	return math.Pow(10, db/20)
}

func p30(r *core.Run) {
	if !r.Shard0() {
		return
	}
	F := func(x float32) float64 { return float64(x) }
	gains := f32s(0, 1, -1, 0.5, 2, 1e-3)
	mixes := f32s(0, 1, 0.5, 0.25, 0.9, 0.005, 0.995, 1.5, -0.5)
	limits := f32s(0, 0.1, 0.5, 1, 2)
	xpow := func(pos float64) (float64, float64) { return math.Cos(pos * math.Pi / 2), math.Sin(pos * math.Pi / 2) }
	cases := []bufCase{
		{name: "dsp.Clear", n: 1, params: noParam, run: func(b [][]float32, p []float32) { dsp.Clear(b[0]) }, want: func(b [][]float32, p []float32, i int) float64 { return 0 }},
		{name: "dsp.Copy", n: 2, common: true, params: noParam, alias: true, run: func(b [][]float32, p []float32) { dsp.Copy(b[0], b[1]) }, want: func(b [][]float32, p []float32, i int) float64 { return F(b[1][i]) }},
		{name: "dsp.Add", n: 2, common: true, params: noParam, alias: true, run: func(b [][]float32, p []float32) { dsp.Add(b[0], b[1]) }, want: func(b [][]float32, p []float32, i int) float64 { return F(b[0][i]) + F(b[1][i]) }},
		{name: "dsp.AddScaled", n: 2, common: true, params: gains, alias: true, run: func(b [][]float32, p []float32) { dsp.AddScaled(b[0], b[1], p[0]) }, want: func(b [][]float32, p []float32, i int) float64 { return F(b[0][i]) + F(b[1][i])*F(p[0]) }},
		{name: "dsp.Scale", n: 1, params: gains, run: func(b [][]float32, p []float32) { dsp.Scale(b[0], p[0]) }, want: func(b [][]float32, p []float32, i int) float64 { return F(b[0][i]) * F(p[0]) }},
		{name: "dsp.Mix", n: 3, common: true, params: mixes, alias: true, run: func(b [][]float32, p []float32) { dsp.Mix(b[0], b[1], b[2], p[0]) }, want: func(b [][]float32, p []float32, i int) float64 { return F(b[1][i])*(1-F(p[0])) + F(b[2][i])*F(p[0]) }},
		{name: "dsp.Clip", n: 1, params: limits, run: func(b [][]float32, p []float32) { dsp.Clip(b[0], p[0]) }, want: func(b [][]float32, p []float32, i int) float64 {
			return math.Max(-F(p[0]), math.Min(F(p[0]), F(b[0][i])))
		}},
		{name: "dsp.SoftClip", n: 1, params: f32s(0.1, 0.5, 0.95, 1), run: func(b [][]float32, p []float32) { dsp.SoftClip(b[0], p[0]) }, want: func(b [][]float32, p []float32, i int) float64 {
			x, t := F(b[0][i]), F(p[0])
			if math.Abs(x) <= t {
				return x
			}
			return math.Copysign(t+(1-t)*math.Tanh(math.Abs(x)-t), x)
		}},
		{name: "gain.ApplyBuffer", n: 1, params: gains, run: func(b [][]float32, p []float32) { gain.ApplyBuffer(b[0], p[0]) }, want: func(b [][]float32, p []float32, i int) float64 { return F(b[0][i]) * F(p[0]) }},
		{name: "gain.ApplyDbBuffer", n: 1, params: f32s(-300, -200, -60, -6, 0, 6, 20), run: func(b [][]float32, p []float32) { gain.ApplyDbBuffer(b[0], p[0]) }, want: func(b [][]float32, p []float32, i int) float64 { return F(b[0][i]) * dbToLin(F(p[0])) }},
		{name: "gain.ApplyBufferTo", n: 2, common: true, alias: true, params: gains, run: func(b [][]float32, p []float32) { gain.ApplyBufferTo(b[1], p[0], b[0]) }, want: func(b [][]float32, p []float32, i int) float64 { return F(b[1][i]) * F(p[0]) }},
		{name: "gain.Fade", n: 1, params: [][]float32{{0, 1}, {1, 0}, {.5, .5}, {-1, 2}, {1, 1}, {0, 0}}, run: func(b [][]float32, p []float32) { gain.Fade(b[0], p[0], p[1]) }, want: func(b [][]float32, p []float32, i int) float64 {
			g := F(p[0])
			if len(b[0]) > 1 {
				g += (F(p[1]) - F(p[0])) * float64(i) / float64(len(b[0])-1)
			}
			return F(b[0][i]) * g
		}},
		{name: "gain.FadeDb", n: 1, params: [][]float32{{-200, 0}, {0, -200}, {-6, 6}, {-60, -60}}, run: func(b [][]float32, p []float32) { gain.FadeDb(b[0], p[0], p[1]) }, want: func(b [][]float32, p []float32, i int) float64 {
			s, e := dbToLin(F(p[0])), dbToLin(F(p[1]))
			if len(b[0]) > 1 {
				s += (e - s) * float64(i) / float64(len(b[0])-1)
			}
			return F(b[0][i]) * s
		}},
		{name: "gain.HardClipBuffer", n: 1, params: limits, run: func(b [][]float32, p []float32) { gain.HardClipBuffer(b[0], p[0]) }, want: func(b [][]float32, p []float32, i int) float64 {
			return math.Max(-F(p[0]), math.Min(F(p[0]), F(b[0][i])))
		}},
		{name: "gain.SoftClipBuffer", n: 1, params: limits, run: func(b [][]float32, p []float32) { gain.SoftClipBuffer(b[0], p[0]) }, want: func(b [][]float32, p []float32, i int) float64 {
			return F(gain.SoftClip(b[0][i], p[0]))
		}},
		{name: "mix.DryWetBuffer", n: 2, common: true, alias: true, params: mixes, run: func(b [][]float32, p []float32) { mix.DryWetBuffer(b[0], b[1], p[0]) }, want: func(b [][]float32, p []float32, i int) float64 { return F(b[0][i])*(1-F(p[0])) + F(b[1][i])*F(p[0]) }},
		{name: "mix.DryWetBufferTo", n: 3, common: true, alias: true, params: mixes, run: func(b [][]float32, p []float32) { mix.DryWetBufferTo(b[1], b[2], p[0], b[0]) }, want: func(b [][]float32, p []float32, i int) float64 { return F(b[1][i])*(1-F(p[0])) + F(b[2][i])*F(p[0]) }},
		{name: "mix.CrossfadeBuffer(power)", n: 3, common: true, alias: true, params: mixes, run: func(b [][]float32, p []float32) { mix.CrossfadeBuffer(b[1], b[2], p[0], true, b[0]) }, want: func(b [][]float32, p []float32, i int) float64 {
			x, y := xpow(F(p[0]))
			return F(b[1][i])*x + F(b[2][i])*y
		}},
		{name: "mix.CrossfadeBuffer(linear)", n: 3, common: true, alias: true, params: mixes, run: func(b [][]float32, p []float32) { mix.CrossfadeBuffer(b[1], b[2], p[0], false, b[0]) }, want: func(b [][]float32, p []float32, i int) float64 { return F(b[1][i])*(1-F(p[0])) + F(b[2][i])*F(p[0]) }},
		{name: "mix.Blend", n: 3, common: true, alias: true, params: f32s(-1, -0.99, -0.5, 0, 0.3, 0.99, 1), run: func(b [][]float32, p []float32) { mix.Blend(b[1], b[2], p[0], b[0]) }, want: func(b [][]float32, p []float32, i int) float64 {
			x, y := xpow((F(p[0]) + 1) / 2)
			return F(b[1][i])*x + F(b[2][i])*y
		}},
	}
	runBufCases(r, "buffer", cases)
	// Sum and SumWeighted of any number of buffers of any lengths
	for nb := 1; nb <= 4; nb++ {
		core.Tuples(nb+1, 5, func(v []int) bool {
			for ng := 0; ng <= nb+1; ng++ {
				for _, add := range []int{0, 9} {
					dst := buf(v[0]+add, 0)
					var bs [][]float32
					var gs []float32
					for k := 0; k < nb; k++ {
						bs = append(bs, buf(v[k+1]+add, k+1))
					}
					for k := 0; k < ng; k++ {
						gs = append(gs, []float32{0.5, -1, 0, 2, 3}[k])
					}
					lab := func() string {
						return fmt.Sprintf("sum of buffers of lengths %v (first is destination) with gains %v", v, gs)
					}
					r.Guard("sum", lab, func() {
						if ng == 0 {
							mix.Sum(bs, dst)
						} else {
							mix.SumWeighted(bs, gs, dst)
						}
						for i := range dst {
							w := 0.0
							for k, b := range bs {
								if i < len(b) {
									g := 1.0
									if k < len(gs) {
										g = float64(gs[k])
									}
									w += float64(b[i]) * g
								}
							}
							if !core.Close(float64(dst[i]), w, 1e-5) {
								r.Failf("sum", "%s: sample %d is %v, want %v", lab(), i, dst[i], w)
							}
						}
						if !tailOK(dst) {
							r.Failf("sum", "%s: wrote past the end", lab())
						}
					})
					r.Count(1, 1)
				}
			}
			return true
		})
	}
	// Peak and RMS, every short buffer over an alphabet and long ones
	al := []float32{0, 1, -1, 0.5, -2, 1e-3}
	pr := func(b []float32) {
		pk, sq := 0.0, 0.0
		for _, x := range b {
			pk = math.Max(pk, math.Abs(float64(x)))
			sq += float64(x) * float64(x)
		}
		rms := 0.0
		if len(b) > 0 {
			rms = math.Sqrt(sq / float64(len(b)))
		}
		if float64(dsp.Peak(b)) != pk {
			r.Failf("peak", "peak of %v is %v", b, dsp.Peak(b))
		}
		if !core.Close(float64(dsp.RMS(b)), rms, 1e-5) {
			r.Failf("rms", "rms of %v is %v, want %v", b, dsp.RMS(b), rms)
		}
		r.Count(1, 1)
	}
	for n := 0; n <= r.Pick(6, 8); n++ {
		core.Tuples(n, len(al), func(v []int) bool {
			b := make([]float32, n)
			for i := range b {
				b[i] = al[v[i]]
			}
			pr(b)
			return true
		})
	}
	for n := 0; n < 300; n++ {
		pr(buf(n, n))
	}
	// scalar functions
	last, last32 := math.Inf(-1), math.Inf(-1)
	for e := -160; e <= 40; e++ {
		for m := 0; m < 16; m++ {
			x := math.Ldexp(1+float64(m)/16, e)
			db, db32 := gain.LinearToDb(x), float64(gain.LinearToDb32(float32(x)))
			want := math.Max(-200, 20*math.Log10(x))
			r.Count(1, 1)
			if !core.Close(db, want, 1e-9) || float32(x) > 0 && !core.Close(db32, want, 1e-5) {
				r.Failf("db", "%v is %v dB (32 bit %v), want %v", x, db, db32, want)
			}
			if db < last || db32 < last32 {
				r.Failf("db", "decibels fall between amplitudes below and at %v", x)
			}
			last, last32 = db, db32
		}
	}
	for _, x := range []float64{0, -1, -1e-9, math.Inf(-1)} {
		if gain.LinearToDb(x) != -200 || gain.LinearToDb32(float32(x)) != -200 {
			r.Failf("db", "amplitude %v is %v dB", x, gain.LinearToDb(x))
		}
	}
	lastG := -1.0
	for db := -260.0; db <= 80; db += 0.125 {
		g, g32 := gain.DbToLinear(db), float64(gain.DbToLinear32(float32(db)))
		want := dbToLin(db)
		r.Count(1, 1)
		if !core.Close(g/math.Max(want, 1e-300), want/math.Max(want, 1e-300), 1e-9) || !core.Close(g32, want, 1e-5) || want > 1e-9 && math.Abs(g32/want-1) > 1e-4 {
			r.Failf("db", "%v dB is %v (32 bit %v), want %v", db, g, g32, want)
		}
		if want == 0 && (g != 0 || g32 != 0) {
			r.Failf("db", "%v dB is %v (32 bit %v), not silence", db, g, g32)
		}
		if g < lastG {
			r.Failf("db", "gain falls at %v dB", db)
		}
		lastG = g
		if db > -200 && !core.Close(gain.LinearToDb(g), db, 1e-9) {
			r.Failf("db", "%v dB comes back as %v", db, gain.LinearToDb(g))
		}
		for _, s := range material {
			if !core.Close(float64(gain.ApplyDb(s, float32(db))), float64(s)*want, 1e-4) {
				r.Failf("db", "ApplyDb(%v, %v) = %v", s, db, gain.ApplyDb(s, float32(db)))
			}
		}
	}
	for _, t := range []float32{0.05, 0.25, 0.5, 0.9, 1, 2} {
		prev, prevIn := float32(0), float32(0)
		for k := 0; k <= 4000; k++ {
			x := float32(k) / 500
			y, ny := gain.SoftClip(x, t), gain.SoftClip(-x, t)
			h := gain.HardClip(x, t)
			r.Count(1, 1)
			if x <= t && y != x {
				r.Failf("softclip", "SoftClip(%v, %v) = %v changes a sample below the threshold", x, t, y)
			}
			if y > t*1.0001 || y < 0 || ny != -y {
				r.Failf("softclip", "SoftClip(±%v, %v) = %v, %v", x, t, y, ny)
			}
			if w := float64(t) * math.Tanh(float64(x)/float64(t)); x > t && math.Abs(float64(y)-w) > 0.04*float64(t) {
				r.Failf("softclip", "SoftClip(%v, %v) = %v, the curve is at %v", x, t, y, w)
			}
			if h != min(x, t) || gain.HardClip(-x, t) != -h {
				r.Failf("hardclip", "HardClip(%v, %v) = %v", x, t, h)
			}
			if y < prev-1e-6 {
				sig := "softclip:falls"
				if prevIn <= t && x > t && core.Close(float64(prev), float64(t), 0.01) && float64(y) > 0.77*float64(t) {
					sig = fmt.Sprintf("softclip:falls at threshold %v", t)
				}
				r.Failf(sig, "SoftClip falls from %v to %v between inputs %v and %v at threshold %v", prev, y, prevIn, x, t)
			}
			prev, prevIn = y, x
			b := []float32{x, -x}
			dsp.SoftClip(b, t)
			if t <= 1 && (b[0] > max(1, t)+1e-6 || b[1] != -b[0]) {
				r.Failf("softclip", "dsp.SoftClip(%v, %v) = %v", x, t, b)
			}
			for _, g := range []float32{-1, 0, 0.5, 3} {
				if gain.Apply(x, g) != x*g {
					r.Failf("apply", "Apply(%v,%v)", x, g)
				}
			}
		}
	}
	for k := 0; k <= 200; k++ {
		a := float32(k) / 200
		x, y := xpow(float64(a))
		for _, d := range material {
			for _, w := range material {
				r.Count(1, 1)
				lin := float64(d)*(1-float64(a)) + float64(w)*float64(a)
				if !core.Close(float64(mix.DryWet(d, w, a)), lin, 1e-5) || !core.Close(float64(mix.CrossfadeLinear(d, w, a)), lin, 1e-5) {
					r.Failf("mix", "mixing %v and %v at %v: %v %v, want %v", d, w, a, mix.DryWet(d, w, a), mix.CrossfadeLinear(d, w, a), lin)
				}
				if !core.Close(float64(mix.CrossfadeCosine(d, w, a)), float64(d)*x+float64(w)*y, 1e-5) {
					r.Failf("mix", "equal power crossfade of %v and %v at %v: %v", d, w, a, mix.CrossfadeCosine(d, w, a))
				}
			}
		}
	}
	r.Nontrivial(10000)
	r.Bound("buffer_length", r.Pick(72, 300))
}

// ---- P31: panning ----

func p31(r *core.Run) {
	if !r.Shard0() {
		return
	}
	laws := []pan.Law{pan.Linear, pan.ConstantPower, pan.Balanced, pan.Law(9)}
	gainsAt := func(p float64, l pan.Law) (float64, float64) {
		if l == pan.Linear {
			return (1 - p) / 2, (1 + p) / 2
		}
		a := (p + 1) * math.Pi / 4
		L, R := math.Max(0, math.Cos(a)), math.Sin(a)
		return L, R
	}
	steps := r.Pick(2000, 20000)
	for _, law := range laws {
		pl, pr := float32(2), float32(-1)
		for k := -steps; k <= steps; k++ {
			p := float32(k) / float32(steps)
			l, rr := pan.MonoToStereo(p, law)
			l2, r2 := pan.MonoToStereo(-p, law)
			r.Count(1, 1)
			r.Nontrivial(1)
			if l < 0 || rr < 0 || l > 1.00001 || rr > 1.00001 {
				r.Failf("gains", "law %d pan %v: gains %v %v outside 0..1", law, p, l, rr)
			}
			if !core.Close(float64(l), float64(r2), 1e-5) || !core.Close(float64(rr), float64(l2), 1e-5) {
				r.Failf("symmetry", "law %d: pan %v gives %v %v but %v gives %v %v", law, p, l, rr, -p, l2, r2)
			}
			if l > pl+1e-6 || rr < pr-1e-6 {
				r.Failf("monotone", "law %d: moving right to %v makes left louder or right quieter", law, p)
			}
			if k > -steps && (math.Abs(float64(l-pl)) > 4/float64(steps) || math.Abs(float64(rr-pr)) > 4/float64(steps)) {
				r.Failf("jump", "law %d: gains jump at pan %v", law, p)
			}
			pl, pr = l, rr
			switch law {
			case pan.Balanced:
				pw := float64(l)*float64(l) + float64(rr)*float64(rr)
				if k == 0 && math.Abs(20*math.Log10(float64(l))+4.5) > 0.1 {
					r.Failf("balanced", "balanced law is at %v dB in the centre", 20*math.Log10(float64(l)))
				}
				if (k == steps || k == -steps) && math.Abs(pw-1) > 1e-4 {
					r.Failf("balanced", "balanced law has power %v at hard pan", pw)
				}
			default:
				wl, wr := gainsAt(float64(p), law)
				if !core.Close(float64(l), wl, 1e-5) || !core.Close(float64(rr), wr, 1e-5) {
					r.Failf("law", "law %d pan %v: gains %v %v, want %v %v", law, p, l, rr, wl, wr)
				}
			}
		}
	}
	// buffer functions
	pans := []float32{-1, -0.999, -0.5, -1e-4, 0, 1e-4, 0.25, 0.999, 1}
	check := func(sig string, lens [4]int, in int, run func(b [4][]float32), want func(b [4][]float32, i int) (float64, float64)) {
		var b, o [4][]float32
		for k := range b {
			b[k] = buf(lens[k], k+in)
			o[k] = append([]float32(nil), b[k]...)
		}
		lab := func() string { return fmt.Sprintf("%s with lengths %v", sig, lens) }
		r.Guard(sig, lab, func() {
			run(b)
			m := min(lens[0], lens[2], lens[3])
			if in == 2 {
				m = min(m, lens[1])
			}
			for i := 0; i < m; i++ {
				wl, wr := want(o, i)
				if !core.Close(float64(b[2][i]), wl, 2e-5) || !core.Close(float64(b[3][i]), wr, 2e-5) {
					r.Failf(sig, "%s: sample %d is %v %v, want %v %v", lab(), i, b[2][i], b[3][i], wl, wr)
					return
				}
			}
			for k := range b {
				for i := range b[k] {
					if (k < 2 || i >= m) && b[k][i] != o[k][i] {
						r.Failf(sig, "%s: buffer %d sample %d changed", lab(), k, i)
						return
					}
				}
				if !tailOK(b[k]) {
					r.Failf(sig, "%s: wrote past the end", lab())
				}
			}
		})
		r.Count(1, 1)
		r.Nontrivial(1)
	}
	var shapes [][4]int
	for n := 0; n < 40; n++ {
		shapes = append(shapes, [4]int{n, n, n, n})
	}
	core.Tuples(4, 4, func(v []int) bool {
		shapes = append(shapes, [4]int{v[0], v[1], v[2], v[3]}, [4]int{v[0] + 6, v[1] + 6, v[2] + 6, v[3] + 6})
		return true
	})
	for _, sh := range shapes {
		for _, p := range pans {
			for _, law := range laws {
				law := law
				check(fmt.Sprintf("Process law %d pan %v", law, p), sh, 1, func(b [4][]float32) { pan.Process(b[0], p, law, b[2], b[3]) },
					func(b [4][]float32, i int) (float64, float64) {
						l, rr := pan.MonoToStereo(p, law)
						return float64(b[0][i] * l), float64(b[0][i] * rr)
					})
				check(fmt.Sprintf("ProcessStereo law %d pan %v", law, p), sh, 2, func(b [4][]float32) { pan.ProcessStereo(b[0], b[1], p, law, b[2], b[3]) },
					func(b [4][]float32, i int) (float64, float64) {
						l, rr := pan.MonoToStereo(p, law)
						c, _ := pan.MonoToStereo(0, law)
						return float64(b[0][i]) * math.Min(1, float64(l/c)*b2f(p > 0)+b2f(p <= 0)), float64(b[1][i]) * math.Min(1, float64(rr/c)*b2f(p < 0)+b2f(p >= 0))
					})
			}
			check(fmt.Sprintf("Balance %v", p), sh, 2, func(b [4][]float32) { pan.Balance(b[0], b[1], p, b[2], b[3]) },
				func(b [4][]float32, i int) (float64, float64) {
					return float64(b[0][i]) * math.Min(1, 1-float64(p)), float64(b[1][i]) * math.Min(1, 1+float64(p))
				})
		}
		for _, w := range []float32{0, 0.5, 1, 1.5, 2} {
			check(fmt.Sprintf("Width %v", w), sh, 2, func(b [4][]float32) { pan.Width(b[0], b[1], w, b[2], b[3]) },
				func(b [4][]float32, i int) (float64, float64) {
					m, s := (float64(b[0][i])+float64(b[1][i]))/2, (float64(b[0][i])-float64(b[1][i]))/2*float64(w)
					return m + s, m - s
				})
		}
	}
	// in place
	for _, w := range []float32{0, 0.5, 1, 2} {
		for _, p := range pans {
			for fi, f := range []func(l, rr, lo, ro []float32){
				func(l, rr, lo, ro []float32) { pan.Width(l, rr, w, lo, ro) },
				func(l, rr, lo, ro []float32) { pan.Balance(l, rr, p, lo, ro) },
				func(l, rr, lo, ro []float32) { pan.ProcessStereo(l, rr, p, pan.ConstantPower, lo, ro) },
				func(l, rr, lo, ro []float32) { pan.Process(l, p, pan.ConstantPower, lo, ro) },
			} {
				a, b, lo, ro := buf(9, 1), buf(9, 2), buf(9, 3), buf(9, 4)
				f(a, b, lo, ro)
				f(a, b, a, b)
				if fmt.Sprint(a, b) != fmt.Sprint(lo, ro) {
					r.Failf("inplace", "pan function %d in place gives %v %v instead of %v %v", fi, a, b, lo, ro)
				}
			}
		}
	}
	autopan(r)
}

func b2f(b bool) float64 {
	if b {
		return 1
	}
	return 0
}

func autopan(r *core.Run) {
	// histories of rate and depth changes, block sizes and resets against a
	// float64 oscillator
	type impl struct {
		a    *pan.AutoPan
		l, r []float32
	}
	type spec struct {
		ph, rate, depth float64
		l, r            []float64
	}
	for _, law := range []pan.Law{pan.Linear, pan.ConstantPower, pan.Balanced} {
		law := law
		type op = core.HOp[*impl, *spec]
		var ops []op
		for _, n := range []int{1, 5, 64} {
			n := n
			ops = append(ops, op{Name: fmt.Sprintf("process %d", n), Do: func(i *impl) string {
				in := make([]float32, n)
				for k := range in {
					in[k] = 1
				}
				i.l, i.r = make([]float32, n), make([]float32, n)
				i.a.Process(in, 1000, i.l, i.r)
				return ""
			}, Spec: func(m *spec) string {
				m.l, m.r = nil, nil
				for k := 0; k < n; k++ {
					p := math.Sin(m.ph) * m.depth
					l, rr := pan.MonoToStereo(float32(p), law)
					m.l, m.r = append(m.l, float64(l)), append(m.r, float64(rr))
					m.ph = math.Mod(m.ph+2*math.Pi*m.rate/1000, 2*math.Pi)
				}
				return ""
			}})
		}
		for _, short := range [][2]int{{3, 5}, {5, 3}} { // as much as fits both outputs
			ops = append(ops, op{Name: fmt.Sprint("process 6 into ", short), Do: func(i *impl) string {
				i.l, i.r = make([]float32, short[0]), make([]float32, short[1])
				i.a.Process([]float32{1, 1, 1, 1, 1, 1}, 1000, i.l, i.r)
				for _, x := range append(append([]float32{}, i.l[3:]...), i.r[3:]...) {
					if x != 0 {
						return "wrote more than fits both"
					}
				}
				i.l, i.r = i.l[:3], i.r[:3]
				return ""
			}, Spec: func(m *spec) string {
				m.l, m.r = nil, nil
				for k := 0; k < 3; k++ {
					l, rr := pan.MonoToStereo(float32(math.Sin(m.ph)*m.depth), law)
					m.l, m.r = append(m.l, float64(l)), append(m.r, float64(rr))
					m.ph = math.Mod(m.ph+2*math.Pi*m.rate/1000, 2*math.Pi)
				}
				return ""
			}})
		}
		for _, rate := range []float32{0, 7, 100} {
			rate := rate
			ops = append(ops, op{Name: fmt.Sprint("rate ", rate), Do: func(i *impl) string { i.a.SetRate(rate); return "" }, Spec: func(m *spec) string { m.rate = float64(rate); return "" }})
		}
		for _, d := range []float32{0, 0.5, 1} {
			d := d
			ops = append(ops, op{Name: fmt.Sprint("depth ", d), Do: func(i *impl) string { i.a.SetDepth(d); return "" }, Spec: func(m *spec) string { m.depth = float64(d); return "" }})
		}
		ops = append(ops, op{Name: "reset", Do: func(i *impl) string { i.a.Reset(); return "" }, Spec: func(m *spec) string { m.ph = 0; return "" }})
		h := core.Hist[*impl, *spec]{Name: fmt.Sprint("autopan_law", law), New: func() *impl { return &impl{a: pan.NewAutoPan(20, 0.8, law)} },
			Model: func() *spec { return &spec{rate: 20, depth: float64(float32(0.8))} }, Ops: ops,
			Inv: func(i *impl, m *spec) string {
				if len(i.l) != len(m.l) {
					return "length"
				}
				for k := range m.l {
					if math.Abs(float64(i.l[k])-m.l[k]) > 2e-3 || math.Abs(float64(i.r[k])-m.r[k]) > 2e-3 {
						return fmt.Sprintf("sample %d panned %v %v, want %v %v", k, i.l[k], i.r[k], m.l[k], m.r[k])
					}
				}
				return ""
			}}
		h.Run(r, r.Pick(4, 5))
	}
	// it keeps its rate however long it runs
	ap := pan.NewAutoPan(1000, 1, pan.Linear)
	in, l, rr := make([]float32, 8000), make([]float32, 8000), make([]float32, 8000)
	for i := range in {
		in[i] = 1
	}
	for b := 0; b < 500; b++ {
		ap.Process(in, 8000, l, rr)
		turns := 0
		for i := 1; i < len(l); i++ {
			if (l[i] > rr[i]) != (l[i-1] > rr[i-1]) {
				turns++
			}
		}
		r.Count(1, 8000)
		if turns < 1990 || turns > 2010 {
			r.Failf("autopan_long", "at 1000 Hz the sound changes sides %d times in second %d", turns, b)
			break
		}
	}
}
