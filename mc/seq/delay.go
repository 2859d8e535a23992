package seq

import (
	"fmt"
	"math"

	"github.com/justyntemme/vst3go/pkg/dsp/delay"
	"github.com/justyntemme/vst3go/pkg/dsp/interpolation"
	"github.com/justyntemme/vst3go/verifmc/core"
)

func init() {
	core.Register("P32", p32)
	core.Register("P33", p33)
}

func p32(r *core.Run) {
	if !r.Shard0() {
		return
	}
	al := []float32{0, 1, -1, 0.5, 2}
	fr := r.Pick(32, 128)
	core.Tuples(4, len(al), func(v []int) bool {
		y := [4]float64{}
		f := [4]float32{}
		for i := range y {
			f[i] = al[v[i]]
			y[i] = float64(f[i])
		}
		for k := 0; k <= fr; k++ {
			t := float64(k) / float64(fr)
			r.Count(1, 1)
			r.Nontrivial(1)
			if g, w := float64(interpolation.Linear(f[0], f[1], float32(t))), y[0]+(y[1]-y[0])*t; !core.Close(g, w, 1e-5) {
				r.Failf("linear", "Linear(%v,%v,%v)=%v want %v", f[0], f[1], t, g, w)
			}
			m1, m2 := (y[2]-y[0])/2, (y[3]-y[1])/2
			t2, t3 := t*t, t*t*t
			w := (2*t3-3*t2+1)*y[1] + (t3-2*t2+t)*m1 + (-2*t3+3*t2)*y[2] + (t3-t2)*m2
			for name, g := range map[string]float32{"Cubic": interpolation.Cubic(f[0], f[1], f[2], f[3], float32(t)), "Hermite": interpolation.Hermite(f[0], f[1], f[2], f[3], float32(t))} {
				if !core.Close(float64(g), w, 1e-5) {
					r.Failf("cubic", "%s(%v, %v)=%v want %v", name, f, t, g, w)
				}
			}
			if g, w := float64(interpolation.Smooth(f[0], f[1], float32(t))), y[0]+(y[1]-y[0])*t; !core.Close(g, w, 1e-5) {
				r.Failf("smooth", "Smooth(%v,%v,%v)=%v want %v", f[0], f[1], t, g, w)
			}
		}
		return true
	})
	// windowed kernels: exact at sample positions, reference formula between
	for n := 0; n <= 12; n++ {
		b := buf(n, n)
		for idx := -3; idx <= n+2; idx++ {
			for k := 0; k <= 8; k++ {
				fracv := float32(k) / 8
				for _, ws := range []int{-1, 0, 1, 2, 3, 4, 5, 8, 16} {
					r.Count(1, 1)
					g := float64(interpolation.Sinc(b, idx, fracv, ws))
					W := max(ws, 2)
					h := W / 2
					want := 0.0
					for i := -h; i <= h; i++ {
						if j := idx + i; j >= 0 && j < n {
							x := float64(i) - float64(fracv)
							if x == 0 {
								want += float64(b[j])
							} else {
								win := 0.42 - 0.5*math.Cos(2*math.Pi*float64(i+h)/float64(W)) + 0.08*math.Cos(4*math.Pi*float64(i+h)/float64(W))
								want += float64(b[j]) * math.Sin(math.Pi*x) / (math.Pi * x) * win
							}
						}
					}
					if !core.Close(g, want, 2e-5) {
						r.Failf("sinc", "Sinc(%v, %d, %v, %d) = %v, want %v", b, idx, fracv, ws, g, want)
					}
					if k == 0 && idx >= 0 && idx < n && math.Abs(g-float64(b[idx])) > 1e-5 {
						r.Failf("sinc", "Sinc at sample %d of %v is %v", idx, b, g)
					}
				}
				for _, a := range []int{-1, 0, 1, 2, 3, 5} {
					r.Count(1, 1)
					g := float64(interpolation.Lanczos(b, idx, fracv, a))
					A := a
					if a < 1 {
						A = 2
					}
					want := 0.0
					for j := range b {
						x := float64(j-idx) - float64(fracv)
						if x == 0 {
							want += float64(b[j])
						} else if math.Abs(x) < float64(A) {
							px := math.Pi * x
							want += float64(b[j]) * math.Sin(px) / px * math.Sin(px/float64(A)) / (px / float64(A))
						}
					}
					if !core.Close(g, want, 2e-5) {
						r.Failf("lanczos", "Lanczos(%v, %d, %v, %d) = %v, want %v", b, idx, fracv, a, g, want)
					}
				}
			}
		}
	}
	// resampling
	ratios := []float32{-1, 0, 0.25, 1.0 / 3, 0.5, 0.9, 1, 1.5, 2, 2.7, 4, 8}
	for n := 0; n <= r.Pick(20, 60); n++ {
		for no := 0; no <= 40; no++ {
			for _, q := range ratios {
				for cubic := 0; cubic < 2; cubic++ {
					in, out := buf(n, 1), buf(no, 2)
					prev := append([]float32(nil), out...)
					lab := func() string {
						return fmt.Sprintf("resample(cubic=%d) %d samples by %v into %d", cubic, n, q, no)
					}
					r.Guard("resample", lab, func() {
						var got int
						lim := float64(n - 1)
						if cubic == 1 {
							got = interpolation.ResampleCubic(in, q, out)
							lim = float64(n - 2)
							if n < 4 {
								lim = -1
							}
						} else {
							got = interpolation.Resample(in, q, out)
						}
						r.Count(1, 1)
						want, fuzzy := 0, false
						for i := 0; i < no && q > 0; i++ {
							p := float64(i) / float64(q)
							if math.Abs(p-lim) < 1e-4 {
								fuzzy = true
							}
							if p >= lim {
								break
							}
							want++
						}
						if got != want && !(fuzzy && (got == want+1 || got == want-1)) {
							r.Failf("resample", "%s wrote %d samples, want %d", lab(), got, want)
						}
						for i := 0; i < no; i++ {
							if i >= got {
								if out[i] != prev[i] {
									r.Failf("resample", "%s: sample %d beyond the reported %d changed", lab(), i, got)
								}
								continue
							}
							p := float64(i) / float64(q)
							j := int(p)
							if j >= n-1 {
								j = n - 2
							}
							t := p - float64(j)
							w := float64(in[j]) + (float64(in[j+1])-float64(in[j]))*t
							if cubic == 1 && j >= 1 && j < n-2 {
								w = float64(interpolation.Cubic(in[j-1], in[j], in[j+1], in[j+2], float32(t)))
							}
							if !core.Close(float64(out[i]), w, 5e-4) {
								r.Failf("resample", "%s: sample %d is %v, want %v", lab(), i, out[i], w)
								return
							}
						}
					})
				}
			}
		}
		for _, f := range []float32{0, 0.25, 1} {
			b := buf(n, 3)
			o := append([]float32(nil), b...)
			interpolation.SmoothBuffer(b, 0.7, f)
			for i := range b {
				if !core.Close(float64(b[i]), float64(o[i])+(0.7-float64(o[i]))*float64(f), 1e-5) {
					r.Failf("smooth", "SmoothBuffer sample %d of %v", i, o)
				}
			}
		}
	}
	// all-pass: unit gain, delay of exactly frac samples, unit energy
	for k := 1; k <= 64; k++ {
		fracv := float32(k) / 64
		ap := interpolation.NewAllPass()
		s0, s1, s2 := 0.0, 0.0, 0.0
		for i := 0; i < 4000; i++ {
			x := float32(0)
			if i == 0 {
				x = 1
			}
			h := float64(ap.Process(x, fracv))
			s0, s1, s2 = s0+h, s1+h*float64(i), s2+h*h
		}
		r.Count(1, 4000)
		if math.Abs(s0-1) > 1e-3 || math.Abs(s1-float64(fracv)) > 1e-2 || math.Abs(s2-1) > 1e-3 {
			r.Failf("allpass", "all-pass at %v: gain %v, delay %v samples, energy %v", fracv, s0, s1, s2)
		}
	}
	type op = core.HOp[*interpolation.AllPass, *[2]float64]
	var ops []op
	for _, x := range []float32{0, 1, -0.5} {
		for _, f := range []float32{0, 0.3, 0.5, 1} {
			x, f := x, f
			ops = append(ops, op{Name: fmt.Sprintf("process(%v,%v)", x, f), Do: func(i *interpolation.AllPass) string { return fmt.Sprintf("%.4f", i.Process(x, f)+10) },
				Spec: func(m *[2]float64) string {
					a := (1 - float64(f)) / (1 + float64(f))
					y := a*float64(x) + m[0] - a*m[1]
					m[0], m[1] = float64(x), y
					return fmt.Sprintf("%.4f", y+10)
				}, Same: near4})
		}
	}
	ops = append(ops, op{Name: "reset", Do: func(i *interpolation.AllPass) string { i.Reset(); return "" }, Spec: func(m *[2]float64) string { *m = [2]float64{}; return "" }})
	h := core.Hist[*interpolation.AllPass, *[2]float64]{Name: "allpass", New: interpolation.NewAllPass, Model: func() *[2]float64 { return &[2]float64{} }, Ops: ops}
	h.Run(r, r.Pick(4, 6))
	r.Bound("resample_input", r.Pick(20, 60))
}

// near4 compares two printed numbers (or lists) within 2e-4.
func near4(a, b string) bool {
	if a == b {
		return true
	}
	var x, y float64
	if _, e := fmt.Sscan(a, &x); e != nil {
		return false
	}
	if _, e := fmt.Sscan(b, &y); e != nil {
		return false
	}
	return math.Abs(x-y) <= 2.5e-4
}

// dline is the reference delay line: everything ever written.
type dline struct {
	h    []float64
	size int
}

func (d *dline) write(x float64) { d.h = append(d.h, x) }

// ago returns the sample written k writes ago (1 = last).
func (d *dline) ago(k int) float64 {
	if i := len(d.h) - k; k >= 1 && i >= 0 {
		return d.h[i]
	}
	return 0
}

func (d *dline) read(del float64) float64 {
	if !(del >= 1) {
		del = 1
	}
	del = math.Min(del, float64(d.size))
	k := int(math.Floor(del))
	t := del - float64(k)
	if t == 0 {
		return d.ago(k)
	}
	return d.ago(k)*(1-t) + d.ago(k+1)*t
}

func g4(x float64) string { return fmt.Sprintf("%.4f", x) }

func p33(r *core.Run) {
	if !r.Shard0() {
		return
	}
	sizes := []struct{ max, sr float64 }{{0.005, 1000}, {0.001, 1000}, {0, 1000}, {0.0025, 1000}, {0.003, 1500}}
	for _, sz := range sizes {
		sz := sz
		n := int(sz.max*sz.sr) + 1
		type I = *delay.Line
		type op = core.HOp[I, *dline]
		var ops []op
		ds := []float64{1, 1.25, 2, 2.5, 3, math.Nextafter(3, 4), float64(n) - 0.5, float64(n), float64(n) + 0.5, 100, 0, 0.5, -3, math.NaN(), math.Inf(1), math.Nextafter(1, 2), math.Nextafter(2, 3)}
		obs := func(l I) string {
			s := ""
			for _, d := range ds {
				s += g4(float64(l.Read(d))+0) + " " + g4(float64(l.Tap(d))+0) + " "
				s += g4(float64(l.ReadMs(d*1000/sz.sr))+0) + ","
			}
			return s
		}
		obsS := func(m *dline) string {
			s := ""
			for _, d := range ds {
				w := g4(m.read(d) + 0)
				s += w + " " + w + " " + w + ","
			}
			return s
		}
		for _, x := range []float32{1, -2} {
			x := x
			ops = append(ops, op{Name: fmt.Sprint("write ", x), Do: func(l I) string { l.Write(x); return "" }, Spec: func(m *dline) string { m.write(float64(x)); return "" }})
		}
		for _, d := range []float64{1, 2.5, float64(n)} {
			d := d
			ops = append(ops,
				op{Name: fmt.Sprint("process 4 at ", d), Do: func(l I) string { return g4(float64(l.Process(4, d))) }, Spec: func(m *dline) string { y := m.read(d); m.write(4); return g4(y) }, Same: near4},
				op{Name: fmt.Sprint("processMs 8 at ", d), Do: func(l I) string { return g4(float64(l.ProcessMs(8, d*1000/sz.sr))) }, Spec: func(m *dline) string { y := m.read(d); m.write(8); return g4(y) }, Same: near4},
				op{Name: fmt.Sprint("buffer at ", d), Do: func(l I) string {
					b := []float32{16, 32, 64}
					l.ProcessBuffer(b, d)
					return g4(float64(b[0] + 7*b[1] + 31*b[2]))
				}, Spec: func(m *dline) string {
					s := 0.0
					for i, w := range []float64{1, 7, 31} {
						s += w * m.read(d)
						m.write([]float64{16, 32, 64}[i])
					}
					return g4(s)
				}, Same: near4},
				op{Name: fmt.Sprint("mixed buffer at ", d), Do: func(l I) string {
					b := []float32{3, 5}
					l.ProcessBufferMix(b, d, 0.25)
					return g4(float64(b[0] + 7*b[1]))
				}, Spec: func(m *dline) string {
					s := 0.0
					for i, w := range []float64{1, 7} {
						x := []float64{3, 5}[i]
						s += w * (x*0.75 + m.read(d)*0.25)
						m.write(x)
					}
					return g4(s)
				}, Same: near4})
		}
		ops = append(ops, op{Name: "reset", Do: func(l I) string { l.Reset(); return "" }, Spec: func(m *dline) string { m.h = nil; return "" }})
		h := core.Hist[I, *dline]{Name: fmt.Sprintf("line_%d", n), New: func() I { return delay.New(sz.max, sz.sr) }, Model: func() *dline { return &dline{size: n} }, Ops: ops,
			Inv: func(l I, m *dline) string {
				a, b := obs(l), obsS(m)
				if a != b && !nearList(a, b) {
					return fmt.Sprintf("reads %s\nwant  %s", a, b)
				}
				return ""
			}}
		h.Run(r, r.Pick(4, 5))
	}
	comb(r)
	multitap(r)
	modulated(r)
}

// nearList compares two equally shaped lists of numbers.
func nearList(a, b string) bool {
	fa, fb := splitNums(a), splitNums(b)
	if len(fa) != len(fb) {
		return false
	}
	for i := range fa {
		if math.Abs(fa[i]-fb[i]) > 3e-4*math.Max(1, math.Abs(fb[i])) {
			return false
		}
	}
	return true
}

func splitNums(s string) []float64 {
	var out []float64
	cur := ""
	for i := 0; i <= len(s); i++ {
		if i < len(s) && s[i] != ' ' && s[i] != ',' {
			cur += string(s[i])
			continue
		}
		if cur != "" {
			var x float64
			fmt.Sscan(cur, &x)
			out = append(out, x)
			cur = ""
		}
	}
	return out
}

type combSpec struct {
	dline
	fb, damp, st float64
}

func comb(r *core.Run) {
	type I = *delay.CombDelay
	type op = core.HOp[I, *combSpec]
	var ops []op
	for _, x := range []float32{0, 1} {
		for _, d := range []float64{1, 2.5, 4} {
			x, d := x, d
			ops = append(ops, op{Name: fmt.Sprintf("process %v at %v", x, d), Do: func(c I) string { return g4(float64(c.Process(x, d))) },
				Spec: func(m *combSpec) string {
					y := m.read(d)
					m.st = y*(1-m.damp) + m.st*m.damp
					m.write(float64(x) + m.st*m.fb)
					return g4(y)
				}, Same: near4})
		}
	}
	ops = append(ops, op{Name: "buffer", Do: func(c I) string {
		b := []float32{1, -1, 0, 0}
		c.ProcessBuffer(b, 2)
		return g4(float64(b[0] + 3*b[1] + 7*b[2] + 13*b[3]))
	}, Spec: func(m *combSpec) string {
		s := 0.0
		for i, w := range []float64{1, 3, 7, 13} {
			y := m.read(2)
			m.st = y*(1-m.damp) + m.st*m.damp
			m.write([]float64{1, -1, 0, 0}[i] + m.st*m.fb)
			s += w * y
		}
		return g4(s)
	}, Same: near4})
	for _, v := range []float32{0, 0.9} {
		v := v
		ops = append(ops, op{Name: fmt.Sprint("feedback ", v), Do: func(c I) string { c.SetFeedback(v); return "" }, Spec: func(m *combSpec) string { m.fb = float64(v); return "" }},
			op{Name: fmt.Sprint("damp ", v), Do: func(c I) string { c.SetDamp(v); return "" }, Spec: func(m *combSpec) string { m.damp = float64(v); return "" }})
	}
	ops = append(ops, op{Name: "reset", Do: func(c I) string { c.Reset(); return "" }, Spec: func(m *combSpec) string { m.h, m.st = nil, 0; return "" }})
	h := core.Hist[I, *combSpec]{Name: "comb", New: func() I { return delay.NewComb(0.004, 1000) }, Model: func() *combSpec { return &combSpec{dline: dline{size: 5}, fb: 0.5, damp: 0.5} }, Ops: ops}
	h.Run(r, r.Pick(5, 7))

	type A = *delay.AllpassDelay
	type aop = core.HOp[A, *combSpec]
	var aops []aop
	for _, x := range []float32{0, 1} {
		for _, d := range []float64{1, 2.5, 4} {
			x, d := x, d
			aops = append(aops, aop{Name: fmt.Sprintf("process %v at %v", x, d), Do: func(c A) string { return g4(float64(c.Process(x, d))) },
				Spec: func(m *combSpec) string {
					y := m.read(d)
					m.write(float64(x) + y*m.fb)
					return g4(y - float64(x))
				}, Same: near4})
		}
	}
	aops = append(aops, aop{Name: "buffer", Do: func(c A) string {
		b := []float32{1, -1, 0, 0}
		c.ProcessBuffer(b, 2)
		return g4(float64(b[0] + 3*b[1] + 7*b[2] + 13*b[3]))
	}, Spec: func(m *combSpec) string {
		s := 0.0
		for i, w := range []float64{1, 3, 7, 13} {
			x := []float64{1, -1, 0, 0}[i]
			y := m.read(2)
			m.write(x + y*m.fb)
			s += w * (y - x)
		}
		return g4(s)
	}, Same: near4})
	for _, v := range []float32{0, 0.9} {
		v := v
		aops = append(aops, aop{Name: fmt.Sprint("feedback ", v), Do: func(c A) string { c.SetFeedback(v); return "" }, Spec: func(m *combSpec) string { m.fb = float64(v); return "" }})
	}
	aops = append(aops, aop{Name: "reset", Do: func(c A) string { c.Reset(); return "" }, Spec: func(m *combSpec) string { m.h = nil; return "" }})
	ha := core.Hist[A, *combSpec]{Name: "allpass", New: func() A { return delay.NewAllpass(0.004, 1000) }, Model: func() *combSpec { return &combSpec{dline: dline{size: 5}, fb: 0.5} }, Ops: aops}
	ha.Run(r, r.Pick(5, 7))
}

func multitap(r *core.Run) {
	type I = *delay.MultiTapDelay
	type op = core.HOp[I, *dline]
	var ops []op
	taps := [][]delay.TapOutput{nil,
		{{DelaySamples: 0, Gain: 1, Pan: 0}},
		{{DelaySamples: 3, Gain: 1, Pan: -1}, {DelaySamples: 1.5, Gain: -0.5, Pan: 1}},
		{{DelaySamples: 5, Gain: 0.25, Pan: 0.5}, {DelaySamples: 2, Gain: 2, Pan: -0.3}, {DelaySamples: 1, Gain: 100, Pan: 0}}}
	for _, x := range []float32{0, 1, -3} {
		for ti := range taps {
			x, ti := x, ti
			ops = append(ops, op{Name: fmt.Sprintf("process %v taps %d", x, ti), Do: func(c I) string {
				l, rr := float32(99), float32(99)
				c.ProcessMultiTap(x, taps[ti], &l, &rr)
				return g4(float64(l)) + " " + g4(float64(rr))
			}, Spec: func(m *dline) string {
				m.write(float64(x))
				l, rr := 0.0, 0.0
				for k, t := range taps[ti] {
					if k >= 2 {
						break
					}
					y := m.read(t.DelaySamples+1) * float64(t.Gain)
					a := (float64(t.Pan) + 1) / 4 * math.Pi
					l += y * math.Cos(a)
					rr += y * math.Sin(a)
				}
				return g4(l) + " " + g4(rr)
			}, Same: nearList})
		}
	}
	ops = append(ops, op{Name: "reset", Do: func(c I) string { c.Reset(); return "" }, Spec: func(m *dline) string { m.h = nil; return "" }})
	h := core.Hist[I, *dline]{Name: "multitap", New: func() I { return delay.NewMultiTap(0.005, 1000, 2) }, Model: func() *dline { return &dline{size: 6} }, Ops: ops}
	h.Run(r, r.Pick(5, 6))
}

type modSpec struct {
	dline
	ph, rate, depth, center float64
}

func modulated(r *core.Run) {
	type I = *delay.ModulatedDelay
	type op = core.HOp[I, *modSpec]
	step := func(m *modSpec, x float64) float64 {
		d := (m.center + m.depth*math.Sin(2*math.Pi*m.ph)) * 1000 / 1000
		y := m.read(math.Max(1, d))
		m.write(x)
		m.ph = math.Mod(m.ph+m.rate/1000, 1)
		return y
	}
	var ops []op
	for _, x := range []float32{0, 1} {
		x := x
		ops = append(ops, op{Name: fmt.Sprint("process ", x), Do: func(c I) string { return g4(float64(c.Process(x))) }, Spec: func(m *modSpec) string { return g4(step(m, float64(x))) }, Same: near4})
	}
	ops = append(ops, op{Name: "buffer", Do: func(c I) string {
		b := []float32{1, 2, -1, 0.5, 3, 0, 0, 1, 1}
		c.ProcessBuffer(b)
		s := 0.0
		for i, v := range b {
			s += float64(v) * float64(i*i+1)
		}
		return g4(s)
	}, Spec: func(m *modSpec) string {
		s := 0.0
		for i, x := range []float64{1, 2, -1, 0.5, 3, 0, 0, 1, 1} {
			s += step(m, x) * float64(i*i+1)
		}
		return g4(s)
	}, Same: func(a, b string) bool {
		var x, y float64
		fmt.Sscan(a, &x)
		fmt.Sscan(b, &y)
		return math.Abs(x-y) < 5e-3
	}})
	for _, l := range [][2]float64{{100, 2}, {250, 0}, {37, 50}} {
		l := l
		ops = append(ops, op{Name: fmt.Sprint("lfo ", l), Do: func(c I) string { c.SetLFO(l[0], l[1]); return "" }, Spec: func(m *modSpec) string { m.rate, m.depth = l[0], l[1]; return "" }})
	}
	for _, c := range []float64{0, 3, 8, 40} {
		c := c
		ops = append(ops, op{Name: fmt.Sprint("center ", c), Do: func(i I) string { i.SetCenterDelay(c); return "" }, Spec: func(m *modSpec) string { m.center = c; return "" }})
	}
	ops = append(ops, op{Name: "reset", Do: func(c I) string { c.Reset(); return "" }, Spec: func(m *modSpec) string { m.h, m.ph = nil, 0; return "" }})
	h := core.Hist[I, *modSpec]{Name: "modulated", New: func() I { return delay.NewModulated(0.012, 1000) }, Model: func() *modSpec { return &modSpec{dline: dline{size: 13}, rate: 0.5, depth: 5, center: 10} }, Ops: ops}
	h.Run(r, r.Pick(5, 6))
}
