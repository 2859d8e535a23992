package seq

import (
	"fmt"
	"math"

	"github.com/justyntemme/vst3go/pkg/dsp/dynamics"
	"github.com/justyntemme/vst3go/pkg/dsp/envelope"
	"github.com/justyntemme/vst3go/verifmc/core"
)

func init() {
	core.Register("P36", p36)
	core.Register("P37", p37)
	core.Register("P38", p38)
}

func todb(x float64) float64 {
	if x <= 0 {
		return -96
	}
	return 20 * math.Log10(x)
}

func lin(db float64) float64 { return math.Pow(10, db/20) }

// line delays by exactly n samples.
type dly struct {
	n int
	q []float64
}

func (d *dly) step(x float64) float64 {
	if d.n == 0 {
		return x
	}
	d.q = append(d.q, x)
	if k := len(d.q) - 1 - d.n; k >= 0 {
		return d.q[k]
	}
	return 0
}
func (d *dly) set(n int) {
	if n != d.n {
		d.n, d.q = n, nil
	}
}

// compm is the reference compressor.
type compm struct {
	det                  detm
	thr, ratio, knee, mk float64
	soft                 bool
	d                    dly
	gr                   float64
}

func (c *compm) curve(db float64) float64 {
	over := math.Max(0, db-c.thr)
	s := 1 - 1/c.ratio
	if c.soft && c.knee > 0 && db <= c.thr+c.knee/2 {
		p := math.Max(0, db-(c.thr-c.knee/2)) / c.knee
		return p * p * over * s
	}
	return over * s
}

// gain is what a detected sample makes of the current gain.
func (c *compm) gain(x float64) float64 {
	c.gr = c.curve(todb(c.det.detect(x)))
	return lin(c.mk - c.gr)
}

var dynIn = []float32{0.9, -0.2, 0.05, 1.5, -1, 0.3, 0, 0.5}

func p36(r *core.Run) {
	if !r.Shard0() {
		return
	}
	type I = *dynamics.Compressor
	type M = *compm
	const sr = 2000
	var ops []nop[I, M]
	for _, x := range []float32{0, 1, -0.3, 0.05} {
		for _, n := range []int{1, 12} {
			x, n := x, n
			ops = append(ops, nop[I, M]{fmt.Sprintf("%d times %v", n, x), func(i I) []float64 { return times(n, func() float64 { return float64(i.Process(x)) }) },
				func(m M) []float64 {
					return times(n, func() float64 { return m.d.step(float64(x)) * m.gain(float64(x)) })
				}})
		}
	}
	ops = append(ops,
		nop[I, M]{"block", func(i I) []float64 { o := make([]float32, len(dynIn)); i.ProcessBuffer(dynIn, o); return f64s(o) }, func(m M) []float64 {
			var o []float64
			for _, x := range dynIn {
				o = append(o, m.d.step(float64(x))*m.gain(float64(x)))
			}
			return o
		}},
		nop[I, M]{"block in place", func(i I) []float64 { o := append([]float32(nil), dynIn...); i.ProcessBuffer(o, o); return f64s(o) }, func(m M) []float64 {
			var o []float64
			for _, x := range dynIn {
				o = append(o, m.d.step(float64(x))*m.gain(float64(x)))
			}
			return o
		}},
		nop[I, M]{"sidechain", func(i I) []float64 {
			in := append([]float32(nil), dynIn[:5]...)
			o := make([]float32, 5)
			i.SetLookahead(0)
			i.ProcessSidechain(in, dynIn[2:7], o)
			return f64s(o)
		}, func(m M) []float64 {
			m.d.set(0)
			var o []float64
			for k := 0; k < 5; k++ {
				o = append(o, float64(dynIn[k])*m.gain(float64(dynIn[k+2])))
			}
			return o
		}},
		nop[I, M]{"stereo", func(i I) []float64 {
			l, rr := append([]float32(nil), dynIn[:5]...), append([]float32(nil), dynIn[3:8]...)
			i.SetLookahead(0)
			i.ProcessStereo(l, rr, l, rr)
			return f64s(append(l, rr...))
		}, func(m M) []float64 {
			m.d.set(0)
			a, b := make([]float64, 5), make([]float64, 5)
			for k := range a {
				l, rr := float64(dynIn[k]), float64(dynIn[k+3])
				g := m.gain(math.Max(math.Abs(l), math.Abs(rr)))
				a[k], b[k] = l*g, rr*g
			}
			return append(a, b...)
		}},
		sets("reset", func(i I) { i.Reset() }, func(m M) { m.det.env, m.gr, m.d.q = 0, 0, nil }),
		sets("threshold -30", func(i I) { i.SetThreshold(-30) }, func(m M) { m.thr = -30 }),
		sets("ratio 0.5", func(i I) { i.SetRatio(0.5) }, func(m M) { m.ratio = 1 }),
		sets("ratio inf", func(i I) { i.SetRatio(math.Inf(1)) }, func(m M) { m.ratio = math.Inf(1) }),
		sets("soft knee 12", func(i I) { i.SetKnee(dynamics.KneeSoft, 12) }, func(m M) { m.soft, m.knee = true, 12 }),
		sets("hard knee 12", func(i I) { i.SetKnee(dynamics.KneeHard, 12) }, func(m M) { m.soft, m.knee = false, 12 }),
		sets("attack 0.003", func(i I) { i.SetAttack(0.003) }, func(m M) { m.det.a = 0.003 }),
		sets("release 0", func(i I) { i.SetRelease(0) }, func(m M) { m.det.r = 0.001 }),
		sets("makeup 6", func(i I) { i.SetMakeupGain(6) }, func(m M) { m.mk = 6 }),
		sets("lookahead 2 ms", func(i I) { i.SetLookahead(0.002) }, func(m M) { m.d.set(4) }),
		sets("lookahead 1 s", func(i I) { i.SetLookahead(1) }, func(m M) { m.d.set(20) }),
		sets("no lookahead", func(i I) { i.SetLookahead(-1) }, func(m M) { m.d.set(0) }))
	h := nhist[I, M]{name: "compressor", tol: 1e-5, ops: ops, mk: func() I { return dynamics.NewCompressor(sr) },
		model: func() M {
			return &compm{det: detm{sr: sr, a: 0.005, r: 0.05, hold: 0.01, typ: envelope.TypeLogarithmic}, thr: -20, ratio: 4, knee: 2, soft: true}
		},
		inv: func(i I, m M) string {
			if g := i.GetGainReduction(); math.Abs(g-m.gr) > 1e-3 {
				return fmt.Sprintf("gain reduction %v dB, reference %v", g, m.gr)
			}
			return ""
		}}
	h.run(r, r.Pick(4, 5))
	// the static curve: nothing is boosted, louder stays louder, no jumps
	for _, thr := range []float64{-40, -20, -6, 0} {
		for _, ratio := range []float64{1, 1.5, 4, 20, 1000} {
			for _, knee := range []float64{0, 1, 6, 20} {
				for _, kt := range []dynamics.KneeType{dynamics.KneeHard, dynamics.KneeSoft} {
					c := dynamics.NewCompressor(48000)
					c.SetThreshold(thr)
					c.SetRatio(ratio)
					c.SetKnee(kt, knee)
					c.SetRelease(0.001)
					m := compm{thr: thr, ratio: ratio, knee: knee, soft: kt == dynamics.KneeSoft}
					prev := math.Inf(-1)
					for k := 0; k <= r.Pick(300, 1200); k++ {
						db := -70 + float64(k)*82/float64(r.Pick(300, 1200))
						x := float32(lin(db))
						var y float32
						c.Reset()
						for n := 0; n < 3; n++ { // from silence the detector jumps to the peak
							y = c.Process(x)
						}
						out := todb(float64(y))
						lab := fmt.Sprintf("threshold %v ratio %v knee %v/%v, input %.3f dB", thr, ratio, kt, knee, db)
						r.Count(1, 3)
						if w := db - m.curve(db); math.Abs(out-w) > 0.002 {
							r.Failf("curve", "%s: output %v dB, want %v", lab, out, w)
							break
						}
						if out > db+1e-4 || out < math.Min(db, thr-knee/2)-1e-3 {
							r.Failf("curve_bounds", "%s: output %v dB", lab, out)
							break
						}
						if out < prev-1e-3 {
							sig := "curve_order"
							if kt == dynamics.KneeSoft && db > thr && db <= thr+knee/2+0.3 {
								sig = fmt.Sprintf("soft knee %v dB at ratio %v falls before its upper end", knee, ratio)
							}
							r.Failf(sig, "%s: output falls from %v to %v dB while the input rises", lab, prev, out)
							if sig == "curve_order" {
								break
							}
						}
						prev = out
					}
					r.Nontrivial(1)
				}
			}
		}
	}
}

// expm is the reference expander.
type expm struct {
	det                           detm
	thr, ratio, knee, rng, at, rl float64
	g                             float64
}

func (e *expm) curve(db float64) float64 {
	full := math.Min(0, (db-e.thr)*(e.ratio-1))
	if e.knee > 0 && db >= e.thr-e.knee/2 {
		p := math.Max(0, e.thr+e.knee/2-db) / e.knee
		full *= p * p
	}
	return math.Max(full, e.rng)
}

func glide(g, target, up, down, sr float64) float64 {
	t := up
	if g > target {
		t = down
	}
	if t <= 0 {
		return target
	}
	return target + (g-target)*tc(t, sr)
}

func (e *expm) gain(x float64) float64 {
	e.g = glide(e.g, lin(e.curve(todb(e.det.detect(x)))), e.rl, e.at, e.det.sr)
	return e.g
}

func p37(r *core.Run) {
	if !r.Shard0() {
		return
	}
	const sr = 2000
	{
		type I = *dynamics.Expander
		type M = *expm
		var ops []nop[I, M]
		for _, x := range []float32{0, 0.5, -0.01, 0.001} {
			for _, n := range []int{1, 12} {
				x, n := x, n
				ops = append(ops, nop[I, M]{fmt.Sprintf("%d times %v", n, x), func(i I) []float64 { return times(n, func() float64 { return float64(i.Process(x)) }) },
					func(m M) []float64 {
						return times(n, func() float64 { return float64(x) * m.gain(float64(x)) })
					}})
			}
		}
		quiet := []float32{0.01, -0.02, 0.004, 0.1, 0, 0.009, 0.0001, -0.3}
		ops = append(ops,
			nop[I, M]{"block", func(i I) []float64 { o := append([]float32(nil), quiet...); i.ProcessBuffer(o, o); return f64s(o) }, func(m M) []float64 {
				var o []float64
				for _, x := range quiet {
					o = append(o, float64(x)*m.gain(float64(x)))
				}
				return o
			}},
			nop[I, M]{"stereo", func(i I) []float64 {
				l, rr := append([]float32(nil), quiet[:5]...), append([]float32(nil), quiet[3:8]...)
				i.ProcessStereo(l, rr, l, rr)
				return f64s(append(l, rr...))
			}, func(m M) []float64 {
				a, b := make([]float64, 5), make([]float64, 5)
				for k := range a {
					l, rr := float64(quiet[k]), float64(quiet[k+3])
					g := m.gain(math.Max(math.Abs(l), math.Abs(rr)))
					a[k], b[k] = l*g, rr*g
				}
				return append(a, b...)
			}},
			sets("reset", func(i I) { i.Reset() }, func(m M) { m.det.env, m.g = 0, 1 }),
			sets("threshold -10", func(i I) { i.SetThreshold(-10) }, func(m M) { m.thr = -10 }),
			sets("ratio 0", func(i I) { i.SetRatio(0) }, func(m M) { m.ratio = 1 }),
			sets("ratio 5", func(i I) { i.SetRatio(5) }, func(m M) { m.ratio = 5 }),
			sets("ratio 60", func(i I) { i.SetRatio(60) }, func(m M) { m.ratio = 60 }),
			sets("knee 20", func(i I) { i.SetKnee(20) }, func(m M) { m.knee = 20 }),
			sets("knee -1", func(i I) { i.SetKnee(-1) }, func(m M) { m.knee = 0 }),
			sets("range -3", func(i I) { i.SetRange(-3) }, func(m M) { m.rng = -3 }),
			sets("range 5", func(i I) { i.SetRange(5) }, func(m M) { m.rng = 0 }),
			sets("attack 0", func(i I) { i.SetAttack(-1) }, func(m M) { m.at, m.det.a = 0, 0.0001 }),
			sets("release 0.01", func(i I) { i.SetRelease(0.01) }, func(m M) { m.rl, m.det.r = 0.01, 0.01 }))
		h := nhist[I, M]{name: "expander", tol: 1e-5, ops: ops, mk: func() I { return dynamics.NewExpander(sr) },
			model: func() M {
				return &expm{det: detm{sr: sr, a: 0.001, r: 0.1, hold: 0.01, typ: envelope.TypeLogarithmic}, thr: -40, ratio: 2, knee: 2, rng: -40, at: 0.001, rl: 0.1, g: 1}
			},
			inv: func(i I, m M) string {
				if g := i.GetGainReduction(); math.Abs(g-math.Min(0, todb(m.g))) > 1e-3 {
					return fmt.Sprintf("gain reduction %v dB, reference %v", g, todb(m.g))
				}
				return ""
			}}
		h.run(r, r.Pick(4, 5))
		for _, thr := range []float64{-60, -30, -10} {
			for _, ratio := range []float64{1, 2, 8, 60} {
				for _, knee := range []float64{0, 2, 20} {
					for _, rng := range []float64{-60, -12, -1, 0} {
						e := dynamics.NewExpander(48000)
						e.SetThreshold(thr)
						e.SetRatio(ratio)
						e.SetKnee(knee)
						e.SetRange(rng)
						e.SetAttack(0)
						e.SetRelease(0)
						m := expm{thr: thr, ratio: ratio, knee: knee, rng: rng}
						prev := math.Inf(-1)
						for k := 0; k <= 300; k++ {
							db := -90 + float64(k)*0.3
							e.Reset()
							var y float32
							for n := 0; n < 3; n++ {
								y = e.Process(float32(lin(db)))
							}
							g := todb(float64(y)) - db
							lab := fmt.Sprintf("threshold %v ratio %v knee %v range %v, input %.2f dB", thr, ratio, knee, rng, db)
							r.Count(1, 3)
							if w := m.curve(db); math.Abs(g-w) > 0.002 {
								r.Failf("expander_curve", "%s: gain %v dB, want %v", lab, g, w)
								break
							}
							if g > 1e-3 || g < rng-1e-3 {
								r.Failf("expander_bounds", "%s: gain %v dB", lab, g)
								break
							}
							if g < prev-1e-3 {
								r.Failf("expander_order", "%s: gain falls from %v to %v dB while the input rises", lab, prev, g)
								break
							}
							prev = g
						}
						r.Nontrivial(1)
					}
				}
			}
		}
	}
	p37gate(r)
}

// gatem is the reference gate.
type gatem struct {
	sr, thr, hys, at, hold, rl, rng float64
	st                              string
	cnt                             int
	g                               float64
	open                            bool
	hpf                             bool
	fc                              float64
	x, y                            [2]float64
}

func (g *gatem) filter(ch int, x float64) float64 {
	if !g.hpf {
		return x
	}
	a := math.Exp(-2 * math.Pi * g.fc / g.sr)
	y := (1+a)/2*(x-g.x[ch]) + a*g.y[ch]
	g.x[ch], g.y[ch] = x, y
	return y
}

func (g *gatem) gain(level float64) float64 {
	db := todb(math.Abs(level))
	floor := lin(g.rng)
	switch g.st {
	case "closed":
		if db > g.thr {
			g.st = "attack"
		}
	case "attack":
		if g.g >= 0.99 {
			g.st, g.open = "open", true
		} else if db < g.thr-g.hys {
			g.st = "release"
		}
	case "open":
		if db < g.thr-g.hys {
			g.st, g.cnt = "hold", int(g.hold*g.sr)
		}
	case "hold":
		if db > g.thr-g.hys {
			g.st = "open"
		} else if g.cnt > 0 {
			g.cnt--
		} else {
			g.st, g.open = "release", false
		}
	case "release":
		if db > g.thr {
			g.st = "attack"
		}
	}
	target := floor
	if g.st == "attack" || g.st == "open" || g.st == "hold" {
		target = 1
	}
	g.g = glide(g.g, target, g.at, g.rl, g.sr)
	if g.st == "attack" && g.g >= 0.99 {
		g.st, g.open = "open", true
	} else if g.st == "release" && g.g <= target*1.01 {
		g.st = "closed"
	}
	return g.g
}

func p37gate(r *core.Run) {
	type I = *dynamics.Gate
	type M = *gatem
	const sr = 2000
	var ops []nop[I, M]
	for _, x := range []float32{0, 0.5, -0.15, 0.03} {
		for _, n := range []int{1, 5, 40} {
			x, n := x, n
			if n == 40 && x != 0.5 && x != 0 {
				continue
			}
			ops = append(ops, nop[I, M]{fmt.Sprintf("%d times %v", n, x), func(i I) []float64 { return times(n, func() float64 { return float64(i.Process(x)) }) },
				func(m M) []float64 {
					return times(n, func() float64 { return float64(x) * m.gain(m.filter(0, float64(x))) })
				}})
		}
	}
	for _, x := range []float32{0, 0.5} {
		for _, n := range []int{1, 5, 40} {
			x, n := x, n
			ops = append(ops, nop[I, M]{fmt.Sprintf("%d times %v in stereo", n, x), func(i I) []float64 {
				return times(2*n, func() float64 {
					l, rr := []float32{x / 2}, []float32{-x}
					i.ProcessStereo(l, rr, l, rr)
					return float64(l[0]*4 + rr[0])
				})
			}, func(m M) []float64 {
				return times(2*n, func() float64 {
					l, rr := float64(x)/2, -float64(x)
					g := m.gain(math.Max(math.Abs(m.filter(0, l)), math.Abs(m.filter(1, rr))))
					return l*g*4 + rr*g
				})
			}})
		}
	}
	in := []float32{0.5, -0.6, 0.01, 0.15, 0, -0.5, 0.3, 0.02}
	ops = append(ops,
		nop[I, M]{"block", func(i I) []float64 { o := append([]float32(nil), in...); i.ProcessBuffer(o, o); return f64s(o) }, func(m M) []float64 {
			var o []float64
			for _, x := range in {
				o = append(o, float64(x)*m.gain(m.filter(0, float64(x))))
			}
			return o
		}},
		nop[I, M]{"stereo", func(i I) []float64 {
			l, rr := append([]float32(nil), in[:5]...), append([]float32(nil), in[3:8]...)
			i.ProcessStereo(l, rr, l, rr)
			return f64s(append(l, rr...))
		}, func(m M) []float64 {
			a, b := make([]float64, 5), make([]float64, 5)
			for k := range a {
				l, rr := float64(in[k]), float64(in[k+3])
				g := m.gain(math.Max(math.Abs(m.filter(0, l)), math.Abs(m.filter(1, rr))))
				a[k], b[k] = l*g, rr*g
			}
			return append(a, b...)
		}},
		sets("reset", func(i I) { i.Reset() }, func(m M) {
			m.st, m.cnt, m.g, m.open = "closed", 0, lin(m.rng), false
			m.x, m.y = [2]float64{}, [2]float64{}
		}),
		sets("threshold -3", func(i I) { i.SetThreshold(-3) }, func(m M) { m.thr = -3 }),
		sets("hysteresis -1", func(i I) { i.SetHysteresis(-1) }, func(m M) { m.hys = 0 }),
		sets("hysteresis 12", func(i I) { i.SetHysteresis(12) }, func(m M) { m.hys = 12 }),
		sets("hysteresis 40", func(i I) { i.SetHysteresis(40) }, func(m M) { m.hys = 40 }),
		sets("attack 0", func(i I) { i.SetAttack(-2) }, func(m M) { m.at = 0 }),
		sets("release 0", func(i I) { i.SetRelease(0) }, func(m M) { m.rl = 0 }),
		sets("hold 0", func(i I) { i.SetHold(-1) }, func(m M) { m.hold = 0 }),
		sets("hold 2 ms", func(i I) { i.SetHold(0.002) }, func(m M) { m.hold = 0.002 }),
		sets("range -6", func(i I) { i.SetRange(-6) }, func(m M) {
			m.rng = -6
			if m.st == "closed" {
				m.g = lin(-6)
			}
		}),
		sets("range without end", func(i I) { i.SetRange(-1e4) }, func(m M) {
			m.rng = -1e4
			if m.st == "closed" {
				m.g = 0
			}
		}),
		sets("range 3", func(i I) { i.SetRange(3) }, func(m M) {
			m.rng = 0
			if m.st == "closed" {
				m.g = 1
			}
		}),
		sets("filter", func(i I) { i.SetSidechainFilter(true, 300) }, func(m M) { m.hpf, m.fc = true, 300 }),
		sets("filter at 700 Hz", func(i I) { i.SetSidechainFilter(true, 700) }, func(m M) { m.hpf, m.fc = true, 700 }),
		sets("filter at 5 kHz", func(i I) { i.SetSidechainFilter(true, 5000) }, func(m M) { m.hpf, m.fc = true, sr/2 }),
		sets("filter at 0 Hz", func(i I) { i.SetSidechainFilter(true, 0) }, func(m M) { m.hpf, m.fc = true, 20 }),
		sets("no filter", func(i I) { i.SetSidechainFilter(false, 100) }, func(m M) { m.hpf, m.fc = false, 100 }))
	h := nhist[I, M]{name: "gate", tol: 1e-5, ops: ops,
		mk: func() I {
			g := dynamics.NewGate(sr)
			g.SetThreshold(-12)
			g.SetRelease(0.004)
			g.SetHold(0.0015)
			return g
		},
		model: func() M {
			return &gatem{sr: sr, thr: -12, hys: 5, at: 0.001, hold: 0.0015, rl: 0.004, rng: -80, st: "closed", g: lin(-80)}
		},
		inv: func(i I, m M) string {
			if i.GetState() != m.st || i.IsOpen() != m.open {
				return fmt.Sprintf("state %s open %v, reference %s %v", i.GetState(), i.IsOpen(), m.st, m.open)
			}
			w := todb(m.g)
			if m.g == 0 {
				w = m.rng
			}
			if g := i.GetGainReduction(); math.Abs(g-w) > 0.11 {
				return fmt.Sprintf("gain reduction %v dB, reference %v", g, w)
			}
			return ""
		}}
	h.run(r, r.Pick(4, 5))
	h.deep(r, r.Pick(6, 7), "1 times 0 in stereo", "5 times 0 in stereo", "1 times 0.5 in stereo", "40 times 0.5 in stereo", "1 times 0", "5 times 0.5", "1 times -0.15")
	// default gate
	g, m := dynamics.NewGate(48000), &gatem{sr: 48000, thr: -40, hys: 5, at: 0.001, hold: 0.01, rl: 0.1, rng: -80, st: "closed", g: lin(-80)}
	for n := 0; n < 96000; n++ {
		x := float32(0.001)
		if n%24000 < 5000 {
			x = 0.1
		}
		if a, b := float64(g.Process(x)), float64(x)*m.gain(float64(x)); !core.Close(a, b, 1e-5) {
			r.Failf("gate_default", "default gate: sample %d is %v, want %v", n, a, b)
			break
		}
	}
	r.Count(1, 96000)
}

func p38(r *core.Run) {
	if !r.Shard0() {
		return
	}
	// The limiter by its guarantees: the delayed input, scaled by a gain of at
	// most 1, never above the ceiling.
	type M = *limm
	type I = *limi
	in := []float32{0.9, -0.2, 0.05, 3, -1, 0.3, 0, 0.99, -1.2, 0.1}
	for _, tp := range []bool{false, true} {
		for _, c := range [][2]float64{{4000, 0}, {4000, 0.001}, {4000, 0.005}, {32000, 0}, {32000, 0.0011}} {
			tp, sr, look := tp, c[0], c[1]
			samples := func(t float64) int { return int(t * sr) }
			step := func(i I, x float32) float64 { return i.note(x, i.l.Process(x)) }
			var ops []nop[I, M]
			for _, x := range []float32{0, 1, -0.6, 0.3, 1.9, 0.4} {
				x := x
				ops = append(ops, nop[I, M]{fmt.Sprint("process ", x), func(i I) []float64 { return []float64{step(i, x)} }, func(m M) []float64 { return []float64{m.step(float64(x))} }})
			}
			ops = append(ops,
				nop[I, M]{"30 times 0.8", func(i I) []float64 { return times(30, func() float64 { return step(i, 0.8) }) }, func(m M) []float64 { return times(30, func() float64 { return m.step(0.8) }) }},
				nop[I, M]{"block", func(i I) []float64 {
					o := append([]float32(nil), in...)
					i.l.ProcessBuffer(o, o)
					var w []float64
					for k, y := range o {
						w = append(w, i.note(in[k], y))
					}
					return w
				}, func(m M) []float64 {
					var o []float64
					for _, x := range in {
						o = append(o, m.step(float64(x)))
					}
					return o
				}},
				nop[I, M]{"stereo", func(i I) []float64 {
					if i.n != 0 {
						return nil
					}
					a, b := append([]float32(nil), in[:6]...), append([]float32(nil), in[4:]...)
					i.l.ProcessStereo(a, b, a, b)
					return i.pair(in[:6], in[4:], a, b)
				}, func(m M) []float64 { return nil }},
				nop[I, M]{"stereo twin", func(i I) []float64 {
					if i.n != 0 {
						return nil
					}
					a, b := append([]float32(nil), in...), append([]float32(nil), in...)
					i.l.ProcessStereo(a, b, a, b)
					var w []float64
					for k, y := range a {
						if a[k] != b[k] {
							i.bad = fmt.Sprintf("equal channels came out as %v and %v", a[k], b[k])
						}
						w = append(w, i.note(in[k], y))
					}
					return w
				}, func(m M) []float64 {
					if m.d.n != 0 {
						return nil
					}
					var o []float64
					for _, x := range in {
						o = append(o, m.step(float64(x)))
					}
					return o
				}},
				sets("reset", func(i I) { i.l.Reset(); i.in = nil; i.quiet = true; i.lx = 0 }, func(m M) { m.det.env, m.d.q, m.last, m.pk.env, m.gr = 0, nil, 0, 0, 0 }),
				sets("threshold -6", func(i I) { i.l.SetThreshold(-6); i.ceil = lin(-6) }, func(m M) { m.thr = -6 }),
				sets("threshold 6", func(i I) { i.l.SetThreshold(6); i.ceil = 1 }, func(m M) { m.thr = 0 }),
				sets("lookahead 0.8 ms", func(i I) { i.look(0.0008, samples(0.0008)) }, func(m M) { m.d.set(samples(0.0008)) }),
				sets("lookahead 1.6 ms", func(i I) { i.look(0.0016, samples(0.0016)) }, func(m M) { m.d.set(samples(0.0016)) }),
				sets("no lookahead", func(i I) { i.look(0, 0) }, func(m M) { m.d.set(0) }),
				sets("release 0", func(i I) { i.l.SetRelease(0) }, func(m M) { m.det.r = 0.001 }))
			h := nhist[I, M]{name: fmt.Sprintf("limiter_truepeak_%v_lookahead_%v_rate_%v", tp, look, sr), tol: 1e-5, ops: ops,
				mk: func() I {
					l := dynamics.NewLimiter(sr)
					l.SetTruePeak(tp)
					l.SetLookahead(look)
					return &limi{l: l, ceil: lin(-0.3), n: int(look * sr), quiet: true}
				},
				model: func() M {
					return &limm{det: detm{sr: sr, a: 0.0001, r: 0.05, hold: 0.01}, pk: detm{sr: sr, a: 0.0001, r: 0.001, hold: 0.01}, thr: -0.3, tp: tp, d: dly{n: int(look * sr)}}
				},
				inv: func(i I, m M) string {
					i.meter(i.lx, i.ly)
					if g := i.l.GetGainReduction(); m != nil && math.Abs(g-m.gr) > 1e-3 {
						return fmt.Sprintf("gain reduction shown as %v dB, reference %v", g, m.gr)
					}
					return i.bad
				}}
			// histories with "stereo" are checked by guarantees only: drop the
			// comparison by running them in a family of their own
			st := h
			st.name += "_stereo"
			st.model = func() M { return nil }
			st.ops = nil
			var mono []nop[I, M]
			for _, o := range ops {
				o := o
				if o.name != "stereo" {
					mono = append(mono, o)
				}
				st.ops = append(st.ops, nop[I, M]{o.name, func(i I) []float64 { o.do(i); return nil }, func(M) []float64 { return nil }})
			}
			h.ops = mono
			h.run(r, r.Pick(4, 5))
			h.deep(r, r.Pick(6, 7), "process 1", "process -0.6", "process 0", "30 times 0.8", "lookahead 0.8 ms", "lookahead 1.6 ms", "no lookahead")
			if look == 0 {
				st.run(r, r.Pick(4, 5))
			}
		}
	}
	// recovery: after a loud passage a quiet one is passed on unchanged again
	for _, rel := range []float64{0.001, 0.01, 0.2} {
		for _, tp := range []bool{false, true} {
			l := dynamics.NewLimiter(8000)
			l.SetRelease(rel)
			l.SetTruePeak(tp)
			l.SetLookahead(0)
			for n := 0; n < 100; n++ {
				l.Process(4)
			}
			var y float32
			for n := 0; n < int(rel*8000*8)+100; n++ {
				y = l.Process(0.5)
			}
			r.Count(1, 1)
			if y != 0.5 || l.GetGainReduction() != 0 {
				r.Failf("recover", "release %v: a quiet passage after a loud one still comes out as %v (reduction %v)", rel, y, l.GetGainReduction())
			}
		}
	}
}

type limm struct {
	det, pk detm
	thr     float64
	tp      bool
	d       dly
	last    float64
	gr      float64
}

func (m *limm) step(x float64) float64 {
	det := math.Abs(x)
	if m.tp {
		det = math.Max(det, math.Abs(m.last))
		m.last = x
	}
	y := m.d.step(x)
	if m.tp && m.d.n > 0 {
		det = math.Max(det, m.pk.detect(y))
	}
	lvl := math.Max(m.det.detect(det), math.Abs(y))
	m.gr = math.Max(0, todb(lvl)-m.thr)
	return y * lin(-m.gr)
}

// limi is the limiter under a monitor of its guarantees.
type limi struct {
	l     *dynamics.Limiter
	ceil  float64
	n     int
	in    []float32
	quiet bool // nothing above the ceiling was ever seen
	bad   string
	// the last sample and what became of it
	lx, ly float32
}

func (i *limi) check(x, y float32) {
	switch {
	case math.Abs(float64(y)) > i.ceil*(1+1e-5):
		i.bad = fmt.Sprintf("output %v is above the ceiling %v", y, i.ceil)
	case math.Abs(float64(y)) > math.Abs(float64(x))*(1+1e-6) || x*y < 0 || x != 0 && y == 0:
		i.bad = fmt.Sprintf("output %v for (delayed) input %v", y, x)
	case i.quiet && math.Abs(float64(y-x)) > 1e-6:
		i.bad = fmt.Sprintf("nothing reached the ceiling but %v came out as %v", x, y)
	}
	if g := i.l.GetGainReduction(); !(g >= 0) {
		i.bad = fmt.Sprintf("gain reduction %v", g)
	}
}

// meter: the reduction shown is the gain the last sample got.
func (i *limi) meter(x, y float32) {
	if x != 0 && math.Abs(-20*math.Log10(float64(y/x))-i.l.GetGainReduction()) > 1e-3 {
		i.bad = fmt.Sprintf("sample %v became %v but the gain reduction is shown as %v dB", x, y, i.l.GetGainReduction())
	}
}

// look changes the lookahead: what was on its way is dropped.
func (i *limi) look(seconds float64, n int) {
	i.l.SetLookahead(seconds)
	if n != i.n {
		i.n, i.in = n, nil
	}
}

func (i *limi) note(x, y float32) float64 {
	i.in = append(i.in, x)
	if math.Abs(float64(x)) > 0.5 {
		i.quiet = false
	}
	var d float32
	if k := len(i.in) - 1 - i.n; k >= 0 {
		d = i.in[k]
	}
	i.check(d, y)
	i.lx, i.ly = d, y
	return float64(y)
}

func (i *limi) pair(l, r, a, b []float32) []float64 {
	for k := range a {
		if math.Max(math.Abs(float64(l[k])), math.Abs(float64(r[k]))) > 0.5 {
			i.quiet = false
		}
		i.check(l[k], a[k])
		i.check(r[k], b[k])
		if i.lx, i.ly = l[k], a[k]; l[k] == 0 {
			i.lx, i.ly = r[k], b[k]
		}
		if math.Abs(float64(a[k])*float64(r[k])-float64(b[k])*float64(l[k])) > 1e-5 {
			i.bad = fmt.Sprintf("the channels got different gains: %v->%v and %v->%v", l[k], a[k], r[k], b[k])
		}
	}
	i.in = append(i.in, l...)
	return nil
}
