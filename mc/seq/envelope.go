package seq

import (
	"fmt"
	"math"

	"github.com/justyntemme/vst3go/pkg/dsp/envelope"
	"github.com/justyntemme/vst3go/verifmc/core"
)

func init() {
	core.Register("P34", p34)
	core.Register("P35", p35)
}

func tc(seconds, sr float64) float64 { return math.Exp(-1 / (seconds * sr)) }

// adsr is the reference envelope: exponential segments towards 1, the current
// sustain level and 0.
type adsr struct {
	sr, a, d, s, r float64
	st             envelope.Stage
	v              float64
}

func (e *adsr) next() float64 {
	go1 := func(t, sec float64) { e.v = t + (e.v-t)*tc(sec, e.sr) }
	switch e.st {
	case envelope.StageAttack:
		go1(1, e.a)
		if e.v >= 0.999 {
			e.v, e.st = 1, envelope.StageDecay
		}
	case envelope.StageDecay:
		go1(e.s, e.d)
		if e.v <= e.s+0.001 {
			e.v, e.st = e.s, envelope.StageSustain
		}
	case envelope.StageSustain:
		e.v = e.s
	case envelope.StageRelease:
		go1(0, e.r)
		if e.v <= 0.001 {
			e.v, e.st = 0, envelope.StageIdle
		}
	case envelope.StageIdle:
		e.v = 0
	}
	return e.v
}

func p34(r *core.Run) {
	if !r.Shard0() {
		return
	}
	type I = *envelope.ADSR
	type M = *adsr
	for _, sr := range []float64{1000, 4000} {
		for _, par := range [][4]float64{{0.003, 0.004, 0.5, 0.002}, {0.001, 0.001, 0, 0.001}, {0.01, 0.1, 0.7, 0.3}, {0.002, 0.003, 1, 0.05}} {
			sr, par := sr, par
			run := func(n int) nop[I, M] {
				return nop[I, M]{fmt.Sprint("run ", n), func(i I) []float64 {
					b := make([]float32, n)
					i.Process(b)
					return f64s(b)
				}, func(m M) []float64 { return times(n, m.next) }}
			}
			mul := nop[I, M]{"multiply 3", func(i I) []float64 {
				b := []float32{2, 0, -4, 1}
				i.ProcessMultiply(b)
				return f64s(b)
			}, func(m M) []float64 { return []float64{2 * m.next(), 0 * m.next(), -4 * m.next(), m.next()} }}
			one := nop[I, M]{"next", func(i I) []float64 { return []float64{float64(i.Next())} }, func(m M) []float64 { return []float64{m.next()} }}
			trig := sets("trigger", func(i I) { i.Trigger() }, func(m M) { m.st = envelope.StageAttack })
			rel := sets("release", func(i I) { i.Release() }, func(m M) {
				if m.st != envelope.StageIdle {
					m.st = envelope.StageRelease
				}
			})
			reset := sets("reset", func(i I) { i.Reset() }, func(m M) { m.v, m.st = 0, envelope.StageIdle })
			ops := []nop[I, M]{trig, rel, one, run(4), run(int(sr / 4)), mul, reset}
			for _, s := range []float64{0.2, 0.9, 2, -1} {
				s := s
				ops = append(ops, sets(fmt.Sprint("sustain ", s), func(i I) { i.SetSustain(s) }, func(m M) { m.s = math.Min(1, math.Max(0, s)) }))
			}
			ops = append(ops,
				sets("attack 0.005", func(i I) { i.SetAttack(0.005) }, func(m M) { m.a = 0.005 }),
				sets("attack 0", func(i I) { i.SetAttack(0) }, func(m M) { m.a = 0.001 }),
				sets("decay 0.006", func(i I) { i.SetDecay(0.006) }, func(m M) { m.d = 0.006 }),
				sets("release time 0.004", func(i I) { i.SetRelease(0.004) }, func(m M) { m.r = 0.004 }),
				sets("adsr", func(i I) { i.SetADSR(0.002, 0, 0.3, 0.003) }, func(m M) { m.a, m.d, m.s, m.r = 0.002, 0.001, 0.3, 0.003 }))
			h := nhist[I, M]{name: fmt.Sprintf("adsr_%v_%v", sr, par), tol: 1e-6, ops: ops,
				mk: func() I { e := envelope.New(sr); e.SetADSR(par[0], par[1], par[2], par[3]); return e },
				model: func() M {
					return &adsr{sr: sr, a: math.Max(0.001, par[0]), d: math.Max(0.001, par[1]), s: par[2], r: math.Max(0.001, par[3])}
				},
				inv: func(i I, m M) string {
					if i.GetStage() != m.st {
						return fmt.Sprintf("stage %d, reference %d", i.GetStage(), m.st)
					}
					if i.IsActive() != (m.st != envelope.StageIdle) {
						return "IsActive disagrees with the stage"
					}
					return ""
				}}
			h.run(r, r.Pick(4, 5))
			r.Nontrivial(1)
		}
	}
	// defaults, and the whole life of a note
	for _, sr := range []float64{8000, 44100, 48000, 192000} {
		e := envelope.New(sr)
		m := &adsr{sr: sr, a: 0.01, d: 0.1, s: 0.7, r: 0.3}
		e.Trigger()
		m.st = envelope.StageAttack
		for n := 0; n < int(sr*4); n++ {
			if n == int(sr) {
				e.Release()
				m.st = envelope.StageRelease
			}
			if g, w := float64(e.Next()), m.next(); !core.Close(g, w, 1e-5) {
				r.Failf("adsr_defaults", "default envelope at %v Hz: sample %d is %v, want %v", sr, n, g, w)
				break
			}
		}
		r.Count(1, int64(sr*4))
	}
	adsrTimes(r)
	p34ar(r)
}

// adsrTimes plays every pattern of three note events at every sample position:
// each ordered choice of trigger or release at each pair of distances.
func adsrTimes(r *core.Run) {
	top := r.Pick(28, 60)
	for _, par := range [][4]float64{{0.001, 0.001, 0.5, 0.002}, {0.003, 0.002, 0, 0.003}, {0.002, 0.004, 1, 0.005}, {0.001, 0.001, 0.02, 0.001}, {0.004, 0.001, 0.002, 0.002}} {
		par := par
		for pat := 0; pat < 4; pat++ {
			for a := 0; a <= top; a++ {
				for b := 0; b <= top; b++ {
					if r.Failed("adsr_times") {
						return
					}
					e := envelope.New(1000)
					e.SetADSR(par[0], par[1], par[2], par[3])
					m := &adsr{sr: 1000, a: par[0], d: par[1], s: par[2], r: par[3]}
					ev := func(release bool) {
						if release {
							e.Release()
							if m.st != envelope.StageIdle {
								m.st = envelope.StageRelease
							}
						} else {
							e.Trigger()
							m.st = envelope.StageAttack
						}
					}
					n := 0
					run := func(k int) {
						for ; k > 0; k-- {
							n++
							if g, w := float64(e.Next()), m.next(); !core.Close(g, w, 1e-6) || e.GetStage() != m.st {
								r.Failf("adsr_times", "adsr %v, events after %d and %d samples (pattern %d): sample %d is %v in stage %d, want %v in %d", par, a, a+b, pat, n, g, e.GetStage(), w, m.st)
								return
							}
						}
					}
					ev(false)
					run(a)
					ev(pat&1 == 0)
					run(b)
					ev(pat&2 != 0)
					run(24)
					r.Count(1, int64(n))
					r.Trace(1)
				}
			}
		}
	}
	r.Bound("adsr_event_distance", top)
}

type arm struct {
	sr, a, r, t, v float64
	on             bool
}

func (e *arm) next() float64 {
	s := e.r
	if e.on {
		s = e.a
	}
	e.v = e.t + (e.v-e.t)*tc(s, e.sr)
	return e.v
}

type folm struct{ sr, a, r, v float64 }

func (f *folm) follow(x float64) float64 {
	x = math.Abs(x)
	s := f.r
	if x > f.v {
		s = f.a
	}
	f.v = x + (f.v-x)*tc(s, f.sr)
	return f.v
}

func p34ar(r *core.Run) {
	{
		type I = *envelope.AR
		type M = *arm
		run := func(n int) nop[I, M] {
			return nop[I, M]{fmt.Sprint("run ", n), func(i I) []float64 {
				b := make([]float32, n)
				i.Process(b)
				return f64s(b)
			}, func(m M) []float64 { return times(n, m.next) }}
		}
		h := nhist[I, M]{name: "ar", tol: 1e-6, mk: func() I { return envelope.NewAR(1000) }, model: func() M { return &arm{sr: 1000, a: 0.01, r: 0.1} },
			ops: []nop[I, M]{
				run(1), run(7), run(100),
				sets("trigger", func(i I) { i.Trigger() }, func(m M) { m.on, m.t = true, 1 }),
				sets("release", func(i I) { i.Release() }, func(m M) { m.on, m.t = false, 0 }),
				sets("attack 0.02", func(i I) { i.SetAttack(0.02) }, func(m M) { m.a = 0.02 }),
				sets("attack -1", func(i I) { i.SetAttack(-1) }, func(m M) { m.a = 0.001 }),
				sets("release 0.05", func(i I) { i.SetRelease(0.05) }, func(m M) { m.r = 0.05 }),
				sets("release 0", func(i I) { i.SetRelease(0) }, func(m M) { m.r = 0.001 }),
				{"multiply", func(i I) []float64 { b := []float32{3, 0, -2}; i.ProcessMultiply(b); return f64s(b) }, func(m M) []float64 { return []float64{3 * m.next(), 0 * m.next(), -2 * m.next()} }},
				{"next", func(i I) []float64 { return []float64{float64(i.Next())} }, func(m M) []float64 { return []float64{m.next()} }},
			}}
		h.run(r, r.Pick(4, 6))
	}
	type I = *envelope.Follower
	type M = *folm
	var ops []nop[I, M]
	for _, x := range []float32{0, 1, -0.5, 4} {
		x := x
		ops = append(ops, nop[I, M]{fmt.Sprint("follow ", x), func(i I) []float64 { return []float64{float64(i.Follow(x))} }, func(m M) []float64 { return []float64{m.follow(float64(x))} }})
	}
	in := []float32{0.25, -2, 0, 0, 0.125, 1}
	ops = append(ops, nop[I, M]{"process", func(i I) []float64 { o := make([]float32, len(in)); i.Process(in, o); return f64s(o) }, func(m M) []float64 {
		var o []float64
		for _, x := range in {
			o = append(o, m.follow(float64(x)))
		}
		return o
	}}, nop[I, M]{"process in place", func(i I) []float64 { o := append([]float32(nil), in...); i.Process(o, o); return f64s(o) }, func(m M) []float64 {
		var o []float64
		for _, x := range in {
			o = append(o, m.follow(float64(x)))
		}
		return o
	}},
		sets("attack 0.02", func(i I) { i.SetAttack(0.02) }, func(m M) { m.a = 0.02 }),
		sets("attack 0", func(i I) { i.SetAttack(0) }, func(m M) { m.a = 0.0001 }),
		sets("release 0.003", func(i I) { i.SetRelease(0.003) }, func(m M) { m.r = 0.003 }),
		sets("release 0", func(i I) { i.SetRelease(-3) }, func(m M) { m.r = 0.0001 }))
	h := nhist[I, M]{name: "follower", tol: 1e-6, ops: ops, mk: func() I { return envelope.NewFollower(1000) }, model: func() M { return &folm{sr: 1000, a: 0.01, r: 0.1} }}
	h.run(r, r.Pick(4, 6))
}

// detm is the reference level detector.
type detm struct {
	sr, a, r, hold float64
	mode           envelope.DetectorMode
	typ            envelope.DetectorType
	win            int
	sq             []float64
	env            float64
	count          int
}

func (d *detm) detect(x float64) float64 {
	lvl := math.Abs(x)
	if d.mode == envelope.ModeRMS {
		d.sq = append(d.sq, x*x)
		s := 0.0
		for k := max(0, len(d.sq)-d.win); k < len(d.sq); k++ {
			s += d.sq[k]
		}
		lvl = math.Sqrt(s / float64(d.win))
	}
	k := 1.0
	if d.typ == envelope.TypeLogarithmic {
		k = 2.2
	}
	ca, cr := 1-math.Exp(-k/(d.a*d.sr)), 1-math.Exp(-k/(d.r*d.sr))
	held := int(d.hold * d.sr)
	switch {
	case lvl > d.env:
		d.env += (lvl - d.env) * ca
		if d.mode != envelope.ModeRMS && d.typ != envelope.TypeAnalog && (ca > 0.5 || lvl > 2*d.env) {
			d.env = lvl
		}
		d.count = held
	case lvl == d.env:
		d.count = held
	case d.mode == envelope.ModePeakHold && d.count > 0:
		d.count--
	default:
		d.env += (lvl - d.env) * cr
	}
	return d.env
}

func p35(r *core.Run) {
	if !r.Shard0() {
		return
	}
	type I = *envelope.Detector
	type M = *detm
	const sr = 2000
	al := []float32{0, 1, -0.25, 3, 0.6}
	for mode := envelope.ModePeak; mode <= envelope.ModePeakHold; mode++ {
		for typ := envelope.TypeLinear; typ <= envelope.TypeAnalog; typ++ {
			mode, typ := mode, typ
			var ops []nop[I, M]
			for _, x := range al {
				for _, n := range []int{1, 9} {
					x, n := x, n
					ops = append(ops, nop[I, M]{fmt.Sprintf("%d times %v", n, x), func(i I) []float64 {
						return times(n, func() float64 { return float64(i.Detect(x)) })
					}, func(m M) []float64 { return times(n, func() float64 { return m.detect(float64(x)) }) }})
				}
			}
			in := []float32{0.5, -0.5, 2, 0, 0, 0.1, 0, 0}
			blk := func(m M) []float64 {
				var o []float64
				for _, x := range in {
					o = append(o, m.detect(float64(x)))
				}
				return o
			}
			ops = append(ops,
				nop[I, M]{"block", func(i I) []float64 { o := make([]float32, len(in)); i.Process(in, o); return f64s(o) }, blk},
				nop[I, M]{"sidechain block", func(i I) []float64 {
					o := make([]float32, len(in))
					i.ProcessSidechain(make([]float32, len(in)), in, o)
					return f64s(o)
				}, blk},
				sets("reset", func(i I) { i.Reset() }, func(m M) { m.env, m.count, m.sq = 0, 0, nil }),
				sets("times 0.002 0.004", func(i I) { i.SetTimeConstants(0.002, 0.004) }, func(m M) { m.a, m.r = 0.002, 0.004 }),
				sets("attack 0", func(i I) { i.SetAttack(0) }, func(m M) { m.a = 0.0001 }),
				sets("release 0.0005", func(i I) { i.SetRelease(0.0005) }, func(m M) { m.r = 0.0005 }),
				sets("hold 0.002", func(i I) { i.SetHold(0.002) }, func(m M) { m.hold = 0.002 }),
				sets("hold -1", func(i I) { i.SetHold(-1) }, func(m M) { m.hold = 0 }))
			h := nhist[I, M]{name: fmt.Sprintf("detector_mode%d_type%d", mode, typ), tol: 2e-6, ops: ops,
				mk: func() I {
					d := envelope.NewDetector(sr, mode)
					d.SetType(typ)
					d.SetAttack(0.005)
					d.SetRelease(0.01)
					d.SetHold(0.0015)
					d.SetRMSWindow(2)
					return d
				},
				model: func() M {
					return &detm{sr: sr, a: 0.005, r: 0.01, hold: 0.0015, mode: mode, typ: typ, win: 4}
				},
				inv: func(i I, m M) string {
					if g := float64(i.GetEnvelope()); !core.Close(g, m.env, 2e-6) {
						return fmt.Sprintf("GetEnvelope %v, reference %v", g, m.env)
					}
					w := -96.0
					if m.env > 0 {
						w = math.Max(w, 20*math.Log10(m.env))
					}
					if e := float64(i.GetEnvelope()); e > 1e-5 {
						w := math.Max(-96, 20*math.Log10(e))
						if g := float64(i.GetEnvelopeDB()); math.Abs(g-w) > 1e-3 {
							return fmt.Sprintf("GetEnvelopeDB %v at level %v (%v dB)", g, e, w)
						}
					}
					if m.env > 1e-4 || m.env == 0 {
						if g := float64(i.GetEnvelopeDB()); math.Abs(g-w) > 0.01 {
							return fmt.Sprintf("GetEnvelopeDB %v, reference %v", g, w)
						}
					}
					if g := float64(i.GetEnvelopeDB()); !(g >= -96) {
						return fmt.Sprintf("GetEnvelopeDB %v is below silence", g)
					}
					return ""
				}}
			h.run(r, r.Pick(4, 5))
		}
	}
	// as made, before anything is set
	for _, rate := range []float64{8000, 44100, 192000} {
		for _, mode := range []envelope.DetectorMode{envelope.ModePeak, envelope.ModeRMS, envelope.ModePeakHold} {
			d := envelope.NewDetector(rate, mode)
			m := &detm{sr: rate, a: 0.001, r: 0.1, hold: 0.01, mode: mode, typ: envelope.TypeLinear, win: int(rate * 0.003)}
			for n := 0; n < 9000; n++ {
				x := float32(0.5) * material[n%len(material)]
				if n%3000 > 1000 {
					x /= 64
				}
				if g, w := float64(d.Detect(x)), m.detect(float64(x)); !core.Close(g, w, 1e-5) {
					r.Failf("as_made", "a new detector of mode %d at %v Hz: sample %d is %v, want %v", mode, rate, n, g, w)
					break
				}
			}
			r.Count(1, 9000)
		}
	}
	// windows of every length, mode switches
	for _, rate := range []float64{8000, 44100, 96000} {
		for _, ms := range []float64{0, 0.01, 0.3, 1, 3, 10, 50} {
			d := envelope.NewDetector(rate, envelope.ModePeak)
			d.SetRMSWindow(ms)
			d.SetMode(envelope.ModeRMS)
			d.SetAttack(0)
			m := &detm{sr: rate, a: 0.0001, r: 0.1, hold: 0.01, mode: envelope.ModeRMS, win: max(1, int(rate*ms/1000))}
			lab := fmt.Sprintf("rms window %v ms at %v", ms, rate)
			r.Guard("rms_window", func() string { return lab }, func() {
				for n := 0; n < 3*m.win+200; n++ {
					x := material[n%len(material)]
					if n > 2*m.win+100 {
						x = 0
					}
					if g, w := float64(d.Detect(x)), m.detect(float64(x)); !core.Close(g, w, 1e-5) {
						r.Failf("rms_window", "%s: sample %d is %v, want %v", lab, n, g, w)
						return
					}
					r.Count(1, 1)
				}
			})
			r.Nontrivial(1)
		}
	}
	// peaks, then silence: the level falls back and never becomes NaN
	for _, mode := range []envelope.DetectorMode{envelope.ModePeak, envelope.ModeRMS, envelope.ModePeakHold} {
		core.Tuples(r.Pick(5, 7), 6, func(v []int) bool {
			d := envelope.NewDetector(1000, mode)
			d.SetRelease(0.001)
			vals := []float32{0, 0.1, 0.3, 0.7, 1, 1e-4}
			for _, k := range v {
				d.Detect(vals[k])
			}
			var y float32
			for n := 0; n < 60; n++ {
				y = d.Detect(0)
			}
			r.Count(1, 1)
			if !(y >= 0 && y < 1e-3) {
				r.Failf("decays", "mode %d after levels %v and 60 ms of silence the envelope is %v", mode, v, y)
				return false
			}
			return true
		})
	}
}
