package rack

import (
	"fmt"
	"strings"

	"github.com/justyntemme/vst3go/pkg/dsp/delay"
	"github.com/justyntemme/vst3go/pkg/dsp/distortion"
	"github.com/justyntemme/vst3go/pkg/dsp/dynamics"
	"github.com/justyntemme/vst3go/pkg/dsp/envelope"
	"github.com/justyntemme/vst3go/pkg/dsp/filter"
	"github.com/justyntemme/vst3go/pkg/dsp/gain"
	"github.com/justyntemme/vst3go/pkg/dsp/mix"
	"github.com/justyntemme/vst3go/pkg/dsp/modulation"
	"github.com/justyntemme/vst3go/pkg/dsp/oscillator"
	"github.com/justyntemme/vst3go/pkg/dsp/pan"
	"github.com/justyntemme/vst3go/pkg/dsp/utility"
)

// Sample is what the buffers are made of.
type Sample interface{ ~float32 | ~float64 }

// Way is one way of having the same done.
type Way[T Sample] struct {
	Name  string
	Run   func(in, out [][]T)
	Equal bool                 // only when all inputs are the same sound
	First bool                 // only the first output is the same
	Skip  func(op string) bool // settings with which it is not the same
}

// Form is what one processor does to buffers of its own, the first of its ways
// being by buffer. Mk makes the ways, of which one is then used, and settings.
type Form[T Sample] struct {
	Name    string
	In, Out int
	Any     bool // the output may be in the place of any input
	Mk      func() ([]Way[T], []Op)
}

// each1 does samples of one input with one output.
func each1[T Sample](name string, f func(T) T) Way[T] {
	return Way[T]{Name: name, Run: func(in, out [][]T) {
		for i, x := range in[0] {
			out[0][i] = f(x)
		}
	}}
}

// each2 does samples of two inputs with two outputs.
func each2[T Sample](name string, f func(l, r T) (T, T)) Way[T] {
	return Way[T]{Name: name, Run: func(in, out [][]T) {
		for i := range in[0] {
			out[0][i], out[1][i] = f(in[0][i], in[1][i])
		}
	}}
}

// chans does each channel with a function of its own.
func chans[T Sample](name string, f ...func(T) T) Way[T] {
	return Way[T]{Name: name, Run: func(in, out [][]T) {
		for i := range in[0] {
			for c := range f {
				out[c][i] = f[c](in[c][i])
			}
		}
	}}
}

// linked does the first channel alone, for inputs that are the same.
func linked[T Sample](f func(T) T, skip func(string) bool) Way[T] {
	return Way[T]{Name: "in mono", Equal: true, Skip: skip, Run: func(in, out [][]T) {
		for i, x := range in[0] {
			y := f(x)
			for c := range out {
				out[c][i] = y
			}
		}
	}}
}

// within does buffers in their own place.
func within[T Sample](f ...func([]T)) Way[T] {
	return Way[T]{Name: "by buffer", Run: func(in, out [][]T) {
		for c := range f {
			if in != nil {
				copy(out[c], in[c])
				f[c](out[c][:len(in[c])])
			} else {
				f[c](out[c])
			}
		}
	}}
}

// next fills a buffer sample by sample.
func next[T Sample](f func() T) Way[T] {
	return Way[T]{Name: "sample by sample", Run: func(in, out [][]T) {
		for i := range out[0] {
			out[0][i] = f()
		}
	}}
}

func buf1[T Sample](f func(in, out []T)) Way[T] {
	return Way[T]{Name: "by buffer", Run: func(in, out [][]T) { f(in[0], out[0]) }}
}

func buf2[T Sample](f func(il, ir, ol, or []T)) Way[T] {
	return Way[T]{Name: "by buffer", Run: func(in, out [][]T) { f(in[0], in[1], out[0], out[1]) }}
}

func skips(names ...string) func(string) bool {
	return func(op string) bool {
		for _, n := range names {
			if strings.HasPrefix(op, n) {
				return true
			}
		}
		return false
	}
}

const bySample = "sample by sample"

type ways = []Way[float32]

// Forms lists the forms that work on float32.
func Forms(SR float64) (fs []Form[float32]) {
	add := func(name string, in, out int, mk func() (ways, []Op)) *Form[float32] {
		fs = append(fs, Form[float32]{Name: name, In: in, Out: out, Mk: mk})
		return &fs[len(fs)-1]
	}
	first := func(w Way[float32]) Way[float32] { w.First = true; return w }

	add("Compressor", 1, 1, func() (ways, []Op) {
		c := dynamics.NewCompressor(SR)
		return ways{buf1(c.ProcessBuffer), each1(bySample, c.Process),
			{Name: "with itself as side chain", Run: func(in, out [][]float32) { c.ProcessSidechain(in[0], in[0], out[0]) }, Skip: skips("SetLookahead")}}, compressorOps(c)
	})
	add("Compressor in stereo", 2, 2, func() (ways, []Op) {
		c := dynamics.NewCompressor(SR)
		return ways{buf2(c.ProcessStereo), linked(c.Process, skips("SetLookahead"))}, compressorOps(c)
	})
	add("Compressor with side chain", 2, 1, func() (ways, []Op) {
		c := dynamics.NewCompressor(SR)
		return ways{{Name: "by buffer", Run: func(in, out [][]float32) { c.ProcessSidechain(in[0], in[1], out[0]) }}}, compressorOps(c)
	})
	add("Gate", 1, 1, func() (ways, []Op) {
		g := dynamics.NewGate(SR)
		return ways{buf1(g.ProcessBuffer), each1(bySample, g.Process)}, gateOps(g)
	})
	add("Gate in stereo", 2, 2, func() (ways, []Op) {
		g := dynamics.NewGate(SR)
		return ways{buf2(g.ProcessStereo), linked(g.Process, nil)}, gateOps(g)
	})
	add("Expander", 1, 1, func() (ways, []Op) {
		e := dynamics.NewExpander(SR)
		return ways{buf1(e.ProcessBuffer), each1(bySample, e.Process)}, expanderOps(e)
	})
	add("Expander in stereo", 2, 2, func() (ways, []Op) {
		e := dynamics.NewExpander(SR)
		return ways{buf2(e.ProcessStereo), linked(e.Process, nil)}, expanderOps(e)
	})
	add("Limiter", 1, 1, func() (ways, []Op) {
		l := dynamics.NewLimiter(SR)
		return ways{buf1(l.ProcessBuffer), each1(bySample, l.Process)}, limiterOps(l)
	})
	add("Limiter in stereo", 2, 2, func() (ways, []Op) {
		l := dynamics.NewLimiter(SR)
		l.SetLookahead(0)
		return ways{buf2(l.ProcessStereo), linked(l.Process, skips("SetLookahead"))}, limiterOps(l)
	})

	for m := 0; m < 3; m++ {
		add(fmt.Sprintf("Detector(%d)", m), 1, 1, func() (ways, []Op) {
			d := envelope.NewDetector(SR, envelope.DetectorMode(m))
			return ways{buf1(d.Process), each1(bySample, d.Detect),
				{Name: "with itself as side chain", Run: func(in, out [][]float32) { d.ProcessSidechain(in[0], in[0], out[0]) }}}, detectorOps(d)
		})
	}
	add("Detector with side chain", 2, 1, func() (ways, []Op) {
		d := envelope.NewDetector(SR, 0)
		return ways{{Name: "by buffer", Run: func(in, out [][]float32) { d.ProcessSidechain(in[0], in[1], out[0]) }},
			{Name: "by its side chain alone", Run: func(in, out [][]float32) { d.Process(in[1], out[0]) }}}, detectorOps(d)
	})
	add("Follower", 1, 1, func() (ways, []Op) {
		f := envelope.NewFollower(SR)
		return ways{buf1(f.Process), each1(bySample, f.Follow)}, cat(sets(f, "SetAttack", times...), sets(f, "SetRelease", times...))
	})
	mult := func(f func() float32) Way[float32] {
		return each1(bySample, func(x float32) float32 { return x * f() })
	}
	adsr := func(e *envelope.ADSR) []Op {
		e.SetADSR(0.005, 0.005, 0.5, 0.01)
		e.Trigger()
		return cat(call(e, "Trigger", "Release", "Reset"), sets(e, "SetAttack", times...), sets(e, "SetDecay", times...), sets(e, "SetSustain", 0.0, 0.5, 1.0), sets(e, "SetRelease", times...))
	}
	ar := func(e *envelope.AR) []Op {
		e.Trigger()
		return cat(call(e, "Trigger", "Release"), sets(e, "SetAttack", times...), sets(e, "SetRelease", times...))
	}
	add("ADSR", 0, 1, func() (ways, []Op) {
		e := envelope.New(SR)
		return ways{within(e.Process), next(e.Next)}, adsr(e)
	})
	add("ADSR multiplied", 1, 1, func() (ways, []Op) {
		e := envelope.New(SR)
		return ways{within(e.ProcessMultiply), mult(e.Next)}, adsr(e)
	})
	add("AR", 0, 1, func() (ways, []Op) {
		e := envelope.NewAR(SR)
		return ways{within(e.Process), next(e.Next)}, ar(e)
	})
	add("AR multiplied", 1, 1, func() (ways, []Op) {
		e := envelope.NewAR(SR)
		return ways{within(e.ProcessMultiply), mult(e.Next)}, ar(e)
	})

	add("Line", 1, 1, func() (ways, []Op) {
		d := delay.New(0.1, SR)
		ms := 5.0
		n := func() float64 { return ms * SR / 1000 }
		return ways{within(func(b []float32) { d.ProcessBuffer(b, n()) }), each1(bySample, func(x float32) float32 { return d.Process(x, n()) }),
			each1("in milliseconds", func(x float32) float32 { return d.ProcessMs(x, ms) }),
			each1("read and written", func(x float32) float32 { y := d.Read(n()); d.Write(x); return y }),
			each1("tapped twice and written", func(x float32) float32 { d.Tap(1); y := d.Tap(n()); d.Write(x); return y }),
			within(func(b []float32) { d.ProcessBufferMix(b, n(), 1) })}, append(lineOps(func(x float64) { ms = x }), call(d, "Reset")...)
	})
	add("AllpassDelay", 1, 1, func() (ways, []Op) {
		d := delay.NewAllpass(0.1, SR)
		n := 5.3
		return ways{within(func(b []float32) { d.ProcessBuffer(b, n) }), each1(bySample, func(x float32) float32 { return d.Process(x, n) })},
			append(lineOps(func(x float64) { n = x * SR / 1000 }), sets(d, "SetFeedback", 0.0, 0.7, -0.7, 0.99)...)
	})
	add("CombDelay", 1, 1, func() (ways, []Op) {
		d := delay.NewComb(0.1, SR)
		n := 5.3
		return ways{within(func(b []float32) { d.ProcessBuffer(b, n) }), each1(bySample, func(x float32) float32 { return d.Process(x, n) })},
			cat(lineOps(func(x float64) { n = x * SR / 1000 }), sets(d, "SetFeedback", 0.0, 0.7, -0.7, 0.99), sets(d, "SetDamp", 0.0, 0.5, 1.0), call(d, "Reset"))
	})
	add("ModulatedDelay", 1, 1, func() (ways, []Op) {
		d := delay.NewModulated(0.1, SR)
		return ways{within(d.ProcessBuffer), each1(bySample, d.Process)}, cat(sets(d, "SetLFO", a{1.0, 2.0}, a{0.0, 0.0}, a{1e9, 1e9}, a{-1.0, -1.0}), sets(d, "SetCenterDelay", 0.0, 5.0, 1e9, -1.0), call(d, "Reset"))
	})

	add("Chorus", 1, 2, func() (ways, []Op) {
		c := modulation.NewChorus(SR)
		return ways{{Name: "by buffer", Run: func(in, out [][]float32) { c.ProcessBuffer(in[0], out[0], out[1]) }},
			{Name: bySample, Run: func(in, out [][]float32) {
				for i, x := range in[0] {
					out[0][i], out[1][i] = c.Process(x)
				}
			}},
			{Name: "as two equal channels", Run: func(in, out [][]float32) { c.ProcessStereoBuffer(in[0], in[0], out[0], out[1]) }}}, chorusOps(c)
	})
	add("Chorus in stereo", 2, 2, func() (ways, []Op) {
		c := modulation.NewChorus(SR)
		return ways{buf2(c.ProcessStereoBuffer), each2(bySample, c.ProcessStereo)}, chorusOps(c)
	})
	add("Flanger", 1, 1, func() (ways, []Op) {
		f := modulation.NewFlanger(SR)
		return ways{buf1(f.ProcessBuffer), each1(bySample, f.Process)}, flangerOps(f)
	})
	add("Flanger in stereo", 2, 2, func() (ways, []Op) {
		f := modulation.NewFlanger(SR)
		return ways{buf2(f.ProcessStereoBuffer), each2(bySample, f.ProcessStereo), first(chans("the left alone", f.Process))}, flangerOps(f)
	})
	add("Phaser", 1, 1, func() (ways, []Op) {
		p := modulation.NewPhaser(SR)
		return ways{buf1(p.ProcessBuffer), each1(bySample, p.Process)}, phaserOps(p)
	})
	add("Phaser in stereo", 2, 2, func() (ways, []Op) {
		p := modulation.NewPhaser(SR)
		return ways{buf2(p.ProcessStereoBuffer), each2(bySample, p.ProcessStereo), first(chans("the left alone", p.Process))}, phaserOps(p)
	})
	add("RingModulator", 1, 1, func() (ways, []Op) {
		m := modulation.NewRingModulator(SR)
		return ways{buf1(m.ProcessBuffer), each1(bySample, m.Process)}, ringOps(m)
	})
	add("RingModulator in stereo", 2, 2, func() (ways, []Op) {
		m, m2 := modulation.NewRingModulator(SR), modulation.NewRingModulator(SR)
		return ways{buf2(m.ProcessStereoBuffer), each2(bySample, m.ProcessStereo), chans("each alone", m.Process, m2.Process)}, twice(ringOps(m), ringOps(m2))
	})
	add("Tremolo", 1, 1, func() (ways, []Op) {
		t := modulation.NewTremolo(SR)
		return ways{buf1(t.ProcessBuffer), each1(bySample, t.Process)}, tremoloOps(t)
	})
	add("Tremolo in stereo", 2, 2, func() (ways, []Op) {
		t := modulation.NewTremolo(SR)
		return ways{buf2(t.ProcessStereoBuffer), each2(bySample, t.ProcessStereo), first(chans("the left alone", t.Process)), linked(t.Process, skips("SetStereo"))}, tremoloOps(t)
	})
	add("AutoPan", 1, 2, func() (ways, []Op) {
		p := pan.NewAutoPan(2, 0.5, pan.ConstantPower)
		return ways{{Name: "by buffer", Run: func(in, out [][]float32) { p.Process(in[0], float32(SR), out[0], out[1]) }}}, cat(sets(p, "SetRate", 0.0, 5.0, 40.0), sets(p, "SetDepth", 0.0, 1.0), call(p, "Reset"))
	})

	for m := 0; m < 5; m++ {
		add(fmt.Sprintf("SVF(%d)", m), 2, 2, func() (ways, []Op) {
			s, s1, s2 := filter.NewSVF(2), filter.NewSVF(1), filter.NewSVF(3)
			for _, x := range []*filter.SVF{s, s1, s2} {
				x.SetFrequencyAndQ(SR, 700, 0.9)
			}
			pick := func(o filter.SVFOutputs) float32 {
				return []float32{o.Lowpass, o.Highpass, o.Bandpass, o.Notch, 0.1*o.Lowpass + 0.2*o.Highpass + 0.3*o.Bandpass + 0.4*o.Notch}[m]
			}
			buf := func(s *filter.SVF, c int) func([]float32) {
				return func(b []float32) {
					switch m {
					case 0:
						s.ProcessLowpass(b, c)
					case 1:
						s.ProcessHighpass(b, c)
					case 2:
						s.ProcessBandpass(b, c)
					case 3:
						s.ProcessNotch(b, c)
					default:
						s.ProcessMixed(b, c, 0.1, 0.2, 0.3, 0.4)
					}
				}
			}
			return ways{within(buf(s, 0), buf(s, 1)),
				chans(bySample, func(x float32) float32 { return pick(s.ProcessSample(x, 0)) }, func(x float32) float32 { return pick(s.ProcessSample(x, 1)) }),
				within(buf(s1, 0), buf(s2, 2))}, twice(svfOps(s, SR), twice(svfOps(s1, SR), svfOps(s2, SR)))
		})
	}
	add("Biquad", 2, 2, func() (ways, []Op) {
		b, b1, b2 := filter.NewBiquad(2), filter.NewBiquad(1), filter.NewBiquad(3)
		for _, x := range []*filter.Biquad{b, b1, b2} {
			x.SetLowpass(SR, 1000, 0.7)
		}
		buf := func(b *filter.Biquad, c int) func([]float32) { return func(x []float32) { b.Process(x, c) } }
		one := func(b *filter.Biquad, c int) func(float32) float32 {
			return func(x float32) float32 { v := []float32{x}; b.Process(v, c); return v[0] }
		}
		return ways{{Name: "by buffer", Run: func(in, out [][]float32) {
			n := len(in[0])
			copy(out[0], in[0])
			copy(out[1], in[1])
			b.ProcessMulti([][]float32{out[0][:n], out[1][:n]})
		}}, within(buf(b, 0), buf(b, 1)), within(buf(b1, 0), buf(b2, 2)), chans(bySample, one(b1, 0), one(b2, 1))}, twice(biquadOps(b, SR), twice(biquadOps(b1, SR), biquadOps(b2, SR)))
	})
	add("DCBlocker", 2, 2, func() (ways, []Op) {
		d, d1, d2 := utility.NewDCBlocker(2, 20, SR), utility.NewDCBlocker(1, 20, SR), utility.NewDCBlocker(3, 20, SR)
		ops := func(d *utility.DCBlocker) []Op {
			return cat(sets(d, "SetCutoff", a{5.0, SR}, a{200.0, SR}), call(d, "Reset"))
		}
		buf := func(d *utility.DCBlocker, c int) func([]float32) {
			return func(x []float32) { d.ProcessBuffer(x, c) }
		}
		return ways{{Name: "by buffer", Run: func(in, out [][]float32) {
			n := len(in[0])
			copy(out[0], in[0])
			copy(out[1], in[1])
			d.ProcessStereo(out[0][:n], out[1][:n])
		}}, {Name: "all channels", Run: func(in, out [][]float32) {
			n := len(in[0])
			copy(out[0], in[0])
			copy(out[1], in[1])
			d.ProcessMultiChannel([][]float32{out[0][:n], out[1][:n]})
		}}, within(buf(d, 0), buf(d, 1)), within(buf(d1, 0), buf(d2, 2)),
			chans(bySample, func(x float32) float32 { return d.Process(x, 0) }, func(x float32) float32 { return d.Process(x, 1) })}, twice(ops(d), twice(ops(d1), ops(d2)))
	})
	add("SimpleDCBlocker", 1, 1, func() (ways, []Op) {
		d := utility.NewSimpleDCBlocker(SR)
		return ways{within(d.ProcessBuffer), each1(bySample, d.Process)}, call(d, "Reset")
	})

	for k := 0; k < 5; k++ {
		add(fmt.Sprintf("Oscillator(%d)", k), 0, 1, func() (ways, []Op) {
			o := oscillator.New(SR)
			buf := []func([]float32){o.ProcessSine, o.ProcessSaw, o.ProcessSquare, o.ProcessTriangle, func(b []float32) { o.ProcessPulse(b, 0.3) }}[k]
			one := []func() float32{o.Sine, o.Saw, o.Square, o.Triangle, func() float32 { return o.Pulse(0.3) }}[k]
			return ways{within(buf), next(one)}, cat(sets(o, "SetFrequency", 440.0, 0.0, 3000.0), sets(o, "SetPhase", 0.0, 0.5, 0.99), call(o, "Reset"))
		})
	}
	add("BandLimitedSaw", 0, 1, func() (ways, []Op) {
		o := oscillator.NewBandLimitedSaw(SR)
		o.SetFrequency(440)
		return ways{within(o.Process), next(o.Next)}, sets(o, "SetFrequency", 440.0, 100.0, 3000.0)
	})
	for k := 0; k < 5; k++ {
		noise := func() (*utility.NoiseGenerator, []Op) {
			g := utility.NewNoiseGenerator(utility.NoiseType(k))
			g.SetSeed(7)
			return g, cat(sets(g, "SetType", 0, 1, 2, 3, 4), sets(g, "SetSeed", 7, 8), []Op{{"Reset()", func() { g.Reset(); g.SetSeed(7) }}})
		}
		add(fmt.Sprintf("NoiseGenerator(%d)", k), 0, 1, func() (ways, []Op) {
			g, ops := noise()
			return ways{within(g.Generate), next(g.Next), within(func(b []float32) { clear(b); g.GenerateAdd(b, 1) })}, ops
		})
		add(fmt.Sprintf("NoiseGenerator(%d) added", k), 1, 1, func() (ways, []Op) {
			g, ops := noise()
			return ways{within(func(b []float32) { g.GenerateAdd(b, 0.5) }), each1(bySample, func(x float32) float32 { return x + 0.5*g.Next() })}, ops
		})
	}

	// functions, each following its parameter
	fn := func(name string, in, out int, one func(v float32, x []float32, y []float32), f func(v float32, in, out [][]float32), vals ...float32) *Form[float32] {
		return add(name, in, out, func() (ways, []Op) {
			v := float32(0.5)
			var ops []Op
			for _, u := range vals {
				ops = append(ops, Op{fmt.Sprint(u), func() { v = u }})
			}
			w := ways{{Name: "by buffer", Run: func(in, out [][]float32) { f(v, in, out) }}}
			if one != nil {
				w = append(w, Way[float32]{Name: bySample, Run: func(i, o [][]float32) {
					x, y := make([]float32, in), make([]float32, out)
					for k := range i[0] {
						for c := range x {
							x[c] = i[c][k]
						}
						one(v, x, y)
						for c := range y {
							o[c][k] = y[c]
						}
					}
				}})
			}
			return w, ops
		})
	}
	for law := pan.Linear; law <= pan.Linear+3; law++ {
		fn(fmt.Sprintf("pan.Process(%d)", law), 1, 2, func(v float32, x, y []float32) {
			l, r := pan.MonoToStereo(v, law)
			y[0], y[1] = x[0]*l, x[0]*r
		}, func(v float32, in, out [][]float32) { pan.Process(in[0], v, law, out[0], out[1]) }, -1, -0.3, 0, 0.7, 1)
		fn(fmt.Sprintf("pan.ProcessStereo(%d)", law), 2, 2, nil, func(v float32, in, out [][]float32) {
			pan.ProcessStereo(in[0], in[1], v, law, out[0], out[1])
		}, -1, -0.3, 0, 0.7, 1)
	}
	fn("pan.Balance", 2, 2, nil, func(v float32, in, out [][]float32) { pan.Balance(in[0], in[1], v, out[0], out[1]) }, -1, -0.3, 0, 0.7, 1)
	fn("pan.Width", 2, 2, nil, func(v float32, in, out [][]float32) { pan.Width(in[0], in[1], v, out[0], out[1]) }, 0, 0.3, 1, 2)
	fn("mix.DryWetBufferTo", 2, 1, func(v float32, x, y []float32) { y[0] = mix.DryWet(x[0], x[1], v) }, func(v float32, in, out [][]float32) { mix.DryWetBufferTo(in[0], in[1], v, out[0]) }, 0, 0.3, 1).Any = true
	fn("mix.DryWetBuffer", 2, 1, func(v float32, x, y []float32) { y[0] = mix.DryWet(x[0], x[1], v) }, func(v float32, in, out [][]float32) {
		copy(out[0], in[0])
		mix.DryWetBuffer(out[0][:len(in[0])], in[1], v)
	}, 0, 0.3, 1)
	for _, eq := range []bool{false, true} {
		one := func(v float32, x, y []float32) { y[0] = mix.CrossfadeLinear(x[0], x[1], v) }
		if eq {
			one = func(v float32, x, y []float32) { y[0] = mix.CrossfadeCosine(x[0], x[1], v) }
		}
		fn(fmt.Sprint("mix.CrossfadeBuffer ", eq), 2, 1, one, func(v float32, in, out [][]float32) { mix.CrossfadeBuffer(in[0], in[1], v, eq, out[0]) }, 0, 0.3, 1).Any = true
	}
	fn("mix.Blend", 2, 1, nil, func(v float32, in, out [][]float32) { mix.Blend(in[0], in[1], v, out[0]) }, -1, -0.3, 0, 0.7, 1).Any = true
	fn("gain.ApplyBufferTo", 1, 1, func(v float32, x, y []float32) { y[0] = gain.Apply(x[0], v) }, func(v float32, in, out [][]float32) { gain.ApplyBufferTo(in[0], v, out[0]) }, 0, 0.3, 1, -2)
	inPlace := func(name string, one func(x, v float32) float32, f func(b []float32, v float32), vals ...float32) {
		fn(name, 1, 1, func(v float32, x, y []float32) { y[0] = one(x[0], v) }, func(v float32, in, out [][]float32) {
			copy(out[0], in[0])
			f(out[0][:len(in[0])], v)
		}, vals...)
	}
	inPlace("gain.ApplyBuffer", gain.Apply, gain.ApplyBuffer, 0, 0.3, 1, -2)
	inPlace("gain.ApplyDbBuffer", gain.ApplyDb, gain.ApplyDbBuffer, 0, -96, -30.5, 12)
	inPlace("gain.SoftClipBuffer", gain.SoftClip, gain.SoftClipBuffer, 0.1, 0.9, 1)
	inPlace("gain.HardClipBuffer", gain.HardClip, gain.HardClipBuffer, 0.1, 0.9, 1)
	return
}

// Forms64 lists the forms that work on float64.
func Forms64(SR float64) (fs []Form[float64]) {
	type ways = []Way[float64]
	add := func(name string, in, out int, mk func() (ways, []Op)) {
		fs = append(fs, Form[float64]{Name: name, In: in, Out: out, Mk: mk})
	}
	add("Waveshaper", 1, 1, func() (ways, []Op) {
		w := distortion.NewWaveshaper()
		return ways{buf1(w.ProcessBlock), each1(bySample, w.Process)}, shaperOps(w)
	})
	add("Waveshaper in stereo", 2, 2, func() (ways, []Op) {
		w := distortion.NewWaveshaper()
		return ways{buf2(w.ProcessStereo), chans("each alone", w.Process, w.Process)}, shaperOps(w)
	})
	add("Bitcrusher", 1, 1, func() (ways, []Op) {
		b := distortion.NewBitcrusher(SR)
		return ways{buf1(b.ProcessBlock), each1(bySample, b.Process)}, crushOps(b)
	})
	add("Bitcrusher in stereo", 2, 2, func() (ways, []Op) {
		b, b2 := distortion.NewBitcrusher(SR), distortion.NewBitcrusher(SR)
		w := chans("each alone", b.Process, b2.Process)
		w.Skip = skips("SetDither")
		return ways{buf2(b.ProcessStereo), w}, twice(crushOps(b), crushOps(b2))
	})
	add("TubeSaturation", 1, 1, func() (ways, []Op) {
		t := distortion.NewTubeSaturation()
		return ways{buf1(t.ProcessBlock), each1(bySample, t.Process)}, tubeOps(t)
	})
	add("TubeSaturation in stereo", 2, 2, func() (ways, []Op) {
		t, t2 := distortion.NewTubeSaturation(), distortion.NewTubeSaturation()
		return ways{buf2(t.ProcessStereo), chans("each alone", t.Process, t2.Process)}, twice(tubeOps(t), tubeOps(t2))
	})
	tape := func() *distortion.TapeSaturation {
		t := distortion.NewTapeSaturation(SR)
		t.SetFlutter(0)
		t.SetSaturation(0)
		return t
	}
	add("TapeSaturation", 1, 1, func() (ways, []Op) {
		t := tape()
		return ways{buf1(t.ProcessBlock), each1(bySample, t.Process)}, tapeOps(t)
	})
	add("TapeSaturation in stereo", 2, 2, func() (ways, []Op) {
		t, t2 := tape(), tape()
		return ways{buf2(t.ProcessStereo), chans("each alone", t.Process, t2.Process)}, twice(tapeOps(t), tapeOps(t2))
	})
	add("LFO", 0, 1, func() (ways, []Op) {
		o := modulation.NewLFO(SR)
		return ways{within(o.ProcessBuffer), next(o.Process)}, cat(sets(o, "SetFrequency", 1.0, 100.0, 0.0), sets(o, "SetWaveform", 0, 1, 2, 3), sets(o, "SetDepth", 0.0, 1.0),
			sets(o, "SetOffset", 0.0, 1.0), sets(o, "SetPhase", 0.0, 0.5), call(o, "Sync", "Reset"))
	})
	return
}
