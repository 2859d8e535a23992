// Package rack lists the processors of pkg/dsp and pkg/framework/dsp with one
// interface, for the checks that hold for every one of them.
package rack

import (
	"fmt"
	"reflect"

	"github.com/justyntemme/vst3go/pkg/dsp"
	"github.com/justyntemme/vst3go/pkg/dsp/analysis"
	"github.com/justyntemme/vst3go/pkg/dsp/delay"
	"github.com/justyntemme/vst3go/pkg/dsp/distortion"
	"github.com/justyntemme/vst3go/pkg/dsp/dynamics"
	"github.com/justyntemme/vst3go/pkg/dsp/envelope"
	"github.com/justyntemme/vst3go/pkg/dsp/filter"
	"github.com/justyntemme/vst3go/pkg/dsp/gain"
	"github.com/justyntemme/vst3go/pkg/dsp/interpolation"
	"github.com/justyntemme/vst3go/pkg/dsp/mix"
	"github.com/justyntemme/vst3go/pkg/dsp/modulation"
	"github.com/justyntemme/vst3go/pkg/dsp/oscillator"
	"github.com/justyntemme/vst3go/pkg/dsp/pan"
	"github.com/justyntemme/vst3go/pkg/dsp/reverb"
	"github.com/justyntemme/vst3go/pkg/dsp/utility"
	fdsp "github.com/justyntemme/vst3go/pkg/framework/dsp"
	"github.com/justyntemme/vst3go/pkg/framework/param"
)

// Max is the longest block that Run takes.
const Max = 2048

// Op is a call of a setter.
type Op struct {
	Name string
	Do   func()
}

// Inst is one instance.
type Inst struct {
	Run func(l, r []float32) // processes a stereo block in place
	Ops []Op
}

// Kind is one way of using one type.
type Kind struct {
	Name   string
	Mk     func() *Inst
	Random bool // two instances differ by chance
	Chance bool // what chance decides is decided when it is made
	Source bool // makes sound of its own
	Meter  bool // what it leaves in the buffers are readings
	Whole  bool // it works on a buffer as a whole, such as a fade or a reading averaged block by block
}

// sets returns the calls of a setter with each of the values; a value that is
// a slice is the list of arguments.
func sets(o any, method string, vals ...any) (ops []Op) {
	m := reflect.ValueOf(o).MethodByName(method)
	if !m.IsValid() {
		panic(method)
	}
	for _, v := range vals {
		args, list := v.([]any)
		if !list {
			args = []any{v}
		}
		in := []reflect.Value{}
		for k, a := range args {
			in = append(in, reflect.ValueOf(a).Convert(m.Type().In(k)))
		}
		ops = append(ops, Op{fmt.Sprintf("%s(%v)", method, fmt.Sprint(args...)), func() { m.Call(in) }})
	}
	return
}

// call returns the calls of methods without arguments.
func call(o any, methods ...string) (ops []Op) {
	for _, n := range methods {
		m := reflect.ValueOf(o).MethodByName(n)
		ops = append(ops, Op{n + "()", func() { m.Call(nil) }})
	}
	return
}

func cat(l ...[]Op) (ops []Op) {
	for _, o := range l {
		ops = append(ops, o...)
	}
	return
}

// twice joins the same calls on two objects.
func twice(p, q []Op) (ops []Op) {
	for i := range p {
		ops = append(ops, Op{p[i].Name, func() { p[i].Do(); q[i].Do() }})
	}
	return
}

type a = []any

// both runs a mono function on each sample of the sum, left in both.
func mono(f func(float32) float32) func(l, r []float32) {
	return func(l, r []float32) {
		for i := range l {
			y := f(0.5 * (l[i] + r[i]))
			l[i], r[i] = y, y
		}
	}
}

// left runs an in-place buffer function on the left channel alone.
func left(f func([]float32)) func(l, r []float32) { return func(l, r []float32) { f(l) } }

// pair runs a per-sample stereo function.
func pair(f func(l, r float32) (float32, float32)) func(l, r []float32) {
	return func(l, r []float32) {
		for i := range l {
			l[i], r[i] = f(l[i], r[i])
		}
	}
}

// wide runs an in-place function on float64 buffers.
func wide(f func(l, r []float64)) func(l, r []float32) {
	x, y := make([]float64, Max), make([]float64, Max)
	return func(l, r []float32) {
		n := len(l)
		for i := range l {
			x[i], y[i] = float64(l[i]), float64(r[i])
		}
		f(x[:n], y[:n])
		for i := range l {
			l[i], r[i] = float32(x[i]), float32(y[i])
		}
	}
}

// meter runs an analyzer and leaves its readings at the start of the block.
func meter(f func(l, r []float64), read ...func() float64) func(l, r []float32) {
	x, y := make([]float64, Max), make([]float64, Max)
	return func(l, r []float32) {
		n := len(l)
		for i := range l {
			x[i], y[i] = float64(l[i]), float64(r[i])
		}
		f(x[:n], y[:n])
		for i := range l {
			l[i], r[i] = 0, 0
		}
		for i := 0; i < n && i < len(read); i++ {
			l[i] = float32(read[i]())
		}
	}
}

var times = []any{0.0, 0.0001, 0.02, 5.0, 1e9, -1.0}

func compressorOps(c *dynamics.Compressor) []Op {
	return cat(sets(c, "SetThreshold", -60.0, -12.0, 0.0, 40.0, -1e4), sets(c, "SetRatio", 4.0, 1.0, 0.0, 1e9, -3.0), sets(c, "SetAttack", times...), sets(c, "SetRelease", times...),
		sets(c, "SetKnee", a{0, 0.0}, a{1, 12.0}, a{1, 0.0}, a{1, -3.0}), sets(c, "SetMakeupGain", 6.0, -6.0), sets(c, "SetLookahead", 0.0, 0.001, 0.005, 1.0, -1.0), call(c, "Reset"))
}

func gateOps(g *dynamics.Gate) []Op {
	return cat(sets(g, "SetThreshold", -60.0, -12.0, 0.0, 40.0, -1e4), sets(g, "SetHysteresis", 0.0, 6.0, -3.0), sets(g, "SetAttack", times...), sets(g, "SetHold", times...), sets(g, "SetRelease", times...),
		sets(g, "SetRange", -80.0, 0.0, 10.0, -1e4), sets(g, "SetSidechainFilter", a{true, 100.0}, a{true, 0.0}, a{true, 1e6}, a{false, 100.0}), call(g, "Reset"))
}

func expanderOps(e *dynamics.Expander) []Op {
	return cat(sets(e, "SetThreshold", -60.0, -12.0, 0.0, 40.0, -1e4), sets(e, "SetRatio", 4.0, 1.0, 0.0, 1e9, -3.0), sets(e, "SetAttack", times...), sets(e, "SetRelease", times...),
		sets(e, "SetKnee", 0.0, 12.0, -3.0), sets(e, "SetRange", -80.0, 0.0, 10.0, -1e4), call(e, "Reset"))
}

func limiterOps(l *dynamics.Limiter) []Op {
	return cat(sets(l, "SetThreshold", -60.0, -12.0, 0.0, 40.0, -1e4), sets(l, "SetRelease", times...), sets(l, "SetLookahead", 0.0, 0.001, 0.005, 1.0, -1.0), sets(l, "SetTruePeak", true, false), call(l, "Reset"))
}

func detectorOps(d *envelope.Detector) []Op {
	return cat(sets(d, "SetMode", 0, 1, 2), sets(d, "SetType", 0, 1, 2), sets(d, "SetAttack", times...), sets(d, "SetRelease", times...), sets(d, "SetHold", times[:4]...),
		sets(d, "SetRMSWindow", 0.0, 1.0, 50.0, -1.0), call(d, "Reset"))
}

func chorusOps(c *modulation.Chorus) []Op {
	return cat(sets(c, "SetRate", 0.1, 5.0, 0.0, 1e9, -1.0), sets(c, "SetDepth", 0.0, 2.0, 1e9, -1.0), sets(c, "SetDelay", 0.0, 20.0, 1e9, -1.0), sets(c, "SetMix", 0.0, 1.0, 7.0, -1.0),
		sets(c, "SetFeedback", 0.0, 0.5, 0.95, 9.0, -9.0), sets(c, "SetSpread", 0.0, 1.0, 9.0, -1.0), sets(c, "SetVoices", 1, 3, 4, 100, -1), call(c, "Reset"))
}

func flangerOps(f *modulation.Flanger) []Op {
	return cat(sets(f, "SetRate", 0.1, 5.0, 0.0, 1e9, -1.0), sets(f, "SetDepth", 0.0, 2.0, 1e9, -1.0), sets(f, "SetDelay", 0.0, 5.0, 1e9, -1.0), sets(f, "SetFeedback", 0.0, 0.5, 0.95, 9.0, -9.0),
		sets(f, "SetMix", 0.0, 1.0, 7.0, -1.0), sets(f, "SetManual", 0.0, 0.5, 1.0, 9.0, -1.0), sets(f, "SetManualMode", true, false), call(f, "Reset"))
}

func phaserOps(p *modulation.Phaser) []Op {
	return cat(sets(p, "SetRate", 0.1, 5.0, 0.0, 1e9, -1.0), sets(p, "SetDepth", 0.0, 1.0, 9.0, -1.0), sets(p, "SetCenterFrequency", 500.0, 0.0, 1e9, -1.0), sets(p, "SetFrequencyRange", a{200.0, 2000.0}, a{0.0, 1e9}, a{2000.0, 200.0}, a{-5.0, -1.0}),
		sets(p, "SetFeedback", 0.0, 0.5, 0.95, 9.0, -9.0), sets(p, "SetMix", 0.0, 1.0, 7.0, -1.0), sets(p, "SetStages", 2, 4, 6, 8, 7, 0, 100), call(p, "Reset"))
}

func ringOps(m *modulation.RingModulator) []Op {
	return cat(sets(m, "SetFrequency", 100.0, 0.0, 1e9, -1.0), sets(m, "SetMix", 0.0, 1.0, 7.0, -1.0), sets(m, "SetWaveform", 0, 1, 2, 3), sets(m, "EnableLFO", true, false),
		sets(m, "SetLFORate", 0.1, 5.0, 0.0, 1e9, -1.0), sets(m, "SetLFODepth", 0.0, 1.0, 1e9, -1.0), call(m, "Reset"))
}

func tremoloOps(t *modulation.Tremolo) []Op {
	return cat(sets(t, "SetRate", 0.1, 5.0, 0.0, 1e9, -1.0), sets(t, "SetDepth", 0.0, 1.0, 9.0, -1.0), sets(t, "SetWaveform", 0, 1, 2, 3), sets(t, "SetMode", 0, 1), sets(t, "SetStereo", true, false),
		sets(t, "SetStereoPhase", 0.0, 90.0, 1e9, -90.0), sets(t, "EnableSmoothing", true, false), call(t, "Reset"))
}

func freeverbOps(f *reverb.Freeverb) []Op {
	u := []any{0.0, 0.5, 1.0, 9.0, -1.0}
	return cat(sets(f, "SetRoomSize", u...), sets(f, "SetDamping", u...), sets(f, "SetWetLevel", u...), sets(f, "SetDryLevel", u...), sets(f, "SetWidth", u...), sets(f, "SetMode", 0.0, 1.0),
		call(f, "SetPresetSmallRoom", "SetPresetCathedral", "Reset"))
}

func schroederOps(f *reverb.Schroeder) []Op {
	u := []any{0.0, 0.5, 1.0, 9.0, -1.0}
	return cat(sets(f, "SetRoomSize", u...), sets(f, "SetDamping", u...), sets(f, "SetWetLevel", u...), sets(f, "SetDryLevel", u...), sets(f, "SetWidth", u...), call(f, "Reset"))
}

func fdnOps(f *reverb.FDN) []Op {
	u := []any{0.0, 0.5, 1.0, 9.0, -1.0}
	return cat(sets(f, "SetDecay", u...), sets(f, "SetDamping", u...), sets(f, "SetDiffusion", u...), sets(f, "SetModulation", u...), sets(f, "SetWetLevel", u...), sets(f, "SetDryLevel", u...),
		call(f, "SetPresetSmallRoom", "SetPresetCathedral", "Reset"))
}

func biquadOps(b *filter.Biquad, SR float64) []Op {
	fq := []any{a{SR, 500.0, 0.7}, a{SR, 20.0, 10.0}, a{SR, 3900.0, 0.1}}
	gq := []any{a{SR, 500.0, 0.7, 12.0}, a{SR, 20.0, 10.0, -12.0}, a{SR, 3900.0, 0.1, 0.0}}
	return cat(sets(b, "SetLowpass", fq...), sets(b, "SetHighpass", fq...), sets(b, "SetBandpass", fq...), sets(b, "SetNotch", fq...), sets(b, "SetAllpass", fq...),
		sets(b, "SetPeakingEQ", gq...), sets(b, "SetLowShelf", gq...), sets(b, "SetHighShelf", gq...), call(b, "Reset"))
}

func svfOps(s *filter.SVF, SR float64) []Op {
	return cat(sets(s, "SetFrequency", a{SR, 500.0}, a{SR, 20.0}, a{SR, 3900.0}), sets(s, "SetQ", 0.5, 10.0, 0.01), sets(s, "SetFrequencyAndQ", a{SR, 1000.0, 2.0}), call(s, "Reset"))
}

func tubeOps(t *distortion.TubeSaturation) []Op {
	u := []any{0.0, 0.5, 1.0, 9.0, -1.0}
	return cat(sets(t, "SetWarmth", u...), sets(t, "SetHarmonics", u...), sets(t, "SetBias", u...), sets(t, "SetHysteresis", u...), sets(t, "SetMix", u...), sets(t, "SetOutput", 0.0, 1.0, 2.0), call(t, "Reset"))
}

func tapeOps(t *distortion.TapeSaturation) []Op {
	u := []any{0.0, 0.5, 1.0, 9.0, -1.0}
	return cat(sets(t, "SetCompression", u...), sets(t, "SetWarmth", u...), sets(t, "SetMix", u...), sets(t, "SetOutput", 0.0, 1.0, 2.0), call(t, "Reset"))
}

func crushOps(b *distortion.Bitcrusher) []Op {
	return cat(sets(b, "SetBitDepth", 1.0, 8.0, 32.0, 0.0, 1e9), sets(b, "SetSampleRateReduction", 1.0, 4.0, 3.5, 0.0, 1e9), sets(b, "SetAntiAlias", true, false), sets(b, "SetDither", 0, 1, 2),
		sets(b, "SetMix", 0.0, 0.5, 1.0, 9.0, -1.0), sets(b, "SetOutput", 0.0, 1.0, 2.0), call(b, "Reset"))
}

func shaperOps(w *distortion.Waveshaper) []Op {
	return cat(sets(w, "SetCurveType", 0, 1, 2, 3, 4, 5, 6), sets(w, "SetDrive", 0.0, 1.0, 10.0, 1e9, -1.0), sets(w, "SetMix", 0.0, 0.5, 1.0, 9.0, -1.0), sets(w, "SetOutput", 0.0, 1.0, 2.0), sets(w, "SetAsymmetry", 0.0, 0.5, 1.0, 9.0, -9.0))
}

func lineOps(f func(ms float64)) (ops []Op) {
	for _, ms := range []float64{0, 0.1, 5.03, 40, 1e6, -1} {
		ops = append(ops, Op{fmt.Sprintf("delay of %v ms", ms), func() { f(ms) }})
	}
	return
}

// Kinds lists the processors, made for a sample rate.
func Kinds(SR float64) (ks []Kind) {
	add := func(name string, mk func() *Inst) *Kind {
		ks = append(ks, Kind{Name: name, Mk: mk})
		return &ks[len(ks)-1]
	}

	// dynamics
	add("Compressor.Process", func() *Inst { c := dynamics.NewCompressor(SR); return &Inst{mono(c.Process), compressorOps(c)} })
	add("Compressor.ProcessBuffer", func() *Inst {
		c := dynamics.NewCompressor(SR)
		return &Inst{func(l, r []float32) { c.ProcessBuffer(l, l) }, compressorOps(c)}
	})
	add("Compressor.ProcessStereo", func() *Inst {
		c := dynamics.NewCompressor(SR)
		return &Inst{func(l, r []float32) { c.ProcessStereo(l, r, l, r) }, compressorOps(c)}
	})
	add("Compressor.ProcessSidechain", func() *Inst {
		c := dynamics.NewCompressor(SR)
		return &Inst{func(l, r []float32) { c.ProcessSidechain(l, r, l) }, compressorOps(c)}
	})
	add("Gate.ProcessBuffer", func() *Inst {
		g := dynamics.NewGate(SR)
		return &Inst{func(l, r []float32) { g.ProcessBuffer(l, l) }, gateOps(g)}
	})
	add("Gate.ProcessStereo", func() *Inst {
		g := dynamics.NewGate(SR)
		return &Inst{func(l, r []float32) { g.ProcessStereo(l, r, l, r) }, gateOps(g)}
	})
	add("Expander.ProcessBuffer", func() *Inst {
		e := dynamics.NewExpander(SR)
		return &Inst{func(l, r []float32) { e.ProcessBuffer(l, l) }, expanderOps(e)}
	})
	add("Expander.ProcessStereo", func() *Inst {
		e := dynamics.NewExpander(SR)
		return &Inst{func(l, r []float32) { e.ProcessStereo(l, r, l, r) }, expanderOps(e)}
	})
	add("Limiter.ProcessBuffer", func() *Inst {
		x := dynamics.NewLimiter(SR)
		return &Inst{func(l, r []float32) { x.ProcessBuffer(l, l) }, limiterOps(x)}
	})
	add("Limiter.ProcessStereo", func() *Inst {
		x := dynamics.NewLimiter(SR)
		return &Inst{func(l, r []float32) { x.ProcessStereo(l, r, l, r) }, limiterOps(x)}
	})

	// envelopes
	for m := 0; m < 3; m++ {
		add(fmt.Sprintf("Detector(%d)", m), func() *Inst {
			d := envelope.NewDetector(SR, envelope.DetectorMode(m))
			return &Inst{func(l, r []float32) { d.Process(l, l) }, detectorOps(d)}
		})
	}
	add("Detector.ProcessSidechain", func() *Inst {
		d := envelope.NewDetector(SR, 0)
		return &Inst{func(l, r []float32) { d.ProcessSidechain(l, r, l) }, detectorOps(d)}
	})
	add("Follower", func() *Inst {
		f := envelope.NewFollower(SR)
		return &Inst{func(l, r []float32) { f.Process(l, l) }, cat(sets(f, "SetAttack", times...), sets(f, "SetRelease", times...))}
	})
	add("ADSR", func() *Inst {
		e, e2 := envelope.New(SR), envelope.New(SR)
		ops := func(e *envelope.ADSR) []Op {
			return cat(call(e, "Trigger", "Release", "Reset"), sets(e, "SetAttack", times...), sets(e, "SetDecay", times...),
				sets(e, "SetSustain", 0.0, 0.5, 1.0, 9.0, -1.0), sets(e, "SetRelease", times...))
		}
		return &Inst{func(l, r []float32) { e.ProcessMultiply(l); e2.Process(r) }, twice(ops(e), ops(e2))}
	}).Source = true
	add("AR", func() *Inst {
		e, e2 := envelope.NewAR(SR), envelope.NewAR(SR)
		ops := func(e *envelope.AR) []Op {
			return cat(call(e, "Trigger", "Release"), sets(e, "SetAttack", times...), sets(e, "SetRelease", times...))
		}
		return &Inst{func(l, r []float32) { e.ProcessMultiply(l); e2.Process(r) }, twice(ops(e), ops(e2))}
	}).Source = true

	// delays
	add("Line", func() *Inst {
		d, d2 := delay.New(0.1, SR), delay.New(0.1, SR)
		ms := 5.0
		return &Inst{func(l, r []float32) {
			d.ProcessBufferMix(l, ms*SR/1000, 0.5)
			for i := range r {
				d2.Write(r[i])
				r[i] = d2.ReadMs(ms)
			}
		}, append(lineOps(func(x float64) { ms = x }), twice(call(d, "Reset"), call(d2, "Reset"))...)}
	})
	add("AllpassDelay", func() *Inst {
		d := delay.NewAllpass(0.1, SR)
		ms := 5.0
		return &Inst{func(l, r []float32) { d.ProcessBuffer(l, ms*SR/1000) }, append(lineOps(func(x float64) { ms = x }), sets(d, "SetFeedback", 0.0, 0.7, -0.7, 0.99)...)}
	})
	add("CombDelay", func() *Inst {
		d := delay.NewComb(0.1, SR)
		ms := 5.0
		return &Inst{func(l, r []float32) { d.ProcessBuffer(l, ms*SR/1000) }, cat(lineOps(func(x float64) { ms = x }), sets(d, "SetFeedback", 0.0, 0.7, -0.7, 0.99), sets(d, "SetDamp", 0.0, 0.5, 1.0), call(d, "Reset"))}
	})
	add("MultiTapDelay", func() *Inst {
		d := delay.NewMultiTap(0.1, SR, 3)
		taps := []delay.TapOutput{{DelaySamples: 3, Gain: 0.5, Pan: -1}, {DelaySamples: 40.5, Gain: 0.25, Pan: 0.3}}
		var x, y float32
		return &Inst{func(l, r []float32) {
			for i := range l {
				d.ProcessMultiTap(l[i], taps, &x, &y)
				l[i], r[i] = x, y
			}
		}, lineOps(func(x float64) { taps[0].DelaySamples = x })}
	})
	add("ModulatedDelay", func() *Inst {
		d := delay.NewModulated(0.1, SR)
		return &Inst{func(l, r []float32) { d.ProcessBuffer(l) }, cat(sets(d, "SetLFO", a{1.0, 2.0}, a{0.0, 0.0}, a{1e9, 1e9}, a{-1.0, -1.0}), sets(d, "SetCenterDelay", 0.0, 5.0, 1e9, -1.0), call(d, "Reset"))}
	})
	add("interpolation.AllPass", func() *Inst {
		p := interpolation.NewAllPass()
		return &Inst{func(l, r []float32) {
			for i := range l {
				l[i] = p.Process(l[i], 0.3)
			}
		}, call(p, "Reset")}
	})

	// modulation
	add("Chorus.ProcessBuffer", func() *Inst {
		c := modulation.NewChorus(SR)
		in := make([]float32, Max)
		return &Inst{func(l, r []float32) { copy(in, l); c.ProcessBuffer(in[:len(l)], l, r) }, chorusOps(c)}
	})
	add("Chorus.ProcessStereoBuffer", func() *Inst {
		c := modulation.NewChorus(SR)
		return &Inst{func(l, r []float32) { c.ProcessStereoBuffer(l, r, l, r) }, chorusOps(c)}
	})
	add("Flanger.ProcessBuffer", func() *Inst {
		f := modulation.NewFlanger(SR)
		return &Inst{func(l, r []float32) { f.ProcessBuffer(l, l) }, flangerOps(f)}
	})
	add("Flanger.ProcessStereoBuffer", func() *Inst {
		f := modulation.NewFlanger(SR)
		return &Inst{func(l, r []float32) { f.ProcessStereoBuffer(l, r, l, r) }, flangerOps(f)}
	})
	add("Phaser.ProcessBuffer", func() *Inst {
		p := modulation.NewPhaser(SR)
		return &Inst{func(l, r []float32) { p.ProcessBuffer(l, l) }, phaserOps(p)}
	})
	add("Phaser.ProcessStereoBuffer", func() *Inst {
		p := modulation.NewPhaser(SR)
		return &Inst{func(l, r []float32) { p.ProcessStereoBuffer(l, r, l, r) }, phaserOps(p)}
	})
	add("RingModulator.ProcessBuffer", func() *Inst {
		m := modulation.NewRingModulator(SR)
		return &Inst{func(l, r []float32) { m.ProcessBuffer(l, l) }, ringOps(m)}
	})
	add("RingModulator.ProcessStereoBuffer", func() *Inst {
		m := modulation.NewRingModulator(SR)
		return &Inst{func(l, r []float32) { m.ProcessStereoBuffer(l, r, l, r) }, ringOps(m)}
	})
	add("Tremolo.ProcessBuffer", func() *Inst {
		t := modulation.NewTremolo(SR)
		return &Inst{func(l, r []float32) { t.ProcessBuffer(l, l) }, tremoloOps(t)}
	})
	add("Tremolo.ProcessStereoBuffer", func() *Inst {
		t := modulation.NewTremolo(SR)
		return &Inst{func(l, r []float32) { t.ProcessStereoBuffer(l, r, l, r) }, tremoloOps(t)}
	})
	add("LFO", func() *Inst {
		o := modulation.NewLFO(SR)
		return &Inst{wide(func(l, r []float64) { o.ProcessBuffer(l) }), cat(sets(o, "SetFrequency", 1.0, 100.0, 0.0, 1e9, -1.0), sets(o, "SetWaveform", 0, 1, 2, 3), sets(o, "SetDepth", 0.0, 1.0, 9.0, -1.0),
			sets(o, "SetOffset", 0.0, 1.0, 9.0, -9.0), sets(o, "SetPhase", 0.0, 0.5, 1e9, -0.5), sets(o, "EnableSync", a{true, 0.25}, a{false, 0.0}), call(o, "Sync", "Reset"))}
	}).Source = true
	add("AutoPan", func() *Inst {
		p := pan.NewAutoPan(2, 0.5, pan.ConstantPower)
		in := make([]float32, Max)
		return &Inst{func(l, r []float32) { copy(in, l); p.Process(in[:len(l)], float32(SR), l, r) }, cat(sets(p, "SetRate", 0.0, 5.0, 1e9, -1.0), sets(p, "SetDepth", 0.0, 1.0, 9.0, -1.0), call(p, "Reset"))}
	})

	// reverbs
	add("Freeverb", func() *Inst { f := reverb.NewFreeverb(SR); return &Inst{pair(f.ProcessStereo), freeverbOps(f)} })
	add("Freeverb.Process", func() *Inst { f := reverb.NewFreeverb(SR); return &Inst{mono(f.Process), freeverbOps(f)} })
	add("Schroeder", func() *Inst { f := reverb.NewSchroeder(SR); return &Inst{pair(f.ProcessStereo), schroederOps(f)} })
	add("FDN(4)", func() *Inst { f := reverb.NewFDN(4, SR); return &Inst{pair(f.ProcessStereo), fdnOps(f)} })
	add("FDN(8)", func() *Inst { f := reverb.NewFDN(8, SR); return &Inst{mono(f.Process), fdnOps(f)} })
	for k := len(ks) - 2; k < len(ks); k++ {
		ks[k].Random, ks[k].Chance = true, true
	}
	add("CombFilter", func() *Inst {
		c := reverb.NewCombFilter(50)
		return &Inst{mono(c.Process), cat(sets(c, "SetFeedback", 0.0, 0.5, 0.95), sets(c, "SetDamping", 0.0, 0.5, 1.0), call(c, "Reset"))}
	})

	// filters
	add("Biquad", func() *Inst {
		b := filter.NewBiquad(2)
		b.SetLowpass(SR, 1000, 0.7)
		bufs := make([][]float32, 2)
		return &Inst{func(l, r []float32) { bufs[0], bufs[1] = l, r; b.ProcessMulti(bufs) }, biquadOps(b, SR)}
	})
	for m := 0; m < 5; m++ {
		add(fmt.Sprintf("SVF(%d)", m), func() *Inst {
			s := filter.NewSVF(2)
			s.SetFrequencyAndQ(SR, 700, 0.9)
			f := []func([]float32, int){s.ProcessLowpass, s.ProcessHighpass, s.ProcessBandpass, s.ProcessNotch, func(b []float32, c int) { s.ProcessMixed(b, c, 0.1, 0.2, 0.3, 0.4) }}[m]
			return &Inst{func(l, r []float32) { f(l, 0); f(r, 1) }, svfOps(s, SR)}
		})
	}
	add("MultiModeSVF", func() *Inst {
		s := filter.NewMultiModeSVF(2)
		s.SetFrequencyAndQ(SR, 700, 0.9)
		return &Inst{func(l, r []float32) { s.Process(l, 0); s.Process(r, 1) }, append(sets(s, "SetMode", 0.0, 0.2, 0.5, 1.0, 9.0, -1.0), svfOps(&s.SVF, SR)...)}
	})
	add("DCBlocker", func() *Inst {
		d := utility.NewDCBlocker(2, 20, SR)
		return &Inst{func(l, r []float32) { d.ProcessStereo(l, r) }, cat(sets(d, "SetCutoff", a{5.0, SR}, a{200.0, SR}), call(d, "Reset"))}
	})
	add("SimpleDCBlocker", func() *Inst {
		d := utility.NewSimpleDCBlocker(SR)
		return &Inst{left(d.ProcessBuffer), call(d, "Reset")}
	})

	// distortion
	add("Waveshaper", func() *Inst {
		w := distortion.NewWaveshaper()
		return &Inst{wide(func(l, r []float64) { w.ProcessStereo(l, r, l, r) }), shaperOps(w)}
	})
	add("Bitcrusher", func() *Inst {
		b := distortion.NewBitcrusher(SR)
		return &Inst{wide(func(l, r []float64) { b.ProcessStereo(l, r, l, r) }), crushOps(b)}
	})
	add("Bitcrusher.ProcessBlock", func() *Inst {
		b := distortion.NewBitcrusher(SR)
		return &Inst{wide(func(l, r []float64) { b.ProcessBlock(l, l) }), crushOps(b)}
	})
	add("TubeSaturation", func() *Inst {
		t := distortion.NewTubeSaturation()
		return &Inst{wide(func(l, r []float64) { t.ProcessStereo(l, r, l, r) }), tubeOps(t)}
	})
	add("TapeSaturation", func() *Inst {
		t := distortion.NewTapeSaturation(SR)
		t.SetFlutter(0)    // what is left to chance is the flutter, and the
		t.SetSaturation(0) // hiss, which follows the saturation
		return &Inst{wide(func(l, r []float64) { t.ProcessStereo(l, r, l, r) }), tapeOps(t)}
	})
	add("TapeSaturation with flutter", func() *Inst {
		t := distortion.NewTapeSaturation(SR)
		return &Inst{wide(func(l, r []float64) { t.ProcessStereo(l, r, l, r) }), cat(sets(t, "SetFlutter", 0.0, 0.5, 1.0, 9.0, -1.0), sets(t, "SetSaturation", 0.0, 0.5, 1.0, 9.0, -1.0), tapeOps(t))}
	}).Random = true
	ks[len(ks)-1].Source = true

	// sources
	for k, f := range []func(o *oscillator.Oscillator) func([]float32){
		func(o *oscillator.Oscillator) func([]float32) { return o.ProcessSine },
		func(o *oscillator.Oscillator) func([]float32) { return o.ProcessSaw },
		func(o *oscillator.Oscillator) func([]float32) { return o.ProcessSquare },
		func(o *oscillator.Oscillator) func([]float32) { return o.ProcessTriangle },
		func(o *oscillator.Oscillator) func([]float32) { return func(b []float32) { o.ProcessPulse(b, 0.3) } }} {
		add(fmt.Sprintf("Oscillator(%d)", k), func() *Inst {
			o := oscillator.New(SR)
			return &Inst{left(f(o)), cat(sets(o, "SetFrequency", 440.0, 0.0, 5000.0, 1e9, -1.0), sets(o, "SetPhase", 0.0, 0.5, 1e9, -0.5), call(o, "Reset"))}
		}).Source = true
	}
	add("BandLimitedSaw", func() *Inst {
		o := oscillator.NewBandLimitedSaw(SR)
		o.SetFrequency(440)
		return &Inst{left(o.Process), sets(o, "SetFrequency", 440.0, 100.0, 3000.0)}
	}).Source = true
	add("BLITOscillator", func() *Inst {
		o := oscillator.NewBLIT(SR)
		o.SetFrequency(440)
		return &Inst{mono(func(float32) float32 { return o.BLIT() }), sets(o, "SetFrequency", 440.0, 100.0, 3000.0)}
	}).Source = true
	for k := 0; k < 5; k++ {
		add(fmt.Sprintf("NoiseGenerator(%d)", k), func() *Inst {
			g, g2 := utility.NewNoiseGenerator(utility.NoiseType(k)), utility.NewNoiseGenerator(utility.NoiseType(k))
			g.SetSeed(7)
			g2.SetSeed(7)
			ops := func(g *utility.NoiseGenerator) []Op {
				return cat(sets(g, "SetType", 0, 1, 2, 3, 4), sets(g, "SetSeed", 7, 8), []Op{{"Reset()", func() { g.Reset(); g.SetSeed(7) }}})
			}
			return &Inst{func(l, r []float32) { g.Generate(l); g2.GenerateAdd(r, 0.5) }, twice(ops(g), ops(g2))}
		}).Source = true
	}
	add("GaussianNoise", func() *Inst { g := utility.NewGaussianNoise(); return &Inst{left(g.Generate), nil} }).Random = true
	ks[len(ks)-1].Source = true

	// meters
	add("PeakMeter", func() *Inst {
		m := analysis.NewPeakMeter(SR)
		return &Inst{meter(func(l, r []float64) { m.Process(l) }, m.GetPeak, m.GetHold), cat(sets(m, "SetHoldTime", 0.0, 0.01, 1e9), sets(m, "SetDecayRate", 0.0, 60.0, 1e9), call(m, "Reset"))}
	})
	add("RMSMeter", func() *Inst {
		m := analysis.NewRMSMeter(40)
		return &Inst{meter(func(l, r []float64) { m.Process(l) }, m.GetRMS), call(m, "Reset")}
	})
	add("LUFSMeter", func() *Inst {
		m := analysis.NewLUFSMeter(1000, 1)
		return &Inst{meter(func(l, r []float64) { m.Process(l) }, func() float64 { return 1 / m.GetMomentaryLUFS() }, func() float64 { return 1 / m.GetIntegratedLUFS() }), call(m, "Reset")}
	})
	add("CorrelationMeter", func() *Inst {
		m := analysis.NewCorrelationMeter(40, SR)
		return &Inst{meter(m.Process, m.GetCorrelation, m.GetPeakHold), cat(sets(m, "SetAveraging", 0.0, 0.5, 0.99), sets(m, "SetPeakHoldTime", 0.0, 1.0), call(m, "Reset"))}
	})
	add("BalanceMeter", func() *Inst {
		m := analysis.NewBalanceMeter(40)
		return &Inst{meter(m.Process, m.GetBalance), nil}
	})
	add("StereoWidthMeter", func() *Inst {
		m := analysis.NewStereoWidthMeter(40)
		return &Inst{meter(m.Process, m.GetWidth), nil}
	})
	add("SpectrumAnalyzer", func() *Inst {
		m := analysis.NewSpectrumAnalyzer(64, SR, analysis.HannWindow)
		peak := func() float64 { f, _ := m.GetPeakFrequency(); return f / SR }
		return &Inst{meter(func(l, r []float64) { m.Process(l) }, func() float64 { return m.GetBandEnergy(0, SR/2) }, peak), cat(sets(m, "SetAveraging", a{0, 1}, a{1, 4}, a{2, 4}, a{3, 1}), sets(m, "SetHopSize", 64, 16, 0), sets(m, "SetSmoothing", 0.0, 0.5), call(m, "Reset"))}
	})
	add("PhaseScope", func() *Inst {
		m := analysis.NewPhaseScope(40)
		return &Inst{meter(m.Process), cat(sets(m, "SetMode", 0, 1, 2), sets(m, "SetDecay", 0.0, 0.5, 1.0), sets(m, "SetScale", 0.5, 2.0), call(m, "Reset"))}
	})
	for k := range ks {
		switch ks[k].Name {
		case "PeakMeter", "RMSMeter", "LUFSMeter", "CorrelationMeter", "BalanceMeter", "StereoWidthMeter", "SpectrumAnalyzer", "PhaseScope":
			ks[k].Meter = true
		}
	}

	// functions on buffers, each following its parameter
	buffers := func(name string, vals []any, f func(v float32, l, r, x, y []float32)) {
		add(name, func() *Inst {
			v := float32(0.5)
			x, y := make([]float32, Max), make([]float32, Max)
			var ops []Op
			for _, u := range vals {
				ops = append(ops, Op{fmt.Sprint(u), func() { v = float32(u.(float64)) }})
			}
			return &Inst{func(l, r []float32) { f(v, l, r, x[:len(l)], y[:len(l)]) }, ops}
		})
	}
	u := []any{0.0, 0.3, 1.0, -1.0}
	buffers("gain", u, func(v float32, l, r, x, y []float32) {
		gain.ApplyBuffer(l, v)
		gain.ApplyDbBuffer(r, v)
		gain.ApplyBufferTo(l, v, x)
		gain.Fade(l, 0, v)
		gain.FadeDb(r, -6, v)
		gain.HardClipBuffer(l, 0.5)
		gain.SoftClipBuffer(r, 0.5)
	})
	buffers("mix", u, func(v float32, l, r, x, y []float32) {
		copy(x, l)
		mix.DryWetBuffer(l, r, v)
		mix.DryWetBufferTo(x, r, v, y)
		mix.CrossfadeBuffer(x, y, v, true, r)
		mix.Blend(x, l, v, y)
		dsp.AddScaled(l, y, v)
		dsp.Clip(l, 1)
		dsp.Mix(r, x, y, v)
	})
	buffers("pan", u, func(v float32, l, r, x, y []float32) {
		for law := pan.Linear; law <= pan.Linear+3; law++ {
			copy(x, l)
			pan.Process(x, v, law, l, r)
			pan.ProcessStereo(l, r, v, law, x, y)
		}
		pan.Balance(x, y, v, l, r)
		copy(x, l)
		copy(y, r)
		pan.Width(x, y, v, l, r)
	})
	buffers("resample", []any{0.5, 1.0, 1.7}, func(v float32, l, r, x, y []float32) {
		interpolation.Resample(l, v, x)
		interpolation.ResampleCubic(l, v, y)
		copy(l, x)
		copy(r, y)
	})
	for k := range ks {
		ks[k].Whole = ks[k].Name == "gain" || ks[k].Name == "resample" || ks[k].Name == "PeakMeter" || ks[k].Name == "CorrelationMeter" || ks[k].Name == "BalanceMeter" || ks[k].Name == "StereoWidthMeter"
	}
	for k := 0; k < 3; k++ {
		add(fmt.Sprintf("Smoother(%d)", k), func() *Inst {
			s, s2 := param.NewSmoother(param.SmoothingType(k), []float64{0.01, 0.99, 0.01}[k]), param.NewSmoother(param.SmoothingType(k), []float64{0.01, 0.99, 0.01}[k])
			ops := func(s *param.Smoother) []Op {
				return cat(sets(s, "SetTarget", 0.0, 0.5, 1.0), sets(s, "Reset", 0.0, 1.0), sets(s, "SetThreshold", 0.0001, 0.1))
			}
			return &Inst{func(l, r []float32) {
				s.Process(l, func(v float64, x float32) float32 { return float32(v) * x })
				for i := range r {
					r[i] = float32(s2.Next())
				}
			}, twice(ops(s), ops(s2))}
		}).Source = true
	}
	add("ParameterSmoother", func() *Inst {
		ps := param.NewParameterSmoother()
		for id := uint32(1); id < 5; id++ {
			ps.Add(id, param.New(id, "p").Range(0, 10).Default(5).Build(), param.ExponentialSmoothing, 0.99)
		}
		return &Inst{func(l, r []float32) {
			for i := range l {
				ps.UpdateAll()
				l[i], r[i] = float32(ps.GetSmoothed(1)), float32(ps.GetSmoothed(4))
			}
		}, sets(ps, "SetValue", a{1, 0.0}, a{1, 0.9}, a{4, 0.3})}
	}).Source = true
	add("SmoothParameter", func() *Inst {
		s := utility.NewSmoothParameter(0.01, SR)
		return &Inst{mono(func(float32) float32 { return float32(s.Process()) }), cat(sets(s, "SetTarget", 0.0, 0.5, 1.0), sets(s, "SetImmediate", 0.0, 1.0))}
	}).Source = true

	// chains
	add("Chain", func() *Inst {
		c := dynamics.NewCompressor(SR)
		ch := fdsp.NewChain("chain").Add(fdsp.NewCompressorAdapter(c)).Add(fdsp.NewDCBlockerAdapter(SR))
		return &Inst{left(ch.Process), cat(sets(ch, "SetBypass", true, false), call(ch, "Reset"), compressorOps(c))}
	})
	add("ParallelChain", func() *Inst {
		g := dynamics.NewGate(SR)
		n := fdsp.NewNoiseAdapter(utility.WhiteNoise, 0)
		p := fdsp.NewParallelChain("parallel").Add(fdsp.NewGateAdapter(g), 0.5).Add(fdsp.NewDCBlockerAdapter(SR), 0.5).Add(n, 0.25)
		return &Inst{left(p.Process), cat(sets(p, "SetBypass", true, false), call(p, "Reset"), gateOps(g))}
	})
	return
}
