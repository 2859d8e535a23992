package seq

import (
	"crypto/md5"
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"
	"testing"

	"github.com/justyntemme/vst3go/pkg/framework/bus"
	"github.com/justyntemme/vst3go/pkg/framework/param"
	"github.com/justyntemme/vst3go/pkg/framework/plugin"
	"github.com/justyntemme/vst3go/pkg/framework/process"
	"github.com/justyntemme/vst3go/pkg/midi"
	"github.com/justyntemme/vst3go/verifmc/core"
)

func init() {
	core.Register("P20", p20)
	core.Register("P21", p21)
	core.Register("P22", p22)
	core.Register("P23", p23)
	core.Register("P24", p24)
}

// ---- P20: parameter changes and events of a block ----

type pcSpec struct {
	l   []process.ParameterChange
	val map[uint32]float64
}

func chStr(l []process.ParameterChange) string {
	var s []string
	for _, c := range l {
		s = append(s, fmt.Sprintf("%d@%d=%v", c.ParamID, c.SampleOffset, c.Value))
	}
	return fmt.Sprint(len(l), s)
}

func p20(r *core.Run) {
	if !r.Shard0() {
		return
	}
	type impl struct {
		c   *process.Context
		g   *param.Registry
		seq int
	}
	mk := func(pre int) (func() *impl, func() *pcSpec) {
		return func() *impl {
				g := param.NewRegistry()
				_ = g.Add(&param.Parameter{ID: 1, Max: 10}, &param.Parameter{ID: 2, Min: -1, Max: 1})
				i := &impl{c: process.NewContext(8, g), g: g}
				for k := 0; k < pre; k++ {
					i.c.AddParameterChange(uint32(k%2+1), float64(k)/256, (k*7)%13)
				}
				return i
			}, func() *pcSpec {
				m := &pcSpec{val: map[uint32]float64{}}
				for k := 0; k < pre; k++ {
					m.l = append(m.l, process.ParameterChange{ParamID: uint32(k%2 + 1), Value: float64(k) / 256, SampleOffset: (k * 7) % 13})
				}
				return m
			}
	}
	type op = core.HOp[*impl, *pcSpec]
	var ops []op
	none := func(string) {}
	_ = none
	for _, a := range []struct {
		id  uint32
		off int
		v   float64
	}{{1, 5, .25}, {1, 5, .75}, {2, 0, .5}, {1, 0, 1}, {9, 3, .1}, {2, 7, 1.5}, {2, 7, math.NaN()}} {
		a := a
		ops = append(ops, op{Name: fmt.Sprintf("add(%d@%d=%v)", a.id, a.off, a.v),
			Do: func(i *impl) string { i.c.AddParameterChange(a.id, a.v, a.off); return "" },
			Spec: func(m *pcSpec) string {
				m.l = append(m.l, process.ParameterChange{ParamID: a.id, Value: a.v, SampleOffset: a.off})
				return ""
			}})
	}
	ops = append(ops,
		op{Name: "sort", Do: func(i *impl) string { i.c.SortParameterChanges(); return "" },
			Spec: func(m *pcSpec) string {
				sort.SliceStable(m.l, func(a, b int) bool { return m.l[a].SampleOffset < m.l[b].SampleOffset })
				return ""
			}},
		op{Name: "reset", Do: func(i *impl) string { i.c.ResetParameterChanges(); return "" },
			Spec: func(m *pcSpec) string { m.l = nil; return "" }},
		op{Name: "setAtOffset(1@900=.375)", Do: func(i *impl) string { i.c.SetParameterAtOffset(1, .375, 900); return "" },
			Spec: func(m *pcSpec) string { m.val[1] = .375; return "" }},
		op{Name: "setAtOffset(2@-1=2) and an unknown one", Do: func(i *impl) string {
			i.c.SetParameterAtOffset(2, 2, -1)
			i.c.SetParameterAtOffset(9, 1, 0)
			return ""
		}, Spec: func(m *pcSpec) string { m.val[2] = 1; return "" }},
		op{Name: "applyAll", Do: func(i *impl) string {
			for _, c := range i.c.GetParameterChanges() {
				i.c.ApplyParameterChange(c)
			}
			return ""
		}, Spec: func(m *pcSpec) string {
			for _, c := range m.l {
				if c.ParamID == 9 {
					continue
				}
				v := c.Value
				if v != v {
					v = 0
				}
				m.val[c.ParamID] = math.Max(0, math.Min(1, v))
			}
			return ""
		}})
	obs := func(i *impl) string {
		return fmt.Sprint(i.c.HasParameterChanges(), chStr(i.c.GetParameterChanges()), i.c.Param(1), i.c.Param(2), i.c.Param(9),
			i.c.ParamPlain(1), i.c.ParamPlain(2), i.c.ParamPlain(9))
	}
	obsS := func(m *pcSpec) string {
		return fmt.Sprint(len(m.l) > 0, chStr(m.l), m.val[1], m.val[2], 0.0, m.val[1]*10, m.val[2]*2-1, 0.0)
	}
	for _, pre := range []int{0, 20, 126} {
		n, s := mk(pre)
		h := core.Hist[*impl, *pcSpec]{Name: fmt.Sprintf("changes_after_%d", pre), New: n, Model: s, Ops: ops, Obs: obs, ObsSpec: obsS}
		d := r.Pick(5, 6)
		if pre > 0 {
			d = 4
		}
		h.Run(r, d)
	}
	// events: a block sees exactly its own events
	evFam(r)
	// values and defaults
	transport(r)
}

func evFam(r *core.Run) {
	type impl = *process.Context
	type spec struct{ in, out []int }
	type op = core.HOp[impl, *spec]
	ev := func(k int) midi.Event {
		return midi.NoteOnEvent{BaseEvent: midi.BaseEvent{Offset: int32([]int{0, 3, 3, 7, 8, 20}[k])}, NoteNumber: uint8(k)}
	}
	at := []int{0, 3, 3, 7, 8, 20}
	show := func(es []midi.Event) string {
		var s []string
		for _, e := range es {
			s = append(s, fmt.Sprint(e.(midi.NoteOnEvent).NoteNumber))
		}
		return strings.Join(s, " ")
	}
	in := func(l []int, lo, hi int) string {
		var x []int
		for _, k := range l {
			if at[k] >= lo && at[k] < hi {
				x = append(x, k)
			}
		}
		sort.SliceStable(x, func(a, b int) bool { return at[x[a]] < at[x[b]] })
		var s []string
		for _, k := range x {
			s = append(s, fmt.Sprint(k))
		}
		return strings.Join(s, " ")
	}
	var ops []op
	for _, k := range []int{0, 1, 2, 3, 4, 5} {
		k := k
		ops = append(ops, op{Name: fmt.Sprintf("in(%d)", k), Do: func(c impl) string { c.AddInputEvent(ev(k)); return "" },
			Spec: func(m *spec) string { m.in = append(m.in, k); return "" }})
	}
	for _, k := range []int{5, 0} {
		k := k
		ops = append(ops, op{Name: fmt.Sprintf("out(%d)", k), Do: func(c impl) string { c.AddOutputEvent(ev(k)); return "" },
			Spec: func(m *spec) string { m.out = append(m.out, k); return "" }})
	}
	ops = append(ops,
		op{Name: "clearIn", Do: func(c impl) string { c.ClearInputEvents(); return "" }, Spec: func(m *spec) string { m.in = nil; return "" }},
		op{Name: "clearOut", Do: func(c impl) string { c.ClearOutputEvents(); return "" }, Spec: func(m *spec) string { m.out = nil; return "" }},
		op{Name: "clearAll", Do: func(c impl) string { c.ClearAllEvents(); return "" }, Spec: func(m *spec) string { m.in, m.out = nil, nil; return "" }},
	)
	for kind, outOnly := range []bool{false, true, true, false, false} {
		outOnly, kind := outOnly, kind
		blk := []int{8, 8, 7, 3, 6}[kind] // blocks up to the declared eight samples
		h := core.Hist[impl, *spec]{Name: fmt.Sprintf("block_of_%d_events_instrument_%v", blk, outOnly),
			New: func() impl {
				c := process.NewContext(8, param.NewRegistry())
				c.Output = [][]float32{make([]float32, blk)}
				if !outOnly {
					c.Input = [][]float32{make([]float32, blk)}
				}
				if kind == 4 { // an unconnected first input
					c.Input[0] = nil
				}
				return c
			},
			Model: func() *spec { return &spec{} }, Ops: ops,
			Obs: func(c impl) string {
				var got collect
				c.ProcessEvents(&got, 3, 8)
				return fmt.Sprint(show(c.GetAllInputEvents()), "|", show(c.GetInputEvents(0, 4)), "|", show(c.GetInputEvents(4, 100)), "|", show(c.GetOutputEvents()), "|", show(got.l), "|", c.HasInputEvents())
			},
			ObsSpec: func(m *spec) string {
				return fmt.Sprint(in(m.in, 0, blk), "|", in(m.in, 0, 4), "|", in(m.in, 4, 100), "|", in(m.out, 0, 1000), "|", in(m.in, 3, 8), "|", in(m.in, 0, blk) != "")
			}}
		d := r.Pick(4, 6)
		if kind > 1 {
			d = r.Pick(4, 5)
		}
		h.Run(r, d)
	}
}

type collect struct{ l []midi.Event }

func (c *collect) ProcessEvent(e midi.Event) { c.l = append(c.l, e) }

func transport(r *core.Run) {
	var n, nt int64
	pos := []float64{-9, -4.5, -4, -1, -0.25, 0, 0.125, 0.5, 1, 2.5, 3, 3.75, 4, 7.5, 10, 12, 123.456, 1e6 + 0.5}
	for num := int32(-1); num <= 13; num++ {
		for _, den := range []int32{0, 1, 2, 4, 8, 16, 3} {
			for _, p := range pos {
				for flags := 0; flags < 16; flags++ {
					t := process.TransportInfo{TimeSigNumerator: num, TimeSigDenominator: den, ProjectTimeMusic: p,
						HasMusicalTime: flags&1 != 0, HasTimeSignature: flags&2 != 0, HasBarPosition: flags&4 != 0, HasTempo: flags&8 != 0, Tempo: 90}
					n++
					bars, beats := t.GetBarsBeats()
					if !t.HasMusicalTime || !t.HasTimeSignature || den == 0 || num <= 0 {
						if bars != 0 || beats != 0 {
							r.Failf("bars", "%+v: %d bars %v beats without valid musical time", t, bars, beats)
						}
					} else {
						nt++
						total := p * float64(den) / 4
						if !core.Close(float64(bars)*float64(num)+beats, total, 1e-9) || beats < -1e-9 || beats > float64(num)+1e-9 {
							r.Failf("bars", "%+v: %d bars %v beats, position is %v beats", t, bars, beats, total)
						}
						if math.Abs(beats-float64(num)) < 1e-12 {
							r.Failf("bars", "%+v: beat %v is not inside the bar", t, beats)
						}
					}
					for _, bar := range []float64{0, -4, p, p - 1.5, math.Floor(p/4) * 4} {
						t.BarPositionMusic = bar
						bp := t.GetBeatPosition()
						if !t.HasMusicalTime || !t.HasBarPosition {
							if bp != 0 {
								r.Failf("beatpos", "%+v: beat position %v without valid position", t, bp)
							}
							continue
						}
						d := p - bar
						if t.HasTimeSignature && den > 0 {
							d = d * float64(den) / 4
						}
						want := d - math.Floor(d)
						if diff := math.Abs(bp - want); !(bp >= 0 && bp <= 1) || diff > 1e-7 && 1-diff > 1e-7 {
							r.Failf("beatpos", "%+v: beat position %v, want %v", t, bp, want)
						}
						for _, th := range []float64{0.05, 0.3} {
							if got, w := t.IsOnBeat(th), bp < th || bp > 1-th; got != w {
								r.Failf("onbeat", "%+v: IsOnBeat(%v)=%v at %v", t, th, got, bp)
							}
						}
					}
				}
			}
		}
	}
	for _, tempo := range []float64{-10, 0, 0.5, 60, 90, 120, 133.37, 999} {
		for _, sr := range []float64{8000, 44100, 48000, 192000} {
			for _, has := range []bool{true, false} {
				n++
				t := process.TransportInfo{Tempo: tempo, HasTempo: has}
				got, want := t.GetSamplesPerBeat(sr), 0.0
				if has && tempo > 0 {
					want = sr * 60 / tempo
				}
				if !core.Close(got, want, 1e-12) {
					r.Failf("spb", "tempo %v rate %v: %v samples per beat, want %v", tempo, sr, got, want)
				}
			}
		}
	}
	r.Count(n, n)
	r.Nontrivial(nt)
	r.Bound("transport_cases", n)
}

// ---- P24: buffer helpers of the context ----

func p24(r *core.Run) {
	if !r.Shard0() {
		return
	}
	fresh := func(ch, n int, base float32) [][]float32 {
		b := make([][]float32, ch)
		for c := range b {
			b[c] = make([]float32, n)
			for i := range b[c] {
				b[c][i] = base + float32(c*10+i) + 1
			}
		}
		return b
	}
	clone := func(b [][]float32) [][]float32 {
		o := make([][]float32, len(b))
		for i := range b {
			o[i] = append([]float32(nil), b[i]...)
		}
		return o
	}
	eq := func(a, b [][]float32) bool { return fmt.Sprint(a) == fmt.Sprint(b) }
	var n int64
	maxCh := r.Pick(4, 6)
	// alias: output channel i is the same memory as input channel i
	for ni := 0; ni <= maxCh; ni++ {
		for no := 0; no <= maxCh; no++ {
			for _, ns := range []int{0, 1, 2, 3, 5} {
				for _, alias := range []bool{false, true} {
					lim := min(ni, no)
					mk := func() *process.Context {
						c := process.NewContext(5, param.NewRegistry())
						c.Input, c.Output = fresh(ni, ns, 0), fresh(no, ns, 1000)
						if alias {
							for i := 0; i < lim; i++ {
								c.Output[i] = c.Input[i]
							}
						}
						return c
					}
					type tc struct {
						name string
						run  func(c *process.Context) string
						want func(in, out [][]float32) [][]float32 // expected outputs
					}
					cp := func(k int) func(in, out [][]float32) [][]float32 {
						return func(in, out [][]float32) [][]float32 {
							for i := 0; i < k; i++ {
								copy(out[i], in[i])
							}
							return out
						}
					}
					add := func(k int) func(in, out [][]float32) [][]float32 {
						return func(in, out [][]float32) [][]float32 {
							for i := 0; i < k; i++ {
								for s := range in[i] {
									out[i][s] = in[i][s]*2 + float32(i)
								}
							}
							return out
						}
					}
					chfn := func(calls *[]int) func(ch int, in, out []float32) {
						return func(ch int, in, out []float32) {
							*calls = append(*calls, ch)
							for s := range in {
								out[s] = in[s]*2 + float32(ch)
							}
						}
					}
					seqTo := func(k int) string {
						l := []int(nil)
						for i := 0; i < k; i++ {
							l = append(l, i)
						}
						return fmt.Sprint(l)
					}
					cases := []tc{
						{"PassThrough", func(c *process.Context) string { c.PassThrough(); return "" }, cp(lim)},
						{"CopyInputToOutput", func(c *process.Context) string { c.CopyInputToOutput(); return "" }, cp(lim)},
						{"Clear", func(c *process.Context) string { c.Clear(); return "" }, func(in, out [][]float32) [][]float32 {
							return make0(len(out), ns)
						}},
						{"ProcessChannels", func(c *process.Context) string {
							var l []int
							c.ProcessChannels(chfn(&l))
							if fmt.Sprint(l) != seqTo(lim) {
								return fmt.Sprint("channels visited: ", l)
							}
							return ""
						}, add(lim)},
						{"ProcessStereo", func(c *process.Context) string {
							var l []int
							c.ProcessStereo(chfn(&l))
							if fmt.Sprint(l) != seqTo(min(lim, 2)) {
								return fmt.Sprint("channels visited: ", l)
							}
							return ""
						}, add(min(lim, 2))},
						{"ProcessMono", func(c *process.Context) string {
							var l []int
							f := chfn(&l)
							c.ProcessMono(func(i, o []float32) { f(0, i, o) })
							if fmt.Sprint(l) != seqTo(min(lim, 1)) {
								return fmt.Sprint("channels visited: ", l)
							}
							return ""
						}, add(min(lim, 1))},
						{"ProcessSamples", func(c *process.Context) string {
							bad, k := "", 0
							c.ProcessSamples(func(s int, in, out []float32) {
								if s != k || len(in) != lim || len(out) != lim {
									bad = fmt.Sprint("sample ", s, " visited at step ", k, " with ", len(in), len(out), " channels")
								}
								k++
								for i := range in {
									out[i] = in[i]*2 + float32(i)
								}
							})
							if bad == "" && k != c.NumSamples() {
								bad = fmt.Sprint(k, " samples visited")
							}
							return bad
						}, add(lim)},
						{"ProcessSamples writing nothing", func(c *process.Context) string {
							c.ProcessSamples(func(s int, in, out []float32) {
								for i := range out {
									out[i] = 5
								}
							})
							c.ProcessSamples(func(s int, in, out []float32) {}) // a new block starts from silence
							return ""
						}, func(in, out [][]float32) [][]float32 {
							for i := 0; i < lim; i++ {
								clear(out[i])
							}
							return out
						}},
						{"ProcessChannelsSeparately", func(c *process.Context) string {
							var l []int
							f := chfn(&l)
							c.ProcessChannelsSeparately(func(i, o []float32) { f(0, i, o) }, func(i, o []float32) { f(1, i, o) }, func(i, o []float32) { f(2, i, o) })
							if fmt.Sprint(l) != seqTo(min(lim, 3)) {
								return fmt.Sprint("channels visited: ", l)
							}
							return ""
						}, add(min(lim, 3))},
						{"queries", func(c *process.Context) string {
							wantN := 0
							if ni > 0 || no > 0 {
								wantN = ns
							}
							if c.NumSamples() != wantN || c.NumInputChannels() != ni || c.NumOutputChannels() != no || c.GetNumChannels() != lim || c.GetNumStereoChannels() != min(lim, 2) {
								return fmt.Sprint("counts ", c.NumSamples(), c.NumInputChannels(), c.NumOutputChannels(), c.GetNumChannels(), c.GetNumStereoChannels())
							}
							w, t := c.WorkBuffer(), c.TempBuffer()
							if len(w) != wantN || len(t) != wantN {
								return fmt.Sprint("scratch buffers of ", len(w), len(t), " samples")
							}
							for i := range w {
								w[i] = 7777
							}
							for i := range t {
								if t[i] == 7777 {
									return "work and temp buffer share memory"
								}
								t[i] = 8888
							}
							for i := range w {
								if w[i] != 7777 {
									return "work and temp buffer share memory"
								}
							}
							if wantN > 0 && &c.WorkBuffer()[0] != &w[0] {
								return "work buffer moved within a block"
							}
							return ""
						}, func(in, out [][]float32) [][]float32 { return out }},
					}
					for _, t := range cases {
						t := t
						id := func() string {
							return fmt.Sprintf("%s with %d inputs, %d outputs, %d samples, in place %v", t.name, ni, no, ns, alias)
						}
						r.Guard("buffers", id, func() {
							c := mk()
							in, out := clone(c.Input), clone(c.Output)
							extra := clone(c.Input)
							if s := t.run(c); s != "" {
								r.Failf("buffers:"+t.name, "%s: %s", id(), s)
							}
							want := t.want(in, out)
							if !eq(c.Output, want) {
								r.Failf("buffers:"+t.name, "%s: outputs %v, want %v", id(), c.Output, want)
							}
							for i := range c.Input {
								if alias && i < lim {
									continue
								}
								if fmt.Sprint(c.Input[i]) != fmt.Sprint(extra[i]) {
									r.Failf("buffers:"+t.name, "%s: input channel %d modified", id(), i)
								}
							}
						})
						n++
					}
				}
			}
		}
	}
	// clearing reaches every sample of every output, whatever the inputs are
	for _, l := range []int{0, 1, 3} {
		for _, o := range []int{1, 5} {
			for no := 1; no <= maxCh; no++ {
				c := process.NewContext(5, param.NewRegistry())
				c.Input, c.Output = fresh(2, l, 0), fresh(no, o, 1000)
				if c.Clear(); !eq(c.Output, make0(no, o)) {
					r.Failf("buffers:Clear", "clearing %d outputs of %d samples beside inputs of %d leaves %v", no, o, l, c.Output)
				}
				n++
			}
		}
	}
	// more channels than anybody counted on
	for _, ch := range []int{8, 31, 32, 33, 64, 65, 130} {
		id := func() string { return fmt.Sprint(ch, " channels") }
		r.Guard("buffers:many", id, func() {
			c := process.NewContext(5, param.NewRegistry())
			c.Input, c.Output = fresh(ch, 3, 0), fresh(ch+1, 3, 1000)
			want := clone(c.Output)
			for i := range c.Input {
				for k := range c.Input[i] {
					want[i][k] = c.Input[i][k]*2 + float32(i)
				}
			}
			c.ProcessSamples(func(s int, in, out []float32) {
				for i := range in {
					out[i] = in[i]*2 + float32(i)
				}
			})
			if !eq(c.Output, want) {
				r.Failf("buffers:many", "ProcessSamples over %d channels: %v, want %v", ch, c.Output, want)
			}
			c.ProcessChannels(func(k int, in, out []float32) { copy(out, in) })
			copy(want, clone(c.Input))
			if !eq(c.Output, want) {
				r.Failf("buffers:many", "ProcessChannels over %d channels: %v, want %v", ch, c.Output, want)
			}
		})
		n++
	}
	// no helper allocates, from the first block on
	for ni := 0; ni <= maxCh; ni++ {
		for no := 0; no <= maxCh; no++ {
			c := process.NewContext(8, param.NewRegistry())
			c.Input, c.Output = make0(ni, 8), make0(no, 8)
			f1 := func(ch int, in, out []float32) {}
			f2 := func(in, out []float32) {}
			fs := []func(in, out []float32){f2, f2, f2}
			for _, h := range []struct {
				name string
				f    func()
			}{{"PassThrough", func() { c.PassThrough() }}, {"Clear", func() { c.Clear() }}, {"CopyInputToOutput", func() { c.CopyInputToOutput() }},
				{"ProcessChannels", func() { c.ProcessChannels(f1) }}, {"ProcessStereo", func() { c.ProcessStereo(f1) }}, {"ProcessMono", func() { c.ProcessMono(f2) }},
				{"ProcessSamples", func() { c.ProcessSamples(f1) }}, {"ProcessChannelsSeparately", func() { c.ProcessChannelsSeparately(fs...) }},
				{"WorkBuffer", func() { c.WorkBuffer() }}, {"TempBuffer", func() { c.TempBuffer() }}} {
				if a := testing.AllocsPerRun(3, h.f); a > 0 {
					r.Failf("allocation:"+h.name, "%s with %d inputs and %d outputs allocates %v times per block", h.name, ni, no, a)
				}
				n++
			}
		}
	}
	r.Count(n, n)
	r.Nontrivial(n)
	r.Bound("channels", maxCh)
}

func make0(ch, n int) [][]float32 {
	b := make([][]float32, ch)
	for i := range b {
		b[i] = make([]float32, n)
	}
	return b
}

// ---- P21: bus configuration ----

type busSpec struct {
	l    []bus.Info
	bad  bool
	done bool
}

func (m *busSpec) find(mt bus.MediaType, d bus.Direction, idx int32) *bus.Info {
	k := int32(0)
	for i := range m.l {
		if m.l[i].MediaType == mt && m.l[i].Direction == d {
			if k == idx {
				return &m.l[i]
			}
			k++
		}
	}
	return nil
}

func (m *busSpec) valid() bool {
	if m.bad {
		return false
	}
	ok := false
	for _, b := range m.l {
		if b.Direction == bus.DirectionOutput && b.BusType == bus.TypeMain {
			ok = true
		}
		if b.MediaType == bus.MediaTypeAudio && (b.ChannelCount < 1 || b.ChannelCount > 32) {
			return false
		}
	}
	return ok
}

var mts = []bus.MediaType{bus.MediaTypeAudio, bus.MediaTypeEvent}
var dirs = []bus.Direction{bus.DirectionInput, bus.DirectionOutput}

// cfgObs asks a configuration everything it can tell.
func cfgObs(c *bus.Configuration) string {
	var s strings.Builder
	for _, mt := range mts {
		for _, d := range dirs {
			fmt.Fprintf(&s, "%d/%d:%d[", mt, d, c.GetBusCount(mt, d))
			for i := int32(-1); i < max(8, c.GetBusCount(mt, d)+3); i++ {
				if b := c.GetBusInfo(mt, d, i); b != nil {
					fmt.Fprintf(&s, "%d=%+v ", i, *b)
				}
			}
			fmt.Fprintf(&s, "] act%+v ", c.GetActiveBuses(mt, d))
		}
	}
	fmt.Fprintf(&s, "in%d out%d sc%v", c.GetActiveInputChannelCount(), c.GetActiveOutputChannelCount(), c.HasSidechain())
	if b := c.GetSidechainBus(); b != nil {
		fmt.Fprintf(&s, " %+v", *b)
	}
	return s.String()
}

func specObs(m *busSpec) string {
	var s strings.Builder
	var in, out int32
	var side *bus.Info
	for _, mt := range mts {
		for _, d := range dirs {
			n := int32(0)
			var act []bus.Info
			for i, b := range m.l {
				if b.MediaType == mt && b.Direction == d {
					n++
					if b.IsActive {
						act = append(act, b)
						if mt == bus.MediaTypeAudio && d == bus.DirectionInput {
							in += b.ChannelCount
						} else if mt == bus.MediaTypeAudio {
							out += b.ChannelCount
						}
					}
					if side == nil && mt == bus.MediaTypeAudio && d == bus.DirectionInput && b.BusType == bus.TypeAux {
						side = &m.l[i]
					}
				}
			}
			fmt.Fprintf(&s, "%d/%d:%d[", mt, d, n)
			for i := int32(-1); i < max(8, n+3); i++ {
				if b := m.find(mt, d, i); b != nil {
					fmt.Fprintf(&s, "%d=%+v ", i, *b)
				}
			}
			fmt.Fprintf(&s, "] act%+v ", act)
		}
	}
	fmt.Fprintf(&s, "in%d out%d sc%v", in, out, side != nil)
	if side != nil {
		fmt.Fprintf(&s, " %+v", *side)
	}
	return s.String()
}

func au(d bus.Direction, t bus.Type, name string, ch int32) bus.Info {
	return bus.Info{MediaType: bus.MediaTypeAudio, Direction: d, ChannelCount: ch, Name: name, BusType: t, IsActive: t == bus.TypeMain}
}

func evb(d bus.Direction, name string) bus.Info {
	return bus.Info{MediaType: bus.MediaTypeEvent, Direction: d, ChannelCount: 1, Name: name, BusType: bus.TypeMain, IsActive: true}
}

func p21(r *core.Run) {
	if !r.Shard0() {
		return
	}
	const I, O, M, A = bus.DirectionInput, bus.DirectionOutput, bus.TypeMain, bus.TypeAux
	type impl struct {
		b *bus.Builder
		c *bus.Configuration
	}
	type op = core.HOp[*impl, *busSpec]
	var ops []op
	wth := func(name string, f func(b *bus.Builder) *bus.Builder, info bus.Info) {
		ops = append(ops, op{Name: name, Do: func(i *impl) string {
			if f(i.b) != i.b {
				return "builder does not chain"
			}
			return ""
		}, Spec: func(m *busSpec) string { m.l = append(m.l, info); return "" }})
	}
	wth("AudioInput3", func(b *bus.Builder) *bus.Builder { return b.WithAudioInput("i3", 3) }, au(I, M, "i3", 3))
	wth("AudioInput33", func(b *bus.Builder) *bus.Builder { return b.WithAudioInput("i33", 33) }, au(I, M, "i33", 33))
	wth("AudioOutput32", func(b *bus.Builder) *bus.Builder { return b.WithAudioOutput("o32", 32) }, au(O, M, "o32", 32))
	wth("StereoOutput", func(b *bus.Builder) *bus.Builder { return b.WithStereoOutput("so") }, au(O, M, "so", 2))
	wth("Sidechain", func(b *bus.Builder) *bus.Builder { return b.WithSidechain("sc") }, au(I, A, "sc", 2))
	wth("AuxOutput0", func(b *bus.Builder) *bus.Builder { return b.WithAuxOutput("ao", 0) }, au(O, A, "ao", 0))
	wth("AuxOutput6", func(b *bus.Builder) *bus.Builder { return b.WithAuxOutput("so", 6) }, au(O, A, "so", 6))
	wth("AuxInput33", func(b *bus.Builder) *bus.Builder { return b.WithAuxInput("i3", 33) }, au(I, A, "i3", 33))
	wth("AuxOutput1", func(b *bus.Builder) *bus.Builder { return b.WithAuxOutput("a1", 1) }, au(O, A, "a1", 1))
	wth("EventInput", func(b *bus.Builder) *bus.Builder { return b.WithEventInput("ei") }, evb(I, "ei"))
	wth("EventOutput", func(b *bus.Builder) *bus.Builder { return b.WithEventOutput("eo") }, evb(O, "eo"))
	nW := len(ops)
	setA := func(mt bus.MediaType, d bus.Direction, idx int32, act bool) {
		ops = append(ops, op{Name: fmt.Sprintf("SetBusActive(%d,%d,%d,%v)", mt, d, idx, act),
			Do: func(i *impl) string { i.b.SetBusActive(mt, d, idx, act); return "" },
			Spec: func(m *busSpec) string {
				if b := m.find(mt, d, idx); b != nil {
					b.IsActive = act
				} else {
					m.bad = true
				}
				return ""
			}})
	}
	setA(bus.MediaTypeAudio, I, 0, false)
	setA(bus.MediaTypeAudio, I, 1, true)
	setA(bus.MediaTypeAudio, O, 0, false)
	setA(bus.MediaTypeEvent, I, 0, false)
	setA(bus.MediaTypeEvent, O, 0, true)
	setA(bus.MediaTypeAudio, O, -1, true)
	h := core.Hist[*impl, *busSpec]{Name: "builder", New: func() *impl { return &impl{b: bus.NewBuilder()} }, Model: func() *busSpec { return &busSpec{} }, Ops: ops,
		Obs: func(i *impl) string {
			c, err := i.b.Build()
			verr := i.b.Validate()
			if (err == nil) != (verr == nil) || (err == nil) == (c == nil) {
				return fmt.Sprint("Build ", err, c != nil, " Validate ", verr)
			}
			var mc *bus.Configuration
			mp := func() (p bool) {
				defer func() { p = recover() != nil }()
				mc = i.b.MustBuild()
				return false
			}()
			if mp != (err != nil) {
				return fmt.Sprint("MustBuild panics ", mp, " but Build says ", err)
			}
			if err != nil {
				return "refused"
			}
			if a, b := cfgObs(c), cfgObs(mc); a != b {
				return "Build and MustBuild differ: " + a + b
			}
			return cfgObs(c)
		},
		ObsSpec: func(m *busSpec) string {
			if !m.valid() {
				return "refused"
			}
			return specObs(m)
		}}
	h.Run(r, r.Pick(5, 6))
	_ = nW
	// host side: activation on built configurations
	type hop = core.HOp[*bus.Configuration, *busSpec]
	var hops []hop
	for _, mt := range mts {
		for _, d := range dirs {
			for _, idx := range []int32{-1, 0, 1, 2} {
				for _, act := range []bool{false, true} {
					mt, d, idx, act := mt, d, idx, act
					hops = append(hops, hop{Name: fmt.Sprintf("SetBusActive(%d,%d,%d,%v)", mt, d, idx, act),
						Do: func(c *bus.Configuration) string { return fmt.Sprint(c.SetBusActive(mt, d, idx, act) == nil) },
						Spec: func(m *busSpec) string {
							if b := m.find(mt, d, idx); b != nil {
								b.IsActive = act
								return "true"
							}
							return "false"
						}})
				}
			}
		}
	}
	for _, d := range dirs {
		d := d
		hops = append(hops, hop{Name: fmt.Sprint("AddEventBus ", d), Do: func(c *bus.Configuration) string { c.AddEventBus(d, "x"); return "" },
			Spec: func(m *busSpec) string { m.l = append(m.l, evb(d, "x")); return "" }})
	}
	for _, st := range []struct {
		name string
		mk   func() *bus.Configuration
		l    []bus.Info
	}{
		{"stereo", bus.NewStereoConfiguration, []bus.Info{au(I, M, "Stereo In", 2), au(O, M, "Stereo Out", 2)}},
		{"mono", bus.NewMonoConfiguration, []bus.Info{au(I, M, "Mono In", 1), au(O, M, "Mono Out", 1)}},
		{"mixer", func() *bus.Configuration { return bus.NewMixerChannel(2) }, []bus.Info{au(I, M, "Channel In", 2), au(O, M, "Main Out", 2), au(O, A, "Send 1", 2), au(O, A, "Send 2", 2)}},
		{"sidechain", bus.NewEffectStereoSidechain, []bus.Info{au(I, M, "Stereo In", 2), au(O, M, "Stereo Out", 2), au(I, A, "Sidechain In", 2)}},
		{"same names", func() *bus.Configuration {
			return bus.NewBuilder().WithAuxInput("n", 4).WithAudioInput("n", 1).WithAuxInput("n", 7).WithAudioOutput("n", 2).WithAuxOutput("n", 5).WithEventInput("n").WithEventInput("n").MustBuild()
		}, []bus.Info{au(I, A, "n", 4), au(I, M, "n", 1), au(I, A, "n", 7), au(O, M, "n", 2), au(O, A, "n", 5), evb(I, "n"), evb(I, "n")}},
	} {
		st := st
		h := core.Hist[*bus.Configuration, *busSpec]{Name: "activate_" + st.name, New: st.mk,
			Model: func() *busSpec { return &busSpec{l: append([]bus.Info(nil), st.l...)} }, Ops: hops, Obs: cfgObs, ObsSpec: specObs}
		h.Run(r, r.Pick(2, 3))
	}
	// convenience builders and templates
	conv := []struct {
		name string
		f    func(b *bus.Builder) *bus.Builder
		w    bus.Info
	}{
		{"AuxInput", func(b *bus.Builder) *bus.Builder { return b.WithAuxInput("n", 5) }, au(I, A, "n", 5)},
		{"StereoInput", func(b *bus.Builder) *bus.Builder { return b.WithStereoInput("n") }, au(I, M, "n", 2)},
		{"MonoInput", func(b *bus.Builder) *bus.Builder { return b.WithMonoInput("n") }, au(I, M, "n", 1)},
		{"MonoOutput", func(b *bus.Builder) *bus.Builder { return b.WithMonoOutput("n") }, au(O, M, "n", 1)},
		{"QuadInput", func(b *bus.Builder) *bus.Builder { return b.WithQuadInput("n") }, au(I, M, "n", 4)},
		{"QuadOutput", func(b *bus.Builder) *bus.Builder { return b.WithQuadOutput("n") }, au(O, M, "n", 4)},
		{"5.1In", func(b *bus.Builder) *bus.Builder { return b.With5_1Input("n") }, au(I, M, "n", 6)},
		{"5.1Out", func(b *bus.Builder) *bus.Builder { return b.With5_1Output("n") }, au(O, M, "n", 6)},
		{"7.1In", func(b *bus.Builder) *bus.Builder { return b.With7_1Input("n") }, au(I, M, "n", 8)},
		{"7.1Out", func(b *bus.Builder) *bus.Builder { return b.With7_1Output("n") }, au(O, M, "n", 8)},
	}
	var n int64
	base := au(O, M, "base", 2)
	for i := range conv {
		for j := range conv {
			n++
			b := conv[j].f(conv[i].f(bus.NewBuilder().WithStereoOutput("base")))
			want := specObs(&busSpec{l: []bus.Info{base, conv[i].w, conv[j].w}})
			c, err := b.Build()
			if err != nil || cfgObs(c) != want {
				r.Failf("builders", "%s then %s: %v\n got  %s\n want %s", conv[i].name, conv[j].name, err, cfgObs(b.MustBuild()), want)
			}
		}
	}
	for ch := int32(-2); ch <= 36; ch++ {
		n++
		_, err := bus.NewBuilder().WithAudioOutput("o", 2).WithAudioInput("i", ch).Build()
		if (err == nil) != (ch >= 1 && ch <= 32) {
			r.Failf("channels", "a bus of %d channels: %v", ch, err)
		}
	}
	type tpl struct {
		name string
		mk   func() *bus.Configuration
		l    []bus.Info // nil: must refuse
	}
	tpls := []tpl{
		{"EffectStereo", bus.NewEffectStereo, []bus.Info{au(I, M, "Stereo In", 2), au(O, M, "Stereo Out", 2)}},
		{"EffectMono", bus.NewEffectMono, []bus.Info{au(I, M, "Mono In", 1), au(O, M, "Mono Out", 1)}},
		{"MonoToStereo", bus.NewMonoToStereo, []bus.Info{au(I, M, "Mono In", 1), au(O, M, "Stereo Out", 2)}},
		{"StereoToMono", bus.NewStereoToMono, []bus.Info{au(I, M, "Stereo In", 2), au(O, M, "Mono Out", 1)}},
		{"DualMono", bus.NewDualMono, []bus.Info{au(I, M, "Left In", 1), au(I, M, "Right In", 1), au(O, M, "Left Out", 1), au(O, M, "Right Out", 1)}},
		{"MidSide", bus.NewMidSideProcessor, []bus.Info{au(I, M, "Stereo In", 2), au(O, M, "Stereo Out", 2), au(O, A, "Mid", 1), au(O, A, "Side", 1)}},
		{"SurroundPanner", bus.NewSurroundPanner, []bus.Info{au(I, M, "Stereo In", 2), au(O, M, "5.1 Out", 6)}},
		{"5.1", bus.NewSurround5_1Effect, []bus.Info{au(I, M, "5.1 In", 6), au(O, M, "5.1 Out", 6)}},
		{"7.1", bus.NewSurround7_1Effect, []bus.Info{au(I, M, "7.1 In", 8), au(O, M, "7.1 Out", 8)}},
		{"Analyzer", bus.NewAnalyzer, []bus.Info{au(I, M, "Analysis In", 2), au(O, M, "Thru Out", 2)}},
		{"Generator", bus.NewGenerator, []bus.Info{au(O, M, "Stereo Out", 2), evb(I, "MIDI In")}},
		{"MIDIEffect", bus.NewMIDIEffect, []bus.Info{evb(I, "MIDI In"), evb(O, "MIDI Out")}},
		{"Vocoder", bus.NewVocoder, []bus.Info{au(I, M, "Voice In", 1), au(O, M, "Vocoded Out", 1), au(I, A, "Carrier In", 2)}},
	}
	for k := 0; k <= 40; k++ {
		k := k
		mix := []bus.Info{au(I, M, "Channel In", 2), au(O, M, "Main Out", 2)}
		cross := []bus.Info{au(I, M, "Stereo In", 2)}
		split := []bus.Info{au(I, M, "Input", 2)}
		for i := 1; i <= k; i++ {
			mix = append(mix, au(O, A, fmt.Sprintf("Send %d", i), 2))
			cross = append(cross, au(O, A, fmt.Sprintf("Band %d", i), 2))
			split = append(split, au(O, M, fmt.Sprintf("Output %d", i), 2))
		}
		cross = append(cross, au(O, M, "Main Out", 2))
		if k == 0 {
			split = nil
		}
		tpls = append(tpls, tpl{fmt.Sprint("MixerChannel", k), func() *bus.Configuration { return bus.NewMixerChannel(k) }, mix},
			tpl{fmt.Sprint("Crossover", k), func() *bus.Configuration { return bus.NewCrossover(k) }, cross},
			tpl{fmt.Sprint("Splitter", k), func() *bus.Configuration { return bus.NewSplitter(k) }, split})
	}
	for ch := int32(-1); ch <= 34; ch++ {
		ch := ch
		l := []bus.Info{au(I, M, "Multi In", ch), au(O, M, "Multi Out", ch)}
		if ch < 1 || ch > 32 {
			l = nil
		}
		tpls = append(tpls, tpl{fmt.Sprint("MultiChannel", ch), func() *bus.Configuration { return bus.NewMultiChannelEffect(ch) }, l})
	}
	for _, t := range tpls {
		n++
		var c *bus.Configuration
		func() {
			defer func() { recover() }()
			c = t.mk()
		}()
		if t.l == nil {
			if c != nil {
				r.Failf("template", "template %s should be refused", t.name)
			}
			continue
		}
		if c == nil {
			r.Failf("template", "template %s panics", t.name)
			continue
		}
		if g, w := cfgObs(c), specObs(&busSpec{l: t.l}); g != w {
			r.Failf("template", "template %s:\n got  %s\n want %s", t.name, g, w)
		}
		// a second configuration of the same template is independent
		for i := int32(0); i < c.GetBusCount(bus.MediaTypeAudio, O); i++ {
			_ = c.SetBusActive(bus.MediaTypeAudio, O, i, i%2 == 1)
		}
		if g, w := cfgObs(t.mk()), specObs(&busSpec{l: t.l}); g != w {
			r.Failf("template", "template %s: a new configuration sees changes made to an earlier one", t.name)
		}
	}
	r.Count(n, n)
	r.Nontrivial(n)
}

// ---- P22: multi-bus routing ----

func p22(r *core.Run) {
	if !r.Shard0() {
		return
	}
	type shape struct {
		typ    bus.Type
		active bool
		ch     int
	}
	var kinds []shape
	for _, t := range []bus.Type{bus.TypeMain, bus.TypeAux} {
		for _, a := range []bool{true, false} {
			for _, c := range []int{0, 1, 2} {
				kinds = append(kinds, shape{t, a, c})
			}
		}
	}
	maxB := r.Pick(2, 3)
	var lists [][]shape
	for n := 0; n <= maxB; n++ {
		core.Tuples(n, len(kinds), func(v []int) bool {
			var l []shape
			for _, x := range v {
				l = append(l, kinds[x])
			}
			lists = append(lists, l)
			return true
		})
	}
	if maxB == 2 { // and the usual three-bus layouts
		lists = append(lists, []shape{{bus.TypeMain, true, 2}, {bus.TypeAux, true, 1}, {bus.TypeAux, true, 2}},
			[]shape{{bus.TypeAux, true, 2}, {bus.TypeAux, false, 1}, {bus.TypeMain, true, 2}},
			[]shape{{bus.TypeMain, true, 1}, {bus.TypeMain, false, 2}, {bus.TypeAux, true, 2}})
	}
	const ns = 3
	mkb := func(l []shape, dir bus.Direction, base float32) []process.BusBuffers {
		var out []process.BusBuffers
		for bi, s := range l {
			b := process.BusBuffers{BusInfo: &bus.Info{Direction: dir, BusType: s.typ, IsActive: s.active, ChannelCount: int32(s.ch), Name: fmt.Sprint(bi)}}
			b.Channels = make([][]float32, s.ch)
			for c := range b.Channels {
				b.Channels[c] = make([]float32, ns)
				for i := range b.Channels[c] {
					b.Channels[c][i] = base + float32(bi*100+c*10+i) + 1
				}
			}
			out = append(out, b)
		}
		return out
	}
	same := func(a, b [][]float32) bool { // the very same buffers
		if len(a) != len(b) || (a == nil) != (b == nil) {
			return false
		}
		for i := range a {
			if &a[i] != &b[i] {
				return false
			}
		}
		return true
	}
	first := func(bs []process.BusBuffers, t bus.Type) [][]float32 {
		for _, b := range bs {
			if b.BusInfo.BusType == t {
				return b.Channels
			}
		}
		return nil
	}
	dumpB := func(bs []process.BusBuffers) string {
		s := ""
		for _, b := range bs {
			s += fmt.Sprint(b.Channels, *b.BusInfo)
		}
		return s
	}
	r.Each(len(lists), func(i int) string { return fmt.Sprint("inputs ", lists[i]) }, func(i int, w *core.Worker) {
		for _, ol := range lists {
			lab := fmt.Sprintf("inputs %v outputs %v", lists[i], ol)
			mk := func() *process.MultiBusContext {
				m := process.NewMultiBusContext(process.NewContext(8, param.NewRegistry()), bus.NewEffectStereo())
				m.InputBuses, m.OutputBuses = mkb(lists[i], bus.DirectionInput, 0), mkb(ol, bus.DirectionOutput, 5000)
				return m
			}
			m := mk()
			r.Count(1, 1)
			r.Nontrivial(1)
			bad := func(what string) { r.Failf("routing:"+what, "%s: wrong %s", lab, what) }
			if m.NumInputBuses() != len(lists[i]) || m.NumOutputBuses() != len(ol) {
				bad("bus count")
			}
			if !same(m.GetMainInput(), first(m.InputBuses, bus.TypeMain)) {
				bad("main input")
			}
			if !same(m.GetMainOutput(), first(m.OutputBuses, bus.TypeMain)) {
				bad("main output")
			}
			if !same(m.GetSidechainInput(), first(m.InputBuses, bus.TypeAux)) {
				bad("sidechain")
			}
			for k := -1; k <= 4; k++ {
				var wi, wo [][]float32
				var ii, oi *bus.Info
				if k >= 0 && k < len(m.InputBuses) {
					wi, ii = m.InputBuses[k].Channels, m.InputBuses[k].BusInfo
				}
				if k >= 0 && k < len(m.OutputBuses) {
					wo, oi = m.OutputBuses[k].Channels, m.OutputBuses[k].BusInfo
				}
				if !same(m.GetInputBus(k), wi) || !same(m.GetOutputBus(k), wo) || m.GetInputBusInfo(k) != ii || m.GetOutputBusInfo(k) != oi {
					bad("bus by index")
				}
			}
			for _, dir := range []int{0, 1} {
				bs := m.InputBuses
				visit := m.ProcessInputBuses
				if dir == 1 {
					bs, visit = m.OutputBuses, m.ProcessOutputBuses
				}
				var got, want []int
				visit(func(k int, ch [][]float32, info *bus.Info) {
					got = append(got, k)
					if k < 0 || k >= len(bs) || !same(ch, bs[k].Channels) || info != bs[k].BusInfo {
						bad("visited bus")
					}
				})
				for k, b := range bs {
					if b.BusInfo.IsActive {
						want = append(want, k)
					}
				}
				if fmt.Sprint(got) != fmt.Sprint(want) {
					bad("set of visited buses")
				}
			}
			mi, mo, sc := first(m.InputBuses, bus.TypeMain), first(m.OutputBuses, bus.TypeMain), first(m.InputBuses, bus.TypeAux)
			calls := 0
			m.ProcessMainBuses(func(in, out [][]float32) {
				calls++
				if !same(in, mi) || !same(out, mo) {
					bad("main buses handed to processing")
				}
			})
			m.ProcessWithSidechain(func(main, side, out [][]float32) {
				calls++
				if !same(main, mi) || !same(out, mo) || !same(side, sc) {
					bad("buses handed to sidechain processing")
				}
			})
			wantCalls := 0
			if mi != nil && mo != nil {
				wantCalls = 2
			}
			if calls != wantCalls {
				bad("number of processing calls")
			}
			before := dumpB(m.InputBuses) + dumpB(m.OutputBuses)
			if before != dumpB(mk().InputBuses)+dumpB(mk().OutputBuses) {
				bad("buffers after read-only queries")
			}
			m.PassThroughAll()
			want := mk()
			for k := 0; k < min(len(want.InputBuses), len(want.OutputBuses)); k++ {
				for c := 0; c < min(len(want.InputBuses[k].Channels), len(want.OutputBuses[k].Channels)); c++ {
					copy(want.OutputBuses[k].Channels[c], want.InputBuses[k].Channels[c])
				}
			}
			if dumpB(m.InputBuses) != dumpB(want.InputBuses) || dumpB(m.OutputBuses) != dumpB(want.OutputBuses) {
				bad("pass-through")
			}
			m.ClearAllOutputs()
			for _, b := range want.OutputBuses {
				for _, c := range b.Channels {
					clear(c)
				}
			}
			if dumpB(m.InputBuses) != dumpB(want.InputBuses) || dumpB(m.OutputBuses) != dumpB(want.OutputBuses) {
				bad("clearing")
			}
		}
	})
	r.Bound("buses_per_direction", maxB)
}

// ---- P23: plugin identity and processor lifecycle ----

func p23(r *core.Run) {
	if !r.Shard0() {
		return
	}
	legacy := map[string][16]byte{
		"com.vst3go.examples.gain":   {0x12, 0x34, 0x56, 0x78, 0x9A, 0xBC, 0xDE, 0xF0, 0x11, 0x22, 0x33, 0x44, 0x55, 0x66, 0x77, 0x88},
		"com.vst3go.examples.filter": {0x87, 0x65, 0x43, 0x21, 0xFE, 0xDC, 0xBA, 0x98, 0x88, 0x77, 0x66, 0x55, 0x44, 0x33, 0x22, 0x11},
		"com.vst3go.examples.delay":  {0xAA, 0xBB, 0xCC, 0xDD, 0xEE, 0xFF, 0x00, 0x11, 0x99, 0x88, 0x77, 0x66, 0x55, 0x44, 0x33, 0x22},
	}
	var ids []string
	alpha := []string{"a", "b", ".", "A", " ", "\x00", "é", "plugin", "com", "1"}
	for n := 0; n <= r.Pick(4, 5); n++ {
		core.Tuples(n, len(alpha), func(v []int) bool {
			s := ""
			for _, x := range v {
				s += alpha[x]
			}
			ids = append(ids, s)
			return true
		})
	}
	for n := 5; n <= 300; n++ { // long identifiers, too
		ids = append(ids, "com.vendor."+strings.Repeat("x", n), strings.Repeat("y", n))
	}
	for k := range legacy {
		for i := 0; i <= len(k); i++ {
			ids = append(ids, k[:i], k[:i]+"X"+k[i:], strings.ToUpper(k[:i])+k[i:])
		}
	}
	seen := map[[16]byte]string{}
	dedup := map[string]bool{}
	for _, id := range ids {
		if dedup[id] {
			continue
		}
		dedup[id] = true
		r.Count(1, 1)
		r.Nontrivial(1)
		in := plugin.Info{ID: id, Name: "n"}
		u := in.UID()
		other := plugin.Info{ID: id, Name: "other", Version: "9", Vendor: "v", Category: "Fx"}
		if other.UID() != u || in.UID() != u {
			r.Failf("uid", "UID of %q depends on more than the ID", id)
		}
		if prev, dup := seen[u]; dup {
			r.Failf("uid", "plugins %q and %q share UID %x", prev, id, u)
		}
		seen[u] = id
		if l, ok := legacy[id]; ok {
			if u != l {
				r.Failf("uid", "UID of %s changed to %x", id, u)
			}
		} else {
			want := md5.Sum([]byte(id))
			want[6] = want[6]&0x0f | 0x40
			want[8] = want[8]&0x3f | 0x80
			if u != want {
				r.Failf("uid", "UID of %q is %x; hosts that saved projects know it as %x", id, u, want)
			}
		}
		if err := in.ValidateUID(); (err == nil) != (id != "") {
			r.Failf("uid", "ValidateUID(%q) = %v", id, err)
		}
	}
	r.Bound("ids", len(dedup))
	inf := plugin.Info{ID: "x", Name: "N", Version: "1", Vendor: "V", Category: "Fx"}
	b := plugin.NewBase(&inf)
	b2 := plugin.NewBase(&inf)
	if b.Info != inf || b.Parameters() == nil || b.Parameters() == b2.Parameters() {
		r.Failf("base", "base does not carry its own info and parameters")
	}
	inf.ID = "changed"
	if b.Info.ID != "x" {
		r.Failf("base", "plugin base shares the caller's info")
	}
	lifecycle(r)
}

func lifecycle(r *core.Run) {
	type impl struct {
		p   *plugin.BaseProcessor
		s   *plugin.SimpleProcessor
		log []string
	}
	type spec struct {
		init, act, reset int // 0 unset, 1 ok, 2 failing
		sr               float64
		log              []string
	}
	eI, eA := errors.New("init failed"), errors.New("activate failed")
	pick := func(k int, e error) error {
		if k == 2 {
			return e
		}
		return nil
	}
	type op = core.HOp[*impl, *spec]
	var ops []op
	for k := 1; k <= 2; k++ {
		k := k
		ops = append(ops,
			op{Name: fmt.Sprint("OnInitialize", k), Do: func(i *impl) string {
				i.p.OnInitialize(func(sr float64, mb int32) error {
					i.log = append(i.log, fmt.Sprintf("init%d(%v,%v,%v)", k, sr, mb, i.p.SampleRate()))
					return pick(k, eI)
				})
				return ""
			}, Spec: func(m *spec) string { m.init = k; return "" }},
			op{Name: fmt.Sprint("OnSetActive", k), Do: func(i *impl) string {
				i.p.OnSetActive(func(a bool) error {
					i.log = append(i.log, fmt.Sprintf("active%d(%v)", k, a))
					return pick(k, eA)
				})
				return ""
			}, Spec: func(m *spec) string { m.act = k; return "" }})
	}
	ops = append(ops, op{Name: "OnReset", Do: func(i *impl) string {
		i.p.OnReset(func() { i.log = append(i.log, "reset") })
		return ""
	}, Spec: func(m *spec) string { m.reset = 1; return "" }})
	for _, sr := range []float64{44100, 96000, 0} {
		sr := sr
		ops = append(ops, op{Name: fmt.Sprint("Initialize ", sr), Do: func(i *impl) string { return fmt.Sprint(i.p.Initialize(sr, 64)) },
			Spec: func(m *spec) string {
				m.sr = sr
				if m.init == 0 {
					return "<nil>"
				}
				m.log = append(m.log, fmt.Sprintf("init%d(%v,%v,%v)", m.init, sr, 64, sr))
				return fmt.Sprint(pick(m.init, eI))
			}})
	}
	for _, a := range []bool{true, false} {
		a := a
		ops = append(ops, op{Name: fmt.Sprint("SetActive ", a), Do: func(i *impl) string { return fmt.Sprint(i.p.SetActive(a)) },
			Spec: func(m *spec) string {
				if !a && m.reset != 0 {
					m.log = append(m.log, "reset")
				}
				if m.act == 0 {
					return "<nil>"
				}
				m.log = append(m.log, fmt.Sprintf("active%d(%v)", m.act, a))
				return fmt.Sprint(pick(m.act, eA))
			}})
	}
	h := core.Hist[*impl, *spec]{Name: "processor_lifecycle", New: func() *impl {
		i := &impl{}
		i.s = plugin.NewSimpleProcessor(nil, func(ctx *process.Context) {})
		i.p = i.s.BaseProcessor
		return i
	}, Model: func() *spec { return &spec{} }, Ops: ops,
		Obs: func(i *impl) string {
			return fmt.Sprint(i.log, i.p.SampleRate(), i.p.GetLatencySamples(), i.p.GetTailSamples(), i.p.Parameters() == i.p.GetParameters())
		},
		ObsSpec: func(m *spec) string { return fmt.Sprint(m.log, m.sr, 0, 0, true) }}
	h.Run(r, r.Pick(5, 6))
	a, b := plugin.NewBaseProcessor(nil), plugin.NewBaseProcessor(nil)
	if cfgObs(a.GetBuses()) != cfgObs(bus.NewStereoConfiguration()) {
		r.Failf("default_buses", "a processor without buses is not stereo")
	}
	_ = a.GetBuses().SetBusActive(bus.MediaTypeAudio, bus.DirectionInput, 0, false)
	_ = a.GetParameters().Add(&param.Parameter{ID: 1})
	if cfgObs(b.GetBuses()) != cfgObs(bus.NewStereoConfiguration()) || b.GetParameters().Count() != 0 {
		r.Failf("default_buses", "two processors share buses or parameters")
	}
	for name, mk := range map[string]func() *bus.Configuration{
		"output only": func() *bus.Configuration { return bus.NewBuilder().WithStereoOutput("o").MustBuild() },
		"generator":   bus.NewGenerator, "midi": bus.NewMIDIEffect, "mono": bus.NewEffectMono, "mixer": func() *bus.Configuration { return bus.NewMixerChannel(3) },
		"event output": func() *bus.Configuration { return bus.NewBuilder().WithEventOutput("o").MustBuild() },
		"empty":        func() *bus.Configuration { return &bus.Configuration{} },
	} {
		c := mk()
		if p := plugin.NewBaseProcessor(c); p.GetBuses() != c || cfgObs(c) != cfgObs(mk()) {
			r.Failf("default_buses", "a processor made with %s buses has others", name)
		}
		if p := plugin.NewSimpleProcessor(c, nil); p.GetBuses() != c {
			r.Failf("default_buses", "a simple processor made with %s buses has others", name)
		}
	}
	ctx := process.NewContext(4, param.NewRegistry())
	var got *process.Context
	cfg := bus.NewEffectMono()
	s := plugin.NewSimpleProcessor(cfg, func(c *process.Context) { got = c })
	s.ProcessAudio(ctx)
	if got != ctx || s.GetBuses() != cfg {
		r.Failf("simple", "simple processor does not hand its context to the function or loses its buses")
	}
	plugin.NewSimpleProcessor(cfg, nil).ProcessAudio(ctx)
}
