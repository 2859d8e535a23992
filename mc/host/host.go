package host

import (
	"bytes"
	"fmt"
	"math"

	"github.com/justyntemme/vst3go/pkg/framework/bus"
	"github.com/justyntemme/vst3go/pkg/framework/param"
	fplugin "github.com/justyntemme/vst3go/pkg/framework/plugin"
	"github.com/justyntemme/vst3go/pkg/framework/process"
	"github.com/justyntemme/vst3go/pkg/framework/state"
	"github.com/justyntemme/vst3go/pkg/plugin"
	"github.com/justyntemme/vst3go/verifmc/core"
	"github.com/justyntemme/vst3go/verifmc/lin"
)

func init() { core.Register("P66", p66) }

// gainProc multiplies by parameter 1.  Its own fields are not synchronised: the
// wrapper promises that no lifecycle call interrupts a block.
type gainProc struct {
	params *param.Registry
	buses  *bus.Configuration
	sr     float64
	size   int32
	active bool
	seen   []float64 // gains used, one per processed part of a block
	lens   []int
	atSr   []float64
	act    []bool
}

func (p *gainProc) Initialize(sr float64, n int32) error { p.sr, p.size = sr, n; return nil }
func (p *gainProc) ProcessAudio(c *process.Context) {
	g := p.params.Get(1).GetValue()
	p.seen = append(p.seen, g)
	p.atSr = append(p.atSr, c.SampleRate, p.sr)
	p.act = append(p.act, p.active)
	if len(c.Output) > 0 && len(c.Input) > 0 {
		p.lens = append(p.lens, len(c.Output[0]))
		for i, x := range c.Input[0] {
			c.Output[0][i] = x * float32(g)
		}
	}
}
func (p *gainProc) GetParameters() *param.Registry { return p.params }
func (p *gainProc) GetBuses() *bus.Configuration   { return p.buses }
func (p *gainProc) SetActive(on bool) error        { p.active = on; return nil }
func (p *gainProc) GetLatencySamples() int32       { return 0 }
func (p *gainProc) GetTailSamples() int32          { return 0 }

type plug struct{ last *gainProc }

func (p *plug) GetInfo() fplugin.Info {
	return fplugin.Info{ID: "com.verif.host", Name: "Host", Version: "1", Vendor: "verif", Category: "Fx"}
}
func (p *plug) CreateProcessor() plugin.Processor {
	g := param.NewRegistry()
	for i, n := range []string{"Gain", "Other"} {
		_ = g.Add(&param.Parameter{ID: uint32(i + 1), Name: n, Min: 0, Max: 1})
	}
	return &gainProc{params: g, buses: bus.NewStereoConfiguration()}
}

// inst is a component under test.
type inst struct {
	h     uintptr
	b, ba plugin.VBlock
	state []byte
	n     int
}

func cid() [16]byte { i := (&plug{}).GetInfo(); return i.UID() }

func okstr(ok bool) string {
	if ok {
		return "ok"
	}
	return "refused"
}

// model is what one component should look like from outside.
type model struct {
	v          [3]float64
	on, alive  bool
	sr         float64
	act        bool
	processed  int
	everSample bool
}

func p66(r *core.Run) {
	plugin.Register(&plug{})
	id := cid()
	// a state of parameter 1 alone: loading several is not one instant
	one := param.NewRegistry()
	_ = one.Add(&param.Parameter{ID: 1, Max: 1})
	one.Get(1).SetValue(0.5)
	var buf bytes.Buffer
	if err := state.NewManager(one).Save(&buf); err != nil {
		r.Fail("check:setup", err.Error(), nil)
	}
	saved := buf.Bytes()
	var live []uintptr
	fresh := func() any {
		for _, h := range live {
			plugin.VRelease(h)
		}
		live = live[:0]
		i := &inst{h: plugin.VCreate(id), b: plugin.VNewBlock(false, 0, 0, 0), ba: plugin.VNewBlock(true, 2, 3, 0.75)}
		live = append(live, i.h)
		if !plugin.VSetup(i.h, 44100, 64) || !plugin.VSetActive(i.h, true) || !plugin.VSetProcessing(i.h, true) || !plugin.VSet(i.h, 1, 0.5) {
			r.Fail("check:setup", "a fresh component refuses setup", nil)
		}
		i.state = saved
		plugin.VSet(i.h, 1, 0.25)
		return i
	}
	in := func(o any) *inst { return o.(*inst) }
	m := func(o any) *model { return o.(*model) }
	newModel := func() any { return &model{v: [3]float64{0, 0.25, 0}, on: true, alive: true, sr: 44100, act: true} }
	process := lin.Op{Name: "process", Do: func(o any) string {
		i := in(o)
		for k := range i.b.Samples() {
			i.b.Clear(k)
		}
		ok := plugin.VProcess(i.h, i.b)
		return okstr(ok) + " " + gainOf(i.b.Samples())
	}, Spec: func(o any) string {
		x := m(o)
		if !x.alive {
			return "refused silent"
		}
		if !x.on || x.v[1] == 0 {
			return "ok silent"
		}
		return fmt.Sprintf("ok gain %v", x.v[1])
	}}
	automated := lin.Op{Name: "process automated", Do: func(o any) string {
		i := in(o)
		return okstr(plugin.VProcess(i.h, i.ba))
	}, Spec: func(o any) string {
		x := m(o)
		if !x.alive {
			return "refused"
		}
		if x.on {
			x.v[2] = 0.75
		}
		return "ok"
	}}
	set := func(id uint32, v float64) lin.Op {
		return lin.Op{Name: fmt.Sprintf("set %d=%v", id, v), Do: func(o any) string { return okstr(plugin.VSet(in(o).h, id, v)) },
			Spec: func(o any) string {
				if m(o).alive {
					m(o).v[id] = v
				}
				return okstr(m(o).alive)
			}}
	}
	get := func(id uint32) lin.Op {
		return lin.Op{Name: fmt.Sprintf("get %d", id), Do: func(o any) string { return fmt.Sprint(plugin.VGet(in(o).h, id)) },
			Spec: func(o any) string {
				if !m(o).alive {
					return "0"
				}
				return fmt.Sprint(m(o).v[id])
			}}
	}
	sw := func(name string, do func(h uintptr) bool, spec func(x *model)) lin.Op {
		return lin.Op{Name: name, Do: func(o any) string { return okstr(do(in(o).h)) }, Spec: func(o any) string {
			if m(o).alive {
				spec(m(o))
			}
			return okstr(m(o).alive)
		}}
	}
	off := sw("processing off", func(h uintptr) bool { return plugin.VSetProcessing(h, false) }, func(x *model) { x.on = false })
	on := sw("processing on", func(h uintptr) bool { return plugin.VSetProcessing(h, true) }, func(x *model) { x.on = true })
	inactive := sw("deactivate", func(h uintptr) bool { return plugin.VSetActive(h, false) }, func(x *model) { x.act = false })
	setup := sw("setup 96 kHz", func(h uintptr) bool { return plugin.VSetup(h, 96000, 32) }, func(x *model) { x.sr = 96000 })
	load := lin.Op{Name: "load", Do: func(o any) string { return okstr(plugin.VSetState(in(o).h, in(o).state)) }, Spec: func(o any) string {
		if m(o).alive {
			m(o).v[1] = 0.5
		}
		return okstr(m(o).alive)
	}}
	save := lin.Op{Name: "save", Do: func(o any) string {
		d, ok := plugin.VGetState(in(o).h)
		return okstr(ok) + " " + stateGain(d)
	}, Spec: func(o any) string {
		if !m(o).alive {
			return "refused empty"
		}
		return fmt.Sprintf("ok %v", m(o).v[1])
	}}
	other := lin.Op{Name: "use another component", Do: func(any) string {
		h := plugin.VCreate(id)
		a := plugin.VSet(h, 1, 0.125)
		v := plugin.VGet(h, 1)
		n := plugin.VCount(h)
		plugin.VRelease(h)
		return fmt.Sprint(h != 0, a, v, n, plugin.VSet(h, 1, 0.5), plugin.VGet(h, 1))
	}, Spec: func(any) string { return fmt.Sprint(true, true, 0.125, 2, false, 0) }}
	release := lin.Op{Name: "release", Do: func(o any) string { plugin.VRelease(in(o).h); return "" }, Spec: func(o any) string { m(o).alive = false; return "" }}

	final := func(o any) string {
		i := in(o)
		s := fmt.Sprint(plugin.VGet(i.h, 1), plugin.VGet(i.h, 2), plugin.VCount(i.h))
		plugin.VRelease(i.h)
		i.b.Free()
		i.ba.Free()
		return s
	}
	finalSpec := func(o any) string {
		x := m(o)
		if !x.alive {
			return fmt.Sprint(0, 0, 0)
		}
		return fmt.Sprint(x.v[1], x.v[2], 2)
	}
	fam := func(name string, allowed func(t, op int) bool, ops ...lin.Op) *lin.Family {
		return &lin.Family{Name: name, New: fresh, Model: newModel, Final: final, FinalSpec: finalSpec, Alphabet: ops, Bound: r.Pick(2, 3), Allowed: allowed}
	}
	// the audio thread (0) against the host's user interface thread (1)
	audio := fam("audio_vs_ui", func(t, op int) bool { return (t == 0) == (op < 2) },
		process, automated, set(1, 0.75), set(2, 0.5), get(1), get(2), off, on, inactive, setup, save, load, other, release)
	audio.Programs(r, []int{1, 2})
	audio.Programs(r, []int{2, 1})
	if r.Thorough {
		audio.Programs(r, []int{2, 2})
	}
	// threads that only create, use and release components
	many := fam("components", nil, other, set(1, 0.75), get(1), release, save, load)
	many.Programs(r, []int{2, 1})
	many.Bound = 2
	many.Programs(r, []int{1, 1, 1})
	r.Bound("host_threads", 3)
	r.Bound("host_preemptions", r.Pick(2, 3))
}

// stateGain finds parameter 1 in a saved state.
func stateGain(d []byte) string {
	if len(d) == 0 {
		return "empty"
	}
	g := param.NewRegistry()
	_ = g.Add(&param.Parameter{ID: 1, Max: 1})
	if err := state.NewManager(g).Load(bytes.NewReader(d)); err != nil {
		return err.Error()
	}
	return fmt.Sprint(g.Get(1).GetValue())
}

func gainOf(s [8]float32) string {
	g := s[0]
	for k, x := range s {
		if math.Abs(float64(x-g*float32(k+1))) > 1e-6 {
			return fmt.Sprint("mixed ", s)
		}
	}
	if g == 0 {
		return "silent"
	}
	return fmt.Sprint("gain ", g)
}
