package wrap

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"strings"
	"unsafe"

	"github.com/justyntemme/vst3go/pkg/framework/bus"
	"github.com/justyntemme/vst3go/pkg/framework/param"
	"github.com/justyntemme/vst3go/pkg/plugin"
	"github.com/justyntemme/vst3go/pkg/vst3"
	"github.com/justyntemme/vst3go/verifmc/core"
)

func init() {
	core.Register("P54", checkStreams)
	core.Register("P55", checkController)
	core.Register("P56", checkLifecycle)
	core.Register("P57", checkBuses)
}

// --- P54: state through host streams ----------------------------------------

var errRefused = errors.New("refused")

func newStateful(custom []byte) *stateful {
	return &stateful{proc: newProc(), custom: custom}
}

func checkStreams(r *core.Run) {
	sizes := []int{-1, 0, 1, 5, 300}
	mk := func(size int) (*inst, plugin.Processor) {
		var p plugin.Processor
		if size < 0 {
			p = newProc()
		} else {
			b := make([]byte, size)
			for k := range b {
				b[k] = byte(k*7 + k>>8 + 1)
			}
			p = newStateful(b)
		}
		return create(p), p
	}
	// states as long as one, two and three pieces a stream moves at a time,
	// and a byte more or less
	base := func() int {
		i, _ := mk(1)
		defer i.free()
		b, _, _ := i.save(0, hstream{failAt: -1}, nil)
		return len(b) - 1
	}()
	for _, n := range []int{4096, 8192} {
		for d := -1; d <= 1; d++ {
			sizes = append(sizes, n+d-base)
		}
	}
	sizes = append(sizes, 9000)
	if r.Pick(0, 1) == 1 {
		sizes = append(sizes, 4096, 12288-base, 65536-base, 70000)
	}
	vals := [2]float64{0.3125, 0.8125}
	apply := func(i *inst, v [2]float64) {
		i.set(7, v[0])
		i.set(3, v[1])
	}
	show := func(i *inst) [2]float64 { return [2]float64{i.get(7), i.get(3)} }
	custom := func(i *inst) []byte {
		if i.s == nil {
			return nil
		}
		return i.s.loaded
	}
	junk := []byte("host's own header")
	chunks := []int{0, 1, 2, 3, 7, 16, 1000, 4096}
	names := []string{"component.setState", "controller.setComponentState", "controller.setState"}

	type job struct{ size, chunk int }
	var jobs []job
	for _, s := range sizes {
		for _, c := range chunks {
			if s > 1000 && c > 0 && c < 1000 {
				continue
			}
			jobs = append(jobs, job{s, c})
		}
	}
	r.Each(len(jobs), func(x int) string { return fmt.Sprintf("state size %d chunk %d", jobs[x].size, jobs[x].chunk) }, func(x int, _ *core.Worker) {
		j := jobs[x]
		i, _ := mk(j.size)
		defer i.free()
		apply(i, vals)
		clean, rc, _ := i.save(0, hstream{failAt: -1}, nil)
		if rc != 0 || len(clean) == 0 {
			r.Failf("save", "saving to a plain stream returned %d and wrote %d bytes", rc, len(clean))
			return
		}
		// saving
		for k := 0; k < 2; k++ {
			for _, start := range []int{0, len(junk)} {
				calls := 1
				for f := -1; f < calls; f++ {
					out, rc, n := i.save(k, hstream{chunk: j.chunk, failAt: f, start: int64(start), noSeek: 3 * (f & 1)}, junk[:start])
					if f == -1 {
						calls = n
					}
					whole := bytes.Equal(out, append(append([]byte{}, junk[:start]...), clean...))
					if rc == 0 && !whole {
						r.Failf("save", "getState on a stream that takes %d bytes at a time and fails at call %d of %d reported success, but %d of %d bytes are in the stream", j.chunk, f+1, calls, len(out)-start, len(clean))
						return
					}
					if f < 0 && rc != 0 {
						r.Failf("save", "getState on a stream that takes %d bytes at a time returned %d", j.chunk, rc)
						return
					}
					r.Count(1, 1)
				}
			}
			// a stream that stops taking bytes without an error
			step := 1
			if len(clean) > 400 {
				step = 97
			}
			for z := 1; z < len(clean); z += step {
				_, rc, _ := i.save(k, hstream{chunk: 1 + z%9, failAt: -1, zeroAt: z}, nil)
				if rc == 0 {
					r.Failf("save", "getState on a stream that takes no more than %d bytes of %d reported success", z, len(clean))
					return
				}
				r.Count(1, 1)
			}
		}
		// loading
		other := [2]float64{0.125, 0.0625}
		for k := range names {
			for seek := 0; seek < 4; seek++ {
				for _, start := range []int{0, len(junk)} {
					data := append(append([]byte{}, junk[:start]...), clean...)
					calls := 1
					for f := -1; f < calls; f++ {
						apply(i, other)
						if i.s != nil {
							i.s.loaded = nil
						}
						rc, n := i.load(k, hstream{chunk: j.chunk, failAt: f, noSeek: seek, start: int64(start)}, data)
						if f == -1 {
							calls = n
						}
						got := show(i)
						if f < 0 && rc != 0 {
							r.Failf("load", "%s of %d saved bytes (stream gives %d bytes at a time, seeking supported %02b, state at offset %d) returned %d", names[k], len(clean), j.chunk, 3-seek, start, rc)
							return
						}
						if rc == 0 && (got != vals || j.size > 0 && !bytes.Equal(custom(i), i.s.custom)) {
							r.Failf("load", "%s of %d saved bytes (stream gives %d bytes at a time, seeking supported %02b, failing at call %d of %d, state at offset %d) reported success, but the parameters are %v, saved %v, and %d of %d custom bytes arrived", names[k], len(clean), j.chunk, 3-seek, f+1, calls, start, got, vals, len(custom(i)), max(j.size, 0))
							return
						}
						if rc != 0 && got != other {
							r.Failf("load", "%s failed at stream call %d of %d, but the parameters changed from %v to %v", names[k], f+1, calls, other, got)
							return
						}
						r.Count(1, 1)
					}
				}
				// truncated states
				step := 1
				if len(clean) > 400 {
					step = 89
				}
				for cut := 0; cut < len(clean)-max(j.size, 0); cut += step { // custom data are the plugin's to check
					apply(i, other)
					rc, _ := i.load(k, hstream{chunk: j.chunk, failAt: -1, noSeek: seek}, clean[:cut])
					if rc == 0 || show(i) != other {
						r.Failf("truncated", "%s of the first %d of %d bytes: result %d, parameters %v before and %v after", names[k], cut, len(clean), rc, other, show(i))
						return
					}
					r.Count(1, 1)
				}
			}
			r.Nontrivial(1)
		}
		if i.loadNil() == 0 || i.saveNil() == 0 {
			r.Failf("nil stream", "a null stream was accepted")
		}
		if i.s != nil {
			// the plugin's refusals reach the host
			i.s.saveErr = true
			if _, rc, _ := i.save(0, hstream{failAt: -1}, nil); rc == 0 {
				r.Failf("plugin refuses", "getState reported success although the plugin could not save")
			}
			i.s.saveErr = false
			i.s.boom["save"] = true
			if _, rc, _ := i.save(1, hstream{failAt: -1}, nil); rc == 0 {
				r.Failf("plugin refuses", "getState reported success although the plugin panicked")
			}
			delete(i.s.boom, "save")
			if j.size > 0 {
				for _, b := range []bool{false, true} {
					i.s.loadErr, i.s.boom["load"] = !b, b
					if rc, _ := i.load(0, hstream{failAt: -1}, clean); rc == 0 {
						r.Failf("plugin refuses", "setState reported success although the plugin refused its custom state (panic %v)", b)
					}
				}
				i.s.loadErr = false
				delete(i.s.boom, "load")
				apply(i, other)
				if rc, _ := i.load(0, hstream{failAt: -1}, clean); rc != 0 || show(i) != vals {
					r.Failf("plugin refuses", "after refusals a good state is no longer loaded: result %d, parameters %v", rc, show(i))
				}
			}
			r.Count(1, 6)
		}
		if x == len(jobs)/2 {
			r.Sample(fmt.Sprintf("state of %d bytes, stream gives %d bytes at a time, failing at every call, cut at every byte", len(clean), j.chunk))
		}
		r.Trace(1)
	})
	r.Bound("streams", len(jobs))

	// every number of parameters, with and without custom state
	r.Each(2*5, func(x int) string { return fmt.Sprint("parameters ", x/2) }, func(x int, _ *core.Worker) {
		np := x / 2
		mk := func() *inst {
			p := newStateful([]byte(fmt.Sprintf("custom state beside %d parameters", np)))
			p.params = param.NewRegistry()
			for k := 0; k < np; k++ {
				p.params.Add(linParam(uint32(100-k), fmt.Sprint("P", k), 0, 1, 0)())
			}
			p.ids = nil
			if x%2 == 0 {
				return create(p.proc)
			}
			return create(p)
		}
		a, b := mk(), mk()
		defer a.free()
		defer b.free()
		for k := 0; k < np; k++ {
			a.set(uint32(100-k), float64(k+1)/8)
		}
		d, rc, _ := a.save(0, hstream{failAt: -1}, nil)
		if rc != 0 {
			r.Failf("parameters", "%d parameters, custom state %v: getState returned %d", np, x%2 == 1, rc)
			return
		}
		for _, seek := range []int{0, 3} {
			if rc, _ := b.load(0, hstream{failAt: -1, noSeek: seek}, d); rc != 0 {
				r.Failf("parameters", "%d parameters, custom state %v: setState returned %d", np, x%2 == 1, rc)
				return
			}
			for k := 0; k < np; k++ {
				if g := b.get(uint32(100 - k)); g != float64(k+1)/8 {
					r.Failf("parameters", "%d parameters: parameter %d was saved as %v and is loaded as %v", np, k, float64(k+1)/8, g)
				}
			}
			if b.s != nil {
				if !bytes.Equal(b.s.loaded, a.s.custom) {
					r.Failf("parameters", "%d parameters: the custom state %q is loaded as %q", np, a.s.custom, b.s.loaded)
				}
				b.s.loaded = nil
			}
			r.Count(1, 1)
		}
		r.Nontrivial(1)
	})

	checkStreamWrapper(r)
}

// --- P55: controller --------------------------------------------------------

func paramTexts() []string {
	t := []string{"", "Gain", "Größe µ", "日本語のパラメータ", "😀🎛", "e\u0301", "a\x00b"}
	for n := 124; n <= 131; n++ {
		t = append(t, strings.Repeat("x", n), strings.Repeat("ü", n), strings.Repeat("y", n-1)+"😀", strings.Repeat("z", n-2)+"😀é")
	}
	t = append(t, strings.Repeat("😀", 63), strings.Repeat("😀", 64), strings.Repeat("日", 300))
	return t
}

// upToNul is what a terminated string buffer can hold of s.
func upToNul(s string) string {
	a, _, _ := strings.Cut(s, "\x00")
	return a
}

func checkController(r *core.Run) {
	ts := paramTexts()
	n := len(ts)
	r.Each(n*n, func(x int) string { return fmt.Sprint("texts ", x) }, func(x int, _ *core.Worker) {
		a, b := ts[x%n], ts[x/n]
		c := ts[(x*5+3)%n]
		p := newProc()
		var got string
		build := func(id uint32, title, short, unit string, lo, hi float64, steps int32, flags uint32, uid int32) func() *param.Parameter {
			return func() *param.Parameter {
				q := param.New(id, title).ShortName(short).Range(lo, hi).Unit(unit).Default(lo + (hi-lo)/4).Steps(steps).Flags(flags).Build()
				q.UnitID = uid
				q.SetFormatter(func(v float64) string { return c }, func(s string) (float64, error) {
					got = s
					if s == b {
						return lo + (hi-lo)/2, nil
					}
					return 0, errRefused
				})
				return q
			}
		}
		p.params = newParams(build(4000000000, a, b, c, -20, 20, 0, 1, 0), build(1, b, c, a, 0, 4, 4, 3, 5))
		p.ids = nil
		i := create(p)
		defer i.free()
		if g := i.paramCount(); g != 2 {
			r.Failf("info", "%d parameters of 2", g)
			return
		}
		for k, w := range []struct {
			id                uint32
			title, short, un  string
			steps, unit, flag int32
		}{{4000000000, a, b, c, 0, 0, 1}, {1, b, c, a, 4, 5, 3}} {
			g := i.paramInfo(k)
			f := func(s string) string { return upToNul(fitTChar(s, 128)) }
			if g.rc != 0 || g.err != "" || g.id != w.id || g.title != f(w.title) || g.short != f(w.short) || g.units != f(w.un) || g.steps != w.steps || g.def != 0.25 || g.unit != w.unit || g.flags != w.flag {
				r.Failf("info", "parameter %d (%+v): the host sees %+v", k, w, g)
				return
			}
			s, rc, e := i.toString(w.id, 0.5)
			if rc != 0 || e != "" || s != f(c) {
				r.Failf("value string", "the plugin's text %q reaches the host as %q (result %d) %s", c, s, rc, e)
				return
			}
			v, rc := i.fromString(w.id, a)
			wantOK := upToNul(a) == b
			if got != upToNul(a) || (rc == 0) != wantOK || rc == 0 && v != 0.5 || rc != 0 && v != -12345 {
				r.Failf("value string", "the host's text %q reaches the plugin as %q; result %d, value %v", a, got, rc, v)
				return
			}
		}
		for _, k := range []int{-1, 2, 1 << 30, -1 << 31} {
			if g := i.paramInfo(k); g.rc == 0 || g.err != "" {
				r.Failf("info", "parameter index %d of 2 was answered: %+v", k, g)
				return
			}
		}
		r.Count(1, 8)
		if a != b {
			r.Nontrivial(1)
		}
		if x == n*n/2+3 {
			r.Sample(fmt.Sprintf("title %q, short title %q, text %q", a, b, c))
		}
	})
	r.Bound("texts", n)

	// every flag and unit reaches the host
	r.Each(34, func(x int) string { return fmt.Sprint("flags ", x) }, func(x int, _ *core.Worker) {
		bit := x - 1
		f := uint32(0)
		switch {
		case bit == 32:
			f = 0xffffffff
		case bit >= 0:
			f = 1 << bit
		}
		p := newProc()
		q := param.New(5, "F").Flags(f).Build()
		q.UnitID = int32(f) ^ 3
		p.params = newParams(func() *param.Parameter { return q })
		p.ids = nil
		i := create(p)
		if g := i.paramInfo(0); g.rc != 0 || uint32(g.flags) != f || g.unit != q.UnitID {
			r.Failf("flags", "a parameter with flags %#x in unit %d: the host sees %#x, %d", f, q.UnitID, uint32(g.flags), g.unit)
		}
		i.free()
		r.Count(1, 1)
	})

	// values
	ranges := [][3]float64{{0, 1, 0}, {-60, 12, 0}, {20, 20000, 0}, {0, 7, 7}, {-1, 1, 1}, {0.5, 0.75, 0}}
	r.Each(len(ranges), func(x int) string { return fmt.Sprint("range ", ranges[x]) }, func(x int, _ *core.Worker) {
		lo, hi := ranges[x][0], ranges[x][1]
		p := newProc()
		p.params = newParams(func() *param.Parameter {
			return param.New(11, "P").Range(lo, hi).Default(lo).Steps(int32(ranges[x][2])).Build()
		})
		p.ids = nil
		i := create(p)
		defer i.free()
		q := p.params.Get(11)
		grid := r.Pick(2000, 50000)
		for k := 0; k <= grid; k++ {
			v := float64(k) / float64(grid)
			pl := i.toPlain(11, v)
			if pl < lo || pl > hi || !near(pl, lo+v*(hi-lo), 1e-9*(hi-lo)) || !near(i.toNorm(11, pl), v, 1e-9) {
				r.Failf("plain", "range %v..%v: normalized %v is plain %v, which is normalized %v", lo, hi, v, pl, i.toNorm(11, pl))
				return
			}
			if rc := i.set(11, v); rc != 0 || i.get(11) != v || q.GetValue() != v || !near(q.GetPlainValue(), pl, 1e-9*(hi-lo)) {
				r.Failf("plain", "range %v..%v: set to %v, host reads %v, plugin reads %v (plain %v, the host was told %v)", lo, hi, v, i.get(11), q.GetValue(), q.GetPlainValue(), pl)
				return
			}
			if s, rc, e := i.toString(11, v); rc != 0 || e != "" || s != q.FormatValue(v) {
				r.Failf("plain", "value %v reads %q to the host, %q to the plugin", v, s, q.FormatValue(v))
				return
			} else if b, rc := i.fromString(11, s); rc != 0 || !near(b, v, 0.51/(hi-lo)) {
				r.Failf("plain", "value %v reads %q, which is parsed as %v (result %d)", v, s, b, rc)
				return
			}
			r.Count(1, 1)
		}
		for _, pl := range []float64{lo - 1, hi + 1, lo - 1e9, hi + 1e9} {
			if g := i.toNorm(11, pl); g < 0 || g > 1 {
				r.Failf("plain", "range %v..%v: plain %v is normalized %v", lo, hi, pl, g)
			}
		}
		r.Nontrivial(1)
	})

	// histories of edits from both sides
	type st struct {
		i     *inst
		val   map[uint32]float64
		saved []byte
		sv    map[uint32]float64
	}
	var ops []op[*st]
	for _, id := range []uint32{7, 3, 99} {
		for _, v := range []float64{0.25, 1, -0.5, 2} {
			ops = append(ops, op[*st]{fmt.Sprintf("setParamNormalized(%d, %v)", id, v), func(s *st) string {
				rc := s.i.set(id, v)
				if _, ok := s.val[id]; ok != (rc == 0) {
					return fmt.Sprintf("returned %d", rc)
				} else if ok {
					s.val[id] = clamp01(v)
				}
				return ""
			}})
		}
	}
	ops = append(ops,
		op[*st]{"the plugin sets parameter 7 to 0.5", func(s *st) string { s.i.p.params.Get(7).SetValue(0.5); s.val[7] = 0.5; return "" }},
		op[*st]{"a block automates parameter 3 to 0.9", func(s *st) string {
			hi, _ := s.i.lay(layout{1}, 4, 0)
			ho, _ := s.i.lay(layout{1}, 4, 0)
			rc := s.i.process(&block{n: 4, in: hi, out: ho, queues: []hqueue{{id: 3, pts: []point{{1, 0.1}, {2, 0.9}}, bad: -1}}})
			s.val[3] = 0.9
			if rc != 0 {
				return fmt.Sprintf("process returned %d", rc)
			}
			return ""
		}},
		op[*st]{"getState", func(s *st) string {
			b, rc, _ := s.i.save(1, hstream{failAt: -1}, nil)
			if rc != 0 {
				return fmt.Sprintf("returned %d", rc)
			}
			s.saved, s.sv = b, map[uint32]float64{7: s.val[7], 3: s.val[3]}
			return ""
		}},
		op[*st]{"setComponentState", func(s *st) string {
			if s.saved == nil {
				return ""
			}
			if rc, _ := s.i.load(1, hstream{failAt: -1}, s.saved); rc != 0 {
				return fmt.Sprintf("returned %d", rc)
			}
			s.val = map[uint32]float64{7: s.sv[7], 3: s.sv[3]}
			return ""
		}},
		op[*st]{"setComponentHandler", func(s *st) string {
			if rc := s.i.handler(); rc != 0 {
				return fmt.Sprintf("returned %d", rc)
			}
			return ""
		}})
	for k := range ops {
		f := ops[k].f
		ops[k].f = func(s *st) string {
			if e := f(s); e != "" {
				return e
			}
			for id, v := range s.val {
				if g := s.i.get(id); g != v {
					return fmt.Sprintf("parameter %d reads %v, it was last set to %v", id, g, v)
				}
				if g := s.i.p.params.Get(id).GetValue(); g != v {
					return fmt.Sprintf("the plugin reads %v for parameter %d, it was last set to %v", g, id, v)
				}
			}
			if g := s.i.get(99); g != 0 {
				return fmt.Sprintf("an unknown parameter reads %v", g)
			}
			return ""
		}
	}
	histories(r, "edits", func() *st {
		i := create(newProc())
		i.start(48000, 16)
		return &st{i: i, val: map[uint32]float64{7: 0, 3: 0.5}}
	}, func(s *st) string { s.i.free(); return "" }, ops, r.Pick(5, 6))

	// unknown parameters
	i := create(newProc())
	defer i.free()
	if _, rc, _ := i.toString(99, 0.5); rc == 0 {
		r.Failf("unknown", "an unknown parameter has a value string")
	}
	if v, rc := i.fromString(99, "0.5"); rc == 0 || v != -12345 {
		r.Failf("unknown", "an unknown parameter parses a string to %v", v)
	}
	if i.view() != nil {
		r.Failf("view", "a view although there is none")
	}
}

func near(a, b, tol float64) bool { return a == b || a-b <= tol && b-a <= tol }

// --- P56: lifecycle ---------------------------------------------------------

type lifeState struct {
	i    *inst
	want []string // calls the plugin must have received
	on   bool
	size int // the block size last set up
}

func (s *lifeState) expect(rc int32, key string, call ...string) string {
	ok := !s.i.p.fail[key] && !s.i.p.boom[key]
	if (rc == 0) != ok {
		return fmt.Sprintf("result %d; the plugin's callback fails %v, panics %v", rc, s.i.p.fail[key], s.i.p.boom[key])
	}
	s.want = append(s.want, call...)
	got := s.i.p.log
	if len(got) != len(s.want) {
		return fmt.Sprintf("the plugin received %q, should be %q", got, s.want)
	}
	for k := range got {
		if !strings.HasPrefix(got[k], s.want[k]) {
			return fmt.Sprintf("the plugin received %q, should be %q", got, s.want)
		}
	}
	return ""
}

func checkLifecycle(r *core.Run) {
	ops := []op[*lifeState]{
		{"initialize", func(s *lifeState) string { return s.expect(s.i.initialize(), "init", "init ") }},
		{"terminate", func(s *lifeState) string { return s.expect(s.i.terminate(), "") }},
		{"controller.initialize", func(s *lifeState) string { return s.expect(s.i.ctlInit(), "") }},
		{"controller.terminate", func(s *lifeState) string { return s.expect(s.i.ctlTerm(), "") }},
		{"setActive(true)", func(s *lifeState) string { return s.expect(s.i.active(true), "active", "active true") }},
		{"setActive(false)", func(s *lifeState) string { return s.expect(s.i.active(false), "active", "active false") }},
		{"setProcessing(true)", func(s *lifeState) string { s.on = true; return s.expect(s.i.processing(true), "") }},
		{"setProcessing(false)", func(s *lifeState) string { s.on = false; return s.expect(s.i.processing(false), "") }},
		{"setIoMode", func(s *lifeState) string { return s.expect(s.i.setIO(1), "") }},
		{"setupProcessing(22050, 128)", func(s *lifeState) string {
			s.size = 128
			return s.expect(s.i.setup(22050, 128), "init", "init 22050 128")
		}},
		{"setupProcessing(192000, 4096)", func(s *lifeState) string {
			s.size = 4096
			return s.expect(s.i.setup(192000, 4096), "init", "init 192000 4096")
		}},
		{"setupProcessing(48000, 0)", func(s *lifeState) string {
			// no block size: the last one stays
			if s.size == 0 {
				return s.expect(s.i.setup(48000, 0), "init", "init 48000 ")
			}
			return s.expect(s.i.setup(48000, 0), "init", fmt.Sprintf("init 48000 %d", s.size))
		}},
		{"process", func(s *lifeState) string {
			hi, _ := s.i.lay(layout{2}, 8, 0)
			ho, _ := s.i.lay(layout{2}, 8, 0)
			n := len(s.i.p.blocks)
			rc := s.i.process(&block{n: 8, in: hi, out: ho})
			if s.on && s.i.p.boom["process"] {
				if rc == 0 {
					return "process reported success although the plugin panicked"
				}
			} else if rc != 0 {
				return fmt.Sprintf("process returned %d", rc)
			}
			heard := 0
			if s.on && !s.i.p.boom["process"] {
				heard = 1
			}
			if len(s.i.p.blocks)-n != heard {
				return fmt.Sprintf("the plugin was asked for audio %d times, should be %d", len(s.i.p.blocks)-n, heard)
			}
			return ""
		}},
		{"latency and tail", func(s *lifeState) string {
			s.i.p.lat += 5
			s.i.p.tail += 1 << 20
			wl, wt := uint32(s.i.p.lat), uint32(s.i.p.tail)
			if s.i.p.boom["latency"] {
				wl = 0
			}
			if s.i.p.boom["tail"] {
				wt = 0
			}
			if l, t := s.i.latency(), s.i.tail(); l != wl || t != wt {
				return fmt.Sprintf("latency %d and tail %d, the plugin says %d and %d", l, t, wl, wt)
			}
			return ""
		}},
		{"canProcessSampleSize", func(s *lifeState) string {
			if a, b := s.i.canProcess(0), s.i.canProcess(1); a != 0 || b == 0 {
				return fmt.Sprintf("32 bit %d, 64 bit %d", a, b)
			}
			return ""
		}},
	}
	for _, m := range []string{"init", "active"} {
		ops = append(ops, op[*lifeState]{"(" + m + " starts or stops failing)", func(s *lifeState) string { s.i.p.fail[m] = !s.i.p.fail[m]; return "" }})
	}
	for _, m := range []string{"init", "active", "process", "latency", "tail"} {
		ops = append(ops, op[*lifeState]{"(" + m + " starts or stops panicking)", func(s *lifeState) string { s.i.p.boom[m] = !s.i.p.boom[m]; return "" }})
	}
	histories(r, "lifecycle", func() *lifeState { return &lifeState{i: create(newProc())} }, func(s *lifeState) string { s.i.free(); return "" }, ops, r.Pick(5, 6))

	// panics in parameter callbacks
	p := newProc()
	p.params = newParams(func() *param.Parameter {
		q := param.New(7, "A").Range(0, 1).Build()
		q.SetFormatter(func(float64) string { panic("format") }, func(string) (float64, error) { panic("parse") })
		return q
	})
	p.ids = nil
	i := create(p)
	for k := 0; k < 3; k++ {
		if _, rc, _ := i.toString(7, 0.5); rc == 0 {
			r.Failf("panic", "getParamStringByValue reported success although the plugin panicked")
		}
		if _, rc := i.fromString(7, "x"); rc == 0 {
			r.Failf("panic", "getParamValueByString reported success although the plugin panicked")
		}
		if i.set(7, 0.5) != 0 || i.get(7) != 0.5 {
			r.Failf("panic", "the component is unusable after a panic")
		}
		r.Count(1, 3)
	}
	i.free()
}

// --- P57: buses -------------------------------------------------------------

type declared struct {
	media, dir, ch, typ int
	name                string
	active              bool
}

func checkBuses(r *core.Run) {
	names := []string{"", "Main", "Größe 😀", strings.Repeat("n", 127), strings.Repeat("n", 126) + "😀", strings.Repeat("日", 140)}
	chans := []int{1, 2, 3, 6, 8, 12, 16, 32}
	type cfg struct {
		name string
		mk   func() (*bus.Configuration, []declared)
	}
	var cfgs []cfg
	// every sequence of up to three declared buses after a main output
	kinds := 7
	depth := r.Pick(4, 5)
	total := 1
	for k := 0; k < depth; k++ {
		total *= kinds + 1
	}
	for x := 0; x < total; x++ {
		for variant := 0; variant < 2; variant++ {
			cfgs = append(cfgs, cfg{fmt.Sprintf("configuration %d/%d", x, variant), func() (*bus.Configuration, []declared) {
				b := bus.NewBuilder()
				oc, on := chans[(x+variant*3)%len(chans)], names[(x+variant)%len(names)]
				b.WithAudioOutput(on, int32(oc))
				l := []declared{{0, 1, oc, 0, on, true}}
				y := x
				for k := 0; k < depth; k++ {
					c := chans[(x+k*5+variant)%len(chans)]
					n := names[(x+k*3+variant)%len(names)]
					switch y % (kinds + 1) {
					case 1:
						b.WithAudioInput(n, int32(c))
						l = append(l, declared{0, 0, c, 0, n, true})
					case 2:
						b.WithAudioOutput(n, int32(c))
						l = append(l, declared{0, 1, c, 0, n, true})
					case 3:
						b.WithAuxInput(n, int32(c))
						l = append(l, declared{0, 0, c, 1, n, false})
					case 4:
						b.WithAuxOutput(n, int32(c))
						l = append(l, declared{0, 1, c, 1, n, false})
					case 5:
						b.WithEventInput(n)
						l = append(l, declared{1, 0, -1, 0, n, true})
					case 6:
						b.WithEventOutput(n)
						l = append(l, declared{1, 1, -1, 0, n, true})
					case 7:
						b.WithSidechain(n)
						l = append(l, declared{0, 0, 2, 1, n, false})
					}
					y /= kinds + 1
				}
				c, err := b.Build()
				if err != nil {
					return nil, nil
				}
				return c, l
			}})
		}
	}
	r.Each(len(cfgs), func(x int) string { return cfgs[x].name }, func(x int, _ *core.Worker) {
		c, l := cfgs[x].mk()
		if c == nil {
			r.Failf("build", "%s was refused", cfgs[x].name)
			return
		}
		p := newProc()
		p.buses = c
		i := create(p)
		defer i.free()
		// the plugin may declare any bus inactive
		if x%3 > 0 {
			idx := map[[2]int]int32{}
			for k := range l {
				m := [2]int{l[k].media, l[k].dir}
				on := (k+x/3)%2 == 0 != (x%3 == 1)
				if err := c.SetBusActive(bus.MediaType(m[0]), bus.Direction(m[1]), idx[m], on); err != nil {
					r.Failf("declared", "%s: bus %d cannot be declared active %v: %v", cfgs[x].name, k, on, err)
				}
				l[k].active = on
				idx[m]++
			}
		}
		s := &busState{i, l, true}
		if e := s.look(); e != "" {
			r.Failf("declared", "%s %+v: %s", cfgs[x].name, l, e)
			return
		}
		s.fresh = false
		// activate and deactivate every bus, and one beyond the last
		for m := 0; m < 2; m++ {
			for d := 0; d < 2; d++ {
				for n := -1; n <= s.count(m, d); n++ {
					for _, on := range []bool{false, true, true, false} {
						if e := s.activate(m, d, n, on); e != "" {
							r.Failf("activate", "%s %+v: %s", cfgs[x].name, l, e)
							return
						}
					}
				}
			}
		}
		if e := s.look(); e != "" {
			r.Failf("declared", "%s %+v, after activations: %s", cfgs[x].name, l, e)
			return
		}
		r.Count(1, 1)
		if len(l) > 2 {
			r.Nontrivial(1)
		}
		if x == len(cfgs)/2+5 {
			r.Sample(fmt.Sprintf("%+v", l))
		}
		r.Trace(1)
	})
	r.Bound("configurations", len(cfgs))

	// histories of activations
	var ops []op[*busState]
	for m := 0; m < 2; m++ {
		for d := 0; d < 2; d++ {
			for n := 0; n < 3; n++ {
				if n == 2 && (m == 1 || d == 1) {
					continue
				}
				for _, on := range []bool{false, true} {
					ops = append(ops, op[*busState]{fmt.Sprintf("activateBus(%d, %d, %d, %v)", m, d, n, on), func(s *busState) string { return s.activate(m, d, n, on) }})
				}
			}
		}
	}
	histories(r, "activations", func() *busState {
		b := bus.NewBuilder().WithAudioInput("in", 2).WithAudioOutput("out", 2).WithSidechain("side").WithAuxInput("aux", 1).WithAuxOutput("send", 6).WithEventInput("midi")
		c, err := b.Build()
		if err != nil {
			panic(err)
		}
		p := newProc()
		p.buses = c
		return &busState{create(p), []declared{{0, 0, 2, 0, "in", true}, {0, 1, 2, 0, "out", true}, {0, 0, 2, 1, "side", false}, {0, 0, 1, 1, "aux", false}, {0, 1, 6, 1, "send", false}, {1, 0, -1, 0, "midi", true}}, false}
	}, func(s *busState) string {
		e := s.look()
		s.i.free()
		return e
	}, ops, r.Pick(4, 5))
}

type busState struct {
	i     *inst
	l     []declared
	fresh bool
}

func (s *busState) find(m, d, n int) *declared {
	for k := range s.l {
		if s.l[k].media == m && s.l[k].dir == d {
			if n == 0 {
				return &s.l[k]
			}
			n--
		}
	}
	return nil
}

func (s *busState) count(m, d int) (n int) {
	for k := range s.l {
		if s.l[k].media == m && s.l[k].dir == d {
			n++
		}
	}
	return
}

func (s *busState) activate(m, d, n int, on bool) string {
	w := s.find(m, d, n)
	if n < 0 {
		w = nil
	}
	rc := s.i.activate(m, d, n, on)
	if (rc == 0) != (w != nil) {
		return fmt.Sprintf("activateBus(%d, %d, %d, %v) returned %d, the bus exists: %v", m, d, n, on, rc, w != nil)
	}
	if w != nil {
		w.active = on
	}
	// every bus is as it was last set, for the plugin
	idx := map[[2]int]int32{}
	for _, x := range s.l {
		k := [2]int{x.media, x.dir}
		g := s.i.p.buses.GetBusInfo(bus.MediaType(x.media), bus.Direction(x.dir), idx[k])
		if g == nil || g.IsActive != x.active {
			return fmt.Sprintf("after activateBus(%d, %d, %d, %v): bus %q is %+v for the plugin, the host set active %v", m, d, n, on, x.name, g, x.active)
		}
		idx[k]++
	}
	return ""
}

// look compares everything the host can ask about buses with the declaration.
func (s *busState) look() string {
	i := s.i
	for m := 0; m < 2; m++ {
		for d := 0; d < 2; d++ {
			if g := i.busCount(m, d); g != s.count(m, d) {
				return fmt.Sprintf("media %d direction %d: %d buses, declared %d", m, d, g, s.count(m, d))
			}
			for n := -1; n <= s.count(m, d)+1; n++ {
				b := i.busInfo(m, d, n)
				w := s.find(m, d, n)
				if n < 0 {
					w = nil
				}
				if b.err != "" {
					return b.err
				}
				if (b.rc == 0) != (w != nil) {
					return fmt.Sprintf("getBusInfo(%d, %d, %d) returned %d, the bus exists: %v", m, d, n, b.rc, w != nil)
				}
				if w != nil && (int(b.media) != m || int(b.dir) != d || w.ch >= 0 && int(b.ch) != w.ch || int(b.typ) != w.typ || b.name != fitTChar(w.name, 128) || s.fresh && (b.flags&1 == 1) != w.active) {
					return fmt.Sprintf("getBusInfo(%d, %d, %d) says %+v, declared %+v", m, d, n, b, *w)
				}
				if m == 1 {
					continue
				}
				a, rc := i.arrangement(d, n)
				if (rc == 0) != (w != nil) {
					return fmt.Sprintf("getBusArrangement(%d, %d) returned %d, the bus exists: %v", d, n, rc, w != nil)
				}
				if w != nil {
					c := 0
					for x := a; x != 0; x &= x - 1 {
						c++
					}
					if c != w.ch || w.ch == 2 && a != 3 || w.ch == 1 && a != 1<<19 {
						return fmt.Sprintf("getBusArrangement(%d, %d) is %#x (%d speakers) for %d channels", d, n, a, c, w.ch)
					}
				}
			}
		}
	}
	return ""
}

// checkStreamWrapper: values written through a StreamWrapper read back the
// same, whatever pieces the host's stream moves at a time.
func checkStreamWrapper(r *core.Run) {
	type item struct {
		name  string
		bytes []byte
		write func(w *vst3.StreamWrapper) error
		read  func(w *vst3.StreamWrapper) (string, error)
		want  string
	}
	le := func(v uint64, n int) []byte {
		b := make([]byte, n)
		for k := range b {
			b[k] = byte(v >> (8 * k))
		}
		return b
	}
	var items []item
	for _, v := range []int32{0, -1, 1 << 30, -1 << 31} {
		items = append(items, item{fmt.Sprintf("int32 %d", v), le(uint64(uint32(v)), 4), func(w *vst3.StreamWrapper) error { return w.WriteInt32(v) },
			func(w *vst3.StreamWrapper) (string, error) { g, err := w.ReadInt32(); return fmt.Sprint(g), err }, fmt.Sprint(v)})
	}
	for _, v := range []float64{0, -1.5, 1e300, math.Inf(-1)} {
		items = append(items, item{fmt.Sprintf("float64 %v", v), le(math.Float64bits(v), 8), func(w *vst3.StreamWrapper) error { return w.WriteFloat64(v) },
			func(w *vst3.StreamWrapper) (string, error) { g, err := w.ReadFloat64(); return fmt.Sprint(g), err }, fmt.Sprint(v)})
	}
	for _, v := range []string{"", "a", "Größe", strings.Repeat("long ", 1000)} {
		items = append(items, item{fmt.Sprintf("string of %d bytes", len(v)), append(le(uint64(len(v)), 4), v...), func(w *vst3.StreamWrapper) error { return w.WriteString(v) },
			func(w *vst3.StreamWrapper) (string, error) { return w.ReadString() }, v})
	}
	n := len(items)
	depth := 3
	total := n * n * n
	chunks := []int{0, 1, 3, 5, 4096}
	r.Each(total*len(chunks), func(x int) string { return fmt.Sprint("values ", x) }, func(x int, _ *core.Worker) {
		if r.Failed("values") {
			return
		}
		chunk := chunks[x%len(chunks)]
		y := x / len(chunks)
		var l []item
		var want []byte
		var name []string
		for k := 0; k < depth; k++ {
			l = append(l, items[y%n])
			want = append(want, items[y%n].bytes...)
			name = append(name, items[y%n].name)
			y /= n
		}
		if chunk == 1 && len(want) > 5000 {
			chunk = 7
		}
		label := fmt.Sprintf("%s, %d bytes at a time", strings.Join(name, ", "), chunk)
		out := hstream{chunk: chunk, failAt: -1}.with(nil, func(p unsafe.Pointer) {
			w := vst3.NewStreamWrapper(p)
			for _, i := range l {
				if err := i.write(w); err != nil {
					r.Failf("values", "%s: writing %s: %v", label, i.name, err)
				}
			}
		})
		if !bytes.Equal(out, want) {
			r.Failf("values", "%s: %d bytes are in the stream, should be %d", label, len(out), len(want))
			return
		}
		hstream{chunk: chunk, failAt: -1}.with(out, func(p unsafe.Pointer) {
			w := vst3.NewStreamWrapper(p)
			for _, i := range l {
				if g, err := i.read(w); err != nil || g != i.want {
					r.Failf("values", "%s: %s is read back as %.40q, error %v", label, i.name, g, err)
				}
			}
			// nothing is left
			for _, i := range items {
				if _, err := i.read(w); err == nil {
					r.Failf("values", "%s: %s is read beyond the end of the stream", label, i.name)
				}
			}
		})
		// cut short, no value is made up
		last := l[depth-1]
		for cut := 1; cut <= len(last.bytes) && cut < 12; cut++ {
			hstream{chunk: chunk, failAt: -1}.with(last.bytes[:len(last.bytes)-cut], func(p unsafe.Pointer) {
				if g, err := last.read(vst3.NewStreamWrapper(p)); err == nil {
					r.Failf("values", "%s without its last %d bytes is read as %.40q", last.name, cut, g)
				}
			})
		}
		r.Count(1, int64(depth))
	})
	for _, neg := range []uint64{1<<32 - 1, 1 << 31, 1<<31 + 5} {
		hstream{failAt: -1}.with(append(le(neg, 4), "abc"...), func(p unsafe.Pointer) {
			if g, err := vst3.NewStreamWrapper(p).ReadString(); err == nil {
				r.Failf("values", "a string of length %d is read as %q", int32(neg), g)
			}
		})
	}
	r.Bound("value_sequences", total*len(chunks))
}
