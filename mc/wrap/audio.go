package wrap

import (
	"fmt"
	"io"
	"math"
	"os"
	"runtime"
	"sort"
	"strings"
	"unsafe"

	"github.com/justyntemme/vst3go/pkg/framework/process"
	"github.com/justyntemme/vst3go/pkg/midi"
	"github.com/justyntemme/vst3go/verifmc/core"
)

func init() {
	core.Register("P52", checkBuffers)
	core.Register("P53", checkAutomation)
}

// --- P52: buffers -----------------------------------------------------------

// layout is one direction's buses: channel counts; a negative number is that
// many channels of which every second is a null pointer; 100+n is a bus of n
// channels without a channel array.
type layout []int

func (l layout) String() string {
	s := []string{}
	for _, n := range l {
		switch {
		case n >= 100:
			s = append(s, fmt.Sprintf("%d channels without an array", n-100))
		case n < 0:
			s = append(s, fmt.Sprintf("%d channels, every second null", -n))
		default:
			s = append(s, fmt.Sprint(n))
		}
	}
	return "[" + strings.Join(s, ", ") + "]"
}

func (i *inst) lay(l layout, n int, base float32) (hb []hostBus, live []*channel) {
	if l == nil {
		return nil, nil
	}
	hb = []hostBus{}
	for _, c := range l {
		b := hostBus{}
		noPtrs, skip := c >= 100, c < 0
		if noPtrs {
			c -= 100
		}
		if skip {
			c = -c
		}
		for k := 0; k < c; k++ {
			if skip && k%2 == 1 {
				b.chans = append(b.chans, nil)
				continue
			}
			ch := i.channel(n, func(s int) float32 { return base + float32(len(live))*100 + float32(s) })
			b.chans = append(b.chans, ch)
			if !noPtrs {
				live = append(live, ch)
			}
		}
		b.noPtrs = noPtrs
		hb = append(hb, b)
	}
	return
}

func at(c *channel) uintptr { return uintptr(unsafe.Pointer(&c.mem[4])) }

// play processes a block with the given layouts and compares what the plugin
// saw and what the host's memory holds with the model.
func (s *bufState) play(in, out layout, n int, inPlace bool) string {
	i := s.i
	hi, inC := i.lay(in, n, 1000)
	ho, outC := i.lay(out, n, -5000)
	inPlace = inPlace && fmt.Sprint(in) == fmt.Sprint(out)
	if inPlace {
		for k := range ho {
			for c := range ho[k].chans {
				if k < len(hi) && c < len(hi[k].chans) && ho[k].chans[c] != nil && hi[k].chans[c] != nil {
					for j := range outC {
						if outC[j] == ho[k].chans[c] {
							outC[j] = hi[k].chans[c]
						}
					}
					ho[k].chans[c] = hi[k].chans[c]
				}
			}
		}
	}
	want := make([][]float32, len(inC))
	for k, c := range inC {
		want[k] = append([]float32{}, c.data()...)
	}
	before := make([][]float32, len(outC))
	for k, c := range outC {
		before[k] = append([]float32{}, c.data()...)
	}
	i.p.blocks = nil
	if rc := i.process(&block{n: n, in: hi, out: ho, noChanges: n%2 == 0, noEvents: n%3 == 0}); rc != 0 {
		return fmt.Sprintf("process returned %d", rc)
	}
	if !s.on {
		if len(i.p.blocks) != 0 {
			return "the plugin was asked for audio while it is not processing"
		}
		for k, c := range outC {
			for j, v := range c.data() {
				if v != before[k][j] {
					return "audio was written while it is not processing"
				}
			}
		}
	} else {
		if len(i.p.blocks) != 1 {
			return fmt.Sprintf("the plugin was asked for audio %d times", len(i.p.blocks))
		}
		b := i.p.blocks[0]
		if len(b.in) != len(inC) || len(b.out) != len(outC) {
			return fmt.Sprintf("the plugin saw %d inputs and %d outputs, the host passed %d and %d", len(b.in), len(b.out), len(inC), len(outC))
		}
		if b.sr != s.sr {
			return fmt.Sprintf("the plugin saw sample rate %v, the host set %v", b.sr, s.sr)
		}
		for k, c := range inC {
			if len(b.in[k]) != n || n > 0 && b.inAt[k] != at(c) {
				return fmt.Sprintf("input %d: %d samples at another address, the host passed %d", k, len(b.in[k]), n)
			}
			for j := range want[k] {
				if b.in[k][j] != want[k][j] && !inPlace {
					return fmt.Sprintf("input %d sample %d is %v, the host passed %v", k, j, b.in[k][j], want[k][j])
				}
			}
		}
		for k, c := range outC {
			if len(b.out[k]) != n || n > 0 && b.outAt[k] != at(c) {
				return fmt.Sprintf("output %d: %d samples at another address, the host passed %d", k, len(b.out[k]), n)
			}
			for j, v := range c.data() {
				w := before[k][j]
				if k < len(inC) {
					w = want[k][j]*2 + float32(k)
				}
				if v != w {
					return fmt.Sprintf("the host finds %v in output %d sample %d, the plugin wrote %v", v, k, j, w)
				}
			}
		}
	}
	for k, c := range append(append([]*channel{}, inC...), outC...) {
		if !c.intact() {
			return fmt.Sprintf("memory around channel %d was overwritten", k)
		}
	}
	for _, c := range inC {
		same := false
		for _, o := range outC {
			same = same || o == c
		}
		if same {
			continue
		}
		for k, w := range inC {
			if w == c {
				for j, v := range c.data() {
					if v != want[k][j] {
						return fmt.Sprintf("input %d was overwritten", k)
					}
				}
			}
		}
	}
	return ""
}

type bufState struct {
	i  *inst
	sr float64
	on bool
}

// doubler writes channel k as 2*input k + k.
func doubler(ctx *process.Context) {
	for k := range ctx.Output {
		if k >= len(ctx.Input) {
			break
		}
		for s := range ctx.Output[k] {
			ctx.Output[k][s] = ctx.Input[k][s]*2 + float32(k)
		}
	}
}

func newBuf(n int) *bufState {
	p := newProc()
	p.audio = func(ctx *process.Context) {
		// inputs are recorded before the output may overwrite them
		doubler(ctx)
	}
	i := create(p)
	i.start(44100, n)
	return &bufState{i, 44100, true}
}

func checkBuffers(r *core.Run) {
	lays := []layout{nil, {}, {0}, {1}, {2}, {-3}, {102}, {6}, {16}, {17}, {32}, {2, 2}, {2, 1}, {1, -4, 2}, {102, 2}, {0, 2}, {2, 2, 2, 2}, {24, 24}}
	ns := []int{0, 1, 2, 7, 64}
	total := len(lays) * len(lays) * len(ns) * 2
	r.Each(total, func(x int) string { return fmt.Sprint("layouts ", x) }, func(x int, _ *core.Worker) {
		in, out := lays[x%len(lays)], lays[x/len(lays)%len(lays)]
		y := x / len(lays) / len(lays)
		n, place := ns[y%len(ns)], y/len(ns) == 1
		s := newBuf(64)
		defer s.i.free()
		for k := 0; k < 2; k++ {
			if e := s.play(in, out, n, place); e != "" {
				r.Failf("layouts", "inputs %v, outputs %v, %d samples, in place %v, block %d: %s", in, out, n, place, k+1, e)
				return
			}
		}
		r.Count(2, 2)
		if len(in) > 0 && len(out) > 0 {
			r.Nontrivial(1)
		}
		if x == total/3 {
			r.Sample(fmt.Sprintf("inputs %v, outputs %v, %d samples, in place %v", in, out, n, place))
		}
	})
	r.Bound("layouts", total)

	var ops []op[*bufState]
	for _, b := range []struct {
		in, out layout
		n       int
		place   bool
	}{{layout{2}, layout{2}, 8, false}, {layout{2}, layout{2}, 3, true}, {layout{1}, layout{2}, 8, false}, {layout{2, 2}, layout{2}, 5, false}, {nil, layout{2, 2}, 8, false}, {layout{-3}, layout{102, 1}, 1, false}, {layout{2}, layout{2}, 0, false}, {layout{20}, layout{20}, 4, true}, {layout{}, nil, 4, false}} {
		ops = append(ops, op[*bufState]{fmt.Sprintf("block(in %v, out %v, %d samples, in place %v)", b.in, b.out, b.n, b.place), func(s *bufState) string { return s.play(b.in, b.out, b.n, b.place) }})
	}
	for _, on := range []bool{true, false} {
		ops = append(ops, op[*bufState]{fmt.Sprintf("setProcessing(%v)", on), func(s *bufState) string {
			s.on = on
			if rc := s.i.processing(on); rc != 0 {
				return fmt.Sprintf("returned %d", rc)
			}
			return ""
		}})
	}
	for _, x := range []struct {
		sr float64
		n  int
	}{{96000, 8}, {44100, 16}, {22050, 0}, {32000, 4}} {
		ops = append(ops, op[*bufState]{fmt.Sprintf("setupProcessing(%v, %d)", x.sr, x.n), func(s *bufState) string {
			s.sr = x.sr
			if rc := s.i.setup(x.sr, x.n); rc != 0 {
				return fmt.Sprintf("returned %d", rc)
			}
			return ""
		}})
	}
	ops = append(ops, op[*bufState]{"a block in which the plugin panics", func(s *bufState) string {
		s.i.p.boom["process"] = true
		hi, _ := s.i.lay(layout{2}, 8, 0)
		ho, _ := s.i.lay(layout{2}, 8, 0)
		rc := s.i.process(&block{n: 8, in: hi, out: ho, queues: []hqueue{{id: 7, pts: []point{{3, 0.5}}, bad: -1}}})
		delete(s.i.p.boom, "process")
		if s.on && rc == 0 {
			return "process reported success"
		}
		return ""
	}})
	histories(r, "blocks", func() *bufState { return newBuf(8) }, func(s *bufState) string { s.i.free(); return "" }, ops, r.Pick(5, 6))

	// transport: every set of validity flags, after every other kind of block
	flags := []uint32{1 << 1, 1 << 2, 1 << 3, 1 << 10, 1 << 13, 1 << 9, 1 << 11, 1 << 12, 1 << 15, 1 << 17}
	prev := []int{-1, 0, 1<<len(flags) - 1}
	all := (1 << len(flags)) + 1
	r.Each(all*len(prev), func(x int) string { return fmt.Sprint("transport ", x) }, func(x int, _ *core.Worker) {
		s := newBuf(8)
		defer s.i.free()
		masks := []int{prev[x%len(prev)], x/len(prev) - 1}
		for k, m := range masks {
			var tr *transport
			state := uint32(0)
			if m >= 0 {
				for j, f := range flags {
					if m>>j&1 == 1 {
						state |= f
					}
				}
				o := float64(k*1000 + 1)
				tr = &transport{state: state, tempo: 120 + o, num: int32(3 + k), den: int32(4 * (k + 1)), music: 7.5 + o, bar: 6 + o, cs: 1 + o, ce: 9 + o, proj: int64(1000 + k), cont: -int64(k + 5), clock: int32(-3 - k)}
			}
			hi, _ := s.i.lay(layout{2}, 8, 0)
			ho, _ := s.i.lay(layout{2}, 8, 0)
			s.i.p.blocks = nil
			s.i.process(&block{n: 8, in: hi, out: ho, tr: tr, noChanges: true})
			if len(s.i.p.blocks) != 1 {
				r.Failf("transport", "the plugin was asked for audio %d times", len(s.i.p.blocks))
				return
			}
			g := s.i.p.blocks[0].tr
			w := process.TransportInfo{}
			has := func(j int) bool { return state&flags[j] != 0 }
			w.IsPlaying, w.IsCycling, w.IsRecording = has(0), has(1), has(2)
			w.HasTempo, w.HasTimeSignature, w.HasMusicalTime, w.HasBarPosition, w.HasCycle = has(3), has(4), has(5), has(6), has(7)
			bad := g.IsPlaying != w.IsPlaying || g.IsCycling != w.IsCycling || g.IsRecording != w.IsRecording || g.HasTempo != w.HasTempo || g.HasTimeSignature != w.HasTimeSignature || g.HasMusicalTime != w.HasMusicalTime || g.HasBarPosition != w.HasBarPosition || g.HasCycle != w.HasCycle
			if tr != nil {
				bad = bad || w.HasTempo && g.Tempo != tr.tempo || !w.HasTempo && g.Tempo != 0
				bad = bad || w.HasTimeSignature && (g.TimeSigNumerator != tr.num || g.TimeSigDenominator != tr.den)
				bad = bad || w.HasMusicalTime && g.ProjectTimeMusic != tr.music || w.HasBarPosition && g.BarPositionMusic != tr.bar
				bad = bad || w.HasCycle && (g.CycleStartMusic != tr.cs || g.CycleEndMusic != tr.ce)
				bad = bad || g.ProjectTimeSamples != tr.proj || has(9) && g.ContinuousTimeSamples != tr.cont || has(8) && g.SamplesToNextClock != tr.clock
			}
			if bad {
				r.Failf("transport", "block with state flags %#x after one with flags set %v: the plugin saw %+v of %+v", state, masks[0], g, tr)
				return
			}
			r.Count(1, 1)
		}
		r.Nontrivial(1)
	})
	r.Bound("transport_states", all*len(prev))
}

// --- P53: automation and events ---------------------------------------------

type autoCase struct {
	n      int
	queues []hqueue
	notes  []note
}

func (c autoCase) String() string {
	s := []string{}
	for _, q := range c.queues {
		t := fmt.Sprintf("param %d:", q.id)
		if q.absent {
			t = "null queue"
		}
		for k, p := range q.pts {
			if k == 6 {
				t += fmt.Sprintf(" ... %d points", len(q.pts))
				break
			}
			t += fmt.Sprintf(" %v@%d", p.val, p.off)
			if k == q.bad {
				t += "(unreadable)"
			}
		}
		s = append(s, t)
	}
	for _, n := range c.notes {
		s = append(s, fmt.Sprintf("event %d pitch %d vel %v @%d unreadable %v", n.typ, n.pitch, n.vel, n.off, n.unreadable))
	}
	return fmt.Sprintf("%d samples, {%s}", c.n, strings.Join(s, "; "))
}

type autoState struct {
	i   *inst
	val map[uint32]float64
}

func clamp01(v float64) float64 {
	if v != v {
		return 0
	}
	return math.Max(0, math.Min(1, v))
}

func (s *autoState) play(c autoCase) string {
	i := s.i
	hi, inC := i.lay(layout{1}, c.n, 1000)
	ho, outC := i.lay(layout{1}, c.n, -5000)
	i.p.blocks = nil
	if rc := i.process(&block{n: c.n, in: hi, out: ho, queues: c.queues, notes: c.notes}); rc != 0 {
		return fmt.Sprintf("process returned %d", rc)
	}
	type chg struct {
		id  uint32
		val float64
		off int
	}
	var l []chg
	for _, q := range c.queues {
		if q.absent {
			continue
		}
		for k, p := range q.pts {
			if k != q.bad {
				l = append(l, chg{q.id, clamp01(p.val), p.off})
			}
		}
	}
	sort.SliceStable(l, func(a, b int) bool { return l[a].off < l[b].off })
	var notes []note
	for _, n := range c.notes {
		if !n.unreadable && n.typ < 2 && n.off >= 0 && n.off < c.n {
			notes = append(notes, n)
		}
	}
	sort.SliceStable(notes, func(a, b int) bool { return notes[a].off < notes[b].off })
	// replay: every chunk in turn
	pos, next, ev := 0, 0, 0
	for k, b := range i.p.blocks {
		if len(b.in) != 1 || len(b.out) != 1 || len(b.in[0]) != len(b.out[0]) {
			return fmt.Sprintf("chunk %d has %d inputs and %d outputs", k, len(b.in), len(b.out))
		}
		n := len(b.in[0])
		if n > 0 && (b.inAt[0] != at(inC[0])+uintptr(4*pos) || b.outAt[0] != at(outC[0])+uintptr(4*pos)) {
			return fmt.Sprintf("chunk %d does not start at sample %d", k, pos)
		}
		if n == 0 && c.n > 0 {
			continue // nothing to hear
		}
		for j := 0; j < n || j == 0; j++ {
			for next < len(l) && l[next].off <= pos+j {
				if _, ok := s.val[l[next].id]; ok {
					s.val[l[next].id] = l[next].val
				}
				next++
			}
			for q, id := range i.p.ids {
				if b.vals[q] != s.val[id] {
					return fmt.Sprintf("sample %d: parameter %d is %v, the host's automation says %v", pos+j, id, b.vals[q], s.val[id])
				}
			}
			if n == 0 {
				break
			}
		}
		for _, e := range b.events {
			if ev >= len(notes) {
				return fmt.Sprintf("chunk %d (samples %d-%d): an event that the host did not send: %T at %d", k, pos, pos+n, e, e.SampleOffset())
			}
			w := notes[ev]
			ev++
			if int(e.SampleOffset())+pos != w.off {
				return fmt.Sprintf("an event for sample %d arrives at sample %d", w.off, int(e.SampleOffset())+pos)
			}
			var ch, pitch, vel int
			typ := -1
			switch x := e.(type) {
			case midi.NoteOnEvent:
				typ, ch, pitch, vel = 0, int(x.EventChannel), int(x.NoteNumber), int(x.Velocity)
			case midi.NoteOffEvent:
				typ, ch, pitch, vel = 1, int(x.EventChannel), int(x.NoteNumber), int(x.Velocity)
			}
			wv := int(math.Round(float64(w.vel) * 127))
			okVel := vel == wv || w.typ == 0 && wv == 0 && vel == 1
			if typ != w.typ || ch != w.ch || pitch != w.pitch || !okVel || w.typ == 0 && w.vel > 0 && vel == 0 {
				return fmt.Sprintf("event %+v arrived as %+v", w, e)
			}
		}
		if ev < len(notes) && notes[ev].off < pos+n {
			return fmt.Sprintf("the event at sample %d did not arrive", notes[ev].off)
		}
		pos += n
	}
	if pos != c.n {
		return fmt.Sprintf("the plugin processed %d of %d samples", pos, c.n)
	}
	if ev < len(notes) {
		return fmt.Sprintf("%d events did not arrive", len(notes)-ev)
	}
	for ; next < len(l); next++ {
		if _, ok := s.val[l[next].id]; ok {
			s.val[l[next].id] = l[next].val
		}
	}
	for id, v := range s.val {
		if g := i.get(id); g != v {
			return fmt.Sprintf("after the block parameter %d is %v, the host's last value is %v", id, g, v)
		}
	}
	for _, ch := range append(inC, outC...) {
		if !ch.intact() {
			return "memory around a channel was overwritten"
		}
	}
	for k, v := range outC[0].data() {
		if w := inC[0].data()[k] * 2; v != w {
			return fmt.Sprintf("output sample %d is %v, should be %v", k, v, w)
		}
	}
	return ""
}

func newAuto(n int) *autoState {
	p := newProc()
	p.audio = doubler
	i := create(p)
	i.start(48000, n)
	return &autoState{i, map[uint32]float64{7: 0, 3: 0.5}}
}

func checkAutomation(r *core.Run) {
	// nothing may be printed while processing: standard output is watched
	old := os.Stdout
	rd, wr, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	os.Stdout = wr
	printed := make(chan string)
	go func() {
		b := make([]byte, 200)
		n, _ := io.ReadFull(rd, b)
		io.Copy(io.Discard, rd)
		printed <- string(b[:n])
	}()
	defer func() {
		os.Stdout = old
		wr.Close()
		if s := <-printed; s != "" {
			r.Failf("printed", "processing and setting parameters prints to the host's standard output: %.80q", s)
		}
	}()

	const n = 4
	// all blocks of up to k automation points
	offs := []int{-1, 0, 1, 3, 4, 9}
	ids := []uint32{7, 3, 99}
	type pt struct {
		id  uint32
		off int
	}
	var pts []pt
	for _, id := range ids {
		for _, o := range offs {
			pts = append(pts, pt{id, o})
		}
	}
	noteSets := [][]note{nil, {{0, 0, 2, 60, 1, false}}, {{0, 2, 0, 61, 0.5, false}, {1, 2, 0, 60, 0, false}}, {{1, 3, 15, 127, 0.25, false}, {0, 0, 1, 0, 0.004, false}, {0, 1, 0, 64, 0.75, true}}, {{0, 3, 0, 10, 0.999, false}, {7, 1, 0, 0, 0, false}, {0, 4, 0, 1, 1, false}, {0, -1, 0, 2, 1, false}, {1, 1, 3, 3, 1, false}}}
	k := r.Pick(4, 5)
	total := 1
	for j := 0; j < k; j++ {
		total *= len(pts) + 1
	}
	mk := func(x int) autoCase {
		c := autoCase{n: n}
		v := 0
		for j := 0; j < k; j++ {
			y := x % (len(pts) + 1)
			x /= len(pts) + 1
			if y == 0 {
				continue
			}
			v++
			p := pts[y-1]
			val := float64(v) / 8
			at := -1
			// a host sends one queue per parameter, points in order of their offset
			for q := range c.queues {
				if c.queues[q].id == p.id {
					at = q
				}
			}
			if at < 0 {
				c.queues = append(c.queues, hqueue{id: p.id, bad: -1})
				at = len(c.queues) - 1
			}
			c.queues[at].pts = append(c.queues[at].pts, point{p.off, val})
		}
		for q := range c.queues {
			l := c.queues[q].pts
			sort.SliceStable(l, func(a, b int) bool { return l[a].off < l[b].off })
		}
		return c
	}
	r.Each(total, func(x int) string { return fmt.Sprint("automation ", x) }, func(x int, _ *core.Worker) {
		if r.Failed("automation") {
			return
		}
		s := newAuto(n)
		defer s.i.free()
		c := mk(x)
		for _, c.notes = range noteSets {
			if e := s.play(c); e != "" {
				r.Failf("automation", "%v: %s", c, e)
				return
			}
			r.Count(1, 1)
		}
		if len(c.queues) > 0 {
			r.Nontrivial(1)
		}
		if x == total/2+7 {
			r.Sample(c.String())
		}
		r.Trace(1)
	})
	r.Bound("points", k)
	r.Bound("point_kinds", len(pts))

	// histories of blocks
	blocks := []autoCase{
		{n: 4}, {n: 0}, {n: 4, notes: noteSets[1]}, {n: 4, notes: noteSets[3]}, {n: 1, notes: noteSets[1]},
		{n: 4, queues: []hqueue{{id: 7, pts: []point{{2, 0.75}}, bad: -1}}, notes: noteSets[2]},
		{n: 4, queues: []hqueue{{absent: true}, {id: 3, pts: []point{{0, 0.1}, {1, 0.2}, {1, 0.3}, {3, 0.4}}, bad: 2}}},
		{n: 0, queues: []hqueue{{id: 7, pts: []point{{0, 0.9}}, bad: -1}, {id: 3, pts: []point{{0, 0.8}}, bad: -1}}},
		{n: 4, queues: []hqueue{{id: 3, pts: []point{{1, 1.5}, {2, -3}, {3, math.NaN()}}, bad: -1}, {id: 7, bad: -1}}, notes: noteSets[4]},
		{n: 3, queues: []hqueue{{id: 7, pts: []point{{7, 1}}, bad: -1}}, notes: noteSets[1]},
	}
	var ops []op[*autoState]
	for _, b := range blocks {
		ops = append(ops, op[*autoState]{b.String(), func(s *autoState) string { return s.play(b) }})
	}
	for _, id := range []uint32{7, 3} {
		ops = append(ops, op[*autoState]{fmt.Sprintf("setParamNormalized(%d, 0.6)", id), func(s *autoState) string {
			s.val[id] = 0.6
			if rc := s.i.set(id, 0.6); rc != 0 {
				return fmt.Sprintf("returned %d", rc)
			}
			return ""
		}})
	}
	histories(r, "blocks", func() *autoState { return newAuto(n) }, func(s *autoState) string { s.i.free(); return "" }, ops, r.Pick(5, 6))

	// dense automation: every number of points, more than a block has samples
	dense := r.Pick(160, 600)
	r.Each(dense, func(x int) string { return fmt.Sprint("dense ", x) }, func(x int, _ *core.Worker) {
		s := newAuto(64)
		defer s.i.free()
		for _, split := range []int{1, 2} {
			c := autoCase{n: 64}
			for q := 0; q < split; q++ {
				h := hqueue{id: []uint32{7, 3}[q], bad: -1}
				for j := 0; j < x; j++ {
					h.pts = append(h.pts, point{j * 64 / x, float64(j+1+q) / float64(x+2)})
				}
				c.queues = append(c.queues, h)
			}
			if e := s.play(c); e != "" {
				r.Failf("dense", "%d automation points for each of %d parameters in a block of 64 samples: %s", x, split, e)
			}
			r.Count(1, 1)
		}
		r.Nontrivial(1)
	})
	r.Bound("dense_points", dense)

	// the audio path does not allocate
	for _, c := range []autoCase{{n: 4}, {n: 4, queues: []hqueue{{id: 7, pts: []point{{0, 0.1}, {1, 0.2}, {3, 0.3}}, bad: -1}, {id: 3, pts: []point{{2, 0.9}}, bad: -1}}}} {
		s := newAuto(4)
		s.i.p.quiet = true
		hi, _ := s.i.lay(layout{2, 2}, 4, 0)
		ho, _ := s.i.lay(layout{2}, 4, 0)
		run, done := s.i.prepare(&block{n: 4, in: hi, out: ho, queues: c.queues, tr: &transport{}})
		for k := 0; k < 10; k++ {
			run()
		}
		least := uint64(math.MaxUint64)
		for k := 0; k < 5; k++ {
			var a, b runtime.MemStats
			runtime.GC()
			runtime.ReadMemStats(&a)
			for j := 0; j < 1000; j++ {
				run()
			}
			runtime.ReadMemStats(&b)
			least = min(least, b.Mallocs-a.Mallocs)
		}
		done()
		s.i.free()
		if least >= 500 {
			r.Failf("allocation", "processing %v allocates: %d allocations in 1000 blocks", c, least)
		}
		r.Count(1, 5000)
	}
}
