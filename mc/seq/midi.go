package seq

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	"github.com/justyntemme/vst3go/pkg/midi"
	"github.com/justyntemme/vst3go/verifmc/core"
)

func init() {
	core.Register("P15", p15)
	core.Register("P17", p17)
}

func evs(e []midi.Event) string {
	var s []string
	for _, x := range e {
		s = append(s, fmt.Sprintf("%d:%d@%d", x.Type(), x.Channel(), x.SampleOffset()))
	}
	return "[" + strings.Join(s, " ") + "]"
}

type mev struct {
	typ midi.EventType
	ch  uint8 // identity tag
	off int32
}
type qM struct {
	ev []mev
	// out is the model of the output queue of an event buffer
	out []mev
}

func (m *qM) sort() {
	sort.SliceStable(m.ev, func(i, j int) bool { return m.ev[i].off < m.ev[j].off })
}
func mevs(e []mev) string {
	var s []string
	for _, x := range e {
		s = append(s, fmt.Sprintf("%d:%d@%d", x.typ, x.ch, x.off))
	}
	return "[" + strings.Join(s, " ") + "]"
}

type qI struct {
	q    *midi.EventQueue
	held []heldSlice
}
type heldSlice struct {
	s    []midi.Event
	text string
}

func (i *qI) hold(e []midi.Event) string {
	t := evs(e)
	i.held = append(i.held, heldSlice{e, t})
	return t
}

type procF func(midi.Event)

func (p procF) ProcessEvent(e midi.Event) { p(e) }

func mkEvent(typ midi.EventType, ch uint8, off int32) midi.Event {
	b := midi.BaseEvent{EventChannel: ch, Offset: off}
	switch typ {
	case midi.EventTypeNoteOn:
		return midi.NoteOnEvent{BaseEvent: b, NoteNumber: 60, Velocity: 100}
	case midi.EventTypeNoteOff:
		return midi.NoteOffEvent{BaseEvent: b, NoteNumber: 60}
	case midi.EventTypePolyPressure:
		return midi.PolyPressureEvent{BaseEvent: b}
	case midi.EventTypeControlChange:
		return midi.ControlChangeEvent{BaseEvent: b}
	case midi.EventTypeProgramChange:
		return midi.ProgramChangeEvent{BaseEvent: b}
	case midi.EventTypeChannelPressure:
		return midi.ChannelPressureEvent{BaseEvent: b}
	case midi.EventTypePitchBend:
		return midi.PitchBendEvent{BaseEvent: b}
	case midi.EventTypeClock:
		return midi.ClockEvent{BaseEvent: b}
	case midi.EventTypeStart:
		return midi.StartEvent{BaseEvent: b}
	case midi.EventTypeStop:
		return midi.StopEvent{BaseEvent: b}
	case midi.EventTypeContinue:
		return midi.ContinueEvent{BaseEvent: b}
	}
	panic("unknown type")
}

var allTypes = []midi.EventType{midi.EventTypeNoteOff, midi.EventTypeNoteOn, midi.EventTypePolyPressure, midi.EventTypeControlChange,
	midi.EventTypeProgramChange, midi.EventTypeChannelPressure, midi.EventTypePitchBend, midi.EventTypeClock, midi.EventTypeStart, midi.EventTypeStop, midi.EventTypeContinue}

func p15(r *core.Run) {
	h := &core.Hist[*qI, *qM]{Name: "eventqueue",
		New:   func() *qI { return &qI{q: midi.NewEventQueue()} },
		Model: func() *qM { return &qM{} },
		Inv: func(i *qI, m *qM) string {
			for _, x := range i.held {
				if t := evs(x.s); t != x.text {
					return fmt.Sprintf("events handed out as %s later read %s", x.text, t)
				}
			}
			if i.q.Size() != len(m.ev) || i.q.IsEmpty() != (len(m.ev) == 0) {
				return fmt.Sprintf("size %d, empty %v; model holds %d", i.q.Size(), i.q.IsEmpty(), len(m.ev))
			}
			return ""
		},
	}
	op := func(name string, do func(i *qI) string, spec func(m *qM) string) {
		h.Ops = append(h.Ops, core.HOp[*qI, *qM]{Name: name, Do: do, Spec: spec})
	}
	add := func(typ midi.EventType, ch uint8, off int32) {
		op(fmt.Sprintf("Add(%d:%d@%d)", typ, ch, off),
			func(i *qI) string { i.q.Add(mkEvent(typ, ch, off)); return "" },
			func(m *qM) string { m.ev = append(m.ev, mev{typ, ch, off}); return "" })
	}
	add(midi.EventTypeNoteOn, 1, 5)
	add(midi.EventTypeNoteOff, 2, 5)
	add(midi.EventTypeControlChange, 3, 0)
	op("AddMultiple(4@9,5@2,6@5)", func(i *qI) string {
		e := []midi.Event{mkEvent(midi.EventTypePitchBend, 4, 9), mkEvent(midi.EventTypeClock, 5, 2), mkEvent(midi.EventTypeNoteOn, 6, 5)}
		i.q.AddMultiple(e)
		e[0], e[1], e[2] = mkEvent(midi.EventTypeStop, 15, 1), mkEvent(midi.EventTypeStop, 15, 1), mkEvent(midi.EventTypeStop, 15, 1) // the caller's slice is the caller's
		i.q.AddMultiple(nil)
		return ""
	}, func(m *qM) string {
		m.ev = append(m.ev, mev{midi.EventTypePitchBend, 4, 9}, mev{midi.EventTypeClock, 5, 2}, mev{midi.EventTypeNoteOn, 6, 5})
		return ""
	})
	rng := func(a, b int32) {
		spec := func(m *qM) string {
			m.sort()
			var o []mev
			for _, e := range m.ev {
				if e.off >= a && e.off < b {
					o = append(o, e)
				}
			}
			return mevs(o)
		}
		op(fmt.Sprintf("GetEventsInRange(%d,%d)", a, b), func(i *qI) string { return i.hold(i.q.GetEventsInRange(a, b)) }, spec)
	}
	rng(0, 5)
	rng(5, 6)
	rng(-100, 1000)
	rng(7, 3)
	op("ProcessEvents(0,9) adding more", func(i *qI) string {
		var got []midi.Event
		i.q.ProcessEvents(procF(func(e midi.Event) {
			got = append(got, e)
			i.q.Add(mkEvent(midi.EventTypeStart, 9, e.SampleOffset())) // re-entrant
		}), 0, 9)
		return evs(got)
	}, func(m *qM) string {
		m.sort()
		var o []mev
		for _, e := range m.ev {
			if e.off >= 0 && e.off < 9 {
				o = append(o, e)
			}
		}
		for _, e := range o {
			m.ev = append(m.ev, mev{midi.EventTypeStart, 9, e.off})
		}
		return mevs(o)
	})
	op("GetAllEvents", func(i *qI) string { return i.hold(i.q.GetAllEvents()) }, func(m *qM) string { m.sort(); return mevs(m.ev) })
	rem := func(x int32) {
		op(fmt.Sprintf("RemoveProcessedEvents(%d)", x), func(i *qI) string { i.q.RemoveProcessedEvents(x); return "" }, func(m *qM) string {
			var o []mev
			for _, e := range m.ev {
				if e.off > x {
					o = append(o, e)
				}
			}
			m.ev = o
			m.sort()
			return ""
		})
	}
	rem(4)
	rem(5)
	off := func(d int32) {
		op(fmt.Sprintf("OffsetEvents(%d)", d), func(i *qI) string { i.q.OffsetEvents(d); return "" }, func(m *qM) string {
			for k := range m.ev {
				m.ev[k].off += d
			}
			return ""
		})
	}
	off(3)
	off(-5)
	off(-200)
	op("Clear", func(i *qI) string { i.q.Clear(); return "" }, func(m *qM) string { m.ev = nil; return "" })
	h.Run(r, r.Pick(5, 6))

	// every type, every pair of offsets, moved and removed
	for _, t := range allTypes {
		for _, o := range []int32{0, 1, 63, 64, 511, 1 << 20} {
			for _, d := range []int32{-64, -1, 0, 1, 512} {
				q := midi.NewEventQueue()
				q.Add(mkEvent(t, 3, o))
				q.OffsetEvents(d)
				if e := q.GetAllEvents(); len(e) != 1 || e[0].SampleOffset() != o+d || e[0].Type() != t || e[0].Channel() != 3 {
					r.Failf("offset", "type %d at %d moved by %d became %s", t, o, d, evs(e))
				}
				if want := mkEvent(t, 3, o+d); !reflect.DeepEqual(q.GetAllEvents()[0], want) {
					r.Failf("offset", "moving a type %d event changed its payload", t)
				}
				for _, up := range []int32{o + d - 1, o + d} {
					q2 := midi.NewEventQueue()
					q2.Add(mkEvent(t, 3, o+d))
					q2.RemoveProcessedEvents(up)
					if (q2.Size() == 0) != (up >= o+d) {
						r.Failf("remove", "event at %d, RemoveProcessedEvents(%d) leaves %d", o+d, up, q2.Size())
					}
				}
				r.Count(1, 4)
			}
		}
	}
	// queues much longer than a block: every size, every range, every removal point
	for n := 0; n <= r.Pick(40, 140); n++ {
		for _, stride := range []int{1, 7, 11} { // arrival orders (n and stride coprime, or not: both are orders)
			mk := func() (*midi.EventQueue, []mev) {
				q, m := midi.NewEventQueue(), []mev(nil)
				for k := 0; k < n; k++ {
					o := int32((k*stride)%(n+1)) / 2
					q.Add(mkEvent(midi.EventTypeNoteOn, uint8(k), o))
					m = append(m, mev{midi.EventTypeNoteOn, uint8(k), o})
				}
				sort.SliceStable(m, func(i, j int) bool { return m[i].off < m[j].off })
				return q, m
			}
			q, m := mk()
			top := int32(n)/2 + 2
			for a := int32(-1); a <= top; a++ {
				for b := a - 1; b <= top; b += 1 + (top-a)/9 {
					var w []mev
					for _, e := range m {
						if e.off >= a && e.off < b {
							w = append(w, e)
						}
					}
					if g := evs(q.GetEventsInRange(a, b)); g != mevs(w) {
						r.Failf("long", "%d events, [%d,%d) returned %s, want %s", n, a, b, g, mevs(w))
					}
					r.Count(1, 1)
				}
				q2, _ := mk()
				q2.RemoveProcessedEvents(a)
				var w []mev
				for _, e := range m {
					if e.off > a {
						w = append(w, e)
					}
				}
				if g := evs(q2.GetAllEvents()); g != mevs(w) || q2.Size() != len(w) {
					r.Failf("long", "%d events, RemoveProcessedEvents(%d) leaves %s, want %s", n, a, g, mevs(w))
				}
				r.Count(1, int64(n))
			}
		}
	}
	// block loops: every event is delivered exactly once, in its own block,
	// whatever the block sizes, order of arrival and number of events
	n := r.Pick(7, 8)
	offs := []int32{0, 1, 3, 3, 4, 6, 7, 2}[:n]
	perm := func(f func(p []int)) {
		var rec func(p []int, rest []int)
		rec = func(p, rest []int) {
			if len(rest) == 0 {
				f(p)
				return
			}
			for i := range rest {
				nr := append(append([]int(nil), rest[:i]...), rest[i+1:]...)
				rec(append(append([]int(nil), p...), rest[i]), nr)
			}
		}
		var all []int
		for i := range offs {
			all = append(all, i)
		}
		rec(nil, all)
	}
	var comps [][]int
	core.Compositions(8, func(p []int) {
		if len(p) <= 4 {
			comps = append(comps, append([]int(nil), p...))
		}
	})
	perm(func(p []int) {
		if r.Failed("blocks") {
			return
		}
		want := make([]mev, 0, n)
		for _, k := range p {
			want = append(want, mev{midi.EventTypeNoteOn, uint8(k), offs[k]})
		}
		sort.SliceStable(want, func(i, j int) bool { return want[i].off < want[j].off })
		for _, c := range comps {
			b := midi.NewEventBuffer()
			for _, k := range p {
				b.AddInputEvent(mkEvent(midi.EventTypeNoteOn, uint8(k), offs[k]))
			}
			b.AddOutputEvent(mkEvent(midi.EventTypeStop, 15, 2))
			var got []midi.Event
			at := int32(0)
			for _, l := range c {
				for _, e := range b.GetInputEvents(at, at+int32(l)) {
					got = append(got, e)
					if e.SampleOffset() < at || e.SampleOffset() >= at+int32(l) {
						r.Failf("blocks", "event at %d delivered in block [%d,%d)", e.SampleOffset(), at, at+int32(l))
					}
				}
				at += int32(l)
			}
			if evs(got) != mevs(want) {
				r.Failf("blocks", "arrival %v blocks %v delivered %s, want %s", p, c, evs(got), mevs(want))
			}
			b.ClearInput()
			if len(b.GetInputEvents(-1, 100)) != 0 || evs(b.GetOutputEvents()) != "[9:15@2]" && len(b.GetOutputEvents()) != 1 {
				r.Failf("blocks", "clearing the input touched the output: %s %s", evs(b.GetInputEvents(-1, 100)), evs(b.GetOutputEvents()))
			}
			b.AddInputEvent(mkEvent(midi.EventTypeStop, 1, 1))
			b.ClearOutput()
			if len(b.GetInputEvents(-1, 100)) != 1 || len(b.GetOutputEvents()) != 0 {
				r.Failf("blocks", "clearing the output touched the input")
			}
			b.ClearAll()
			if len(b.GetInputEvents(-1, 100)) != 0 || len(b.GetOutputEvents()) != 0 {
				r.Failf("blocks", "ClearAll left events")
			}
			r.Count(1, int64(len(c)))
			r.Trace(1)
		}
	})
	r.Bound("arrival_orders_of", n)
	r.Bound("block_partitions", len(comps))
}

func p17(r *core.Run) {
	// every note, several tunings: exact equal temperament and its inverse
	for _, a4 := range []float64{0, 440, 432, 415.3, 442.5, 466.16, 220, 256, 110, 300, 512, 880, 1760} {
		ref := a4
		if ref == 0 {
			ref = 440
		}
		prev := 0.0
		for n := 0; n < 256; n++ {
			f := midi.NoteToFrequency(uint8(n), a4)
			want := ref * math.Pow(2, float64(n-69)/12)
			if math.Abs(f-want) > want*1e-4 { // 0.17 cent
				r.Failf("frequency", "note %d at A4=%v is %v Hz, want %v", n, a4, f, want)
			}
			if f <= prev {
				r.Failf("frequency", "note %d is not higher than its predecessor", n)
			}
			prev = f
			if n <= 127 {
				if b := midi.FrequencyToNote(f, a4); b != uint8(n) {
					r.Failf("roundtrip", "note %d at A4=%v is %v Hz, which maps back to %d", n, a4, f, b)
				}
				// anywhere within 49 cents maps to the note
				for c := -49; c <= 49; c++ {
					g := want * math.Pow(2, float64(c)/1200)
					if b := midi.FrequencyToNote(g, a4); b != uint8(n) {
						r.Failf("nearest", "%v Hz (note %d %+d cents at A4=%v) maps to %d", g, n, c, a4, b)
					}
				}
			}
			r.Count(1, 100)
			r.Nontrivial(1)
		}
		last := uint8(0)
		for k := 0; k < r.Pick(20000, 200000); k++ {
			f := 1e-3 * math.Pow(1.0012, float64(k))
			if f > 1e9 {
				break
			}
			b := midi.FrequencyToNote(f, a4)
			if b < last || b > 127 {
				r.Failf("monotone", "FrequencyToNote(%v)=%d after %d", f, b, last)
			}
			last = b
			r.Count(1, 1)
		}
		for f, want := range map[float64]uint8{0: 0, -5: 0, 1e-300: 0, 1e300: 127, math.Inf(1): 127, math.Inf(-1): 0} {
			if b := midi.FrequencyToNote(f, a4); b != want {
				r.Failf("edge", "FrequencyToNote(%v)=%d, want %d", f, b, want)
			}
		}
		if b := midi.FrequencyToNote(math.NaN(), a4); b > 127 {
			r.Failf("edge", "FrequencyToNote(NaN)=%d", b)
		}
	}
	names := []string{"C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B"}
	for n := 0; n < 256; n++ {
		if got, want := midi.NoteNumberToName(uint8(n)), fmt.Sprintf("%s%d", names[n%12], n/12-1); got != want {
			r.Failf("name", "note %d is named %q, want %q", n, got, want)
		}
		r.Count(1, 1)
	}
	prev := math.Inf(-1)
	for v := -32768; v <= 32767; v++ {
		x := midi.PitchBendEvent{Value: int16(v)}.NormalizedValue()
		if v < -8192 || v > 8191 {
			continue
		}
		if x < -1 || x > 1 || !(x > prev) || (v == 0 && x != 0) || (v < 0) != (x < 0) || math.Abs(x-float64(v)/8192) > 2e-4 {
			r.Failf("bend", "pitch bend %d normalizes to %v after %v", v, x, prev)
		}
		prev = x
		r.Count(1, 1)
	}
	// identity of all event kinds over all byte fields
	for _, t := range allTypes {
		for ch := 0; ch < 256; ch++ {
			for _, off := range []int32{math.MinInt32, -1, 0, 1, 1023, math.MaxInt32} {
				e := mkEvent(t, uint8(ch), off)
				if e.Type() != t || e.Channel() != uint8(ch) || e.SampleOffset() != off || e.String() == "" {
					r.Failf("event", "event %d on %d at %d reads %d %d %d %q", t, ch, off, e.Type(), e.Channel(), e.SampleOffset(), e.String())
				}
				r.Count(1, 1)
			}
		}
	}
	seen := map[midi.EventType]bool{}
	for _, t := range allTypes {
		if seen[t] {
			r.Failf("event", "event type %d used twice", t)
		}
		seen[t] = true
	}
	for n := 0; n < 256; n++ {
		for v := 0; v < 256; v++ {
			s := midi.NoteOnEvent{BaseEvent: midi.BaseEvent{EventChannel: 3, Offset: 17}, NoteNumber: uint8(n), Velocity: uint8(v)}.String()
			if s != fmt.Sprintf("NoteOn{ch:3, note:%d, vel:%d, offset:17}", n, v) {
				r.Failf("string", "%q", s)
			}
			r.Count(1, 1)
		}
	}
	r.Bound("notes", 256)
	r.Sample("note 60 at 440 -> 261.6256 Hz -> 60")
}
