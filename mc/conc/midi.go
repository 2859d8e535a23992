package conc

import (
	"fmt"
	"sort"
	"strings"

	"github.com/justyntemme/vst3go/pkg/midi"
	"github.com/justyntemme/vst3go/verifmc/core"
	"github.com/justyntemme/vst3go/verifmc/lin"
)

func init() { core.Register("P16", p16) }

type mev struct {
	id  uint8
	off int32
}

func evs(e []midi.Event) string {
	var s []string
	for _, x := range e {
		s = append(s, fmt.Sprintf("%d@%d", x.Channel(), x.SampleOffset()))
	}
	return strings.Join(s, " ")
}

func mk(id uint8, off int32) midi.Event {
	if id%2 == 0 {
		return midi.NoteOnEvent{BaseEvent: midi.BaseEvent{EventChannel: id, Offset: off}, NoteNumber: id}
	}
	return midi.ControlChangeEvent{BaseEvent: midi.BaseEvent{EventChannel: id, Offset: off}}
}

type qm struct{ e []mev }

func (m *qm) sort() { sort.SliceStable(m.e, func(i, j int) bool { return m.e[i].off < m.e[j].off }) }
func (m *qm) show(a, b int32) string {
	m.sort()
	var s []string
	for _, x := range m.e {
		if x.off >= a && x.off < b {
			s = append(s, fmt.Sprintf("%d@%d", x.id, x.off))
		}
	}
	return strings.Join(s, " ")
}

type pf func(midi.Event)

func (p pf) ProcessEvent(e midi.Event) { p(e) }

// p16: the event queue shared between a host thread and the audio thread.
func p16(r *core.Run) {
	q := func(o any) *midi.EventQueue { return o.(*midi.EventQueue) }
	m := func(o any) *qm { return o.(*qm) }
	rng := func(a, b int32) lin.Op {
		return lin.Op{Name: fmt.Sprintf("GetEventsInRange(%d,%d)", a, b), Do: func(o any) string { return evs(q(o).GetEventsInRange(a, b)) }, Spec: func(o any) string { return m(o).show(a, b) }}
	}
	f := &lin.Family{Name: "eventqueue",
		New: func() any {
			x := midi.NewEventQueue()
			x.AddMultiple([]midi.Event{mk(1, 7), mk(2, 3)})
			return x
		},
		Model: func() any { return &qm{[]mev{{1, 7}, {2, 3}}} },
		Alphabet: []lin.Op{
			{Name: "Add(3@5)", Do: func(o any) string { q(o).Add(mk(3, 5)); return "" }, Spec: func(o any) string { x := m(o); x.e = append(x.e, mev{3, 5}); return "" }},
			{Name: "AddMultiple(4@6,5@1)", Do: func(o any) string { q(o).AddMultiple([]midi.Event{mk(4, 6), mk(5, 1)}); return "" },
				Spec: func(o any) string { x := m(o); x.e = append(x.e, mev{4, 6}, mev{5, 1}); return "" }},
			rng(0, 6), rng(-10, 100),
			{Name: "ProcessEvents(0,4)", Do: func(o any) string {
				var g []midi.Event
				q(o).ProcessEvents(pf(func(e midi.Event) { g = append(g, e) }), 0, 4)
				return evs(g)
			}, Spec: func(o any) string { return m(o).show(0, 4) }},
			{Name: "GetAllEvents", Do: func(o any) string { return evs(q(o).GetAllEvents()) }, Spec: func(o any) string { return m(o).show(-1000, 1000) }},
			{Name: "RemoveProcessedEvents(4)", Do: func(o any) string { q(o).RemoveProcessedEvents(4); return "" }, Spec: func(o any) string {
				x := m(o)
				x.sort()
				var k []mev
				for _, e := range x.e {
					if e.off > 4 {
						k = append(k, e)
					}
				}
				x.e = k
				return ""
			}},
			{Name: "OffsetEvents(-2)", Do: func(o any) string { q(o).OffsetEvents(-2); return "" }, Spec: func(o any) string {
				for i := range m(o).e {
					m(o).e[i].off -= 2
				}
				return ""
			}},
			{Name: "Size", Do: func(o any) string { return fmt.Sprint(q(o).Size()) }, Spec: func(o any) string { return fmt.Sprint(len(m(o).e)) }},
			{Name: "Clear", Do: func(o any) string { q(o).Clear(); return "" }, Spec: func(o any) string { m(o).e = nil; return "" }},
			{Name: "IsEmpty", Do: func(o any) string { return fmt.Sprint(q(o).IsEmpty()) }, Spec: func(o any) string { return fmt.Sprint(len(m(o).e) == 0) }},
		},
		Final:     func(o any) string { return evs(q(o).GetAllEvents()) },
		FinalSpec: func(o any) string { return m(o).show(-1000, 1000) },
		Bound:     -1}
	f.Programs(r, []int{1, 1})
	f.Programs(r, []int{2, 1})
	f.Programs(r, []int{2, 2})
	f.Programs(r, []int{1, 1, 1})
	if r.Thorough {
		f.Programs(r, []int{3, 2})
		f.Programs(r, []int{2, 1, 1})
	}
	r.Bound("threads", 3)
	r.Bound("operations", r.Pick(4, 5))
	r.Bound("preemptions", "unbounded")
}
