package seq

import (
	"fmt"
	"sort"
	"strings"

	"github.com/justyntemme/vst3go/pkg/framework/voice"
	"github.com/justyntemme/vst3go/pkg/midi"
	"github.com/justyntemme/vst3go/verifmc/core"
)

func init() { core.Register("P25", p25) }

// mv is a synthesizer voice: idle, held, or releasing.
type mv struct {
	act, held bool
	note, vel uint8
	age       int64
	trig      int // TriggerNote calls in the current step
	rel       int
	stop      int
	keepNote  bool // Stop leaves the note number in place
}

func (v *mv) IsActive() bool     { return v.act }
func (v *mv) GetNote() uint8     { return v.note }
func (v *mv) GetVelocity() uint8 { return v.vel }
func (v *mv) GetAmplitude() float64 {
	if !v.act || v.held && v.age == 0 { // an attack starts from silence
		return 0
	}
	a := float64(v.vel) / 127
	if !v.held {
		a *= 0.4
	}
	return a
}

// GetAge counts samples: hours of playing, a sample apart.
func (v *mv) GetAge() int64 {
	if v.age == 0 {
		return 0
	}
	return 1<<40 + v.age
}
func (v *mv) TriggerNote(n, vel uint8) {
	v.act, v.held, v.note, v.vel, v.age = true, true, n, vel, 0
	v.trig++
}
func (v *mv) ReleaseNote() {
	v.held = false
	v.rel++
}
func (v *mv) Stop() {
	v.act, v.held, v.age = false, false, 0
	if !v.keepNote {
		v.note = 0
	}
	v.stop++
}
func (v *mv) Process([]float32) {}

type vsys struct {
	a     *voice.Allocator
	vs    []*mv
	mode  voice.AllocationMode
	steal voice.StealingMode
	max   int
	pedal bool
	down  map[uint8]bool // keys physically down
	sus   map[uint8]bool // released while the pedal was down
	cur   int            // mono/legato/unison: sounding key, -1 none
	ops   []vop
}

type vop struct {
	name string
	kind string
	n    uint8
	vel  uint8
	k    int
}

func (s *vsys) Key() string {
	var b strings.Builder
	fmt.Fprint(&b, core.Dump(s.a), s.max, s.pedal, s.cur, s.mode, s.steal)
	for n := 0; n < 128; n++ {
		if s.down[uint8(n)] {
			fmt.Fprint(&b, "d", n)
		}
		if s.sus[uint8(n)] {
			fmt.Fprint(&b, "s", n)
		}
	}
	return b.String()
}

// ranks keeps ages finite: only their order matters.
func (s *vsys) ranks() {
	var l []int64
	for _, v := range s.vs {
		if !v.act {
			v.age = 0
		}
		l = append(l, v.age)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	m := map[int64]int64{}
	m[0] = 0
	k := int64(0)
	for _, x := range l {
		if _, ok := m[x]; !ok {
			k++
			m[x] = k
		}
	}
	for _, v := range s.vs {
		v.age = m[v.age]
		v.trig, v.rel, v.stop = 0, 0, 0
	}
}

func (s *vsys) Do(o int) (string, bool) {
	op := s.ops[o]
	prev := make([]mv, len(s.vs))
	for i, v := range s.vs {
		prev[i] = *v
	}
	bad := s.step(op, prev)
	if bad == "" {
		bad = s.inv(op)
	}
	s.ranks()
	return bad, bad != "skip"
}

func show(v *mv) string {
	switch {
	case !v.act:
		return "idle"
	case v.held:
		return fmt.Sprintf("%d/%d held age %d", v.note, v.vel, v.age)
	}
	return fmt.Sprintf("%d/%d releasing age %d", v.note, v.vel, v.age)
}

// untouched reports a voice other than the excepted ones that changed.
func (s *vsys) untouched(prev []mv, except ...int) string {
	for i, v := range s.vs {
		skip := false
		for _, e := range except {
			skip = skip || e == i
		}
		if skip {
			continue
		}
		if v.act != prev[i].act || v.held != prev[i].held || (v.act && (v.note != prev[i].note || v.vel != prev[i].vel)) || v.trig > 0 {
			return fmt.Sprintf("voice %d went from %s to %s", i, show(&prev[i]), show(v))
		}
	}
	return ""
}

func (s *vsys) on(n, vel uint8, prev []mv) string {
	s.down[n] = true
	delete(s.sus, n)
	switch s.mode {
	case voice.ModePoly:
		own, free := -1, false
		for i := 0; i < s.max; i++ {
			if prev[i].act && prev[i].held && prev[i].note == n {
				own = i
			}
			free = free || !prev[i].act
		}
		got := -1
		for i, v := range s.vs {
			if v.trig > 0 {
				if got >= 0 {
					return fmt.Sprintf("one note started voices %d and %d", got, i)
				}
				got = i
			}
		}
		if own < 0 && !free && s.steal == voice.StealNone {
			return s.untouched(prev)
		}
		if got < 0 {
			return fmt.Sprintf("note %d does not sound", n)
		}
		if got >= s.max {
			return fmt.Sprintf("voice %d is beyond the limit of %d", got, s.max)
		}
		v := s.vs[got]
		if !v.act || !v.held || v.note != n || v.vel != vel {
			return fmt.Sprintf("voice %d plays %s instead of %d/%d", got, show(v), n, vel)
		}
		if e := s.untouched(prev, got); e != "" {
			return e
		}
		p := &prev[got]
		switch {
		case own >= 0:
			if got != own {
				return fmt.Sprintf("note %d already sounds on voice %d but started voice %d", n, own, got)
			}
		case free:
			if p.act {
				return fmt.Sprintf("voice %d (%s) was taken although a voice is free", got, show(p))
			}
		default:
			for i := 0; i < s.max; i++ {
				q := &prev[i]
				worse := false
				switch s.steal {
				case voice.StealOldest:
					worse = q.age > p.age
				case voice.StealQuietest:
					worse = q.GetAmplitude() < p.GetAmplitude()
				case voice.StealHighest:
					worse = q.note > p.note
				case voice.StealLowest:
					worse = q.note < p.note
				}
				if worse {
					return fmt.Sprintf("voice %d (%s) was stolen, voice %d is %s", got, show(p), i, show(q))
				}
			}
		}
	case voice.ModeMono:
		v := s.vs[0]
		if v.trig != 1 || !v.held || v.note != n || v.vel != vel {
			return fmt.Sprintf("mono note %d: voice plays %s", n, show(v))
		}
		s.cur = int(n)
		return s.untouched(prev, 0)
	case voice.ModeLegato:
		if s.cur >= 0 && prev[0].act {
			s.cur = int(n)
			return s.untouched(prev)
		}
		s.cur = int(n)
		v := s.vs[0]
		if v.trig != 1 || !v.held || v.note != n || v.vel != vel {
			return fmt.Sprintf("first legato note %d: voice plays %s", n, show(v))
		}
		return s.untouched(prev, 0)
	case voice.ModeUnison:
		s.cur = int(n)
		var ex []int
		for i := 0; i < s.max; i++ {
			v := s.vs[i]
			if v.trig != 1 || !v.held || v.note != n || v.vel != vel {
				return fmt.Sprintf("unison note %d: voice %d plays %s", n, i, show(v))
			}
			ex = append(ex, i)
		}
		return s.untouched(prev, ex...)
	}
	return ""
}

// released checks that exactly the voices of the given keys were released.
func (s *vsys) released(prev []mv, keys map[uint8]bool) string {
	for i, v := range s.vs {
		p := &prev[i]
		want := false
		if p.act && p.held {
			if s.mode == voice.ModePoly {
				want = keys[p.note]
			} else {
				want = s.cur >= 0 && keys[uint8(s.cur)]
			}
		}
		if want {
			if v.act && v.held || v.trig > 0 {
				return fmt.Sprintf("voice %d keeps playing %s after its release", i, show(v))
			}
			if !v.act {
				return fmt.Sprintf("voice %d was cut off instead of released", i)
			}
			continue
		}
		if v.act != p.act || v.held != p.held && p.act || v.trig > 0 || v.act && v.note != p.note {
			return fmt.Sprintf("voice %d went from %s to %s although its key is not released", i, show(p), show(v))
		}
	}
	if s.mode != voice.ModePoly && s.cur >= 0 && keys[uint8(s.cur)] {
		s.cur = -1
	}
	return ""
}

func (s *vsys) off(n uint8, prev []mv) string {
	delete(s.down, n)
	if s.pedal {
		s.sus[n] = true
		return s.untouched(prev)
	}
	return s.released(prev, map[uint8]bool{n: true})
}

func (s *vsys) reset() {
	s.pedal, s.cur = false, -1
	s.down, s.sus = map[uint8]bool{}, map[uint8]bool{}
}

func (s *vsys) step(op vop, prev []mv) string {
	be := midi.BaseEvent{}
	switch op.kind {
	case "on":
		s.a.NoteOn(op.n, op.vel)
		return s.on(op.n, op.vel, prev)
	case "onEvent":
		s.a.ProcessEvent(midi.NoteOnEvent{BaseEvent: be, NoteNumber: op.n, Velocity: op.vel})
		return s.on(op.n, op.vel, prev)
	case "off":
		s.a.ProcessEvent(midi.NoteOffEvent{BaseEvent: be, NoteNumber: op.n})
		return s.off(op.n, prev)
	case "on0": // note on with velocity 0 is a note off
		s.a.ProcessEvent(midi.NoteOnEvent{BaseEvent: be, NoteNumber: op.n})
		return s.off(op.n, prev)
	case "pedal":
		on := op.k >= 64
		s.a.ProcessEvent(midi.ControlChangeEvent{BaseEvent: be, Controller: midi.CCSustain, Value: uint8(op.k)})
		s.pedal = on
		if on {
			return s.untouched(prev)
		}
		keys := s.sus
		s.sus = map[uint8]bool{}
		return s.released(prev, keys)
	case "cc":
		s.a.ProcessEvent(midi.ControlChangeEvent{BaseEvent: be, Controller: uint8(op.n), Value: uint8(op.k)})
		return s.untouched(prev)
	case "tick":
		for _, v := range s.vs {
			if v.act {
				v.age++
			}
		}
	case "fade": // every releasing voice reaches silence
		for _, v := range s.vs {
			if v.act && !v.held {
				v.act = false
			}
		}
	case "decay": // a held voice dies away by itself
		v := s.vs[op.k]
		if !v.act || !v.held {
			return "skip"
		}
		v.act, v.held = false, false
	case "max":
		s.a.SetMaxVoices(op.k)
		s.max = max(1, min(op.k, len(s.vs)))
		for i, v := range s.vs {
			if i >= s.max && v.act {
				return fmt.Sprintf("voice %d sounds beyond the limit of %d", i, s.max)
			}
			if i < s.max && (v.act != prev[i].act || v.held != prev[i].held || v.trig > 0) {
				return fmt.Sprintf("changing the limit changed voice %d from %s to %s", i, show(&prev[i]), show(v))
			}
		}
	case "steal":
		s.a.SetStealingMode(voice.StealingMode(op.k))
		s.steal = voice.StealingMode(op.k)
		return s.untouched(prev)
	case "mode":
		s.a.SetMode(voice.AllocationMode(op.k))
		s.mode = voice.AllocationMode(op.k)
		s.reset()
		return s.silent()
	case "reset":
		s.a.Reset()
		s.reset()
		return s.silent()
	}
	return ""
}

func (s *vsys) silent() string {
	for i, v := range s.vs {
		if v.act {
			return fmt.Sprintf("voice %d still sounds after a reset", i)
		}
	}
	return ""
}

// inv: a held voice has a key (or the pedal) holding it; the limit is kept;
// the reported count is the number of sounding voices.
func (s *vsys) inv(op vop) string {
	n := 0
	for i, v := range s.vs {
		if !v.act {
			continue
		}
		n++
		if i >= s.max {
			return fmt.Sprintf("voice %d sounds beyond the limit of %d", i, s.max)
		}
		if !v.held {
			continue
		}
		k := v.note
		if s.mode != voice.ModePoly {
			if s.cur < 0 {
				return fmt.Sprintf("voice %d is stuck on %s: no key holds it", i, show(v))
			}
			k = uint8(s.cur)
		}
		if !s.down[k] && !s.sus[k] {
			return fmt.Sprintf("voice %d is stuck on %s: key %d is up", i, show(v), k)
		}
	}
	if g := s.a.GetActiveVoiceCount(); g != n {
		return fmt.Sprintf("active voice count %d, sounding %d", g, n)
	}
	return ""
}

func p25(r *core.Run) {
	if !r.Shard0() {
		return
	}
	type fam struct {
		name  string
		nv    int
		mode  voice.AllocationMode
		steal voice.StealingMode
		ops   []vop
		keep  bool
	}
	mkOps := func(notes []uint8, vels []uint8, extra ...vop) []vop {
		var o []vop
		for i, n := range notes {
			for _, v := range vels {
				k := "on"
				if i%2 == 1 {
					k = "onEvent"
				}
				o = append(o, vop{fmt.Sprintf("on(%d,%d)", n, v), k, n, v, 0})
			}
			k := "off"
			if i%2 == 1 {
				k = "on0"
			}
			o = append(o, vop{fmt.Sprintf("off(%d)", n), k, n, 0, 0})
		}
		return append(o, extra...)
	}
	pedal := []vop{{"pedal down", "pedal", 0, 0, 64}, {"pedal up", "pedal", 0, 0, 63}}
	fade := vop{"fade", "fade", 0, 0, 0}
	tick := vop{"tick", "tick", 0, 0, 0}
	dec := func(k int) vop { return vop{fmt.Sprint("decay ", k), "decay", 0, 0, k} }
	mx := func(k int) vop { return vop{fmt.Sprint("max ", k), "max", 0, 0, k} }
	steal := func(k int) vop { return vop{fmt.Sprint("steal ", k), "steal", 0, 0, k} }
	mode := func(k int) vop { return vop{fmt.Sprint("mode ", k), "mode", 0, 0, k} }
	reset := vop{"reset", "reset", 0, 0, 0}
	cc := vop{"other controller", "cc", 1, 0, 127}
	j := func(a []vop, b ...vop) []vop { return append(append([]vop(nil), a...), b...) }
	var fams []fam
	names := []string{"oldest", "quietest", "highest", "lowest", "none"}
	for st := voice.StealOldest; st <= voice.StealNone; st++ {
		fams = append(fams,
			fam{"poly2_" + names[st], 2, voice.ModePoly, st, mkOps([]uint8{0, 60, 64}, []uint8{100}, j(pedal, fade, tick, dec(0), dec(1))...), false},
			fam{"poly3_" + names[st], 3, voice.ModePoly, st, mkOps([]uint8{60, 64, 67, 72}, []uint8{30, 100}, fade, tick), true})
	}
	fams = append(fams,
		fam{"poly3_limits", 3, voice.ModePoly, voice.StealOldest, mkOps([]uint8{60, 64, 67}, []uint8{100}, j(pedal, fade, dec(0), dec(2), mx(1), mx(2), mx(9), mx(0))...), true},
		fam{"poly1", 1, voice.ModePoly, voice.StealOldest, mkOps([]uint8{0, 60, 127}, []uint8{1, 127}, j(pedal, fade, dec(0), reset, cc)...), false},
		fam{"poly2_switching", 2, voice.ModePoly, voice.StealOldest, mkOps([]uint8{60, 64, 67}, []uint8{100}, j(pedal, tick, steal(0), steal(2), steal(3), steal(4))...), true},
		fam{"mono", 2, voice.ModeMono, voice.StealOldest, mkOps([]uint8{0, 60, 64}, []uint8{100}, j(pedal, fade, dec(0), mx(1), mx(2), reset)...), false},
		fam{"legato", 2, voice.ModeLegato, voice.StealOldest, mkOps([]uint8{0, 60, 64}, []uint8{100}, j(pedal, fade, dec(0), mx(1), mx(2), reset)...), false},
		fam{"unison", 3, voice.ModeUnison, voice.StealOldest, mkOps([]uint8{0, 60, 64}, []uint8{100}, j(pedal, fade, dec(0), dec(2), mx(1), mx(2), mx(3), reset)...), true},
		fam{"modes", 2, voice.ModePoly, voice.StealOldest, mkOps([]uint8{0, 60, 64}, []uint8{100}, j(pedal, fade, mode(0), mode(1), mode(2), mode(3), reset)...), true},
	)
	if r.Thorough {
		fams = append(fams,
			fam{"poly4_oldest", 4, voice.ModePoly, voice.StealOldest, mkOps([]uint8{60, 64, 67, 72, 76}, []uint8{100}, j(pedal, fade, tick, dec(0))...), true},
			fam{"poly3_pedal_limits", 3, voice.ModePoly, voice.StealQuietest, mkOps([]uint8{60, 64, 67, 72}, []uint8{30, 100}, j(pedal, fade, dec(1), mx(2), mx(3))...), true})
	}
	chords(r)
	for _, f := range fams {
		f := f
		var nm []string
		for _, o := range f.ops {
			nm = append(nm, o.name)
		}
		core.Explore(r, f.name, func() core.Sys {
			s := &vsys{mode: f.mode, steal: f.steal, max: f.nv, ops: f.ops}
			var l []voice.Voice
			for i := 0; i < f.nv; i++ {
				v := &mv{keepNote: f.keep}
				s.vs = append(s.vs, v)
				l = append(l, v)
			}
			s.a = voice.NewAllocator(l)
			s.a.SetMode(f.mode)
			s.a.SetStealingMode(f.steal)
			s.reset()
			s.ranks()
			return s
		}, nm, r.Pick(40, 60), r.Pick(30000, 400000))
	}
}

// chords plays hands full of keys: every number of keys up to the voices (and
// beyond), the pedal pressed before, during or after, every way of letting go,
// and every key struck again while the pedal holds it.
func chords(r *core.Run) {
	top := r.Pick(12, 32)
	for nv := 1; nv <= top; nv += 1 + nv/4 {
		for keys := 1; keys <= top+2; keys++ {
			for pedalAt := -1; pedalAt <= 2; pedalAt++ {
				for _, offKind := range []string{"off", "on0", "mixed"} {
					for again := -1; again < keys; again += 1 + keys/5 {
						if r.Failed("chords") {
							return
						}
						s := &vsys{steal: voice.StealOldest, max: nv}
						var l []voice.Voice
						for i := 0; i < nv; i++ {
							v := &mv{keepNote: true}
							s.vs = append(s.vs, v)
							l = append(l, v)
						}
						s.a = voice.NewAllocator(l)
						s.reset()
						s.ranks()
						var trace []string
						do := func(op vop) {
							s.ops = []vop{op}
							trace = append(trace, op.name)
							if bad, _ := s.Do(0); bad != "" {
								r.Failf("chords", "%d voices: %s: %s", nv, strings.Join(trace, "; "), bad)
							}
							r.Count(1, 1)
						}
						down, up := vop{"pedal down", "pedal", 0, 0, 127}, vop{"pedal up", "pedal", 0, 0, 0}
						if pedalAt == 0 {
							do(down)
						}
						for k := 0; k < keys; k++ {
							n := uint8((k*5 + 40) % 128)
							do(vop{fmt.Sprint("on ", n), []string{"on", "onEvent"}[k%2], n, 90, 0})
							do(vop{"tick", "tick", 0, 0, 0})
							if pedalAt == 1 && k == keys/2 {
								do(down)
							}
						}
						if pedalAt == 2 {
							do(down)
						}
						for k := 0; k < keys; k++ {
							kind := offKind
							if kind == "mixed" {
								kind = []string{"off", "on0"}[k%2]
							}
							n := uint8((k*5 + 40) % 128)
							do(vop{fmt.Sprint(kind, " ", n), kind, n, 0, 0})
						}
						if again >= 0 {
							n := uint8((again*5 + 40) % 128)
							do(vop{fmt.Sprint("on ", n), "on", n, 70, 0})
						}
						do(up)
						do(vop{"fade", "fade", 0, 0, 0})
						r.Trace(1)
						r.Nontrivial(1)
					}
				}
			}
		}
	}
	r.Bound("chord_keys", top+2)
}
