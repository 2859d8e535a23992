package seq

import (
	"fmt"
	"math"
	"strings"

	"github.com/justyntemme/vst3go/verifmc/core"
	"github.com/justyntemme/vst3go/verifmc/rack"
)

func init() {
	core.Register("P71", p71)
	core.Register("P72", p72)
	core.Register("P73", p73)
}

// rackTone is the sound the processors are compared with: it is loud enough to
// work the dynamics and has a pause to let them go.
func rackTone(n int) [2][]float32 {
	return rackSound(n, func(i int) (float32, float32) {
		if i > n*5/8 && i < n*7/8 {
			return 0.001, 0
		}
		return float32(math.Sin(float64(i) * 0.7)), float32(math.Cos(float64(i) * 0.3))
	})
}

// sameSounds is whether two sounds are the same, samples that are no numbers included.
func sameSounds(a, b [2][]float32) (int, bool) {
	for c := range a {
		for i, x := range a[c] {
			if y := b[c][i]; x != y && (x == x || y == y) {
				return i, false
			}
		}
	}
	return 0, true
}

// method is the name of the method that a setting calls.
func method(o rack.Op) string { s, _, _ := strings.Cut(o.Name, "("); return s }

// rackNames joins the names of settings.
func rackNames(ops []rack.Op, seq []int) string {
	s := []string{}
	for _, j := range seq {
		s = append(s, ops[j].Name)
	}
	return strings.Join(s, "; ")
}

// p71: the division into blocks does not matter.
func p71(r *core.Run) {
	long, short := 256, r.Pick(8, 10)
	ks := rack.Kinds(8000)
	depth := r.Pick(1, 2)
	step := r.Pick(1, 7)
	for ki := range ks {
		k := &ks[ki]
		if k.Random && !k.Chance || k.Whole {
			continue
		}
		ops := k.Mk().Ops
		n := max(1, len(ops))
		d := depth
		if len(ops) == 0 {
			d = 0
		}
		r.Each(countSettings(n, d), func(x int) string { return fmt.Sprint(k.Name, " setting ", x) }, func(x int, _ *core.Worker) {
			seq := settings(n, d, x)
			// play runs blocks that end at the cuts; a meter's readings are those after
			// the last of them, which is long enough to hold them
			var one *rack.Inst
			play := func(m [2][]float32, cuts []int) (out [2][]float32) {
				in := one
				if in == nil {
					in = k.Mk()
					for _, j := range seq {
						in.Ops[j].Do()
					}
				} else {
					in.Ops[len(in.Ops)-1].Do() // its Reset
				}
				if k.Chance {
					one = in
				}
				l, rr := append([]float32{}, m[0]...), append([]float32{}, m[1]...)
				at := 0
				for _, c := range cuts {
					in.Run(l[at:c], rr[at:c])
					if k.Meter && c == len(l) && c-at >= 2 {
						return [2][]float32{l[at : at+2]}
					}
					at = c
				}
				if k.Meter {
					return
				}
				return [2][]float32{l, rr}
			}
			check := func(m, want [2][]float32, cuts []int) bool {
				got := play(m, cuts)
				if k.Meter && got[0] == nil {
					return true
				}
				r.Count(1, int64(len(cuts)))
				if i, ok := sameSounds(want, got); !ok {
					r.Failf("blocks:"+k.Name, "%s: %s: blocks that end at %v: sample %d differs from that of one block of %d", k.Name, rackNames(ops, seq), cuts, i, len(m[0]))
					return false
				}
				return true
			}
			m := rackTone(long)
			want := play(m, []int{long})
			for c := 0; c <= long; c += step {
				if !check(m, want, []int{c, long}) {
					return
				}
			}
			for _, size := range []int{1, 2, 3, 16, 100} { // and blocks of one size
				cuts := []int{}
				for at := size; at < long; at += size {
					cuts = append(cuts, at)
				}
				if !check(m, want, append(cuts, long)) {
					return
				}
			}
			m = rackTone(short)
			want = play(m, []int{short})
			for x := 0; x < 1<<(short-1); x++ { // every division of the short sound
				cuts := []int{}
				for i := 0; i < short-1; i++ {
					if x>>i&1 == 1 {
						cuts = append(cuts, i+1)
					}
				}
				cuts = append(cuts, short)
				if x == 0 {
					cuts = []int{0, short, short}
				}
				if !check(m, want, cuts) {
					return
				}
			}
			r.Nontrivial(1)
		})
	}
	r.Bound("settings_in_sequence", depth)
	r.Bound("divisions_of_a_short_sound", 1<<(short-1))
}

// rackPositions are the calls that say where a processor is, not how it works.
var rackPositions = map[string]bool{"SetPhase": true, "Trigger": true, "Release": true, "Sync": true, "SetSeed": true, "SetTarget": true, "SetImmediate": true, "Reset": true}

// p72: reset forgets the past and keeps the settings.
func p72(r *core.Run) {
	const n = 240
	ks := rack.Kinds(8000)
	past := rackTone(n)
	// what comes after is as loud, or starts so softly that any rest of the past shows
	soft := rackSound(n, func(i int) (float32, float32) {
		a := 1e-4
		if i >= n/2 {
			a = 0.5
		}
		return float32(a * math.Cos(float64(i)*0.5)), float32(a * math.Sin(float64(i)*0.9))
	})
	depth := r.Pick(2, 3)
	for ki := range ks {
		k := &ks[ki]
		ops := k.Mk().Ops
		reset, trigger := -1, -1
		for i, o := range ops {
			if o.Name == "Reset()" && reset < 0 {
				reset = i
			}
			if o.Name == "Trigger()" {
				trigger = i
			}
		}
		if k.Random && !k.Chance || reset < 0 {
			continue
		}
		r.Each(countSettings(len(ops), depth), func(x int) string { return fmt.Sprint(k.Name, " case ", x) }, func(x int, _ *core.Worker) {
			seq := settings(len(ops), depth, x)
			if len(seq) == 3 && (seq[0]+seq[1]*3+seq[2]*5)%8 != 0 {
				return // one in eight of the triples
			}
			for _, j := range seq {
				if rackPositions[method(ops[j])] {
					return
				}
			}
			run := func(in *rack.Inst, m [2][]float32, size int) [2][]float32 {
				l, rr := append([]float32{}, m[0]...), append([]float32{}, m[1]...)
				for at := 0; at < n; at += size {
					in.Run(l[at:at+size], rr[at:at+size])
				}
				return [2][]float32{l, rr}
			}
			start := func(in *rack.Inst) {
				if trigger >= 0 {
					in.Ops[trigger].Do()
				}
			}
			for _, after := range [][2][]float32{soft, past} {
				fresh := k.Mk()
				for _, j := range seq {
					fresh.Ops[j].Do()
				}
				rest := run(fresh, after, 20) // not triggered: an envelope rests
				fresh.Ops[reset].Do()
				start(fresh)
				want := run(fresh, after, 20)
				if trigger < 0 {
					want = rest
				}
				// the past has any number of the settings in it
				for at := 0; at <= len(seq); at++ {
					used := k.Mk()
					if k.Chance {
						used = fresh
					}
					start(used)
					for i := 0; i <= len(seq); i++ {
						if i <= at {
							run(used, past, n)
						}
						if i == at {
							for _, o := range ops { // positions moved
								if method(o) == "SetPhase" {
									o.Do()
								}
							}
							used.Ops[reset].Do()
						}
						if i < len(seq) {
							used.Ops[seq[i]].Do()
						}
					}
					if trigger >= 0 {
						if i, ok := sameSounds(rest, run(used, after, 20)); !ok {
							r.Failf("reset:"+k.Name, "%s: %s, reset after %d of them: sample %d is not what it was before the envelope started", k.Name, rackNames(ops, seq), at, i)
							return
						}
						start(used)
					}
					got := run(used, after, 20)
					r.Count(1, int64(at+2))
					if i, ok := sameSounds(want, got); !ok {
						r.Failf("reset:"+k.Name, "%s: %s, reset after %d of them: sample %d is %v, %v; one that was never used gives %v, %v",
							k.Name, rackNames(ops, seq), at, i, got[0][i], got[1][i], want[0][i], want[1][i])
						return
					}
				}
			}
			r.Nontrivial(1)
		})
	}
	r.Bound("settings_in_sequence", depth)
}

// covers is whether a setting replaces all that another sets: 1 if it does, -1
// if the two touch the same thing otherwise, 0 if they are independent.
func covers(k *rack.Kind, o, p rack.Op) int {
	a, b := method(o), method(p)
	switch {
	case k.Name == "Biquad":
		return 1
	case k.Name == "ParameterSmoother":
		x, _, _ := strings.Cut(o.Name, " ")
		y, _, _ := strings.Cut(p.Name, " ")
		if x == y {
			return 1
		}
		return 0
	case a == b:
		return 1
	case a == "SetFrequencyAndQ" && b != "SetMode":
		return 1
	case b == "SetFrequencyAndQ" && a != "SetMode":
		return -1
	}
	wide := map[string]bool{"SetDepth": true, "SetCenterFrequency": true, "SetFrequencyRange": true}
	if strings.HasPrefix(k.Name, "Phaser") && wide[a] && wide[b] {
		if a == "SetFrequencyRange" {
			return 1
		}
		return -1
	}
	return 0
}

// p73: only the last value of each setting counts.
func p73(r *core.Run) {
	const n = 320
	// settings that start something anew, and the range of a gate, which a closed
	// gate takes at once
	anew := map[string]bool{"SetVoices": true, "SetStages": true, "SetAveraging": true, "SetRange": true}
	m := rackTone(n)
	ks := rack.Kinds(8000)
	for ki := range ks {
		k := &ks[ki]
		if k.Random {
			continue
		}
		ops := k.Mk().Ops
		no := len(ops)
		setter := func(j int) bool {
			return strings.HasPrefix(ops[j].Name, "Set") && !strings.HasPrefix(ops[j].Name, "SetPreset") && !rackPositions[method(ops[j])] && ops[j].Name != "SetHopSize(0)" // which is refused
		}
		play := func(first, at int, seq []int, then int) (out [2][]float32) {
			in := k.Mk()
			if first >= 0 {
				in.Ops[first].Do()
			}
			l, rr := append([]float32{}, m[0]...), append([]float32{}, m[1]...)
			in.Run(l[:at], rr[:at])
			for _, j := range seq {
				in.Ops[j].Do()
			}
			in.Run(l[at:250], rr[at:250])
			if then >= 0 {
				in.Ops[then].Do()
			}
			in.Run(l[250:], rr[250:])
			return [2][]float32{l, rr}
		}
		r.Each(no*no, func(x int) string { return fmt.Sprint(k.Name, " pair ", x) }, func(x int, _ *core.Worker) {
			a, b := x%no, x/no
			if !setter(a) || !setter(b) {
				return
			}
			for first := -1; first < no; first++ {
				if !r.Thorough && (first+1+a+b)%8 != 0 || first >= 0 && !setter(first) && method(ops[first]) != "Trigger" {
					continue
				}
				for _, at := range []int{0, 100} {
					c := covers(k, ops[b], ops[a])
					if mt := method(ops[a]); c == 1 && at > 0 && a != b && (mt == "SetLookahead" || mt == "SetRMSWindow" || mt == "SetRange") {
						continue // a line or window starts anew when its length changes
					}
					base := play(first, at, []int{a, b}, -1)
					same := func(what string, got [2][]float32) bool {
						r.Count(1, 4)
						if i, ok := sameSounds(base, got); !ok {
							nm := ""
							if first >= 0 {
								nm = ops[first].Name + "; "
							}
							r.Failf("settings:"+k.Name, "%s: %safter %d samples %s; %s: sample %d is %v, %v; %s it is %v, %v", k.Name, nm, at, ops[a].Name, ops[b].Name,
								i, base[0][i], rr0(base[1], i), what, got[0][i], rr0(got[1], i))
							return false
						}
						return true
					}
					switch {
					case c == 1 && !same("without the first of the two", play(first, at, []int{b}, -1)):
						return
					case c == 0 && covers(k, ops[a], ops[b]) == 0 && !same("the other way round", play(first, at, []int{b, a}, -1)):
						return
					}
					if !anew[method(ops[b])] && !same("when the second is set again", play(first, at, []int{a, b}, b)) {
						return
					}
					if covers(k, ops[b], ops[a]) == 0 && !anew[method(ops[a])] && !same("when the first is set again", play(first, at, []int{a, b}, a)) {
						return
					}
				}
			}
			r.Nontrivial(1)
		})
	}
	r.Bound("settings_in_sequence", 4)
}

func rr0(b []float32, i int) float32 {
	if i < len(b) {
		return b[i]
	}
	return 0
}
