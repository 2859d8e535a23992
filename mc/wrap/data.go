package wrap

import (
	"fmt"
	"math/bits"
	"unsafe"

	"github.com/justyntemme/vst3go/pkg/vst3"
	"github.com/justyntemme/vst3go/verifmc/core"
)

func init() { core.Register("P65", checkData) }

// seenBus compares a wrapped bus with the host's.
func seenBus(b *vst3.AudioBuffer, l hostBus, n int) string {
	if len(l.chans) == 0 {
		if b != nil {
			return "a bus without channels has a buffer"
		}
		return ""
	}
	if b == nil {
		return fmt.Sprintf("no buffer for %d channels", len(l.chans))
	}
	if b.NumChannels() != len(l.chans) || int(b.NumSamples()) != n {
		return fmt.Sprintf("%d channels of %d samples, the host passed %d of %d", b.NumChannels(), b.NumSamples(), len(l.chans), n)
	}
	if b.GetChannel(-1) != nil || b.GetChannel(len(l.chans)) != nil {
		return "a channel that does not exist was returned"
	}
	for k, c := range l.chans {
		d := b.GetChannel(k)
		if c == nil || l.noPtrs {
			if d != nil {
				return fmt.Sprintf("channel %d: a null pointer became %d samples", k, len(d))
			}
			continue
		}
		if len(d) != n || cap(d) != n || n > 0 && uintptr(unsafe.Pointer(&d[0])) != at(c) {
			return fmt.Sprintf("channel %d: %d samples (capacity %d) not in the host's memory of %d", k, len(d), cap(d), n)
		}
		for j := range d {
			if d[j] != c.data()[j] {
				return fmt.Sprintf("channel %d sample %d reads %v, the host wrote %v", k, j, d[j], c.data()[j])
			}
			d[j] = -d[j] - 1
			if c.data()[j] != d[j] {
				return fmt.Sprintf("channel %d sample %d: what the plugin writes does not reach the host", k, j)
			}
		}
		if !c.intact() {
			return fmt.Sprintf("channel %d: memory outside the block was written", k)
		}
	}
	return ""
}

// checkData: the safe view of the host's process data.
func checkData(r *core.Run) {
	if vst3.NewProcessDataWrapper(nil) != nil {
		r.Failf("data", "no data became a view")
	}
	lays := []layout{nil, {}, {0}, {1}, {2}, {-3}, {102}, {6}, {17}, {2, 2}, {2, 0, 1}, {1, -4, 2}, {102, 2}, {0, 0, 2}, {2, 2, 2, 2}, {24, 24}}
	ns := []int{0, 1, 2, 7, 64, 1000}
	total := len(lays) * len(lays) * len(ns)
	r.Each(total, func(x int) string { return fmt.Sprint("process data ", x) }, func(x int, _ *core.Worker) {
		in, out, n := lays[x%len(lays)], lays[x/len(lays)%len(lays)], ns[x/len(lays)/len(lays)]
		i := create(newProc())
		defer i.free()
		hi, _ := i.lay(in, n, 1000)
		ho, _ := i.lay(out, n, -5000)
		p, done := i.blockData(&block{n: n, in: hi, out: ho, noChanges: true, noEvents: true})
		defer done()
		w := vst3.NewProcessDataWrapper(p)
		fail := func(what, e string) {
			r.Failf("data", "inputs %v, outputs %v, %d samples: %s: %s", in, out, n, what, e)
		}
		if int(w.NumSamples()) != n || w.GetContext() != nil {
			fail("view", fmt.Sprintf("%d samples, context %v", w.NumSamples(), w.GetContext()))
		}
		for k := range hi {
			if e := seenBus(w.GetInput(k), hi[k], n); e != "" {
				fail(fmt.Sprint("input bus ", k), e)
			}
		}
		for k := range ho {
			if e := seenBus(w.GetOutput(k), ho[k], n); e != "" {
				fail(fmt.Sprint("output bus ", k), e)
			}
		}
		for _, k := range []int{-1, -100, len(hi), len(hi) + 1} {
			if w.GetInput(k) != nil {
				fail("input bus", fmt.Sprint("bus ", k, " exists"))
			}
		}
		for _, k := range []int{-1, -100, len(ho), len(ho) + 1} {
			if w.GetOutput(k) != nil {
				fail("output bus", fmt.Sprint("bus ", k, " exists"))
			}
		}
		r.Count(1, int64(len(hi)+len(ho)))
		r.Nontrivial(1)
	})
	// the context: every pair of state bits, every field
	i := create(newProc())
	defer i.free()
	type flag struct {
		name string
		bit  uint
		get  func(c *vst3.ProcessContext) bool
	}
	flags := []flag{{"IsPlaying", 1, (*vst3.ProcessContext).IsPlaying}, {"IsCycleActive", 2, (*vst3.ProcessContext).IsCycleActive}, {"IsRecording", 3, (*vst3.ProcessContext).IsRecording},
		{"HasProjectTimeMusic", 9, (*vst3.ProcessContext).HasProjectTimeMusic}, {"HasTempo", 10, (*vst3.ProcessContext).HasTempo}, {"HasBarPosition", 11, (*vst3.ProcessContext).HasBarPosition}, {"HasTimeSignature", 13, (*vst3.ProcessContext).HasTimeSignature}}
	names := map[vst3.ProcessContextFlags]uint{vst3.ProcessContextFlagPlaying: 1, vst3.ProcessContextFlagCycleActive: 2, vst3.ProcessContextFlagRecording: 3, vst3.ProcessContextFlagSystemTimeValid: 8,
		vst3.ProcessContextFlagProjectTimeValid: 9, vst3.ProcessContextFlagTempoValid: 10, vst3.ProcessContextFlagBarPositionValid: 11, vst3.ProcessContextFlagCycleValid: 12, vst3.ProcessContextFlagTimeSigValid: 13,
		vst3.ProcessContextFlagSmpteValid: 14, vst3.ProcessContextFlagClockValid: 15, vst3.ProcessContextFlagContTimeValid: 17, vst3.ProcessContextFlagChordValid: 18}
	for f, b := range names {
		if bits.OnesCount32(uint32(f)) != 1 || uint(bits.TrailingZeros32(uint32(f))) != b {
			r.Failf("context", "a state flag is %#x, VST3 defines 1<<%d", uint32(f), b)
		}
	}
	if len(names) != 13 {
		r.Failf("context", "state flags coincide")
	}
	n := int64(0)
	for a := uint(0); a < 20; a++ {
		for b := uint(0); b < 20; b++ {
			for _, inv := range []uint32{0, 0xffffffff} {
				st := (uint32(1)<<a | uint32(1)<<b) ^ inv
				o := float64(a*100+b) + 0.25
				tr := &transport{state: st, tempo: 100 + o, num: int32(a) - 3, den: int32(b) + 50, music: 1e6 + o, bar: -o, cs: 2 * o, ce: 3*o + 1, proj: 1<<40 + int64(a), cont: -(1 << 41) - int64(b), clock: -7 - int32(a), sys: 1<<50 + int64(b), sr: 44100 + o}
				p, done := i.blockData(&block{n: 1, tr: tr, noChanges: true, noEvents: true})
				c := vst3.NewProcessDataWrapper(p).GetContext()
				n++
				if c == nil {
					r.Failf("context", "the context is missing")
					return
				}
				want := vst3.ProcessContext{State: vst3.ProcessContextFlags(st), SampleRate: tr.sr, ProjectTimeSamples: tr.proj, SystemTime: tr.sys, ContinuousTimeSamples: tr.cont, ProjectTimeMusic: tr.music, BarPositionMusic: tr.bar,
					CycleStartMusic: tr.cs, CycleEndMusic: tr.ce, Tempo: tr.tempo, TimeSigNumerator: tr.num, TimeSigDenominator: tr.den, SamplesToNextClock: tr.clock}
				if *c != want {
					r.Failf("context", "the host's context %+v reads %+v", *tr, *c)
				}
				for _, f := range flags {
					if f.get(c) != (st>>f.bit&1 == 1) {
						r.Failf("context", "state %#x: %s() = %v", st, f.name, f.get(c))
					}
				}
				done()
			}
		}
	}
	r.Count(n, n)
	r.Bound("layouts", total)
}
